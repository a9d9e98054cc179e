edits=[("src/common/hashslot/hash_slot.go","""		} else if edge.Start >= start && edge.Start < end {
			res = append(res, &Edge{edge.Start, ed, edge.Value})
			rangeLen -= ed - edge.Start""","""		} else if edge.Start >= start && edge.Start < end {
			if n := len(res); n > 0 && res[n-1].Value == edge.Value {
				// extends the previous range of the same owner
				rangeLen -= ed - res[n-1].End
				res[n-1].End = ed
				continue
			}
			res = append(res, &Edge{edge.Start, ed, edge.Value})
			rangeLen -= ed - edge.Start""")]
needs="two ranges of one owner with an unowned gap between them, asked for a range across the gap"
breaks="FindRangeCurrentData merges ranges of one owner across a hole: slots nobody owns are reported as owned and IsValidEdge accepts them."
demo='''package hashslot

import "testing"

func TestDemo(t *testing.T) {
	p, err := WrapSlots(map[string][]string{"a": {"0-10", "20-30"}})
	if err != nil {
		t.Fatal(err)
	}
	if _, full := FindRangeCurrentData(0, 30, p); full {
		t.Fatal("hole reported as covered")
	}
	if IsValidEdge(&Edge{Start: 5, End: 25, Value: "a"}, p) {
		t.Fatal("range with hole accepted")
	}
}
'''
