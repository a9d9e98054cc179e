edits=[("src/common/hashslot/hash_slot.go","""		if pre.Start == edge.Start || pre.End > edge.Start {""","""		if pre.Start == edge.Start || (pre.End > edge.Start && pre.End < edge.End) {""")]
needs="a range completely contained in another owner's range, with a different start"
breaks="Nested ownership is not rejected as overlapping: slots of the inner range have two owners."
demo='''package hashslot

import "testing"

func TestDemo(t *testing.T) {
	if _, err := WrapSlots(map[string][]string{"a": {"0-100"}, "b": {"10-20"}}); err == nil {
		t.Fatal("nested ranges of two owners accepted")
	}
	if _, err := WrapSlots(map[string][]string{"a": {"0-100"}, "b": {"100-200"}}); err != nil {
		t.Fatal(err)
	}
}
'''
