edits=[("src/common/hashslot/hash_slot.go","""				tmp = append(tmp, &Edge{Start: edge.Start, End: del.Start, Value: edge.Value})
			}
""","""				tmp = append(tmp, &Edge{Start: edge.Start, End: del.Start, Value: edge.Value})
				if edge.End-del.End <= 1 {
					continue
				}
			}
""")]
needs="a removed range that lies strictly inside an owned range and ends one slot before its end"
breaks="RemoveEdges drops the last single slot behind the removed range: the slot has no owner any more."
demo='''package hashslot

import "testing"

func TestDemo(t *testing.T) {
	src, _ := WrapSlotsToEdges([]string{"0-100"}, "a")
	del, _ := WrapSlotsToEdges([]string{"10-99"}, "a")
	res := RemoveEdges(src, del)
	if !IsSlotInEdges(99, res) || IsSlotInEdges(98, res) || !IsSlotInEdges(9, res) {
		t.Fatal(res.Strings())
	}
}
'''
