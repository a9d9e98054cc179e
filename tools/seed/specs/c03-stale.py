edits=[("src/common/proto/msg/metadata_gen.go","""				bts, err = msgp.ReadNilBytes(bts)
				if err != nil {
					return
				}
				z.Extra = nil
""","""				bts, err = msgp.ReadNilBytes(bts)
				if err != nil {
					return
				}
""")]
needs="a metadata without a summary decoded into a record that was used before"
breaks="The summary of the previously decoded metadata shows up in the next one."
demo='''package msg

import "testing"

func TestDemo(t *testing.T) {
	a, _ := (&Metadata{Name: "a", Extra: &Extra{Total: 3}}).MarshalMsg(nil)
	b, _ := (&Metadata{Name: "b"}).MarshalMsg(nil)
	var m Metadata
	if _, err := m.UnmarshalMsg(a); err != nil || m.Extra == nil || m.Total != 3 {
		t.Fatal(m, err)
	}
	if _, err := m.UnmarshalMsg(b); err != nil || m.Name != "b" || m.Extra != nil {
		t.Fatal(m, err)
	}
}
'''
