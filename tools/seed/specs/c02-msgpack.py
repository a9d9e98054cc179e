edits=[("src/common/datasize/msgpack.go","""	o = msgp.AppendUint64(o, uint64(*d))
""","""	o = msgp.AppendUint32(o, uint32(*d))
""")]
needs="a size of 4 GiB or more stored in binary form by the appending encoder"
breaks="Sizes from 4 GiB on lose their upper bits when they are stored."
demo='''package datasize

import "testing"

func TestDemo(t *testing.T) {
	for _, d := range []DataSize{5, 10 * GB} {
		bt, err := d.MarshalMsg(nil)
		if err != nil {
			t.Fatal(err)
		}
		var r DataSize
		if _, err = r.UnmarshalMsg(bt); err != nil || r != d {
			t.Fatal(d, r, err)
		}
	}
}
'''
