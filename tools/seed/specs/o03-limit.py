edits=[("src/common/system/disk/aligend_reader.go","""	if int64(n) > l.N {
		n = int(l.N)
	}
""","""	if int64(n) > l.N && err == nil {
		n = int(l.N)
	}
""")]
needs="a source that gives its last data together with the end, and more than the limit"
breaks="Bytes beyond the limit are delivered."
demo='''package disk

import (
	"bytes"
	"io"
	"testing"
	"testing/iotest"
)

func TestDemo(t *testing.T) {
	src := bytes.Repeat([]byte{7}, 5000)
	for _, r := range []io.Reader{bytes.NewReader(src), iotest.DataErrReader(bytes.NewReader(src))} {
		bt := make([]byte, 8192)
		n := 0
		lr := LimitReader(r, 4500)
		for {
			m, err := lr.Read(bt)
			n += m
			if err != nil {
				break
			}
		}
		if n != 4500 {
			t.Fatal(n)
		}
	}
}
'''
