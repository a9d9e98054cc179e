edits=[('src/common/performance/collector.go','''	if err := c.store.Put(c.memData); err != nil {
		return err
	}
	slices.Clear(&c.memData)
	return nil
''','''	defer slices.Clear(&c.memData)
	return c.store.Put(c.memData)
''')]
needs='a flush which fails, followed by one that succeeds'
breaks='The samples of a failed flush are dropped from the buffer and never stored.'
demo='''package performance

import (
	"errors"
	"testing"
	"time"
)

type flaky struct {
	Store
	fail bool
	n    int
}

func (f *flaky) Put(l []*Perform) error {
	if f.fail {
		return errors.New("down")
	}
	f.n += len(l)
	return nil
}

func TestDemo(t *testing.T) {
	f := &flaky{fail: true}
	SetLocalStore(f)
	c := NewCollector(&Config{Enable: true, Store: Local, FlushInterval: time.Hour, MaxInMemory: 10})
	for i := 0; i < 3; i++ {
		_ = c.Put("read", "http", time.Second)
	}
	if c.Flush() == nil {
		t.Fatal("no error")
	}
	f.fail = false
	if err := c.Flush(); err != nil || f.n != 3 {
		t.Fatal(err, f.n)
	}
}
'''
