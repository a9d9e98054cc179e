edits=[("src/metaserver/internal/usecase/db/storage.go","""	// change current db to new one
	s.current.Store(newDB)
""","""	// nothing may be read from the old one any more
	if err = old.Close(); err != nil {
		return err
	}
	// change current db to new one
	s.current.Store(newDB)
""")]
needs="a read that begins between the close of the replaced file and the switch to the new one"
breaks="The replaced store is closed before the new one is in service, so a read in between fails."
demo='''package db

import (
	"path/filepath"
	"testing"
	"time"

	bolt "go.etcd.io/bbolt"
)

// A long reader makes the close of the old store wait, other reads have to go on meanwhile.
func TestDemo(t *testing.T) {
	d := t.TempDir()
	n, err := bolt.Open(filepath.Join(d, "new.db"), 0o600, nil)
	if err != nil {
		t.Fatal(err)
	}
	_ = n.Close()
	s := NewStorage()
	if err := s.Open(filepath.Join(d, "x.db")); err != nil {
		t.Fatal(err)
	}
	began, end := make(chan int), make(chan int)
	go func() {
		_ = s.View(func(tx *bolt.Tx) error { close(began); <-end; return nil })
	}()
	<-began
	go func() { _ = s.Replace(filepath.Join(d, "new.db")) }()
	time.Sleep(200 * time.Millisecond)
	res := make(chan error)
	go func() { res <- s.View(func(tx *bolt.Tx) error { return nil }) }()
	select {
	case err := <-res:
		if err != nil {
			t.Error(err)
		}
	case <-time.After(2 * time.Second):
		t.Error("a read hangs")
	}
	close(end)
	time.Sleep(100 * time.Millisecond)
}
'''
