edits=[("src/metaserver/internal/usecase/db/storage.go","""	defer s.rdOnly.Store(false)

""","""	defer func() {
		if err == nil {
			s.rdOnly.Store(false)
		}
	}()

""")]
needs="a replacement that fails, followed by a write or another replacement"
breaks="A failed replacement leaves the store read-only for ever."
demo='''package db

import (
	"os"
	"path/filepath"
	"testing"

	bolt "go.etcd.io/bbolt"
)

func TestDemo(t *testing.T) {
	d := t.TempDir()
	s := NewStorage()
	if err := s.Open(filepath.Join(d, "x.db")); err != nil {
		t.Fatal(err)
	}
	bad := filepath.Join(d, "bad")
	if err := os.WriteFile(bad, make([]byte, 70000), 0o600); err != nil {
		t.Fatal(err)
	}
	if err := s.Replace(bad); err == nil {
		t.Fatal("accepted")
	}
	if err := s.Update(func(tx *bolt.Tx) error { return nil }); err != nil {
		t.Fatal(err)
	}
}
'''
