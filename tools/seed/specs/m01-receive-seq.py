edits=[("src/metaserver/internal/usecase/logic/metadata_logic.go","			if data.Sequence > bucket.Sequence() {","			if data.Sequence != bucket.Sequence() {")]
needs="a version with a lower number is received (migration) after higher ones exist, then a new version is added"
breaks="The version counter goes back, so the next new version collides with an existing number and is refused."
demo='''package logic

import (
	"common/proto/msg"
	"path/filepath"
	"testing"

	bolt "go.etcd.io/bbolt"
)

func TestDemo(t *testing.T) {
	db, err := bolt.Open(filepath.Join(t.TempDir(), "x.db"), 0600, nil)
	if err != nil {
		t.Fatal(err)
	}
	defer db.Close()
	do := func(fn func(*bolt.Tx) error) {
		t.Helper()
		if err := db.Update(fn); err != nil {
			t.Fatal(err)
		}
	}
	do(AddMeta("a", &msg.Metadata{Name: "a"}))
	do(AddVer("a", &msg.Version{Hash: "h", UniqueId: "u1"}))
	do(AddVer("a", &msg.Version{Hash: "h", UniqueId: "u2"}))
	do(RemoveVer("a", 1))
	do(AddVerWithSequence("a", &msg.Version{Hash: "h", UniqueId: "u3", Sequence: 1}))
	v := &msg.Version{Hash: "h", UniqueId: "u4"}
	do(AddVer("a", v))
	if v.Sequence != 3 {
		t.Fatal("next version number is", v.Sequence)
	}
}
'''
