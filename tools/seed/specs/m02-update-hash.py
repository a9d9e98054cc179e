edits=[("src/metaserver/internal/usecase/logic/metadata_logic.go","""			data.UniqueId = origin.UniqueId
			data.Sequence = origin.Sequence
			data.Hash = origin.Hash
""","""			data.UniqueId = origin.UniqueId
			data.Sequence = origin.Sequence
			if data.Hash == "" {
				data.Hash = origin.Hash
			}
""")]
needs="an update of a version that carries another content hash, followed by a lookup by hash"
breaks="The content hash of a version can be changed by an update while the index still lists it under the old one."
demo='''package logic

import (
	"common/proto/msg"
	"path/filepath"
	"testing"

	bolt "go.etcd.io/bbolt"
)

func TestDemo(t *testing.T) {
	db, err := bolt.Open(filepath.Join(t.TempDir(), "x.db"), 0600, nil)
	if err != nil {
		t.Fatal(err)
	}
	defer db.Close()
	do := func(fn func(*bolt.Tx) error) {
		t.Helper()
		if err := db.Update(fn); err != nil {
			t.Fatal(err)
		}
	}
	do(AddMeta("a", &msg.Metadata{Name: "a"}))
	do(AddVer("a", &msg.Version{Hash: "h", UniqueId: "u1", Ts: 1}))
	do(UpdateVer("a", &msg.Version{Hash: "other", Sequence: 1, Ts: 2, Size: 4}))
	var v msg.Version
	do(GetVer("a", 1, &v))
	if v.Hash != "h" || v.Size != 4 {
		t.Fatalf("%+v", v)
	}
}
'''
