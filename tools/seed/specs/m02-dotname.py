edits=[("src/metaserver/internal/usecase/service/metadata_service.go","		idx := strings.LastIndexByte(key, '.')","		idx := strings.IndexByte(key, '.')")]
needs="an object whose name contains a dot, looked up by content hash"
breaks="Lookup by hash splits the version key at the first dot, so versions of objects with a dot in the name are missed and their index entry is removed."
demo='''package service

import (
	"common/cache"
	"common/proto/msg"
	"metaserver/internal/usecase/db"
	"metaserver/internal/usecase/raftimpl"
	"metaserver/internal/usecase/repo"
	"path/filepath"
	"testing"
	"time"

	"github.com/allegro/bigcache/v3"
)

func TestDemo(t *testing.T) {
	st := db.NewStorage()
	if err := st.Open(filepath.Join(t.TempDir(), "x.db")); err != nil {
		t.Fatal(err)
	}
	c := cache.NewCache(bigcache.DefaultConfig(time.Hour))
	s := NewMetadataService(repo.NewMetadataRepo(st, repo.NewMetadataCacheRepo(c)), repo.NewBatchRepo(st), repo.NewHashIndexRepo(st), raftimpl.NewDisabledRaft())
	if err := s.AddMetadata("pic.jpg", &msg.Metadata{Name: "pic.jpg"}); err != nil {
		t.Fatal(err)
	}
	if _, err := s.AddVersion("pic.jpg", &msg.Version{Hash: "h"}); err != nil {
		t.Fatal(err)
	}
	l, err := s.FindByHash("h")
	if err != nil || len(l) != 1 {
		t.Fatal(l, err)
	}
}
'''
