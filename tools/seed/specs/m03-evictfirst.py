edits=[("src/metaserver/internal/usecase/repo/metadata_repo.go","""	if err := m.MainDB.Update(logic.RemoveVer(name, ver)); err != nil {
		return err
	}
	util.LogErrWithPre("metadata cache", m.Cache.RemoveVersion(name, ver))
	return nil""","""	// nobody may find it from now on
	util.LogErrWithPre("metadata cache", m.Cache.RemoveVersion(name, ver))
	return m.MainDB.Update(logic.RemoveVer(name, ver))""")]
needs="a read of the version, not cached, that runs between the eviction and the transaction of the removal"
breaks="Removing a version evicts it from the cache before the transaction, so a read in between puts it back and it is served after the removal was acknowledged."
demo='''package repo

import (
	"common/cache"
	"common/proto/msg"
	"metaserver/internal/usecase/db"
	"path/filepath"
	"testing"
	"time"

	"github.com/allegro/bigcache/v3"
)

type hookCache struct {
	*MetadataCacheRepo
	after func()
}

func (s *hookCache) RemoveVersion(n string, v uint64) error {
	err := s.MetadataCacheRepo.RemoveVersion(n, v)
	if f := s.after; f != nil {
		s.after = nil
		f()
	}
	return err
}

func TestDemo(t *testing.T) {
	st := db.NewStorage()
	if err := st.Open(filepath.Join(t.TempDir(), "x.db")); err != nil {
		t.Fatal(err)
	}
	c := &hookCache{MetadataCacheRepo: NewMetadataCacheRepo(cache.NewCache(bigcache.DefaultConfig(time.Hour)))}
	r := NewMetadataRepo(st, c)
	if err := r.AddMetadata("a", &msg.Metadata{Name: "a"}); err != nil {
		t.Fatal(err)
	}
	if err := r.AddVersion("a", &msg.Version{Hash: "h", UniqueId: "u"}); err != nil {
		t.Fatal(err)
	}
	c.after = func() { _, _ = r.GetVersion("a", 1) }
	if err := r.RemoveVersion("a", 1); err != nil {
		t.Fatal(err)
	}
	if v, err := r.GetVersion("a", 1); err == nil {
		t.Fatal("removed version is served", v)
	}
}
'''
