edits=[("src/metaserver/internal/usecase/repo/metadata_repo.go","""		if i > specBuc.Sequence() {""","""		// one write for several commands is enough
		if i >= specBuc.Sequence()+4 {""")]
needs="a restart that replays the log after fewer than four commands since the applied position was saved"
breaks="The applied position is saved only every fourth command, so a restarted replica applies the last commands again over a store that already contains them."
demo='''package repo

import (
	"common/cache"
	"metaserver/internal/usecase/db"
	"path/filepath"
	"testing"
	"time"

	"github.com/allegro/bigcache/v3"
)

func TestDemo(t *testing.T) {
	st := db.NewStorage()
	if err := st.Open(filepath.Join(t.TempDir(), "x.db")); err != nil {
		t.Fatal(err)
	}
	m := NewMetadataRepo(st, NewMetadataCacheRepo(cache.NewCache(bigcache.DefaultConfig(time.Hour))))
	for i := uint64(1); i < 10; i++ {
		if err := m.ApplyIndex(i); err != nil {
			t.Fatal(err)
		}
		if j, err := m.LastAppliedIndex(); err != nil || i != j {
			t.Fatal(i, j, err)
		}
	}
}
'''
