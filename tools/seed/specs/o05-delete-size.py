edits=[("src/objectserver/internal/usecase/service/objects_service.go","""	return info.Size(), nil
}

// WriteFileWithSize""","""	return disk.AlignedSize64(info.Size()), nil
}

// WriteFileWithSize""")]
needs="the deletion of a shard whose size is no multiple of the block size"
breaks="The reported capacity drifts away from what is stored and becomes negative."
demo='''package service

import (
	"strings"
	"common/cache"
	"objectserver/config"
	"objectserver/internal/db"
	"objectserver/internal/usecase/component"
	"objectserver/internal/usecase/pool"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/allegro/bigcache/v3"
)

func setup(t *testing.T) string {
	dir := t.TempDir()
	if err := os.MkdirAll(filepath.Join(dir, "st"), 0700); err != nil {
		t.Fatal(err)
	}
	pool.Config = &config.Config{BaseMountPoint: dir, StoragePath: "st"}
	pool.Config.TempPath = "st"
	pool.DriverManager = component.NewDriverManager(component.SpaceFirstBalancer())
	pool.ObjectCap = db.NewObjectCapacity()
	var err error
	if pool.PathDB, err = db.NewPathCache(filepath.Join(dir, "index")); err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { _ = pool.PathDB.Close() })
	bc := bigcache.DefaultConfig(time.Hour)
	bc.CleanWindow, bc.Shards, bc.MaxEntriesInWindow = 0, 16, 16
	pool.Cache = cache.NewCache(bc)
	return dir
}

func TestDemo(t *testing.T) {
	dir := setup(t)
	if err := Put("a.0", strings.NewReader(strings.Repeat("x", 5000)), false); err != nil {
		t.Fatal(err)
	}
	if err := Put("b.0", strings.NewReader(strings.Repeat("abc", 5000)), true); err != nil {
		t.Fatal(err)
	}
	for _, n := range []string{"a.0", "b.0"} {
		if err := Delete(n); err != nil {
			t.Fatal(err)
		}
	}
	es, _ := os.ReadDir(filepath.Join(dir, "st"))
	if len(es) != 0 || pool.ObjectCap.Capacity() != 0 {
		t.Fatal(len(es), pool.ObjectCap.Capacity())
	}
}
'''
