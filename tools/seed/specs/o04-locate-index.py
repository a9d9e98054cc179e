edits=[("src/objectserver/internal/usecase/service/locate.go","""		loc := fmt.Sprint(ip, "#", tp[1])
""","""		loc := fmt.Sprint(ip, "#", hash[len(hash)-1:])
""")]
needs="a shard with an index of more than one digit, like those of an object of many shards"
breaks="The server claims to hold another shard than the one on its disk."
demo='''package service

import (
	"context"
	"strings"
	"common/cache"
	"objectserver/config"
	"objectserver/internal/db"
	"objectserver/internal/usecase/component"
	"objectserver/internal/usecase/pool"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/allegro/bigcache/v3"

	clientv3 "go.etcd.io/etcd/client/v3"
)

func setup(t *testing.T) string {
	dir := t.TempDir()
	if err := os.MkdirAll(filepath.Join(dir, "st"), 0700); err != nil {
		t.Fatal(err)
	}
	pool.Config = &config.Config{BaseMountPoint: dir, StoragePath: "st"}
	pool.Config.TempPath = "st"
	pool.DriverManager = component.NewDriverManager(component.SpaceFirstBalancer())
	pool.ObjectCap = db.NewObjectCapacity()
	var err error
	if pool.PathDB, err = db.NewPathCache(filepath.Join(dir, "index")); err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { _ = pool.PathDB.Close() })
	bc := bigcache.DefaultConfig(time.Hour)
	bc.CleanWindow, bc.Shards, bc.MaxEntriesInWindow = 0, 16, 16
	pool.Cache = cache.NewCache(bc)
	return dir
}

type kv struct {
	clientv3.KV
	got map[string]string
}

func (k *kv) Get(context.Context, string, ...clientv3.OpOption) (*clientv3.GetResponse, error) {
	return &clientv3.GetResponse{Count: 1}, nil
}

func (k *kv) Put(_ context.Context, key, val string, _ ...clientv3.OpOption) (*clientv3.PutResponse, error) {
	k.got[key] = val
	return &clientv3.PutResponse{}, nil
}

func TestDemo(t *testing.T) {
	setup(t)
	k := &kv{got: map[string]string{}}
	l := NewLocator(&clientv3.Client{KV: k})
	for _, n := range []string{"h.3", "h.10"} {
		if err := Put(n, strings.NewReader("x"), false); err != nil {
			t.Fatal(err)
		}
		l.handlerLocate([]byte(n+"#resp"), "ip")
		if want := "ip#" + n[2:]; k.got["resp"] != want {
			t.Fatal(n, k.got)
		}
	}
}
'''
