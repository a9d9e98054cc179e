edits=[("src/metaserver/internal/usecase/repo/bucket_repo.go","""	err := b.db.View(b.logic.GetBytes(name, &bt))
	return bt, err""","""	if err := b.db.View(b.logic.GetBytes(name, &bt)); err != nil {
		return bt, err
	}
	var item msg.Bucket
	if util.DecodeMsgp(&item, bt) == nil {
		util.LogErrWithPre("bucket cache", b.cache.Create(&item))
	}
	return bt, nil""")]
needs="an update of the bucket acknowledged between the moment an encoded read took its value from the store and the moment it puts it in the cache"
breaks="Reading the encoded bucket fills the cache without looking at writes in between, so later reads return the bucket from before an acknowledged update."
demo='''package repo

import (
	"common/cache"
	"common/proto/msg"
	"metaserver/internal/usecase/db"
	"path/filepath"
	"testing"
	"time"

	"github.com/allegro/bigcache/v3"
)

type slowCache struct {
	*BucketCacheRepo
	before func()
}

func (s *slowCache) Create(b *msg.Bucket) error {
	if f := s.before; f != nil {
		s.before = nil
		done := make(chan struct{})
		go func() { f(); close(done) }()
		select {
		case <-done:
		case <-time.After(2 * time.Second):
		}
	}
	return s.BucketCacheRepo.Create(b)
}

func TestDemo(t *testing.T) {
	st := db.NewStorage()
	if err := st.Open(filepath.Join(t.TempDir(), "x.db")); err != nil {
		t.Fatal(err)
	}
	c := &slowCache{BucketCacheRepo: NewBucketCacheRepo(cache.NewCache(bigcache.DefaultConfig(time.Hour)))}
	r := NewBucketRepo(st, c)
	if err := r.Create(&msg.Bucket{Name: "b", UpdateTime: 1}); err != nil {
		t.Fatal(err)
	}
	c.before = func() {
		if err := r.Update(&msg.Bucket{Name: "b", Readonly: true, UpdateTime: 2}); err != nil {
			t.Error(err)
		}
	}
	if _, err := r.GetBytes("b"); err != nil {
		t.Fatal(err)
	}
	if f := c.before; f != nil {
		c.before = nil
		f()
	}
	time.Sleep(100 * time.Millisecond)
	b, err := r.Get("b")
	if err != nil || !b.Readonly {
		t.Fatal("stale bucket", b, err)
	}
}
'''
