edits=[("src/metaserver/internal/usecase/raftimpl/fsm_impl.go","""			res[i] = fmt.Errorf("drop recieved fsmLog type %v", lg.Type)
			continue""","""			res[i] = fmt.Errorf("drop recieved fsmLog type %v", lg.Type)
			break batch"""),
("src/metaserver/internal/usecase/raftimpl/fsm_impl.go","""	for i, lg := range lgs {
""","""batch:
	for i, lg := range lgs {
""")]
needs="a batch of log entries with an entry that is no command before other commands"
breaks="A batch stops at the first entry that is not a command: the commands behind it are dropped although they are committed, so replicas with another batching differ."
demo='''package service

import (
	"common/cache"
	"common/proto/msg"
	"common/util"
	"metaserver/internal/entity"
	"metaserver/internal/usecase/db"
	"metaserver/internal/usecase/raftimpl"
	"metaserver/internal/usecase/repo"
	"path/filepath"
	"testing"
	"time"

	"github.com/allegro/bigcache/v3"
	"github.com/hashicorp/raft"
)

func TestDemo(t *testing.T) {
	st := db.NewStorage()
	if err := st.Open(filepath.Join(t.TempDir(), "x.db")); err != nil {
		t.Fatal(err)
	}
	c := cache.NewCache(bigcache.DefaultConfig(time.Hour))
	m := repo.NewMetadataRepo(st, repo.NewMetadataCacheRepo(c))
	f := raftimpl.NewFSM(m, repo.NewBatchRepo(st), repo.NewBucketRepo(st, repo.NewBucketCacheRepo(c)), repo.NewBatchBucketRepo(st), m)
	bt, err := util.EncodeMsgp(&entity.RaftData{Type: entity.LogInsert, Dest: entity.DestMetadata, Name: "a", Metadata: &msg.Metadata{Name: "a"}})
	if err != nil {
		t.Fatal(err)
	}
	f.(raft.BatchingFSM).ApplyBatch([]*raft.Log{{Type: raft.LogConfiguration, Index: 1, Data: []byte("x")}, {Type: raft.LogCommand, Index: 2, Data: bt}})
	if _, err := m.GetMetadata("a"); err != nil {
		t.Fatal(err)
	}
}
'''
