edits=[('src/adminserver/internal/usecase/db/server_stat_db.go','''			if event.Type != mvccpb.PUT {
				continue
			}
''','''			if event.Type != mvccpb.PUT {
				break
			}
''')]
needs='a removal and a later publication that arrive in one answer of the watch (after the connection was interrupted)'
breaks='The publications behind a removal are missing in the time line.'
demo='''package db

import (
	"common/system"
	"common/system/cpu"
	"common/system/disk"
	"common/system/mem"
	"common/util"
	"context"
	"testing"
	"time"

	pb "go.etcd.io/etcd/api/v3/etcdserverpb"
	"go.etcd.io/etcd/api/v3/mvccpb"
	clientv3 "go.etcd.io/etcd/client/v3"
)

type fake struct {
	clientv3.KV
	clientv3.Watcher
	ch chan clientv3.WatchResponse
}

func (f fake) Get(context.Context, string, ...clientv3.OpOption) (*clientv3.GetResponse, error) {
	return &clientv3.GetResponse{Header: &pb.ResponseHeader{Revision: 1}}, nil
}

func (f fake) Watch(context.Context, string, ...clientv3.OpOption) clientv3.WatchChan { return f.ch }

func TestDemo(t *testing.T) {
	f := fake{ch: make(chan clientv3.WatchResponse)}
	s := NewServerStatDB(ServerStatCli{Watcher: f, KV: f}, "g", []string{"m"})
	defer s.Close()
	bt, err := util.EncodeMsgp(&system.Info{DiskInfo: &disk.Info{}, MemStatus: &mem.Status{All: 1}, CpuStatus: &cpu.Stat{UsedPercent: 7}, IoStatus: &disk.IOStats{}})
	if err != nil {
		t.Fatal(err)
	}
	f.ch <- clientv3.WatchResponse{Events: []*clientv3.Event{
		{Type: mvccpb.DELETE, Kv: &mvccpb.KeyValue{Key: []byte("g/sys_info/m/a"), ModRevision: 2}},
		{Type: mvccpb.PUT, Kv: &mvccpb.KeyValue{Key: []byte("g/sys_info/m/a"), Value: bt, ModRevision: 3}},
	}}
	for i := 0; i < 50; i++ {
		time.Sleep(20 * time.Millisecond)
		if tl := s.GetTimeline("m")["a"]; tl != nil && len(tl.CPUTimeline()) == 1 {
			return
		}
	}
	t.Fatal("missing")
}
'''
