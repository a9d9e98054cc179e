edits=[("src/metaserver/internal/usecase/service/hashslot_service.go","""	for _, edge := range edges {
		if !hashslot.IsValidEdge(edge, provider) {""","""	for _, edge := range edges[:1] {
		if !hashslot.IsValidEdge(edge, provider) {""")]
needs="a migration of several slot ranges of which only the first belongs to the group"
breaks="A group hands over slots that it does not own."
demo='''package service

import (
	"common/hashslot"
	"common/proto/pb"
	"common/util"
	"context"
	"metaserver/config"
	"metaserver/internal/usecase/db"
	"metaserver/internal/usecase/pool"
	"net"
	"sync/atomic"
	"testing"

	"go.etcd.io/etcd/api/v3/mvccpb"
	clientv3 "go.etcd.io/etcd/client/v3"
)

type demoKV struct{ clientv3.KV }

func (demoKV) Get(context.Context, string, ...clientv3.OpOption) (*clientv3.GetResponse, error) {
	bt, _ := util.EncodeMsgp(&hashslot.SlotInfo{GroupID: "S", ServerID: "S", Slots: []string{"0-100"}})
	return &clientv3.GetResponse{Kvs: []*mvccpb.KeyValue{{Key: []byte("s/S"), Value: bt}}}, nil
}

func TestDemo(t *testing.T) {
	pool.Config = &config.Config{}
	pool.Config.Registry.ServerID = "S"
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer lis.Close()
	var calls atomic.Int32
	go func() {
		for {
			c, err := lis.Accept()
			if err != nil {
				return
			}
			calls.Add(1)
			c.Close()
		}
	}()
	st := db.NewHashSlotDB("s/", demoKV{})
	h := NewHashSlotService(st, nil, nil, &config.HashSlotConfig{StoreID: "S"})
	_, port, _ := net.SplitHostPort(lis.Addr().String())
	if err := h.PrepareMigrationTo(&pb.LocationInfo{Host: "127.0.0.1", Port: port}, []string{"0-10", "9000-9010"}); err == nil {
		t.Fatal("admitted")
	}
	if calls.Load() > 0 {
		t.Fatal("offered slots of somebody else")
	}
}
'''
