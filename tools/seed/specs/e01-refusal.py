edits=[("src/adminserver/internal/usecase/logic/object_logic.go","""	cc, err := grpc.Dial(addr, grpc.WithInsecure())
	if err != nil {
		return err
	}
	client := pb.NewObjectMigrationClient(cc)
	resp, err := client.JoinCommand(context.Background(), new(pb.EmptyReq))
	if err != nil {
		return err
	}
	if !resp.Success {
		return response.NewError(400, resp.Message)
	}
	return nil
""","""	cc, err := grpc.Dial(addr, grpc.WithInsecure())
	if err != nil {
		return err
	}
	defer cc.Close()
	client := pb.NewObjectMigrationClient(cc)
	_, err = client.JoinCommand(context.Background(), new(pb.EmptyReq))
	return err
""")]
needs="an object server that refuses to join"
breaks="The refusal is reported as done."
demo='''package logic

import (
	"adminserver/config"
	"adminserver/internal/usecase/pool"
	"common/proto/pb"
	"common/registry"
	"context"
	"net"
	"testing"
	"time"

	epb "go.etcd.io/etcd/api/v3/etcdserverpb"
	"go.etcd.io/etcd/api/v3/mvccpb"
	clientv3 "go.etcd.io/etcd/client/v3"
	"google.golang.org/grpc"
)

type dir struct {
	clientv3.KV
	clientv3.Watcher
	addr string
}

func (d *dir) Get(_ context.Context, key string, _ ...clientv3.OpOption) (*clientv3.GetResponse, error) {
	return &clientv3.GetResponse{Header: &epb.ResponseHeader{Revision: 1}, Kvs: []*mvccpb.KeyValue{{Key: []byte(key + "/d1_master"), Value: []byte(d.addr)}}}, nil
}

func (d *dir) Watch(context.Context, string, ...clientv3.OpOption) clientv3.WatchChan {
	return make(chan clientv3.WatchResponse)
}

type refusing struct {
	pb.UnimplementedObjectMigrationServer
}

func (refusing) JoinCommand(context.Context, *pb.EmptyReq) (*pb.Response, error) {
	return &pb.Response{Success: false, Message: "not now"}, nil
}

func TestDemo(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	s := grpc.NewServer()
	pb.RegisterObjectMigrationServer(s, refusing{})
	go func() { _ = s.Serve(l) }()
	defer s.Stop()
	d := &dir{addr: l.Addr().String()}
	pool.Config = &config.Config{Discovery: config.DiscoveryConfig{Group: "g", DataServName: "objectserver"}}
	pool.Discovery = registry.NewEtcdDiscovery(&clientv3.Client{KV: d, Watcher: d}, &registry.Config{Group: "g", Name: "admin", ServerIP: "127.0.0.1", ServerPort: "1", ServerID: "me", Services: []string{"objectserver"}})
	for i := 0; len(pool.Discovery.GetServices("objectserver")) == 0 && i < 1000; i++ {
		time.Sleep(time.Millisecond)
	}
	ids := pool.Discovery.GetServiceMapping("objectserver")
	if len(ids) != 1 {
		t.Fatal(ids)
	}
	for id := range ids {
		if err := NewObjects().JoinCluster(id); err == nil {
			t.Fatal("a refusal is no error")
		}
	}
}
'''
