edits=[('src/common/registry/service_list.go','	s.data[key] = ip','	if _, ok := s.data[key]; !ok {\n\t\ts.data[key] = ip\n\t}')]
needs='a server that comes back at another address before its former registration expired'
breaks='The other processes keep its former address.'
demo='''package registry

import (
	"context"
	"testing"
	"time"

	pb "go.etcd.io/etcd/api/v3/etcdserverpb"
	mvccpb "go.etcd.io/etcd/api/v3/mvccpb"
	clientv3 "go.etcd.io/etcd/client/v3"
)

type demoEtcd struct {
	clientv3.KV
	ch chan clientv3.WatchResponse
}

func (e *demoEtcd) Get(_ context.Context, key string, _ ...clientv3.OpOption) (*clientv3.GetResponse, error) {
	return &clientv3.GetResponse{Header: &pb.ResponseHeader{Revision: 1}, Kvs: []*mvccpb.KeyValue{{Key: []byte("g/registry/meta/a"), Value: []byte("1.1.1.1:1")}}}, nil
}
func (e *demoEtcd) Watch(context.Context, string, ...clientv3.OpOption) clientv3.WatchChan { return e.ch }
func (e *demoEtcd) RequestProgress(context.Context) error                                  { return nil }
func (e *demoEtcd) Close() error                                                           { return nil }

func TestDemo(t *testing.T) {
	e := &demoEtcd{ch: make(chan clientv3.WatchResponse, 4)}
	d := NewEtcdDiscovery(&clientv3.Client{KV: e, Watcher: e}, &Config{Group: "g", Name: "api", ServerIP: "127.0.0.1", ServerPort: "1", ServerID: "me", Services: []string{"meta"}})
	wait := func(addr string) {
		for i := 0; i < 500; i++ {
			if a, _ := d.GetService("meta", "a"); a == addr {
				return
			}
			time.Sleep(10 * time.Millisecond)
		}
		t.Fatal("not at", addr, d.GetServices("meta"))
	}
	wait("1.1.1.1:1")
	e.ch <- clientv3.WatchResponse{Events: []*clientv3.Event{{Type: mvccpb.PUT, Kv: &mvccpb.KeyValue{Key: []byte("g/registry/meta/a"), Value: []byte("2.2.2.2:1")}}}}
	wait("2.2.2.2:1")
}
'''
