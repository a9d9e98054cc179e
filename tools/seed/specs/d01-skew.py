edits=[('src/adminserver/internal/usecase/logic/metadata_logic.go','''			data, total, err := webapi.ListMetadata(loc, key, cond.Page*cond.PageSize)
''','''			// objects are spread over the groups by their hash: ask each for its share, and a page more
			data, total, err := webapi.ListMetadata(loc, key, cond.Page*cond.PageSize/len(servers)+cond.PageSize)
''')]
needs='several groups, objects spread unevenly in the order of their names, and a page after the second'
breaks='A group that owns most of the first names does not deliver all of them: later pages skip them and show others instead.'
demo='''package logic

import (
	"adminserver/config"
	"adminserver/internal/usecase/pool"
	"common/registry"
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"strconv"
	"strings"
	"testing"
	"time"

	"common/proto/msg"

	pb "go.etcd.io/etcd/api/v3/etcdserverpb"
	"go.etcd.io/etcd/api/v3/mvccpb"
	clientv3 "go.etcd.io/etcd/client/v3"
)

type dir struct {
	clientv3.KV
	clientv3.Watcher
	addrs []string
}

func (d dir) Get(_ context.Context, key string, _ ...clientv3.OpOption) (*clientv3.GetResponse, error) {
	res := &clientv3.GetResponse{Header: &pb.ResponseHeader{Revision: 1}}
	for i, a := range d.addrs {
		res.Kvs = append(res.Kvs, &mvccpb.KeyValue{Key: []byte(fmt.Sprintf("%s/m%d_master", strings.TrimSuffix(key, "/"), i)), Value: []byte(a)})
	}
	return res, nil
}

func (d dir) Watch(context.Context, string, ...clientv3.OpOption) clientv3.WatchChan {
	return make(chan clientv3.WatchResponse)
}

func serve(n int) *httptest.Server {
	return httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		size, _ := strconv.Atoi(r.URL.Query().Get("page_size"))
		l := []*msg.Metadata{}
		for i := 0; i < n && i < size; i++ {
			l = append(l, &msg.Metadata{Bucket: "b", Name: fmt.Sprintf("%03d", i)})
		}
		w.Header().Set("X-Total-Count", strconv.Itoa(n))
		_ = json.NewEncoder(w).Encode(l)
	}))
}

func TestDemo(t *testing.T) {
	a, b, c := serve(20), serve(0), serve(0)
	defer a.Close()
	defer b.Close()
	defer c.Close()
	d := dir{}
	for _, s := range []*httptest.Server{a, b, c} {
		d.addrs = append(d.addrs, strings.TrimPrefix(s.URL, "http://"))
	}
	pool.Config = &config.Config{Discovery: config.DiscoveryConfig{Group: "g", MetaServName: "meta"}}
	pool.Http = &http.Client{}
	pool.Discovery = registry.NewEtcdDiscovery(&clientv3.Client{KV: d, Watcher: d}, &registry.Config{Group: "g", Name: "admin", ServerIP: "127.0.0.1", ServerPort: "1", ServerID: "me", Services: []string{"meta"}})
	for i := 0; len(pool.Discovery.GetServicesWith("meta", true)) != 3 && i < 1000; i++ {
		time.Sleep(time.Millisecond)
	}
	for page := 1; page <= 10; page++ {
		l, total, err := NewMetadata().MetadataPaging(&MetadataCond{Page: page, PageSize: 2})
		if err != nil || total != 20 || len(l) != 2 || l[0].Name != fmt.Sprintf("%03d", page*2-2) || l[1].Name != fmt.Sprintf("%03d", page*2-1) {
			t.Fatal(page, len(l), total, err)
		}
	}
}
'''
