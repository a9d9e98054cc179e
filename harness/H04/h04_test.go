package http_test

import (
	"common/datasize"
	"common/hashslot"
	"common/proto/msg"
	"common/proto/pb"
	"common/registry"
	"common/util"
	"common/vkit"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"metaserver/internal/entity"
	"metaserver/internal/metakit"
	mgrpc "metaserver/internal/controller/grpc"
	mhttp "metaserver/internal/controller/http"
	"metaserver/internal/usecase/db"
	"metaserver/internal/usecase/pool"
	"metaserver/internal/usecase/raftimpl"
	"metaserver/internal/usecase/service"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/hashicorp/go-hclog"
	"github.com/hashicorp/raft"
	clientv3 "go.etcd.io/etcd/client/v3"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/status"
	"google.golang.org/grpc/test/bufconn"
)

// verdicts of a request
const (
	served  = "served"
	refused = "refused"
	either  = "either"
)

type req4 struct {
	name  string
	kind  string // read, write, admin, stream
	keyed bool
	fresh bool // the key has no record yet
	do    func(e *env4, key string) string
}

type env4 struct {
	n    *metakit.Node
	eng  http.Handler
	cli  pb.MetadataApiClient
	slot pb.HashSlotClient
	conf pb.ConfigServiceClient
}

func rpcV(err error) string {
	if err == nil {
		return served
	}
	switch status.Code(err) {
	case codes.Unavailable, codes.Aborted:
		return refused
	}
	return "failed: " + err.Error()
}

func httpV(w *httptest.ResponseRecorder) string {
	switch {
	case w.Code/100 == 2:
		return served
	case w.Code == http.StatusServiceUnavailable, w.Code == http.StatusConflict && strings.Contains(w.Body.String(), "migration"),
		w.Code == http.StatusBadRequest && w.Header().Get("Location") != "":
		return refused
	}
	return fmt.Sprintf("failed: %d %s", w.Code, w.Body.String())
}

func bytes4(m any) []byte {
	var bt []byte
	var err error
	switch x := m.(type) {
	case *msg.Metadata:
		bt, err = util.EncodeMsgp(x)
	case *msg.Version:
		bt, err = util.EncodeMsgp(x)
	case *msg.Bucket:
		bt, err = util.EncodeMsgp(x)
	}
	if err != nil {
		panic(err)
	}
	return bt
}

func ver4() *msg.Version {
	return &msg.Version{Hash: "h9", Size: 3, ShardSize: 3, Locate: []string{"x"}, DataShards: 1, StoreStrategy: 2}
}

func (e *env4) http(method, path string, body any) string {
	var rd io.Reader
	if body != nil {
		bt, _ := json.Marshal(body)
		rd = strings.NewReader(string(bt))
	}
	r := httptest.NewRequest(method, path, rd)
	r.Header.Set("Content-Type", "application/json")
	w := httptest.NewRecorder()
	e.eng.ServeHTTP(w, r)
	return httpV(w)
}

var fresh4 = map[string]bool{"SaveMetadata": true, "SaveBucket": true, "hand over metadata": true, "hand over bucket": true, "POST metadata": true, "POST bucket": true, "POST bucket/": true}

// the key exists with version 1 and as a bucket; key+"-new" style requests use a fresh version
func requests4() []req4 {
	ctx := context.Background()
	var l []req4
	rpc := func(name, kind string, keyed bool, f func(e *env4, key string) error) {
		l = append(l, req4{name, kind, keyed, fresh4[name], func(e *env4, key string) string { return rpcV(f(e, key)) }})
	}
	htt := func(name, kind string, keyed bool, f func(e *env4, key string) string) {
		l = append(l, req4{name, kind, keyed, fresh4[name], f})
	}
	rpc("GetVersionsByHash", "read", false, func(e *env4, k string) error { _, err := e.cli.GetVersionsByHash(ctx, &pb.MetaReq{Hash: "h1"}); return err })
	rpc("GetBucket", "read", true, func(e *env4, k string) error { _, err := e.cli.GetBucket(ctx, &pb.MetaReq{Id: k}); return err })
	rpc("GetMetadata", "read", true, func(e *env4, k string) error { _, err := e.cli.GetMetadata(ctx, &pb.MetaReq{Id: k}); return err })
	rpc("GetMetadata extra", "read", true, func(e *env4, k string) error { _, err := e.cli.GetMetadata(ctx, &pb.MetaReq{Id: k, WithExtra: true}); return err })
	rpc("GetVersion", "read", true, func(e *env4, k string) error { _, err := e.cli.GetVersion(ctx, &pb.MetaReq{Id: k, Version: 1}); return err })
	rpc("ListVersion", "read", true, func(e *env4, k string) error {
		_, err := e.cli.ListVersion(ctx, &pb.MetaReq{Id: k, Page: &pb.Pageable{Page: 1, PageSize: 5}})
		return err
	})
	rpc("SaveMetadata", "write", true, func(e *env4, k string) error {
		_, err := e.cli.SaveMetadata(ctx, &pb.Metadata{Id: k, Msgpack: bytes4(&msg.Metadata{Name: k, Bucket: "b"})})
		return err
	})
	rpc("SaveVersion", "write", true, func(e *env4, k string) error {
		_, err := e.cli.SaveVersion(ctx, &pb.Metadata{Id: k, Msgpack: bytes4(ver4())})
		return err
	})
	rpc("UpdateVersion", "write", true, func(e *env4, k string) error {
		_, err := e.cli.UpdateVersion(ctx, &pb.Metadata{Id: k, Version: 1, Msgpack: bytes4(ver4())})
		return err
	})
	rpc("SaveBucket", "write", true, func(e *env4, k string) error {
		_, err := e.cli.SaveBucket(ctx, &pb.Metadata{Id: k, Msgpack: bytes4(&msg.Bucket{Name: k})})
		return err
	})
	rpc("RemoveVersion", "write", true, func(e *env4, k string) error { _, err := e.cli.RemoveVersion(ctx, &pb.MetaReq{Id: k, Version: 1}); return err })
	rpc("GetConfig", "read", false, func(e *env4, k string) error { _, err := e.conf.GetConfig(ctx, &pb.EmptyReq{}); return err })
	rpc("GetCurrentSlots", "read", false, func(e *env4, k string) error { _, err := e.slot.GetCurrentSlots(ctx, &pb.EmptyReq{}); return err })
	for _, d := range []struct {
		name string
		dest entity.Dest
		data func(k string) []byte
	}{
		{"hand over metadata", entity.DestMetadata, func(k string) []byte { return bytes4(&msg.Metadata{Name: k, CreateTime: 3, UpdateTime: 4}) }},
		{"hand over version", entity.DestVersion, func(k string) []byte { v := ver4(); v.Sequence, v.UniqueId = 7, "u7"; return bytes4(v) }},
		{"hand over bucket", entity.DestBucket, func(k string) []byte { return bytes4(&msg.Bucket{Name: k, CreateTime: 3, UpdateTime: 4}) }},
	} {
		d := d
		rpc(d.name, "stream", true, func(e *env4, k string) error {
			c, cancel := context.WithCancel(ctx)
			defer cancel()
			s, err := e.slot.StreamingReceive(c)
			if err != nil {
				return err
			}
			if err = s.Send(&pb.MigrationItem{Name: k, Dest: int32(d.dest), Data: d.data(k)}); err != nil && err != io.EOF {
				return err
			}
			r, err := s.Recv()
			if err != nil {
				return err
			}
			if !r.Success {
				err = status.Error(codes.Aborted, r.Message)
			}
			// leave without finishing and wait for the server to notice
			cancel()
			for i := 0; i < 2000 && !pool.HashSlot.IsNormal(); i++ {
				time.Sleep(time.Millisecond)
				if ok, _, _ := pool.HashSlot.GetMigrateTo(); ok {
					break
				}
			}
			return err
		})
	}
	pe := url.PathEscape
	htt("PUT metadata", "write", true, func(e *env4, k string) string { return e.http("PUT", "/metadata/"+pe(k), &msg.Metadata{Name: k, Bucket: "c"}) })
	htt("POST metadata", "write", true, func(e *env4, k string) string { return e.http("POST", "/metadata/"+pe(k), &msg.Metadata{Name: k, Bucket: "c"}) })
	htt("DELETE metadata", "write", true, func(e *env4, k string) string { return e.http("DELETE", "/metadata/"+pe(k), nil) })
	htt("PUT version", "write", true, func(e *env4, k string) string { return e.http("PUT", "/metadata_version/"+pe(k)+"?version=1", ver4()) })
	htt("POST version", "write", true, func(e *env4, k string) string { return e.http("POST", "/metadata_version/"+pe(k), ver4()) })
	htt("DELETE version", "write", true, func(e *env4, k string) string { return e.http("DELETE", "/metadata_version/"+pe(k)+"?version=1", nil) })
	htt("DELETE all versions", "write", true, func(e *env4, k string) string { return e.http("DELETE", "/metadata_version/"+pe(k)+"?version=-1", nil) })
	htt("PATCH locate", "write", false, func(e *env4, k string) string {
		return e.http("PATCH", "/version/locate", map[string]any{"locate": "y", "hash": "h1", "locateIndex": 0})
	})
	htt("POST bucket", "write", true, func(e *env4, k string) string { return e.http("POST", "/bucket", &msg.Bucket{Name: k}) })
	htt("POST bucket/", "write", true, func(e *env4, k string) string { return e.http("POST", "/bucket/", &msg.Bucket{Name: k}) })
	htt("PUT bucket", "write", true, func(e *env4, k string) string { return e.http("PUT", "/bucket/"+pe(k), &msg.Bucket{Name: k}) })
	htt("PUT bucket other name", "write", true, func(e *env4, k string) string { return e.http("PUT", "/bucket/"+pe(k), &msg.Bucket{Name: "zzz"}) })
	htt("DELETE bucket", "write", true, func(e *env4, k string) string { return e.http("DELETE", "/bucket/"+pe(k), nil) })
	// reads of keys being handed over
	htt("GET metadata", "read", false, func(e *env4, k string) string { return e.http("GET", "/metadata/"+pe(k)+"?version=1", nil) })
	htt("GET version", "read", false, func(e *env4, k string) string { return e.http("GET", "/metadata_version/"+pe(k)+"?version=1", nil) })
	htt("GET versions", "read", false, func(e *env4, k string) string { return e.http("GET", "/metadata_version/"+pe(k)+"/list?page=1&page_size=5", nil) })
	htt("GET bucket", "read", false, func(e *env4, k string) string { return e.http("GET", "/bucket/"+pe(k), nil) })
	htt("GET metadata list", "read", false, func(e *env4, k string) string { return e.http("GET", "/metadata/list?page_size=5", nil) })
	htt("GET bucket list", "read", false, func(e *env4, k string) string { return e.http("GET", "/bucket/list?page_size=5", nil) })
	htt("GET by hash", "read", false, func(e *env4, k string) string { return e.http("GET", "/version/list?hash=h1", nil) })
	return l
}

type own4 struct {
	name string
	owns bool
	// unknown: nobody owns the slot
	slots func(s int) map[string][]string
}

func owners4() []own4 {
	r := func(a, b int) []string {
		if a >= b {
			return nil
		}
		return []string{fmt.Sprintf("%d-%d", a, b)}
	}
	cat := func(a, b []string) []string { return append(append([]string{}, a...), b...) }
	return []own4{
		{"all", true, func(s int) map[string][]string { return map[string][]string{"S": r(0, 16384)} }},
		{"none", false, func(s int) map[string][]string { return map[string][]string{"O": r(0, 16384)} }},
		{"all below the key", false, func(s int) map[string][]string { return map[string][]string{"S": r(0, s), "O": r(s, 16384)} }},
		{"all above the key", false, func(s int) map[string][]string { return map[string][]string{"S": r(s+1, 16384), "O": r(0, s+1)} }},
		{"up to the key", true, func(s int) map[string][]string { return map[string][]string{"S": r(0, s+1), "O": r(s+1, 16384)} }},
		{"from the key", true, func(s int) map[string][]string { return map[string][]string{"S": r(s, 16384), "O": r(0, s)} }},
		{"only the key", true, func(s int) map[string][]string { return map[string][]string{"S": r(s, s+1), "O": cat(r(0, s), r(s+1, 16384))} }},
		{"all but the key", false, func(s int) map[string][]string { return map[string][]string{"O": r(s, s+1), "S": cat(r(0, s), r(s+1, 16384))} }},
		{"under the leader's name", true, func(s int) map[string][]string { return map[string][]string{"L": r(0, 16384)} }},
		{"nobody", false, func(s int) map[string][]string { return map[string][]string{"S": r(0, s), "O": r(s+1, 16384)} }},
	}
}

type mig4 struct {
	name string
	set  func(h *db.HashSlotDB, key, other string)
	// what the state allows
	normal, receives bool
}

func migs4() []mig4 {
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	return []mig4{
		{"normal", func(h *db.HashSlotDB, k, o string) {}, true, false},
		{"handing over the key", func(h *db.HashSlotDB, k, o string) { must(h.ReadyMigrateTo("p", []string{k})) }, false, false},
		{"handing over another key", func(h *db.HashSlotDB, k, o string) { must(h.ReadyMigrateTo("p", []string{o})) }, false, false},
		{"receiving the key", func(h *db.HashSlotDB, k, o string) { must(h.ReadyMigrateFrom("p", []string{o, k})) }, false, true},
		{"receiving another key", func(h *db.HashSlotDB, k, o string) { must(h.ReadyMigrateFrom("p", []string{o})) }, false, false},
		{"normal after handing over", func(h *db.HashSlotDB, k, o string) { must(h.ReadyMigrateTo("p", []string{k})); must(h.FinishMigrateTo()) }, true, false},
		{"normal after receiving", func(h *db.HashSlotDB, k, o string) { must(h.ReadyMigrateFrom("p", []string{k})); must(h.FinishMigrateFrom()) }, true, false},
	}
}

type role4 struct {
	name          string
	rw            *raftimpl.RaftWrapper
	writes, named bool // named: the leader is known as L
}

func raft4(id string, lead bool) *raft.Raft {
	conf := raft.DefaultConfig()
	conf.LocalID, conf.Logger = raft.ServerID(id), hclog.NewNullLogger()
	conf.HeartbeatTimeout, conf.ElectionTimeout, conf.LeaderLeaseTimeout, conf.CommitTimeout = 50*time.Millisecond, 50*time.Millisecond, 50*time.Millisecond, 5*time.Millisecond
	st := raft.NewInmemStore()
	addr, tr := raft.NewInmemTransport(raft.ServerAddress(id))
	r, err := raft.NewRaft(conf, &raft.MockFSM{}, st, st, raft.NewInmemSnapshotStore(), tr)
	if err != nil {
		panic(err)
	}
	if !lead {
		return r
	}
	if err := r.BootstrapCluster(raft.Configuration{Servers: []raft.Server{{ID: raft.ServerID(id), Address: addr}}}).Error(); err != nil {
		panic(err)
	}
	select {
	case <-r.LeaderCh():
	case <-time.After(30 * time.Second):
		panic("no leader")
	}
	for i := 0; ; i++ {
		if _, l := r.LeaderWithID(); string(l) == id {
			return r
		}
		if i > 3000 {
			panic("no leader id")
		}
		time.Sleep(10 * time.Millisecond)
	}
}

func roles4() []role4 {
	mk := func(id string, known, leads bool) *raftimpl.RaftWrapper {
		rw := raftimpl.NewDisabledRaft()
		rw.Enabled, rw.ID, rw.Raft = true, "S", raft4(id, known)
		metakit.SetLeader(rw, leads)
		return rw
	}
	return []role4{
		{"no raft", raftimpl.NewDisabledRaft(), true, false},
		{"leader", mk("S", true, true), true, false},
		{"follower", mk("L", true, false), false, true},
		{"follower without a leader", mk("S", false, false), false, false},
	}
}

func TestVerifH04(t *testing.T) {
	vkit.Run(t, "H04", func(c *vkit.Ctx) {
		c.Rule("request kind × key × ownership layout × migration state × raft role")
		kv := metakit.NewKV()
		pool.Config.Cache.MaxSize = datasize.MB
		pool.Registry = registry.NewEtcdRegistry(&clientv3.Client{KV: kv}, &pool.Config.Registry)
		roles := roles4()
		keys := []string{"a", "bucket/obj 1", "x.2", "日"}
		if c.N(0, 1) == 1 {
			for i := 0; i < 12; i++ {
				keys = append(keys, fmt.Sprintf("k%d", i))
			}
		}
		// stores with every key
		dir := c.Scratch("h04")
		base := filepath.Join(dir, "base.db")
		n := metakit.OpenPath(base)
		for _, k := range keys {
			vkitMust(n.Svc.AddMetadata(k, &msg.Metadata{Name: k, Bucket: "b"}))
			v := ver4()
			v.Hash = "h1"
			_, err := n.Svc.AddVersion(k, v)
			vkitMust(err)
			vkitMust(n.BSvc.Create(&msg.Bucket{Name: k}))
		}
		want := [2]map[string]string{n.Dump()}
		vkitMust(n.Store.DB().Close())
		var content [2][]byte
		var err error
		content[0], err = os.ReadFile(base)
		vkitMust(err)
		// and one without
		n = metakit.OpenPath(base)
		for _, k := range keys {
			vkitMust(n.Svc.RemoveMetadata(k))
			vkitMust(n.BSvc.Remove(k))
		}
		vkitMust(n.Svc.AddMetadata("else", &msg.Metadata{Name: "else"}))
		want[1] = n.Dump()
		vkitMust(n.Store.DB().Close())
		content[1], err = os.ReadFile(base)
		vkitMust(err)
		idx := 0
		for _, o := range owners4() {
			for _, m := range migs4() {
				for _, ro := range roles {
					for _, k := range keys {
						idx++
						if !c.Mine(idx) || c.Expired() {
							continue
						}
						for i := range content {
							group4(c, kv, filepath.Join(dir, "work.db"), content[i], want[i], i == 1, o, m, ro, k)
						}
					}
				}
			}
		}
	})
}

func vkitMust(err error) {
	if err != nil {
		panic(err)
	}
}

// group4 sends every request in one configuration
func group4(c *vkit.Ctx, kv *metakit.KV, path string, content []byte, want map[string]string, fresh bool, o own4, m mig4, ro role4, key string) {
	s := hashslot.CalcBytesSlot([]byte(key))
	owns := o.owns
	if o.name == "under the leader's name" && !ro.named {
		owns = false
	}
	var e *env4
	var stop func()
	open := func() {
		vkitMust(os.WriteFile(path, content, 0o600))
		n := metakit.OpenPath(path)
		hs := service.NewHashSlotService(nil, n.Svc, n.BSvc, &pool.Config.HashSlot)
		srv := mgrpc.NewRpcServer(100, raftimpl.NewDisabledRaft(), n.Svc, hs, n.BSvc)
		eng := mhttp.NewHttpServer("0", srv, n.Svc, n.BSvc)
		lis := bufconn.Listen(1 << 16)
		go func() { _ = srv.Serve(lis) }()
		cc, err := grpc.Dial("passthrough:///x", grpc.WithTransportCredentials(insecure.NewCredentials()),
			grpc.WithContextDialer(func(ctx context.Context, _ string) (net.Conn, error) { return lis.DialContext(ctx) }))
		vkitMust(err)
		e = &env4{n, eng.Handler, pb.NewMetadataApiClient(cc), pb.NewHashSlotClient(cc), pb.NewConfigServiceClient(cc)}
		stop = func() {
			_ = cc.Close()
			srv.Stop()
			_ = n.Cache.Close()
			_ = n.Store.DB().Close()
		}
		hsRef = hs
	}
	open()
	defer func() { stop() }()
	for _, r := range requests4() {
		if r.fresh != fresh {
			continue
		}
		// the coordination store
		for k := range kv.Data() {
			_, _ = kv.Delete(context.Background(), k)
		}
		for id, sl := range o.slots(s) {
			if len(sl) == 0 {
				continue
			}
			bt, _ := util.EncodeMsgp(&hashslot.SlotInfo{GroupID: "g" + id, ServerID: id, Slots: sl})
			_, _ = kv.Put(context.Background(), "slots/g"+id, string(bt))
		}
		pool.HashSlot = db.NewHashSlotDB("slots/", kv)
		hsRef.Store = pool.HashSlot
		pool.RaftWrapper = ro.rw
		other := "0-1"
		if s == 0 {
			other = "1-2"
		}
		m.set(pool.HashSlot, fmt.Sprintf("%d-%d", s, s+1), other)
		// the decision
		exp := served
		switch {
		case r.kind == "stream":
			if !ro.writes || !m.receives {
				exp = refused
			}
		case r.kind == "write":
			if !ro.writes || !m.normal || r.keyed && !owns {
				exp = refused
			}
		case r.keyed && !owns:
			exp = refused
		}
		desc := fmt.Sprintf("%s for %q, owning %s, %s, %s", r.name, key, o.name, m.name, ro.name)
		c.Cur("%s", desc)
		got := r.do(e, key)
		c.Eval(strings.Join([]string{r.name, o.name, m.name, ro.name}, "|"))
		c.Transition()
		now := e.n.Dump()
		changed := !reflect.DeepEqual(now, want)
		cls := r.kind + " " + r.name
		switch {
		case exp == refused && got == served:
			c.Fail("served "+cls+" "+o.name+" "+m.name+" "+ro.name, nil, "%s: served although it has to be refused", desc)
		case exp == refused && changed:
			c.Fail("effect "+cls+" "+m.name+" "+ro.name, nil, "%s: has to be refused without effect (answer: %s), but the store changed", desc, got)
		case exp == served && got == refused:
			c.Fail("refused "+cls+" "+o.name+" "+m.name+" "+ro.name, nil, "%s: refused although nothing forbids it", desc)
		case exp == served && r.kind == "read" && got != served:
			c.Fail("read "+cls+" "+m.name, nil, "%s: the read does not work: %s", desc, got)
		}
		if r.kind == "read" && changed {
			c.Fail("read changes "+cls, nil, "%s: a read changed the store", desc)
		}
		if exp == served && r.kind != "read" {
			c.Outcome("modification accepted")
			if got != served || !changed {
				c.Fail("ineffective "+cls+" "+m.name, nil, "%s: nothing forbids it, but: %s, store changed: %t", desc, got, changed)
			}
		}
		c.State(desc)
		c.Validated()
		if changed {
			stop()
			open()
		}
	}
}

var hsRef *service.HashSlotService
