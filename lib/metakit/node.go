// Package metakit wires one metadata server's storage stack the way its main
// program does (without network, raft library and etcd) for the checks.
package metakit

import (
	"bytes"
	"common/cache"
	"common/hashslot"
	"common/logs"
	"common/proto/msg"
	"common/proto/pb"
	"common/registry"
	"common/util"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"metaserver/config"
	mgrpc "metaserver/internal/controller/grpc"
	mhttp "metaserver/internal/controller/http"
	"metaserver/internal/usecase"
	"metaserver/internal/usecase/db"
	"metaserver/internal/usecase/pool"
	"metaserver/internal/usecase/raftimpl"
	"metaserver/internal/usecase/repo"
	"metaserver/internal/usecase/service"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"

	"github.com/allegro/bigcache/v3"
	"github.com/gin-gonic/gin"
	"github.com/hashicorp/raft"
	"github.com/sirupsen/logrus"
	bolt "go.etcd.io/bbolt"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

func init() {
	logs.Std().SetOutput(io.Discard)
	logs.SetLevel(logs.Error)
	logrus.SetOutput(io.Discard)
	gin.SetMode(gin.ReleaseMode)
	gin.DefaultWriter, gin.DefaultErrorWriter = io.Discard, io.Discard
	pool.Config = &config.Config{Port: "8090", Registry: registry.Config{ServerID: "S", Name: "meta", Group: "g", ServerPort: "8090"},
		HashSlot: config.HashSlotConfig{StoreID: "G", Slots: []string{"0-16384"}, PrepareTimeout: 10 * time.Second}}
	pool.RaftWrapper = raftimpl.NewDisabledRaft()
}

// Node is one server's stack.
type Node struct {
	Dir     string
	Path    string
	Store   *db.Storage
	Cache   cache.ICache
	Repo    *repo.MetadataRepo
	Buckets *repo.BucketRepo
	Svc     *service.MetadataService
	BSvc    *service.BucketService
	FSM     raft.FSM
	HTTP    *gin.Engine
	RPC     *mgrpc.MetadataApiServer
}

// NewCache builds the real cache, sized small.
func NewCache() cache.ICache {
	conf := bigcache.DefaultConfig(10 * time.Hour)
	conf.Shards, conf.MaxEntriesInWindow, conf.MaxEntrySize, conf.Verbose, conf.CleanWindow = 1, 8, 256, false, 0
	return cache.NewCache(conf)
}

// Open builds a stack on the store file in dir (created when missing).
func Open(dir string) *Node { return OpenPath(filepath.Join(dir, "meta.db")) }

func OpenPath(path string) *Node { return OpenWith(path, NewCache()) }

func OpenWith(path string, c cache.ICache) *Node {
	n := &Node{Dir: filepath.Dir(path), Path: path, Store: db.NewStorage(), Cache: c}
	if err := n.Store.Open(n.Path); err != nil {
		panic(err)
	}
	n.Store.DB().NoSync = true
	n.Wire(raftimpl.NewDisabledRaft())
	return n
}

// Wire builds repositories and services over the store, as internal/app does.
func (n *Node) Wire(rw *raftimpl.RaftWrapper) {
	n.Repo = repo.NewMetadataRepo(n.Store, repo.NewMetadataCacheRepo(n.Cache))
	n.Buckets = repo.NewBucketRepo(n.Store, repo.NewBucketCacheRepo(n.Cache))
	n.FSM = raftimpl.NewFSM(n.Repo, repo.NewBatchRepo(n.Store), n.Buckets, repo.NewBatchBucketRepo(n.Store), n.Repo)
	n.BSvc = service.NewBucketService(n.Buckets, rw)
	n.Svc = service.NewMetadataService(n.Repo, repo.NewBatchRepo(n.Store), repo.NewHashIndexRepo(n.Store), rw)
	e := gin.New()
	e.UseRawPath, e.UnescapePathValues = true, true
	mhttp.NewMetadataController(n.Svc).RegisterRoute(e)
	mhttp.NewVersionController(n.Svc).RegisterRoute(e)
	mhttp.NewBucketController(n.BSvc).RegisterRoute(e)
	n.HTTP = e
	n.RPC = mgrpc.NewMetadataApiServer(n.Svc, n.BSvc)
}

// Close stops everything and removes the files.
func (n *Node) Close() {
	_ = n.Cache.Close()
	_ = n.Store.DB().Close()
	if n.Dir != "" {
		_ = os.RemoveAll(n.Dir)
	}
}

// OwnAll makes this process own every slot.
func OwnAll(kv *KV) {
	bt, _ := util.EncodeMsgp(&hashslot.SlotInfo{GroupID: "G", ServerID: "S", Slots: []string{"0-16384"}})
	_, _ = kv.Put(context.Background(), "slots/G", string(bt))
	pool.HashSlot = db.NewHashSlotDB("slots/", kv)
}

// Dump is the logical content of the store.
func (n *Node) Dump() map[string]string {
	res := map[string]string{}
	_ = n.Store.DB().View(func(tx *bolt.Tx) error {
		return tx.ForEach(func(name []byte, b *bolt.Bucket) error {
			dumpBucket(res, string(name), b)
			return nil
		})
	})
	return res
}

func dumpBucket(res map[string]string, pre string, b *bolt.Bucket) {
	res[pre+"/#seq"] = strconv.FormatUint(b.Sequence(), 10)
	_ = b.ForEach(func(k, v []byte) error {
		if v == nil {
			if s := b.Bucket(k); s != nil {
				dumpBucket(res, pre+"/"+string(k), s)
				return nil
			}
		}
		res[pre+"/"+string(k)] = string(v)
		return nil
	})
}

// Keys renders the shape (not the values) of a dump.
func Keys(d map[string]string) string {
	var s []string
	for k, v := range d {
		if strings.HasSuffix(k, "/#seq") {
			k += "=" + v
		}
		s = append(s, k)
	}
	sort.Strings(s)
	return strings.Join(s, "\n")
}

// Class folds an error into the classes a client can tell apart.
func Class(err error) string {
	if err == nil {
		return "ok"
	}
	if errors.Is(err, usecase.ErrNotFound) {
		return "notfound"
	}
	if errors.Is(err, usecase.ErrExists) || errors.Is(err, usecase.ErrOldData) || errors.Is(err, usecase.ErrNilData) {
		return "refused"
	}
	if errors.Is(err, usecase.ErrReadOnly) {
		return "readonly"
	}
	if s, ok := status.FromError(err); ok {
		switch s.Code() {
		case codes.NotFound:
			return "notfound"
		case codes.InvalidArgument:
			return "refused"
		}
	}
	type st interface{ GetStatus() int }
	if e, ok := err.(st); ok {
		switch e.GetStatus() {
		case 404:
			return "notfound"
		case 400:
			return "refused"
		}
	}
	return "error"
}

// Call sends one HTTP request to the node's handlers.
func (n *Node) Call(method, path string, body any) *httptest.ResponseRecorder {
	var rd io.Reader
	if body != nil {
		bt, err := json.Marshal(body)
		if err != nil {
			panic(err)
		}
		rd = bytes.NewReader(bt)
	}
	req := httptest.NewRequest(method, path, rd)
	if body != nil {
		req.Header.Set("Content-Type", "application/json")
	}
	w := httptest.NewRecorder()
	n.HTTP.ServeHTTP(w, req)
	return w
}

func httpClass(w *httptest.ResponseRecorder) string {
	switch {
	case w.Code/100 == 2:
		return "ok"
	case w.Code == http.StatusNotFound:
		return "notfound"
	case w.Code == http.StatusBadRequest:
		return "refused"
	}
	return "error"
}

// Front is one way a client reaches the server.
type Front interface {
	AddMeta(name string, m *msg.Metadata) string
	UpdMeta(name string, m *msg.Metadata) string
	DelMeta(name string) string
	GetMeta(name string, extra bool) (*msg.Metadata, string)
	ListMeta(prefix string, size int) ([]*msg.Metadata, int, string)
	AddVer(name string, v *msg.Version) (int, string)
	UpdVer(name string, seq int, v *msg.Version) string
	DelVer(name string, seq int) string
	GetVer(name string, seq int) (*msg.Version, string)
	ListVer(name string, page, size int) ([]*msg.Version, int, string)
	ByHash(hash string) ([]*msg.Version, string)
	Locate(hash string, idx int, loc string) string
	AddBucket(b *msg.Bucket) string
	UpdBucket(b *msg.Bucket) string
	DelBucket(name string) string
	GetBucket(name string) (*msg.Bucket, string)
	ListBucket(prefix string, size int) ([]*msg.Bucket, int, string)
}

// Direct calls the services.
type Direct struct{ N *Node }

func (d Direct) AddMeta(n string, m *msg.Metadata) string { return Class(d.N.Svc.AddMetadata(n, m)) }
func (d Direct) UpdMeta(n string, m *msg.Metadata) string { return Class(d.N.Svc.UpdateMetadata(n, m)) }
func (d Direct) DelMeta(n string) string                  { return Class(d.N.Svc.RemoveMetadata(n)) }
func (d Direct) GetMeta(n string, extra bool) (*msg.Metadata, string) {
	m, _, err := d.N.Svc.GetMetadata(n, -1, extra)
	return m, Class(err)
}
func (d Direct) ListMeta(p string, size int) ([]*msg.Metadata, int, string) {
	l, t, err := d.N.Svc.ListMetadata(p, size)
	return l, t, Class(err)
}
func (d Direct) AddVer(n string, v *msg.Version) (int, string) {
	i, err := d.N.Svc.AddVersion(n, v)
	return i, Class(err)
}
func (d Direct) UpdVer(n string, s int, v *msg.Version) string {
	return Class(d.N.Svc.UpdateVersion(n, s, v))
}
func (d Direct) DelVer(n string, s int) string { return Class(d.N.Svc.RemoveVersion(n, s)) }
func (d Direct) GetVer(n string, s int) (*msg.Version, string) {
	v, err := d.N.Svc.GetVersion(n, s)
	return v, Class(err)
}
func (d Direct) ListVer(n string, p, s int) ([]*msg.Version, int, string) {
	l, t, err := d.N.Svc.ListVersions(n, p, s)
	return l, t, Class(err)
}
func (d Direct) ByHash(h string) ([]*msg.Version, string) {
	l, err := d.N.Svc.FindByHash(h)
	return l, Class(err)
}
func (d Direct) Locate(h string, i int, l string) string {
	return Class(d.N.Svc.UpdateLocates(h, i, l))
}
func (d Direct) AddBucket(b *msg.Bucket) string { return Class(d.N.BSvc.Create(b)) }
func (d Direct) UpdBucket(b *msg.Bucket) string { return Class(d.N.BSvc.Update(b)) }
func (d Direct) DelBucket(n string) string      { return Class(d.N.BSvc.Remove(n)) }
func (d Direct) GetBucket(n string) (*msg.Bucket, string) {
	b, err := d.N.BSvc.Get(n)
	return b, Class(err)
}
func (d Direct) ListBucket(p string, s int) ([]*msg.Bucket, int, string) {
	l, t, err := d.N.BSvc.List(p, s)
	return l, t, Class(err)
}

// Wire goes through the HTTP handlers and the RPC service.
type Wire struct{ N *Node }

func pe(s string) string { return url.PathEscape(s) }
func qe(s string) string { return url.QueryEscape(s) }

func (d Wire) AddMeta(n string, m *msg.Metadata) string {
	return httpClass(d.N.Call("POST", "/metadata/"+pe(n), m))
}
func (d Wire) UpdMeta(n string, m *msg.Metadata) string {
	return httpClass(d.N.Call("PUT", "/metadata/"+pe(n), m))
}
func (d Wire) DelMeta(n string) string { return httpClass(d.N.Call("DELETE", "/metadata/"+pe(n), nil)) }
func (d Wire) GetMeta(n string, extra bool) (*msg.Metadata, string) {
	// both doors must agree
	p, err := d.N.RPC.GetMetadata(context.Background(), &pb.MetaReq{Id: n, WithExtra: extra})
	w := d.N.Call("GET", fmt.Sprintf("/metadata/%s?version=-1&with_extra=%t", pe(n), extra), nil)
	c1, c2 := Class(err), httpClass(w)
	if c1 != c2 {
		return nil, "rpc says " + c1 + ", http says " + c2
	}
	if c1 != "ok" {
		return nil, c1
	}
	var m, h msg.Metadata
	if err = util.DecodeMsgp(&m, p.Data); err != nil {
		return nil, "undecodable"
	}
	if err = json.Unmarshal(w.Body.Bytes(), &h); err != nil {
		return nil, "undecodable"
	}
	if h.Name != m.Name || h.Bucket != m.Bucket || h.CreateTime != m.CreateTime || h.UpdateTime != m.UpdateTime {
		return nil, fmt.Sprintf("rpc says %+v, http says %+v", m, h)
	}
	return &m, "ok"
}
func (d Wire) ListMeta(p string, size int) (l []*msg.Metadata, t int, c string) {
	if size == 0 {
		return nil, 0, "ok"
	}
	w := d.N.Call("GET", fmt.Sprintf("/metadata/list?prefix=%s&page_size=%d&order_by=name", qe(p), size), nil)
	if c = httpClass(w); c != "ok" {
		return
	}
	if json.Unmarshal(w.Body.Bytes(), &l) != nil {
		return nil, 0, "undecodable"
	}
	t, _ = strconv.Atoi(w.Header().Get("X-Total-Count"))
	return
}
func (d Wire) AddVer(n string, v *msg.Version) (int, string) {
	bt, _ := util.EncodeMsgp(v)
	r, err := d.N.RPC.SaveVersion(context.Background(), &pb.Metadata{Id: n, Msgpack: bt})
	if err != nil {
		return -1, Class(err)
	}
	return int(r.Data), "ok"
}
func (d Wire) UpdVer(n string, s int, v *msg.Version) string {
	return httpClass(d.N.Call("PUT", fmt.Sprintf("/metadata_version/%s?version=%d", pe(n), s), v))
}
func (d Wire) DelVer(n string, s int) string {
	return httpClass(d.N.Call("DELETE", fmt.Sprintf("/metadata_version/%s?version=%d", pe(n), s), nil))
}
func (d Wire) GetVer(n string, s int) (*msg.Version, string) {
	p, err := d.N.RPC.GetVersion(context.Background(), &pb.MetaReq{Id: n, Version: int32(s)})
	w := d.N.Call("GET", fmt.Sprintf("/metadata_version/%s?version=%d", pe(n), s), nil)
	c1, c2 := Class(err), httpClass(w)
	if c1 != c2 {
		return nil, "rpc says " + c1 + ", http says " + c2
	}
	if c1 != "ok" {
		return nil, c1
	}
	var m, h msg.Version
	if util.DecodeMsgp(&m, p.Data) != nil || json.Unmarshal(w.Body.Bytes(), &h) != nil {
		return nil, "undecodable"
	}
	if fmt.Sprint(m) != fmt.Sprint(h) {
		return nil, fmt.Sprintf("rpc says %v, http says %v", m, h)
	}
	return &m, "ok"
}
func (d Wire) ListVer(n string, p, s int) (l []*msg.Version, t int, c string) {
	r, err := d.N.RPC.ListVersion(context.Background(), &pb.MetaReq{Id: n, Page: &pb.Pageable{Page: int32(p), PageSize: int32(s)}})
	w := d.N.Call("GET", fmt.Sprintf("/metadata_version/%s/list?page=%d&page_size=%d", pe(n), p, s), nil)
	c1, c2 := Class(err), httpClass(w)
	if c1 != c2 {
		return nil, 0, "rpc says " + c1 + ", http says " + c2
	}
	if c1 != "ok" {
		return nil, 0, c1
	}
	l, err = util.DecodeArrayMsgp(r.Data, func() *msg.Version { return new(msg.Version) })
	var h []*msg.Version
	if err != nil && len(r.Data) > 0 || json.Unmarshal(w.Body.Bytes(), &h) != nil {
		return nil, 0, "undecodable"
	}
	if len(h) != len(l) {
		return nil, 0, fmt.Sprintf("rpc lists %d, http lists %d", len(l), len(h))
	}
	for i := range l {
		if fmt.Sprint(*l[i]) != fmt.Sprint(*h[i]) {
			return nil, 0, fmt.Sprintf("rpc lists %v, http lists %v", *l[i], *h[i])
		}
	}
	if ht, _ := strconv.Atoi(w.Header().Get("X-Total-Count")); ht != int(r.Total) {
		return nil, 0, fmt.Sprintf("rpc totals %d, http totals %d", r.Total, ht)
	}
	return l, int(r.Total), "ok"
}
func (d Wire) ByHash(h string) (l []*msg.Version, c string) {
	r, err := d.N.RPC.GetVersionsByHash(context.Background(), &pb.MetaReq{Hash: h})
	w := d.N.Call("GET", "/version/list?hash="+qe(h), nil)
	c1, c2 := Class(err), httpClass(w)
	if c1 != c2 {
		return nil, "rpc says " + c1 + ", http says " + c2
	}
	if c1 != "ok" {
		return nil, c1
	}
	l, err = util.DecodeArrayMsgp(r.Data, func() *msg.Version { return new(msg.Version) })
	var hl []*msg.Version
	if err != nil && len(r.Data) > 0 || json.Unmarshal(w.Body.Bytes(), &hl) != nil {
		return nil, "undecodable"
	}
	if len(hl) != len(l) {
		return nil, fmt.Sprintf("rpc finds %d, http finds %d", len(l), len(hl))
	}
	return l, "ok"
}
func (d Wire) Locate(h string, i int, l string) string {
	return httpClass(d.N.Call("PATCH", "/version/locate", map[string]any{"locate": l, "hash": h, "locateIndex": i}))
}
func (d Wire) AddBucket(b *msg.Bucket) string { return httpClass(d.N.Call("POST", "/bucket", b)) }
func (d Wire) UpdBucket(b *msg.Bucket) string {
	return httpClass(d.N.Call("PUT", "/bucket/"+pe(b.Name), b))
}
func (d Wire) DelBucket(n string) string { return httpClass(d.N.Call("DELETE", "/bucket/"+pe(n), nil)) }
func (d Wire) GetBucket(n string) (*msg.Bucket, string) {
	r, err := d.N.RPC.GetBucket(context.Background(), &pb.MetaReq{Id: n})
	w := d.N.Call("GET", "/bucket/"+pe(n), nil)
	c1, c2 := Class(err), httpClass(w)
	if c1 != c2 {
		return nil, "rpc says " + c1 + ", http says " + c2
	}
	if c1 != "ok" {
		return nil, c1
	}
	var m, h msg.Bucket
	if util.DecodeMsgp(&m, r.Data) != nil || json.Unmarshal(w.Body.Bytes(), &h) != nil {
		return nil, "undecodable"
	}
	if fmt.Sprint(m) != fmt.Sprint(h) {
		return nil, fmt.Sprintf("rpc says %v, http says %v", m, h)
	}
	return &m, "ok"
}
func (d Wire) ListBucket(p string, s int) (l []*msg.Bucket, t int, c string) {
	if s == 0 {
		return nil, 0, "ok"
	}
	w := d.N.Call("GET", fmt.Sprintf("/bucket/list?prefix=%s&page_size=%d", qe(p), s), nil)
	if c = httpClass(w); c != "ok" {
		return
	}
	if json.Unmarshal(w.Body.Bytes(), &l) != nil {
		return nil, 0, "undecodable"
	}
	t, _ = strconv.Atoi(w.Header().Get("X-Total-Count"))
	return
}

// SetLeader sets what the wrapper's leadership subscription sets, whatever the field is called.
func SetLeader(rw *raftimpl.RaftWrapper, is bool) {
	v := reflect.ValueOf(rw).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if v.Type().Field(i).IsExported() {
			continue
		}
		p := reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr()))
		switch x := p.Interface().(type) {
		case *bool:
			*x = is
		case *atomic.Bool:
			x.Store(is)
		case *atomic.Value:
			x.Store(is)
		}
	}
	if rw.IsLeader() != (is && rw.Enabled) {
		panic("metakit: cannot set the leadership of the raft wrapper")
	}
}
