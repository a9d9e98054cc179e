// Package apikit runs the api server's object paths against modelled object servers and metadata.
package apikit

import (
	"apiserver/config"
	"apiserver/internal/controller/http"
	"apiserver/internal/entity"
	"apiserver/internal/usecase"
	"apiserver/internal/usecase/pool"
	"apiserver/internal/usecase/service"
	"bufio"
	"bytes"
	"common/cst"
	"common/datasize"
	"common/objmodel"
	"common/registry"
	"common/response"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	nethttp "net/http"
	"net/url"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	pb "go.etcd.io/etcd/api/v3/etcdserverpb"
	mvccpb "go.etcd.io/etcd/api/v3/mvccpb"
	clientv3 "go.etcd.io/etcd/client/v3"

	"apiserver/internal/usecase/componet/selector"
)

// ErrMeta is what a failing metadata call returns
var ErrMeta = response.NewError(503, "metadata unavailable")

// ---- metadata

// Meta is the metadata of a cluster, in memory
type Meta struct {
	mu      sync.Mutex
	objs    map[string]*entity.Metadata
	vers    map[string]map[int32]entity.Version
	seq     map[string]int32
	Buckets map[string]entity.Bucket
	// Fault decides about the n-th call of an operation: "" fine, "refuse" not done, "lost" done but an error is returned
	Fault  func(op string, n int) string
	calls  map[string]int
	Events []string
	// Updates are the locations given with every version update
	Updates [][]string
	// Hold is called before a call of one of the api servers ("" or "B") does anything. It may wait.
	Hold func(who, op string)
}

func NewMeta() *Meta {
	return &Meta{objs: map[string]*entity.Metadata{}, vers: map[string]map[int32]entity.Version{}, seq: map[string]int32{},
		Buckets: map[string]entity.Bucket{}, calls: map[string]int{}}
}

func (m *Meta) begin(op string) string {
	m.calls[op]++
	m.Events = append(m.Events, fmt.Sprintf("%s #%d", op, m.calls[op]))
	if m.Fault == nil {
		return ""
	}
	return m.Fault(op, m.calls[op])
}

func (m *Meta) do(who, op string, fn func() error) error {
	if m.Hold != nil {
		m.Hold(who, op)
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	f := m.begin(op)
	if f == "raced" {
		// somebody else does the same just before
		_ = fn()
	}
	if f == "refuse" {
		return ErrMeta
	}
	err := fn()
	if f == "lost" && err == nil {
		return ErrMeta
	}
	return err
}

func cloneVersion(v entity.Version) entity.Version {
	v.Locate = append([]string(nil), v.Locate...)
	return v
}

// ResetEvents starts counting calls anew
func (m *Meta) ResetEvents() {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.Events, m.Updates = nil, nil
	m.calls = map[string]int{}
}

func (m *Meta) Calls(op string) int {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.calls[op]
}

func (m *Meta) EventList() []string {
	m.mu.Lock()
	defer m.mu.Unlock()
	res := append([]string(nil), m.Events...)
	sort.Strings(res)
	return res
}

func (m *Meta) UpdateList() [][]string {
	m.mu.Lock()
	defer m.mu.Unlock()
	return append([][]string(nil), m.Updates...)
}

// Clear removes everything
func (m *Meta) Clear() {
	m.mu.Lock()
	defer m.mu.Unlock()
	n := NewMeta()
	m.objs, m.vers, m.seq, m.Buckets, m.calls, m.Events, m.Updates = n.objs, n.vers, n.seq, n.Buckets, n.calls, nil, nil
}

// Versions of an object, oldest first
func (m *Meta) Versions(bucket, name string) []entity.Version {
	m.mu.Lock()
	defer m.mu.Unlock()
	var res []entity.Version
	for _, v := range m.vers[bucket+"/"+name] {
		res = append(res, cloneVersion(v))
	}
	sort.Slice(res, func(i, j int) bool { return res[i].Sequence < res[j].Sequence })
	return res
}

// SetVersion overwrites a version
func (m *Meta) SetVersion(bucket, name string, v entity.Version) {
	m.mu.Lock()
	defer m.mu.Unlock()
	key := bucket + "/" + name
	if m.objs[key] == nil {
		m.objs[key] = &entity.Metadata{Name: name, Bucket: bucket}
		m.vers[key] = map[int32]entity.Version{}
	}
	m.vers[key][v.Sequence] = cloneVersion(v)
	if v.Sequence > m.seq[key] {
		m.seq[key] = v.Sequence
	}
}

type metaRepo struct {
	m   *Meta
	who string
}
type versionRepo struct {
	m   *Meta
	who string
}
type bucketRepo struct {
	m   *Meta
	who string
}

func (r metaRepo) FindByName(name, bucket string, withExtra bool) (res *entity.Metadata, err error) {
	err = r.m.do(r.who, "find", func() error {
		key := bucket + "/" + name
		md := r.m.objs[key]
		if md == nil {
			return response.NewError(404, "not found")
		}
		cp := *md
		if withExtra {
			for s := range r.m.vers[key] {
				if cp.Total++; cp.Total == 1 || int(s) < cp.FirstVersion {
					cp.FirstVersion = int(s)
				}
				if int(s) > cp.Extra.LastVersion {
					cp.Extra.LastVersion = int(s)
				}
			}
		}
		res = &cp
		return nil
	})
	if err != nil {
		res = nil
	}
	return
}

func (r metaRepo) Insert(data *entity.Metadata) error {
	return r.m.do(r.who, "insert", func() error {
		key := data.Bucket + "/" + data.Name
		if r.m.objs[key] != nil {
			return usecase.ErrMetadataExists
		}
		r.m.objs[key] = &entity.Metadata{Name: data.Name, Bucket: data.Bucket}
		r.m.vers[key] = map[int32]entity.Version{}
		return nil
	})
}

func (r versionRepo) Find(name, bucket string, i int32) (res *entity.Version, err error) {
	err = r.m.do(r.who, "version", func() error {
		key := bucket + "/" + name
		if i == 0 {
			for s := range r.m.vers[key] {
				if s > i {
					i = s
				}
			}
		}
		v, ok := r.m.vers[key][i]
		if !ok {
			return response.NewError(404, "not found")
		}
		v = cloneVersion(v)
		res = &v
		return nil
	})
	if err != nil {
		res = nil
	}
	return
}

func (r versionRepo) Update(name, bucket string, ver *entity.Version) error {
	v := cloneVersion(*ver)
	return r.m.do(r.who, "update", func() error {
		key := bucket + "/" + name
		r.m.Updates = append(r.m.Updates, v.Locate)
		if _, ok := r.m.vers[key][v.Sequence]; !ok {
			return response.NewError(404, "not found")
		}
		r.m.vers[key][v.Sequence] = v
		return nil
	})
}

func (r versionRepo) Add(name, bucket string, ver *entity.Version) (int32, error) {
	err := r.m.do(r.who, "add", func() error {
		key := bucket + "/" + name
		if r.m.objs[key] == nil {
			return response.NewError(404, "not found")
		}
		r.m.seq[key]++
		ver.Sequence = r.m.seq[key]
		r.m.vers[key][ver.Sequence] = cloneVersion(*ver)
		return nil
	})
	if err != nil {
		return -1, err
	}
	return ver.Sequence, nil
}

func (r versionRepo) Delete(name, bucket string, ver int32) error {
	return r.m.do(r.who, "delete", func() error {
		key := bucket + "/" + name
		if _, ok := r.m.vers[key][ver]; !ok {
			return response.NewError(404, "not found")
		}
		delete(r.m.vers[key], ver)
		return nil
	})
}

func (r bucketRepo) Get(name string) (res *entity.Bucket, err error) {
	err = r.m.do(r.who, "bucket", func() error {
		b, ok := r.m.Buckets[name]
		if !ok {
			return response.NewError(404, "not found")
		}
		b.Name = name
		res = &b
		return nil
	})
	if err != nil {
		res = nil
	}
	return
}
func (r bucketRepo) Update(b *entity.Bucket) error {
	return r.m.do(r.who, "bucket.update", func() error {
		if _, ok := r.m.Buckets[b.Name]; !ok {
			return usecase.ErrNotFound
		}
		r.m.Buckets[b.Name] = *b
		return nil
	})
}
func (r bucketRepo) Create(b *entity.Bucket) error {
	return r.m.do(r.who, "bucket.create", func() error {
		if _, ok := r.m.Buckets[b.Name]; ok {
			return response.NewError(400, "bucket exists")
		}
		r.m.Buckets[b.Name] = *b
		return nil
	})
}
func (r bucketRepo) Delete(name string) error {
	return r.m.do(r.who, "bucket.delete", func() error {
		if _, ok := r.m.Buckets[name]; !ok {
			return usecase.ErrNotFound
		}
		delete(r.m.Buckets, name)
		return nil
	})
}

// ---- coordination store: who is registered, and locating shards

type etcd struct {
	mu    sync.Mutex
	addrs []string // registered object servers
	world *objmodel.World
	watch map[string][]chan clientv3.WatchResponse
	// Answers changes what is answered to a question for a shard
	Answers func(server int, ip string, idx int) []string
}

func (e *etcd) Get(_ context.Context, key string, _ ...clientv3.OpOption) (*clientv3.GetResponse, error) {
	res := &clientv3.GetResponse{Header: &pb.ResponseHeader{Revision: 1}}
	for i, a := range e.addrs {
		res.Kvs = append(res.Kvs, &mvccpb.KeyValue{Key: []byte(fmt.Sprintf("%s/os%d", key, i)), Value: []byte(a)})
	}
	return res, nil
}

func (e *etcd) Put(_ context.Context, key, val string, _ ...clientv3.OpOption) (*clientv3.PutResponse, error) {
	if key == cst.EtcdPrefix.LocationSubKey {
		if name, id, ok := strings.Cut(val, "#"); ok {
			e.locate(name, id)
		}
	}
	return &clientv3.PutResponse{Header: &pb.ResponseHeader{}}, nil
}

func (e *etcd) locate(name, id string) {
	e.mu.Lock()
	defer e.mu.Unlock()
	var idx int
	_, _ = fmt.Sscanf(objmodel.Tail(name), ".%d", &idx)
	for i, a := range e.addrs {
		s := objmodel.Index(a)
		if s < 0 {
			continue
		}
		if _, ok := e.world.Get(s, name); !ok {
			continue
		}
		ans := []string{fmt.Sprintf("%s#%d", a, idx)}
		if e.Answers != nil {
			ans = e.Answers(i, a, idx)
		}
		for _, an := range ans {
			for _, ch := range e.watch[id] {
				ch <- clientv3.WatchResponse{Events: []*clientv3.Event{{Type: mvccpb.PUT,
					Kv: &mvccpb.KeyValue{Key: []byte(id), Value: []byte(an)}}}}
			}
		}
	}
}

func (e *etcd) Delete(context.Context, string, ...clientv3.OpOption) (*clientv3.DeleteResponse, error) {
	return &clientv3.DeleteResponse{Header: &pb.ResponseHeader{}}, nil
}
func (e *etcd) Compact(context.Context, int64, ...clientv3.CompactOption) (*clientv3.CompactResponse, error) {
	return nil, errors.New("not modelled")
}
func (e *etcd) Do(context.Context, clientv3.Op) (clientv3.OpResponse, error) {
	return clientv3.OpResponse{}, errors.New("not modelled")
}
func (e *etcd) Txn(context.Context) clientv3.Txn { return nil }

func (e *etcd) Watch(ctx context.Context, key string, _ ...clientv3.OpOption) clientv3.WatchChan {
	ch := make(chan clientv3.WatchResponse, 256)
	e.mu.Lock()
	e.watch[key] = append(e.watch[key], ch)
	e.mu.Unlock()
	return ch
}
func (e *etcd) RequestProgress(context.Context) error { return nil }
func (e *etcd) Close() error                          { return nil }

// ---- choosing servers

// Balance chooses the first server in the order of the model, starting at First
type Balance struct{ First int }

func (b Balance) best(ds []string) int {
	n := len(objmodel.Addrs)
	rank := func(a string) int {
		i := objmodel.Index(a)
		if i < 0 {
			return 2 * n
		}
		return (i - b.First + n) % n
	}
	res := 0
	for i := range ds {
		if rank(ds[i]) < rank(ds[res]) {
			res = i
		}
	}
	return res
}
func (b Balance) Select(ds []string) string { return ds[b.best(ds)] }
func (b Balance) Pop(ds []string) ([]string, string) {
	i := b.best(ds)
	ip := ds[i]
	rest := append([]string(nil), ds[:i]...)
	return append(rest, ds[i+1:]...), ip
}
func (b Balance) Strategy() selector.SelectStrategy { return selector.Random }

// ---- cluster

// Cluster is one api server with its surroundings
type Cluster struct {
	World   *objmodel.World
	Meta    *Meta
	Etcd    *etcd
	Objects *service.ObjectService
	MetaSvc *service.MetaService
	// Conf is kept for those who use several clusters
	Conf    *config.Config
	handler [2]nethttp.Handler
	// Via says which of two api servers is used: "" or "B"
	Via string
}

const MaxServers = 9

var discoveries = map[string]*registry.EtcdDiscovery{}

// Config is a configuration with small blocks
func Config(ds, ps, block int) *config.Config {
	cfg := &config.Config{}
	cfg.Object.DistinctSize = datasize.DataSize(1 << 40)
	cfg.Object.DistinctTimeout = 60 * time.Millisecond
	cfg.Object.ReedSolomon = config.RsConfig{DataShards: ds, ParityShards: ps, BlockPerShard: block}
	cfg.Object.Replication = config.ReplicationConfig{CopiesCount: ds, BlockSize: datasize.DataSize(block)}
	cfg.Discovery.DataServName = "objectserver"
	cfg.Discovery.MetaServName = "metaserver"
	return cfg
}

// New starts a cluster of n object servers. align is the size of network packages blocks are aligned to.
func New(n, align int, cfg *config.Config) *Cluster {
	objmodel.Listen(MaxServers)
	cst.OS.NetPkgSize = align
	c := &Cluster{World: objmodel.NewWorld(n), Meta: NewMeta()}
	pool.Config = cfg
	pool.Balancer = Balance{}
	c.Register(objmodel.Addrs[:n]...)
	c.Etcd.world = c.World
	cli := &clientv3.Client{KV: c.Etcd, Watcher: c.Etcd}
	for i, who := range []string{"B", ""} {
		c.MetaSvc = service.NewMetaService(metaRepo{c.Meta, who}, versionRepo{c.Meta, who})
		c.Objects = service.NewObjectService(c.MetaSvc, bucketRepo{c.Meta, who}, cli)
		c.handler[1-i] = http.NewHttpServer("0", c.Objects, c.MetaSvc, bucketRepo{c.Meta, who}).Handler
	}
	c.Use()
	return c
}

// Use makes this cluster the current one
func (c *Cluster) Use() {
	objmodel.Use(c.World)
	listen()
	api.Lock()
	api.h = c.handler
	api.Unlock()
}

// Register sets which object servers are known
func (c *Cluster) Register(addrs ...string) {
	if c.Etcd == nil {
		c.Etcd = &etcd{world: c.World, watch: map[string][]chan clientv3.WatchResponse{}}
	}
	c.Etcd.addrs = append([]string(nil), addrs...)
	key := strings.Join(addrs, ",")
	d := discoveries[key]
	if d == nil {
		e := &etcd{addrs: append([]string(nil), addrs...), watch: map[string][]chan clientv3.WatchResponse{}}
		d = registry.NewEtcdDiscovery(&clientv3.Client{KV: e, Watcher: e}, &registry.Config{
			Group: "g", Name: "apiserver", ServerIP: "127.0.0.1", ServerPort: "1", ServerID: "me",
			Services: []string{"objectserver"}})
		for i := 0; len(d.GetServices("objectserver")) != len(addrs); i++ {
			if i > 100000 {
				panic("servers are not discovered")
			}
			time.Sleep(100 * time.Microsecond)
		}
		discoveries[key] = d
	}
	pool.Discovery = d
}

// Reset continues with another state of the servers
func (c *Cluster) Reset(w *objmodel.World) {
	c.World = w
	c.Etcd.mu.Lock()
	c.Etcd.world = w
	c.Etcd.mu.Unlock()
	c.Use()
}

var api struct {
	sync.RWMutex
	once sync.Once
	h    [2]nethttp.Handler
	addr string
}

func listen() {
	api.once.Do(func() {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		api.addr = l.Addr().String()
		go func() {
			_ = nethttp.Serve(l, nethttp.HandlerFunc(func(w nethttp.ResponseWriter, r *nethttp.Request) {
				api.RLock()
				h := api.h[len(r.Header.Get("X-Via"))]
				api.RUnlock()
				h.ServeHTTP(w, r)
			}))
		}()
	})
}

var client = &nethttp.Client{Transport: &nethttp.Transport{MaxIdleConnsPerHost: 16}}

// Answer of the api server
type Answer struct {
	Code   int
	Header nethttp.Header
	Body   string
	Err    error // the answer did not arrive completely
}

func (a Answer) OK() bool { return a.Err == nil && a.Code >= 200 && a.Code < 300 }
func (a Answer) String() string {
	b := a.Body
	if len(b) > 120 {
		b = b[:120] + "..."
	}
	return fmt.Sprintf("%d %q err=%v", a.Code, b, a.Err)
}

// Version of an acknowledged upload
func (a Answer) Version() int32 {
	var r entity.PutResp
	_ = json.Unmarshal([]byte(a.Body), &r)
	return r.Version
}

// Do sends a request to the api server
func (c *Cluster) Do(method, path string, header map[string]string, body io.Reader, length int64) Answer {
	req, err := nethttp.NewRequest(method, "http://"+api.addr+path, body)
	if err != nil {
		panic(err)
	}
	if body != nil {
		req.ContentLength = length
	}
	for k, v := range header {
		req.Header.Set(k, v)
	}
	if c.Via != "" {
		req.Header.Set("X-Via", c.Via)
	}
	if _, ok := body.(*brokenReader); ok {
		return broken(req, length)
	}
	resp, err := client.Do(req)
	if err != nil {
		return Answer{Err: err}
	}
	defer resp.Body.Close()
	bt, err := io.ReadAll(resp.Body)
	return Answer{resp.StatusCode, resp.Header, string(bt), err}
}

// Put uploads an object
func (c *Cluster) Put(bucket, name, digest, query, content string) Answer {
	return c.Do("PUT", "/v1/objects/"+url.PathEscape(name)+query, map[string]string{"bucket": bucket, "digest": digest},
		strings.NewReader(content), int64(len(content)))
}

// Get downloads an object from an offset
func (c *Cluster) Get(bucket, name string, version int, offset int) Answer {
	hd := map[string]string{"bucket": bucket}
	if offset > 0 {
		hd["Range"] = fmt.Sprintf("bytes=%d-", offset)
	}
	return c.Do("GET", fmt.Sprintf("/v1/objects/%s?version=%d", url.PathEscape(name), version), hd, nil, 0)
}

// Read reads a version directly
func (c *Cluster) Read(bucket, name string, v entity.Version, offset int64, limit int64) (content string, err error) {
	ver := cloneVersion(v)
	st, err := c.Objects.GetObject(&entity.Metadata{Name: name, Bucket: bucket}, &ver)
	if err != nil {
		return "", err
	}
	if offset > 0 {
		if _, err = st.Seek(offset, io.SeekCurrent); err != nil {
			_ = st.Close()
			return "", err
		}
	}
	var buf bytes.Buffer
	var rd io.Reader = st
	if limit >= 0 {
		rd = io.LimitReader(st, limit)
	}
	_, err = io.CopyBuffer(onlyWriter{&buf}, rd, make([]byte, 7))
	if cerr := st.Close(); cerr != nil && err == nil {
		err = ErrClose{cerr}
	}
	return buf.String(), err
}

// ErrClose is an error on closing, after everything was read
type ErrClose struct{ Err error }

func (e ErrClose) Error() string { return "close: " + e.Err.Error() }

type onlyWriter struct{ w io.Writer }

func (o onlyWriter) Write(b []byte) (int, error) { return o.w.Write(b) }

// Body is sent completely and breaks off after n bytes of content
func Body(content string, n int) io.Reader {
	return &brokenReader{Reader: strings.NewReader(content[:n])}
}

type brokenReader struct{ *strings.Reader }

// broken sends what there is of a body, then the connection is half closed
func broken(req *nethttp.Request, length int64) Answer {
	conn, err := net.Dial("tcp", api.addr)
	if err != nil {
		return Answer{Err: err}
	}
	defer conn.Close()
	var buf bytes.Buffer
	fmt.Fprintf(&buf, "%s %s HTTP/1.1\r\nHost: %s\r\nContent-Length: %d\r\nConnection: close\r\n", req.Method, req.URL.RequestURI(), api.addr, length)
	_ = req.Header.Write(&buf)
	buf.WriteString("\r\n")
	_, _ = io.Copy(&buf, req.Body)
	if _, err = conn.Write(buf.Bytes()); err != nil {
		return Answer{Err: err}
	}
	if err = conn.(*net.TCPConn).CloseWrite(); err != nil {
		return Answer{Err: err}
	}
	resp, err := nethttp.ReadResponse(bufio.NewReader(conn), req)
	if err != nil {
		return Answer{Err: err}
	}
	defer resp.Body.Close()
	bt, err := io.ReadAll(resp.Body)
	return Answer{resp.StatusCode, resp.Header, string(bt), err}
}

// Content is a deterministic text without repetitions
func Content(seed, n int) string {
	b := make([]byte, n)
	x := uint32(seed*2654435761 + 12345)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return string(b)
}

// Until waits until a condition holds, at most as long as a loaded machine could need
func Until(cond func() bool) bool {
	for i := 0; i < 40000; i++ {
		if cond() {
			return true
		}
		time.Sleep(time.Duration(50+i) * time.Microsecond)
		if i > 3000 {
			return cond()
		}
	}
	return false
}

var (
	stacks    = make([]runtime.StackRecord, 4096)
	ofService = map[uintptr]bool{}
)

// Busy is how many goroutines work for the object service
func Busy() int {
	n, ok := runtime.GoroutineProfile(stacks)
	for !ok {
		stacks = make([]runtime.StackRecord, 2*n)
		n, ok = runtime.GoroutineProfile(stacks)
	}
	busy := 0
	for i := range stacks[:n] {
		for _, pc := range stacks[i].Stack() {
			is, known := ofService[pc]
			if !known {
				fs := runtime.CallersFrames([]uintptr{pc})
				for more := true; more; {
					var f runtime.Frame
					f, more = fs.Next()
					is = is || strings.Contains(f.Function, "internal/usecase/service.")
				}
				ofService[pc] = is
			}
			if is {
				busy++
				break
			}
		}
	}
	return busy
}

// Quiet waits until nothing runs in the background for the object service, false if that does not happen
func Quiet() bool {
	for i := 0; i < 2000; i++ {
		if Busy() == 0 {
			return true
		}
		time.Sleep(time.Duration(20+i) * time.Microsecond)
	}
	return false
}
