// Package objkit is one object server: real storage code, real path cache, real
// handlers, on scratch directories that stand for its disks.
package objkit

import (
	"bytes"
	"common/cache"
	"common/datasize"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"objectserver/config"
	chttp "objectserver/internal/controller/http"
	"objectserver/internal/db"
	"objectserver/internal/usecase/component"
	"objectserver/internal/usecase/pool"
	"objectserver/internal/usecase/service"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unsafe"

	"common/logs"

	"github.com/allegro/bigcache/v3"
	"github.com/dgraph-io/badger/v3"
	"github.com/dgraph-io/badger/v3/options"
	"github.com/gin-gonic/gin"
	"go.etcd.io/etcd/api/v3/mvccpb"
	clientv3 "go.etcd.io/etcd/client/v3"
)

// Node is the one server of the process (its state is global there)
type Node struct {
	Dir   string
	Disks []string
	H     http.Handler
	Free  []int // order of preference: disk with the highest value is chosen
	opt   Options

	Restarts int
	stop     func()
	mem      *db.PathCache
	index    string // directory of the path cache
}

type Options struct {
	Disks    int
	MaxItem  datasize.DataSize // largest content that is cached
	TTL      time.Duration
	Clean    time.Duration
	Cleaners int
	// MemIndex keeps the path cache in memory, over restarts
	MemIndex bool
	// NoHTTP leaves the handlers out
	NoHTTP bool
}

const store = "objects/s1_store"

// Warm opens and closes a path cache, so that the encoders it shares exist outside of any bubble
func Warm(dir string) {
	quiet()
	p, err := db.NewPathCache(filepath.Join(dir, "warm"))
	if err != nil {
		panic(err)
	}
	if err = p.Put("a", "b"); err == nil {
		err = p.Close()
	}
	if err != nil {
		panic(err)
	}
}

func quiet() {
	gin.SetMode(gin.ReleaseMode)
	logs.Std().SetOutput(io.Discard)
	logs.SetLevel(logs.Error)
}

// Open starts the server on fresh directories below dir
func Open(dir string, o Options) *Node {
	quiet()
	if o.Disks == 0 {
		o.Disks = 1
	}
	if o.TTL == 0 {
		o.TTL = time.Hour
	}
	if o.MaxItem == 0 {
		o.MaxItem = 10 * datasize.KB
	}
	n := &Node{Dir: dir, opt: o}
	base := n.Dir
	if fi, err := os.Stat("/dev/shm"); err == nil && fi.IsDir() {
		base = "/dev/shm" // it syncs a lot
	}
	var err error
	must(os.MkdirAll(n.Dir, 0700))
	n.index, err = os.MkdirTemp(base, "verif-index-")
	must(err)
	for i := 0; i < o.Disks; i++ {
		d := filepath.Join(dir, fmt.Sprintf("disk%d", i))
		n.Disks = append(n.Disks, d)
		n.Free = append(n.Free, o.Disks-i)
		must(os.MkdirAll(filepath.Join(d, store), 0700))
	}
	n.start()
	return n
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// start is what happens when the process starts
func (n *Node) start() {
	cfg := &config.Config{BaseMountPoint: n.Disks[0], StoragePath: store, TempCleaners: n.opt.Cleaners}
	cfg.TempPath, cfg.PathCachePath = store, "path-cache"
	cfg.Cache.MaxItemSize = n.opt.MaxItem
	cfg.Registry.Name, cfg.Registry.ServerID, cfg.Registry.Group = "objectserver", "s1", "g"
	cfg.Discovery.MetaServName = "metaserver"
	pool.Config = cfg
	pool.DriverManager = component.NewDriverManager(component.SpaceFirstBalancer())
	n.drivers()
	pool.ObjectCap = db.NewObjectCapacity()
	pool.PathDB = n.openIndex()
	n.newCache()
	if !n.opt.NoHTTP {
		n.H = chttp.NewHttpServer("0", nil).Handler
	}
	service.RemoveLeftTemps()
	service.WarmUpLocateCache()
}

// openIndex opens the path cache, without files if asked for
func (n *Node) openIndex() *db.PathCache {
	if n.opt.MemIndex {
		if n.mem == nil {
			n.mem = MemPathCache()
		}
		return n.mem
	}
	p, err := db.NewPathCache(n.index)
	must(err)
	return p
}

// LoseIndex makes the next start find no path cache. Only with MemIndex
func (n *Node) LoseIndex() {
	must(n.mem.Close())
	n.mem = nil
}

// MemPathCache is a path cache without files
func MemPathCache() *db.PathCache {
	b, err := badger.Open(badger.DefaultOptions("").WithInMemory(true).WithLogger(nil).WithMetricsEnabled(false).
		WithMemTableSize(1 << 20).WithValueThreshold(1 << 10).WithNumGoroutines(1).WithNumCompactors(0).WithBlockCacheSize(0).WithCompression(options.None))
	must(err)
	p := &db.PathCache{}
	v := reflect.ValueOf(p).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == reflect.TypeOf(b) {
			reflect.NewAt(v.Field(i).Type(), unsafe.Pointer(v.Field(i).UnsafeAddr())).Elem().Set(reflect.ValueOf(b))
			return p
		}
	}
	panic("objkit: the path cache has no database")
}

func (n *Node) newCache() {
	bc := bigcache.DefaultConfig(n.opt.TTL)
	bc.CleanWindow = n.opt.Clean
	bc.Shards, bc.Verbose, bc.MaxEntriesInWindow, bc.MaxEntrySize, bc.HardMaxCacheSize = 16, false, 64, 4096, 64
	pool.Cache = cache.NewCache(bc)
	n.stop = func() {}
	if n.opt.Cleaners > 0 {
		n.stop = service.StartTempRemovalBackground(pool.Cache, n.opt.Cleaners)
	}
}

// drivers makes the disks the drivers of the server, whatever the fields are called
func (n *Node) drivers() {
	var ds []*component.Driver
	for i, d := range n.Disks {
		ds = append(ds, &component.Driver{MountPoint: d, FreeSpace: datasize.DataSize(n.Free[i]) * datasize.GB, TotalSpace: 100 * datasize.GB})
	}
	SetDrivers(pool.DriverManager, ds)
}

// SetDrivers replaces the drivers of a manager
func SetDrivers(dm *component.DriverManager, ds []*component.Driver) {
	v := reflect.ValueOf(dm).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == reflect.TypeOf(ds) {
			reflect.NewAt(v.Field(i).Type(), unsafe.Pointer(v.Field(i).UnsafeAddr())).Elem().Set(reflect.ValueOf(ds))
			return
		}
	}
	panic("objkit: the driver manager has no list of drivers")
}

// Prefer makes a disk the one with the most room
func (n *Node) Prefer(disk int) {
	for i := range n.Free {
		n.Free[i] = len(n.Free) - i
	}
	n.Free[disk] = 50
	n.drivers()
}

// DropCache empties the content cache and the marks, as time does
func (n *Node) DropCache() { n.stop(); _ = pool.Cache.Close(); n.newCache() }

// Restart is an end of the process and a new start
func (n *Node) Restart() {
	n.close()
	n.Restarts++
	n.start()
}

func (n *Node) close() {
	n.stop()
	_ = pool.Cache.Close()
	if !n.opt.MemIndex {
		must(pool.PathDB.Close())
	}
}

// Close stops the server and removes its directories
func (n *Node) Close() {
	n.close()
	if n.opt.MemIndex {
		n.LoseIndex()
	}
	must(os.RemoveAll(n.Dir))
	must(os.RemoveAll(n.index))
}

// Files lists the files of all disks: name -> disks
func (n *Node) Files() map[string][]int {
	res := map[string][]int{}
	for i, d := range n.Disks {
		es, err := os.ReadDir(filepath.Join(d, store))
		must(err)
		for _, e := range es {
			res[e.Name()] = append(res[e.Name()], i)
		}
	}
	return res
}

// Path is where the file of a shard is expected on a disk
func (n *Node) Path(disk int, name string) string { return filepath.Join(n.Disks[disk], store, name) }

// Bytes is the sum of the sizes of the shards
func (n *Node) Bytes() (sum int64) {
	for name, ds := range n.Files() {
		if strings.HasPrefix(name, "TempInfo_") {
			continue
		}
		for _, d := range ds {
			fi, err := os.Stat(n.Path(d, name))
			must(err)
			sum += fi.Size()
		}
	}
	return
}

// Temps are the temporary files on the disks
func (n *Node) Temps() (res []string) {
	for name := range n.Files() {
		if strings.HasPrefix(name, "TempInfo_") {
			res = append(res, name)
		}
	}
	sort.Strings(res)
	return
}

// Capacity as the server reports it
func (n *Node) Capacity() int64 {
	r := n.Do("GET", "/stat", nil, nil)
	v, err := strconv.ParseInt(r.Header.Get("Capacity"), 10, 64)
	must(err)
	return v
}

// Resp is an answer
type Resp struct {
	Code   int
	Body   []byte
	Header http.Header
}

// Do sends a request to the handlers. A header "-" = "broken" makes the body end with an error
func (n *Node) Do(method, url string, header map[string]string, body io.Reader) Resp {
	req := httptest.NewRequest(method, url, body)
	for k, v := range header {
		req.Header.Set(k, v)
	}
	if b, ok := body.(*Body); ok {
		req.ContentLength = b.Length
	}
	w := httptest.NewRecorder()
	n.H.ServeHTTP(w, req)
	return Resp{w.Code, w.Body.Bytes(), w.Header()}
}

// DoLen sends a body of any kind with its length
func (n *Node) DoLen(method, url string, length int64, body io.Reader) Resp {
	req := httptest.NewRequest(method, url, body)
	req.ContentLength = length
	w := httptest.NewRecorder()
	n.H.ServeHTTP(w, req)
	return Resp{w.Code, w.Body.Bytes(), w.Header()}
}

// Body is a request body that may break or arrive in pieces
type Body struct {
	Data   []byte
	Length int64 // announced
	Err    error // after Data, io.EOF if nil
	Piece  int   // bytes per read, 0 any
	pos    int
}

var ErrBroken = errors.New("connection lost")

func NewBody(b []byte) *Body { return &Body{Data: b, Length: int64(len(b))} }

func (b *Body) Read(p []byte) (int, error) {
	if b.pos == len(b.Data) {
		if b.Err != nil {
			return 0, b.Err
		}
		return 0, io.EOF
	}
	if b.Piece > 0 && len(p) > b.Piece {
		p = p[:b.Piece]
	}
	n := copy(p, b.Data[b.pos:])
	b.pos += n
	return n, nil
}

// Put uploads a shard at once
func (n *Node) Put(name string, b *Body, compress bool) Resp {
	return n.Do("PUT", fmt.Sprintf("/objects/%s?compress=%v", name, compress), nil, b)
}

// Get reads length bytes from offset on. ranged: with a range header even if offset is 0; closed: naming the last byte too
func (n *Node) Get(name string, offset, length int64, compress, ranged, closed bool) Resp {
	h := map[string]string{"Size": fmt.Sprint(length)}
	if closed {
		h["Range"] = fmt.Sprintf("bytes=%d-%d", offset, offset+length-1)
	} else if ranged || offset > 0 {
		h["Range"] = fmt.Sprintf("bytes=%d-", offset)
	}
	return n.Do("GET", fmt.Sprintf("/objects/%s?compress=%v", name, compress), h, nil)
}

// Content is a content of n bytes without zeros, different for different seeds
func Content(n, seed int) []byte {
	b := make([]byte, n)
	x := uint32(seed*2654435761 + 12345)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x>>24)%251 + 1
		if i%7 < 4 {
			b[i] = byte(seed%200 + 1) // compressible
		}
	}
	return b
}

// Diff describes the first difference
func Diff(want, got []byte) string {
	if bytes.Equal(want, got) {
		return ""
	}
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	return fmt.Sprintf("%d bytes instead of %d, first difference at %d", len(got), len(want), i)
}

// Temp uploads

// Post announces an upload and returns its id
func (n *Node) Post(name string, size int64) (string, Resp) {
	r := n.Do("POST", "/temp/"+name, map[string]string{"Size": fmt.Sprint(size)}, nil)
	if r.Code != 200 {
		return "", r
	}
	return string(r.Body), r
}

func (n *Node) Patch(id string, b *Body) Resp { return n.Do("PATCH", "/temp/"+id, nil, b) }

func (n *Node) TempSize(id string) (int64, Resp) {
	r := n.Do("HEAD", "/temp/"+id, nil, nil)
	v, err := strconv.ParseInt(r.Header.Get("Size"), 10, 64)
	if err != nil {
		v = -1
	}
	return v, r
}

func (n *Node) TempGet(id string, size int64) Resp {
	return n.Do("GET", "/temp/"+id, map[string]string{"Size": fmt.Sprint(size)}, nil)
}

func (n *Node) Commit(id string, compress bool) Resp {
	return n.Do("PUT", fmt.Sprintf("/temp/%s?compress=%v", id, compress), nil, nil)
}

func (n *Node) Abort(id string) Resp { return n.Do("DELETE", "/temp/"+id, nil, nil) }

// Listed are the paths that the index contains, with their numbers
func (n *Node) Listed() map[string]int {
	res := map[string]int{}
	must(pool.PathDB.IteratorAll(func(p string) error { res[p]++; return nil }))
	return res
}

// Locator answers requests for the location of shards, over a coordination store of its own
type Locator struct {
	KV   *locateKV
	ch   chan clientv3.WatchResponse
	stop func()
}

type locateKV struct {
	clientv3.KV
	mu  sync.Mutex
	Got map[string]string
}

func (k *locateKV) Get(context.Context, string, ...clientv3.OpOption) (*clientv3.GetResponse, error) {
	return &clientv3.GetResponse{Count: 1}, nil
}

func (k *locateKV) Put(_ context.Context, key, val string, _ ...clientv3.OpOption) (*clientv3.PutResponse, error) {
	k.mu.Lock()
	defer k.mu.Unlock()
	k.Got[key] = val
	return &clientv3.PutResponse{}, nil
}

type locateWatcher struct {
	clientv3.Watcher
	l *Locator
}

func (w *locateWatcher) Watch(context.Context, string, ...clientv3.OpOption) clientv3.WatchChan {
	return w.l.ch
}

type oneService struct{}

func (oneService) GetServices(string) []string { return []string{"127.0.0.1:1"} }
func (oneService) GetServiceMapping(string) map[string]string {
	return map[string]string{"s1": "127.0.0.1:1"}
}
func (oneService) GetServiceMappingWith(string, bool) map[string]string {
	return map[string]string{"s1": "127.0.0.1:1"}
}
func (oneService) GetService(string, string) (string, bool) { return "127.0.0.1:1", true }

func (n *Node) Locator() *Locator {
	l := &Locator{KV: &locateKV{Got: map[string]string{}}, ch: make(chan clientv3.WatchResponse)}
	pool.Discovery = oneService{}
	l.stop = service.NewLocator(&clientv3.Client{KV: l.KV, Watcher: &locateWatcher{l: l}}).StartLocate()
	return l
}

// Ask sends a location request; the answer is there when everything is quiet again
func (l *Locator) Ask(message string) {
	l.ch <- clientv3.WatchResponse{Events: []*clientv3.Event{{Type: clientv3.EventTypePut, Kv: &mvccpb.KeyValue{Value: []byte(message)}}}}
}

func (l *Locator) Answers() map[string]string {
	l.KV.mu.Lock()
	defer l.KV.mu.Unlock()
	res := map[string]string{}
	for k, v := range l.KV.Got {
		res[k] = v
	}
	return res
}

func (l *Locator) Close() { l.stop() }
