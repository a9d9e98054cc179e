package performance_test

import (
	"common/performance"
	"common/vkit"
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"
	"unsafe"

	bolt "go.etcd.io/bbolt"
	pb "go.etcd.io/etcd/api/v3/etcdserverpb"
	"go.etcd.io/etcd/api/v3/mvccpb"
	"go.etcd.io/etcd/api/v3/v3rpc/rpctypes"
	clientv3 "go.etcd.io/etcd/client/v3"
)

type sample struct {
	kind, action string
	cost         time.Duration
}

func (s sample) String() string { return fmt.Sprintf("%s/%s=%d", s.kind, s.action, int64(s.cost)) }

func performs(l []sample) []*performance.Perform {
	var r []*performance.Perform
	for _, s := range l {
		r = append(r, &performance.Perform{KindOf: s.kind, Action: s.action, Cost: s.cost})
	}
	return r
}

func samples(l []*performance.Perform) []sample {
	var r []sample
	for _, p := range l {
		r = append(r, sample{p.KindOf, p.Action, p.Cost})
	}
	return r
}

func canon(l []sample) string {
	var r []string
	for _, s := range l {
		r = append(r, s.String())
	}
	sort.Strings(r)
	if len(r) > 24 {
		h := 0
		for _, x := range strings.Join(r, " ") {
			h = h*31 + int(x)
		}
		return fmt.Sprintf("%d samples %s ... %s (%x)", len(r), strings.Join(r[:3], " "), r[len(r)-1], uint64(h))
	}
	return "[" + strings.Join(r, " ") + "]"
}

// model is what a store should contain
type model []sample

func match(s sample, k, a string) bool { return (k == "" || k == s.kind) && (a == "" || a == s.action) }

func (m model) get(k, a string) (r []sample) {
	for _, s := range m {
		if match(s, k, a) {
			r = append(r, s)
		}
	}
	return
}

func (m model) without(k, a string) (r model) {
	for _, s := range m {
		if !match(s, k, a) {
			r = append(r, s)
		}
	}
	return
}

func (m model) agg(k, a string, avg bool) (r []sample) {
	sum := map[[2]string]time.Duration{}
	n := map[[2]string]int{}
	for _, s := range m.get(k, a) {
		sum[[2]string{s.kind, s.action}] += s.cost
		n[[2]string{s.kind, s.action}]++
	}
	for g, v := range sum {
		if avg {
			v /= time.Duration(n[g])
		}
		r = append(r, sample{g[0], g[1], v})
	}
	return
}

var kinds = []string{"http", "http2", "http.x"}
var actions = []string{"write", "write-x", "write.1"}

// compare asks the store everything
func compare(s performance.Store, m model) string {
	for _, k := range append([]string{"", "missing"}, kinds...) {
		for _, a := range append([]string{"", "missing"}, actions...) {
			want := m.get(k, a)
			one := func(what string, got []*performance.Perform, err error, want []sample) string {
				if err != nil {
					if len(want) == 0 {
						return ""
					}
					return fmt.Sprintf("%s(%q, %q) fails: %v, want %s", what, k, a, err, canon(want))
				}
				if g, w := canon(samples(got)), canon(want); g != w {
					return fmt.Sprintf("%s(%q, %q) answers %s, want %s", what, k, a, g, w)
				}
				return ""
			}
			got, err := s.Get(k, a)
			if e := one("Get", got, err, want); e != "" {
				return e
			}
			got, err = s.Average(k, a)
			if e := one("Average", got, err, m.agg(k, a, true)); e != "" {
				return e
			}
			got, err = s.Sum(k, a)
			if e := one("Sum", got, err, m.agg(k, a, false)); e != "" {
				return e
			}
			n, err := s.Size(k, a)
			if err != nil {
				return fmt.Sprintf("Size(%q, %q) fails: %v", k, a, err)
			}
			if n != int64(len(want)) {
				return fmt.Sprintf("Size(%q, %q) answers %d, want %d", k, a, n, len(want))
			}
		}
	}
	return ""
}

type op struct {
	name  string
	batch [][2]int // kind, action
	clear *[2]string
	other string
}

func ops() (r []op) {
	rep := func(n int, ka ...[2]int) (l [][2]int) {
		for i := 0; i < n; i++ {
			l = append(l, ka[i%len(ka)])
		}
		return
	}
	r = append(r,
		op{name: "put 1", batch: [][2]int{{0, 0}}},
		op{name: "put 3", batch: [][2]int{{0, 0}, {1, 0}, {0, 1}}},
		op{name: "put 4", batch: [][2]int{{2, 0}, {0, 2}, {1, 1}, {2, 2}}},
		op{name: "put 12", batch: rep(12, [2]int{0, 0}, [2]int{1, 0}, [2]int{0, 1}, [2]int{0, 2})},
	)
	for _, c := range [][2]string{{"", ""}, {"http", ""}, {"http2", ""}, {"", "write"}, {"", "write-x"}, {"http", "write"}, {"http", "write-x"}, {"missing", ""}, {"", "missing"}, {"http", "missing"}} {
		c := c
		r = append(r, op{name: fmt.Sprintf("clear(%q, %q)", c[0], c[1]), clear: &c})
	}
	return
}

// cost of the n-th sample: all differ
func cost(n int) time.Duration {
	switch n % 3 {
	case 0:
		return time.Duration(n)
	case 1:
		return time.Duration(n) * time.Millisecond
	}
	return time.Duration(n) * time.Hour
}

func (o op) samples(n *int) (l []sample) {
	for _, b := range o.batch {
		*n++
		l = append(l, sample{kinds[b[0]], actions[b[1]], cost(*n)})
	}
	return
}

// field finds the first value of a type in a structure
func field(v reflect.Value, t reflect.Type, depth int) (unsafe.Pointer, bool) {
	if !v.IsValid() || depth > 6 {
		return nil, false
	}
	if v.Type() == t {
		if v.CanAddr() {
			return *(*unsafe.Pointer)(unsafe.Pointer(v.UnsafeAddr())), true
		}
		return v.UnsafePointer(), true
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		if v.IsNil() {
			return nil, false
		}
		return field(v.Elem(), t, depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if p, ok := field(v.Field(i), t, depth+1); ok {
				return p, true
			}
		}
	}
	return nil, false
}

// boltOf is the database of a local store (nil if it cannot be found: then the store is only slower)
func boltOf(s performance.Store) *bolt.DB {
	if p, ok := field(reflect.ValueOf(s), reflect.TypeOf((*bolt.DB)(nil)), 0); ok {
		return (*bolt.DB)(p)
	}
	return nil
}

// bubble executes f in virtual time and says whether all its goroutines ended
func bubble(t *testing.T, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if strings.Contains(fmt.Sprint(r), "blocked goroutines remain") {
				ok = false
				return
			}
			panic(r)
		}
	}()
	vkit.Bubble(t, func(*testing.T) { f() })
	return true
}

// history executes a history on a fresh store; only the contents after the last operation are compared.
func history(s performance.Store, hist []op, reopen func() performance.Store) (msg string, m model) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprint("panic: ", r)
		}
	}()
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	n := 0
	type held struct {
		got  []*performance.Perform
		want string
	}
	var hs []held
	for i, o := range hist {
		switch {
		case o.other == "reopen":
			s = reopen()
			if s == nil {
				return "the store does not open again", m
			}
		case o.clear != nil:
			if err := s.Clear(o.clear[0], o.clear[1]); err != nil {
				return o.name + " fails: " + err.Error(), m
			}
			m = m.without(o.clear[0], o.clear[1])
		default:
			l := o.samples(&n)
			if err := s.Put(performs(l)); err != nil {
				return o.name + " fails: " + err.Error(), m
			}
			m = append(m, l...)
		}
		for _, h := range hs {
			if g := canon(samples(h.got)); g != h.want {
				return fmt.Sprintf("an answer given before changes to %s from %s", g, h.want), m
			}
		}
		if i+1 == len(hist) {
			return compare(s, m), m
		}
		if got, err := s.Get("", ""); err == nil {
			hs = append(hs, held{got, canon(samples(got))})
		}
		if got, err := s.Get("http", ""); err == nil {
			hs = append(hs, held{got, canon(samples(got))})
		}
	}
	return "", m
}

func names(h []op) string {
	var r []string
	for _, o := range h {
		r = append(r, o.name)
	}
	return strings.Join(r, "; ")
}

// all histories of at most n operations; the first operation is a put
func all(l []op, n int, each func([]op)) {
	var rec func(h []op)
	rec = func(h []op) {
		if len(h) > 0 {
			each(h)
		}
		if len(h) == n {
			return
		}
		for _, o := range l {
			if len(h) == 0 && o.batch == nil {
				continue
			}
			rec(append(append([]op{}, h...), o))
		}
	}
	rec(nil)
}

func big(n, pattern int) op {
	o := op{name: fmt.Sprintf("put %d", n)}
	for i := 0; i < n; i++ {
		switch pattern {
		case 0:
			o.batch = append(o.batch, [2]int{0, 0})
		case 1:
			o.batch = append(o.batch, [2]int{i % 3, i / 3 % 3})
		default:
			o.batch = append(o.batch, [2]int{i % 3, i * 3 / n})
		}
	}
	return o
}

func TestVerifP01Store(t *testing.T) {
	vkit.Run(t, "P01", func(c *vkit.Ctx) {
		c.Rule("one evaluation = one history of puts, clears and reopenings of a real store, all queries compared after it")
		i := 0
		one := func(kind string, h []op) {
			i++
			if !c.Mine(i) || c.Expired() || c.Violated() {
				return
			}
			nm := kind + ": " + names(h)
			c.Cur("%s", nm)
			c.Eval(nm)
			run := func() (msg string) {
				var m model
				if kind == "etcd" {
					if !bubble(t, func() {
						e := newEtcd()
						defer e.close()
						s := performance.NewEtcdStore(e.client(), actions)
						msg, m = history(s, h, func() performance.Store { return performance.NewEtcdStore(e.client(), actions) })
					}) && msg == "" {
						msg = "goroutines are left"
					}
				} else {
					dir := c.Scratch(fmt.Sprintf("l%d", i))
					_ = os.MkdirAll(dir, 0o755)
					p := filepath.Join(dir, "sub", "p.db")
					var s performance.Store
					if !bubble(t, func() {
						open := func() performance.Store {
							s = performance.NewLocalStore(p)
							if s == nil {
								return nil
							}
							if d := boltOf(s); d != nil {
								d.NoSync = true
							}
							return s
						}
						if open() == nil {
							msg = "the store does not open"
							return
						}
						msg, m = history(s, h, func() performance.Store {
							if d := boltOf(s); d != nil {
								_ = d.Close()
								return open()
							}
							return s
						})
						if d := boltOf(s); d != nil {
							_ = d.Close()
						}
					}) && msg == "" {
						msg = "goroutines are left"
					}
					_ = os.RemoveAll(dir)
				}
				c.State(canon(m))
				return
			}
			msg := run()
			for range h {
				c.Transition()
			}
			c.Validated()
			if msg != "" {
				c.Fail(kind+": "+msg, func() bool { return run() != "" }, "%s\n%s", nm, msg)
			}
		}
		l := ops()
		lo := append(append([]op{}, l...), op{name: "reopen", other: "reopen"})
		for _, kind := range []string{"local", "etcd"} {
			for p := 0; p < 3; p++ {
				for _, n := range []int{127, 128, 129, 400} {
					for _, o := range l {
						if o.clear != nil {
							one(kind, []op{big(n, p), o})
							one(kind, []op{big(n, p), o, l[1]})
						}
					}
				}
			}
		}
		all(l, c.N(3, 4), func(h []op) { one("etcd", h) })
		all(lo, c.N(3, 4), func(h []op) { one("local", h) })
	})
}

// ---- etcd

var errDown = errors.New("etcd is not available")

type kv struct {
	val         string
	create, mod int64
	lease       int64
}

type lease struct {
	ttl     int64
	expires time.Time
	gone    chan struct{}
}

// etcd is a simulated server
type etcd struct {
	mu       sync.Mutex
	rev      int64
	kvs      map[string]*kv
	leases   map[int64]*lease
	events   []*clientv3.Event
	changed  chan struct{}
	n        int // requests so far
	failAt   int // this request fails
	after    bool
	failed   string
	down     bool
	hook     func(op string)
	closed   chan struct{}
	maxSeen  int
	watching func() int
}

func newEtcd() *etcd {
	return &etcd{rev: 1, kvs: map[string]*kv{}, leases: map[int64]*lease{}, changed: make(chan struct{}), failAt: -1, closed: make(chan struct{})}
}

func (e *etcd) close() { close(e.closed) }

func (e *etcd) client() *clientv3.Client {
	c := clientv3.NewCtxClient(context.Background())
	c.KV, c.Lease, c.Watcher = e, e, e
	return c
}

// begin says whether the request is refused, or applied but not answered
func (e *etcd) begin(op string) (refuse, lost bool) {
	if e.hook != nil {
		e.hook(op)
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	e.expire()
	i := e.n
	e.n++
	if e.down {
		return true, false
	}
	if i == e.failAt {
		e.failed = op
		return !e.after, e.after
	}
	return
}

func (e *etcd) expire() {
	for id, l := range e.leases {
		if time.Now().After(l.expires) {
			e.revoke(id)
		}
	}
}

func (e *etcd) wake() {
	close(e.changed)
	e.changed = make(chan struct{})
}

func (e *etcd) revoke(id int64) {
	l := e.leases[id]
	delete(e.leases, id)
	close(l.gone)
	e.rev++
	for k, v := range e.kvs {
		if v.lease == id {
			e.del(k)
		}
	}
}

func (e *etcd) del(k string) {
	delete(e.kvs, k)
	e.events = append(e.events, &clientv3.Event{Type: mvccpb.DELETE, Kv: &mvccpb.KeyValue{Key: []byte(k), ModRevision: e.rev}})
	e.wake()
}

func in(k string, op clientv3.Op) bool {
	if len(op.RangeBytes()) == 0 {
		return k == string(op.KeyBytes())
	}
	return k >= string(op.KeyBytes()) && (k < string(op.RangeBytes()) || string(op.RangeBytes()) == "\x00")
}

func (e *etcd) get(op clientv3.Op) *clientv3.GetResponse {
	v := reflect.ValueOf(op)
	res := &clientv3.GetResponse{Header: &pb.ResponseHeader{Revision: e.rev}}
	var l []*mvccpb.KeyValue
	for k, x := range e.kvs {
		if !in(k, op) {
			continue
		}
		if n := v.FieldByName("minCreateRev").Int(); n != 0 && x.create < n {
			continue
		}
		if n := v.FieldByName("maxCreateRev").Int(); n != 0 && x.create > n {
			continue
		}
		if n := v.FieldByName("minModRev").Int(); n != 0 && x.mod < n {
			continue
		}
		if n := v.FieldByName("maxModRev").Int(); n != 0 && x.mod > n {
			continue
		}
		res.Count++
		if !op.IsCountOnly() {
			o := &mvccpb.KeyValue{Key: []byte(k), CreateRevision: x.create, ModRevision: x.mod, Lease: x.lease}
			if !op.IsKeysOnly() {
				o.Value = []byte(x.val)
			}
			l = append(l, o)
		}
	}
	sort.Slice(l, func(i, j int) bool { return string(l[i].Key) < string(l[j].Key) })
	if s := v.FieldByName("sort"); !s.IsNil() {
		target, order := clientv3.SortTarget(s.Elem().FieldByName("Target").Int()), clientv3.SortOrder(s.Elem().FieldByName("Order").Int())
		less := func(a, b *mvccpb.KeyValue) bool {
			switch target {
			case clientv3.SortByCreateRevision:
				return a.CreateRevision < b.CreateRevision
			case clientv3.SortByModRevision:
				return a.ModRevision < b.ModRevision
			case clientv3.SortByValue:
				return string(a.Value) < string(b.Value)
			}
			return string(a.Key) < string(b.Key)
		}
		if order == clientv3.SortDescend {
			sort.SliceStable(l, func(i, j int) bool { return less(l[j], l[i]) })
		} else {
			sort.SliceStable(l, func(i, j int) bool { return less(l[i], l[j]) })
		}
	}
	if n := v.FieldByName("limit").Int(); n > 0 && int64(len(l)) > n {
		l, res.More = l[:n], true
	}
	res.Kvs = l
	return res
}

func (e *etcd) put(op clientv3.Op) {
	k := string(op.KeyBytes())
	x := e.kvs[k]
	if x == nil {
		x = &kv{create: e.rev}
		e.kvs[k] = x
	}
	x.val, x.mod, x.lease = string(op.ValueBytes()), e.rev, reflect.ValueOf(op).FieldByName("leaseID").Int()
	e.wake()
}

func (e *etcd) valid(op clientv3.Op) error {
	if op.IsPut() {
		if id := reflect.ValueOf(op).FieldByName("leaseID").Int(); id != 0 && e.leases[id] == nil {
			return rpctypes.ErrLeaseNotFound
		}
	}
	return nil
}

func (e *etcd) delete(op clientv3.Op) int64 {
	var l []string
	for k := range e.kvs {
		if in(k, op) {
			l = append(l, k)
		}
	}
	for _, k := range l {
		e.del(k)
	}
	return int64(len(l))
}

func (e *etcd) records() (n int) {
	for k := range e.kvs {
		if strings.HasPrefix(k, "performance-data/") {
			n++
		}
	}
	return
}

func (e *etcd) Get(_ context.Context, key string, opts ...clientv3.OpOption) (*clientv3.GetResponse, error) {
	if r, l := e.begin("Get"); r || l {
		return nil, errDown
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.get(clientv3.OpGet(key, opts...)), nil
}

func (e *etcd) Put(_ context.Context, key, val string, opts ...clientv3.OpOption) (*clientv3.PutResponse, error) {
	r, l := e.begin("Put")
	if r {
		return nil, errDown
	}
	op := clientv3.OpPut(key, val, opts...)
	e.mu.Lock()
	defer e.mu.Unlock()
	if err := e.valid(op); err != nil {
		return nil, err
	}
	e.rev++
	e.put(op)
	if l {
		return nil, errDown
	}
	return &clientv3.PutResponse{Header: &pb.ResponseHeader{Revision: e.rev}}, nil
}

func (e *etcd) Delete(_ context.Context, key string, opts ...clientv3.OpOption) (*clientv3.DeleteResponse, error) {
	r, l := e.begin("Delete")
	if r {
		return nil, errDown
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	e.rev++
	n := e.delete(clientv3.OpDelete(key, opts...))
	if l {
		return nil, errDown
	}
	return &clientv3.DeleteResponse{Header: &pb.ResponseHeader{Revision: e.rev}, Deleted: n}, nil
}

func (e *etcd) Compact(context.Context, int64, ...clientv3.CompactOption) (*clientv3.CompactResponse, error) {
	return nil, errors.New("not simulated")
}

func (e *etcd) Do(ctx context.Context, op clientv3.Op) (clientv3.OpResponse, error) {
	return clientv3.OpResponse{}, errors.New("not simulated")
}

type txn struct {
	e         *etcd
	mu        sync.Mutex
	cif       bool
	cthen     bool
	celse     bool
	cmps      []clientv3.Cmp
	then, els []clientv3.Op
}

func (e *etcd) Txn(context.Context) clientv3.Txn { return &txn{e: e} }

func (t *txn) If(cs ...clientv3.Cmp) clientv3.Txn {
	if t.cif {
		panic("cannot call If twice!")
	}
	t.cif = true
	t.cmps = append(t.cmps, cs...)
	return t
}

func (t *txn) Then(o ...clientv3.Op) clientv3.Txn {
	if t.cthen {
		panic("cannot call Then twice!")
	}
	t.cthen = true
	t.then = append(t.then, o...)
	return t
}

func (t *txn) Else(o ...clientv3.Op) clientv3.Txn {
	if t.celse {
		panic("cannot call Else twice!")
	}
	t.celse = true
	t.els = append(t.els, o...)
	return t
}

func (t *txn) Commit() (*clientv3.TxnResponse, error) {
	e := t.e
	refuse, lost := e.begin("Txn")
	if refuse {
		return nil, errDown
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	if len(t.then) > 128 || len(t.els) > 128 || len(t.cmps) > 128 {
		return nil, rpctypes.ErrTooManyOps
	}
	for _, l := range [][]clientv3.Op{t.then, t.els} {
		seen := map[string]bool{}
		for _, o := range l {
			if o.IsPut() {
				if seen[string(o.KeyBytes())] {
					return nil, rpctypes.ErrDuplicateKey
				}
				seen[string(o.KeyBytes())] = true
			}
		}
		for _, o := range l {
			if o.IsDelete() {
				for k := range seen {
					if in(k, o) {
						return nil, rpctypes.ErrDuplicateKey
					}
				}
			}
		}
	}
	ok := true
	for _, c := range t.cmps {
		p := pb.Compare(c)
		var have, want int64
		x := e.kvs[string(p.Key)]
		switch p.Target {
		case pb.Compare_CREATE:
			want = p.GetCreateRevision()
			if x != nil {
				have = x.create
			}
		case pb.Compare_MOD:
			want = p.GetModRevision()
			if x != nil {
				have = x.mod
			}
		default:
			return nil, errors.New("not simulated")
		}
		switch p.Result {
		case pb.Compare_EQUAL:
			ok = ok && have == want
		case pb.Compare_NOT_EQUAL:
			ok = ok && have != want
		case pb.Compare_GREATER:
			ok = ok && have > want
		default:
			ok = ok && have < want
		}
	}
	l := t.then
	if !ok {
		l = t.els
	}
	for _, o := range l {
		if err := e.valid(o); err != nil {
			return nil, err
		}
	}
	e.rev++
	res := &clientv3.TxnResponse{Succeeded: ok}
	for _, o := range l {
		r := &pb.ResponseOp{}
		switch {
		case o.IsPut():
			e.put(o)
			r.Response = &pb.ResponseOp_ResponsePut{ResponsePut: &pb.PutResponse{Header: &pb.ResponseHeader{Revision: e.rev}}}
		case o.IsDelete():
			n := e.delete(o)
			r.Response = &pb.ResponseOp_ResponseDeleteRange{ResponseDeleteRange: &pb.DeleteRangeResponse{Deleted: n}}
		case o.IsGet():
			g := pb.RangeResponse(*e.get(o))
			r.Response = &pb.ResponseOp_ResponseRange{ResponseRange: &g}
		}
		res.Responses = append(res.Responses, r)
	}
	res.Header = &pb.ResponseHeader{Revision: e.rev}
	if n := e.records(); n > e.maxSeen {
		e.maxSeen = n
	}
	if lost {
		return nil, errDown
	}
	return res, nil
}

func (e *etcd) Grant(_ context.Context, ttl int64) (*clientv3.LeaseGrantResponse, error) {
	r, l := e.begin("Grant")
	if r {
		return nil, errDown
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	id := int64(len(e.leases)) + e.rev*100
	for e.leases[id] != nil {
		id++
	}
	e.rev++
	e.leases[id] = &lease{ttl, time.Now().Add(time.Duration(ttl) * time.Second), make(chan struct{})}
	if l {
		return nil, errDown
	}
	return &clientv3.LeaseGrantResponse{ID: clientv3.LeaseID(id), TTL: ttl}, nil
}

func (e *etcd) Revoke(_ context.Context, id clientv3.LeaseID) (*clientv3.LeaseRevokeResponse, error) {
	r, l := e.begin("Revoke")
	if r {
		return nil, errDown
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.leases[int64(id)] == nil {
		return nil, rpctypes.ErrLeaseNotFound
	}
	e.revoke(int64(id))
	if l {
		return nil, errDown
	}
	return &clientv3.LeaseRevokeResponse{}, nil
}

func (e *etcd) KeepAlive(ctx context.Context, id clientv3.LeaseID) (<-chan *clientv3.LeaseKeepAliveResponse, error) {
	ch := make(chan *clientv3.LeaseKeepAliveResponse, 1)
	go func() {
		defer close(ch)
		last := time.Now()
		for {
			e.mu.Lock()
			e.expire()
			l := e.leases[int64(id)]
			wait := time.Second
			if l != nil && !e.down {
				last = time.Now()
				l.expires = last.Add(time.Duration(l.ttl) * time.Second)
				wait = time.Duration(l.ttl) * time.Second / 3
			}
			e.mu.Unlock()
			if l == nil || time.Since(last) > 30*time.Second {
				return
			}
			select {
			case <-ctx.Done():
				return
			case <-e.closed:
				return
			case <-l.gone:
			case <-time.After(wait):
			}
		}
	}()
	return ch, nil
}

func (e *etcd) KeepAliveOnce(context.Context, clientv3.LeaseID) (*clientv3.LeaseKeepAliveResponse, error) {
	return nil, errors.New("not simulated")
}

func (e *etcd) TimeToLive(context.Context, clientv3.LeaseID, ...clientv3.LeaseOption) (*clientv3.LeaseTimeToLiveResponse, error) {
	return nil, errors.New("not simulated")
}

func (e *etcd) Leases(context.Context) (*clientv3.LeaseLeasesResponse, error) {
	return nil, errors.New("not simulated")
}

func (e *etcd) Watch(ctx context.Context, key string, opts ...clientv3.OpOption) clientv3.WatchChan {
	op := clientv3.OpGet(key, opts...)
	from := op.Rev()
	ch := make(chan clientv3.WatchResponse)
	go func() {
		defer close(ch)
		at := 0
		for {
			e.mu.Lock()
			e.expire()
			var evs []*clientv3.Event
			for ; at < len(e.events); at++ {
				if v := e.events[at]; in(string(v.Kv.Key), op) && v.Kv.ModRevision >= from {
					evs = append(evs, v)
				}
			}
			changed := e.changed
			e.mu.Unlock()
			if len(evs) > 0 {
				select {
				case ch <- clientv3.WatchResponse{Events: evs}:
				case <-ctx.Done():
					return
				}
				continue
			}
			select {
			case <-changed:
			case <-ctx.Done():
				return
			case <-e.closed:
				return
			case <-time.After(5 * time.Second):
			}
		}
	}()
	return ch
}

func (e *etcd) RequestProgress(context.Context) error { return nil }
func (e *etcd) Close() error                          { return nil }

// call executes fn and turns a panic into a message
func call(fn func() error) (err error, panicked string) {
	defer func() {
		if r := recover(); r != nil {
			panicked = fmt.Sprint("panic: ", r)
		}
	}()
	return fn(), ""
}

// TestVerifP01Etcd: failing requests, outages, foreign actions, the limit
func TestVerifP01Etcd(t *testing.T) {
	vkit.Run(t, "P01", func(c *vkit.Ctx) {
		c.Rule("one evaluation = one history of the etcd store with one failing or unanswered request, an outage or a store that is nearly full")
		i := 0
		l := ops()
		one := func(name string, run func() string) bool {
			i++
			if !c.Mine(i) || c.Expired() || c.Violated() {
				return false
			}
			c.Cur("%s", name)
			c.Eval(name)
			var msg string
			exec := func() {
				msg = ""
				ok := bubble(t, func() {
					var p string
					_, p = call(func() error { msg = run(); return nil })
					if p != "" && msg == "" {
						msg = p
					}
				})
				if !ok && msg == "" {
					msg = "goroutines are left"
				}
			}
			exec()
			c.Transition()
			c.Validated()
			if m := msg; m != "" {
				c.Fail(m, func() bool { exec(); return msg != "" }, "%s\n%s", name, m)
			}
			return true
		}
		// one failing request
		for _, last := range append([]op{big(300, 1)}, l...) {
			for _, after := range []bool{false, true} {
				for f := 0; f < 14; f++ {
					last, after, f := last, after, f
					one(fmt.Sprintf("put 3; put 300; %s with request %d failing (applied: %v), repeated", last.name, f, after), func() string {
						e := newEtcd()
						defer e.close()
						s := performance.NewEtcdStore(e.client(), actions)
						var m model
						n := 0
						for _, o := range []op{l[1], big(300, 2)} {
							b := o.samples(&n)
							if err := s.Put(performs(b)); err != nil {
								return "put fails: " + err.Error()
							}
							m = append(m, b...)
						}
						b := last.samples(&n)
						p := performs(b)
						do := func() error {
							if last.clear != nil {
								return s.Clear(last.clear[0], last.clear[1])
							}
							return s.Put(p)
						}
						e.mu.Lock()
						e.failAt, e.after = e.n+f, after
						e.mu.Unlock()
						err, pan := call(do)
						if pan != "" {
							return fmt.Sprintf("%s (request %s fails)", pan, e.failed)
						}
						for k := 0; err != nil; k++ {
							if k > 2 {
								return "still fails: " + err.Error()
							}
							// a lock whose owner got no answer is free when its lease ends
							time.Sleep(20 * time.Second)
							err = do()
						}
						if last.clear != nil {
							m = m.without(last.clear[0], last.clear[1])
						} else {
							m = append(m, b...)
						}
						e.mu.Lock()
						e.failAt = -1
						e.mu.Unlock()
						return compare(s, m)
					})
				}
			}
		}
		// failing queries: an error or the right answer
		for _, k := range append([]string{""}, kinds...) {
			for _, a := range append([]string{""}, actions...) {
				for f := 0; f < 4; f++ {
					for q := 0; q < 4; q++ {
						k, a, f, q := k, a, f, q
						one(fmt.Sprintf("query %d of (%q, %q) with request %d failing", q, k, a, f), func() string {
							e := newEtcd()
							defer e.close()
							s := performance.NewEtcdStore(e.client(), actions)
							n := 0
							m := model(big(30, 1).samples(&n))
							if err := s.Put(performs(m)); err != nil {
								return "put fails: " + err.Error()
							}
							e.mu.Lock()
							e.failAt = e.n + f
							e.mu.Unlock()
							var got []*performance.Perform
							var want []sample
							var err error
							switch q {
							case 0:
								got, err = s.Get(k, a)
								want = m.get(k, a)
							case 1:
								got, err = s.Average(k, a)
								want = m.agg(k, a, true)
							case 2:
								got, err = s.Sum(k, a)
								want = m.agg(k, a, false)
							default:
								var z int64
								z, err = s.Size(k, a)
								if err == nil && int(z) != len(m.get(k, a)) {
									return fmt.Sprintf("Size answers %d of %d without an error", z, len(m.get(k, a)))
								}
								return ""
							}
							if g, w := canon(samples(got)), canon(want); err == nil && g != w {
								return fmt.Sprintf("answers %s without an error, want %s", g, w)
							}
							return ""
						})
					}
				}
			}
		}
		// outages: afterwards the store works as before
		for _, gap := range []time.Duration{0, 5 * time.Second, 16 * time.Second, 2 * time.Minute} {
			for _, first := range []bool{false, true} {
				for _, during := range []int{-1, 0, 1, 5} {
					gap, first, during := gap, first, during
					one(fmt.Sprintf("an outage of %s (put before: %v, during: %d)", gap, first, during), func() string {
						e := newEtcd()
						defer e.close()
						s := performance.NewEtcdStore(e.client(), actions)
						n := 0
						var m model
						put := func(o op) ([]*performance.Perform, []sample) {
							b := o.samples(&n)
							return performs(b), b
						}
						if first {
							p, b := put(l[1])
							if err := s.Put(p); err != nil {
								return "put fails: " + err.Error()
							}
							m = append(m, b...)
						}
						set := func(v bool) { e.mu.Lock(); e.down = v; e.mu.Unlock() }
						set(true)
						if during >= 0 {
							o := l[during%4]
							if during == 5 {
								o = big(200, 1)
							}
							p, b := put(o)
							err, pan := call(func() error { return s.Put(p) })
							if pan != "" {
								return pan
							}
							if err == nil {
								return "put succeeds without etcd"
							}
							time.Sleep(gap)
							set(false)
							if err := s.Put(p); err != nil {
								return "put after the outage fails: " + err.Error()
							}
							m = append(m, b...)
						} else {
							time.Sleep(gap)
							set(false)
						}
						p, b := put(l[2])
						if err := s.Put(p); err != nil {
							return "put after the outage fails: " + err.Error()
						}
						m = append(m, b...)
						return compare(s, m)
					})
				}
			}
		}
		// only the allowed actions
		for mask := 0; mask < 8; mask++ {
			mask := mask
			one(fmt.Sprintf("allowed actions %03b", mask), func() string {
				e := newEtcd()
				defer e.close()
				var acts []string
				for j, a := range actions {
					if mask>>j&1 == 1 {
						acts = append(acts, a)
					}
				}
				s := performance.NewEtcdStore(e.client(), acts)
				n := 0
				var m model
				for _, o := range []op{l[1], l[2], l[3], big(200, 1)} {
					b := o.samples(&n)
					if err := s.Put(performs(b)); err != nil {
						return "put fails: " + err.Error()
					}
					for _, x := range b {
						for _, a := range acts {
							if a == x.action {
								m = append(m, x)
							}
						}
					}
				}
				return compare(s, m)
			})
		}
		// the limit: the newest 100000 stay
		for _, have := range []int{99990, 99999, 100000, 100003} {
			for _, add := range []int{1, 3, 12, 129} {
				have, add := have, add
				if c.Quick && (have == 99990 || add == 12) && add != 12 {
					continue
				}
				one(fmt.Sprintf("put %d into %d", add, have), func() string {
					e := newEtcd()
					defer e.close()
					fill(e, have)
					s := performance.NewEtcdStore(e.client(), actions)
					n := 0
					var put []sample
					for k := 0; k < 2; k++ {
						b := big(add, 1).samples(&n)
						if err := s.Put(performs(b)); err != nil {
							return "put fails: " + err.Error()
						}
						put = append(put, b...)
					}
					return full(e, s, have, put)
				})
			}
		}
		one("put more than the limit", func() string {
			e := newEtcd()
			defer e.close()
			s := performance.NewEtcdStore(e.client(), actions)
			n := 0
			b := big(100007, 1).samples(&n)
			if err := s.Put(performs(b[:5])); err != nil {
				return "put fails: " + err.Error()
			}
			if err := s.Put(performs(b[5:])); err != nil {
				return "put fails: " + err.Error()
			}
			if z, err := s.Size("", ""); err != nil || z > 100000 || z < 99990 {
				return fmt.Sprintf("%d samples are kept (%v), want 100000", z, err)
			}
			return ""
		})
	})
}

// fill adds n old samples. They are written in an order which is not that of their keys.
func fill(e *etcd, n int) {
	for j := 0; j < n; j++ {
		k := fmt.Sprintf("performance-data/%s/%s/%013d-%024x", actions[j%2], kinds[j%3], (j*7919)%100003, j)
		e.rev++
		e.kvs[k] = &kv{val: fmt.Sprint(1 << 40), create: e.rev, mod: e.rev}
	}
}

// full checks a store which had some samples of fill and then got others
func full(e *etcd, s performance.Store, have int, put []sample) string {
	const max = 100000
	first := int64(1 << 60)
	old := 0
	for k, v := range e.kvs {
		if strings.HasPrefix(k, "performance-data/") && v.val == fmt.Sprint(1<<40) {
			old++
			if v.create < first {
				first = v.create
			}
		}
	}
	want := have
	if have+len(put) > max {
		want = max - len(put)
	}
	if old != want {
		return fmt.Sprintf("%d of the %d old samples are left, want %d", old, have, want)
	}
	if want > 0 && first != int64(have-want)+2 {
		return fmt.Sprintf("a newer sample was removed before the oldest: the oldest left is number %d of %d, want %d", first-1, have, have-want+1)
	}
	got, err := s.Get("", "")
	if err != nil {
		return "Get fails: " + err.Error()
	}
	var newer []sample
	for _, p := range got {
		if p.Cost != 1<<40 {
			newer = append(newer, sample{p.KindOf, p.Action, p.Cost})
		}
	}
	if g, w := canon(newer), canon(put); g != w {
		return fmt.Sprintf("new samples kept: %s, want %s", g, w)
	}
	return ""
}

// ---- collector

// memory is a store of the check
type memory struct {
	performance.Store
	mu   sync.Mutex
	got  []sample
	fail int // the next puts which fail
	hook func()
	n    int
}

func (m *memory) Put(l []*performance.Perform) error {
	b := samples(l)
	if m.hook != nil {
		m.hook()
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	m.n++
	if len(b) > 0 && m.fail > 0 {
		m.fail--
		return errDown
	}
	m.got = append(m.got, b...)
	return nil
}

func (m *memory) content() []sample {
	m.mu.Lock()
	defer m.mu.Unlock()
	return append([]sample{}, m.got...)
}

func (m *memory) calls() int {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.n
}

func sm(n int) sample { return sample{kinds[n%2], actions[n%2], time.Duration(n)} }

func TestVerifP01Collector(t *testing.T) {
	vkit.Run(t, "P01", func(c *vkit.Ctx) {
		c.Rule("one evaluation = one history of recording, flushing, passing time, failing stores and closing of the real collector in virtual time")
		const interval = time.Minute
		type conf struct {
			max   int
			reach bool
		}
		i := 0
		run := func(cf conf, hist string) (msg string) {
			ok := bubble(t, func() {
				defer func() {
					if r := recover(); r != nil {
						msg = fmt.Sprint("panic: ", r)
					}
				}()
				st := &memory{}
				performance.SetLocalStore(st)
				col := performance.NewCollector(&performance.Config{Enable: true, Store: performance.Local, FlushInterval: interval, MaxInMemory: cf.max, FlushWhenReached: cf.reach})
				defer func() {
					for k := 0; k < 3; k++ {
						_ = col.Close()
					}
				}()
				var mem, want []sample
				fail, n, closed := 0, 0, false
				flush := func() bool {
					if len(mem) > 0 && fail > 0 {
						fail--
						return false
					}
					want = append(want, mem...)
					mem = nil
					return true
				}
				add := func(s sample) {
					mem = append(mem, s)
					switch {
					case closed:
						flush()
					case len(mem) > cf.max && cf.reach:
						flush()
					case len(mem) > cf.max:
						mem = mem[1:]
					}
				}
				do := func(ev byte) string {
					switch ev {
					case 'P', 'A':
						n++
						s := sm(n)
						if ev == 'A' {
							col.PutAsync(s.action, s.kind, s.cost)
						} else {
							_ = col.Put(s.action, s.kind, s.cost)
						}
						synctest.Wait()
						add(s)
					case 'F':
						err := col.Flush()
						if ok := flush(); ok != (err == nil) {
							return fmt.Sprintf("Flush answers %v, want success: %v", err, ok)
						}
					case 'C':
						err := col.Close()
						if ok := flush(); ok != (err == nil) {
							return fmt.Sprintf("Close answers %v, want success: %v", err, ok)
						}
						closed = closed || err == nil
						if n := st.calls(); closed {
							time.Sleep(3 * interval)
							synctest.Wait()
							if st.calls() != n {
								return "the collector flushes periodically after it was closed"
							}
						}
					case 'X':
						fail++
						st.mu.Lock()
						st.fail++
						st.mu.Unlock()
					case 'T':
						time.Sleep(6*interval + time.Second)
						synctest.Wait()
						for k := 0; k < 4 && !closed; k++ {
							flush()
						}
					}
					if g, w := fmt.Sprint(st.content()), fmt.Sprint(want); g != w {
						return fmt.Sprintf("the store contains %s, want %s (waiting in memory: %v)", g, w, mem)
					}
					return ""
				}
				for j := 0; j < len(hist); j++ {
					if e := do(hist[j]); e != "" {
						msg = fmt.Sprintf("after %s: %s", hist[:j+1], e)
						return
					}
				}
				c.State(fmt.Sprint(cf, mem, len(want), fail, closed))
				for k := 0; k < 8; k++ {
					if e := do('F'); e != "" {
						msg = fmt.Sprintf("after %s and flushes: %s", hist, e)
						return
					}
				}
			})
			if !ok && msg == "" {
				msg = "goroutines are left after closing"
			}
			return
		}
		for _, cf := range []conf{{1, true}, {2, false}, {2, true}} {
			var rec func(h string)
			rec = func(h string) {
				if len(h) == c.N(5, 6) {
					i++
					if !c.Mine(i) || c.Expired() || c.Violated() {
						return
					}
					nm := fmt.Sprintf("limit %d, flush when reached %v: %s", cf.max, cf.reach, h)
					c.Cur("%s", nm)
					c.Eval(nm)
					if m := run(cf, h); m != "" {
						c.Fail(m, func() bool { return run(cf, h) != "" }, "%s\n%s", nm, m)
					}
					for range h {
						c.Transition()
					}
					c.Validated()
					return
				}
				for _, ev := range "PAFTXC" {
					if ev == 'X' && strings.Count(h, "X") == 2 {
						continue
					}
					rec(h + string(ev))
				}
			}
			rec("")
		}
		if len(c.Races()) > 0 {
			c.Fail("data race", nil, "%v", c.Races())
		}
	})
}
