// The view of live servers equals the registrations.
//
// Real EtcdRegistry, Lifecycle and EtcdDiscovery objects run against an etcd simulated in memory, in virtual time, over
// all histories of events up to a depth: servers start, stop, crash, move, change role, lose leases and are cut off,
// requests are refused or their answers lost, watches end or miss changes.
package registry_test

import (
	"common/registry"
	"common/vkit"
	"context"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	pb "go.etcd.io/etcd/api/v3/etcdserverpb"
	"go.etcd.io/etcd/api/v3/mvccpb"
	"go.etcd.io/etcd/api/v3/v3rpc/rpctypes"
	clientv3 "go.etcd.io/etcd/client/v3"
)

var errDown = errors.New("etcd is not available")

type kv struct {
	val   string
	lease int64
}

type lease struct {
	ttl     int64
	expires time.Time
	gone    chan struct{}
}

// etcd is the simulated server
type etcd struct {
	mu        sync.Mutex
	rev       int64
	kvs       map[string]kv
	log       []*clientv3.Event
	leases    map[int64]*lease
	nextLease int64
	changed   chan struct{} // closed and replaced with every change
	closed    chan struct{}
}

func newEtcd() *etcd {
	e := &etcd{rev: 1, kvs: map[string]kv{}, leases: map[int64]*lease{}, nextLease: 100, changed: make(chan struct{}), closed: make(chan struct{})}
	go func() {
		for {
			select {
			case <-e.closed:
				return
			case <-time.After(500 * time.Millisecond):
			}
			e.mu.Lock()
			var ids []int64
			for id, l := range e.leases {
				if time.Now().After(l.expires) {
					ids = append(ids, id)
				}
			}
			sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
			for _, id := range ids {
				e.revoke(id)
			}
			e.mu.Unlock()
		}
	}()
	return e
}

func (e *etcd) wake() {
	close(e.changed)
	e.changed = make(chan struct{})
}

func (e *etcd) put(k, v string, l int64) {
	e.rev++
	e.kvs[k] = kv{v, l}
	e.log = append(e.log, &clientv3.Event{Type: mvccpb.PUT, Kv: &mvccpb.KeyValue{Key: []byte(k), Value: []byte(v), ModRevision: e.rev, Lease: l}})
	e.wake()
}

func (e *etcd) del(k string) {
	if _, ok := e.kvs[k]; !ok {
		return
	}
	e.rev++
	delete(e.kvs, k)
	e.log = append(e.log, &clientv3.Event{Type: mvccpb.DELETE, Kv: &mvccpb.KeyValue{Key: []byte(k), ModRevision: e.rev}})
	e.wake()
}

func (e *etcd) revoke(id int64) {
	l, ok := e.leases[id]
	if !ok {
		return
	}
	delete(e.leases, id)
	close(l.gone)
	var ks []string
	for k, v := range e.kvs {
		if v.lease == id {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		e.del(k)
	}
}

func (e *etcd) snapshot() map[string]string {
	e.mu.Lock()
	defer e.mu.Unlock()
	res := map[string]string{}
	for k, v := range e.kvs {
		res[k] = v.val
	}
	return res
}

// conn is the connection of one process
type conn struct {
	clientv3.Lease
	clientv3.KV
	e      *etcd
	mu     sync.Mutex
	mode   string            // "" works, "hang", "refuse" (until healed), "dead"
	heal   chan struct{}     // closed when the mode changes
	fault  map[string]string // next call of an operation: "refuse" or "lost"
	gap    func()            // happens between the next Get and the Watch after it
	breaks chan string       // ends watches
	lease  int64
}

func newConn(e *etcd) *conn {
	return &conn{e: e, heal: make(chan struct{}), fault: map[string]string{}, breaks: make(chan string)}
}

func (c *conn) set(mode string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.mode == "dead" {
		return
	}
	c.mode = mode
	close(c.heal)
	c.heal = make(chan struct{})
}

// begin waits while the connection hangs, returns whether the answer is lost
func (c *conn) begin(ctx context.Context, op string) (lost bool, err error) {
	for {
		c.mu.Lock()
		mode, heal := c.mode, c.heal
		if mode == "" {
			f := c.fault[op]
			delete(c.fault, op)
			c.mu.Unlock()
			if err := ctx.Err(); err != nil {
				return false, err
			}
			if f == "refuse" {
				return false, errDown
			}
			return f == "lost", nil
		}
		c.mu.Unlock()
		if mode != "hang" {
			return false, errDown
		}
		select {
		case <-heal:
		case <-ctx.Done():
			return false, ctx.Err()
		}
	}
}

func (c *conn) Get(ctx context.Context, key string, opts ...clientv3.OpOption) (*clientv3.GetResponse, error) {
	lost, err := c.begin(ctx, "Get")
	if err != nil || lost {
		return nil, errDown
	}
	op := clientv3.OpGet(key, opts...)
	c.e.mu.Lock()
	res := &clientv3.GetResponse{Header: &pb.ResponseHeader{Revision: c.e.rev}}
	var ks []string
	for k := range c.e.kvs {
		if in(k, op) {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		res.Kvs = append(res.Kvs, &mvccpb.KeyValue{Key: []byte(k), Value: []byte(c.e.kvs[k].val)})
	}
	c.e.mu.Unlock()
	c.mu.Lock()
	gap := c.gap
	c.gap = nil
	c.mu.Unlock()
	if gap != nil {
		gap()
	}
	return res, nil
}

func in(k string, op clientv3.Op) bool {
	if len(op.RangeBytes()) == 0 {
		return k == string(op.KeyBytes())
	}
	return k >= string(op.KeyBytes()) && (k < string(op.RangeBytes()) || op.RangeBytes()[0] == 0)
}

func (c *conn) Put(ctx context.Context, key, val string, opts ...clientv3.OpOption) (*clientv3.PutResponse, error) {
	lost, err := c.begin(ctx, "Put")
	if err != nil {
		return nil, err
	}
	id := reflect.ValueOf(clientv3.OpPut(key, val, opts...)).FieldByName("leaseID").Int()
	c.e.mu.Lock()
	defer c.e.mu.Unlock()
	if id != 0 && c.e.leases[id] == nil {
		return nil, rpctypes.ErrLeaseNotFound
	}
	c.e.put(key, val, id)
	if lost {
		return nil, errDown
	}
	return &clientv3.PutResponse{Header: &pb.ResponseHeader{Revision: c.e.rev}}, nil
}

func (c *conn) Delete(ctx context.Context, key string, opts ...clientv3.OpOption) (*clientv3.DeleteResponse, error) {
	lost, err := c.begin(ctx, "Delete")
	if err != nil {
		return nil, err
	}
	op := clientv3.OpGet(key, opts...)
	c.e.mu.Lock()
	defer c.e.mu.Unlock()
	n := len(c.e.kvs)
	for k := range c.e.kvs {
		if in(k, op) {
			c.e.del(k)
		}
	}
	if lost {
		return nil, errDown
	}
	return &clientv3.DeleteResponse{Header: &pb.ResponseHeader{Revision: c.e.rev}, Deleted: int64(n - len(c.e.kvs))}, nil
}

func (c *conn) Grant(ctx context.Context, ttl int64) (*clientv3.LeaseGrantResponse, error) {
	lost, err := c.begin(ctx, "Grant")
	if err != nil {
		return nil, err
	}
	c.e.mu.Lock()
	defer c.e.mu.Unlock()
	c.e.nextLease++
	c.e.leases[c.e.nextLease] = &lease{ttl, time.Now().Add(time.Duration(ttl) * time.Second), make(chan struct{})}
	if lost {
		return nil, errDown
	}
	c.mu.Lock()
	c.lease = c.e.nextLease
	c.mu.Unlock()
	return &clientv3.LeaseGrantResponse{ID: clientv3.LeaseID(c.e.nextLease), TTL: ttl}, nil
}

func (c *conn) Revoke(ctx context.Context, id clientv3.LeaseID) (*clientv3.LeaseRevokeResponse, error) {
	lost, err := c.begin(ctx, "Revoke")
	if err != nil {
		return nil, err
	}
	c.e.mu.Lock()
	defer c.e.mu.Unlock()
	if c.e.leases[int64(id)] == nil {
		return nil, rpctypes.ErrLeaseNotFound
	}
	c.e.revoke(int64(id))
	if lost {
		return nil, errDown
	}
	return &clientv3.LeaseRevokeResponse{}, nil
}

// KeepAlive renews the lease as long as the connection works. Like the real client it ends when the lease is gone, when
// it could not be renewed for its whole time or when the context ends.
func (c *conn) KeepAlive(ctx context.Context, id clientv3.LeaseID) (<-chan *clientv3.LeaseKeepAliveResponse, error) {
	if _, err := c.begin(ctx, "KeepAlive"); err != nil {
		return nil, err
	}
	ch := make(chan *clientv3.LeaseKeepAliveResponse, 16)
	go func() {
		defer close(ch)
		var last time.Time
		for {
			c.mu.Lock()
			ok := c.mode == ""
			c.mu.Unlock()
			c.e.mu.Lock()
			l := c.e.leases[int64(id)]
			if ok && l != nil {
				last = time.Now()
				l.expires = last.Add(time.Duration(l.ttl) * time.Second)
				select {
				case ch <- &clientv3.LeaseKeepAliveResponse{ID: id, TTL: l.ttl}:
				default:
				}
			}
			c.e.mu.Unlock()
			if ok && l == nil || time.Since(last) > 10*time.Second {
				return
			}
			var gone chan struct{}
			wait := time.Second
			if ok {
				gone = l.gone
				wait = time.Duration(l.ttl) * time.Second / 3
			}
			select {
			case <-ctx.Done():
				return
			case <-c.e.closed:
				return
			case <-gone:
				if ok {
					// noticed with the next renewal
					select {
					case <-ctx.Done():
						return
					case <-c.e.closed:
						return
					case <-time.After(wait / 2):
					}
				}
			case <-time.After(wait):
			}
		}
	}()
	return ch, nil
}

func (c *conn) Watch(ctx context.Context, key string, opts ...clientv3.OpOption) clientv3.WatchChan {
	op := clientv3.OpGet(key, opts...)
	ch := make(chan clientv3.WatchResponse)
	c.e.mu.Lock()
	from := op.Rev()
	if from == 0 {
		from = c.e.rev + 1
	}
	c.e.mu.Unlock()
	go func() {
		defer close(ch)
		send := func(r clientv3.WatchResponse) bool {
			select {
			case ch <- r:
				return true
			case <-ctx.Done():
			case <-c.e.closed:
			}
			return false
		}
		for {
			if c.closedErr(ctx) {
				return
			}
			c.mu.Lock()
			mode, heal := c.mode, c.heal
			c.mu.Unlock()
			c.e.mu.Lock()
			changed := c.e.changed
			var evs []*clientv3.Event
			if mode == "" {
				for _, ev := range c.e.log {
					if ev.Kv.ModRevision >= from && in(string(ev.Kv.Key), op) {
						evs = append(evs, ev)
					}
				}
				from = max64(from, c.e.rev+1)
			}
			rev := c.e.rev
			c.e.mu.Unlock()
			if len(evs) > 0 {
				if !send(clientv3.WatchResponse{Header: pb.ResponseHeader{Revision: rev}, Events: evs}) {
					return
				}
				continue
			}
			select {
			case <-ctx.Done():
				return
			case <-c.e.closed:
				return
			case b := <-c.breaks:
				if b == "cancel" {
					send(clientv3.WatchResponse{Header: pb.ResponseHeader{Revision: rev}, Canceled: true, CompactRevision: rev})
				}
				return
			case <-changed:
			case <-heal:
			}
		}
	}()
	return ch
}

func (c *conn) closedErr(ctx context.Context) bool {
	select {
	case <-ctx.Done():
		return true
	case <-c.e.closed:
		return true
	default:
		return false
	}
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

func (c *conn) RequestProgress(context.Context) error { return nil }
func (c *conn) Close() error                          { return nil }

func (c *conn) client() *clientv3.Client { return &clientv3.Client{KV: c, Lease: c, Watcher: c} }

// names of one world
type names struct {
	group, other   string // the other group has the same services
	serv, servLike string
	id0, id1, id2  string
}

var worlds = []names{
	{"g", "g2", "meta", "meta2", "n_1", "n_1_2", "n"},
	{"my_g", "my", "meta", "met", "a", "a_b", "master"},
	{"goodfs", "good", "object", "object_x", "slave_1", "slave", "s_slave_2"},
}

// server is a process
type server struct {
	c     *conn
	cfg   registry.Config
	reg   *registry.EtcdRegistry
	lc    *registry.Lifecycle
	role  string // "" if it has none
	queue chan func()
}

func (w *world) start(id, ip, role string) *server {
	s := &server{c: newConn(w.e), role: role, queue: make(chan func(), 32)}
	s.cfg = registry.Config{ServerIP: ip, ServerPort: "80", ServerID: id, Group: w.n.group, Name: w.n.serv, Interval: 9 * time.Second}
	s.reg = registry.NewEtcdRegistry(s.c.client(), &s.cfg)
	switch role {
	case "master":
		s.reg.AsMaster()
	case "slave":
		s.reg.AsSlave()
	}
	s.lc = registry.NewLifecycle(s.c, s.cfg.Interval)
	s.lc.Subscribe(s.reg.Register)
	go s.lc.DeadLoop()
	go func() {
		for f := range s.queue {
			f()
		}
	}()
	w.all = append(w.all, s)
	return s
}

func (s *server) become(role string) {
	s.role = role
	s.queue <- func() {
		// like a change of the leader in metaserver
		_ = s.reg.Unregister()
		if role == "master" {
			s.reg.AsMaster().Register(s.lc.Lease())
		} else {
			s.reg.AsSlave().Register(s.lc.Lease())
		}
	}
}

func (s *server) stop() {
	s.queue <- func() {
		_ = s.reg.Unregister()
		_ = s.lc.Close()
	}
}

func (s *server) key(w *world) string {
	k := w.n.group + "/registry/" + w.n.serv + "/" + s.cfg.ServerID
	if s.role != "" {
		k += "_" + s.role
	}
	return k
}

type world struct {
	n    names
	e    *etcd
	all  []*server
	s    [2]*server // running
	d    *registry.EtcdDiscovery
	dc   *conn
	self *registry.EtcdDiscovery // discovery of server 1: watches its own kind
	sc   *conn
	ip   int
	// keys which are registered by other means
	static map[string]string
	steps  int
}

func (w *world) addr() string {
	w.ip++
	return fmt.Sprint("10.0.0.", w.ip)
}

var events = []string{
	"up0", "stop0", "crash0", "move0", "master0", "slave0", "expire0", "hang0", "refuse0", "heal0",
	"put-refuse", "put-lost", "del-refuse", "del-lost", "grant-refuse", "grant-lost", "keep-refuse",
	"up1", "stop1", "crash1",
	"watch-close", "watch-cancel", "gap", "get-refuse", "hangD", "healD",
}

// apply returns false if the event changes nothing
func (w *world) apply(ev string) bool {
	s0 := w.s[0]
	down := func(i int) bool { return w.s[i] == nil }
	has := func(c *conn, mode ...string) bool {
		c.mu.Lock()
		defer c.mu.Unlock()
		for _, m := range mode {
			if c.mode == m {
				return true
			}
		}
		return false
	}
	fault := func(op, f string) bool {
		if down(0) {
			return false
		}
		s0.c.mu.Lock()
		defer s0.c.mu.Unlock()
		if s0.c.fault[op] == f {
			return false
		}
		s0.c.fault[op] = f
		return true
	}
	switch ev {
	case "up0":
		if !down(0) {
			return false
		}
		w.s[0] = w.start(w.n.id0, w.addr(), "slave")
	case "up1":
		if !down(1) {
			return false
		}
		w.s[1] = w.start(w.n.id1, w.addr(), "")
	case "stop0", "stop1":
		i := int(ev[4] - '0')
		if down(i) {
			return false
		}
		w.s[i].stop()
		w.s[i] = nil
	case "crash0", "crash1", "move0":
		i := int(ev[len(ev)-1] - '0')
		if down(i) {
			return false
		}
		w.s[i].c.set("dead")
		w.s[i] = nil
		if ev == "move0" {
			w.s[0] = w.start(w.n.id0, w.addr(), "slave")
		}
	case "master0", "slave0":
		if down(0) || s0.role == ev[:len(ev)-1] {
			return false
		}
		s0.become(ev[:len(ev)-1])
	case "expire0":
		if down(0) {
			return false
		}
		s0.c.mu.Lock()
		id := s0.c.lease
		s0.c.mu.Unlock()
		w.e.mu.Lock()
		defer w.e.mu.Unlock()
		if w.e.leases[id] == nil {
			return false
		}
		w.e.revoke(id)
	case "hang0", "refuse0":
		if down(0) || has(s0.c, ev[:len(ev)-1]) {
			return false
		}
		s0.c.set(ev[:len(ev)-1])
	case "heal0":
		if down(0) || has(s0.c, "") {
			return false
		}
		s0.c.set("")
	case "put-refuse", "put-lost":
		return fault("Put", ev[4:])
	case "del-refuse", "del-lost":
		return fault("Delete", ev[4:])
	case "grant-refuse", "grant-lost":
		return fault("Grant", ev[6:])
	case "keep-refuse":
		return fault("KeepAlive", "refuse")
	case "watch-close", "watch-cancel":
		for _, c := range []*conn{w.dc, w.sc} {
			select {
			case c.breaks <- ev[6:]:
			default:
			}
		}
	case "gap":
		w.dc.mu.Lock()
		defer w.dc.mu.Unlock()
		if w.dc.gap != nil {
			return false
		}
		w.dc.gap = func() {
			// another server leaves, one comes and one moves
			k := w.n.group + "/registry/" + w.n.serv + "/"
			w.e.mu.Lock()
			defer w.e.mu.Unlock()
			w.e.del(k + "x_1_slave")
			w.e.put(k+"x_2_slave", "10.1.0.2:80", 0)
			w.e.put(k+w.n.id2, "10.1.0.3:80", 0)
			delete(w.static, k+"x_1_slave")
			w.static[k+"x_2_slave"], w.static[k+w.n.id2] = "10.1.0.2:80", "10.1.0.3:80"
		}
		select {
		case w.dc.breaks <- "close":
		default:
		}
	case "get-refuse":
		w.dc.mu.Lock()
		defer w.dc.mu.Unlock()
		if w.dc.fault["Get"] != "" {
			return false
		}
		w.dc.fault["Get"] = "refuse"
		select {
		case w.dc.breaks <- "close":
		default:
		}
	case "hangD", "healD":
		m := strings.TrimSuffix(strings.TrimPrefix(ev, "heal"), "D")
		if has(w.dc, m) {
			return false
		}
		w.dc.set(m)
	}
	return true
}

func show(m map[string]string) string {
	var res []string
	for k, v := range m {
		res = append(res, k+"="+v)
	}
	sort.Strings(res)
	return "[" + strings.Join(res, " ") + "]"
}

func list(l []string) string {
	l = append([]string(nil), l...)
	sort.Strings(l)
	return fmt.Sprint(l)
}

// judge compares everything after it became quiet
func (w *world) judge() string {
	want := map[string]string{}
	w.e.mu.Lock()
	for k, v := range w.static {
		want[k] = v
	}
	w.e.mu.Unlock()
	for _, s := range w.s {
		if s != nil {
			want[s.key(w)] = s.cfg.ServerIP + ":80"
			if got := s.reg.Key(); got != s.key(w) {
				return fmt.Sprintf("the key of a server is %s instead of %s", got, s.key(w))
			}
		}
	}
	if got := w.e.snapshot(); show(got) != show(want) {
		return fmt.Sprintf("registered are %s instead of %s", show(got), show(want))
	}
	if m := w.views("discovery", w.d, want, ""); m != "" {
		return m
	}
	if m := w.views("own discovery", w.self, want, w.n.group+"/registry/"+w.n.serv+"/"+w.n.id1); m != "" {
		return m
	}
	r := registry.NewEtcdRegistry(newConn(w.e).client(), &registry.Config{ServerIP: "9.9.9.9", ServerPort: "1", ServerID: "r", Group: w.n.group, Name: w.n.serv})
	for _, serv := range []string{w.n.serv, w.n.servLike} {
		all, _, _ := w.expect(want, serv, "")
		if got := r.GetServiceMapping(serv); show(got) != show(all) {
			return fmt.Sprintf("registry: mapping of %s is %s instead of %s", serv, show(got), show(all))
		}
		var addrs []string
		for _, a := range all {
			addrs = append(addrs, a)
		}
		if got := r.GetServices(serv); list(got) != list(addrs) {
			return fmt.Sprintf("registry: services of %s are %s instead of %s", serv, list(got), list(addrs))
		}
		for _, id := range []string{w.n.id0, w.n.id1, w.n.id2, "nobody"} {
			a, ok := r.GetService(serv, id)
			b, exists := all[id]
			if a != b || ok != exists {
				return fmt.Sprintf("registry: %s of %s is %q, %v", id, serv, a, ok)
			}
		}
	}
	return ""
}

// expect returns servers by id: all, masters (and those without role), slaves
func (w *world) expect(want map[string]string, serv, ownKey string) (all, masters, slaves map[string]string) {
	all, masters, slaves = map[string]string{}, map[string]string{}, map[string]string{}
	p := w.n.group + "/registry/" + serv + "/"
	put := func(k, v string) {
		id := strings.TrimPrefix(k, p)
		if strings.HasSuffix(id, "_slave") {
			id = strings.TrimSuffix(id, "_slave")
			slaves[id] = v
		} else {
			id = strings.TrimSuffix(id, "_master")
			masters[id] = v
		}
		all[id] = v
	}
	if _, ok := want[ownKey]; strings.HasPrefix(ownKey, p) && !ok {
		put(ownKey, "self")
	}
	for k, v := range want {
		if strings.HasPrefix(k, p) {
			put(k, v)
		}
	}
	return
}

func (w *world) views(who string, d *registry.EtcdDiscovery, want map[string]string, own string) string {
	for _, serv := range []string{w.n.serv, w.n.servLike} {
		all, masters, slaves := w.expect(want, serv, own)
		norm := func(m map[string]string) map[string]string {
			if own == "" || want[own] != "" {
				return m
			}
			// a process always knows itself until it sees that it left
			if all[w.n.id1] == "self" {
				for _, x := range []map[string]string{all, masters, slaves} {
					delete(x, w.n.id1)
				}
			}
			res := map[string]string{}
			for k, v := range m {
				if k != w.n.id1 || serv != w.n.serv {
					res[k] = v
				}
			}
			return res
		}
		if got := norm(d.GetServiceMapping(serv)); show(got) != show(all) {
			return fmt.Sprintf("%s: mapping of %s is %s instead of %s", who, serv, show(got), show(all))
		}
		if got := norm(d.GetServiceMappingWith(serv, true)); show(got) != show(masters) {
			return fmt.Sprintf("%s: masters of %s are %s instead of %s", who, serv, show(got), show(masters))
		}
		if got := norm(d.GetServiceMappingWith(serv, false)); show(got) != show(slaves) {
			return fmt.Sprintf("%s: slaves of %s are %s instead of %s", who, serv, show(got), show(slaves))
		}
		if own != "" && want[own] == "" && serv == w.n.serv {
			continue
		}
		var addrs, ms, ss []string
		for _, a := range all {
			addrs = append(addrs, a)
		}
		for _, a := range masters {
			ms = append(ms, a)
		}
		for _, a := range slaves {
			ss = append(ss, a)
		}
		if got := d.GetServices(serv); list(got) != list(addrs) {
			return fmt.Sprintf("%s: services of %s are %s instead of %s", who, serv, list(got), list(addrs))
		}
		if got := d.GetServiceCount(serv); got != len(addrs) {
			return fmt.Sprintf("%s: %d services of %s are counted instead of %d", who, got, serv, len(addrs))
		}
		if got := d.GetServicesWith(serv, true); list(got) != list(ms) {
			return fmt.Sprintf("%s: master services of %s are %s instead of %s", who, serv, list(got), list(ms))
		}
		if got := d.GetServicesWith(serv, false); list(got) != list(ss) {
			return fmt.Sprintf("%s: slave services of %s are %s instead of %s", who, serv, list(got), list(ss))
		}
		for _, id := range []string{w.n.id0, w.n.id1, w.n.id2, "nobody"} {
			a, ok := d.GetService(serv, id)
			b, exists := all[id]
			if a != b || ok != exists {
				return fmt.Sprintf("%s: %s of %s is %q, %v", who, id, serv, a, ok)
			}
		}
	}
	return ""
}

// run a history; valid is false if an event changes nothing
func run(t *testing.T, n names, hist []string, pause time.Duration) (msg string, valid bool) {
	valid = true
	vkit.Bubble(t, func(t *testing.T) {
		w := &world{n: n, e: newEtcd(), static: map[string]string{}}
		p := n.group + "/registry/"
		for k, v := range map[string]string{
			p + n.serv + "/x_1_slave":                        "10.1.0.1:80",
			p + n.serv + "/" + n.id2:                         "10.1.0.9:80",
			p + n.servLike + "/" + n.id0 + "_master":         "10.2.0.1:80",
			p + n.servLike + "/" + n.id2 + "_slave":          "10.2.0.2:80",
			n.other + "/registry/" + n.serv + "/other_slave": "10.3.0.1:80",
		} {
			w.static[k] = v
		}
		w.e.mu.Lock()
		for k, v := range w.static {
			w.e.put(k, v, 0)
		}
		w.e.mu.Unlock()
		w.s[0] = w.start(n.id0, w.addr(), "slave")
		w.dc, w.sc = newConn(w.e), newConn(w.e)
		w.d = registry.NewEtcdDiscovery(w.dc.client(), &registry.Config{ServerIP: "9.9.9.1", ServerPort: "1", ServerID: "d", Group: n.group, Name: "api",
			Services: []string{n.serv, n.servLike}})
		w.self = registry.NewEtcdDiscovery(w.sc.client(), &registry.Config{ServerIP: "9.9.9.2", ServerPort: "1", ServerID: n.id1, Group: n.group, Name: n.serv,
			Services: []string{n.serv, n.servLike}})
		time.Sleep(5 * time.Second)
		end := make(chan struct{})
		go func() {
			// reads all the time: nothing may be read while it is written
			for {
				select {
				case <-end:
					return
				case <-time.After(1300 * time.Millisecond):
				}
				for _, d := range []*registry.EtcdDiscovery{w.d, w.self} {
					d.GetServices(n.serv)
					d.GetServiceMapping(n.serv)
					d.GetServiceMappingWith(n.serv, true)
					d.GetServicesWith(n.serv, false)
					d.GetServiceCount(n.serv)
					d.GetService(n.serv, n.id0)
					d.GetServices("api")
				}
			}
		}()
		for _, ev := range hist {
			if !w.apply(ev) {
				valid = false
				break
			}
			if pause > 0 {
				time.Sleep(pause)
			} else {
				synctest.Wait()
			}
		}
		if valid {
			// everything works again
			for _, s := range w.all {
				s.c.set("")
			}
			w.dc.set("")
			w.sc.set("")
			time.Sleep(60 * time.Second)
			msg = w.judge()
		}
		close(end)
		for _, s := range w.all {
			s.c.set("")
			s.c.set("dead")
			s.lc.Close()
			close(s.queue)
		}
		w.d.Close()
		w.self.Close()
		close(w.e.closed)
	})
	return
}

func TestVerifR01(t *testing.T) {
	vkit.Run(t, "R01", func(c *vkit.Ctx) {
		depth := c.N(3, 4)
		pauses := []time.Duration{0, 3 * time.Second, 20 * time.Second}
		one := func(n names, hist []string, pause time.Duration) bool {
			what := fmt.Sprintf("%s/%s: %v every %v", n.group, n.serv, hist, pause)
			c.Cur("%s", what)
			msg, valid := run(t, n, hist, pause)
			if !valid {
				return false
			}
			c.Eval(what)
			c.Transition()
			if msg != "" {
				c.Fail("view", func() bool { m, _ := run(t, n, hist, pause); return m != "" }, "%s: %s", what, msg)
			}
			if r := c.Races(); len(r) > 0 {
				c.Fail("race", nil, "%s: %v", what, r)
			}
			return true
		}
		// histories are divided by their first two events
		num := 0
		var walk func(hist []string, k int)
		walk = func(hist []string, k int) {
			if c.Violated() || c.Expired() {
				return
			}
			mine := true
			if len(hist) <= 2 {
				num++
				mine = c.Mine(num)
			}
			if mine {
				valid := false
				for j, pause := range pauses {
					if one(worlds[(k+j)%len(worlds)], hist, pause) {
						valid = true
					}
				}
				if !valid {
					return
				}
				c.State(fmt.Sprint(hist))
			} else if len(hist) == 2 {
				return
			}
			if len(hist) == depth {
				return
			}
			for j, ev := range events {
				walk(append(append([]string(nil), hist...), ev), k+j)
			}
		}
		walk(nil, 0)
	})
}
