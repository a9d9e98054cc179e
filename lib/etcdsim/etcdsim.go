// Package etcdsim is an etcd in memory, in virtual time: leases, watches and revisions, with requests that fail, hang or
// lose their answers and watches that break.
package etcdsim

import (
	"context"
	"errors"
	"reflect"
	"sort"
	"sync"
	"time"

	pb "go.etcd.io/etcd/api/v3/etcdserverpb"
	"go.etcd.io/etcd/api/v3/mvccpb"
	"go.etcd.io/etcd/api/v3/v3rpc/rpctypes"
	clientv3 "go.etcd.io/etcd/client/v3"
)

var ErrDown = errors.New("etcd is not available")

type kv struct {
	val   string
	rev   int64
	lease int64
}

type lease struct {
	ttl     int64
	expires time.Time
	gone    chan struct{}
}

// etcd is the simulated server
type etcd struct {
	mu        sync.Mutex
	rev       int64
	kvs       map[string]kv
	log       []*clientv3.Event
	leases    map[int64]*lease
	nextLease int64
	changed   chan struct{} // closed and replaced with every change
	closed    chan struct{}
}

func New() *etcd {
	e := &etcd{rev: 1, kvs: map[string]kv{}, leases: map[int64]*lease{}, nextLease: 100, changed: make(chan struct{}), closed: make(chan struct{})}
	go func() {
		for {
			select {
			case <-e.closed:
				return
			case <-time.After(500 * time.Millisecond):
			}
			e.mu.Lock()
			var ids []int64
			for id, l := range e.leases {
				if time.Now().After(l.expires) {
					ids = append(ids, id)
				}
			}
			sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
			for _, id := range ids {
				e.revoke(id)
			}
			e.mu.Unlock()
		}
	}()
	return e
}

func (e *etcd) wake() {
	close(e.changed)
	e.changed = make(chan struct{})
}

func (e *etcd) put(k, v string, l int64) {
	e.rev++
	e.kvs[k] = kv{v, e.rev, l}
	e.log = append(e.log, &clientv3.Event{Type: mvccpb.PUT, Kv: &mvccpb.KeyValue{Key: []byte(k), Value: []byte(v), ModRevision: e.rev, Lease: l}})
	e.wake()
}

func (e *etcd) del(k string) {
	if _, ok := e.kvs[k]; !ok {
		return
	}
	e.rev++
	delete(e.kvs, k)
	e.log = append(e.log, &clientv3.Event{Type: mvccpb.DELETE, Kv: &mvccpb.KeyValue{Key: []byte(k), ModRevision: e.rev}})
	e.wake()
}

func (e *etcd) revoke(id int64) {
	l, ok := e.leases[id]
	if !ok {
		return
	}
	delete(e.leases, id)
	close(l.gone)
	var ks []string
	for k, v := range e.kvs {
		if v.lease == id {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		e.del(k)
	}
}

func (e *etcd) snapshot() map[string]string {
	e.mu.Lock()
	defer e.mu.Unlock()
	res := map[string]string{}
	for k, v := range e.kvs {
		res[k] = v.val
	}
	return res
}

// conn is the connection of one process
type conn struct {
	clientv3.Lease
	clientv3.KV
	e      *etcd
	mu     sync.Mutex
	mode   string            // "" works, "hang", "refuse" (until healed), "dead"
	heal   chan struct{}     // closed when the mode changes
	fault  map[string]string // next call of an operation: "refuse" or "lost"
	gap    func()            // happens between the next Get and the Watch after it
	breaks chan string       // ends watches
	lease  int64
}

func NewConn(e *etcd) *conn {
	return &conn{e: e, heal: make(chan struct{}), fault: map[string]string{}, breaks: make(chan string)}
}

func (c *conn) set(mode string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.mode == "dead" {
		return
	}
	c.mode = mode
	close(c.heal)
	c.heal = make(chan struct{})
}

// begin waits while the connection hangs, returns whether the answer is lost
func (c *conn) begin(ctx context.Context, op string) (lost bool, err error) {
	for {
		c.mu.Lock()
		mode, heal := c.mode, c.heal
		if mode == "" {
			f := c.fault[op]
			delete(c.fault, op)
			c.mu.Unlock()
			if err := ctx.Err(); err != nil {
				return false, err
			}
			if f == "refuse" {
				return false, ErrDown
			}
			return f == "lost", nil
		}
		c.mu.Unlock()
		if mode != "hang" {
			return false, ErrDown
		}
		select {
		case <-heal:
		case <-ctx.Done():
			return false, ctx.Err()
		}
	}
}

func (c *conn) Get(ctx context.Context, key string, opts ...clientv3.OpOption) (*clientv3.GetResponse, error) {
	lost, err := c.begin(ctx, "Get")
	if err != nil || lost {
		return nil, ErrDown
	}
	op := clientv3.OpGet(key, opts...)
	c.e.mu.Lock()
	res := &clientv3.GetResponse{Header: &pb.ResponseHeader{Revision: c.e.rev}}
	var ks []string
	for k := range c.e.kvs {
		if in(k, op) {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		res.Kvs = append(res.Kvs, &mvccpb.KeyValue{Key: []byte(k), Value: []byte(c.e.kvs[k].val), ModRevision: c.e.kvs[k].rev})
	}
	c.e.mu.Unlock()
	c.mu.Lock()
	gap := c.gap
	c.gap = nil
	c.mu.Unlock()
	if gap != nil {
		gap()
	}
	return res, nil
}

func in(k string, op clientv3.Op) bool {
	if len(op.RangeBytes()) == 0 {
		return k == string(op.KeyBytes())
	}
	return k >= string(op.KeyBytes()) && (k < string(op.RangeBytes()) || op.RangeBytes()[0] == 0)
}

func (c *conn) Put(ctx context.Context, key, val string, opts ...clientv3.OpOption) (*clientv3.PutResponse, error) {
	lost, err := c.begin(ctx, "Put")
	if err != nil {
		return nil, err
	}
	id := reflect.ValueOf(clientv3.OpPut(key, val, opts...)).FieldByName("leaseID").Int()
	c.e.mu.Lock()
	defer c.e.mu.Unlock()
	if id != 0 && c.e.leases[id] == nil {
		return nil, rpctypes.ErrLeaseNotFound
	}
	c.e.put(key, val, id)
	if lost {
		return nil, ErrDown
	}
	return &clientv3.PutResponse{Header: &pb.ResponseHeader{Revision: c.e.rev}}, nil
}

func (c *conn) Delete(ctx context.Context, key string, opts ...clientv3.OpOption) (*clientv3.DeleteResponse, error) {
	lost, err := c.begin(ctx, "Delete")
	if err != nil {
		return nil, err
	}
	op := clientv3.OpGet(key, opts...)
	c.e.mu.Lock()
	defer c.e.mu.Unlock()
	n := len(c.e.kvs)
	for k := range c.e.kvs {
		if in(k, op) {
			c.e.del(k)
		}
	}
	if lost {
		return nil, ErrDown
	}
	return &clientv3.DeleteResponse{Header: &pb.ResponseHeader{Revision: c.e.rev}, Deleted: int64(n - len(c.e.kvs))}, nil
}

func (c *conn) Grant(ctx context.Context, ttl int64) (*clientv3.LeaseGrantResponse, error) {
	lost, err := c.begin(ctx, "Grant")
	if err != nil {
		return nil, err
	}
	c.e.mu.Lock()
	defer c.e.mu.Unlock()
	c.e.nextLease++
	c.e.leases[c.e.nextLease] = &lease{ttl, time.Now().Add(time.Duration(ttl) * time.Second), make(chan struct{})}
	if lost {
		return nil, ErrDown
	}
	c.mu.Lock()
	c.lease = c.e.nextLease
	c.mu.Unlock()
	return &clientv3.LeaseGrantResponse{ID: clientv3.LeaseID(c.e.nextLease), TTL: ttl}, nil
}

func (c *conn) Revoke(ctx context.Context, id clientv3.LeaseID) (*clientv3.LeaseRevokeResponse, error) {
	lost, err := c.begin(ctx, "Revoke")
	if err != nil {
		return nil, err
	}
	c.e.mu.Lock()
	defer c.e.mu.Unlock()
	if c.e.leases[int64(id)] == nil {
		return nil, rpctypes.ErrLeaseNotFound
	}
	c.e.revoke(int64(id))
	if lost {
		return nil, ErrDown
	}
	return &clientv3.LeaseRevokeResponse{}, nil
}

// KeepAlive renews the lease as long as the connection works. Like the real client it ends when the lease is gone, when
// it could not be renewed for its whole time or when the context ends.
func (c *conn) KeepAlive(ctx context.Context, id clientv3.LeaseID) (<-chan *clientv3.LeaseKeepAliveResponse, error) {
	if _, err := c.begin(ctx, "KeepAlive"); err != nil {
		return nil, err
	}
	ch := make(chan *clientv3.LeaseKeepAliveResponse, 16)
	go func() {
		defer close(ch)
		var last time.Time
		for {
			c.mu.Lock()
			ok := c.mode == ""
			c.mu.Unlock()
			c.e.mu.Lock()
			l := c.e.leases[int64(id)]
			if ok && l != nil {
				last = time.Now()
				l.expires = last.Add(time.Duration(l.ttl) * time.Second)
				select {
				case ch <- &clientv3.LeaseKeepAliveResponse{ID: id, TTL: l.ttl}:
				default:
				}
			}
			c.e.mu.Unlock()
			if ok && l == nil || time.Since(last) > 10*time.Second {
				return
			}
			var gone chan struct{}
			wait := time.Second
			if ok {
				gone = l.gone
				wait = time.Duration(l.ttl) * time.Second / 3
			}
			select {
			case <-ctx.Done():
				return
			case <-c.e.closed:
				return
			case <-gone:
				if ok {
					// noticed with the next renewal
					select {
					case <-ctx.Done():
						return
					case <-c.e.closed:
						return
					case <-time.After(wait / 2):
					}
				}
			case <-time.After(wait):
			}
		}
	}()
	return ch, nil
}

func (c *conn) Watch(ctx context.Context, key string, opts ...clientv3.OpOption) clientv3.WatchChan {
	op := clientv3.OpGet(key, opts...)
	ch := make(chan clientv3.WatchResponse)
	c.e.mu.Lock()
	from := op.Rev()
	if from == 0 {
		from = c.e.rev + 1
	}
	c.e.mu.Unlock()
	go func() {
		defer close(ch)
		send := func(r clientv3.WatchResponse) bool {
			select {
			case ch <- r:
				return true
			case <-ctx.Done():
			case <-c.e.closed:
			}
			return false
		}
		for {
			if c.closedErr(ctx) {
				return
			}
			c.mu.Lock()
			mode, heal := c.mode, c.heal
			c.mu.Unlock()
			c.e.mu.Lock()
			changed := c.e.changed
			var evs []*clientv3.Event
			if mode == "" {
				for _, ev := range c.e.log {
					if ev.Kv.ModRevision >= from && in(string(ev.Kv.Key), op) {
						evs = append(evs, ev)
					}
				}
				from = max64(from, c.e.rev+1)
			}
			rev := c.e.rev
			c.e.mu.Unlock()
			if len(evs) > 0 {
				if !send(clientv3.WatchResponse{Header: pb.ResponseHeader{Revision: rev}, Events: evs}) {
					return
				}
				continue
			}
			select {
			case <-ctx.Done():
				return
			case <-c.e.closed:
				return
			case b := <-c.breaks:
				if b == "cancel" {
					send(clientv3.WatchResponse{Header: pb.ResponseHeader{Revision: rev}, Canceled: true, CompactRevision: rev})
				}
				return
			case <-changed:
			case <-heal:
			}
		}
	}()
	return ch
}

func (c *conn) closedErr(ctx context.Context) bool {
	select {
	case <-ctx.Done():
		return true
	case <-c.e.closed:
		return true
	default:
		return false
	}
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

func (c *conn) RequestProgress(context.Context) error { return nil }
func (c *conn) Close() error                          { return nil }

func (c *conn) client() *clientv3.Client { return &clientv3.Client{KV: c, Lease: c, Watcher: c} }

// names of one world

// what a test sees and does

// Stop ends everything that waits for this etcd
func (e *etcd) Stop() { close(e.closed) }

// Put stores a value like another process would
func (e *etcd) Put(k, v string, lease int64) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.put(k, v, lease)
}

// Del removes a key like another process would
func (e *etcd) Del(k string) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.del(k)
}

// Lose removes a lease
func (e *etcd) Lose(id int64) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.revoke(id)
}

// All content
func (e *etcd) All() map[string]string { return e.snapshot() }

// LeaseOf a key, 0 if it has none
func (e *etcd) LeaseOf(k string) int64 {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.kvs[k].lease
}

// Etcd is the simulated server
type Etcd = etcd

// Conn is the connection of one process
type Conn = conn

// Set the mode of the connection: "" works, "hang", "refuse", "dead"
func (c *conn) Set(mode string) { c.set(mode) }

// Fault makes the next call of an operation fail: "refuse" or "lost"
func (c *conn) Fault(op, how string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.fault[op] = how
}

// Gap happens between the next Get and the Watch after it
func (c *conn) Gap(f func()) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.gap = f
}

// Break ends one watch ("close" or "cancel"), reports whether there was one
func (c *conn) Break(how string) bool {
	select {
	case c.breaks <- how:
		return true
	default:
		return false
	}
}

// CurrentLease is the last one granted to this process
func (c *conn) CurrentLease() int64 {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.lease
}

// Client as the servers use it
func (c *conn) Client() *clientv3.Client { return c.client() }

// RevOf is the revision of the last change of a key, 0 if it does not exist
func (e *etcd) RevOf(k string) int64 {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.kvs[k].rev
}
