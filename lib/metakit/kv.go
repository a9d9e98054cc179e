package metakit

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"sync"

	pb "go.etcd.io/etcd/api/v3/etcdserverpb"
	"go.etcd.io/etcd/api/v3/mvccpb"
	clientv3 "go.etcd.io/etcd/client/v3"
)

// KV is an in-memory coordination store with injectable failures.
type KV struct {
	mu    sync.Mutex
	data  map[string]string
	Calls int
	// Fault is asked before every call with its 1-based number; an error fails the call.
	Fault func(n int, op, key string) error
	// Lost makes a failing write take effect nevertheless.
	Lost bool
}

func NewKV() *KV { return &KV{data: map[string]string{}} }

func (k *KV) fault(op, key string) error {
	k.Calls++
	if k.Fault != nil {
		return k.Fault(k.Calls, op, key)
	}
	return nil
}

func (k *KV) Data() map[string]string {
	k.mu.Lock()
	defer k.mu.Unlock()
	res := map[string]string{}
	for a, b := range k.data {
		res[a] = b
	}
	return res
}

func (k *KV) Put(_ context.Context, key, val string, _ ...clientv3.OpOption) (*clientv3.PutResponse, error) {
	k.mu.Lock()
	defer k.mu.Unlock()
	err := k.fault("put", key)
	if err == nil || k.Lost {
		k.data[key] = val
	}
	if err != nil {
		return nil, err
	}
	return &clientv3.PutResponse{Header: &pb.ResponseHeader{}}, nil
}

func (k *KV) match(op clientv3.Op) (keys []string) {
	key, end := string(op.KeyBytes()), string(op.RangeBytes())
	for n := range k.data {
		switch {
		case end == "":
			if n == key {
				keys = append(keys, n)
			}
		case end == "\x00":
			if n >= key {
				keys = append(keys, n)
			}
		default:
			if n >= key && n < end {
				keys = append(keys, n)
			}
		}
	}
	sort.Strings(keys)
	return
}

func (k *KV) Get(_ context.Context, key string, opts ...clientv3.OpOption) (*clientv3.GetResponse, error) {
	k.mu.Lock()
	defer k.mu.Unlock()
	if err := k.fault("get", key); err != nil {
		return nil, err
	}
	r := &clientv3.GetResponse{Header: &pb.ResponseHeader{}}
	for _, n := range k.match(clientv3.OpGet(key, opts...)) {
		r.Kvs = append(r.Kvs, &mvccpb.KeyValue{Key: []byte(n), Value: []byte(k.data[n])})
	}
	r.Count = int64(len(r.Kvs))
	return r, nil
}

func (k *KV) Delete(_ context.Context, key string, opts ...clientv3.OpOption) (*clientv3.DeleteResponse, error) {
	k.mu.Lock()
	defer k.mu.Unlock()
	err := k.fault("delete", key)
	if err != nil && !k.Lost {
		return nil, err
	}
	r := &clientv3.DeleteResponse{Header: &pb.ResponseHeader{}}
	for _, n := range k.match(clientv3.OpDelete(key, opts...)) {
		delete(k.data, n)
		r.Deleted++
	}
	if err != nil {
		return nil, err
	}
	return r, nil
}

func (k *KV) Compact(context.Context, int64, ...clientv3.CompactOption) (*clientv3.CompactResponse, error) {
	return nil, fmt.Errorf("not supported")
}

func (k *KV) Do(ctx context.Context, op clientv3.Op) (clientv3.OpResponse, error) {
	return clientv3.OpResponse{}, fmt.Errorf("not supported")
}

func (k *KV) Txn(context.Context) clientv3.Txn { panic("not supported") }

func (k *KV) String() string {
	var s []string
	for a, b := range k.Data() {
		s = append(s, a+"="+fmt.Sprintf("%q", b))
	}
	sort.Strings(s)
	return strings.Join(s, ";")
}
