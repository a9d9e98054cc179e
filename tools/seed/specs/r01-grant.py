edits=[('src/common/registry/etcd_lifecycle.go','''			registryLog.Errorf("grant lifecycle lease err: %s", err)
			lc.wait(5 * time.Second)
			continue''','''			registryLog.Errorf("grant lifecycle lease err: %s", err)
			lc.wait(5 * time.Second)
			if lc.lease == 0 {
				continue
			}
			return''')]
needs='a lease that gets lost while etcd refuses to grant another one'
breaks='The server never registers itself again.'
demo='''package registry

import (
	"context"
	"errors"
	"sync/atomic"
	"testing"
	"time"

	clientv3 "go.etcd.io/etcd/client/v3"
)

type demoLease struct {
	clientv3.Lease
	n int64
}

func (l *demoLease) Grant(context.Context, int64) (*clientv3.LeaseGrantResponse, error) {
	l.n++
	if l.n == 2 {
		return nil, errors.New("not available")
	}
	return &clientv3.LeaseGrantResponse{ID: clientv3.LeaseID(l.n)}, nil
}
func (l *demoLease) KeepAlive(ctx context.Context, id clientv3.LeaseID) (<-chan *clientv3.LeaseKeepAliveResponse, error) {
	ch := make(chan *clientv3.LeaseKeepAliveResponse)
	if id == 1 {
		close(ch)
	}
	return ch, nil
}
func (l *demoLease) Revoke(context.Context, clientv3.LeaseID) (*clientv3.LeaseRevokeResponse, error) {
	return nil, nil
}

func TestDemo(t *testing.T) {
	var last int64
	lc := NewLifecycle(&demoLease{}, 5*time.Second)
	lc.Subscribe(func(id clientv3.LeaseID) { atomic.StoreInt64(&last, int64(id)) })
	go lc.DeadLoop()
	for i := 0; i < 300; i++ {
		if atomic.LoadInt64(&last) == 3 {
			return
		}
		time.Sleep(100 * time.Millisecond)
	}
	t.Fatal("no new lease", last)
}
'''
