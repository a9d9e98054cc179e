edits=[("src/metaserver/internal/controller/grpc/middleware.go","""	"/proto.MetadataApi/SaveBucket",
""","")]
needs="a bucket created by RPC while the group hands over the slot of the bucket"
breaks="A bucket is created at a group that is migrating its slot away: the other group does not get it."
demo='''package grpc

import (
	"context"
	"metaserver/internal/usecase/db"
	"metaserver/internal/usecase/pool"
	"metaserver/internal/usecase/raftimpl"
	"testing"

	"google.golang.org/grpc"
)

func TestDemo(t *testing.T) {
	pool.RaftWrapper = &raftimpl.RaftWrapper{}
	st := db.NewHashSlotDB("s/", nil)
	if err := st.ReadyMigrateTo("x", []string{"0-16384"}); err != nil {
		t.Fatal(err)
	}
	pool.HashSlot = st
	called := false
	_, err := CheckWritableUnary(context.Background(), nil, &grpc.UnaryServerInfo{FullMethod: "/proto.MetadataApi/SaveBucket"}, func(context.Context, any) (any, error) {
		called = true
		return nil, nil
	})
	if called || err == nil {
		t.Fatal("admitted during a migration")
	}
}
'''
