edits=[("src/metaserver/internal/usecase/service/hashslot_service.go","""		err = h.Service.ReceiveVersion(item.Name, &i)
""","""		if err = h.Service.ReceiveVersion(item.Name, &i); errors.Is(err, usecase.ErrReadOnly) {
			// being restored, the version comes with the snapshot
			err = nil
		}
""")]
needs="a version that arrives while the receiver's store is read-only (a snapshot is being installed)"
breaks="The receiver acknowledges a version it did not store, the sender removes it after the migration."
demo='''package service

import (
	"common/hashslot"
	"common/proto/msg"
	"common/proto/pb"
	"common/util"
	"metaserver/config"
	"metaserver/internal/entity"
	"metaserver/internal/usecase"
	"metaserver/internal/usecase/db"
	"testing"
)

type demoService struct{ usecase.IMetadataService }

func (demoService) ReceiveVersion(string, *msg.Version) error { return usecase.ErrReadOnly }

func TestDemo(t *testing.T) {
	_ = hashslot.EdgeList{}
	st := db.NewHashSlotDB("s/", nil)
	if err := st.ReadyMigrateFrom("x", []string{"0-16384"}); err != nil {
		t.Fatal(err)
	}
	h := NewHashSlotService(st, demoService{}, nil, &config.HashSlotConfig{})
	bt, err := util.EncodeMsgp(&msg.Version{Sequence: 1, Hash: "h", UniqueId: "u"})
	if err != nil {
		t.Fatal(err)
	}
	if err = h.ReceiveItem(&pb.MigrationItem{Name: "n", Dest: int32(entity.DestVersion), Data: bt}); err == nil {
		t.Fatal("acknowledged a version which is not stored")
	}
}
'''
