import os
edits=[('src/apiserver/internal/usecase/service/object_service.go', '''				logs.Std().Errorln(err)
			}
			return nil, ErrInternalServer''','''				logs.Std().Errorln(err)
			}
			return nil, err''')]
needs='checksums disabled, and the body of the upload (or a data server) fails midway while discarding the temporary data works'
breaks='The failed upload is acknowledged with a version that points nowhere.'
demo=open(os.path.join(V,"tools/seed/demokit.go.txt")).read().replace('"apiserver/config"','"apiserver/config"\n\t"apiserver/internal/entity"\n\t"apiserver/internal/usecase/repo"',1)+'''
type demoMeta struct{ saved int }

func (m *demoMeta) SaveMetadata(data *entity.Metadata) (int32, error) { m.saved++; return 1, nil }
func (m *demoMeta) AddVersion(name, bucket string, version *entity.Version) (int32, error) {
	m.saved++
	return 1, nil
}
func (m *demoMeta) UpdateVersion(name, bucket string, data *entity.Version) error { return nil }
func (m *demoMeta) GetVersion(name, bucket string, verMode int32) (*entity.Version, error) {
	return nil, fmt.Errorf("none")
}
func (m *demoMeta) GetMetadata(name, bucket string, verMode int32, withExtra bool) (*entity.Metadata, error) {
	return &entity.Metadata{Name: name, Bucket: bucket}, nil
}
func (m *demoMeta) RemoveVersion(name, bucket string, version int32) error { return nil }

type demoBucket struct{ repo.IBucketRepo }

func (demoBucket) Get(n string) (*entity.Bucket, error) { return &entity.Bucket{Name: n}, nil }

type demoBody struct{ n int }

func (b *demoBody) Read(p []byte) (int, error) {
	b.n++
	if b.n > 2 {
		return 0, io.ErrUnexpectedEOF
	}
	return copy(p, "abcd"), nil
}

func TestDemo(t *testing.T) {
	demoStart(6)
	pool.Config.Object.DistinctSize = 1 << 40
	pool.Config.Object.Replication = config.ReplicationConfig{CopiesCount: 2, BlockSize: 4}
	for _, ss := range []entity.ObjectStrategy{entity.MultiReplication} {
		m := &demoMeta{}
		v := &entity.Version{Size: 100, Hash: "h", StoreStrategy: ss}
		_, err := NewObjectService(m, demoBucket{}, nil).StoreObject(&entity.PutReq{Name: "n", Bucket: "b", Hash: "h", Body: io.NopCloser(&demoBody{})},
			&entity.Metadata{Name: "n", Bucket: "b", Versions: []*entity.Version{v}})
		if err == nil || m.saved > 0 {
			t.Fatal("a cut upload is acknowledged", err, m.saved)
		}
	}
}
'''
