edits=[('src/apiserver/internal/controller/http/big_api.go','''	// if bucket enforce compress
	if bucket.Compress {
		req.Compress = true
	}
''',''),('src/apiserver/internal/controller/http/big_api.go','''		Size:     req.Size,
		Bucket:   req.Bucket,
		Compress: req.Compress,
		Locates:  ips,''','''		Size:     req.Size,
		Bucket:   req.Bucket,
		Compress: req.Compress || bucket.Compress,
		Locates:  ips,''')]
needs='a bucket that enforces compression, and a big upload of a content which is stored already'
breaks='The new version is marked as not compressed (and looked for under the name of the uncompressed content).'
demo='''package http

import (
	"apiserver/config"
	"apiserver/internal/entity"
	"apiserver/internal/usecase"
	"apiserver/internal/usecase/pool"
	"apiserver/internal/usecase/repo"
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/gin-gonic/gin"
)

type demoObj struct{ usecase.IObjectService }

func (demoObj) UniqueHash(d string, ss entity.ObjectStrategy, ds, ps int, c bool) string {
	return fmt.Sprint(d, ss, ds, ps, c)
}
func (demoObj) LocateObject(h string, n int) ([]string, bool) { return make([]string, n), true }

type demoMeta struct {
	usecase.IMetaService
	v *entity.Version
}

func (m *demoMeta) SaveMetadata(d *entity.Metadata) (int32, error) { m.v = d.Versions[0]; return 1, nil }
func (m *demoMeta) AddVersion(n, b string, v *entity.Version) (int32, error) {
	m.v = v
	return 1, nil
}
func (m *demoMeta) GetMetadata(n, b string, _ int32, _ bool) (*entity.Metadata, error) {
	return &entity.Metadata{Name: n, Bucket: b}, nil
}
func (m *demoMeta) RemoveVersion(n, b string, version int32) error { return nil }

type demoBucket struct{ repo.IBucketRepo }

func (demoBucket) Get(n string) (*entity.Bucket, error) {
	return &entity.Bucket{Name: n, Compress: true}, nil
}

func TestDemo(t *testing.T) {
	pool.Config = &config.Config{}
	pool.Config.Object.ReedSolomon = config.RsConfig{DataShards: 4, ParityShards: 2, BlockPerShard: 8192}
	m := &demoMeta{}
	gin.SetMode(gin.TestMode)
	e := gin.New()
	NewBigObjectsController(demoObj{}, m, demoBucket{}).Register(e)
	r := httptest.NewRequest("POST", "/big/name", nil)
	r.Header.Set("Digest", strings.Repeat("ab", 32))
	r.Header.Set("Size", "100")
	r.Header.Set("Bucket", "b")
	w := httptest.NewRecorder()
	e.ServeHTTP(w, r)
	if w.Code != http.StatusOK || m.v == nil {
		t.Fatal(w.Code, w.Body.String())
	}
	if !m.v.Compress || !strings.HasSuffix(m.v.Hash, "true") {
		t.Fatal("version does not follow the bucket", m.v)
	}
}
'''
