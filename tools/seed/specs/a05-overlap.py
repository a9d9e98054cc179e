edits=[('src/apiserver/internal/controller/http/big_api.go','	if curSize != req.Range.FirstBytes().First {','	if curSize < req.Range.FirstBytes().First {')]
needs='a client that resumes at an offset below the one the server has (a stale offset)'
breaks='The part is appended behind the data that is there already.'
demo='''package service
'''
import os
demo=open(os.path.join(V,"tools/seed/demokit.go.txt")).read().replace('package service','package http',1).replace('"apiserver/config"','"apiserver/config"\n\t"apiserver/internal/entity"\n\t"apiserver/internal/usecase"\n\t"apiserver/internal/usecase/repo"\n\t"github.com/gin-gonic/gin"',1).replace('	c = c[off:]','''	w.Header().Set("Size", fmt.Sprint(len(c)))
	c = c[off:]''')+'''
type demoObj struct{ usecase.IObjectService }

func (demoObj) UniqueHash(d string, ss entity.ObjectStrategy, ds, ps int, c bool) string {
	return "uniq"
}
func (demoObj) LocateObject(h string, n int) ([]string, bool) { return nil, false }

type demoMeta struct {
	usecase.IMetaService
}

type demoBucket struct{ repo.IBucketRepo }

func (demoBucket) Get(n string) (*entity.Bucket, error) { return &entity.Bucket{Name: n}, nil }

func TestDemo(t *testing.T) {
	demoStart(6)
	pool.Config.Object.ReedSolomon = config.RsConfig{DataShards: 4, ParityShards: 2, BlockPerShard: 4}
	gin.SetMode(gin.TestMode)
	e := gin.New()
	e.UseRawPath, e.UnescapePathValues = true, false
	NewBigObjectsController(demoObj{}, &demoMeta{}, demoBucket{}).Register(e)
	do := func(m, u, body string, h ...string) *httptest.ResponseRecorder {
		r := httptest.NewRequest(m, u, strings.NewReader(body))
		for i := 0; i < len(h); i += 2 {
			r.Header.Set(h[i], h[i+1])
		}
		w := httptest.NewRecorder()
		e.ServeHTTP(w, r)
		return w
	}
	w := do("POST", "/big/name", "", "Digest", strings.Repeat("ab", 32), "Size", "100", "Bucket", "b")
	if w.Code != http.StatusCreated {
		t.Fatal(w.Code, w.Body.String())
	}
	loc := strings.TrimPrefix(w.Header().Get("Location"), "/v1")
	w = do("PATCH", loc, strings.Repeat("x", 32), "Range", "bytes=0-31")
	if w.Code != http.StatusPartialContent {
		t.Fatal(w.Code, w.Body.String())
	}
	w = do("PATCH", loc, strings.Repeat("y", 32), "Range", "bytes=16-47")
	if w.Code/100 == 2 {
		t.Fatal("a part at a wrong offset is accepted", w.Code)
	}
	w = do("PATCH", loc, strings.Repeat("y", 32), "Range", "bytes=32-63")
	if w.Code != http.StatusPartialContent {
		t.Fatal(w.Code, w.Body.String())
	}
}
'''
