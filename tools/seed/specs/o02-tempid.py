edits=[("src/objectserver/internal/controller/http/temp/temp_rest.go","""		Id:         service.GenerateTempID(),
""","""		Id:         entity.TempKeyPrefix + req.Name,
""")]
needs="two uploads of the same content that overlap"
breaks="The uploads share one temporary file, so that neither can be inspected, committed nor aborted independently."
demo='''package temp

import (
	"net/http/httptest"
	"github.com/gin-gonic/gin"
	"strings"
	"common/cache"
	"objectserver/config"
	"objectserver/internal/db"
	"objectserver/internal/usecase/component"
	"objectserver/internal/usecase/pool"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/allegro/bigcache/v3"
)

func setup(t *testing.T) string {
	dir := t.TempDir()
	if err := os.MkdirAll(filepath.Join(dir, "st"), 0700); err != nil {
		t.Fatal(err)
	}
	pool.Config = &config.Config{BaseMountPoint: dir, StoragePath: "st"}
	pool.Config.TempPath = "st"
	pool.DriverManager = component.NewDriverManager(component.SpaceFirstBalancer())
	pool.ObjectCap = db.NewObjectCapacity()
	var err error
	if pool.PathDB, err = db.NewPathCache(filepath.Join(dir, "index")); err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { _ = pool.PathDB.Close() })
	bc := bigcache.DefaultConfig(time.Hour)
	bc.CleanWindow, bc.Shards, bc.MaxEntriesInWindow = 0, 16, 16
	pool.Cache = cache.NewCache(bc)
	return dir
}

func TestDemo(t *testing.T) {
	setup(t)
	gin.SetMode(gin.ReleaseMode)
	r := gin.New()
	r.POST("/temp/:name", Post)
	r.PATCH("/temp/:name", Patch)
	r.PUT("/temp/:name", Put)
	do := func(m, u, body string) (int, string) {
		req := httptest.NewRequest(m, u, strings.NewReader(body))
		req.Header.Set("Size", "6")
		w := httptest.NewRecorder()
		r.ServeHTTP(w, req)
		return w.Code, w.Body.String()
	}
	_, a := do("POST", "/temp/h.0", "")
	if c, _ := do("PATCH", "/temp/"+a, "abc"); c != 200 {
		t.Fatal(c)
	}
	_, b := do("POST", "/temp/h.0", "")
	if c, _ := do("PATCH", "/temp/"+b, "abcdef"); c != 200 {
		t.Fatal(c)
	}
	if c, _ := do("PATCH", "/temp/"+a, "def"); c != 200 {
		t.Fatal(c)
	}
	for _, id := range []string{a, b} {
		if c, m := do("PUT", "/temp/"+id, ""); c != 200 {
			t.Fatal(c, m)
		}
	}
}
'''
