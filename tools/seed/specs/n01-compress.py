edits=[("src/objectserver/internal/controller/http/temp/temp_rest.go","""	if err := entity.BindAll(g, req, binding.Uri, binding.Query); err != nil {
		response.FailErr(err, g)
		return
	}
	if err := service.CommitTemp(""","""	req.ID, req.Compress = g.Param("name"), g.Query("compress") == "true"
	if err := service.CommitTemp(""")]
needs="an upload that is committed with a value of compress that is no boolean"
breaks="The upload is committed uncompressed although its last request is malformed; a correct one can no longer follow."
demo='''package temp

import (
	"net/http/httptest"
	"github.com/gin-gonic/gin"
	"strings"
	"common/cache"
	"objectserver/config"
	"objectserver/internal/db"
	"objectserver/internal/usecase/component"
	"objectserver/internal/usecase/pool"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/allegro/bigcache/v3"
)

func setup(t *testing.T) string {
	dir := t.TempDir()
	if err := os.MkdirAll(filepath.Join(dir, "st"), 0700); err != nil {
		t.Fatal(err)
	}
	pool.Config = &config.Config{BaseMountPoint: dir, StoragePath: "st"}
	pool.Config.TempPath = "st"
	pool.DriverManager = component.NewDriverManager(component.SpaceFirstBalancer())
	pool.ObjectCap = db.NewObjectCapacity()
	var err error
	if pool.PathDB, err = db.NewPathCache(filepath.Join(dir, "index")); err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { _ = pool.PathDB.Close() })
	bc := bigcache.DefaultConfig(time.Hour)
	bc.CleanWindow, bc.Shards, bc.MaxEntriesInWindow = 0, 16, 16
	pool.Cache = cache.NewCache(bc)
	return dir
}

func TestDemo(t *testing.T) {
	setup(t)
	gin.SetMode(gin.ReleaseMode)
	r := gin.New()
	r.POST("/temp/:name", Post)
	r.PATCH("/temp/:name", Patch)
	r.PUT("/temp/:name", Put)
	do := func(m, u, body string) (int, string) {
		req := httptest.NewRequest(m, u, strings.NewReader(body))
		req.Header.Set("Size", "6")
		w := httptest.NewRecorder()
		r.ServeHTTP(w, req)
		return w.Code, w.Body.String()
	}
	_, a := do("POST", "/temp/h.0", "")
	if c, _ := do("PATCH", "/temp/"+a, "abcdef"); c != 200 {
		t.Fatal(c)
	}
	if c, _ := do("PUT", "/temp/"+a+"?compress=yes", ""); c < 400 {
		t.Error("malformed commit", c)
	}
	if c, m := do("PUT", "/temp/"+a+"?compress=false", ""); c != 200 {
		t.Fatal(c, m)
	}
}
'''
