edits=[("src/adminserver/internal/usecase/webapi/api_server.go","""	if resp.StatusCode != http.StatusNoContent {
		return""","""	// nothing to delete is as good as deleted
	if resp.StatusCode != http.StatusNoContent && resp.StatusCode != http.StatusNotFound {
		return""")]
needs="the deletion of a bucket which the api server does not find"
breaks="The console reports a deletion that did not happen."
demo='''package webapi

import (
	"adminserver/config"
	"adminserver/internal/usecase/pool"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	pool.Config, pool.Http = &config.Config{}, &http.Client{}
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if strings.HasSuffix(r.URL.Path, "/there") {
			w.WriteHeader(204)
			return
		}
		w.WriteHeader(404)
		_, _ = w.Write([]byte("{\\"message\\":\\"no such bucket\\"}"))
	}))
	defer s.Close()
	host := strings.TrimPrefix(s.URL, "http://")
	if err := DeleteBucket(host, "there", "x"); err != nil {
		t.Fatal(err)
	}
	if err := DeleteBucket(host, "missing", "x"); err == nil {
		t.Fatal("deleted what is not there")
	}
}
'''
