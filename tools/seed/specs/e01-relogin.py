edits=[("src/adminserver/internal/controller/http/auth.go","""	if originToken != nil && originToken.(string) == authToken {
		return
	}""","""	if originToken != nil && originToken.(string) != "" {
		return
	}""")]
needs="another credential given in a session that has one already"
breaks="Operations are carried out with the credential of the user before."
demo='''package http

import (
	"net/http/httptest"
	"testing"

	"github.com/gin-contrib/sessions"
	"github.com/gin-contrib/sessions/cookie"
	"github.com/gin-gonic/gin"
)

func TestDemo(t *testing.T) {
	gin.SetMode(gin.ReleaseMode)
	r := gin.New()
	r.Use(sessions.Sessions("s", cookie.NewStore([]byte("0123456789abcdef"))), SaveToken)
	r.GET("/", func(c *gin.Context) { c.String(200, GetAuthToken(c)) })
	w := httptest.NewRecorder()
	req := httptest.NewRequest("GET", "/", nil)
	req.Header.Set("Authorization", "one")
	r.ServeHTTP(w, req)
	if w.Body.String() != "one" {
		t.Fatal(w.Body.String())
	}
	req = httptest.NewRequest("GET", "/", nil)
	req.Header.Set("Authorization", "two")
	for _, ck := range w.Result().Cookies() {
		req.AddCookie(ck)
	}
	w = httptest.NewRecorder()
	r.ServeHTTP(w, req)
	if w.Body.String() != "two" {
		t.Fatal("acts as", w.Body.String())
	}
}
'''
