edits=[('src/apiserver/internal/usecase/componet/auth/auth_middleware.go','		response.FailErr(err.(error), c).Abort()','		response.FailErr(err.(error), c)')]
needs='a refusal with a status (wrong password, callback that says no); other errors are aborted elsewhere'
breaks='The client gets the refusal, but the handler runs nevertheless.'
demo='''package auth

import (
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/gin-gonic/gin"
)

func TestDemo(t *testing.T) {
	cb := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(401) }))
	defer cb.Close()
	gin.SetMode(gin.TestMode)
	e := gin.New()
	ran := false
	e.Group("/v1", AuthenticationMiddleware(&Config{Enable: true}, NewCallbackValidator(&CallbackConfig{Enable: true, Url: cb.URL}))...).
		DELETE("/x", func(c *gin.Context) { ran = true })
	r := httptest.NewRequest("DELETE", "/v1/x", nil)
	r.Header.Set("Bucket", "b")
	w := httptest.NewRecorder()
	e.ServeHTTP(w, r)
	if ran || w.Code < 400 {
		t.Fatal("the handler ran", ran, w.Code)
	}
}
'''
