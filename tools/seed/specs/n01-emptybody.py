edits=[("src/metaserver/internal/controller/http/version_rest.go","""	if err := g.ShouldBindJSON(&data); err != nil {
		response.FailErr(err, g)
		return
	}
	if s, ok""","""	if err := g.ShouldBindJSON(&data); err != nil && g.Request.ContentLength != 0 {
		response.FailErr(err, g)
		return
	}
	if s, ok""")]
needs="an update of a version without a body"
breaks="The version is overwritten with an empty one."
demo='''package http

import (
	"common/proto/msg"
	"metaserver/internal/usecase"
	"net/http/httptest"
	"strings"
	"testing"

	"github.com/gin-gonic/gin"
)

type stub struct {
	usecase.IMetadataService
	got *msg.Version
}

func (s *stub) UpdateVersion(_ string, _ int, v *msg.Version) error {
	s.got = v
	return nil
}

func TestDemo(t *testing.T) {
	gin.SetMode(gin.ReleaseMode)
	for _, b := range []string{"", "{", "[]"} {
		s, r := &stub{}, gin.New()
		NewVersionController(s).RegisterRoute(r)
		w := httptest.NewRecorder()
		r.ServeHTTP(w, httptest.NewRequest("PUT", "/metadata_version/x?version=1", strings.NewReader(b)))
		if w.Code < 400 || s.got != nil {
			t.Errorf("%q: %d, updated to %v", b, w.Code, s.got)
		}
	}
}
'''
