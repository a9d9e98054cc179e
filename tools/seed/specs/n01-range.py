edits=[("src/apiserver/internal/entity/dto.go","""		if ok := bigPut.Range.ConvertFrom(rangeStr); ok {
			return nil
		}
	}
	return response""","""		bigPut.Range.ConvertFrom(rangeStr)
		return nil
	}
	return response""")]
needs="a part of a big upload sent with a Range that cannot be read, while the upload is where the misread range begins"
breaks="The part is stored at an offset the client did not ask for."
demo='''package entity

import (
	"net/http/httptest"
	"testing"

	"github.com/gin-gonic/gin"
)

func TestDemo(t *testing.T) {
	for _, s := range []string{"bytes=a-3", "bytes=", "items=0-3", "0-3"} {
		c, _ := gin.CreateTestContext(httptest.NewRecorder())
		c.Request = httptest.NewRequest("PATCH", "/big/tk", nil)
		c.Request.Header.Set("Range", s)
		c.Params = gin.Params{{Key: "token", Value: "tk"}}
		var req BigPutReq
		if err := req.Bind(c); err == nil {
			t.Error(s, "accepted as", req.Range)
		}
	}
}
'''
