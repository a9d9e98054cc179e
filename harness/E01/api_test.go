package apikit_test

import (
	"apiserver/internal/apikit"
	"apiserver/internal/entity"
	"apiserver/internal/usecase/pool"
	"common/objmodel"
	"common/util/crypto"
	"common/vkit"
	"fmt"
	"net/url"
	"strings"
	"testing"
	"time"
)

// TestVerifE01Api shows that the real api server reads names and answers as the recording one of the console's check
func TestVerifE01Api(t *testing.T) {
	vkit.Run(t, "E01", func(c *vkit.Ctx) {
		cfg := apikit.Config(2, 1, 4)
		cfg.Object.Replication.CopiesCount = 2
		cfg.Object.Checksum = true
		cfg.Object.DistinctTimeout = 2 * time.Millisecond
		cl := apikit.New(4, 1, cfg)
		cl.Conf = cfg
		pool.Config = cl.Conf
		pool.Balancer = apikit.Balance{}
		names := []string{"x", "a b", "a?b", "a?version=1", "a#b", "a&b=c", "a+b", "a,b", "a;b", "a:b", "a%2Cb", "a%20b", "100%", "%zz", "ü", "a=b", "a@b$c!", "..x", "*"}
		for _, n := range names {
			seg := (&url.URL{Path: n}).EscapedPath()
			n := n
			check := func() string {
				cl.Reset(objmodel.NewWorld(4))
				cl.Meta.Clear()
				cl.Meta.Buckets["b"] = entity.Bucket{Versioning: true, VersionRemains: 5}
				cl.Meta.Buckets[n] = entity.Bucket{}
				content := apikit.Content(1, 30)
				code := func(want int, a apikit.Answer) string {
					if a.Err != nil || a.Code != want {
						return fmt.Sprintf("answers %s instead of %d", a, want)
					}
					return ""
				}
				hd := map[string]string{"bucket": "b", "digest": crypto.SHA256([]byte(content))}
				if m := code(201, cl.Do("PUT", "/v1/objects/"+seg, hd, strings.NewReader(content), int64(len(content)))); m != "" {
					return "put " + m
				}
				if l := cl.Meta.Versions("b", n); len(l) != 1 {
					return fmt.Sprintf("the object stored has another name: %v versions of it", len(l))
				}
				a := cl.Do("GET", "/v1/objects/"+seg+"?version=1", map[string]string{"bucket": "b"}, nil, 0)
				if m := code(200, a); m != "" || a.Body != content {
					return "get " + m
				}
				if m := code(404, cl.Do("GET", "/v1/objects/no"+seg+"?version=1", map[string]string{"bucket": "b"}, nil, 0)); m != "" {
					return "get of another one " + m
				}
				if m := code(400, cl.Do("PUT", "/v1/objects/"+seg, hd, strings.NewReader(""), 0)); m != "" {
					return "put of nothing " + m
				}
				if m := code(200, cl.Do("PUT", "/v1/bucket/"+seg, nil, strings.NewReader(`{"compress":true}`), 17)); m != "" || !cl.Meta.Buckets[n].Compress {
					return "update " + m
				}
				if m := code(404, cl.Do("PUT", "/v1/bucket/no"+seg, nil, strings.NewReader(`{}`), 2)); m != "" {
					return "update of another one " + m
				}
				if m := code(204, cl.Do("DELETE", "/v1/bucket/"+seg, nil, nil, 0)); m != "" {
					return "delete " + m
				}
				if _, ok := cl.Meta.Buckets[n]; ok {
					return "another bucket is deleted"
				}
				if m := code(404, cl.Do("DELETE", "/v1/bucket/"+seg, nil, nil, 0)); m != "" {
					return "delete again " + m
				}
				body := fmt.Sprintf(`{"name":%q}`, n)
				if m := code(201, cl.Do("POST", "/v1/bucket", nil, strings.NewReader(body), int64(len(body)))); m != "" {
					return "create " + m
				}
				if _, ok := cl.Meta.Buckets[n]; !ok {
					return "another bucket is created"
				}
				if m := code(400, cl.Do("POST", "/v1/bucket", nil, strings.NewReader(body), int64(len(body)))); m != "" {
					return "create again " + m
				}
				apikit.Quiet()
				return ""
			}
			c.Cur("real api server: name %q", n)
			c.Eval("api " + n)
			c.Validated()
			if m := check(); m != "" {
				c.Fail("api server", func() bool { return check() != "" }, "name %q: %s", n, m)
			}
		}
	})
}
