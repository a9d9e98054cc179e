package controller

import (
	"adminserver/config"
	"adminserver/internal/usecase/pool"
	"bytes"
	"common/logs"
	"common/proto/msg"
	"common/proto/pb"
	"common/registry"
	"common/vkit"
	"context"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"mime/multipart"
	"net"
	"net/http"
	"net/http/cookiejar"
	"net/http/httptest"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/gin-gonic/gin"
	epb "go.etcd.io/etcd/api/v3/etcdserverpb"
	"go.etcd.io/etcd/api/v3/mvccpb"
	clientv3 "go.etcd.io/etcd/client/v3"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// dirE1 is the coordination store: what is registered
type dirE1 struct {
	clientv3.KV
	clientv3.Watcher
	reg map[string]map[string]string // service, id, address
}

func (d *dirE1) Get(_ context.Context, key string, _ ...clientv3.OpOption) (*clientv3.GetResponse, error) {
	res := &clientv3.GetResponse{Header: &epb.ResponseHeader{Revision: 1}}
	for s, m := range d.reg {
		if !strings.Contains(key, s) {
			continue
		}
		for id, a := range m {
			res.Kvs = append(res.Kvs, &mvccpb.KeyValue{Key: []byte(strings.TrimSuffix(key, "/") + "/" + id + "_master"), Value: []byte(a)})
		}
	}
	return res, nil
}

func (d *dirE1) Watch(context.Context, string, ...clientv3.OpOption) clientv3.WatchChan {
	return make(chan clientv3.WatchResponse)
}

func discoverE1(reg map[string]map[string]string) *registry.EtcdDiscovery {
	e := &dirE1{reg: reg}
	var names []string
	for s := range reg {
		names = append(names, s)
	}
	d := registry.NewEtcdDiscovery(&clientv3.Client{KV: e, Watcher: e}, &registry.Config{Group: "g", Name: "admin", ServerIP: "127.0.0.1", ServerPort: "1", ServerID: "me", Services: names})
	for i := 0; ; i++ {
		ok := true
		for s, m := range reg {
			ok = ok && len(d.GetServices(s)) == len(m)
		}
		if ok {
			return d
		}
		if i > 100000 {
			panic("servers are not discovered")
		}
		time.Sleep(100 * time.Microsecond)
	}
}

// apiE1 are the api servers: what they store and what they were asked
type apiE1 struct {
	mu      sync.Mutex
	objects map[string][]string
	buckets map[string]string
	asked   []string
	fault   string
	hold    func(token string)
}

func keyE1(b, n string) string { return fmt.Sprintf("%q/%q", b, n) }

func (a *apiE1) reset() {
	a.mu.Lock()
	defer a.mu.Unlock()
	a.objects, a.buckets, a.asked, a.fault = map[string][]string{}, map[string]string{}, nil, ""
}

func (a *apiE1) state() string {
	a.mu.Lock()
	defer a.mu.Unlock()
	bt, _ := json.Marshal([]any{a.objects, a.buckets})
	return string(bt)
}

var tokensE1 = []string{"Basic " + base64.StdEncoding.EncodeToString([]byte("one:x")), "Basic " + base64.StdEncoding.EncodeToString([]byte("two:y"))}

func validE1(t string) bool { return t == tokensE1[0] || t == tokensE1[1] }

const wrongE1 = "Basic wrong"

// handle runs the work of a request with the fault of the moment
func (a *apiE1) handle(c *gin.Context, what string, auth bool, ok int, work func() (int, string)) {
	tk := c.GetHeader("Authorization")
	a.mu.Lock()
	a.asked = append(a.asked, what+" by "+tk)
	f, hold := a.fault, a.hold
	a.mu.Unlock()
	if hold != nil {
		hold(tk)
	}
	lose := func() {
		h, _, err := c.Writer.Hijack()
		if err == nil {
			_ = h.Close()
		}
	}
	switch f {
	case "lost before":
		lose()
		return
	case "status 500":
		c.JSON(500, gin.H{"message": "broken"})
		return
	case "status 404":
		c.JSON(404, gin.H{"message": "nothing here"})
		return
	case "status 400":
		c.JSON(400, gin.H{"message": "no such luck"})
		return
	case "foreign 502":
		c.String(502, "<html>bad gateway</html>")
		return
	case "empty 503":
		c.Status(503)
		return
	}
	if auth && !validE1(tk) {
		c.JSON(401, gin.H{"message": "who are you"})
		return
	}
	a.mu.Lock()
	code, body := work()
	a.mu.Unlock()
	if code != ok {
		c.JSON(code, gin.H{"message": body})
		return
	}
	switch f {
	case "lost after":
		lose()
		return
	case "cut at once", "cut in half", "cut at the end":
		n := map[string]int{"cut at once": 0, "cut in half": len(body) / 2, "cut at the end": len(body) - 1}[f]
		if n < 0 {
			n = 0
		}
		h, _, err := c.Writer.Hijack()
		if err == nil {
			// one byte more than there is keeps empty bodies incomplete, too
			_, _ = fmt.Fprintf(h, "HTTP/1.1 %d OK\r\nContent-Length: %d\r\n\r\n%s", code, len(body)+1, body[:n])
			_ = h.Close()
		}
		return
	}
	if code == 204 || body == "" {
		c.Status(code)
		c.Writer.WriteHeaderNow()
		return
	}
	c.Header("Content-Length", strconv.Itoa(len(body)))
	c.Status(code)
	_, _ = c.Writer.WriteString(body)
}

// serve starts an api server; it reads names like the real one
func (a *apiE1) serve(id string) *httptest.Server {
	e := gin.New()
	e.UseRawPath, e.UnescapePathValues = true, false
	e.PUT("/v1/objects/:name", func(c *gin.Context) {
		bt, err := io.ReadAll(c.Request.Body)
		b, n, dg := c.GetHeader("Bucket"), c.Param("name"), c.GetHeader("Digest")
		sum := sha256.Sum256(bt)
		a.handle(c, fmt.Sprintf("put %s of %d bytes", keyE1(b, n), len(bt)), true, 201, func() (int, string) {
			if err != nil || dg != hex.EncodeToString(sum[:]) {
				return 400, "digest"
			}
			if c.Request.ContentLength <= 0 {
				return 400, "empty request"
			}
			a.objects[keyE1(b, n)] = append(a.objects[keyE1(b, n)], string(bt))
			return 201, "{}"
		})
	})
	e.GET("/v1/objects/:name", func(c *gin.Context) {
		b, n, q := c.GetHeader("Bucket"), c.Param("name"), c.Query("version")
		a.handle(c, fmt.Sprintf("get %s version %s", keyE1(b, n), q), true, 200, func() (int, string) {
			l := a.objects[keyE1(b, n)]
			v, err := strconv.Atoi(q)
			if q == "" || v == 0 {
				v = len(l)
			}
			if err != nil && q != "" || v < 1 || v > len(l) {
				return 404, "not found"
			}
			return 200, l[v-1]
		})
	})
	e.GET("/v1/metadata/:name/versions", func(c *gin.Context) {
		b, n := c.GetHeader("Bucket"), c.Param("name")
		page, size := c.Query("page"), c.Query("page_size")
		a.handle(c, fmt.Sprintf("versions %s page %s size %s", keyE1(b, n), page, size), true, 200, func() (int, string) {
			l := a.objects[keyE1(b, n)]
			if len(l) == 0 {
				return 404, "not found"
			}
			c.Header("X-Total-Count", strconv.Itoa(len(l)))
			return 200, fmt.Sprintf("[%q,%q,%s]", b, n, page)
		})
	})
	bucket := func(c *gin.Context) (msg.Bucket, string) {
		var b msg.Bucket
		_ = json.NewDecoder(c.Request.Body).Decode(&b)
		return b, showE1(b)
	}
	e.POST("/v1/bucket", func(c *gin.Context) {
		b, s := bucket(c)
		a.handle(c, "create "+s, true, 201, func() (int, string) {
			if _, ok := a.buckets[b.Name]; ok {
				return 400, "exists"
			}
			a.buckets[b.Name] = s
			return 201, ""
		})
	})
	e.PUT("/v1/bucket/:name", func(c *gin.Context) {
		b, _ := bucket(c)
		b.Name = c.Param("name")
		s := showE1(b)
		a.handle(c, "update "+s, true, 200, func() (int, string) {
			if _, ok := a.buckets[b.Name]; !ok {
				return 404, "no bucket"
			}
			a.buckets[b.Name] = s
			return 200, ""
		})
	})
	e.DELETE("/v1/bucket/:name", func(c *gin.Context) {
		n := c.Param("name")
		a.handle(c, fmt.Sprintf("delete %q", n), true, 204, func() (int, string) {
			if _, ok := a.buckets[n]; !ok {
				return 404, "no bucket"
			}
			delete(a.buckets, n)
			return 204, ""
		})
	})
	e.GET("/v1/security/check", func(c *gin.Context) {
		a.handle(c, "check", true, 200, func() (int, string) { return 200, "" })
	})
	e.GET("/config", func(c *gin.Context) {
		a.handle(c, "config of "+id, false, 200, func() (int, string) { return 200, "config of " + id })
	})
	e.NoRoute(func(c *gin.Context) {
		a.handle(c, fmt.Sprintf("unknown %s %s", c.Request.Method, c.Request.URL.EscapedPath()), true, 404, func() (int, string) { return 404, "" })
	})
	return httptest.NewServer(e)
}

func showE1(b msg.Bucket) string {
	bt, _ := json.Marshal(&b)
	return string(bt)
}

// noFiles is a console without pages
type noFiles struct{}

func (noFiles) Open(string) (http.File, error) { return nil, http.ErrMissingFile }
func (noFiles) Exists(string, string) bool     { return false }

// consoleE1 is a user of the console
type consoleE1 struct {
	base    string
	cl      *http.Client
	session string // the credential of the session, as it has to be
}

type answerE1 struct {
	code int
	body string
	head http.Header
	err  error
}

func (a answerE1) String() string {
	b := a.body
	if len(b) > 120 {
		b = fmt.Sprintf("%s... (%d bytes)", b[:120], len(b))
	}
	return fmt.Sprintf("%d %q, error %v", a.code, b, a.err)
}
func (a answerE1) ok() bool { return a.err == nil && a.code >= 200 && a.code < 300 }

func (u *consoleE1) do(method, path, token, contentType string, body []byte) answerE1 {
	req, err := http.NewRequest(method, u.base+"/api"+path, bytes.NewReader(body))
	if err != nil {
		panic(err)
	}
	if token != "" {
		req.Header.Set("Authorization", token)
	}
	if contentType != "" {
		req.Header.Set("Content-Type", contentType)
	}
	resp, err := u.cl.Do(req)
	if err != nil {
		return answerE1{err: err}
	}
	defer resp.Body.Close()
	bt, err := io.ReadAll(resp.Body)
	return answerE1{resp.StatusCode, string(bt), resp.Header, err}
}

// opE1 is an operation of the console
type opE1 struct {
	name string
	send func(u *consoleE1, token string) answerE1
	// ask is what an api server has to be asked
	ask string
	// effect is applied to the reference, which answers with a code and a body
	effect func(ref *apiE1) (ok bool, code int, body string)
	open   bool // needs no credential
	logout bool
	get    bool
}

func jsonE1(v any) []byte {
	bt, _ := json.Marshal(v)
	return bt
}

func uploadE1(b, n, content string) opE1 {
	return opE1{name: fmt.Sprintf("upload %s of %d bytes", keyE1(b, n), len(content)), send: func(u *consoleE1, token string) answerE1 {
		var buf bytes.Buffer
		w := multipart.NewWriter(&buf)
		f, _ := w.CreateFormFile("file", n)
		_, _ = io.WriteString(f, content)
		_ = w.WriteField("bucket", b)
		_ = w.Close()
		return u.do("PUT", "/objects/upload", token, w.FormDataContentType(), buf.Bytes())
	}, ask: fmt.Sprintf("put %s of %d bytes", keyE1(b, n), len(content)), effect: func(r *apiE1) (bool, int, string) {
		if content == "" {
			return false, 400, "empty request"
		}
		r.objects[keyE1(b, n)] = append(r.objects[keyE1(b, n)], content)
		return true, 201, ""
	}}
}

func downloadE1(b, n string, v int) opE1 {
	return opE1{name: fmt.Sprintf("download %s version %d", keyE1(b, n), v), get: true, send: func(u *consoleE1, token string) answerE1 {
		return u.do("GET", fmt.Sprintf("/objects/download/%s?bucket=%s&version=%d", url.PathEscape(n), url.QueryEscape(b), v), token, "", nil)
	}, ask: fmt.Sprintf("get %s version %d", keyE1(b, n), v), effect: func(r *apiE1) (bool, int, string) {
		l := r.objects[keyE1(b, n)]
		k := v
		if k == 0 {
			k = len(l)
		}
		if k < 1 || k > len(l) {
			return false, 404, "not found"
		}
		return true, 200, l[k-1]
	}}
}

func versionsE1(b, n string, page, size int) opE1 {
	return opE1{name: fmt.Sprintf("versions of %s page %d of %d", keyE1(b, n), page, size), get: true, send: func(u *consoleE1, token string) answerE1 {
		return u.do("GET", fmt.Sprintf("/metadata/versions?name=%s&bucket=%s&page=%d&pageSize=%d", url.QueryEscape(n), url.QueryEscape(b), page, size), token, "", nil)
	}, ask: fmt.Sprintf("versions %s page %d size %d", keyE1(b, n), page, size), effect: func(r *apiE1) (bool, int, string) {
		if len(r.objects[keyE1(b, n)]) == 0 {
			return false, 404, "not found"
		}
		return true, 200, fmt.Sprintf("[%q,%q,%d]", b, n, page)
	}}
}

func createE1(b msg.Bucket) opE1 {
	return opE1{name: "create " + b.Name, send: func(u *consoleE1, token string) answerE1 {
		return u.do("POST", "/metadata/create_bucket", token, "application/json", jsonE1(&b))
	}, ask: "create " + showE1(b), effect: func(r *apiE1) (bool, int, string) {
		if _, ok := r.buckets[b.Name]; ok {
			return false, 400, "exists"
		}
		r.buckets[b.Name] = showE1(b)
		return true, 200, ""
	}}
}

func updateE1(b msg.Bucket) opE1 {
	return opE1{name: "update " + b.Name, send: func(u *consoleE1, token string) answerE1 {
		return u.do("PUT", "/metadata/update_bucket", token, "application/json", jsonE1(&b))
	}, ask: "update " + showE1(b), effect: func(r *apiE1) (bool, int, string) {
		if _, ok := r.buckets[b.Name]; !ok {
			return false, 404, "no bucket"
		}
		r.buckets[b.Name] = showE1(b)
		return true, 200, ""
	}}
}

func deleteE1(n string) opE1 {
	return opE1{name: fmt.Sprintf("delete %q", n), send: func(u *consoleE1, token string) answerE1 {
		return u.do("DELETE", "/metadata/delete_bucket/"+url.PathEscape(n), token, "", nil)
	}, ask: fmt.Sprintf("delete %q", n), effect: func(r *apiE1) (bool, int, string) {
		if _, ok := r.buckets[n]; !ok {
			return false, 404, "no bucket"
		}
		delete(r.buckets, n)
		return true, 200, ""
	}}
}

func loginE1() opE1 {
	return opE1{name: "login", open: true, get: true, send: func(u *consoleE1, token string) answerE1 { return u.do("POST", "/login", token, "", nil) },
		ask: "check", effect: func(r *apiE1) (bool, int, string) { return true, 200, "" }}
}

func logoutE1() opE1 {
	return opE1{name: "logout", open: true, logout: true, send: func(u *consoleE1, token string) answerE1 { return u.do("POST", "/logout", token, "", nil) }}
}

func configE1(id string) opE1 {
	return opE1{name: "config of " + id, open: true, get: true, send: func(u *consoleE1, token string) answerE1 {
		return u.do("GET", "/server/config?serverId="+id, token, "", nil)
	}, ask: "config of " + id, effect: func(r *apiE1) (bool, int, string) { return true, 200, "config of " + id }}
}

var faultsE1 = []string{"refused", "lost before", "lost after", "cut at once", "cut in half", "cut at the end", "status 500", "status 404", "status 400", "foreign 502", "empty 503"}

type worldE1 struct {
	c       *vkit.Ctx
	api     *apiE1
	ref     *apiE1
	console *httptest.Server
	up      *registry.EtcdDiscovery
	down    *registry.EtcdDiscovery
	none    *registry.EtcdDiscovery
	apis    map[string]string
}

func (w *worldE1) user() *consoleE1 {
	jar, _ := cookiejar.New(nil)
	return &consoleE1{base: w.console.URL, cl: &http.Client{Jar: jar, Transport: w.console.Client().Transport, Timeout: 20 * time.Second,
		CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}}
}

func (w *worldE1) reset() {
	w.api.reset()
	w.ref.reset()
}

// run sends an operation and says what is wrong
func (w *worldE1) run(u *consoleE1, op opE1, header, fault string) string {
	w.c.Transition()
	pool.Discovery = w.up
	switch fault {
	case "refused":
		pool.Discovery = w.down
	case "nobody":
		pool.Discovery = w.none
	default:
		w.api.mu.Lock()
		w.api.fault = fault
		w.api.mu.Unlock()
	}
	w.api.mu.Lock()
	w.api.asked = nil
	w.api.mu.Unlock()
	before := w.api.state()
	ans := op.send(u, header)
	w.api.mu.Lock()
	w.api.fault = ""
	asked := append([]string{}, w.api.asked...)
	w.api.mu.Unlock()
	as := u.session
	if header != "" {
		as = header
	}
	u.session = as
	if op.logout {
		u.session = ""
		if !ans.ok() || len(asked) > 0 {
			return fmt.Sprintf("logout answers %s, api servers are asked %v", ans, asked)
		}
		return ""
	}
	if as == "" && !op.open {
		if len(asked) > 0 || w.api.state() != before {
			return fmt.Sprintf("without a credential the api servers are asked %v", asked)
		}
		if ans.err != nil || ans.code != 403 {
			return fmt.Sprintf("without a credential it answers %s", ans)
		}
		return ""
	}
	if fault == "refused" || fault == "nobody" {
		if ans.err != nil || ans.code < 400 {
			return fmt.Sprintf("no api server can be reached, but it answers %s", ans)
		}
		return ""
	}
	// reading may be repeated
	if op.get && len(asked) > 1 && fault != "" {
		asked = asked[:1]
	}
	if want := op.ask + " by " + as; len(asked) != 1 || asked[0] != want {
		return fmt.Sprintf("the api servers are asked %q instead of %q; it answers %s", asked, want, ans)
	}
	done, code, body := false, 0, ""
	auth := validE1(as) || strings.HasPrefix(op.ask, "config")
	switch fault {
	case "lost before":
		code = -1
	case "status 500", "status 404", "status 400":
		code, _ = strconv.Atoi(fault[7:])
		body = map[int]string{500: "", 404: "nothing here", 400: "no such luck"}[code]
	case "foreign 502":
		code = 502
	case "empty 503":
		code = 503
	default:
		if !auth {
			code, body = 401, "who are you"
			break
		}
		done, code, body = op.effect(w.ref)
		if fault != "" && done {
			done, code = false, -1
			if body == "" && fault != "lost after" {
				// what was done is known from the status
				code = -2
			}
		}
	}
	if got, want := w.api.state(), w.ref.state(); got != want {
		return fmt.Sprintf("the api servers have %s instead of %s", got, want)
	}
	w.c.State(w.api.state() + u.session)
	switch {
	case code == -2:
	case code == -1:
		if ans.ok() {
			return fmt.Sprintf("the answer of the api server is lost or incomplete, but it answers %s", ans)
		}
	case !done:
		if ans.err != nil || ans.code != code || !strings.Contains(ans.body, body) {
			return fmt.Sprintf("the api server answers %d %q, the console %s", code, body, ans)
		}
	default:
		if !ans.ok() || ans.code != code || op.get && ans.body != body {
			return fmt.Sprintf("the operation is done, with %d bytes %.80q, but it answers %s", len(body), body, ans)
		}
		if strings.HasPrefix(op.ask, "versions") && ans.head.Get("X-Total-Count") == "" {
			return "the total is missing"
		}
	}
	return ""
}

func TestVerifE01(t *testing.T) {
	gin.SetMode(gin.ReleaseMode)
	gin.DefaultWriter, gin.DefaultErrorWriter = io.Discard, io.Discard
	logs.Std().SetOutput(io.Discard)
	vkit.Run(t, "E01", func(c *vkit.Ctx) {
		c.Rule("an operation is right when exactly the named thing is asked of a registered server, once, with the user's own credential, and the answer is what the server did")
		pool.Config = &config.Config{Discovery: config.DiscoveryConfig{Group: "g", MetaServName: "metaserver", DataServName: "objectserver", ApiServName: "apiserver"}}
		pool.Http = &http.Client{}
		w := &worldE1{c: c, api: &apiE1{}, ref: &apiE1{}}
		a, b := w.api.serve("a1"), w.api.serve("a2")
		defer a.Close()
		defer b.Close()
		closed := refusesE1()
		host := func(s *httptest.Server) string { return strings.TrimPrefix(s.URL, "http://") }
		g := newGrpcE1(t)
		defer g.stop()
		w.apis = map[string]string{"a1": host(a), "a2": host(b)}
		w.up = discoverE1(map[string]map[string]string{"apiserver": w.apis, "metaserver": g.reg("m"), "objectserver": g.reg("d")})
		w.down = discoverE1(map[string]map[string]string{"apiserver": {"a1": closed, "a2": closed}, "metaserver": {}, "objectserver": {}})
		w.none = discoverE1(map[string]map[string]string{"apiserver": {}, "metaserver": {}, "objectserver": {}})
		w.console = httptest.NewServer(NewHttpServer("0", noFiles{}).Handler)
		defer w.console.Close()
		i := 0
		one := func(name, key string, f func() string) {
			i++
			if !c.Mine(i) || c.Expired() {
				return
			}
			c.Cur("%s", name)
			c.Eval(name)
			w.reset()
			if m := f(); m != "" {
				c.Fail(key, func() bool { w.reset(); return f() != "" }, "%s\n%s", name, m)
			}
		}
		names := []string{"x", "a b", "a?b", "a?version=1", "a#b", "a&b=c", "a+b", "a,b", "a;b", "a:b", "a%2Cb", "a%20b", "100%", "%zz", "ü", "a=b", "a@b$c!", "..x", "*"}
		buckets := []string{"b", "b c/d", "b?e"}
		full := func(n string) msg.Bucket {
			return msg.Bucket{Name: n, Versioning: true, Compress: true, StoreStrategy: 1, DataShards: 2, ParityShards: 1, VersionRemains: 3, Policies: []string{"p"}}
		}
		big := strings.Repeat("0123456789abcdef", 5000)
		prepare := func(bk, n string) {
			for _, x := range []*apiE1{w.api, w.ref} {
				x.mu.Lock()
				x.objects[keyE1(bk, n)] = []string{"first", big, "the third"}
				x.buckets[bk], x.buckets[n] = showE1(msg.Bucket{Name: bk}), showE1(msg.Bucket{Name: n})
				x.mu.Unlock()
			}
		}
		ops := func(bk, n string) []opE1 {
			return []opE1{uploadE1(bk, n, "hello"), uploadE1(bk, n, big), uploadE1(bk, n, ""), downloadE1(bk, n, 0), downloadE1(bk, n, 1), downloadE1(bk, n, 2), downloadE1(bk, n, 4),
				versionsE1(bk, n, 1, 10), versionsE1(bk, n, 2, 1), createE1(full("new" + n)), createE1(full(n)), updateE1(full(n)), updateE1(full("no" + n)), deleteE1(n), deleteE1("no" + n),
				loginE1(), configE1("a1"), configE1("a2")}
		}
		creds := []string{"good", "other", "wrong", "none", "session", "wrong session", "logged out"}
		as := func(u *consoleE1, cred string) (string, string) {
			lg := func(h string) string { return w.run(u, loginE1(), h, "") }
			switch cred {
			case "good":
				return tokensE1[0], ""
			case "other":
				return tokensE1[1], lg(tokensE1[0])
			case "wrong":
				return wrongE1, ""
			case "session":
				return "", lg(tokensE1[1])
			case "wrong session":
				return "", lg(wrongE1)
			case "logged out":
				if m := lg(tokensE1[0]); m != "" {
					return "", m
				}
				return "", w.run(u, logoutE1(), "", "")
			}
			return "", ""
		}
		single := func(bk, n, cred, fault string, k int) {
			nm := ops(bk, n)[k].name
			name := fmt.Sprintf("%s as %s, %s", nm, cred, fault)
			one(name, fmt.Sprintf("%s: %s", strings.Fields(nm)[0], fault+cred+n), func() string {
				u := w.user()
				prepare(bk, n)
				h, m := as(u, cred)
				if m != "" {
					return m
				}
				return w.run(u, ops(bk, n)[k], h, fault)
			})
		}
		nops := len(ops("b", "x"))
		for _, bk := range buckets {
			for _, n := range names {
				for k := 0; k < nops; k++ {
					for _, cr := range creds {
						if c.Quick && n != "x" && cr != "good" && cr != "session" {
							continue
						}
						single(bk, n, cr, "", k)
					}
				}
			}
		}
		for _, f := range append(faultsE1, "nobody") {
			for _, n := range []string{"x", "a?b"} {
				for k := 0; k < nops; k++ {
					if strings.HasPrefix(ops("b", n)[k].name, "config") && f == "refused" {
						continue
					}
					for _, cr := range creds {
						single("b", n, cr, f, k)
					}
				}
			}
		}
		// histories of one session
		type event struct {
			name string
			op   opE1
			hd   string
			f    string
		}
		events := []event{
			{"login 1", loginE1(), tokensE1[0], ""}, {"login wrong", loginE1(), wrongE1, ""}, {"login", loginE1(), "", ""},
			{"logout", logoutE1(), "", ""}, {"logout 1", logoutE1(), tokensE1[0], ""},
			{"upload 1", uploadE1("b", "x", "one"), tokensE1[0], ""}, {"upload 2", uploadE1("b", "x", "two"), tokensE1[1], ""}, {"upload", uploadE1("b", "x", "nobody"), "", ""},
			{"upload lost", uploadE1("b", "x", "lost"), "", "lost after"}, {"download", downloadE1("b", "x", 0), "", ""}, {"download cut", downloadE1("b", "x", 0), tokensE1[1], "cut in half"},
			{"create", createE1(full("b")), "", ""}, {"delete 2", deleteE1("b"), tokensE1[1], ""}, {"nobody", versionsE1("b", "x", 1, 5), tokensE1[0], "nobody"},
		}
		depth := c.N(3, 4)
		var rec func(p []int)
		rec = func(p []int) {
			if len(p) == depth {
				var nm []string
				for _, k := range p {
					nm = append(nm, events[k].name)
				}
				one("session: "+strings.Join(nm, ", "), "session "+nm[depth-1], func() string {
					u := w.user()
					for j, k := range p {
						e := events[k]
						if m := w.run(u, e.op, e.hd, e.f); m != "" {
							return fmt.Sprintf("%d. %s: %s", j+1, e.name, m)
						}
					}
					return ""
				})
				return
			}
			for k := range events {
				rec(append(p, k))
			}
		}
		rec(nil)
		// two users at once, one held at the api server
		for k1 := 0; k1 < nops; k1++ {
			for k2 := 0; k2 < nops; k2++ {
				k1, k2 := k1, k2
				o1, o2 := ops("b", "x")[k1], ops("b", "x")[k2]
				one(fmt.Sprintf("at once: %s | %s", o1.name, o2.name), "at once", func() string { return w.pair(o1, o2, func() { prepare("b", "x") }) })
			}
		}
		pool.Discovery = w.up
		g.check(w, one)
	})
}

// pair runs two users' operations, the first one held at the api server while the second one is completed
func (w *worldE1) pair(o1, o2 opE1, prepare func()) string {
	prepare()
	pool.Discovery = w.up
	arrived, release := make(chan struct{}), make(chan struct{})
	var once sync.Once
	w.api.mu.Lock()
	w.api.hold = func(tk string) {
		if tk == tokensE1[0] {
			once.Do(func() { close(arrived) })
			<-release
		}
	}
	w.api.mu.Unlock()
	defer func() {
		w.api.mu.Lock()
		w.api.hold = nil
		w.api.mu.Unlock()
	}()
	u1, u2 := w.user(), w.user()
	res := make(chan answerE1, 1)
	w.c.Transition()
	go func() { res <- o1.send(u1, tokensE1[0]) }()
	var a1 answerE1
	early := false
	select {
	case <-arrived:
	case a1 = <-res:
		early = true
	case <-time.After(20 * time.Second):
		return "the first operation does not arrive"
	}
	w.c.Transition()
	a2 := o2.send(u2, tokensE1[1])
	close(release)
	if !early {
		a1 = <-res
	}
	w.api.mu.Lock()
	asked := append([]string{}, w.api.asked...)
	w.api.mu.Unlock()
	sort.Strings(asked)
	want := []string{o1.ask + " by " + tokensE1[0], o2.ask + " by " + tokensE1[1]}
	sort.Strings(want)
	if fmt.Sprint(asked) != fmt.Sprint(want) {
		return fmt.Sprintf("the api servers are asked %q instead of %q", asked, want)
	}
	// the second one is done first
	for i, x := range []struct {
		o opE1
		a answerE1
	}{{o2, a2}, {o1, a1}} {
		ok, code, body := x.o.effect(w.ref)
		if x.a.err != nil || x.a.code != code || ok && x.o.get && x.a.body != body || !ok && !strings.Contains(x.a.body, body) {
			return fmt.Sprintf("operation %d answers %s instead of %d %.80q", 2-i, x.a, code, body)
		}
	}
	if g, r := w.api.state(), w.ref.state(); g != r {
		return fmt.Sprintf("the api servers have %s instead of %s", g, r)
	}
	return ""
}

var refusingE1 string

// refusesE1 is an address that stays taken but refuses connections
func refusesE1() string {
	if refusingE1 == "" {
		fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
		if err == nil {
			err = syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}})
		}
		if err != nil {
			panic(err)
		}
		sa, err := syscall.Getsockname(fd)
		if err != nil {
			panic(err)
		}
		refusingE1 = fmt.Sprint("127.0.0.1:", sa.(*syscall.SockaddrInet4).Port)
	}
	return refusingE1
}

// grpcE1 are the metadata and object servers
type grpcE1 struct {
	t     *testing.T
	mu    sync.Mutex
	addr  map[string]string
	asked []string
	mode  string

	servers []*grpc.Server
}

func (g *grpcE1) stop() {
	for _, s := range g.servers {
		s.Stop()
	}
}

type serverE1 struct {
	pb.UnimplementedHashSlotServer
	pb.UnimplementedRaftCmdServer
	pb.UnimplementedMetadataApiServer
	pb.UnimplementedObjectMigrationServer
	pb.UnimplementedConfigServiceServer
	id string
	g  *grpcE1
}

func newGrpcE1(t *testing.T) *grpcE1 {
	g := &grpcE1{t: t, addr: map[string]string{}}
	for _, id := range []string{"m1", "m2", "d1", "d2"} {
		g.start(id)
	}
	for _, id := range []string{"mdown", "ddown"} {
		g.addr[id] = refusesE1()
	}
	return g
}

func (g *grpcE1) start(id string) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		g.t.Fatal(err)
	}
	s, x := grpc.NewServer(), &serverE1{id: id, g: g}
	pb.RegisterHashSlotServer(s, x)
	pb.RegisterRaftCmdServer(s, x)
	pb.RegisterMetadataApiServer(s, x)
	pb.RegisterObjectMigrationServer(s, x)
	pb.RegisterConfigServiceServer(s, x)
	go func() { _ = s.Serve(l) }()
	g.servers = append(g.servers, s)
	g.addr[id] = l.Addr().String()
}

func (g *grpcE1) reg(p string) map[string]string {
	r := map[string]string{}
	for id, a := range g.addr {
		if strings.HasPrefix(id, p) {
			r[id] = a
		}
	}
	return r
}

func (s *serverE1) ask(what string) (*pb.Response, error) {
	s.g.mu.Lock()
	defer s.g.mu.Unlock()
	s.g.asked = append(s.g.asked, s.id+": "+what)
	switch s.g.mode {
	case "refused":
		return &pb.Response{Success: false, Message: "not now"}, nil
	case "invalid":
		return nil, status.Error(codes.InvalidArgument, "not so")
	case "unavailable":
		return nil, status.Error(codes.Unavailable, "not here")
	case "internal":
		return nil, status.Error(codes.Internal, "not at all")
	}
	return &pb.Response{Success: true, Message: "done"}, nil
}

func (s *serverE1) StartMigration(_ context.Context, r *pb.MigrationReq) (*pb.Response, error) {
	return s.ask(fmt.Sprintf("migrate %v to %s:%s", r.Slots, r.TargetLocation.GetHost(), r.TargetLocation.GetPort()))
}
func (s *serverE1) JoinLeader(_ context.Context, r *pb.JoinLeaderReq) (*pb.Response, error) {
	return s.ask("join leader " + r.MasterId)
}
func (s *serverE1) LeaveCluster(context.Context, *pb.EmptyReq) (*pb.Response, error) {
	return s.ask("leave cluster")
}
func (s *serverE1) LeaveCommand(context.Context, *pb.EmptyReq) (*pb.Response, error) {
	return s.ask("leave")
}
func (s *serverE1) JoinCommand(context.Context, *pb.EmptyReq) (*pb.Response, error) {
	return s.ask("join")
}
func (s *serverE1) GetPeers(context.Context, *pb.Empty) (*pb.Strings, error) {
	if r, err := s.ask("peers"); err != nil || !r.Success {
		return nil, err
	}
	return &pb.Strings{Data: []string{"m2"}}, nil
}
func (s *serverE1) GetConfig(context.Context, *pb.EmptyReq) (*pb.ConfigResp, error) {
	if r, err := s.ask("config"); err != nil || !r.Success {
		return nil, err
	}
	return &pb.ConfigResp{YamlEncode: []byte("config of " + s.id)}, nil
}

type cmdE1 struct {
	name    string
	method  string
	path    string
	body    any
	ask     string // what is asked, of whom
	to      string
	answer  string
	refuses bool // can answer with a refusal
	open    bool
}

func (g *grpcE1) cmds() (l []cmdE1) {
	add := func(m, p string, body any, to, ask, answer string, refuses bool) {
		if ask != "" {
			ask = to + ": " + ask
		}
		l = append(l, cmdE1{name: fmt.Sprint(m, " ", p, " ", body), method: m, path: p, body: body, ask: ask, to: to, answer: answer, refuses: refuses, open: strings.HasPrefix(p, "/server")})
	}
	on := func(id, kind, s string) string {
		if strings.HasPrefix(id, kind) {
			return s
		}
		return ""
	}
	ids := []string{"m1", "m2", "mdown", "d1", "d2", "ddown", "zz"}
	for _, id := range ids {
		for _, dst := range []string{"m2", "m1", "zz", "d1"} {
			for _, slots := range [][]string{{"0-100"}, {"0-1", "5-7"}} {
				h, p, _ := net.SplitHostPort(g.addr[dst])
				ask := on(dst, "m", on(id, "m", fmt.Sprintf("migrate %v to %s:%s", slots, h, p)))
				add("POST", "/metadata/migration", map[string]any{"srcServerId": id, "destServerId": dst, "slots": slots}, id, ask, "", true)
			}
		}
		for _, m := range []string{"m1", "m2"} {
			add("POST", "/metadata/join_leader", map[string]any{"serverId": id, "masterId": m}, id, on(id, "m", "join leader "+m), "", true)
		}
		add("POST", "/metadata/leave_cluster", map[string]any{"serverId": id}, id, on(id, "m", "leave cluster"), "", true)
		add("GET", "/metadata/peers?serverId="+id, nil, id, on(id, "m", "peers"), fmt.Sprintf(`[{"serverId":"m2","httpAddr":%q,"sysInfo":null},{"serverId":%q,"httpAddr":%q,"sysInfo":null}]`, g.addr["m2"], id, g.addr[id]), false)
		add("GET", "/metadata/config/"+id, nil, id, on(id, "m", "config"), "config of "+id, false)
		add("GET", "/objects/config/"+id, nil, id, on(id, "d", "config"), "config of "+id, false)
		if id != "zz" {
			add("GET", "/server/config?serverId="+id, nil, id, "config", "config of "+id, false)
		}
		add("POST", "/objects/join/"+id, nil, id, on(id, "d", "join"), "", true)
		add("POST", "/objects/leave/"+id, nil, id, on(id, "d", "leave"), "", true)
	}
	return
}

func (x cmdE1) send(u *consoleE1, token string) answerE1 {
	var body []byte
	if x.body != nil {
		body = jsonE1(x.body)
	}
	return u.do(x.method, x.path, token, "application/json", body)
}

func (x cmdE1) judge(mode string, ans answerE1) string {
	bad := x.ask == "" || strings.HasSuffix(x.to, "down") || mode != "" && (mode != "refused" || x.refuses)
	if bad {
		if ans.err != nil || ans.code < 400 {
			return fmt.Sprintf("%s: it is not done, but the console answers %s", x.name, ans)
		}
		if mode == "refused" && x.ask != "" && !strings.HasSuffix(x.to, "down") && !strings.Contains(ans.body, "not now") {
			return fmt.Sprintf("%s: the reason is lost: %s", x.name, ans)
		}
		return ""
	}
	if !ans.ok() || x.answer != "" && ans.body != x.answer {
		return fmt.Sprintf("%s: it is done (%s), but the console answers %s", x.name, x.answer, ans)
	}
	return ""
}

func (g *grpcE1) check(w *worldE1, one func(name, key string, f func() string)) {
	take := func() []string {
		g.mu.Lock()
		defer g.mu.Unlock()
		l := g.asked
		g.asked = nil
		return l
	}
	set := func(m string) {
		g.mu.Lock()
		g.mode, g.asked = m, nil
		g.mu.Unlock()
	}
	asks := func(l ...cmdE1) (r []string) {
		for _, x := range l {
			if x.ask != "" && !strings.HasSuffix(x.to, "down") {
				r = append(r, x.ask)
			}
		}
		sort.Strings(r)
		return
	}
	for _, x := range g.cmds() {
		for _, mode := range []string{"", "refused", "invalid", "unavailable", "internal"} {
			if mode == "refused" && !x.refuses {
				continue
			}
			for _, tk := range []string{tokensE1[0], ""} {
				x, mode, tk := x, mode, tk
				one(fmt.Sprintf("command %s, %s, credential %q", x.name, mode, tk), "command "+x.path+mode, func() string {
					pool.Discovery = w.up
					set(mode)
					w.c.Transition()
					ans := x.send(w.user(), tk)
					asked := take()
					if tk == "" && !x.open {
						if len(asked) > 0 || ans.err != nil || ans.code != 403 {
							return fmt.Sprintf("without a credential it answers %s, servers are asked %v", ans, asked)
						}
						return ""
					}
					if fmt.Sprint(asked) != fmt.Sprint(asks(x)) {
						return fmt.Sprintf("the servers are asked %q instead of %q, it answers %s", asked, asks(x), ans)
					}
					return x.judge(mode, ans)
				})
			}
		}
	}
	// two at once, over connections to be made
	chosen := func(x cmdE1) bool {
		return (x.to == "m1" || x.to == "m2" || x.to == "d1") && x.ask != "" && !strings.Contains(x.name, "5-7")
	}
	var some []cmdE1
	for _, x := range g.cmds() {
		if chosen(x) {
			some = append(some, x)
		}
	}
	for i := range some {
		for j := range some {
			i, j := i, j
			one(fmt.Sprintf("commands at once: %s | %s", some[i].name, some[j].name), "commands at once", func() string {
				// servers nobody is connected to
				n := newGrpcE1(g.t)
				defer n.stop()
				pool.Discovery = discoverE1(map[string]map[string]string{"apiserver": w.apis, "metaserver": n.reg("m"), "objectserver": n.reg("d")})
				w.c.Transition()
				w.c.Transition()
				var some []cmdE1
				for _, x := range n.cmds() {
					if chosen(x) {
						some = append(some, x)
					}
				}
				x := []cmdE1{some[i], some[j]}
				var a [2]answerE1
				var wg sync.WaitGroup
				for k := 0; k < 2; k++ {
					wg.Add(1)
					go func(k int) {
						defer wg.Done()
						a[k] = x[k].send(w.user(), tokensE1[k])
					}(k)
				}
				wg.Wait()
				n.mu.Lock()
				asked := n.asked
				n.mu.Unlock()
				sort.Strings(asked)
				if fmt.Sprint(asked) != fmt.Sprint(asks(x...)) {
					return fmt.Sprintf("the servers are asked %q instead of %q", asked, asks(x...))
				}
				for k := 0; k < 2; k++ {
					if m := x[k].judge("", a[k]); m != "" {
						return m
					}
				}
				return ""
			})
		}
	}
}
