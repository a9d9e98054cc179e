// Only authorised requests get through.
//
// Every combination of enabled mechanisms, stored credentials, verdicts of the callback, credentials of the request,
// hosts, buckets and routes is sent to the real HTTP server's handler, whose services only record what they are asked.
package http_test

import (
	"apiserver/config"
	httpapi "apiserver/internal/controller/http"
	"apiserver/internal/entity"
	"apiserver/internal/usecase/componet/auth"
	"apiserver/internal/usecase/componet/auth/credential"
	"apiserver/internal/usecase/pool"
	"bytes"
	"common/cst"
	"common/util"
	"common/vkit"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/gin-gonic/gin"
	pb "go.etcd.io/etcd/api/v3/etcdserverpb"
	mvccpb "go.etcd.io/etcd/api/v3/mvccpb"
	clientv3 "go.etcd.io/etcd/client/v3"
)

// kv7 is etcd
type kv7 struct {
	clientv3.KV
	mu   sync.Mutex
	m    map[string]string
	fail bool
	puts int
}

func (k *kv7) Get(_ context.Context, key string, _ ...clientv3.OpOption) (*clientv3.GetResponse, error) {
	k.mu.Lock()
	defer k.mu.Unlock()
	if k.fail {
		return nil, errors.New("etcd is not available")
	}
	res := &clientv3.GetResponse{Header: &pb.ResponseHeader{}}
	if v, ok := k.m[key]; ok {
		res.Kvs = append(res.Kvs, &mvccpb.KeyValue{Key: []byte(key), Value: []byte(v)})
	}
	return res, nil
}

func (k *kv7) Put(_ context.Context, key, val string, _ ...clientv3.OpOption) (*clientv3.PutResponse, error) {
	k.mu.Lock()
	defer k.mu.Unlock()
	k.puts++
	k.m[key] = val
	return &clientv3.PutResponse{Header: &pb.ResponseHeader{}}, nil
}

func enc7(usr, pwd string) string {
	bt, err := util.EncodeMsgp(&credential.AdminCredential{Username: usr, Password: pwd})
	if err != nil {
		panic(err)
	}
	return string(bt)
}

// served is what a handler was asked to do
type served struct {
	bucket, name string
	version      *int32
}

type rec7 struct {
	mu  sync.Mutex
	ran []served
}

func (r *rec7) add(bucket, name string, v *int32) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.ran = append(r.ran, served{bucket, name, v})
}

var errRan = errors.New("handler ran")

func (r *rec7) SaveMetadata(d *entity.Metadata) (int32, error) {
	r.add(d.Bucket, d.Name, nil)
	return 0, errRan
}
func (r *rec7) AddVersion(n, b string, _ *entity.Version) (int32, error) {
	r.add(b, n, nil)
	return 0, errRan
}
func (r *rec7) UpdateVersion(n, b string, _ *entity.Version) error { r.add(b, n, nil); return errRan }
func (r *rec7) GetVersion(n, b string, v int32) (*entity.Version, error) {
	r.add(b, n, &v)
	return nil, errRan
}
func (r *rec7) GetMetadata(n, b string, v int32, _ bool) (*entity.Metadata, error) {
	r.add(b, n, &v)
	return nil, errRan
}
func (r *rec7) RemoveVersion(n, b string, v int32) error { r.add(b, n, &v); return errRan }
func (r *rec7) UniqueHash(string, entity.ObjectStrategy, int, int, bool) string {
	return "h"
}
func (r *rec7) LocateObject(string, int) ([]string, bool) { return nil, false }
func (r *rec7) StoreObject(q *entity.PutReq, md *entity.Metadata) (int32, error) {
	r.add(md.Bucket, md.Name, nil)
	return 0, errRan
}
func (r *rec7) GetObject(*entity.Metadata, *entity.Version) (io.ReadSeekCloser, error) {
	return nil, errRan
}

type bucket7 struct{ *rec7 }

func (b bucket7) Get(n string) (*entity.Bucket, error) { b.add("*", n, nil); return nil, errRan }
func (b bucket7) Update(k *entity.Bucket) error        { b.add("*", k.Name, nil); return errRan }
func (b bucket7) Create(k *entity.Bucket) error        { b.add("*", k.Name, nil); return errRan }
func (b bucket7) Delete(n string) error                { b.add("*", n, nil); return errRan }

// callback is the server asked by the callback mechanism
type callback struct {
	mu      sync.Mutex
	verdict string
	asked   []asked
}

type asked struct {
	query string
	tok   map[string]any
}

func (cb *callback) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	cb.mu.Lock()
	defer cb.mu.Unlock()
	bt, _ := io.ReadAll(r.Body)
	a := asked{query: r.URL.RawQuery}
	if json.Unmarshal(bt, &a.tok) != nil || r.Method != "POST" {
		w.WriteHeader(400)
		return
	}
	cb.asked = append(cb.asked, a)
	switch cb.verdict {
	case "abort":
		panic(http.ErrAbortHandler)
	case "200":
	case "200false":
		io.WriteString(w, `{"success":false}`)
	case "201":
		w.WriteHeader(201)
	case "204":
		w.WriteHeader(204)
	case "304":
		w.WriteHeader(304)
	case "400":
		w.WriteHeader(400)
		io.WriteString(w, `{"message":`)
	case "401":
		w.WriteHeader(401)
		io.WriteString(w, `{"message":"no"}`)
	case "403":
		w.WriteHeader(403)
		io.WriteString(w, `[1]`)
	case "500":
		w.WriteHeader(500)
		io.WriteString(w, `{}`)
	}
}

type route7 struct {
	method, path, name string
	// how the handler shows that it ran
	ran    string // "rec", "200", "servers", "page"
	header map[string]string
	body   string
	needs  bool // needs the header Bucket
}

var digest7 = strings.Repeat("ab", 32)

func routes7(token string) []route7 {
	tok := "/v1/big/" + url.PathEscape(token)
	return []route7{
		{method: "GET", path: "/v1/objects/n", name: "n", ran: "rec", needs: true},
		{method: "GET", path: "/v1/objects/n?version=3", name: "n", ran: "rec", needs: true},
		{method: "PUT", path: "/v1/objects/a%2Fb", name: "a%2Fb", ran: "rec", body: "x", header: map[string]string{"Digest": digest7}, needs: true},
		{method: "POST", path: "/v1/big/n", name: "n", ran: "rec", header: map[string]string{"Digest": digest7, "Size": "10"}, needs: true},
		{method: "HEAD", path: tok, ran: "servers"},
		{method: "PATCH", path: tok, ran: "servers", body: "x", header: map[string]string{"Range": "bytes=0-"}},
		{method: "GET", path: "/v1/metadata/n?version=2", name: "n", ran: "rec", needs: true},
		{method: "GET", path: "/v1/metadata/n/versions", name: "n", ran: "page"},
		{method: "GET", path: "/v1/security/check", ran: "200"},
		{method: "POST", path: "/v1/bucket", ran: "rec", body: `{"name":"new"}`, header: map[string]string{"Content-Type": "application/json"}},
		{method: "GET", path: "/v1/bucket/n", name: "n", ran: "rec"},
		{method: "PUT", path: "/v1/bucket/n", name: "n", ran: "rec", body: `{}`, header: map[string]string{"Content-Type": "application/json"}},
		{method: "DELETE", path: "/v1/bucket/n", name: "n", ran: "rec"},
	}
}

type stored7 struct {
	name string
	val  string
	ok   bool
	usr  string
	pwd  string
	fail bool
}

func stores7() []stored7 {
	good := enc7("admin", "pa:ss")
	return []stored7{
		{name: "admin", val: good, ok: true, usr: "admin", pwd: "pa:ss"},
		{name: "none"},
		{name: "malformed", val: "\xff\x00"},
		{name: "cut", val: good[:len(good)-3]},
		{name: "down", val: good, fail: true},
		{name: "other", val: enc7("Admin", "pa"), ok: true, usr: "Admin", pwd: "pa"},
	}
}

func basic7(s string) string { return "Basic " + base64.StdEncoding.EncodeToString([]byte(s)) }

type authz7 struct {
	name, head string
	ok         bool // is a well formed user and password
	usr, pwd   string
}

func authzs7() []authz7 {
	long := strings.Repeat("x", 10000)
	return []authz7{
		{name: "none"},
		{name: "right", head: basic7("admin:pa:ss"), ok: true, usr: "admin", pwd: "pa:ss"},
		{name: "lower", head: "basic" + basic7("admin:pa:ss")[5:], ok: true, usr: "admin", pwd: "pa:ss"},
		{name: "part", head: basic7("admin:pa"), ok: true, usr: "admin", pwd: "pa"},
		{name: "other", head: basic7("Admin:pa"), ok: true, usr: "Admin", pwd: "pa"},
		{name: "nopwd", head: basic7("admin:"), ok: true, usr: "admin"},
		{name: "empty", head: basic7(":"), ok: true},
		{name: "nouser", head: basic7(":pa:ss"), ok: true, pwd: "pa:ss"},
		{name: "swapped", head: basic7("pa:ss:admin"), ok: true, usr: "pa", pwd: "ss:admin"},
		{name: "nocolon", head: basic7("admin")},
		{name: "zero", head: basic7("admin\x00:pa:ss"), ok: true, usr: "admin\x00", pwd: "pa:ss"},
		{name: "long", head: basic7("admin:" + long), ok: true, usr: "admin", pwd: long},
		{name: "base64", head: "Basic !!!"},
		{name: "cut", head: "Basic"},
		{name: "bearer", head: "Bearer" + basic7("admin:pa:ss")[5:]},
	}
}

type env7 struct {
	c       *vkit.Ctx
	rec     *rec7
	cb      *callback
	kv      *kv7
	url     string
	routes  []route7
	servers *int
	smu     *sync.Mutex
}

func (e *env7) handler(enable, cbOn, pwOn bool) http.Handler {
	pool.Config.Auth = auth.Config{
		Enable:   enable,
		Callback: auth.CallbackConfig{Enable: cbOn, Url: e.url, Params: []string{"sig", "X-User"}},
		Password: auth.PasswordConfig{Enable: pwOn},
	}
	pool.Etcd = &clientv3.Client{KV: e.kv}
	return httpapi.NewHttpServer("0", e.rec, e.rec, bucket7{e.rec}).Handler
}

// one request, returns what is wrong
func (e *env7) one(h http.Handler, enable, cbOn, pwOn bool, st stored7, az authz7, verdict, host, bucket string, rt route7) string {
	e.kv.mu.Lock()
	e.kv.fail = st.fail
	delete(e.kv.m, cst.EtcdPrefix.ApiCredential)
	if st.val != "" {
		e.kv.m[cst.EtcdPrefix.ApiCredential] = st.val
	}
	e.kv.mu.Unlock()
	e.cb.mu.Lock()
	e.cb.verdict, e.cb.asked = verdict, nil
	e.cb.mu.Unlock()
	e.rec.mu.Lock()
	e.rec.ran = nil
	e.rec.mu.Unlock()
	e.smu.Lock()
	*e.servers = 0
	e.smu.Unlock()
	path := rt.path
	if strings.Contains(path, "?") {
		path += "&sig=s1&sig=s%202"
	} else {
		path += "?sig=s1&sig=s%202"
	}
	r := httptest.NewRequest(rt.method, path, strings.NewReader(rt.body))
	r.Host = host
	for k, v := range rt.header {
		r.Header.Set(k, v)
	}
	r.Header.Set("X-User", "u&=x")
	if bucket != "" {
		r.Header.Set("Bucket", bucket)
	}
	if az.head != "" {
		r.Header.Set("Authorization", az.head)
	}
	w := httptest.NewRecorder()
	h.ServeHTTP(w, r)
	// oracle
	idx := strings.IndexByte(host, '.')
	hasBucket := bucket != "" || idx > 0
	byCallback := cbOn && hasBucket && strings.HasPrefix(verdict, "200")
	byPassword := pwOn && st.ok && !st.fail && az.ok && az.usr == st.usr && az.pwd == st.pwd
	accept := !enable || byCallback || byPassword
	ran := false
	body := w.Body.String()
	switch rt.ran {
	case "rec":
		ran = len(e.rec.ran) > 0
		if !ran && rt.needs && bucket == "" {
			// the handler itself refuses
			ran = w.Code == 400 && strings.Contains(body, "Bucket") && !strings.Contains(body, "Host")
		}
	case "200":
		ran = w.Code == 200
	case "servers":
		e.smu.Lock()
		ran = *e.servers > 0
		e.smu.Unlock()
	case "page":
		ran = strings.Contains(body, "Page")
	}
	if strings.Contains(body, "panic") {
		return "panic"
	}
	if ran != accept {
		return fmt.Sprintf("served=%v, but accepted=%v (status %d %s)", ran, accept, w.Code, body)
	}
	if !accept && (w.Code < 400 || len(e.rec.ran) > 0 || *e.servers > 0) {
		return fmt.Sprintf("refused with status %d, handler ran %v", w.Code, e.rec.ran)
	}
	e.cb.mu.Lock()
	defer e.cb.mu.Unlock()
	if (!enable || !cbOn || !hasBucket) != (len(e.cb.asked) == 0) || len(e.cb.asked) > 1 && verdict != "abort" {
		return fmt.Sprintf("callback is asked %d times", len(e.cb.asked))
	}
	for _, a := range e.cb.asked {
		if q, err := url.ParseQuery(a.query); err != nil || !reflect.DeepEqual(q, url.Values{"sig": {"s1", "s 2"}, "X-User": {"u&=x"}}) {
			return fmt.Sprintf("callback got parameters %s", a.query)
		}
		if a.tok["method"] != rt.method || a.tok["file_name"] != rt.name {
			return fmt.Sprintf("callback is asked about %v", a.tok)
		}
		if bucket == "" && a.tok["bucket"] != host[:idx] {
			return fmt.Sprintf("callback is asked about %v", a.tok)
		}
		if bucket != "" && a.tok["bucket"] != bucket {
			return fmt.Sprintf("callback is asked about %v, but %q is served", a.tok, bucket)
		}
		if !byCallback || !accept {
			continue
		}
		for _, s := range e.rec.ran {
			if s.bucket != "*" && (s.bucket != a.tok["bucket"] || s.name != a.tok["file_name"]) {
				return fmt.Sprintf("callback allows %v, but %v is served", a.tok, s)
			}
			if s.version != nil && strings.Contains(rt.path, "version") && float64(*s.version) != a.tok["version"] {
				return fmt.Sprintf("callback allows %v, but version %d is served", a.tok, *s.version)
			}
		}
	}
	return ""
}

type token7 struct {
	Compress                   bool
	Size                       int64
	Name, Hash, Digest, Bucket string
	Servers, Ids               []string
	Config                     *config.RsConfig
}

func TestVerifA07(t *testing.T) {
	vkit.Run(t, "A07", func(c *vkit.Ctx) {
		gin.SetMode(gin.ReleaseMode)
		e := &env7{c: c, rec: &rec7{}, cb: &callback{}, kv: &kv7{m: map[string]string{}}, servers: new(int), smu: &sync.Mutex{}}
		cb := httptest.NewServer(e.cb)
		defer cb.Close()
		e.url = cb.URL
		ds := httptest.NewServer(util.H2CHandler(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			e.smu.Lock()
			*e.servers++
			e.smu.Unlock()
			w.WriteHeader(404)
		}), http.NotFoundHandler()))
		defer ds.Close()
		addr := strings.TrimPrefix(ds.URL, "http://")
		rs := &config.RsConfig{DataShards: 1, ParityShards: 1, BlockPerShard: 8}
		e.routes = routes7(base64.StdEncoding.EncodeToString(util.GobEncode(&token7{Size: 10, Name: "n", Hash: "h", Digest: digest7, Bucket: "b",
			Servers: []string{addr, addr}, Ids: []string{"1", "2"}, Config: rs})))
		pool.Config = &config.Config{}
		n := 0
		for _, cfg := range []int{0, 1, 2, 3, 4, 5, 6, 7} {
			enable, cbOn, pwOn := cfg&1 > 0, cfg&2 > 0, cfg&4 > 0
			h := e.handler(enable, cbOn, pwOn)
			sts, verdicts := stores7(), []string{"200", "200false", "201", "204", "304", "400", "401", "403", "500", "abort"}
			if !pwOn || !enable {
				sts = sts[:1]
			}
			if !cbOn || !enable {
				verdicts = verdicts[:1]
			}
			for _, st := range sts {
				for _, az := range authzs7() {
					for _, verdict := range verdicts {
						for _, host := range []string{"localhost", "127.0.0.1:8080", "bkt.example.com", ".x"} {
							for _, bucket := range []string{"", "b", "bkt", "b/../c\"x"} {
								if c.Violated() || c.Expired() {
									return
								}
								if n++; !c.Mine(n) {
									continue
								}
								for k, rt := range e.routes {
									what := fmt.Sprintf("enable=%v callback=%v(%s) password=%v(%s) authorization=%s host=%s bucket=%q %s %s",
										enable, cbOn, verdict, pwOn, st.name, az.name, host, bucket, rt.method, strings.Split(rt.path, "?")[0])
									if len(what) > 300 {
										what = what[:300]
									}
									c.Cur("%s", what)
									c.Eval(fmt.Sprint(what, k))
									c.Transition()
									if m := e.one(h, enable, cbOn, pwOn, st, az, verdict, host, bucket, rt); m != "" {
										c.Fail("request", func() bool { return e.one(h, enable, cbOn, pwOn, st, az, verdict, host, bucket, rt) != "" }, "%s: %s", what, m)
									}
								}
							}
						}
					}
				}
				c.State(fmt.Sprint(cfg, st.name))
			}
		}
		if c.Mine(0) {
			e.open(c)
			e.start(c)
			e.history(c)
		}
	})
}

// open: what is not protected reveals nothing
func (e *env7) open(c *vkit.Ctx) {
	e.handler(true, true, true)
	pool.Config.Auth.Password.Username, pool.Config.Auth.Password.Password = "SECRET1", "SECRET2"
	pool.Config.Etcd.Username, pool.Config.Etcd.Password = "SECRET3", "SECRET4"
	pool.Config.Log.Email.Password = "SECRET5"
	h := httpapi.NewHttpServer("0", e.rec, e.rec, bucket7{e.rec}).Handler
	for _, p := range []string{"/ping", "/config"} {
		for i := 0; i < 2; i++ {
			w := httptest.NewRecorder()
			h.ServeHTTP(w, httptest.NewRequest("GET", p, nil))
			c.Eval("open " + p)
			if w.Code != 200 || bytes.Contains(w.Body.Bytes(), []byte("SECRET")) {
				c.Fail("open", nil, "GET %s: %d %s", p, w.Code, w.Body)
			}
		}
	}
	cf := pool.Config
	if fmt.Sprint(cf.Auth.Password.Username, cf.Auth.Password.Password, cf.Etcd.Username, cf.Etcd.Password, cf.Log.Email.Password) != "SECRET1SECRET2SECRET3SECRET4SECRET5" {
		c.Fail("open", nil, "showing the configuration changes it: %+v", cf)
	}
	pool.Config = &config.Config{}
}

// start: the configured credential is stored only if there is none
func (e *env7) start(c *vkit.Ctx) {
	for _, exists := range []bool{false, true} {
		for _, fail := range []bool{false, true} {
			for _, on := range []bool{false, true} {
				for _, usr := range []string{"", "cu"} {
					for _, pwd := range []string{"", "cp"} {
						kv := &kv7{m: map[string]string{}, fail: fail}
						if exists {
							kv.m[cst.EtcdPrefix.ApiCredential] = enc7("a", "b")
						}
						auth.NewPasswordValidator(kv, &auth.PasswordConfig{Enable: on, Username: usr, Password: pwd})
						what := fmt.Sprintf("start: enabled=%v credential exists=%v, etcd fails=%v, configured %q:%q", on, exists, fail, usr, pwd)
						c.Eval(what)
						want := ""
						if exists {
							want = enc7("a", "b")
						} else if on && !fail && usr != "" && pwd != "" {
							want = enc7(usr, pwd)
						}
						if got := kv.m[cst.EtcdPrefix.ApiCredential]; got != want {
							c.Fail("start", nil, "%s: then the credential is %q", what, got)
						}
					}
				}
			}
		}
	}
}

// history: changes of the credential take effect with the next request
func (e *env7) history(c *vkit.Ctx) {
	sts := stores7()
	var azs []authz7
	for _, az := range authzs7() {
		if az.name == "right" || az.name == "other" || az.name == "empty" {
			azs = append(azs, az)
		}
	}
	h := e.handler(true, false, true)
	var names []string
	for _, s := range sts {
		names = append(names, s.name)
	}
	sort.Strings(names)
	var walk func(hist []stored7, what string)
	walk = func(hist []stored7, what string) {
		if c.Violated() {
			return
		}
		if len(hist) > 0 {
			for _, az := range azs {
				st := hist[len(hist)-1]
				w := fmt.Sprintf("credentials%s, request with %s", what, az.name)
				c.Cur("%s", w)
				c.Eval(w)
				c.Transition()
				if m := e.one(h, true, false, true, st, az, "200", "localhost", "b", e.routes[0]); m != "" {
					c.Fail("history", nil, "%s: %s", w, m)
				}
			}
		}
		if len(hist) == c.N(3, 5) {
			return
		}
		for _, s := range sts {
			walk(append(append([]stored7(nil), hist...), s), what+" "+s.name)
		}
	}
	walk(nil, "")
}
