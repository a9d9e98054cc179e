package service_test

import (
	"common/malkit"
	"common/proto/msg"
	"common/vkit"
	"encoding/json"
	"fmt"
	"io"
	"metaserver/internal/metakit"
	"net/http/httptest"
	"os"
	"sort"
	"strings"
	"testing"
	"time"
)

// metaN1 is a metadata server with two objects, their versions and two buckets
type metaN1 struct{ n *metakit.Node }

const versionN1 = `{"hash":"h9","size":10,"storeStrategy":1,"dataShards":2,"shardSize":5,"locate":["s1","s2"]}`

func openMetaN1(c *vkit.Ctx) *metaN1 {
	metakit.OwnAll(metakit.NewKV())
	dir, err := os.MkdirTemp("", "verif-n01-")
	if err != nil {
		c.T.Fatal(err)
	}
	w := &metaN1{n: metakit.Open(dir)}
	d := metakit.Direct{N: w.n}
	ok := func(s string) {
		if s != "ok" {
			panic("cannot prepare: " + s)
		}
	}
	for _, o := range []string{"b/x", "b/y"} {
		ok(d.AddMeta(o, &msg.Metadata{Name: o[2:], Bucket: "b"}))
		for i := 0; i < 3; i++ {
			_, s := d.AddVer(o, &msg.Version{Hash: fmt.Sprint("h", i), Size: 10, StoreStrategy: 1, DataShards: 2, ShardSize: 5, Locate: []string{"s1", "s2"}})
			ok(s)
		}
	}
	ok(d.AddBucket(&msg.Bucket{Name: "b", Versioning: true, VersionRemains: 3}))
	ok(d.AddBucket(&msg.Bucket{Name: "c"}))
	// an update has to be later than what it updates
	for at := time.Now().UnixMilli(); time.Now().UnixMilli() <= at; {
		time.Sleep(time.Millisecond)
	}
	return w
}

func (w *metaN1) Do(r malkit.Request) int {
	var body io.Reader
	if !r.NoBody {
		body = strings.NewReader(r.Body)
	}
	req := httptest.NewRequest(r.Method, r.Path, body)
	req.Header.Set("Content-Type", "application/json")
	for k, v := range r.Header {
		req.Header.Set(k, v)
	}
	rec := httptest.NewRecorder()
	func() {
		// the server itself recovers from a panic
		defer func() {
			if p := recover(); p != nil {
				rec.Code = 500
			}
		}()
		w.n.HTTP.ServeHTTP(rec, req)
	}()
	return rec.Code
}

func (w *metaN1) State() string {
	var l []string
	for k, v := range w.n.Dump() {
		l = append(l, fmt.Sprintf("%q: %q", k, v))
	}
	sort.Strings(l)
	return strings.Join(append(l, w.reads()), "\n")
}

// reads are what clients see
func (w *metaN1) reads() string {
	d := metakit.Direct{N: w.n}
	var l []string
	for _, o := range []string{"b/x", "b/y", "b/new"} {
		m, s := d.GetMeta(o, true)
		l = append(l, fmt.Sprintf("read %s: %s %v", o, s, show1(m)))
		for i := 0; i < 5; i++ {
			v, s := d.GetVer(o, i)
			l = append(l, fmt.Sprintf("read %s.%d: %s %v", o, i, s, show1(v)))
		}
	}
	for _, b := range []string{"b", "c", "new"} {
		v, s := d.GetBucket(b)
		l = append(l, fmt.Sprintf("read bucket %s: %s %v", b, s, show1(v)))
	}
	return strings.Join(l, "\n")
}

func show1[T any](p *T) string {
	if p == nil {
		return "nothing"
	}
	bt, err := json.Marshal(p)
	if err != nil {
		return err.Error()
	}
	return string(bt)
}

func (w *metaN1) Finish() string {
	f := metakit.Wire{N: w.n}
	if s := f.AddMeta("b/new", &msg.Metadata{Name: "new", Bucket: "b"}); s != "ok" {
		return "adding an object answers " + s
	}
	n, s := f.AddVer("b/x", &msg.Version{Hash: "h7", Size: 10, StoreStrategy: 1, DataShards: 2, ShardSize: 5, Locate: []string{"s1"}})
	if s != "ok" || n != 4 {
		return fmt.Sprintf("adding a fourth version answers %s, %d", s, n)
	}
	if v, s := f.GetVer("b/x", 4); s != "ok" || v.Hash != "h7" {
		return fmt.Sprintf("the fourth version reads as %s %v", s, show1(v))
	}
	return ""
}

func (w *metaN1) Close() {
	w.n.Close()
	_ = os.RemoveAll(w.n.Dir)
}

func TestVerifN01Meta(t *testing.T) {
	vkit.Run(t, "N01", func(c *vkit.Ctx) {
		c.Rule("a malformed request is right when it is answered with a status of 400 or more, changes no record, index or read, and everything can go on afterwards")
		num := []string{malkit.Missing, "abc", "1.5", "0x1", "99999999999999999999", "-99999999999999999999"}
		page := append([]string{"0", ""}, num...)
		flag := []string{"maybe", "2", "yes"}
		js := func(good string, more ...string) malkit.Field {
			return malkit.Field{In: "body", Name: "content", Good: good,
				Bad: append([]string{malkit.Missing, "", "{", "[]", "5", "abc", `"x"`, good[:len(good)-1], strings.Replace(good, `":`, `"`, 1)}, more...)}
		}
		// every field of the record missing, empty or of another type
		without := func(fields ...string) (res []string) {
			for _, f := range fields {
				k := strings.Split(f, ":")
				for _, old := range []string{f + ",", "," + f} {
					if strings.Contains(versionN1, old) {
						res = append(res, strings.Replace(versionN1, old, "", 1))
						break
					}
				}
				res = append(res, strings.Replace(versionN1, f, k[0]+`:{"a":1}`, 1))
			}
			return
		}
		bad := without(`"hash":"h9"`, `"size":10`, `"storeStrategy":1`, `"dataShards":2`, `"shardSize":5`, `"locate":["s1","s2"]`)
		meta := []string{`{"bucket":"b"}`, `{"name":"z"}`, `{"name":5,"bucket":"b"}`, `{"name":"z","bucket":[]}`, `{}`, `{"name":"","bucket":""}`}
		name := func(good string, unknown ...string) malkit.Field {
			return malkit.Field{In: "path", Name: "name", Good: good, Bad: unknown}
		}
		routes := func(malkit.World) []malkit.Route {
			return []malkit.Route{
				{Method: "POST", Path: "/metadata/{name}", Fields: []malkit.Field{name("b%2Fnew", "b%2Fx"), js(`{"name":"new","bucket":"b"}`, meta...)}},
				{Method: "PUT", Path: "/metadata/{name}", Fields: []malkit.Field{name("b%2Fx", "b%2Fnone"), js(`{"name":"x","bucket":"b"}`, meta...)}},
				{Method: "GET", Path: "/metadata/{name}", Fields: []malkit.Field{name("b%2Fx", "b%2Fnone"),
					{In: "query", Name: "version", Good: "1", Bad: num[1:]}, {In: "query", Name: "with_extra", Good: "true", Bad: flag}}},
				{Method: "GET", Path: "/metadata/list", Fields: []malkit.Field{{In: "query", Name: "page_size", Good: "10", Bad: append([]string{"10001"}, page...)},
					{In: "query", Name: "desc", Good: "true", Bad: flag}}},
				{Method: "POST", Path: "/metadata_version/{name}", Fields: []malkit.Field{name("b%2Fx", "b%2Fnone"), js(versionN1, bad...)}},
				{Method: "PUT", Path: "/metadata_version/{name}", Fields: []malkit.Field{name("b%2Fx", "b%2Fnone"), js(versionN1, bad...),
					{In: "query", Name: "version", Good: "2", Bad: append([]string{"9"}, num...)}}},
				{Method: "GET", Path: "/metadata_version/{name}", Fields: []malkit.Field{name("b%2Fx", "b%2Fnone"),
					{In: "query", Name: "version", Good: "2", Bad: append([]string{"9"}, num...)}}},
				{Method: "GET", Path: "/metadata_version/{name}/list", Fields: []malkit.Field{name("b%2Fx"),
					{In: "query", Name: "page", Good: "1", Bad: page}, {In: "query", Name: "page_size", Good: "2", Bad: page}}},
				{Method: "DELETE", Path: "/metadata_version/{name}", Fields: []malkit.Field{name("b%2Fx"),
					{In: "query", Name: "version", Good: "2", Bad: num}}},
				{Method: "PATCH", Path: "/version/locate", Fields: []malkit.Field{js(`{"locate":"s9","hash":"h1","locateIndex":1}`,
					`{"locate":"s9","locateIndex":1}`, `{"hash":"h1","locateIndex":1}`, `{"locate":"","hash":"h1"}`, `{"locate":"s9","hash":"h1","locateIndex":"x"}`,
					`{"locate":"s9","hash":"h1","locateIndex":-1}`, `{"locate":"s9","hash":"h1","locateIndex":2}`, `{"locate":"s9","hash":"h1","locateIndex":99}`,
					`{"locate":["s9"],"hash":"h1","locateIndex":1}`, `{"locate":"s9","hash":7,"locateIndex":1}`)}},
				{Method: "GET", Path: "/version/list", Fields: []malkit.Field{{In: "query", Name: "hash", Good: "h1", Bad: []string{malkit.Missing, ""}}}},
				{Method: "POST", Path: "/bucket", Fields: []malkit.Field{js(`{"name":"new"}`, `{}`, `{"name":""}`, `{"name":5}`, `{"name":"new","versioning":"x"}`,
					`{"name":"new","versionRemains":"x"}`, `{"name":"b"}`)}},
				{Method: "PUT", Path: "/bucket/{name}", Fields: []malkit.Field{name("b", "none"), js(`{"name":"b"}`, `{"versioning":"x"}`, `{"versionRemains":"x"}`,
					`{"versionRemains":1.5}`, `{"readonly":1}`, `{"policies":"x"}`)}},
				{Method: "GET", Path: "/bucket/{name}", Fields: []malkit.Field{name("b", "none")}},
				{Method: "GET", Path: "/bucket/list", Fields: []malkit.Field{{In: "query", Name: "page_size", Good: "10", Bad: append([]string{"10001"}, page...)}}},
			}
		}
		malkit.Check(c, "metadata server", map[string]func() malkit.World{"filled": func() malkit.World { return openMetaN1(c) }}, routes, c.N(3, 4))
	})
}
