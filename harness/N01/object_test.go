package objkit_test

import (
	"common/malkit"
	"common/vkit"
	"crypto/sha256"
	"fmt"
	"objectserver/internal/objkit"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
)

var plainN1, packedN1, uploadN1 = objkit.Content(5000, 1), objkit.Content(6000, 2), objkit.Content(9000, 3)

// worldN1 is an object server with a plain and a compressed shard and an upload that has begun
type worldN1 struct {
	n   *objkit.Node
	top string
	id  string
	at  int
}

func openN1(c *vkit.Ctx, at int, warm bool) *worldN1 {
	top, err := os.MkdirTemp("", "verif-n01-")
	if err != nil {
		c.T.Fatal(err)
	}
	w := &worldN1{n: objkit.Open(filepath.Join(top, "in", "n"), objkit.Options{Disks: 2}), top: top, at: at}
	ok := func(r objkit.Resp) {
		if r.Code/100 != 2 {
			panic(fmt.Sprint("cannot prepare: ", r.Code, string(r.Body)))
		}
	}
	ok(w.n.Put("plain.0", objkit.NewBody(plainN1), false))
	ok(w.n.Put("packed.0", objkit.NewBody(packedN1), true))
	if !warm {
		w.n.Restart()
	}
	var r objkit.Resp
	w.id, r = w.n.Post("upload.0", int64(len(uploadN1)))
	ok(r)
	ok(w.n.Patch(w.id, objkit.NewBody(uploadN1[:at])))
	return w
}

func (w *worldN1) Do(r malkit.Request) int {
	if r.NoBody {
		return w.n.Do(r.Method, r.Path, r.Header, nil).Code
	}
	b := objkit.NewBody([]byte(r.Body))
	if r.Body == "unknown length" {
		b.Length = -1
	}
	return w.n.Do(r.Method, r.Path, r.Header, b).Code
}

func (w *worldN1) State() string {
	var l []string
	_ = filepath.Walk(w.top, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			l = append(l, err.Error())
			return nil
		}
		rel, _ := filepath.Rel(w.top, p)
		if fi.Mode().IsRegular() {
			bt, _ := os.ReadFile(p)
			l = append(l, fmt.Sprintf("%s: %d bytes %x", rel, len(bt), sha256.Sum256(bt)))
		} else {
			l = append(l, rel+": "+fi.Mode().Type().String())
		}
		return nil
	})
	for p, k := range w.n.Listed() {
		if rel, err := filepath.Rel(w.top, p); err == nil {
			l = append(l, fmt.Sprintf("index: %s %d", rel, k))
		}
	}
	sort.Strings(l)
	l = append(l, fmt.Sprintf("capacity: %d", w.n.Capacity()))
	size, r := w.n.TempSize(w.id)
	l = append(l, fmt.Sprintf("upload: %d, %d bytes", r.Code, size))
	return strings.Join(l, "\n")
}

func (w *worldN1) Finish() string {
	for i := 0; i < 2; i++ {
		for name, want := range map[string][]byte{"plain.0": plainN1, "packed.0": packedN1} {
			r := w.n.Get(name, 0, int64(len(want)), strings.HasPrefix(name, "packed"), false, false)
			if r.Code != 200 {
				return fmt.Sprintf("GET of %s answers %d", name, r.Code)
			}
			if d := objkit.Diff(want, r.Body); d != "" {
				return name + " has " + d
			}
		}
	}
	if w.at < len(uploadN1) {
		if r := w.n.Patch(w.id, objkit.NewBody(uploadN1[w.at:])); r.Code != 200 {
			return fmt.Sprintf("the rest of the upload is answered %d", r.Code)
		}
	}
	if r := w.n.Commit(w.id, false); r.Code != 200 {
		return fmt.Sprintf("the commit of the upload is answered %d", r.Code)
	}
	r := w.n.Get("upload.0", 0, int64(len(uploadN1)), false, false, false)
	if r.Code != 200 {
		return fmt.Sprintf("GET of the upload answers %d", r.Code)
	}
	if d := objkit.Diff(uploadN1, r.Body); d != "" {
		return "the upload has " + d
	}
	return ""
}

func (w *worldN1) Close() {
	w.n.Close()
	_ = os.RemoveAll(w.top)
}

func TestVerifN01Object(t *testing.T) {
	vkit.Run(t, "N01", func(c *vkit.Ctx) {
		c.Rule("a malformed request is right when it is answered with a status of 400 or more, changes no file, index entry, amount of used space or upload, and everything can go on afterwards")
		worlds := map[string]func() malkit.World{
			"begun":    func() malkit.World { return openN1(c, 4096, true) },
			"complete": func() malkit.World { return openN1(c, len(uploadN1), false) },
		}
		// names which cannot be those of files, or of shards
		names := []string{".", "..", "TempInfo_1", strings.Repeat("n", 300), "a%2Fb", "..%2Fx", "a/b", "%00"}
		asked := []string{malkit.Missing, "", "abc", "1.5", "1e3", "0x10", "99999999999999999999", "0"}
		size := append([]string{"-1"}, asked...)
		flag := []string{"maybe", "2", "yes", "-1", "truee"}
		body := func(good string) malkit.Field {
			return malkit.Field{In: "body", Name: "content", Good: good, Bad: []string{malkit.Missing, "", "unknown length"}}
		}
		name := func(good string, bad ...string) malkit.Field {
			return malkit.Field{In: "path", Name: "name", Good: good, Bad: bad}
		}
		ids := []string{"TempInfo_none", "plain.0", "upload.0", "..", "a/b", "%00"}
		routes := func(mw malkit.World) []malkit.Route {
			w := mw.(*worldN1)
			rs := []malkit.Route{
				{Method: "GET", Path: "/objects/{name}", Fields: []malkit.Field{name("plain.0", append(names, "none.0")...),
					{In: "header", Name: "Size", Good: "5000", Bad: asked}, {In: "query", Name: "compress", Good: "false", Bad: flag}}},
				{Method: "GET", Path: "/objects/{name}", Fields: []malkit.Field{name("packed.0"),
					{In: "header", Name: "Size", Good: "6000", Bad: asked}, {In: "query", Name: "compress", Good: "true", Bad: flag}}},
				{Method: "PUT", Path: "/objects/{name}", Fields: []malkit.Field{name("new.0", names...), body("some content"),
					{In: "query", Name: "compress", Good: "true", Bad: flag}}},
				{Method: "HEAD", Path: "/objects/{name}", Fields: []malkit.Field{name("plain.0", append(names, "none.0")...)}},
				{Method: "DELETE", Path: "/objects/{name}", Idempotent: true, Fields: []malkit.Field{name("plain.0", append(names, "none.0")...)}},
				{Method: "POST", Path: "/temp/{name}", Fields: []malkit.Field{name("new.0"), {In: "header", Name: "Size", Good: "100", Bad: size}}},
				{Method: "PATCH", Path: "/temp/{name}", Fields: []malkit.Field{name(w.id, ids...), body("some content")}},
				{Method: "HEAD", Path: "/temp/{name}", Fields: []malkit.Field{name(w.id, ids...)}},
				{Method: "GET", Path: "/temp/{name}", Fields: []malkit.Field{name(w.id, ids...), {In: "header", Name: "Size", Good: "100", Bad: size}}},
			}
			if w.at == len(uploadN1) {
				rs = append(rs, malkit.Route{Method: "PUT", Path: "/temp/{name}", Fields: []malkit.Field{name(w.id, ids...), {In: "query", Name: "compress", Good: "true", Bad: flag}}})
			}
			return rs
		}
		malkit.Check(c, "object server", worlds, routes, c.N(3, 4))
		shut(c, names)
	})
}

// shut: whole uploads to names that are not allowed
func shut(c *vkit.Ctx, names []string) {
	if !c.Mine(0) {
		return
	}
	for _, name := range names {
		for _, compress := range []bool{false, true} {
			w := openN1(c, 4096, true)
			before := w.State()
			c.Cur("object server: upload to %q", name)
			c.Eval(fmt.Sprint("upload ", name, compress))
			r := w.n.Do("POST", "/temp/"+name, map[string]string{"Size": "12"}, nil)
			if r.Code == 200 {
				id := string(r.Body)
				w.n.Patch(id, objkit.NewBody([]byte("some content")))
				if r = w.n.Commit(id, compress); !(r.Code >= 400) {
					c.Fail("object server: upload to "+name, nil, "an upload under the name %.40q is committed with answer %d", name, r.Code)
				}
				w.n.Abort(id)
			}
			if after := w.State(); after != before {
				c.Fail("object server: upload to "+name+" effect", nil, "a refused upload under the name %.40q leaves: %s", name, malkit.Diff(before, after))
			}
			if e := w.Finish(); e != "" {
				c.Fail("object server: upload to "+name+" after", nil, "after a refused upload under the name %.40q: %s", name, e)
			}
			w.Close()
		}
	}
}
