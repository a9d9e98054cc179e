package objkit_test

import (
	"common/objmodel"
	"common/vkit"
	"fmt"
	"objectserver/internal/objkit"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

// TestVerifA01Conformance replays every short history of requests on a real object server and on the model the
// checks of the api server use.
func TestVerifA01Conformance(t *testing.T) {
	vkit.Run(t, "A01", func(c *vkit.Ctx) {
		c.Rule("every history of requests to a real object server answers and stores the same as the model of it")
		dir, err := os.MkdirTemp("", "verif-a01-")
		if err != nil {
			t.Fatal(err)
		}
		defer os.RemoveAll(dir)
		objkit.Warm(dir)
		n := objkit.Open(filepath.Join(dir, "n"), objkit.Options{Disks: 1})
		defer n.Close()
		type op struct{ method, kind, body, size, rng string }
		ops := []op{
			{"POST", "temp", "", "2", ""}, {"PATCH", "temp", "a", "", ""}, {"PATCH", "temp", "b", "", ""}, {"PATCH", "temp", "ab", "", ""},
			{"PUT", "temp", "", "", ""}, {"DELETE", "temp", "", "", ""}, {"GET", "temp", "", "9", ""}, {"HEAD", "temp", "", "", ""},
			{"PUT", "objects", "ab", "", ""}, {"DELETE", "objects", "", "", ""}, {"HEAD", "objects", "", "", ""}, {"GET", "objects", "", "2", "bytes=0-"}, {"GET", "objects", "", "2", "bytes=1-"},
			{"GET", "objects", "", "1", "bytes=0-"}, {"PATCH", "temp", "", "", ""}, {"POST", "temp", "", "0", ""}, {"GET", "objects", "", "9", "bytes=2-"}, {"GET", "objects", "", "9", "bytes=7-"},
		}
		depth := c.N(4, 5)
		seq := 0
		var path []int
		run := func(compress bool) string {
			seq++
			name := fmt.Sprintf("h%d.0", seq)
			m := &objmodel.Server{Objects: map[string]objmodel.Object{}, Temps: map[string]*objmodel.Temp{}}
			realID, modelID := "none", "none"
			text := ""
			for _, i := range path {
				o := ops[i]
				flag := fmt.Sprint(compress)
				rn, mn := name, name
				if o.kind == "temp" && o.method != "POST" {
					rn, mn = realID, modelID
				}
				url := "/" + o.kind + "/" + rn + "?compress=" + flag
				hd := map[string]string{}
				if o.size != "" {
					hd["Size"] = o.size
				}
				if o.rng != "" {
					hd["Range"] = o.rng
				}
				var r objkit.Resp
				if o.method == "PUT" || o.method == "PATCH" {
					r = n.Do(o.method, url, hd, objkit.NewBody([]byte(o.body)))
				} else {
					r = n.Do(o.method, url, hd, nil)
				}
				code, mh, mb := m.Do(objmodel.Request{Method: o.method, Kind: o.kind, Name: mn, Body: o.body, Size: o.size, Range: o.rng, Compress: flag})
				c.Transition()
				text += fmt.Sprintf("%s %s %q %s%s -> %d; ", o.method, o.kind, o.body, o.size, o.rng, r.Code)
				if (r.Code/100 == 2) != (code/100 == 2) || (r.Code == 404) != (code == 404) {
					return fmt.Sprintf("%sthe model answers %d", text, code)
				}
				if code/100 != 2 {
					continue
				}
				switch {
				case o.method == "POST":
					realID, modelID = string(r.Body), mb
				case o.method == "GET":
					if string(r.Body) != mb {
						return fmt.Sprintf("%sthe body is %q, of the model %q", text, r.Body, mb)
					}
				case o.method == "HEAD" && o.kind == "temp":
					if got := r.Header.Get("Size"); got != mh["Size"] {
						return fmt.Sprintf("%sthe size is %s, of the model %s", text, got, mh["Size"])
					}
				}
			}
			_, inModel := m.Objects[name]
			files := len(n.Files()[name])
			if files != 0 && !inModel || files != 1 && inModel {
				return fmt.Sprintf("%s%d files, in the model %t", text, files, inModel)
			}
			if realID != "none" {
				_ = n.Abort(realID)
			}
			_ = n.Do("DELETE", "/objects/"+name, nil, nil)
			return ""
		}
		k := 0
		var rec func()
		rec = func() {
			if c.Expired() {
				return
			}
			if len(path) > 0 && (len(path) == depth || ops[path[len(path)-1]].method != "HEAD" && ops[path[len(path)-1]].method != "GET") {
				if k++; c.Mine(k) {
					for _, compress := range []bool{false, true} {
						c.Cur("%v", path)
						c.Eval(fmt.Sprintf("%v%t", path, compress))
						if msg := run(compress); msg != "" {
							c.Fail("conformance", func() bool { return run(compress) != "" }, "compress %t: %s", compress, msg)
						} else {
							c.Validated()
						}
					}
				}
			}
			if len(path) == depth {
				return
			}
			for i, o := range ops {
				// after these nothing new is seen
				if len(path) < depth-1 && (o.method == "HEAD" || o.method == "GET") || len(path) == depth-1 && strings.Contains("POST", o.method) {
					continue
				}
				path = append(path, i)
				rec()
				path = path[:len(path)-1]
			}
		}
		rec()
	})
}
