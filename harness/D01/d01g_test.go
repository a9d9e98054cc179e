package metakit

import (
	"common/proto/msg"
	"common/vkit"
	"encoding/json"
	"fmt"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"testing"
)

// TestVerifD01Group: the listing of one metadata server is what the merge assumes
func TestVerifD01Group(t *testing.T) {
	vkit.Run(t, "D01", func(c *vkit.Ctx) {
		c.Rule("one evaluation = one listing of the real metadata server compared to the listing the merge assumes")
		OwnAll(NewKV())
		universe := []string{"b/a", "b/a/x", "b-x/a", "%d/a%s", "b.c/z", "a/b", "b/b"}
		for set := 0; set < 1<<len(universe); set++ {
			if c.Expired() || c.Violated() {
				break
			}
			func() {
				n := Open(c.Scratch(fmt.Sprint("s", set)))
				defer n.Close()
				var have []string
				var setup string
				for i, u := range universe {
					if set>>i&1 == 0 {
						continue
					}
					bucket, name, _ := strings.Cut(u, "/")
					if w := n.Call("POST", "/metadata/"+url.PathEscape(u), &msg.Metadata{Name: name, Bucket: bucket}); w.Code/100 != 2 {
						setup += fmt.Sprint(u, ": ", w.Code, w.Body)
					}
					if w := n.Call("POST", "/bucket", &msg.Bucket{Name: u}); w.Code/100 != 2 {
						setup += fmt.Sprint(u, ": ", w.Code, w.Body)
					}
					have = append(have, u)
				}
				if setup != "" {
					c.Fail("setup", nil, "%s", setup)
					return
				}
				sort.Strings(have)
				c.State(fmt.Sprint(have))
				for _, path := range []string{"/metadata/list", "/bucket/list"} {
					for _, prefix := range []string{"", "b", "b/", "b/a", "b/a/", "%d", "zz", "a/b"} {
						for _, size := range []int{1, 2, 3, 7, 10000} {
							nm := fmt.Sprintf("%v: %s prefix %q size %d", have, path, prefix, size)
							c.Cur("%s", nm)
							c.Eval(nm)
							c.Transition()
							c.Validated()
							w := n.Call("GET", fmt.Sprintf("%s?prefix=%s&page_size=%d", path, url.QueryEscape(prefix), size), nil)
							var l []msg.Metadata
							if w.Code != 200 || json.Unmarshal(w.Body.Bytes(), &l) != nil {
								c.Fail("answer", nil, "%s\nstatus %d %s", nm, w.Code, w.Body)
								return
							}
							var got, want []string
							for _, m := range l {
								if path == "/bucket/list" {
									got = append(got, m.Name)
								} else {
									got = append(got, m.Bucket+"/"+m.Name)
								}
							}
							for _, u := range have {
								if strings.HasPrefix(u, prefix) {
									want = append(want, u)
								}
							}
							total, _ := strconv.Atoi(w.Header().Get("X-Total-Count"))
							if total != len(want) {
								c.Fail("total", nil, "%s\ntotal %d, want %d", nm, total, len(want))
							}
							if len(want) > size {
								want = want[:size]
							}
							sort.Strings(got)
							if fmt.Sprint(got) != fmt.Sprint(want) {
								c.Fail("entries", nil, "%s\n%v, want %v", nm, got, want)
							}
						}
					}
				}
			}()
		}
	})
}
