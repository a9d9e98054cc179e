package objkit_test

import (
	"common/datasize"
	"common/vkit"
	"common/vsched"
	"fmt"
	"objectserver/internal/objkit"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
)

// shared by O04 and O05: histories and schedules of changes of shards

var seq4 int

func node4(dir string, disks int) *objkit.Node {
	seq4++
	return objkit.Open(filepath.Join(dir, fmt.Sprintf("n%d", seq4)), objkit.Options{Disks: disks, MaxItem: 10 * datasize.KB, MemIndex: true})
}

type world4 struct {
	n      *objkit.Node
	loc    *objkit.Locator
	c      *vkit.Ctx
	data   [2][]byte
	has    [2]bool
	seen   [2]bool // known to the index for sure
	prefer int
	log    []string
}

var names4 = [2]string{"x.0", "y,%2C.12"}

func url4(name string) string { return strings.ReplaceAll(name, "%", "%25") }

func (w *world4) fail(format string, a ...any) string {
	return strings.Join(w.log, ", ") + ": " + fmt.Sprintf(format, a...)
}

type op4 struct {
	name string
	do   func(w *world4) string
}

func ops4() (ops []op4) {
	for i := 0; i < 2; i++ {
		i := i
		name := url4(names4[i])
		add := func(n string, f func(w *world4) string) {
			ops = append(ops, op4{fmt.Sprintf("%s %c", n, 'X'+i), f})
		}
		add("PUT", func(w *world4) string {
			if r := w.n.Put(name, objkit.NewBody(w.data[i]), i == 1); r.Code != 200 {
				return w.fail("answers %d %s", r.Code, r.Body)
			}
			w.has[i], w.seen[i] = true, w.seen[i] || !w.has[i]
			return ""
		})
		add("upload and commit", func(w *world4) string {
			id, r := w.n.Post(name, int64(len(w.data[i])))
			if r.Code != 200 {
				return w.fail("POST answers %d", r.Code)
			}
			if r = w.n.Patch(id, objkit.NewBody(w.data[i])); r.Code != 200 {
				return w.fail("PATCH answers %d", r.Code)
			}
			if r = w.n.Commit(id, i == 1); r.Code != 200 {
				return w.fail("commit answers %d", r.Code)
			}
			w.has[i], w.seen[i] = true, w.seen[i] || !w.has[i]
			return ""
		})
		add("broken PUT", func(w *world4) string {
			b := objkit.NewBody(w.data[i])
			b.Data, b.Err = b.Data[:len(b.Data)/2], objkit.ErrBroken
			w.n.Put(name, b, i == 1)
			return ""
		})
		add("DELETE", func(w *world4) string {
			if r := w.n.Do("DELETE", "/objects/"+name, nil, nil); r.Code/100 != 2 {
				return w.fail("answers %d", r.Code)
			}
			w.has[i], w.seen[i] = false, false
			return ""
		})
		add("HEAD", func(w *world4) string {
			if r := w.n.Do("HEAD", "/objects/"+name, nil, nil); (r.Code == 200) != w.has[i] {
				return w.fail("answers %d", r.Code)
			}
			return ""
		})
	}
	ops = append(ops, op4{"aborted upload", func(w *world4) string {
		id, r := w.n.Post("x.0", int64(len(w.data[0])))
		if r.Code != 200 {
			return w.fail("POST answers %d", r.Code)
		}
		if r = w.n.Patch(id, objkit.NewBody(w.data[0])); r.Code != 200 {
			return w.fail("PATCH answers %d", r.Code)
		}
		if r = w.n.Abort(id); r.Code/100 != 2 {
			return w.fail("abort answers %d", r.Code)
		}
		return ""
	}}, op4{"other disk", func(w *world4) string {
		w.prefer = 1 - w.prefer
		w.n.Prefer(w.prefer)
		return ""
	}}, op4{"drop cache", func(w *world4) string { w.n.DropCache(); return "" }},
		op4{"restart", func(w *world4) string { w.n.Restart(); return "" }},
		op4{"restart without index", func(w *world4) string {
			w.n.LoseIndex()
			w.n.Restart()
			w.seen = [2]bool{}
			return ""
		}})
	return
}

// index4 is the verdict of O04
func index4(w *world4) string {
	files := w.n.Files()
	listed := w.n.Listed()
	if w.loc != nil {
		for i, name := range names4 {
			w.loc.Ask(name + "#resp/" + fmt.Sprint(i))
		}
		w.loc.Ask("z.0#resp/z")
		synctest.Wait()
		got := w.loc.Answers()
		for i, name := range names4 {
			want := ""
			if w.has[i] {
				want = "127.0.0.1:1#" + name[strings.LastIndexByte(name, '.')+1:]
			}
			if a := got["resp/"+fmt.Sprint(i)]; a != want {
				return w.fail("asked for the location of %s it answers %q instead of %q", name, a, want)
			}
			delete(got, "resp/"+fmt.Sprint(i))
		}
		if len(got) > 0 {
			return w.fail("answers nobody asked for: %v", got)
		}
	}
	total := 0
	for i, name := range names4 {
		if (len(files[name]) == 1) != w.has[i] || len(files[name]) > 1 {
			return w.fail("shard %s is stored: %v, but has %d files", name, w.has[i], len(files[name]))
		}
		if w.has[i] {
			total++
			p := w.n.Path(files[name][0], name)
			if listed[p] > 1 || w.seen[i] && listed[p] != 1 {
				return w.fail("%s is listed %d times: %v", p, listed[p], listed)
			}
			delete(listed, p)
		}
		r := w.n.Do("HEAD", "/objects/"+url4(name), nil, nil)
		if (r.Code == 200) != w.has[i] {
			return w.fail("HEAD of %s answers %d", name, r.Code)
		}
		r = w.n.Get(url4(name), 0, int64(len(w.data[i])), i == 1, false, false)
		if (r.Code == 200) != w.has[i] || w.has[i] && objkit.Diff(w.data[i], r.Body) != "" {
			return w.fail("GET of %s answers %d with %d bytes", name, r.Code, len(r.Body))
		}
	}
	if len(listed) > 0 {
		return w.fail("listed without being there: %v", listed)
	}
	if len(files) != total {
		return w.fail("files that are no shards: %v", files)
	}
	return ""
}

// capacity4 is the verdict of O05
func capacity4(w *world4) string {
	want, got := w.n.Bytes(), w.n.Capacity()
	if want != got {
		return w.fail("%d bytes are stored, %d reported", want, got)
	}
	return ""
}

func histories4(t *testing.T, c *vkit.Ctx, verdict func(w *world4) string, locate bool) {
	ops := ops4()
	depth := c.N(4, 5)
	item := 0
	dir := c.Scratch("hist")
	run := func(h []int) (msg string, end *world4) {
		vkit.Bubble(t, func(t *testing.T) {
			w := &world4{n: node4(dir, 2), c: c}
			end = w
			defer w.n.Close()
			if locate {
				w.loc = w.n.Locator()
				defer w.loc.Close()
			}
			w.data = [2][]byte{objkit.Content(5000, 3), objkit.Content(9000, 4)}
			for _, i := range h {
				w.log = append(w.log, ops[i].name)
				c.Transition()
				if msg = ops[i].do(w); msg != "" {
					return
				}
			}
			w.log = append(w.log, "(at the end)")
			msg = verdict(w)
		})
		return
	}
	var rec func(h []int)
	rec = func(h []int) {
		if len(h) == 2 {
			if item++; !c.Mine(item) {
				return
			}
		}
		if c.Expired() {
			return
		}
		if len(h) == depth {
			c.Cur("history %v", h)
			m, w := run(h)
			c.Eval(fmt.Sprint(h))
			c.State(fmt.Sprint(w.has, w.seen, w.prefer, h[len(h)-1]))
			c.Outcome(fmt.Sprint("stored ", w.has))
			if m != "" {
				c.Fail(fmt.Sprintf("history %v", h), func() bool { m, _ := run(h); return m != "" }, "%s", m)
				return
			}
			c.Validated()
			return
		}
		for i := range ops {
			// nothing to delete, break or forget yet
			if len(h) == 0 && !strings.HasPrefix(ops[i].name, "PUT") && !strings.HasPrefix(ops[i].name, "upload") && ops[i].name != "other disk" {
				continue
			}
			rec(append(h[:len(h):len(h)], i))
		}
	}
	rec(nil)
}

// schedules4: all schedules of small sets of requests for one shard
func schedules4(t *testing.T, c *vkit.Ctx, verdict func(w *world4) string) {
	type actor struct {
		name string
		run  func(w *world4, note func(string, ...any))
	}
	up := func(w *world4, body *objkit.Body, note func(string, ...any)) {
		r := w.n.Put("x.0", body, false)
		note("%d", r.Code)
	}
	actors := map[string]actor{
		"PUT": {"PUT", func(w *world4, note func(string, ...any)) { up(w, objkit.NewBody(w.data[0]), note) }},
		"BROKEN": {"BROKEN", func(w *world4, note func(string, ...any)) {
			b := objkit.NewBody(w.data[0])
			b.Data, b.Err = b.Data[:100], objkit.ErrBroken
			up(w, b, note)
		}},
		"COMMIT": {"COMMIT", func(w *world4, note func(string, ...any)) {
			note("%d", w.n.Commit(w.log[0], false).Code)
		}},
		"ABORT": {"ABORT", func(w *world4, note func(string, ...any)) { note("%d", w.n.Abort(w.log[0]).Code) }},
		"APPEND": {"APPEND", func(w *world4, note func(string, ...any)) {
			note("%d", w.n.Patch(w.log[0], objkit.NewBody([]byte("more"))).Code)
		}},
		"DELETE": {"DELETE", func(w *world4, note func(string, ...any)) {
			note("%d", w.n.Do("DELETE", "/objects/x.0", nil, nil).Code)
		}},
		"HEAD": {"HEAD", func(w *world4, note func(string, ...any)) {
			note("%d", w.n.Do("HEAD", "/objects/x.0", nil, nil).Code)
		}},
		"GET": {"GET", func(w *world4, note func(string, ...any)) {
			r := w.n.Get("x.0", 0, int64(len(w.data[0])), false, false, false)
			if r.Code == 200 && objkit.Diff(w.data[0], r.Body) != "" {
				note("wrong: %s", objkit.Diff(w.data[0], r.Body))
				return
			}
			note("%d", r.Code)
		}},
	}
	var sets [][]string
	keys := []string{"PUT", "COMMIT", "DELETE", "HEAD", "GET", "BROKEN", "ABORT", "APPEND"}
	for i, a := range keys {
		for _, b := range keys[i:] {
			if (a == "HEAD" || a == "GET") && (b == "HEAD" || b == "GET" || b == "BROKEN" || b == "ABORT" || b == "APPEND") {
				continue
			}
			sets = append(sets, []string{a, b})
		}
	}
	sets = append(sets, []string{"PUT", "DELETE", "GET"}, []string{"COMMIT", "PUT", "DELETE"}, []string{"PUT", "DELETE", "HEAD"}, []string{"PUT", "PUT", "DELETE"})
	dir := c.Scratch("sched")
	k := 0
	for _, set := range sets {
		for _, present := range []string{"absent", "present", "unmarked"} {
			if k++; !c.Mine(k) {
				continue
			}
			set, present := set, present
			var w *world4
			var notes []string
			var verd string
			scen := func(x *vsched.Exec) {
				w = &world4{n: node4(dir, 2), c: c}
				w.data = [2][]byte{objkit.Content(5000, 3), objkit.Content(9000, 4)}
				notes, verd = make([]string, len(set)), ""
				if present != "absent" {
					w.n.Put("x.0", objkit.NewBody(w.data[0]), false)
					w.n.Prefer(1)
					if present == "unmarked" {
						w.n.DropCache()
					}
				}
				id, _ := w.n.Post("x.0", int64(len(w.data[0])))
				w.n.Patch(id, objkit.NewBody(w.data[0]))
				w.log = []string{id}
				x.Cleanup(func() { w.n.Close() })
				for i, a := range set {
					i, a := i, actors[a]
					x.Go(a.name, func() {
						a.run(w, func(f string, v ...any) { notes[i] = fmt.Sprintf(f, v...) })
					})
				}
				x.After(func() {
					verd = sched4(w, set, notes, present, verdict)
				})
			}
			c.Cur("%v %s", set, present)
			r := vsched.Check(t, c, fmt.Sprintf("%v, shard %s", set, present), "", vsched.Opts{MaxDev: c.N(1, 2)}, scen, func(x *vsched.Exec) string {
				c.Outcome(strings.Join(notes, ","))
				return verd
			})
			_ = r
			if c.Expired() {
				return
			}
		}
	}
}

// sched4 judges the end of a schedule
func sched4(w *world4, set, notes []string, present string, verdict func(w *world4) string) string {
	count := map[string]int{}
	for i, a := range set {
		count[a]++
		n := notes[i]
		if strings.HasPrefix(n, "wrong") {
			return fmt.Sprintf("%s reads %s", a, n)
		}
		ok := n == "200" || n == "204"
		switch a {
		case "PUT", "DELETE":
			if !ok {
				return fmt.Sprintf("%s answers %s", a, n)
			}
			count[a+"ok"]++
		case "COMMIT":
			if ok {
				count["PUTok"]++
			} else if len(set) == 2 && set[0] != set[1] && set[1] != "ABORT" && set[1] != "APPEND" {
				return fmt.Sprintf("%s answers %s", a, n)
			}
		case "BROKEN":
			if ok && present == "absent" && count["PUT"]+count["COMMIT"] == 0 {
				return "the broken upload is acknowledged"
			}
		}
	}
	id := w.log[0]
	// the upload that is still open must not count
	w.n.Abort(id)
	w.log = []string{fmt.Sprintf("%v answer %v, in the end", set, notes)}
	files := len(w.n.Files()["x.0"])
	w.has = [2]bool{files > 0}
	w.seen = w.has
	stored := present != "absent" || count["PUTok"] > 0
	switch {
	case count["DELETE"] == 0 && stored != (files > 0):
		return w.fail("%d files of the shard", files)
	case count["DELETE"] > 0 && count["PUTok"] == 0 && files > 0:
		return w.fail("the deleted shard has %d files", files)
	}
	// one acknowledged upload of two is enough, but one must be
	if count["COMMIT"] == 2 && count["PUTok"] == 0 && count["APPEND"] == 0 {
		return w.fail("no commit succeeded")
	}
	return verdict(w)
}

func sorted4(m map[string]int) (r []string) {
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return
}

var _ = os.Remove
