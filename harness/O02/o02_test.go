package objkit_test

import (
	"common/datasize"
	"common/vkit"
	"fmt"
	"objectserver/internal/objkit"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"testing"
	"time"
)

var seq2 int

func node2(c *vkit.Ctx, o objkit.Options) *objkit.Node {
	seq2++
	dir, err := os.MkdirTemp("", fmt.Sprintf("verif-o02-%d-", seq2))
	if err != nil {
		c.T.Fatal(err)
	}
	if o.TTL == 0 {
		objkit.Warm(dir)
	}
	o.MaxItem = 10 * datasize.KB
	return objkit.Open(filepath.Join(dir, "n"), o)
}

func done2(n *objkit.Node) {
	n.Close()
	_ = os.RemoveAll(filepath.Dir(n.Dir))
}

func exact2(n *objkit.Node, name string, want []byte, compress bool) string {
	files := n.Files()
	r := n.Do("HEAD", "/objects/"+name, nil, nil)
	if want == nil {
		if len(files[name]) > 0 {
			return "there is a file of the shard"
		}
		if r.Code != 404 {
			return fmt.Sprintf("HEAD of the shard answers %d", r.Code)
		}
		if r = n.Get(name, 0, 100, compress, false, false); r.Code != 404 {
			return fmt.Sprintf("GET of the shard answers %d", r.Code)
		}
		return ""
	}
	if len(files[name]) != 1 {
		return fmt.Sprintf("there are %d files of the shard", len(files[name]))
	}
	if r.Code != 200 {
		return fmt.Sprintf("HEAD of the shard answers %d", r.Code)
	}
	// one byte more is asked for, so that additional ones show
	r = n.Get(name, 0, int64(len(want)+1), compress, false, false)
	if r.Code != 200 {
		return fmt.Sprintf("GET of the shard answers %d", r.Code)
	}
	if d := objkit.Diff(want, r.Body); d != "" {
		return "the shard has " + d
	}
	return ""
}

// TestVerifO02Chunks: sizes x chunkings x plain/compressed
func TestVerifO02Chunks(t *testing.T) {
	vkit.Run(t, "O02", func(c *vkit.Ctx) {
		c.Rule("an upload is right when it shows exactly the appended bytes before the commit without being visible as a shard, and becomes a shard with exactly these bytes or leaves nothing")
		sizes := []int{1, 2, 4095, 4096, 4097, 8192, 8193, 12289, 20000}
		if !c.Quick {
			sizes = append(sizes, 4094, 8191, 10240, 12287, 12288, 16384, 16385, 32768, 32769, 65537)
		}
		lens := []int{1, 2, 100, 4095, 4096, 4097, 8191, 8192, 8193, 12288}
		n := node2(c, objkit.Options{Disks: 1})
		defer func() { done2(n) }()
		k := 0
		for _, size := range sizes {
			var chunkings [][]int
			var rec func(left int, h []int)
			max := c.N(3, 4)
			rec = func(left int, h []int) {
				if left == 0 {
					chunkings = append(chunkings, h)
					return
				}
				chunkings = append(chunkings, append(h[:len(h):len(h)], left))
				if len(h)+1 == max {
					return
				}
				for _, l := range lens {
					if l < left {
						rec(left-l, append(h[:len(h):len(h)], l))
					}
				}
			}
			rec(size, nil)
			for _, ch := range chunkings {
				for _, compress := range []bool{false, true} {
					for _, piece := range []int{0, 1500} {
						if piece > 0 && c.Quick && len(ch) > 2 {
							continue
						}
						if k++; !c.Mine(k) {
							continue
						}
						if c.Expired() {
							return
						}
						if m := chunks2(c, n, fmt.Sprintf("c%d.0", k), size, ch, compress, piece); m != "" {
							c.Fail(fmt.Sprintf("chunks %v compress=%v piece=%d", ch, compress, piece), func() bool {
								done2(n)
								n = node2(c, objkit.Options{Disks: 1})
								return chunks2(c, n, "again.0", size, ch, compress, piece) != ""
							}, "chunks %v, compress %v, bodies in pieces of %d: %s", ch, compress, piece, m)
						}
					}
				}
			}
		}
	})
}

func chunks2(c *vkit.Ctx, n *objkit.Node, name string, size int, chunks []int, compress bool, piece int) string {
	c.Cur("chunks %v compress %v piece %d", chunks, compress, piece)
	c.Eval(fmt.Sprint(chunks, compress, piece))
	want := objkit.Content(size, size%11+1)
	id, r := n.Post(name, int64(size))
	if r.Code != 200 {
		return fmt.Sprintf("POST answers %d", r.Code)
	}
	done := 0
	for i, l := range chunks {
		b := objkit.NewBody(want[done : done+l])
		b.Piece = piece
		if r = n.Patch(id, b); r.Code != 200 {
			return fmt.Sprintf("PATCH %d answers %d %s", i, r.Code, r.Body)
		}
		done += l
		c.Transition()
		if m := temp2(n, id, want[:done]); m != "" {
			return fmt.Sprintf("after PATCH %d: %s", i, m)
		}
		if done < size {
			// an incomplete upload must be refused
			if r = n.Commit(id, compress); r.Code < 400 {
				return fmt.Sprintf("after PATCH %d the incomplete upload is committed: %d", i, r.Code)
			}
		}
		if m := exact2(n, name, nil, compress); m != "" {
			return fmt.Sprintf("after PATCH %d: %s", i, m)
		}
	}
	if r = n.Commit(id, compress); r.Code != 200 {
		return fmt.Sprintf("PUT answers %d %s", r.Code, r.Body)
	}
	if m := exact2(n, name, want, compress); m != "" {
		return "after the commit: " + m
	}
	if len(n.Temps()) > 0 {
		return fmt.Sprintf("left after the commit: %v", n.Temps())
	}
	if _, r = n.TempSize(id); r.Code == 200 {
		return "the upload still exists after the commit"
	}
	if r := n.Do("DELETE", "/objects/"+name, nil, nil); r.Code/100 != 2 {
		return fmt.Sprintf("DELETE answers %d", r.Code)
	}
	c.Outcome("committed")
	c.Validated()
	return ""
}

// temp2 compares an open upload with what has been appended
func temp2(n *objkit.Node, id string, want []byte) string {
	size, r := n.TempSize(id)
	if r.Code != 200 {
		return fmt.Sprintf("HEAD answers %d", r.Code)
	}
	if size != int64(len(want)) {
		return fmt.Sprintf("HEAD tells %d bytes instead of %d", size, len(want))
	}
	for _, l := range []int{len(want) + 5, len(want), (len(want) + 1) / 2} {
		if l == 0 {
			continue
		}
		r = n.TempGet(id, int64(l))
		if r.Code != 200 {
			if len(want) == 0 {
				continue
			}
			return fmt.Sprintf("GET answers %d", r.Code)
		}
		w := want
		if l < len(w) {
			w = w[:l]
		}
		if d := objkit.Diff(w, r.Body); d != "" {
			return fmt.Sprintf("GET of %d bytes: %s", l, d)
		}
	}
	return ""
}

type up2 struct {
	id    string
	state int // 0 not started, 1 open, 2 over
	n     int // appended
	bad   bool
}

type world2 struct {
	n        *objkit.Node
	c        *vkit.Ctx
	name     string
	data     []byte
	compress bool
	has      bool
	up       [2]up2
	log      []string
	restarts int
}

func (w *world2) fail(format string, a ...any) string {
	return strings.Join(w.log, ", ") + ": " + fmt.Sprintf(format, a...)
}

type op2 struct {
	name    string
	enabled func(w *world2) bool
	do      func(w *world2) string
}

// more appends l bytes of the content, broken tells how many of them arrive
func (w *world2) more(i, l int, broken int) string {
	u := &w.up[i]
	src := slices.Repeat(w.data, 8)
	if u.n+l > len(src) {
		l = len(src) - u.n
	}
	b := objkit.NewBody(src[u.n : u.n+l])
	b.Piece = 1000
	if broken >= 0 {
		b.Data, b.Err = b.Data[:broken], objkit.ErrBroken
	}
	r := w.n.Patch(u.id, b)
	if u.state == 2 {
		if r.Code < 400 {
			return w.fail("a PATCH of an upload that is over answers %d", r.Code)
		}
		return ""
	}
	if broken < 0 {
		if r.Code != 200 {
			return w.fail("PATCH answers %d %s", r.Code, r.Body)
		}
		u.n += l
	} else {
		if r.Code == 200 {
			return w.fail("a broken PATCH answers 200")
		}
		// a prefix of what arrived may be kept
		size, r := w.n.TempSize(u.id)
		if r.Code != 200 || size < int64(u.n) || size > int64(u.n+broken) {
			return w.fail("after a broken PATCH of %d bytes behind %d the upload has %d bytes (%d)", broken, u.n, size, r.Code)
		}
		u.n = int(size)
	}
	if m := temp2(w.n, u.id, src[:u.n]); m != "" {
		return w.fail("%s", m)
	}
	return ""
}

func ops2() (ops []op2) {
	for i := 0; i < 2; i++ {
		i := i
		add := func(name string, deep bool, min int, f func(w *world2, u *up2) string) {
			if i == 1 && deep {
				return
			}
			ops = append(ops, op2{fmt.Sprintf("%s %d", name, i+1), func(w *world2) bool { return (min == 0) == (w.up[i].state == 0) },
				func(w *world2) string { return f(w, &w.up[i]) }})
		}
		add("POST", false, 0, func(w *world2, u *up2) string {
			id, r := w.n.Post(w.name, int64(len(w.data)))
			if r.Code != 200 {
				return w.fail("answers %d", r.Code)
			}
			u.id, u.state = id, 1
			return ""
		})
		add("PATCH half", true, 1, func(w *world2, u *up2) string { return w.more(i, len(w.data)/2, -1) })
		add("PATCH rest", false, 1, func(w *world2, u *up2) string {
			if u.n >= len(w.data) {
				return w.more(i, 3, -1) // too much
			}
			return w.more(i, len(w.data)-u.n, -1)
		})
		add("PATCH too much", true, 1, func(w *world2, u *up2) string { return w.more(i, len(w.data)+3, -1) })
		add("broken PATCH", true, 1, func(w *world2, u *up2) string {
			l := len(w.data) - u.n
			if l < 2 {
				l = 2
			}
			return w.more(i, l, l-l/4)
		})
		add("COMMIT", false, 1, func(w *world2, u *up2) string {
			r := w.n.Commit(u.id, w.compress)
			if u.state == 2 {
				if r.Code < 400 {
					return w.fail("a commit of an upload that is over answers %d", r.Code)
				}
				return ""
			}
			if u.n != len(w.data) {
				if r.Code < 400 {
					return w.fail("a commit of %d of %d bytes answers %d", u.n, len(w.data), r.Code)
				}
				return ""
			}
			if r.Code != 200 {
				return w.fail("answers %d %s", r.Code, r.Body)
			}
			u.state, w.has = 2, true
			return ""
		})
		add("ABORT", false, 1, func(w *world2, u *up2) string {
			r := w.n.Abort(u.id)
			if u.state == 1 && r.Code/100 != 2 {
				return w.fail("answers %d", r.Code)
			}
			u.state = 2
			return ""
		})
	}
	ops = append(ops, op2{"DELETE shard", func(w *world2) bool { return w.has }, func(w *world2) string {
		if r := w.n.Do("DELETE", "/objects/"+w.name, nil, nil); r.Code/100 != 2 {
			return w.fail("answers %d", r.Code)
		}
		w.has = false
		return ""
	}}, op2{"PUT shard", func(w *world2) bool { return !w.has }, func(w *world2) string {
		if r := w.n.Put(w.name, objkit.NewBody(w.data), w.compress); r.Code != 200 {
			return w.fail("answers %d", r.Code)
		}
		w.has = true
		return ""
	}}, op2{"restart", func(w *world2) bool { return w.restarts == 0 && len(w.log) > 1 }, func(w *world2) string {
		w.restarts++
		w.n.Restart()
		for i := range w.up {
			if w.up[i].state == 1 {
				w.up[i].state = 2 // uploads do not survive
			}
		}
		return ""
	}})
	return
}

// TestVerifO02History: all histories of two uploads of one content up to a depth
func TestVerifO02History(t *testing.T) {
	vkit.Run(t, "O02", func(c *vkit.Ctx) {
		ops := ops2()
		n := node2(c, objkit.Options{Disks: 2, MemIndex: true})
		defer func() { done2(n) }()
		type cfg struct {
			size     int
			compress bool
		}
		item := 0
		for _, cf := range []cfg{{5000, false}, {9001, true}} {
			depth := c.N(5, 6)
			run := func(h []int) (w *world2, msg string) {
				if n.Restarts > 10 {
					done2(n)
					n = node2(c, objkit.Options{Disks: 2, MemIndex: true})
				}
				seq2++
				w = &world2{n: n, c: c, name: fmt.Sprintf("h%d.%d", seq2, seq2%3), compress: cf.compress, data: objkit.Content(cf.size, 3)}
				for k, i := range h {
					if !ops[i].enabled(w) {
						return nil, ""
					}
					w.log = append(w.log, ops[i].name)
					c.Cur("%s", strings.Join(w.log, ", "))
					if k == len(h)-1 {
						c.Transition()
					}
					if m := ops[i].do(w); m != "" {
						return w, m
					}
				}
				return w, ""
			}
			var rec func(h []int)
			rec = func(h []int) {
				if len(h) == 3 {
					if item++; !c.Mine(item) {
						return
					}
				}
				if c.Expired() {
					return
				}
				// only histories whose last operation was enabled go on
				if len(h) > 0 && (len(h) >= 3 || c.Mine(0)) {
					w, m := run(h)
					if m == "" && w != nil {
						m = w.end()
					}
					if w == nil {
						return
					}
					if m != "" {
						c.Fail(fmt.Sprintf("history %v %v", cf, h), func() bool {
							done2(n)
							n = node2(c, objkit.Options{Disks: 2, MemIndex: true})
							w, m := run(h)
							return m != "" || w.end() != ""
						}, "%d bytes, compress %v: %s", cf.size, cf.compress, m)
						done2(n)
						n = node2(c, objkit.Options{Disks: 2, MemIndex: true})
						return
					}
				}
				if len(h) == depth {
					return
				}
				for i := range ops {
					rec(append(h[:len(h):len(h)], i))
				}
			}
			rec(nil)
		}
	})
}

// end compares everything and removes it
func (w *world2) end() string {
	var want []byte
	if w.has {
		want = w.data
	}
	w.log = append(w.log, "(at the end)")
	if m := exact2(w.n, w.name, want, w.compress); m != "" {
		return w.fail("%s", m)
	}
	files := len(w.n.Temps())
	open := 0
	src := slices.Repeat(w.data, 8)
	for i := range w.up {
		u := &w.up[i]
		if u.state == 2 {
			if _, r := w.n.TempSize(u.id); r.Code == 200 {
				return w.fail("upload %d still exists", i+1)
			}
		}
		if u.state == 1 {
			if u.n > 0 {
				open++
			}
			if m := temp2(w.n, u.id, src[:u.n]); m != "" {
				return w.fail("upload %d: %s", i+1, m)
			}
		}
	}
	if files > 2 || files < open {
		return w.fail("%d temporary files of %d uploads", files, open)
	}
	w.c.State(fmt.Sprint(w.has, w.up[0].state, w.up[0].n, w.up[1].state, w.up[1].n, w.compress))
	w.c.Eval(strings.Join(w.log, ","))
	for i := range w.up {
		if w.up[i].state == 1 {
			if r := w.n.Abort(w.up[i].id); r.Code/100 != 2 {
				return w.fail("abort answers %d", r.Code)
			}
		}
	}
	if w.has {
		w.c.Outcome("stored")
		_ = w.n.Do("DELETE", "/objects/"+w.name, nil, nil)
	} else {
		w.c.Outcome("nothing")
	}
	if left := w.n.Files(); len(left) > 0 {
		return w.fail("after aborting and deleting everything there are files: %v", left)
	}
	w.c.Validated()
	return ""
}

// slow is a body that takes its time
type slow2 struct {
	*objkit.Body
	d time.Duration
}

func (s *slow2) Read(p []byte) (int, error) {
	time.Sleep(s.d)
	return s.Body.Read(p)
}

// TestVerifO02Expiry: what happens to an upload that expires, at every stage and with every following request
func TestVerifO02Expiry(t *testing.T) {
	vkit.Run(t, "O02", func(c *vkit.Ctx) {
		dir, err := os.MkdirTemp("", "verif-o02-warm-")
		if err != nil {
			t.Fatal(err)
		}
		defer os.RemoveAll(dir)
		objkit.Warm(dir)
		const ttl = 20 * time.Second
		k := 0
		for _, size := range []int{5000, 8192} {
			for _, have := range []int{0, size / 2, size} {
				for _, compress := range []bool{false, true} {
					for _, how := range []string{"idle", "slow append", "slow broken append"} {
						for _, next := range []string{"COMMIT", "PATCH", "ABORT", "HEAD", "GET", "PUT shard", "nothing"} {
							for _, wait := range []time.Duration{ttl / 2, ttl + 2*time.Second, 3 * ttl} {
								if k++; !c.Mine(k) {
									continue
								}
								if c.Expired() {
									return
								}
								id := fmt.Sprintf("%d of %d bytes appended, compress %v, %s for %v, then %s", have, size, compress, how, wait, next)
								run := func() (msg string) {
									vkit.Bubble(t, func(t *testing.T) { msg = expiry2(c, size, have, compress, how, next, wait, ttl) })
									return
								}
								c.Cur("%s", id)
								c.Eval(id)
								if m := run(); m != "" {
									c.Fail("expiry "+id, func() bool { return run() != "" }, "%s: %s", id, m)
								}
								c.Validated()
							}
						}
					}
				}
			}
		}
	})
}

func expiry2(c *vkit.Ctx, size, have int, compress bool, how, next string, wait, ttl time.Duration) string {
	n := node2(c, objkit.Options{Disks: 1, TTL: ttl, Clean: time.Second, Cleaners: 2, MemIndex: true})
	defer done2(n)
	name, want := "x.1", objkit.Content(size, 5)
	id, r := n.Post(name, int64(size))
	if r.Code != 200 {
		return fmt.Sprintf("POST answers %d", r.Code)
	}
	if have > 0 {
		if r = n.Patch(id, objkit.NewBody(want[:have])); r.Code != 200 {
			return fmt.Sprintf("PATCH answers %d", r.Code)
		}
	}
	switch how {
	case "idle":
		time.Sleep(wait)
	default:
		b := objkit.NewBody([]byte("more"))
		if how == "slow broken append" {
			b.Err = objkit.ErrBroken
		}
		req := &slow2{b, wait / 2}
		n.DoLen("PATCH", "/temp/"+id, 4, req)
	}
	expired := wait > ttl
	if expired && how == "idle" {
		if m := exact2(n, name, nil, compress); m != "" {
			return "after the expiry: " + m
		}
		time.Sleep(5 * time.Second) // for the cleaners
		if len(n.Temps()) > 0 {
			return fmt.Sprintf("files left after the expiry: %v", n.Temps())
		}
		if _, r := n.TempSize(id); r.Code == 200 {
			return "the upload still exists"
		}
	}
	stored := false
	switch next {
	case "COMMIT":
		r = n.Commit(id, compress)
		// the bytes are complete only if nothing has been appended to them
		may := how == "idle" && have == size && !expired
		if r.Code < 400 && how != "idle" {
			size, _ := n.TempSize(id)
			if have == len(want) && how == "slow broken append" && r.Code == 200 {
				_ = size
				stored = true // nothing of the broken append was kept
				break
			}
		}
		if may != (r.Code == 200) {
			return fmt.Sprintf("the commit answers %d", r.Code)
		}
		stored = may
	case "PATCH":
		n.Patch(id, objkit.NewBody([]byte("some more")))
	case "ABORT":
		n.Abort(id)
	case "HEAD":
		n.TempSize(id)
	case "GET":
		n.TempGet(id, 10)
	case "PUT shard":
		if r = n.Put(name, objkit.NewBody(want), compress); r.Code != 200 {
			return fmt.Sprintf("PUT answers %d", r.Code)
		}
		stored = true
	}
	check := func(when string) string {
		var w []byte
		if stored {
			w = want
		}
		if m := exact2(n, name, w, compress); m != "" {
			return when + ": " + m
		}
		return ""
	}
	if m := check("then"); m != "" {
		return m
	}
	c.Outcome(fmt.Sprintf("stored %v", stored))
	// in the end nothing temporary is left
	time.Sleep(3 * ttl)
	if len(n.Temps()) > 0 {
		return fmt.Sprintf("files left at the end: %v", n.Temps())
	}
	return check("at the end")
}
