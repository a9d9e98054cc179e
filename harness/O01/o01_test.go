package objkit_test

import (
	"common/datasize"
	"common/vkit"
	"fmt"
	"objectserver/internal/objkit"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"testing"
)

var seq1 int

// node1 opens a fresh server on a real disk: direct I/O is strict there
func node1(c *vkit.Ctx, disks int) *objkit.Node {
	seq1++
	dir, err := os.MkdirTemp("", fmt.Sprintf("verif-o01-%d-", seq1))
	if err != nil {
		c.T.Fatal(err)
	}
	objkit.Warm(dir)
	return objkit.Open(filepath.Join(dir, "n"), objkit.Options{Disks: disks, MaxItem: 10 * datasize.KB})
}

func done1(n *objkit.Node) {
	n.Close()
	_ = os.RemoveAll(filepath.Dir(n.Dir))
}

func slice1(b []byte, off, l int64) []byte {
	if off >= int64(len(b)) {
		return nil
	}
	if l > int64(len(b))-off {
		l = int64(len(b)) - off
	}
	return b[off : off+l]
}

// TestVerifO01Range: sizes x plain/compressed x arrival of the body x all byte ranges of a boundary set
func TestVerifO01Range(t *testing.T) {
	vkit.Run(t, "O01", func(c *vkit.Ctx) {
		c.Rule("an answer is right when it consists of exactly the requested bytes of the uploaded content, whatever was read before; what was deleted, never stored or not completely received is not found")
		sizes := []int{1, 2, 4095, 4096, 4097, 8191, 8192, 8193, 10239, 10240, 10241, 12288, 16385, 32768, 32769, 65537}
		if !c.Quick {
			sizes = append(sizes, 3, 511, 512, 513, 4094, 4098, 12287, 12289, 16383, 16384, 24576, 32767, 36863, 36864, 36865, 40961, 65535, 65536, 131072, 131073, 1<<20+1)
		}
		n := node1(c, 1)
		defer func() { done1(n) }()
		k := 0
		for _, size := range sizes {
			for _, compress := range []bool{false, true} {
				for _, piece := range []int{0, 1000, 4097} {
					if k++; !c.Mine(k) {
						continue
					}
					if c.Expired() {
						return
					}
					if msg := ranges1(c, n, size, compress, piece, fmt.Sprintf("r%d.0", k)); msg != "" {
						key := fmt.Sprintf("range size=%d compress=%v piece=%d", size, compress, piece)
						c.Fail(key, func() bool {
							done1(n)
							n = node1(c, 1)
							return ranges1(c, n, size, compress, piece, "again.0") != ""
						}, "%s", msg)
					}
				}
			}
		}
	})
}

func ranges1(c *vkit.Ctx, n *objkit.Node, size int, compress bool, piece int, name string) string {
	want := objkit.Content(size, size%13+1)
	id := fmt.Sprintf("size %d, compress %v, body in pieces of %d", size, compress, piece)
	c.Cur("%s", id)
	b := objkit.NewBody(want)
	b.Piece = piece
	if r := n.Put(name, b, compress); r.Code != 200 {
		return fmt.Sprintf("%s: upload refused: %d %s", id, r.Code, r.Body)
	}
	offs := map[int64]bool{}
	for _, o := range []int{0, 1, 4095, 4096, 4097, 8192, 8193, 12288, size / 2, size - 4097, size - 4096, size - 1} {
		if o >= 0 && o < size {
			offs[int64(o)] = true
		}
	}
	check := func(off, l int64, ranged, closed bool, when string) string {
		r := n.Get(name, off, l, compress, ranged, closed)
		c.Eval(fmt.Sprint(size, compress, piece, off, l, ranged, closed, when))
		if r.Code != 200 {
			return fmt.Sprintf("%s: GET of %d bytes from %d (%s, header %v/%v) answered %d %s", id, l, off, when, ranged, closed, r.Code, r.Body)
		}
		if d := objkit.Diff(slice1(want, off, l), r.Body); d != "" {
			return fmt.Sprintf("%s: GET of %d bytes from %d (%s, header %v/%v): %s", id, l, off, when, ranged, closed, d)
		}
		c.Outcome("range ok")
		return ""
	}
	// right after the upload, then cold and warm for every range, then whole again
	if m := check(0, int64(size), false, false, "after the upload"); m != "" {
		return m
	}
	for _, off := range sorted1(offs) {
		rest := int64(size) - off
		ls := map[int64]bool{}
		for _, l := range []int64{1, 2, 4095, 4096, 4097, 8192, rest - 1, rest} {
			if l > 0 && l <= rest {
				ls[l] = true
			}
		}
		for _, l := range sorted1(ls) {
			for _, closed := range []bool{false, true} {
				n.DropCache()
				if m := check(off, l, true, closed, "cold"); m != "" {
					return m
				}
				if m := check(off, l, true, closed, "again"); m != "" {
					return m
				}
				// a first read must not spoil a following one
				if m := check(0, int64(size), false, false, fmt.Sprintf("after a read of %d from %d", l, off)); m != "" {
					return m
				}
				if m := check(off, l, false, closed, "warm"); m != "" {
					return m
				}
			}
		}
	}
	if r := n.Do("DELETE", "/objects/"+name, nil, nil); r.Code/100 != 2 {
		return fmt.Sprintf("%s: delete answered %d", id, r.Code)
	}
	if r := n.Get(name, 0, int64(size), compress, false, false); r.Code != 404 {
		return fmt.Sprintf("%s: after the delete a read answers %d with %d bytes", id, r.Code, len(r.Body))
	}
	c.Validated()
	return ""
}

func sorted1(m map[int64]bool) (r []int64) {
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return
}

type world1 struct {
	n     *objkit.Node
	c     *vkit.Ctx
	names [2]string
	data  [2][]byte
	comp  [2]bool
	has   [2]bool
	log   []string
}

func (w *world1) fail(format string, a ...any) string {
	return strings.Join(w.log, ", ") + ": " + fmt.Sprintf(format, a...)
}

func (w *world1) put(i int, cut int, piece int) string {
	d := w.data[i]
	b := objkit.NewBody(d)
	b.Piece = piece
	if cut < len(d) {
		b.Data, b.Err = d[:cut], objkit.ErrBroken
	}
	r := w.n.Put(w.names[i], b, w.comp[i])
	if cut == len(d) || w.has[i] {
		if r.Code != 200 {
			return w.fail("upload answered %d %s", r.Code, r.Body)
		}
		w.has[i] = true
	} else if r.Code == 200 {
		return w.fail("an upload that broke after %d of %d bytes was acknowledged", cut, len(d))
	}
	return ""
}

func (w *world1) get(i int, off, l int64, ranged, closed bool) string {
	r := w.n.Get(w.names[i], off, l, w.comp[i], ranged, closed)
	if !w.has[i] {
		if r.Code != 404 {
			return w.fail("a read of an absent shard answers %d with %d bytes", r.Code, len(r.Body))
		}
		return ""
	}
	if r.Code != 200 {
		return w.fail("a read of %d bytes from %d answers %d %s", l, off, r.Code, r.Body)
	}
	if d := objkit.Diff(slice1(w.data[i], off, l), r.Body); d != "" {
		return w.fail("a read of %d bytes from %d: %s", l, off, d)
	}
	return ""
}

type op1 struct {
	name string
	do   func(w *world1) string
}

func ops1(quick bool) (ops []op1) {
	for i := 0; i < 2; i++ {
		i := i
		add := func(name string, f func(w *world1) string) {
			ops = append(ops, op1{fmt.Sprintf("%s %c", name, 'A'+i), f})
		}
		add("PUT", func(w *world1) string { return w.put(i, len(w.data[i]), 0) })
		add("broken PUT", func(w *world1) string { return w.put(i, len(w.data[i])/2, 1500) })
		add("GET", func(w *world1) string { return w.get(i, 0, int64(len(w.data[i])), false, false) })
		add("GET head", func(w *world1) string { return w.get(i, 0, 7, true, true) })
		add("GET tail", func(w *world1) string {
			return w.get(i, int64(len(w.data[i]))/2, int64(len(w.data[i])), true, false)
		})
		add("DELETE", func(w *world1) string {
			r := w.n.Do("DELETE", "/objects/"+w.names[i], nil, nil)
			if r.Code/100 != 2 {
				return w.fail("answers %d", r.Code)
			}
			w.has[i] = false
			return ""
		})
		if !quick {
			add("HEAD", func(w *world1) string { return w.head(i) })
			add("PUT broken at the end", func(w *world1) string { return w.put(i, len(w.data[i])-1, 0) })
		}
	}
	ops = append(ops, op1{"drop the cache", func(w *world1) string { w.n.DropCache(); return "" }})
	ops = append(ops, op1{"restart", func(w *world1) string { w.n.Restart(); return "" }})
	return
}

func (w *world1) head(i int) string {
	r := w.n.Do("HEAD", "/objects/"+w.names[i], nil, nil)
	if (r.Code == 200) != w.has[i] {
		return w.fail("HEAD of %c answers %d", 'A'+i, r.Code)
	}
	return ""
}

// TestVerifO01History: all histories over two shards up to a depth
func TestVerifO01History(t *testing.T) {
	vkit.Run(t, "O01", func(c *vkit.Ctx) {
		type cfg struct {
			size [2]int
			comp [2]bool
		}
		cfgs := []cfg{{[2]int{5000, 9000}, [2]bool{false, true}}, {[2]int{20000, 12288}, [2]bool{true, false}}}
		if !c.Quick {
			cfgs = append(cfgs, cfg{[2]int{4096, 10240}, [2]bool{false, true}}, cfg{[2]int{10241, 1}, [2]bool{false, true}})
		}
		ops, all := ops1(c.Quick), ops1(false)
		n := node1(c, 2)
		defer func() { done1(n) }()
		item := 0
		// one: only the first shard, deeper
		explore := func(ci int, cf cfg, ops []op1, depth int, one bool) {
			var rec func(h []int) bool
			rec = func(h []int) bool {
				if len(h) == 2 {
					if item++; !c.Mine(item) {
						return true
					}
				}
				if len(h) == depth {
					if c.Expired() {
						return false
					}
					if n.Restarts > 10 {
						// the index grows with every restart
						done1(n)
						n = node1(c, 2)
					}
					run := func() string {
						seq1++
						w := &world1{n: n, c: c, comp: cf.comp}
						for i := range w.names {
							w.names[i] = fmt.Sprintf("h%d_%c.%d", seq1, 'a'+i, i)
							w.data[i] = objkit.Content(cf.size[i], i+3)
						}
						return w.run(ops, h)
					}
					if m := run(); m != "" {
						c.Fail(fmt.Sprintf("history %d %v %v", ci, one, h), func() bool {
							done1(n)
							n = node1(c, 2)
							return run() != ""
						}, "sizes %v compress %v: %s", cf.size, cf.comp, m)
						done1(n)
						n = node1(c, 2)
					}
					return true
				}
				for i := range ops {
					if c.Quick && ops[i].name == "restart" && slices.Contains(h, i) {
						continue
					}
					if one && strings.HasSuffix(ops[i].name, " B") {
						continue
					}
					if !rec(append(h[:len(h):len(h)], i)) {
						return false
					}
				}
				return true
			}
			rec(nil)
		}
		for ci, cf := range cfgs {
			explore(ci, cf, ops, c.N(3, 4), false)
			explore(ci, cf, all, c.N(4, 5), true)
		}
	})
}

func (w *world1) run(ops []op1, h []int) string {
	for k, i := range h {
		w.log = append(w.log, ops[i].name)
		if k == 0 {
			w.c.Cur("%s", ops[i].name)
		}
		w.c.Transition()
		if m := ops[i].do(w); m != "" {
			return m
		}
	}
	w.log = append(w.log, "(at the end)")
	files := w.n.Files()
	for i := range w.names {
		if got := len(files[w.names[i]]); got != map[bool]int{true: 1}[w.has[i]] {
			return w.fail("%d files of shard %c, which is stored: %v", got, 'A'+i, w.has[i])
		}
		if m := w.head(i); m != "" {
			return m
		}
		if m := w.get(i, 0, int64(len(w.data[i])), false, false); m != "" {
			return m
		}
		if m := w.get(i, 4, int64(len(w.data[i])), false, true); m != "" && len(w.data[i]) > 4 {
			return m
		}
	}
	if tmp := w.n.Temps(); len(tmp) > 0 {
		return w.fail("left behind: %v", tmp)
	}
	w.c.Eval(fmt.Sprint(h, w.comp))
	w.c.State(fmt.Sprint(w.has, w.comp, h[len(h)-1]))
	w.c.Validated()
	for i := range w.names {
		if w.has[i] {
			w.c.Outcome("stored")
			_ = w.n.Do("DELETE", "/objects/"+w.names[i], nil, nil)
		} else {
			w.c.Outcome("absent")
		}
	}
	if left := w.n.Files(); len(left) > 0 {
		return w.fail("files left after deleting all: %v", left)
	}
	return ""
}
