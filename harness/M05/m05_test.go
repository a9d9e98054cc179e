package service_test

import (
	"bytes"
	"common/proto/msg"
	"common/vkit"
	"compress/gzip"
	"errors"
	"fmt"
	"io"
	"metaserver/internal/metakit"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"testing/synctest"

	bolt "go.etcd.io/bbolt"
)

type content5 map[string]int // object -> number of versions

func (c content5) copy() content5 {
	r := content5{}
	for k, v := range c {
		r[k] = v
	}
	return r
}

type st5 struct {
	n        *metakit.Node
	m        content5
	path     string
	own      []byte
	ownM     content5
	counter  int
	reader   *bolt.Tx
	readerDB *bolt.DB
	replaced int
}

type sink5 struct{ bytes.Buffer }

func (*sink5) ID() string    { return "x" }
func (*sink5) Cancel() error { return errors.New("cancelled") }
func (*sink5) Close() error  { return nil }

// free ends a long reader of the current store: a store that has to grow waits for it.
func (s *st5) free() {
	if s.reader != nil && s.readerDB == s.n.Store.DB() {
		_ = s.reader.Rollback()
		s.reader = nil
	}
}

func (s *st5) add(name string) string {
	s.free()
	if e := s.n.Svc.AddMetadata(name, &msg.Metadata{Name: name}); e != nil {
		return "write refused: " + e.Error()
	}
	s.m[name] = 0
	for i := 0; i < 2; i++ {
		if _, e := s.n.Svc.AddVersion(name, metakit.V("h", 1)); e != nil {
			return "write refused: " + e.Error()
		}
		s.m[name]++
	}
	return ""
}

func (s *st5) snap() ([]byte, string) {
	sn, err := s.n.FSM.Snapshot()
	if err != nil {
		return nil, "snapshot: " + err.Error()
	}
	defer sn.Release()
	k := &sink5{}
	if err := sn.Persist(k); err != nil {
		return nil, "persist: " + err.Error()
	}
	return k.Bytes(), ""
}

type failing5 struct {
	r io.Reader
}

func (f failing5) Read(p []byte) (int, error) {
	n, err := f.r.Read(p)
	if err == io.EOF {
		return n, errors.New("connection lost")
	}
	return n, err
}

func (s *st5) restore(r io.Reader, ok bool, then content5) string {
	err := s.n.FSM.Restore(io.NopCloser(r))
	if ok != (err == nil) {
		if ok {
			return "a good snapshot was refused: " + err.Error()
		}
		return "a broken snapshot was accepted"
	}
	if ok {
		s.m = then.copy()
		s.replaced++
	}
	return ""
}

func (s *st5) read() string {
	var names []string
	for k := range s.m {
		names = append(names, k)
	}
	sort.Strings(names)
	for pass := 0; pass < 2; pass++ {
		l, total, err := s.n.Svc.ListMetadata("", 1000)
		var got []string
		for _, x := range l {
			got = append(got, x.Name)
		}
		if len(names) == 0 && len(got) == 0 {
			return s.missing()
		}
		if err != nil || total != len(names) || strings.Join(got, ",") != strings.Join(names, ",") {
			return fmt.Sprintf("the store lists %v (total %d, %v), it must contain %v", got, total, err, names)
		}
		for i, k := range names {
			if i > 6 {
				break
			}
			m, v, err := s.n.Svc.GetMetadata(k, 0, true)
			if err != nil || m.Extra == nil || m.Extra.Total != s.m[k] || v == nil || int(v.Sequence) != s.m[k] {
				return fmt.Sprintf("object %s reads %v %v %v, it must have %d versions", k, m, v, err, s.m[k])
			}
		}
		if e := s.missing(); e != "" {
			return e
		}
	}
	return ""
}

func (s *st5) missing() string {
	for _, k := range []string{"k1", "k2", "k3", "s1", "big0", "big39"} {
		if _, ok := s.m[k]; ok {
			continue
		}
		if m, _, err := s.n.Svc.GetMetadata(k, -1, false); err == nil {
			return fmt.Sprintf("object %s reads %v, it must not exist", k, m)
		}
	}
	return ""
}

type op5 struct {
	name string
	do   func(s *st5) string
}

func gz(b []byte) []byte {
	var o bytes.Buffer
	w := gzip.NewWriter(&o)
	_, _ = w.Write(b)
	_ = w.Close()
	return o.Bytes()
}

func TestVerifM05(t *testing.T) {
	vkit.Run(t, "M05", func(c *vkit.Ctx) {
		metakit.OwnAll(metakit.NewKV())
		c.Rule("one evaluation = one history of writes, replacements, stops and restarts on a real store; after every operation everything is read back, at the end it is stopped, started and read again; all histories up to the depth from every root")
		k := 0
		dirOf := func() string {
			k++
			d := c.Scratch(fmt.Sprintf("n%d", k))
			_ = os.MkdirAll(d, 0o755)
			return d
		}
		mk := func(names []string) ([]byte, content5) {
			s := &st5{n: metakit.Open(dirOf()), m: content5{}}
			defer s.n.Close()
			for _, x := range names {
				if e := s.add(x); e != "" {
					panic(e)
				}
			}
			b, e := s.snap()
			if e != "" {
				panic(e)
			}
			return b, s.m
		}
		small, smallM := mk([]string{"s1", "k1"})
		var bigN []string
		for i := 0; i < 40; i++ {
			bigN = append(bigN, fmt.Sprintf("big%d", i))
		}
		big, bigM := mk(bigN)
		ops := []op5{
			{"write", func(s *st5) string { s.counter++; return s.add(fmt.Sprintf("w%d", s.counter)) }},
			{"write k1", func(s *st5) string {
				s.free()
				if _, ok := s.m["k1"]; ok {
					_, err := s.n.Svc.AddVersion("k1", metakit.V("h", 1))
					if err != nil {
						return "write refused: " + err.Error()
					}
					s.m["k1"]++
					return ""
				}
				return s.add("k1")
			}},
			{"restore small", func(s *st5) string { return s.restore(bytes.NewReader(small), true, smallM) }},
			{"restore big", func(s *st5) string { return s.restore(bytes.NewReader(big), true, bigM) }},
			{"snapshot", func(s *st5) string {
				b, e := s.snap()
				s.own, s.ownM = b, s.m.copy()
				return e
			}},
			{"restore own", func(s *st5) string {
				if s.own == nil {
					return ""
				}
				return s.restore(bytes.NewReader(s.own), true, s.ownM)
			}},
			{"restore truncated", func(s *st5) string { return s.restore(bytes.NewReader(big[:len(big)-len(big)/3]), false, nil) }},
			{"restore failing", func(s *st5) string { return s.restore(failing5{bytes.NewReader(small[:len(small)-4])}, false, nil) }},
			{"restore garbage", func(s *st5) string {
				return s.restore(bytes.NewReader(gz(bytes.Repeat([]byte("x1"), 9000))), false, nil)
			}},
			{"restore nothing", func(s *st5) string { return s.restore(bytes.NewReader(nil), false, nil) }},
			{"stop and start", func(s *st5) string {
				if s.reader != nil {
					_ = s.reader.Rollback()
					s.reader = nil
				}
				_ = s.n.Cache.Close()
				if err := s.n.Store.Stop(); err != nil {
					return "stop: " + err.Error()
				}
				s.n = metakit.OpenPath(s.path)
				s.replaced = 0
				return ""
			}},
			{"long reader", func(s *st5) string {
				if s.reader != nil {
					_ = s.reader.Rollback()
					s.reader = nil
					return ""
				}
				tx, err := s.n.Store.DB().Begin(false)
				if err != nil {
					return "read transaction: " + err.Error()
				}
				s.reader, s.readerDB = tx, s.n.Store.DB()
				return ""
			}},
		}
		roots := map[string][]int{"fresh": nil, "replaced": {0, 2}, "replaced 45 times": nil}
		for i := 0; i < 45; i++ {
			roots["replaced 45 times"] = append(roots["replaced 45 times"], 2)
		}
		// the removal of the replaced file is waited for after every operation or only at the end
		run := func(root string, hist []int, settle bool) (state, bad string) {
			vkit.Bubble(t, func(*testing.T) {
				d := dirOf()
				s := &st5{m: content5{}, path: filepath.Join(d, "meta.db")}
				s.n = metakit.OpenPath(s.path)
				defer func() {
					if s.reader != nil {
						_ = s.reader.Rollback()
					}
					synctest.Wait()
					s.n.Close()
				}()
				for i, o := range append(append([]int{}, roots[root]...), hist...) {
					if bad = ops[o].do(s); bad != "" {
						bad = ops[o].name + ": " + bad
						return
					}
					if settle && s.reader == nil {
						synctest.Wait()
					}
					if i >= len(roots[root])-1 {
						if bad = s.read(); bad != "" {
							bad = "after " + ops[o].name + ": " + bad
							return
						}
					}
				}
				state = fmt.Sprint(s.m, s.ownM, s.own != nil, s.replaced, s.reader != nil)
				for i := 0; i < 2; i++ {
					if bad = ops[10].do(s); bad == "" {
						bad = s.read()
					}
					if bad != "" {
						bad = "after the final stop and start: " + bad
						return
					}
				}
			})
			return
		}
		show := func(root string, hist []int, settle bool) string {
			x := fmt.Sprintf("%s settle=%t:", root, settle)
			for _, i := range hist {
				x += " [" + ops[i].name + "]"
			}
			return x
		}
		visit := func(root string, hist []int) bool {
			fresh := true
			for _, settle := range []bool{true, false} {
				c.Cur("%s", show(root, hist, settle))
				st, bad := run(root, hist, settle)
				c.Eval(show(root, hist, settle))
				c.Transition()
				c.Validated()
				if bad != "" {
					h, sl := append([]int{}, hist...), settle
					c.Fail(bad, func() bool { _, b := run(root, h, sl); return b != "" }, "%s\n%s", show(root, hist, settle), bad)
					return false
				}
				if c.Samples() < 3 && len(hist) == 3 {
					c.Sample(show(root, hist, settle))
				}
				fresh = c.State(st+fmt.Sprint(settle)) && fresh
			}
			return fresh
		}
		item := 0
		for _, root := range []string{"fresh", "replaced", "replaced 45 times"} {
			depth := c.N(4, 5)
			if root != "fresh" {
				depth--
			}
			if root == "replaced 45 times" {
				depth = 1
			}
			for i := range ops {
				item++
				if !c.Mine(item) {
					continue
				}
				var queue [][]int
				visit(root, []int{i})
				queue = append(queue, []int{i})
				for len(queue) > 0 {
					q := queue[0]
					queue = queue[1:]
					if len(q) >= depth {
						continue
					}
					for j := range ops {
						if c.Expired() {
							return
						}
						s := append(append([]int{}, q...), j)
						if visit(root, s) {
							queue = append(queue, s)
						}
					}
				}
			}
		}
	})
}
