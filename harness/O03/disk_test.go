package disk_test

import (
	"bytes"
	"common/system/disk"
	"common/vkit"
	"errors"
	"fmt"
	"io"
	"testing"
)

var errSrc3 = errors.New("source broken")

const block3 = 4096

// src3 is a source with a script: how many bytes each read may give (0 = nothing this time), then without limit
type src3 struct {
	data   []byte
	script []int
	err    error // what comes after the data
	glued  bool  // the error comes with the last data
	strict bool  // refuses unaligned lengths, like a file opened for direct i/o
	pos    int
	reads  int
}

func (s *src3) Read(p []byte) (int, error) {
	if s.reads++; s.reads > 200000 {
		panic("reads without end")
	}
	if s.strict && (len(p)%block3 != 0 || s.pos%block3 != 0) && s.pos < len(s.data) {
		return 0, fmt.Errorf("direct read of %d bytes at %d", len(p), s.pos)
	}
	n := len(p)
	if len(s.script) > 0 && s.script[0] < n {
		n = s.script[0]
	}
	if len(s.script) > 0 {
		s.script = s.script[1:]
	}
	n = copy(p[:n], s.data[s.pos:])
	s.pos += n
	if s.pos == len(s.data) && (n == 0 && len(p) > 0 || s.glued) {
		return n, s.err
	}
	return n, nil
}

// drain3 reads to the end with buffers of the given sizes, in turn. Everything in the buffer is set to 0xEE before
func drain3(r io.Reader, bufs []int) (out []byte, sizes []int, err error) {
	max := 0
	for _, n := range bufs {
		if n > max {
			max = n
		}
	}
	buf := make([]byte, max)
	for j := range buf {
		buf[j] = 0xee
	}
	for i := 0; i < 200000; i++ {
		b := buf[:bufs[i%len(bufs)]:bufs[i%len(bufs)]]
		var n int
		n, err = r.Read(b)
		if n < 0 || n > len(b) {
			return out, sizes, fmt.Errorf("read of %d bytes into %d", n, len(b))
		}
		out = append(out, b[:n]...)
		for j := range b[:n] {
			b[j] = 0xee
		}
		sizes = append(sizes, n)
		if err != nil {
			return
		}
	}
	return out, sizes, errors.New("no end")
}

func bytes3(n, seed int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7+i>>8+seed)%250 + 1 // never 0
	}
	return b
}

type case3 struct {
	Size, Fail int // Fail: the source breaks after this many bytes, -1 not at all
	Script     []int
	Glued      bool
	Bufs       []int
	Limit      int64
	Strict     bool
}

func (k case3) src() *src3 {
	s := &src3{data: bytes3(k.Size, 3), err: io.EOF, glued: k.Glued, strict: k.Strict, script: append([]int{}, k.Script...)}
	if k.Fail >= 0 {
		s.data, s.err = s.data[:k.Fail], errSrc3
	}
	return s
}

func (k case3) padding() (res error) {
	if p := vkit.Safe(func() {
		s := k.src()
		out, sizes, err := drain3(disk.PaddingReader(s), k.Bufs)
		want := s.data
		aligned := true
		for _, b := range k.Bufs {
			aligned = aligned && b%block3 == 0
		}
		if aligned {
			for i, n := range sizes {
				if n%block3 != 0 {
					res = fmt.Errorf("read %d gives %d bytes, which cannot be written directly", i, n)
					return
				}
			}
		}
		if k.Fail >= 0 {
			if !errors.Is(err, errSrc3) {
				res = fmt.Errorf("the error of the source is not reported: %v", err)
			} else if !bytes.HasPrefix(want, out) {
				res = fmt.Errorf("%d bytes before the error, the first difference at %d", len(out), diff3(want, out))
			} else if len(want)-len(out) >= block3 && aligned && len(k.Bufs) == 1 && len(want)-len(out) > k.Bufs[0] {
				res = fmt.Errorf("%d bytes before the error, the source gave %d", len(out), len(want))
			}
			return
		}
		if err != io.EOF {
			res = fmt.Errorf("ends with %v", err)
			return
		}
		pad := len(out) - len(want)
		if pad < 0 || pad >= block3 || !bytes.HasPrefix(out, want) || len(bytes.Trim(out[len(want):], "\x00")) > 0 {
			res = fmt.Errorf("%d bytes became %d, the first difference at %d", len(want), len(out), diff3(want, out))
			return
		}
		if aligned && len(out)%block3 != 0 {
			res = fmt.Errorf("padded to %d", len(out))
		}
	}); p != "" {
		res = errors.New("panic: " + p)
	}
	return
}

func (k case3) limit() (res error) {
	if p := vkit.Safe(func() {
		s := k.src()
		want := s.data
		if int64(len(want)) > k.Limit {
			want = want[:k.Limit]
		}
		out, _, err := drain3(disk.LimitReader(s, k.Limit), k.Bufs)
		if !bytes.Equal(out, want) {
			res = fmt.Errorf("%d bytes instead of %d, the first difference at %d (%v)", len(out), len(want), diff3(want, out), err)
		} else if k.Fail >= 0 && int64(k.Fail) < k.Limit && !errors.Is(err, errSrc3) {
			res = fmt.Errorf("the error of the source is not reported: %v", err)
		} else if err != io.EOF && (k.Fail < 0 || int64(k.Fail) > k.Limit+block3 || !errors.Is(err, errSrc3)) {
			res = fmt.Errorf("ends with %v", err)
		}
	}); p != "" {
		res = errors.New("panic: " + p)
	}
	return
}

func diff3(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

func TestVerifO03(t *testing.T) {
	vkit.Run(t, "O03", func(c *vkit.Ctx) {
		c.Rule("all sizes x errors x short reads x buffers around the block boundaries; all small combinations of readers")
		idx := 0
		run := func(what string, k case3, f func() error) {
			if idx++; !c.Mine(idx) || c.Expired() {
				return
			}
			id := fmt.Sprintf("%s %+v", what, k)
			c.Eval(id)
			c.State(id)
			c.Transition()
			c.Cur("%s", id)
			if err := f(); err != nil {
				c.Fail(what, func() bool { return f() != nil }, "%s: %v", id, err)
			}
		}
		sizes := []int{0, 1, 2, 511, 512, 4095, 4096, 4097, 8191, 8192, 8193, 12287, 12288, 12289, 32768, 32769}
		bufs := [][]int{{4096}, {8192}, {12288}, {32768}, {4096, 8192}, {100}, {1000}, {4097}, {5000}, {8191}, {4095, 1}}
		if !c.Quick {
			for i := 0; i < 70; i++ {
				sizes = append(sizes, i*331+7, i*512)
			}
			bufs = append(bufs, [][]int{{1}, {7}, {512}, {511, 513}, {8192, 4096}, {4096, 100}, {12288, 1}, {16384}}...)
		}
		scripts := [][]int{nil, {1}, {0, 1, 0}, {4095, 1}, {4097}, {100, 4096, 100}, {4096, 0, 4096}, {8191}, {1, 1, 1, 1, 1, 1, 1, 1}}
		for _, size := range sizes {
			fails := map[int]bool{-1: true}
			for _, f := range sizes[:16] {
				if f <= size {
					fails[f] = true
				}
			}
			for fail := -1; fail <= size; fail++ {
				if !fails[fail] {
					continue
				}
				for si, sc := range scripts {
					if c.Quick && size > 13000 && si%4 > 0 {
						continue
					}
					for _, gl := range []bool{false, true} {
						for _, b := range bufs {
							k := case3{Size: size, Fail: fail, Script: sc, Glued: gl, Bufs: b}
							run("padding", k, k.padding)
							for _, d := range []int64{-4097, -4096, -1, 0, 1, 4096} {
								if k.Limit = int64(size) + d; k.Limit < 0 {
									continue
								}
								l := k
								run("limit", l, l.limit)
								al := len(sc) == 0 && (fail < 0 || fail%block3 == 0)
								for _, x := range b {
									al = al && x%block3 == 0
								}
								if al {
									l.Strict = true
									run("limit of a direct file", l, l.limit)
								}
							}
						}
					}
				}
			}
		}
		combine3(c, &idx)
		for n := 0; n < c.N(20000, 2000000); n++ {
			w := (n + block3 - 1) / block3 * block3
			if disk.AlignedSize(n) != w || disk.AlignedSize64(int64(n)) != int64(w) {
				c.Fail("aligned size", nil, "aligned size of %d: %d, %d", n, disk.AlignedSize(n), disk.AlignedSize64(int64(n)))
			}
		}
		for _, n := range []int64{1 << 31, 1<<31 + 1, 1<<40 - 1, 1<<62 + 5} {
			if g := disk.AlignedSize64(n); g != (n+block3-1)/block3*block3 {
				c.Fail("aligned size", nil, "aligned size of %d: %d", n, g)
			}
		}
	})
}

// part3 is one reader of a combination
type part3 struct {
	size   int
	script []int
	fail   bool
	glued  bool
}

// combine3: all combinations of up to three small readers
func combine3(c *vkit.Ctx, idx *int) {
	var parts []part3
	for size := 0; size <= c.N(2, 3); size++ {
		scripts := [][]int{nil}
		if size > 0 {
			scripts = append(scripts, []int{0}, []int{1}, []int{1, 0})
		}
		if size > 2 {
			scripts = append(scripts, []int{2}, []int{1, 1})
		}
		for _, s := range scripts {
			for _, g := range []bool{false, true} {
				for _, f := range []bool{false, true} {
					parts = append(parts, part3{size, s, f, g})
				}
			}
		}
	}
	build := func(ps []part3) (rs []io.Reader, want []byte, werr error) {
		werr = io.EOF
		for i, p := range ps {
			d := bytes3(p.size, 50*i)
			s := &src3{data: d, script: append([]int{}, p.script...), glued: p.glued, err: io.EOF}
			if werr == io.EOF {
				want = append(want, d...)
			}
			if p.fail {
				s.err, werr = errSrc3, errSrc3
			}
			rs = append(rs, s)
		}
		return
	}
	check := func(ps []part3, nest, buf int) (res error) {
		if p := vkit.Safe(func() {
			rs, want, werr := build(ps)
			var r io.Reader
			switch {
			case nest == 1 && len(rs) > 1:
				r = disk.MultiReader(rs[0], disk.MultiReader(rs[1:]...))
			case nest == 2 && len(rs) > 1:
				n := len(rs) - 1
				r = disk.MultiReader(disk.MultiReader(rs[:n]...), rs[n])
			default:
				r = disk.MultiReader(rs...)
				// the list belongs to the caller
				for i := range rs {
					rs[i] = nil
				}
			}
			out, sizes, err := drain3(r, []int{buf})
			if !bytes.Equal(out, want) {
				res = fmt.Errorf("%v instead of %v (%v)", out, want, err)
				return
			}
			if werr == io.EOF {
				if err != io.EOF {
					res = fmt.Errorf("ends with %v", err)
					return
				}
				// only the last reads may leave room
				left := len(want)
				for i, n := range sizes {
					if n < buf && left > n {
						res = fmt.Errorf("read %d gives %d bytes of %d although %d are left", i, n, buf, left)
						return
					}
					left -= n
				}
			} else if !errors.Is(err, errSrc3) {
				res = fmt.Errorf("the error of a source is not reported: %v", err)
				return
			}
			// the end stays the end
			if n, e := r.Read(make([]byte, 3)); n != 0 || e == nil || werr == io.EOF && e != io.EOF {
				res = fmt.Errorf("after the end: %d bytes, %v", n, e)
			}
		}); p != "" {
			res = errors.New("panic: " + p)
		}
		return
	}
	var rec func(ps []part3)
	rec = func(ps []part3) {
		for nest := 0; nest < 3; nest++ {
			if nest > 0 && len(ps) < 2 {
				continue
			}
			for buf := 1; buf <= 5; buf++ {
				if *idx++; !c.Mine(*idx) || c.Expired() {
					continue
				}
				id := fmt.Sprintf("combined %+v nested %d read by %d", ps, nest, buf)
				c.Eval(id)
				c.State(id)
				c.Transition()
				c.Cur("%s", id)
				if err := check(ps, nest, buf); err != nil {
					ps := append([]part3{}, ps...)
					c.Fail("combined", func() bool { return check(ps, nest, buf) != nil }, "%s: %v", id, err)
				}
			}
		}
		if len(ps) == 3 {
			return
		}
		for _, p := range parts {
			rec(append(ps, p))
		}
	}
	rec(nil)
}
