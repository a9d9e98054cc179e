package hashslot_test

import (
	"common/hashslot"
	"common/vkit"
	"fmt"
	"sort"
	"strings"
	"testing"
)

// cover is the model: which elementary cell belongs to a list, by bit.
type cover = uint32

type rng struct{ s, e int }

type list struct {
	r []rng
	c cover
}

func lists(n int) (res []list) {
	var rec func(pos int, cur []rng, c cover)
	rec = func(pos int, cur []rng, c cover) {
		if pos >= n {
			res = append(res, list{append([]rng{}, cur...), c})
			return
		}
		rec(pos+1, cur, c)
		for e := pos + 1; e <= n; e++ {
			rec2 := c
			for i := pos; i < e; i++ {
				rec2 |= 1 << i
			}
			rec(e, append(cur, rng{pos, e}), rec2)
		}
	}
	rec(0, nil, 0)
	return
}

func (l list) strs(pts []int, rev bool) []string {
	var s []string
	for _, r := range l.r {
		s = append(s, fmt.Sprintf("%d-%d", pts[r.s], pts[r.e]))
	}
	if rev {
		sort.Sort(sort.Reverse(sort.StringSlice(s)))
	}
	return s
}

// norm turns a result into a cover, reporting what is malformed about it.
func norm(pts []int, n int, el hashslot.EdgeList) (c cover, bad string) {
	idx := map[int]int{}
	for i, p := range pts {
		idx[p] = i
	}
	last := -1
	for _, e := range el {
		s, ok1 := idx[e.Start]
		t, ok2 := idx[e.End]
		switch {
		case !ok1 || !ok2:
			return 0, fmt.Sprintf("range %d-%d has a bound of no input", e.Start, e.End)
		case s >= t:
			return 0, fmt.Sprintf("empty range %d-%d", e.Start, e.End)
		case s < last:
			return 0, fmt.Sprintf("range %d-%d out of order or overlapping", e.Start, e.End)
		}
		last = t
		for i := s; i < t; i++ {
			c |= 1 << i
		}
	}
	return c, ""
}

func show(el hashslot.EdgeList) string {
	var s []string
	for _, e := range el {
		s = append(s, fmt.Sprintf("%s:%d-%d", e.Value, e.Start, e.End))
	}
	return strings.Join(s, ",")
}

func TestVerifH01(t *testing.T) {
	vkit.Run(t, "H01", func(c *vkit.Ctx) {
		c.Rule("all ordered pairs of range lists (every set of disjoint ranges, touching ones included) over a small slot space, in sorted and unsorted notation, at two scales; all ownership tables over the space; distinct = distinct (operation, inputs)")
		n := c.N(6, 8)
		scales := [][]int{{}, {}}
		for i := 0; i <= n; i++ {
			scales[0] = append(scales[0], i)
		}
		real := []int{0, 1, 99, 100, 5461, 8192, 10923, 16383, 16384}
		scales[1] = append(append([]int{}, real[:n]...), 16384)
		ls := lists(n)
		wrap := func(s []string, v string) hashslot.EdgeList {
			el, err := hashslot.WrapSlotsToEdges(s, v)
			if err != nil {
				c.Fail("parse valid", nil, "valid list %v rejected: %v", s, err)
			}
			return el
		}
		for si, pts := range scales {
			for _, rev := range []bool{false, true} {
				for _, a := range ls {
					if c.Expired() {
						return
					}
					as := a.strs(pts, rev)
					el := wrap(as, "A")
					if got, bad := norm(pts, n, el); bad != "" || got != a.c || len(el) != len(a.r) {
						c.Fail("parse", nil, "%v parsed as %s %s", as, show(el), bad)
					}
					for s := -1; s <= pts[n]+1; s++ {
						if si == 1 && s > 200 {
							break
						}
						want := false
						for _, r := range a.r {
							if s >= pts[r.s] && s < pts[r.e] {
								want = true
							}
						}
						if got := hashslot.IsSlotInEdges(s, el); got != want {
							c.Fail("member", nil, "slot %d in %v answered %t", s, as, got)
						}
					}
					for bi, b := range ls {
						if rev && bi%3 != 0 && c.Quick {
							continue
						}
						bs := b.strs(pts, rev)
						c.Eval(fmt.Sprint(si, rev, a.r, b.r))
						for op := 0; op < 2; op++ {
							e1, e2 := wrap(as, "A"), wrap(bs, "A")
							// spare capacity must not matter
							if bi%2 == 0 {
								e1 = append(make(hashslot.EdgeList, 0, len(e1)+4), e1...)
								e2 = append(make(hashslot.EdgeList, 0, len(e2)+4), e2...)
							}
							before1, before2 := show(e1), show(e2)
							var res hashslot.EdgeList
							var want cover
							name := "combine"
							if op == 0 {
								res, want = hashslot.CombineEdges(e1, e2), a.c|b.c
							} else {
								name = "remove"
								res, want = hashslot.RemoveEdges(e1, e2), a.c&^b.c
							}
							got, bad := norm(pts, n, res)
							if bad != "" || got != want {
								c.Fail(name, nil, "%s(%v,%v) = %s %s", name, as, bs, show(res), bad)
							}
							if before1 != show(e1) || before2 != show(e2) {
								c.Fail(name+" changes input", nil, "%s(%v,%v) left its inputs as %s and %s", name, as, bs, show(e1), show(e2))
							}
							if op == 0 {
								for i := 1; i < len(res); i++ {
									if res[i-1].End == res[i].Start {
										c.Fail("combine not merged", nil, "combine(%v,%v) = %s leaves touching ranges apart", as, bs, show(res))
									}
								}
							}
							for _, e := range res {
								if e.Value != "A" {
									c.Fail(name+" owner", nil, "%s(%v,%v) = %s lost the owner", name, as, bs, show(res))
								}
							}
							// what is published must be readable again
							re, err := hashslot.WrapSlotsToEdges(res.Strings(), "A")
							if err != nil {
								c.Fail(name+" reparse", nil, "%s(%v,%v) published %v: %v", name, as, bs, res.Strings(), err)
							} else if g, bd := norm(pts, n, re); bd != "" || g != want {
								c.Fail(name+" reparse", nil, "%s(%v,%v) published %v reads as %s", name, as, bs, res.Strings(), show(re))
							}
						}
						// two owners
						if len(a.r) == 0 && len(b.r) == 0 {
							continue
						}
						p, err := hashslot.WrapSlots(map[string][]string{"A": as, "B": bs})
						if (a.c&b.c != 0) != (err != nil) {
							c.Fail("overlap", nil, "owners A=%v B=%v: err=%v", as, bs, err)
						}
						if err != nil {
							continue
						}
						for i := 0; i < n; i++ {
							for _, slot := range []int{pts[i], pts[i+1] - 1} {
								want := ""
								if a.c&(1<<i) != 0 {
									want = "A"
								} else if b.c&(1<<i) != 0 {
									want = "B"
								}
								got, err := hashslot.GetSlotIdentify(slot, p)
								if (want == "") != (err != nil) || got != want {
									c.Fail("lookup", nil, "owners A=%v B=%v: slot %d resolved to %q (%v)", as, bs, slot, got, err)
								}
							}
						}
						for _, sl := range []int{pts[n], pts[n] + 7, -1} {
							if got, err := hashslot.GetSlotIdentify(sl, p); err == nil {
								c.Fail("lookup outside", nil, "owners A=%v B=%v: slot %d resolved to %q", as, bs, sl, got)
							}
						}
						if cp := hashslot.CopyOfEdges("A", p); true {
							if g, bd := norm(pts, n, cp); bd != "" || g != a.c {
								c.Fail("copy", nil, "owners A=%v B=%v: copy of A is %s", as, bs, show(cp))
							}
							for _, e := range cp {
								e.Start, e.End, e.Value = 0, 0, "X"
							}
							all := hashslot.CopyOfEdges("", p)
							if g, bd := norm(pts, n, all); bd != "" || g != a.c|b.c {
								c.Fail("copy shared", nil, "owners A=%v B=%v: writing to a copy changed the table to %s", as, bs, show(all))
							}
						}
						// whole containment of every range for every owner
						for s := 0; s < n; s++ {
							for e := s + 1; e <= n; e++ {
								var m cover
								for i := s; i < e; i++ {
									m |= 1 << i
								}
								for _, o := range []string{"A", "B", "C"} {
									own := map[string]cover{"A": a.c, "B": b.c, "C": 0}[o]
									want := own&m == m
									if got := hashslot.IsValidEdge(&hashslot.Edge{Start: pts[s], End: pts[e], Value: o}, p); got != want {
										c.Fail("contains", nil, "owners A=%v B=%v: does %s own %d-%d answered %t", as, bs, o, pts[s], pts[e], got)
									}
								}
								fr, full := hashslot.FindRangeCurrentData(pts[s], pts[e], p)
								g, bd := norm(pts, n, fr)
								if bd != "" || g != (a.c|b.c)&m || full != ((a.c|b.c)&m == m) {
									c.Fail("find range", nil, "owners A=%v B=%v: range %d-%d found %s full=%t", as, bs, pts[s], pts[e], show(fr), full)
								}
								for _, x := range fr {
									own := map[string]cover{"A": a.c, "B": b.c}[x.Value]
									if cx, _ := norm(pts, n, hashslot.EdgeList{x}); cx&^own != 0 {
										c.Fail("find range owner", nil, "owners A=%v B=%v: range %d-%d found %s", as, bs, pts[s], pts[e], show(fr))
									}
								}
							}
						}
					}
				}
			}
		}
		// three owners, all assignments of cells
		pts := scales[0]
		tot := 1
		for i := 0; i < n; i++ {
			tot *= 4
		}
		for v := 0; v < tot; v++ {
			if v&1023 == 0 && c.Expired() {
				return
			}
			for _, unit := range []bool{true, false} {
				m := map[string][]string{}
				own := make([]string, n)
				y := v
				for i := range own {
					own[i] = []string{"", "A", "B", "C"}[y%4]
					y /= 4
				}
				for i := 0; i < n; {
					j := i + 1
					for !unit && j < n && own[j] == own[i] {
						j++
					}
					if own[i] != "" {
						m[own[i]] = append(m[own[i]], fmt.Sprintf("%d-%d", pts[i], pts[j]))
					}
					i = j
				}
				if len(m) == 0 {
					continue
				}
				c.Eval(fmt.Sprint("three", v, unit))
				p, err := hashslot.WrapSlots(m)
				if err != nil {
					c.Fail("three owners", nil, "%v rejected: %v", m, err)
					continue
				}
				for i := range own {
					got, err := hashslot.GetSlotIdentify(i, p)
					if got != own[i] || (err == nil) != (own[i] != "") {
						c.Fail("three owners lookup", nil, "%v: slot %d resolved to %q (%v)", m, i, got, err)
					}
				}
			}
		}
		// malformed and reversed ranges
		for s := -2; s <= 4; s++ {
			for e := -2; e <= 4; e++ {
				for _, f := range []string{"%d-%d", "%d", "%d-%d-1", "x%d-%d", "%d-%dx", "%d:%d", "%d--%d"} {
					in := fmt.Sprintf(f, s, e)
					if strings.Contains(in, "%!") {
						in = fmt.Sprint(s)
					}
					ok := f == "%d-%d" && s >= 0 && s < e
					c.Eval("syntax" + in)
					if _, err := hashslot.WrapSlotsToEdges([]string{in}, "A"); (err == nil) != ok {
						c.Fail("syntax", nil, "range %q: err=%v", in, err)
					}
					if _, err := hashslot.WrapSlots(map[string][]string{"A": {in}}); (err == nil) != ok {
						c.Fail("syntax", nil, "range %q: err=%v", in, err)
					}
				}
			}
		}
		// every key has one slot inside the space
		full, _ := hashslot.WrapSlots(map[string][]string{"A": {"0-5000"}, "B": {"5000-10000"}, "C": {"10000-16384"}})
		keys := [][]byte{nil}
		for i := 0; i < 256; i++ {
			keys = append(keys, []byte{byte(i)})
			for j := 0; j < 256; j++ {
				keys = append(keys, []byte{byte(i), byte(j)})
			}
		}
		for i := 0; i < c.N(2000, 60000); i++ {
			keys = append(keys, []byte(fmt.Sprintf("bucket%d/object-%d.bin", i%7, i)))
		}
		for _, k := range keys {
			c.Eval("key" + string(k))
			s := hashslot.CalcBytesSlot(k)
			want := int(refCRC(k) % 16384)
			if s != want || s != hashslot.CalcBytesSlot(append([]byte{}, k...)) {
				c.Fail("hash", nil, "key %q has slot %d, expected %d", k, s, want)
			}
			o, err := hashslot.GetStringIdentify(string(k), full)
			wo := "A"
			if want >= 10000 {
				wo = "C"
			} else if want >= 5000 {
				wo = "B"
			}
			if err != nil || o != wo {
				c.Fail("route", nil, "key %q (slot %d) routed to %q (%v)", k, want, o, err)
			}
		}
		c.Sample(map[string]any{"combine": []string{"0-1,2-4", "1-2"}, "lists": len(ls), "slot space": n})
		c.Sample(map[string]any{"scale": scales[1]})
	})
}

// refCRC is CRC-32 (IEEE 802.3), bit by bit.
func refCRC(b []byte) uint32 {
	x := ^uint32(0)
	for _, v := range b {
		x ^= uint32(v)
		for i := 0; i < 8; i++ {
			if x&1 != 0 {
				x = x>>1 ^ 0xedb88320
			} else {
				x >>= 1
			}
		}
	}
	return ^x
}
