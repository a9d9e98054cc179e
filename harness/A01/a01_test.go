package apikit_test

import (
	"apiserver/internal/apikit"
	"apiserver/internal/entity"
	"common/objmodel"
	"common/util/crypto"
	"common/vkit"
	"fmt"
	"strings"
	"testing"
)

// lay1 is a layout of an erasure coded object
type lay1 struct{ ds, ps, block, align int }

var loss1 = []string{"gone", "down", "dead", "unknown", "refused", "reset", "cut", "short", "empty"}

type obj1 struct {
	l       lay1
	size    int
	content string
	ver     entity.Version
	world   *objmodel.World
	c       *apikit.Cluster
}

func store1(l lay1, size int, compress bool) (*obj1, string) {
	cfg := apikit.Config(l.ds, l.ps, l.block)
	c := apikit.New(l.ds+l.ps+1, l.align, cfg)
	c.Meta.Buckets["b"] = entity.Bucket{}
	o := &obj1{l: l, size: size, content: apikit.Content(size, size), c: c}
	cfg.Object.Checksum = true
	q := "?ss=1"
	if compress {
		q += "&compress=true"
	}
	if a := c.Put("b", "o", crypto.SHA256([]byte(o.content)), q, o.content); !a.OK() {
		return nil, fmt.Sprintf("upload fails: %s", a)
	}
	vs := c.Meta.Versions("b", "o")
	if len(vs) != 1 {
		return nil, fmt.Sprintf("%d versions after an upload", len(vs))
	}
	o.ver = vs[0]
	if len(o.ver.Locate) < l.ds+l.ps {
		return nil, fmt.Sprintf("%d locations recorded", len(o.ver.Locate))
	}
	o.world = c.World.Clone()
	return o, ""
}

// lose makes shards unavailable
func (o *obj1) lose(kinds map[int]string) entity.Version {
	w := o.world.Clone()
	ver := o.ver
	ver.Locate = append([]string(nil), o.ver.Locate...)
	fault := map[string]objmodel.Fault{}
	for i, k := range kinds {
		s := objmodel.Index(ver.Locate[i])
		name := fmt.Sprintf("%s.%d", ver.Hash, i)
		get := fmt.Sprintf("GET objects .%d s%d #1", i, s)
		switch k {
		case "gone":
			w.Remove(s, name)
		case "down":
			w.Servers[s].Down = true
		case "dead":
			ver.Locate[i] = objmodel.Dead
		case "unknown":
			ver.Locate[i] = ""
		case "refused":
			fault[get] = objmodel.Refuse
		case "reset":
			fault[get] = objmodel.Drop
		case "cut":
			fault[get] = objmodel.CutHalf
		case "short":
			fault[get] = objmodel.Short
		case "empty":
			fault[get] = objmodel.Empty
		}
	}
	if len(fault) > 0 {
		w.Fault = func(ev string) objmodel.Fault { return fault[ev] }
	}
	o.c.Reset(w)
	o.c.Meta.ResetEvents()
	o.c.Meta.SetVersion("b", "o", ver)
	return ver
}

// judge compares what was read
func (o *obj1) judge(off, lost int, got string, err error) string {
	want := ""
	if off < o.size {
		want = o.content[off:]
	}
	if lost <= o.l.ps {
		if err != nil {
			return fmt.Sprintf("fails: %v", err)
		}
		if got != want {
			return fmt.Sprintf("returns %s", diff1(got, want))
		}
		return ""
	}
	// too many shards are lost
	if err == nil && want != "" {
		return fmt.Sprintf("succeeds with %s although %d shards are lost", diff1(got, want), lost)
	}
	if !strings.HasPrefix(want, got) {
		return fmt.Sprintf("returns wrong data before the error: %s", diff1(got, want))
	}
	return ""
}

func diff1(got, want string) string {
	if got == want {
		return "the right content"
	}
	n := 0
	for n < len(got) && n < len(want) && got[n] == want[n] {
		n++
	}
	return fmt.Sprintf("%d bytes instead of %d, different from byte %d on", len(got), len(want), n)
}

// subsets of n shards with at most max members
func subsets1(n, max int, fn func(set []int)) {
	for m := 0; m < 1<<n; m++ {
		var s []int
		for i := 0; i < n; i++ {
			if m>>i&1 == 1 {
				s = append(s, i)
			}
		}
		if len(s) <= max {
			fn(s)
		}
	}
}

func (o *obj1) offsets(all bool) []int {
	if all {
		var r []int
		for i := 0; i <= o.size; i++ {
			r = append(r, i)
		}
		return r
	}
	seen := map[int]bool{}
	var r []int
	for _, x := range []int{0, 1, o.l.block, o.l.block * o.l.ds, o.l.block*o.l.ds + 1, o.size - 1, o.size} {
		if x >= 0 && x <= o.size && !seen[x] {
			seen[x] = true
			r = append(r, x)
		}
	}
	return r
}

func TestVerifA01(t *testing.T) {
	vkit.Run(t, "A01", func(c *vkit.Ctx) {
		c.Rule("every layout, size up to two blocks and more, set of unavailable shards up to one more than tolerated, way to be unavailable and offset is one read of the real streams and one download")
		lays := []lay1{{1, 1, 2, 1}, {2, 1, 1, 1}, {2, 1, 3, 1}, {2, 2, 2, 1}, {3, 2, 2, 1}, {4, 2, 1, 1}, {4, 2, 2, 1}, {3, 1, 2, 8}, {3, 2, 3, 4}, {4, 2, 16, 64}}
		if !c.Quick {
			lays = append(lays, lay1{5, 3, 2, 1}, lay1{4, 3, 2, 1}, lay1{6, 2, 2, 1}, lay1{2, 3, 3, 1}, lay1{3, 3, 4, 4}, lay1{4, 2, 3, 1}, lay1{1, 2, 3, 1}, lay1{5, 2, 1, 1})
		}
		n := 0
		for _, l := range lays {
			bs := l.block * l.ds
			sizes := []int{}
			for s := 1; s <= 2*bs+2; s++ {
				if bs > 8 && s > 6 && s%bs > 2 && s%bs < bs-1 && s != l.align {
					continue
				}
				sizes = append(sizes, s)
			}
			for _, size := range sizes {
				if n++; !c.Mine(n) || c.Expired() {
					continue
				}
				all := l.ds+l.ps <= 3 || !c.Quick
				explore1(c, l, size, all)
			}
		}
		// the default layout
		bigs := []int{1, 65535, 65536, 65537, 131072 + 100}
		for _, size := range bigs {
			if n++; !c.Mine(n) || c.Expired() {
				continue
			}
			big1(c, lay1{4, 2, 16384, 65536}, size)
		}
		for _, size := range []int{2, 5, 40000, 65534, 65535, 65536, 140000} {
			if n++; !c.Mine(n) || c.Expired() {
				continue
			}
			// a number of shards blocks cannot be aligned to
			big1(c, lay1{3, 2, 21845, 65536}, size)
		}
	})
}

func explore1(c *vkit.Ctx, l lay1, size int, allOffsets bool) {
	name := fmt.Sprintf("%+v size %d", l, size)
	c.Cur("%s", name)
	o, msg := store1(l, size, size%2 == 1)
	c.Eval(fmt.Sprintf("%s/store", name))
	if o == nil {
		c.Fail("store", nil, "%s: %s", name, msg)
		return
	}
	read := func(kinds map[int]string, lost, off int, http bool) {
		run := func() string {
			ver := o.lose(kinds)
			if http {
				a := o.c.Get("b", "o", 0, off)
				err := a.Err
				if err == nil && !a.OK() {
					err = fmt.Errorf("answer %s", a)
					a.Body = ""
				}
				return o.judge(off, lost, a.Body, err)
			}
			got, err := o.c.Read("b", "o", ver, int64(off), -1)
			if _, ok := err.(apikit.ErrClose); ok {
				err = nil
			}
			return o.judge(off, lost, got, err)
		}
		c.Eval(fmt.Sprintf("%s/%v/%d/%t", name, kinds, off, http))
		c.Transition()
		if msg := run(); msg != "" {
			c.Fail("read", func() bool { return run() != "" }, "layout %+v, %d bytes, unavailable %v: reading from %d (download %t) %s", l, size, kinds, off, http, msg)
		}
	}
	n := l.ds + l.ps
	subsets1(n, l.ps+1, func(set []int) {
		for ki, k := range loss1 {
			if len(set) == 0 && ki > 0 {
				break
			}
			kinds := map[int]string{}
			for _, i := range set {
				kinds[i] = k
			}
			offs := o.offsets(allOffsets)
			if ki > 0 {
				offs = []int{0, size / 2}
				if !c.Quick {
					offs = o.offsets(false)
				}
			}
			for j, off := range offs {
				read(kinds, len(set), off, false)
				if j == 0 || ki == 0 && off == offs[len(offs)/2] {
					read(kinds, len(set), off, true)
				}
			}
			c.State(fmt.Sprintf("%s/%v", name, kinds))
			if c.Expired() {
				return
			}
		}
	})
	// two ways at once
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if i == j || l.ps < 1 {
				continue
			}
			for a, ka := range loss1 {
				for b, kb := range loss1 {
					if a == b || c.Quick && size != l.block*l.ds+1 {
						continue
					}
					read(map[int]string{i: ka, j: kb}, 2, 0, false)
				}
			}
		}
		if c.Expired() {
			return
		}
	}
}

func big1(c *vkit.Ctx, l lay1, size int) {
	name := fmt.Sprintf("%+v size %d", l, size)
	c.Cur("%s", name)
	o, msg := store1(l, size, false)
	c.Eval(name + "/store")
	if o == nil {
		c.Fail("store", nil, "%s: %s", name, msg)
		return
	}
	subsets1(l.ds+l.ps, l.ps+1, func(set []int) {
		kinds := map[int]string{}
		for _, i := range set {
			kinds[i] = "gone"
		}
		offs := o.offsets(false)
		if c.Quick && len(set) > 0 {
			offs = []int{0, offs[len(set)%len(offs)]}
		}
		for _, off := range offs {
			c.Eval(fmt.Sprintf("%s/%v/%d", name, set, off))
			c.Transition()
			o.lose(kinds)
			a := o.c.Get("b", "o", 0, off)
			err := a.Err
			if err == nil && !a.OK() {
				err, a.Body = fmt.Errorf("answer %s", a), ""
			}
			if msg := o.judge(off, len(set), a.Body, err); msg != "" {
				c.Fail("big", nil, "layout %+v, %d bytes, lost %v: download from %d %s", l, size, set, off, msg)
			}
		}
	})
}
