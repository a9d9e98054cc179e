package apikit_test

import (
	"apiserver/internal/apikit"
	"apiserver/internal/usecase/pool"
	"common/objmodel"
	"common/vkit"
	"fmt"
	"sort"
	"strings"
	"testing"
)

// try2 is one degraded read
type try2 struct {
	kinds      map[int]string
	async      bool
	off, limit int
	fault      map[string]objmodel.Fault // requests
	meta       string                    // what happens to the update
	extra      int                       // servers registered besides those of the object
}

func (t try2) String() string {
	return fmt.Sprintf("unavailable %v, async %t, from %d limit %d, failing %v %s, %d more servers", t.kinds, t.async, t.off, t.limit, t.fault, t.meta, t.extra)
}

// run2 reads and checks the repair
func (o *obj1) run2(t try2) (msg string, events []string) {
	ver := o.lose(t.kinds)
	n := o.l.ds + o.l.ps
	pool.Config.Object.ReedSolomon.RewriteAsync = t.async
	o.c.Register(objmodel.Addrs[:n+t.extra]...)
	inner := o.c.World.Fault
	faulted := map[int]bool{}
	lostPosts := 0
	dead := map[int]bool{} // shards on servers that die meanwhile
	for i := 0; i < n; i++ {
		for ev, f := range t.fault {
			if f == objmodel.Die && strings.Contains(ev, fmt.Sprintf(" s%d ", objmodel.Index(ver.Locate[i]))) {
				dead[i] = true
			}
		}
	}
	for i := range t.kinds {
		dead[i] = true
	}
	o.c.World.Fault = func(ev string) objmodel.Fault {
		if f, ok := t.fault[ev]; ok {
			var m string
			var i, s int
			_, _ = fmt.Sscanf(ev, "%s temp .%d s%d", &m, &i, &s)
			faulted[i] = true
			if f == objmodel.Lost && m == "POST" {
				lostPosts++
			}
			if f == objmodel.Die {
				// whatever this server was to take is affected
				for j := range t.kinds {
					faulted[j] = true
				}
			}
			return f
		}
		if inner != nil {
			return inner(ev)
		}
		return objmodel.None
	}
	o.c.Meta.Fault = func(op string, _ int) string {
		if op == "update" {
			return t.meta
		}
		return ""
	}
	defer func() { o.c.Meta.Fault = nil }()
	limit := int64(-1)
	want := o.content[t.off:]
	if t.limit > 0 && t.limit < len(want) {
		limit = int64(t.limit)
		want = want[:t.limit]
	}
	got, err := o.c.Read("b", "o", ver, int64(t.off), limit)
	if t.async && !apikit.Quiet() {
		return "the repair does not end", nil
	}
	if _, ok := err.(apikit.ErrClose); ok {
		err = nil
	}
	if err != nil && len(dead) > o.l.ps && strings.HasPrefix(want, got) {
		return "", nil
	}
	if err != nil {
		return fmt.Sprintf("the read fails: %v", err), nil
	}
	if got != want {
		return "the read returns " + diff1(got, want), nil
	}
	// what has to be repaired
	full := limit < 0
	w := o.c.World
	var state string
	live := 0
	check := func() bool {
		w.Lock()
		live = 0
		for i := 0; i < n+t.extra; i++ {
			if !w.Servers[i].Down {
				live++
			}
		}
		bad := map[int]bool{}
		for k := range faulted {
			bad[k] = true
		}
		posts := lostPosts
		w.Unlock()
		rec := o.c.Meta.Versions("b", "o")[0].Locate
		state = ""
		if len(rec) != len(ver.Locate) {
			state = fmt.Sprintf("%d locations are recorded", len(rec))
			return false
		}
		for i := 0; i < n; i++ {
			k, lost := t.kinds[i]
			name := fmt.Sprintf("%s.%d", ver.Hash, i)
			should, _ := o.world.Get(objmodel.Index(o.ver.Locate[i]), name)
			for s := range w.Servers {
				if obj, ok := w.Get(s, name); ok && obj != should {
					state = fmt.Sprintf("shard %d on server %d has %d bytes (compressed %t) instead of %d (%t) or other content", i, s, len(obj.Content), obj.Compress, len(should.Content), should.Compress)
					return false
				}
			}
			if !lost {
				if rec[i] != ver.Locate[i] {
					state = fmt.Sprintf("the location of shard %d, which was not lost, changes from s%d to s%d", i, objmodel.Index(ver.Locate[i]), objmodel.Index(rec[i]))
					return false
				}
				continue
			}
			s := objmodel.Index(rec[i])
			_, there := w.Get(s, name)
			moved := rec[i] != ver.Locate[i] || k == "gone" && there
			if rec[i] != ver.Locate[i] && !there {
				state = fmt.Sprintf("shard %d is recorded on server %d, which does not have it", i, s)
				return false
			}
			if full && !moved && !bad[i] && t.meta == "" && live > 0 {
				state = fmt.Sprintf("shard %d is not repaired", i)
				return false
			}
		}
		if c := w.TempCount(false); c > posts {
			state = fmt.Sprintf("%d temporary uploads remain", c)
			return false
		}
		if u := o.c.Meta.Calls("update"); u > 1 || u == 0 && full && len(t.kinds) > 0 && len(bad) == 0 && live > 0 {
			state = fmt.Sprintf("locations are updated %d times", u)
			return false
		}
		if full && len(bad) == 0 && t.meta == "" && live >= n {
			seen := map[string]int{}
			for i, a := range rec {
				if j, ok := seen[a]; ok {
					state = fmt.Sprintf("shards %d and %d are on the same server although there are %d", j, i, live)
					return false
				}
				seen[a] = i
			}
		}
		return true
	}
	if !apikit.Until(check) {
		return state + " (" + w.Dump() + ")", nil
	}
	events = w.Events()
	return "", events
}

func TestVerifA02(t *testing.T) {
	vkit.Run(t, "A02", func(c *vkit.Ctx) {
		c.Rule("a degraded read is right when it returns the content and afterwards every lost shard whose repair did not fail is on a live server with its exact content and recorded there by one update, all other locations are as before and no temporary upload remains")
		lays := []lay1{{1, 1, 2, 1}, {2, 1, 2, 1}, {2, 2, 2, 1}, {3, 2, 1, 1}, {4, 2, 2, 1}}
		if !c.Quick {
			lays = append(lays, lay1{3, 3, 2, 1}, lay1{2, 3, 1, 1}, lay1{4, 2, 3, 4}, lay1{5, 2, 1, 1}, lay1{4, 3, 2, 1})
		}
		n := 0
		for _, l := range lays {
			bs := l.block * l.ds
			for _, size := range []int{1, bs - 1, bs, bs + 1, 2*bs + 1} {
				if size < 1 {
					continue
				}
				for m := 1; m < 1<<(l.ds+l.ps); m++ {
					var set []int
					for i := 0; i < l.ds+l.ps; i++ {
						if m>>i&1 == 1 {
							set = append(set, i)
						}
					}
					if len(set) > l.ps {
						continue
					}
					if n++; !c.Mine(n) || c.Expired() {
						continue
					}
					explore2(c, l, size, set)
				}
			}
		}
	})
}

var cache2 = map[string]*obj1{}

func explore2(c *vkit.Ctx, l lay1, size int, set []int) {
	key := fmt.Sprintf("%+v size %d", l, size)
	c.Cur("%s lost %v", key, set)
	o := cache2[key]
	if o == nil {
		var msg string
		if o, msg = store1(l, size, size%2 == 0); o == nil {
			c.Fail("store", nil, "%s: %s", key, msg)
			return
		}
		// two more servers than the object needs
		for len(o.world.Servers) < l.ds+l.ps+2 {
			o.world.Servers = append(o.world.Servers, objmodel.NewWorld(1).Servers[0])
		}
		cache2[key] = o
	}
	one := func(t try2) []string {
		if c.Violated() {
			return nil
		}
		c.Eval(fmt.Sprintf("%s %s", key, t))
		c.Transition()
		msg, ev := o.run2(t)
		if msg != "" {
			c.Fail("repair", func() bool { m, _ := o.run2(t); return m != "" }, "layout %+v, %d bytes, %s: %s", l, size, t, msg)
		}
		return ev
	}
	for _, kind := range []string{"gone", "down", "dead", "unknown"} {
		kinds := map[int]string{}
		for _, i := range set {
			kinds[i] = kind
		}
		for _, extra := range []int{0, 1, 2} {
			for _, async := range []bool{false, true} {
				base := try2{kinds: kinds, async: async, extra: extra}
				ev := one(base)
				c.State(fmt.Sprintf("%s %v %d %v", key, kinds, extra, ev))
				for _, off := range []int{1, size / 2, size - 1} {
					if off > 0 && off < size {
						b := base
						b.off = off
						one(b)
					}
				}
				for _, limit := range []int{1, size - 1} {
					if limit > 0 && limit < size {
						b := base
						b.limit = limit
						one(b)
					}
				}
				for _, meta := range []string{"refuse", "lost"} {
					b := base
					b.meta = meta
					one(b)
				}
				if c.Quick && (kind == "dead" || kind == "unknown" && extra != 1 || size != l.block*l.ds+1 && (l.ds > 2 || size != 2*l.block*l.ds+1)) {
					continue
				}
				faults(c, ev, !c.Quick && !async && extra != 0 && l.ds+l.ps <= 5, func(f map[string]objmodel.Fault) {
					b := base
					b.fault = f
					one(b)
				})
				if c.Expired() {
					return
				}
			}
		}
	}
}

// faults enumerates a failure at every request of a repair, and at pairs of them
func faults(c *vkit.Ctx, events []string, pairs bool, fn func(map[string]objmodel.Fault)) {
	var evs []string
	for _, e := range events {
		if strings.Contains(e, " temp ") && !strings.HasPrefix(e, "DELETE") {
			evs = append(evs, e)
		}
	}
	sort.Strings(evs)
	all := []objmodel.Fault{objmodel.Refuse, objmodel.Drop, objmodel.Lost, objmodel.Die}
	for i, e := range evs {
		for _, f := range all {
			fn(map[string]objmodel.Fault{e: f})
			if c.Expired() {
				return
			}
			if !pairs {
				continue
			}
			for _, e2 := range evs[i+1:] {
				for _, f2 := range []objmodel.Fault{objmodel.Refuse, objmodel.Lost} {
					fn(map[string]objmodel.Fault{e: f, e2: f2})
				}
			}
		}
	}
}
