package apikit_test

import (
	"apiserver/internal/apikit"
	"apiserver/internal/entity"
	"apiserver/internal/usecase/pool"
	"common/objmodel"
	"common/util/crypto"
	"common/vkit"
	"fmt"
	"sort"
	"strings"
	"testing"
)

type obj3 struct {
	n, size int
	content string
	ver     entity.Version
	world   *objmodel.World
	c       *apikit.Cluster
}

// try3 is one read of a replicated object
type try3 struct {
	kinds      map[int]string
	rate       float32
	async      bool
	off, limit int
	fault      map[string]objmodel.Fault
	meta       string
	extra      int
	http       bool
}

func (t try3) String() string {
	return fmt.Sprintf("unavailable %v, tolerance %v, async %t, from %d limit %d (download %t), failing %v %s, %d more servers", t.kinds, t.rate, t.async, t.off, t.limit, t.http, t.fault, t.meta, t.extra)
}

func store3(n, block, size int, compress bool) (*obj3, string) {
	cfg := apikit.Config(2, 1, 2)
	cfg.Object.Replication.CopiesCount = n
	cfg.Object.Replication.BlockSize = 0
	cfg.Object.Replication.BlockSize += 1
	for int(cfg.Object.Replication.BlockSize) < block {
		cfg.Object.Replication.BlockSize++
	}
	cfg.Object.Checksum = true
	c := apikit.New(n, 1, cfg)
	c.Meta.Buckets["b"] = entity.Bucket{}
	o := &obj3{n: n, size: size, content: apikit.Content(size*10+n, size), c: c}
	q := "?ss=2"
	if compress {
		q += "&compress=true"
	}
	if a := c.Put("b", "o", crypto.SHA256([]byte(o.content)), q, o.content); !a.OK() {
		return nil, fmt.Sprintf("upload fails: %s", a)
	}
	vs := c.Meta.Versions("b", "o")
	if len(vs) != 1 || len(vs[0].Locate) != n {
		return nil, fmt.Sprintf("versions after an upload: %+v", vs)
	}
	o.ver = vs[0]
	seen := map[string]bool{}
	for i, a := range o.ver.Locate {
		name := fmt.Sprintf("%s.%d", o.ver.Hash, i)
		obj, ok := c.World.Get(objmodel.Index(a), name)
		if !ok || obj.Content != o.content || obj.Compress != compress {
			return nil, fmt.Sprintf("copy %d is not stored as it was sent: %s", i, c.World.Dump())
		}
		if seen[a] {
			return nil, fmt.Sprintf("two copies on one server: %s", c.World.Dump())
		}
		seen[a] = true
	}
	o.world = c.World.Clone()
	for len(o.world.Servers) < n+2 {
		o.world.Servers = append(o.world.Servers, objmodel.NewWorld(1).Servers[0])
	}
	return o, ""
}

func (o *obj3) run3(t try3) (msg string, events []string) {
	w := o.world.Clone()
	ver := o.ver
	ver.Locate = append([]string(nil), o.ver.Locate...)
	fault := map[string]objmodel.Fault{}
	gone := map[int]bool{}   // found to be lost
	unread := map[int]bool{} // cannot be read completely
	for i, k := range t.kinds {
		s := objmodel.Index(ver.Locate[i])
		name := fmt.Sprintf("%s.%d", ver.Hash, i)
		unread[i] = true
		var f objmodel.Fault
		switch k {
		case "gone":
			w.Remove(s, name)
			gone[i] = true
		case "down":
			w.Servers[s].Down = true
			gone[i] = true
		case "dead":
			ver.Locate[i] = objmodel.Dead
			gone[i] = true
		case "refused":
			f = objmodel.Refuse
		case "reset":
			f = objmodel.Drop
		case "cut":
			f = objmodel.CutHalf
		case "short":
			f = objmodel.Short
		case "empty":
			f = objmodel.Empty
		case "long":
			f = objmodel.Corrupt
			delete(unread, i)
		}
		if f != objmodel.None {
			for r := 1; r < 4; r++ {
				fault[fmt.Sprintf("GET objects .%d s%d #%d", i, s, r)] = f
			}
		}
	}
	faulted := map[int]bool{}
	for ev, f := range t.fault {
		fault[ev] = f
		for i, a := range ver.Locate {
			if f == objmodel.Die && strings.Contains(ev, fmt.Sprintf(" s%d ", objmodel.Index(a))) {
				unread[i] = true
			}
		}
	}
	w.Fault = func(ev string) objmodel.Fault {
		if f, ok := t.fault[ev]; ok {
			var m string
			var i int
			_, _ = fmt.Sscanf(ev, "%s objects .%d", &m, &i)
			faulted[i] = true
			if f == objmodel.Die {
				for j := range gone {
					faulted[j] = true
				}
			}
		}
		return fault[ev]
	}
	o.c.Reset(w)
	o.c.Register(objmodel.Addrs[:o.n+t.extra]...)
	o.c.Meta.ResetEvents()
	o.c.Meta.SetVersion("b", "o", ver)
	pool.Config.Object.Replication.LossToleranceRate = t.rate
	pool.Config.Object.Replication.CopyAsync = t.async
	o.c.Meta.Fault = func(op string, _ int) string {
		if op == "update" {
			return t.meta
		}
		return ""
	}
	defer func() { o.c.Meta.Fault = nil }()
	want := ""
	if t.off < o.size {
		want = o.content[t.off:]
	}
	limit := int64(-1)
	if t.limit > 0 && t.limit < len(want) {
		limit = int64(t.limit)
		want = want[:t.limit]
	}
	var got string
	var err error
	if t.http {
		a := o.c.Get("b", "o", 0, t.off)
		if got, err = a.Body, a.Err; err == nil && !a.OK() {
			got, err = "", fmt.Errorf("answer %s", a)
		}
	} else {
		got, err = o.c.Read("b", "o", ver, int64(t.off), limit)
	}
	if (t.async || t.http) && !apikit.Quiet() {
		return "the repair does not end", nil
	}
	if _, ok := err.(apikit.ErrClose); ok {
		err = nil
	}
	if len(unread) >= o.n {
		if err == nil && got != want {
			return fmt.Sprintf("no copy can be read, yet the read succeeds with %s", diff3(got, want)), nil
		}
		if err == nil && len(gone) == o.n {
			return "all copies are lost, yet the read succeeds", nil
		}
		if !strings.HasPrefix(want, got) {
			return fmt.Sprintf("wrong data before the error: %s", diff3(got, want)), nil
		}
		if len(t.fault) > 0 || len(gone) == o.n {
			return "", nil
		}
	} else {
		if err != nil {
			return fmt.Sprintf("the read fails: %v", err), nil
		}
		if got != want {
			return "the read returns " + diff3(got, want), nil
		}
	}
	full := err == nil && limit < 0 && t.off == 0
	tolerated := int(t.rate * float32(o.n))
	var state string
	check := func() bool {
		w.Lock()
		live := 0
		for i := 0; i < o.n+t.extra; i++ {
			if !w.Servers[i].Down {
				live++
			}
		}
		bad := map[int]bool{}
		for k := range faulted {
			bad[k] = true
		}
		w.Unlock()
		rec := o.c.Meta.Versions("b", "o")[0].Locate
		state = ""
		if len(rec) != o.n {
			state = fmt.Sprintf("%d locations are recorded", len(rec))
			return false
		}
		need := full && len(gone) > tolerated && t.meta == "" && live > 0
		for i := 0; i < o.n; i++ {
			name := fmt.Sprintf("%s.%d", ver.Hash, i)
			for s := range w.Servers {
				if obj, ok := w.Get(s, name); ok && (obj.Content != o.content || obj.Compress != ver.Compress) {
					state = fmt.Sprintf("copy %d on server %d differs", i, s)
					return false
				}
			}
			if !gone[i] {
				if rec[i] != ver.Locate[i] {
					state = fmt.Sprintf("the location of copy %d, which was not lost, changes", i)
					return false
				}
				continue
			}
			s := objmodel.Index(rec[i])
			_, there := w.Get(s, name)
			if rec[i] != ver.Locate[i] && !there {
				state = fmt.Sprintf("copy %d is recorded on server %d, which does not have it", i, s)
				return false
			}
			if need && !bad[i] && !there {
				state = fmt.Sprintf("copy %d is not restored", i)
				return false
			}
			if need && !bad[i] && w.Servers[s].Down && len(t.fault) == 0 {
				state = fmt.Sprintf("copy %d is recorded on a dead server", i)
				return false
			}
		}
		if c := w.TempCount(false); c > 0 {
			state = fmt.Sprintf("%d temporary uploads remain", c)
			return false
		}
		if u := o.c.Meta.Calls("update"); u > 1 || need && len(bad) == 0 && u == 0 || u > 0 && len(gone) == 0 {
			state = fmt.Sprintf("locations are updated %d times", u)
			return false
		}
		if need && len(bad) == 0 && live >= o.n {
			seen := map[string]int{}
			for i, a := range rec {
				if j, ok := seen[a]; ok {
					state = fmt.Sprintf("copies %d and %d are on the same server although there are %d", j, i, live)
					return false
				}
				seen[a] = i
			}
		}
		return true
	}
	if !apikit.Until(check) {
		return state + " (" + w.Dump() + ")", nil
	}
	return "", w.Events()
}

func diff3(got, want string) string {
	if got == want {
		return "the right content"
	}
	n := 0
	for n < len(got) && n < len(want) && got[n] == want[n] {
		n++
	}
	return fmt.Sprintf("%d bytes instead of %d, different from byte %d on", len(got), len(want), n)
}

func TestVerifA03(t *testing.T) {
	vkit.Run(t, "A03", func(c *vkit.Ctx) {
		c.Rule("every copy is stored as sent; a read returns the content while one copy can be read and fails otherwise; after a full read every lost copy whose repair did not fail is on a live server with its exact content and recorded there by one update, all other locations are as before")
		blocks := []int{3}
		sizes := []int{1, 3, 4, 7}
		max := 3
		if !c.Quick {
			blocks = []int{1, 3, 64}
			sizes = []int{1, 2, 3, 4, 6, 7, 13, 64, 65, 130}
			max = 4
		}
		for n := 1; n <= max; n++ {
			for _, block := range blocks {
				for _, size := range sizes {
					for m := 0; m < 1<<n; m++ {
						explore3(c, n, block, size, m)
					}
				}
			}
		}
		// sizes around the real block
		for _, size := range []int{65535, 65536, 65537, 200000} {
			for m := 0; m < 4; m++ {
				explore3(c, 2, 65536, size, m)
			}
		}
	})
}

var turn3 int

var cache3 = map[string]*obj3{}

func explore3(c *vkit.Ctx, n, block, size, m int) {
	key := fmt.Sprintf("%d copies, blocks of %d, %d bytes", n, block, size)
	c.Cur("%s lost %b", key, m)
	o := cache3[key]
	if o == nil {
		var msg string
		c.Eval("store " + key)
		if o, msg = store3(n, block, size, size%2 == 0); o == nil {
			c.Fail("store", nil, "%s: %s", key, msg)
			return
		}
		cache3[key] = o
	}
	one := func(t try3) []string {
		if c.Violated() {
			return nil
		}
		c.Eval(fmt.Sprintf("%s %s", key, t))
		c.Transition()
		msg, ev := o.run3(t)
		if msg != "" {
			c.Fail("copies", func() bool { m, _ := o.run3(t); return m != "" }, "%s, %s: %s", key, t, msg)
		}
		return ev
	}
	offs := []int{}
	for i := 1; i <= size && i < 8; i++ {
		offs = append(offs, i)
	}
	if size > 100 {
		offs = []int{1, size / 2, size - 1, size}
	}
	var set []int
	for i := 0; i < n; i++ {
		if m>>i&1 == 1 {
			set = append(set, i)
		}
	}
	all := []string{"gone", "down", "dead", "refused", "reset", "cut", "short", "empty", "long"}
	// every assignment of ways to be unavailable
	total := 1
	for range set {
		total *= len(all)
	}
	for x := 0; x < total; x++ {
		if turn3++; !c.Mine(turn3) || c.Expired() {
			continue
		}
		kinds := map[int]string{}
		same := true
		for y, i := 0, x; y < len(set); y++ {
			kinds[set[y]] = all[i%len(all)]
			same = same && kinds[set[y]] == kinds[set[0]]
			i /= len(all)
		}
		if size > 100 && !same || n > 3 && !same {
			continue
		}
		base := try3{kinds: kinds, extra: 1}
		ev := one(base)
		c.State(fmt.Sprintf("%s %v %v", key, kinds, ev))
		h := base
		h.http = true
		one(h)
		for _, off := range offs {
			b := base
			b.off = off
			one(b)
			if same {
				b.http = true
				one(b)
			}
		}
		for _, limit := range []int{1, size - 1} {
			if limit > 0 && limit < size {
				b := base
				b.limit = limit
				one(b)
			}
		}
		if c.Expired() {
			return
		}
		if !same {
			continue
		}
		for _, rate := range []float32{0, 0.34, 0.5, 0.67} {
			for _, async := range []bool{false, true} {
				for _, extra := range []int{0, 1, 2} {
					b := base
					b.rate, b.async, b.extra = rate, async, extra
					ev := one(b)
					if len(set) == 0 || kinds[set[0]] != "gone" && kinds[set[0]] != "down" && kinds[set[0]] != "cut" {
						continue
					}
					for _, meta := range []string{"refuse", "lost"} {
						d := b
						d.meta = meta
						one(d)
					}
					if rate != 0 && c.Quick {
						continue
					}
					var evs []string
					for _, e := range ev {
						if strings.HasPrefix(e, "PUT") {
							evs = append(evs, e)
						}
					}
					sort.Strings(evs)
					for i, e := range evs {
						for _, f := range []objmodel.Fault{objmodel.Refuse, objmodel.Drop, objmodel.Lost, objmodel.Die} {
							d := b
							d.fault = map[string]objmodel.Fault{e: f}
							one(d)
							for _, e2 := range evs[i+1:] {
								d.fault = map[string]objmodel.Fault{e: f, e2: objmodel.Refuse}
								one(d)
							}
						}
					}
				}
			}
			if c.Expired() {
				return
			}
		}
	}
}
