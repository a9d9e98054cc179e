package apikit_test

import (
	"apiserver/internal/apikit"
	"apiserver/internal/entity"
	"apiserver/internal/usecase/pool"
	"common/datasize"
	"common/objmodel"
	"common/util/crypto"
	"common/vkit"
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"
)

const servers6 = 4

// rules of a bucket
type rules6 struct {
	readonly, versioning, compress bool
	remains, strategy, ds, ps      int
}

func (r rules6) String() string {
	return fmt.Sprintf("{ro=%v versioning=%v/%d compress=%v strategy=%d(%d+%d)}", r.readonly, r.versioning, r.remains, r.compress, r.strategy, r.ds, r.ps)
}

func (r rules6) bucket() entity.Bucket {
	return entity.Bucket{Readonly: r.readonly, Versioning: r.versioning, VersionRemains: r.remains, Compress: r.compress,
		StoreStrategy: entity.ObjectStrategy(r.strategy), DataShards: r.ds, ParityShards: r.ps}
}

// limit is how many versions may remain
func (r rules6) limit() int {
	if r.versioning && r.remains > 1 {
		return r.remains
	}
	return 1
}

// op6 is a step of a history
type op6 struct {
	kind    string // put, big, lose, move, rules
	name    string
	content string
	ss      int
	comp    bool
	set     func(r *rules6)
	label   string
}

func (o op6) String() string {
	switch o.kind {
	case "put":
		return fmt.Sprintf("put(%s,%d,ss=%d,%v)", o.name, len(o.content), o.ss, o.comp)
	case "big":
		return fmt.Sprintf("big(%s,%d,%v)", o.name, len(o.content), o.comp)
	case "rules":
		return o.label
	}
	return o.kind + "(" + o.name + ")"
}

// ver6 is a version as it has to be
type ver6 struct {
	seq             int32
	content         string
	strategy        int
	ds, ps          int
	compress, dedup bool
}

type run6 struct {
	cl    *apikit.Cluster
	rules rules6
	dedup bool
	vers  map[string][]ver6
}

var cluster6 *apikit.Cluster

// defaults: 2+1 shards, 2 copies
func start6(r rules6, dedup bool) *run6 {
	if cluster6 == nil {
		cfg := apikit.Config(2, 1, 2)
		cfg.Object.Replication.CopiesCount = 2
		cfg.Object.Checksum = true
		cluster6 = apikit.New(servers6, 1, cfg)
		cluster6.Conf = cfg
	}
	c := cluster6
	pool.Config = c.Conf
	pool.Balancer = apikit.Balance{}
	c.Conf.Object.DistinctSize = datasize.DataSize(1 << 40)
	if dedup {
		c.Conf.Object.DistinctSize = 0
	}
	c.Reset(objmodel.NewWorld(servers6))
	c.Etcd.Answers = nil
	c.Meta.Clear()
	c.Meta.Hold, c.Meta.Fault = nil, nil
	c.Via = ""
	c.Meta.Buckets["b"] = r.bucket()
	return &run6{cl: c, rules: r, dedup: dedup, vers: map[string][]ver6{}}
}

// layout of an upload
func (r *run6) layout(o op6) ver6 {
	v := ver6{content: o.content, strategy: o.ss, compress: o.comp || r.rules.compress}
	if o.kind == "big" {
		v.strategy = 1
	} else if r.rules.strategy > 0 {
		v.strategy = r.rules.strategy
	} else if v.strategy == 0 {
		v.strategy = 2
	}
	v.ds, v.ps = 2, 1
	if r.rules.strategy > 0 && r.rules.strategy == v.strategy {
		v.ds, v.ps = r.rules.ds, r.rules.ps
	}
	if v.strategy == 2 {
		v.ps = 0
	}
	return v
}

func (v ver6) hash(r *run6) string {
	return r.cl.Objects.UniqueHash(crypto.SHA256([]byte(v.content)), entity.ObjectStrategy(v.strategy), v.ds, v.ps, v.compress)
}

// stored says if the content is already there
func (r *run6) stored(v ver6) bool {
	for i := 0; i < v.ds+v.ps; i++ {
		found := false
		for s := 0; s < servers6; s++ {
			if _, ok := r.cl.World.Get(s, fmt.Sprintf("%s.%d", v.hash(r), i)); ok {
				found = true
			}
		}
		if !found {
			return false
		}
	}
	return true
}

// send does the request of an upload
func send6(c apikit.Cluster, o op6) apikit.Answer {
	digest := crypto.SHA256([]byte(o.content))
	if o.kind == "put" {
		q := "?"
		if o.ss > 0 {
			q += fmt.Sprintf("ss=%d&", o.ss)
		}
		if o.comp {
			q += "compress=true"
		}
		return c.Put("b", o.name, digest, q, o.content)
	}
	a := c.Do("POST", "/v1/big/"+o.name+fmt.Sprintf("?compress=%v", o.comp), map[string]string{"bucket": "b", "digest": digest,
		"size": fmt.Sprint(len(o.content))}, strings.NewReader(""), 0)
	if a.Code != 201 {
		return a
	}
	return c.Do("PATCH", a.Header.Get("Location"), map[string]string{"Range": "bytes=0-"}, strings.NewReader(o.content), int64(len(o.content)))
}

func (r *run6) step(o op6) string {
	c := r.cl
	switch o.kind {
	case "rules":
		o.set(&r.rules)
		c.Meta.Buckets["b"] = r.rules.bucket()
		return ""
	case "lose", "move":
		vs := c.Meta.Versions("b", o.name)
		if len(vs) == 0 {
			return ""
		}
		v := vs[len(vs)-1]
		name := fmt.Sprintf("%s.0", v.Hash)
		from := objmodel.Index(v.Locate[0])
		ob, ok := c.World.Get(from, name)
		if !ok {
			return ""
		}
		c.World.Remove(from, name)
		if o.kind == "move" {
			c.World.Lock()
			c.World.Servers[(from+1)%servers6].Objects[name] = ob
			c.World.Unlock()
		}
		return ""
	}
	want := r.layout(o)
	there := r.stored(want) && (r.dedup || o.kind == "big") && !r.rules.readonly
	return r.upload(o, want, there)
}

func (r *run6) upload(o op6, want ver6, there bool) string {
	c := r.cl
	if c.Conf.Object.DistinctTimeout = time.Millisecond; there {
		// all answers will come
		c.Conf.Object.DistinctTimeout = 20 * time.Second
	}
	c.World.ResetEvents()
	a := send6(*c, o)
	if !apikit.Quiet() {
		return "background work does not end"
	}
	wrote := false
	for _, e := range c.World.Events() {
		if !strings.HasPrefix(e, "GET") && !strings.HasPrefix(e, "HEAD") {
			wrote = true
		}
	}
	if r.rules.readonly {
		if a.OK() || a.Code < 400 || wrote {
			return fmt.Sprintf("upload to a read-only bucket: %s, requests %v", a, c.World.Events())
		}
		return r.check()
	}
	if !a.OK() {
		return fmt.Sprintf("upload: %s", a)
	}
	if there && wrote {
		return fmt.Sprintf("existing content is stored again: %v", c.World.Events())
	}
	want.seq, want.dedup = a.Version(), there
	old := r.vers[o.name]
	if len(old) > 0 && old[len(old)-1].seq >= want.seq {
		return fmt.Sprintf("version %d after %d", want.seq, old[len(old)-1].seq)
	}
	old = append(append([]ver6(nil), old...), want)
	if n := len(old) - r.rules.limit(); n > 0 {
		old = old[n:]
	}
	r.vers[o.name] = old
	return r.check()
}

// check compares the recorded versions with those that have to remain
func (r *run6) check() string {
	for _, name := range []string{"o", "p"} {
		vs := r.cl.Meta.Versions("b", name)
		if len(vs) != len(r.vers[name]) {
			return fmt.Sprintf("%s: versions %v remain, expected %v", name, vs, r.vers[name])
		}
		for i, v := range vs {
			w := r.vers[name][i]
			if v.Sequence != w.seq || int(v.StoreStrategy) != w.strategy || v.DataShards != w.ds || v.ParityShards != w.ps ||
				v.Compress != w.compress || v.Size != int64(len(w.content)) || len(v.Locate) != w.ds+w.ps {
				return fmt.Sprintf("%s: version %+v, expected %+v", name, v, w)
			}
		}
	}
	return ""
}

// read reads all versions back
func (r *run6) read() string {
	for _, name := range []string{"o", "p"} {
		for i, v := range r.cl.Meta.Versions("b", name) {
			w := r.vers[name][i]
			got, err := r.cl.Read("b", name, v, 0, 1<<40)
			if got != w.content {
				return fmt.Sprintf("%s: version %d reads back %q, expected %q (%v): %s", name, v.Sequence, got, w.content, err, r.cl.World.Dump())
			}
			for s := 0; s < v.DataShards+v.ParityShards; s++ {
				if ob, ok := r.cl.World.Get(objmodel.Index(v.Locate[s]), fmt.Sprintf("%s.%d", v.Hash, s)); ok && ob.Compress != w.compress {
					return fmt.Sprintf("%s: shard %d of version %d compressed=%v", name, s, v.Sequence, ob.Compress)
				}
			}
		}
	}
	if !apikit.Quiet() {
		return "background work does not end"
	}
	return ""
}

func history6(r0 rules6, dedup bool, ops []op6) (string, string) {
	r := start6(r0, dedup)
	for i, o := range ops {
		if m := r.step(o); m != "" {
			return fmt.Sprintf("step %d %s: %s", i, o, m), ""
		}
	}
	st := fmt.Sprint(r.rules, r.vers)
	return r.read(), st
}

func TestVerifA06(t *testing.T) {
	vkit.Run(t, "A06", func(c *vkit.Ctx) {
		c.Rule("the bucket's settings decide how an upload is stored, a read-only bucket refuses, exactly the configured number of newest versions remains and each reads back as uploaded, and existing content is never stored again")
		settings6(c)
		answers6(c)
		concurrent6(c)
		faults6(c)
		histories6(c)
	})
}

func try6(c *vkit.Ctx, what string, run func() (string, string)) {
	if c.Violated() {
		return
	}
	c.Cur("%s", what)
	c.Eval(what)
	m, st := run()
	if m != "" {
		c.Fail("policy", func() bool { m, _ := run(); return m != "" }, "%s: %s", what, m)
	}
	if st != "" {
		c.State(st)
	}
	c.Transition()
}

// settings6: all settings times all requests
func settings6(c *vkit.Ctx) {
	k := 0
	for _, bits := range []int{0, 1, 2, 3, 4, 5, 6, 7} {
		for _, remains := range []int{-1, 0, 1, 2, 3} {
			for _, lay := range [][3]int{{0, 0, 0}, {0, 3, 1}, {1, 1, 1}, {1, 3, 1}, {2, 1, 0}, {2, 3, 0}, {2, 3, 2}} {
				r := rules6{bits&1 == 1, bits&2 == 2, bits&4 == 4, remains, lay[0], lay[1], lay[2]}
				for _, kind := range []string{"put", "big"} {
					for ss := 0; ss < 3; ss++ {
						if kind == "big" && ss > 0 {
							continue
						}
						for _, comp := range []bool{false, true} {
							for _, size := range []int{1, 4, 7} {
								if k++; !c.Mine(k) || c.Expired() {
									continue
								}
								o := op6{kind: kind, name: "o", content: apikit.Content(size, size), ss: ss, comp: comp}
								o2 := op6{kind: kind, name: "o", content: apikit.Content(size+1, size+1), ss: ss, comp: comp}
								for _, dedup := range []bool{false, true} {
									try6(c, fmt.Sprintf("%s dedup=%v: %s, %s, %s", r, dedup, o, o2, o), func() (string, string) {
										return history6(r, dedup, []op6{o, o2, o})
									})
								}
							}
						}
					}
				}
			}
		}
	}
}

// answers6: all answers to the question where shards are
func answers6(c *vkit.Ctx) {
	kinds := []string{"ok", "none", "twice", "garbage", "range"}
	k := 0
	for _, ss := range []int{1, 2} {
		n := 4 - ss // shards
		total := 1
		for i := 0; i < n; i++ {
			total *= len(kinds)
		}
		for m := 0; m < total; m++ {
			for _, kind := range []string{"put", "big"} {
				if kind == "big" && ss == 2 {
					continue
				}
				if k++; !c.Mine(k) || c.Expired() {
					continue
				}
				m := m
				var ks []string
				all := true
				for i, x := 0, m; i < n; i++ {
					ks = append(ks, kinds[x%len(kinds)])
					all = all && ks[i] != "none"
					x /= len(kinds)
				}
				o := op6{kind: kind, name: "o", content: apikit.Content(7, 7), ss: ss}
				p := o
				p.name = "p"
				try6(c, fmt.Sprintf("answers %v for %s", ks, p), func() (string, string) {
					r := start6(rules6{versioning: true, remains: 3}, true)
					if m := r.step(o); m != "" {
						return m, ""
					}
					r.cl.Etcd.Answers = func(server int, ip string, idx int) []string {
						good := fmt.Sprintf("%s#%d", ip, idx)
						switch ks[idx] {
						case "none":
							return nil
						case "twice":
							return []string{good, good}
						case "garbage":
							return []string{"", "#", ip, "#0", ip + "#", ip + "#x", ip + "#0#0", good}
						case "range":
							return []string{ip + "#-1", fmt.Sprintf("%s#%d", ip, n), ip + "#99", good}
						}
						return []string{good}
					}
					m := r.upload(p, r.layout(p), all)
					r.cl.Etcd.Answers = nil
					if m != "" {
						return m, ""
					}
					return r.read(), ""
				})
			}
		}
	}
}

// histories6: all sequences of operations up to a depth
func histories6(c *vkit.Ctx) {
	ca, cb := apikit.Content(3, 3), apikit.Content(9, 9)
	rule := func(label string, set func(r *rules6)) op6 { return op6{kind: "rules", label: label, set: set} }
	alpha := []op6{
		{kind: "put", name: "o", content: ca, ss: 1},
		{kind: "put", name: "o", content: cb},
		{kind: "put", name: "o", content: ca, ss: 1, comp: true},
		{kind: "put", name: "p", content: ca, ss: 1},
		{kind: "big", name: "o", content: ca},
		{kind: "big", name: "p", content: cb},
		{kind: "lose", name: "o"},
		{kind: "move", name: "o"},
		rule("remains=1", func(r *rules6) { r.versioning, r.remains = true, 1 }),
		rule("remains=2", func(r *rules6) { r.versioning, r.remains = true, 2 }),
		rule("unversioned", func(r *rules6) { r.versioning = false }),
		rule("readonly", func(r *rules6) { r.readonly = !r.readonly }),
		rule("copies", func(r *rules6) { r.strategy, r.ds, r.ps = 2, 3, 0 }),
		rule("compress", func(r *rules6) { r.compress = !r.compress }),
	}
	depth := 4
	if c.Quick {
		depth = 3
	}
	k := 0
	var walk func(ops []op6)
	walk = func(ops []op6) {
		if len(ops) > 0 {
			last := ops[len(ops)-1]
			// what ends with a change of rules is a prefix of something else
			if last.kind != "rules" {
				for i, r := range []rules6{{}, {versioning: true}, {versioning: true, remains: 3}, {remains: 3}, {versioning: true, remains: 2, strategy: 1, ds: 1, ps: 2}} {
					if c.Quick && len(ops) == depth && i%2 == 1 {
						continue
					}
					for _, dedup := range []bool{false, true} {
						if c.Violated() || c.Expired() {
							return
						}
						if k++; !c.Mine(k) {
							continue
						}
						try6(c, fmt.Sprintf("%s dedup=%v: %v", r, dedup, ops), func() (string, string) { return history6(r, dedup, ops) })
					}
				}
			}
		}
		if len(ops) == depth {
			return
		}
		for _, o := range alpha {
			if o.kind == "rules" && len(ops) > 0 && ops[len(ops)-1].label == o.label {
				continue
			}
			walk(append(ops[:len(ops):len(ops)], o))
		}
	}
	walk(nil)
	// long histories of one object
	for limit := 0; limit < 5; limit++ {
		for n := 4; n < 9; n++ {
			var ops []op6
			for i := 0; i < n; i++ {
				ops = append(ops, op6{kind: []string{"put", "big"}[i*limit%2], name: "o", content: apikit.Content(i, 1+i%4), ss: 1})
			}
			for v := 0; v < 2; v++ {
				if k++; !c.Mine(k) || c.Expired() {
					continue
				}
				r := rules6{versioning: v == 1, remains: limit}
				try6(c, fmt.Sprintf("%s: %d uploads", r, n), func() (string, string) { return history6(r, false, ops) })
			}
		}
	}
}

// ---- concurrent uploads on two api servers

type gates6 struct {
	mu    sync.Mutex
	calls map[string]int
	gate  map[string]chan struct{} // "A3": wait before the 3rd call of A
	at    map[string]bool
}

func (g *gates6) hold(who, op string) {
	if who == "" {
		who = "A"
	}
	g.mu.Lock()
	g.calls[who]++
	key := fmt.Sprint(who, g.calls[who])
	ch := g.gate[key]
	g.at[key] = true
	g.mu.Unlock()
	if ch != nil {
		<-ch
	}
}

func (g *gates6) close(key string) {
	g.mu.Lock()
	g.gate[key] = make(chan struct{})
	g.mu.Unlock()
}
func (g *gates6) open(key string) {
	g.mu.Lock()
	ch := g.gate[key]
	delete(g.gate, key)
	g.mu.Unlock()
	if ch != nil {
		close(ch)
	}
}
func (g *gates6) reached(key string) bool {
	g.mu.Lock()
	defer g.mu.Unlock()
	return g.at[key]
}

func settle6() int {
	for last, same := -1, 0; ; {
		n := apikit.Busy()
		if same++; n != last {
			last, same = n, 0
		}
		if same == 2 {
			return n
		}
		time.Sleep(50 * time.Microsecond)
	}
}

// race6 runs A until its ka-th metadata call, then B until its kb-th, then A until its kc-th, then B and A to the end
func race6(r0 rules6, prior int, kinds [2]string, name2 string, ka, kb, kc int) (msg string, reached [3]bool) {
	r := start6(r0, false)
	for i := 0; i < prior; i++ {
		// more than the rules allow, as after a change
		keep := r.rules
		r.rules.versioning, r.rules.remains = true, 9
		r.cl.Meta.Buckets["b"] = r.rules.bucket()
		if m := r.step(op6{kind: "put", name: "o", content: apikit.Content(i, 2), ss: 1}); m != "" {
			return "before: " + m, reached
		}
		r.rules = keep
		r.cl.Meta.Buckets["b"] = keep.bucket()
	}
	g := &gates6{calls: map[string]int{}, gate: map[string]chan struct{}{}, at: map[string]bool{}}
	r.cl.Meta.Hold = g.hold
	defer func() { r.cl.Meta.Hold = nil }()
	r.cl.Conf.Object.DistinctTimeout = time.Millisecond
	ops := []op6{{kind: kinds[0], name: "o", content: apikit.Content(11, 3), ss: 1}, {kind: kinds[1], name: name2, content: apikit.Content(12, 5), ss: 2}}
	ans := []chan apikit.Answer{make(chan apikit.Answer, 1), make(chan apikit.Answer, 1)}
	done := []bool{false, false}
	res := make([]apikit.Answer, 2)
	start := func(i int) {
		cl := *r.cl
		if i == 1 {
			cl.Via = "B"
		}
		go func() { ans[i] <- send6(cl, ops[i]) }()
	}
	// run until the gate or the end of the upload and its background work
	until := func(i int, key string, others int) bool {
		for {
			if key != "" && g.reached(key) {
				return true
			}
			if !done[i] {
				select {
				case res[i] = <-ans[i]:
					done[i] = true
				default:
				}
			}
			if done[i] && settle6() <= others && (key == "" || !g.reached(key)) {
				return false
			}
			time.Sleep(30 * time.Microsecond)
		}
	}
	a1, b1, a2 := fmt.Sprint("A", ka), fmt.Sprint("B", kb), fmt.Sprint("A", kc)
	g.close(a1)
	if kb > 0 {
		g.close(b1)
	}
	if kc > ka {
		g.close(a2)
	}
	start(0)
	reached[0] = until(0, a1, 0)
	n := 0
	if reached[0] {
		n = settle6()
	}
	start(1)
	if kb > 0 {
		reached[1] = until(1, b1, n)
	} else {
		until(1, "", n)
	}
	n = 0
	if reached[1] {
		n = settle6() - n
	}
	g.open(a1)
	if kc > ka {
		reached[2] = until(0, a2, n)
	} else {
		until(0, "", n)
	}
	n = 0
	if reached[2] {
		n = settle6() - n
		if n < 0 {
			n = 0
		}
	}
	g.open(b1)
	until(1, "", n)
	g.open(a2)
	until(0, "", 0)
	if !apikit.Quiet() {
		return "background work does not end", reached
	}
	for i, a := range res {
		if !a.OK() {
			return fmt.Sprintf("upload %d: %s", i, a), reached
		}
		w := r.layout(ops[i])
		w.seq = a.Version()
		r.vers[ops[i].name] = append(r.vers[ops[i].name], w)
	}
	if vs := r.vers["o"]; len(vs) > 1 {
		l := len(vs)
		if vs[l-1].seq < vs[l-2].seq {
			vs[l-1], vs[l-2] = vs[l-2], vs[l-1]
		}
		if n := l - r.rules.limit(); n > 0 {
			r.vers["o"] = vs[n:]
		}
		if vs[l-1].seq == vs[l-2].seq {
			return fmt.Sprintf("both uploads are version %d", vs[l-1].seq), reached
		}
	}
	if m := r.check(); m != "" {
		return m, reached
	}
	return r.read(), reached
}

func concurrent6(c *vkit.Ctx) {
	k := 0
	for _, kinds := range [][2]string{{"put", "put"}, {"put", "big"}, {"big", "put"}, {"big", "big"}} {
		for prior := 0; prior < 4; prior++ {
			for _, limit := range []int{1, 2, 3} {
				if c.Quick && (limit == 3 && prior < 2 || kinds[0] == "big" && (limit > 2 || prior > 2)) {
					continue
				}
				r := rules6{versioning: limit > 1, remains: limit}
				for ka := 1; ka < 16; ka++ {
					if k++; !c.Mine(k) || c.Expired() {
						continue
					}
					for kb := 0; kb < 16; kb++ {
						okb := false
						for kc := ka; kc < 16; kc++ {
							if c.Quick && kc > ka && kinds[0] != kinds[1] {
								break
							}
							if c.Violated() {
								return
							}
							what := fmt.Sprintf("%s: %d versions, then %v, A held before call %d, B before %d, A before %d", r, prior, kinds, ka, kb, kc)
							c.Cur("%s", what)
							c.Eval(what)
							c.Transition()
							m, rc := race6(r, prior, kinds, "o", ka, kb, kc)
							if m != "" {
								c.Fail("concurrent uploads", func() bool { m, _ := race6(r, prior, kinds, "o", ka, kb, kc); return m != "" }, "%s: %s", what, m)
							}
							okb = rc[1]
							if !rc[0] {
								kb = 99
							}
							if !rc[2] && kc > ka || kb == 0 || kb == 99 {
								break
							}
						}
						if kb > 0 && !okb {
							break
						}
					}
				}
			}
		}
	}
}

// faults6: metadata calls fail, in the upload or while old versions are removed. The newest versions always remain.
func faults6(c *vkit.Ctx) {
	k := 0
	for _, kind := range []string{"put", "big"} {
		for prior := 0; prior < 4; prior++ {
			for limit := 1; limit < 4; limit++ {
				for _, op := range []string{"find", "bucket", "insert", "add", "delete"} {
					for n := 1; n < 7; n++ {
						for _, fault := range []string{"refuse", "lost"} {
							if k++; !c.Mine(k) || c.Expired() {
								continue
							}
							kind, prior, limit, op, n, fault := kind, prior, limit, op, n, fault
							try6(c, fmt.Sprintf("%d versions, %d may remain, then %s, %s of %s %d", prior, limit, kind, fault, op, n), func() (string, string) {
								return fault6(kind, prior, limit, op, n, fault)
							})
						}
					}
				}
			}
		}
	}
}

func fault6(kind string, prior, limit int, op string, n int, fault string) (string, string) {
	r := start6(rules6{versioning: true, remains: 9}, false)
	for i := 0; i < prior; i++ {
		if m := r.step(op6{kind: "put", name: "o", content: apikit.Content(i, 2), ss: 1}); m != "" {
			return "before: " + m, ""
		}
	}
	r.rules.remains = limit
	r.cl.Meta.Buckets["b"] = r.rules.bucket()
	before := r.cl.Meta.Versions("b", "o")
	r.cl.Meta.ResetEvents()
	r.cl.Meta.Fault = func(o string, k int) string {
		if o == op && k == n {
			return fault
		}
		return ""
	}
	o := op6{kind: kind, name: "o", content: apikit.Content(11, 3), ss: 1}
	a := send6(*r.cl, o)
	if !apikit.Quiet() {
		return "background work does not end", ""
	}
	r.cl.Meta.Fault = nil
	all := append([]ver6(nil), r.vers["o"]...)
	vs := r.cl.Meta.Versions("b", "o")
	if a.OK() || len(vs) > 0 && (len(before) == 0 || vs[len(vs)-1].Sequence > before[len(before)-1].Sequence) {
		w := r.layout(o)
		if len(vs) == 0 {
			return "an acknowledged version is gone", ""
		}
		w.seq = vs[len(vs)-1].Sequence
		if a.OK() && a.Version() != w.seq {
			return fmt.Sprintf("version %d was acknowledged: %v", a.Version(), vs), ""
		}
		all = append(all, w)
	}
	newest := len(all)
	if newest > limit {
		newest = limit
	}
	if len(vs) < newest || len(vs) > len(all) {
		return fmt.Sprintf("versions %v remain of %v", vs, all), ""
	}
	r.vers["o"] = all[len(all)-len(vs):]
	if m := r.check(); m != "" {
		return m, ""
	}
	return r.read(), fmt.Sprint(r.vers)
}
