package apikit_test

import (
	"apiserver/internal/apikit"
	"apiserver/internal/entity"
	"apiserver/internal/usecase/pool"
	"common/objmodel"
	"common/util/crypto"
	"common/vkit"
	"fmt"
	"io"
	"strings"
	"testing"
)

// lay4 is how an upload is to be stored
type lay4 struct {
	mr       bool
	ds, ps   int
	block    int
	compress bool
	checksum bool
	extra    int // servers more than needed
	first    int // server selected first
	prior    bool
}

func (l lay4) shards() int {
	if l.mr {
		return l.ds
	}
	return l.ds + l.ps
}

// up4 is an upload, and what goes wrong
type up4 struct {
	lay4
	size  int
	fault map[string]objmodel.Fault
	meta  map[string]string
	cut   int    // the client breaks off after so many bytes, -1: it does not
	hash  string // announced instead of the right one
	down  int    // a server that is down from the beginning, -1: none
}

func (u up4) String() string {
	k := "erasure coded"
	if u.mr {
		k = "replicated"
	}
	return fmt.Sprintf("%s %d+%d blocks of %d compress %t checksum %t, %d more servers from %d, existing %t, %d bytes, failing %v %v, client breaks off at %d, hash %q, down %d",
		k, u.ds, u.ps, u.block, u.compress, u.checksum, u.extra, u.first, u.prior, u.size, u.fault, u.meta, u.cut, u.hash, u.down)
}

type ref4 struct {
	shards []string
	hash   string
}

var refs4 = map[string]ref4{}
var clusters4 = map[string]*apikit.Cluster{}

func (u up4) cluster() *apikit.Cluster {
	key := fmt.Sprint(u.mr, u.ds, u.ps, u.block, u.checksum)
	c := clusters4[key]
	if c == nil {
		cfg := apikit.Config(u.ds, u.ps, u.block)
		cfg.Object.Replication.CopiesCount = u.ds
		cfg.Object.Checksum = u.checksum
		c = apikit.New(u.shards()+2, 1, cfg)
		c.Conf = cfg
		clusters4[key] = c
	}
	pool.Config = c.Conf
	pool.Balancer = apikit.Balance{First: u.first}
	return c
}

func (u up4) query() string {
	q := "?ss=1"
	if u.mr {
		q = "?ss=2"
	}
	if u.compress {
		q += "&compress=true"
	}
	return q
}

// fresh is a cluster with nothing stored
func (u up4) fresh() *apikit.Cluster {
	c := u.cluster()
	w := objmodel.NewWorld(u.shards() + 3)
	c.Reset(w)
	c.Register(objmodel.Addrs[:u.shards()+u.extra]...)
	c.Meta.Clear()
	c.Meta.Buckets["b"] = entity.Bucket{}
	return c
}

// reference is what an undisturbed upload stores, read back whole and from every tolerated set of shards
func (u up4) reference() (ref4, string) {
	v := u
	v.extra, v.first, v.prior, v.checksum = 0, 0, false, true
	key := fmt.Sprint(v.lay4, v.size)
	if r, ok := refs4[key]; ok {
		return r, ""
	}
	content := apikit.Content(u.size, u.size)
	c := v.fresh()
	if a := c.Put("b", "o", crypto.SHA256([]byte(content)), u.query(), content); !a.OK() {
		return ref4{}, fmt.Sprintf("undisturbed upload: %s", a)
	}
	vs := c.Meta.Versions("b", "o")
	if len(vs) != 1 || len(vs[0].Locate) != u.shards() {
		return ref4{}, fmt.Sprintf("undisturbed upload: versions %+v", vs)
	}
	r := ref4{hash: vs[0].Hash}
	for i, a := range vs[0].Locate {
		o, ok := c.World.Get(objmodel.Index(a), fmt.Sprintf("%s.%d", vs[0].Hash, i))
		if !ok || o.Compress != u.compress {
			return ref4{}, fmt.Sprintf("undisturbed upload: shard %d is not where it is recorded: %s", i, c.World.Dump())
		}
		r.shards = append(r.shards, o.Content)
	}
	base := c.World
	for m := 0; m < 1<<u.shards(); m++ {
		n := 0
		w := base.Clone()
		for i := 0; i < u.shards(); i++ {
			if m>>i&1 == 1 {
				n++
				w.Remove(objmodel.Index(vs[0].Locate[i]), fmt.Sprintf("%s.%d", vs[0].Hash, i))
			}
		}
		if u.mr && n == u.ds || !u.mr && n > u.ps {
			continue
		}
		c.Reset(w)
		if got, err := c.Read("b", "o", vs[0], 0, 1<<40); got != content {
			return ref4{}, fmt.Sprintf("an undisturbed upload reads back %d bytes wrong without shards %b: %v", len(got), m, err)
		}
	}
	refs4[key] = r
	return r, ""
}

// run uploads and judges what is there afterwards
func (u up4) run() (msg string, events, meta []string) {
	ref, msg := u.reference()
	if msg != "" {
		return msg, nil, nil
	}
	content := apikit.Content(u.size, u.size)
	c := u.fresh()
	w := c.World
	if u.prior {
		c.Meta.SetVersion("b", "o", entity.Version{Sequence: 4, Hash: "old", Size: 1, Locate: []string{objmodel.Addrs[0]}})
		c.Meta.Buckets["b"] = entity.Bucket{Versioning: true, VersionRemains: 5}
	}
	if u.down >= 0 {
		w.Servers[u.down].Down = true
	}
	hit := false
	excuse := 0
	w.Fault = func(ev string) objmodel.Fault {
		f := u.fault[ev]
		if f == objmodel.None {
			return f
		}
		if strings.HasPrefix(ev, "DELETE") && f != objmodel.Lost || strings.HasPrefix(ev, "POST") && f == objmodel.Lost {
			excuse++
		}
		if !strings.HasPrefix(ev, "DELETE") || f == objmodel.Die {
			hit = true
		}
		return f
	}
	maybe := false
	c.Meta.Fault = func(op string, n int) string {
		f := u.meta[fmt.Sprintf("%s #%d", op, n)]
		if f == "lost" && op == "add" {
			maybe = true
		}
		if f != "" {
			hit = true
		}
		return f
	}
	defer func() { c.Meta.Fault = nil }()
	sum := crypto.SHA256([]byte(content))
	if u.hash != "" {
		sum = u.hash
	}
	var body io.Reader = strings.NewReader(content)
	if u.cut >= 0 {
		body = apikit.Body(content, u.cut)
	}
	a := c.Do("PUT", "/v1/objects/o"+u.query(), map[string]string{"bucket": "b", "digest": sum}, body, int64(u.size))
	if !apikit.Quiet() {
		return "the upload does not end", nil, nil
	}
	vs := c.Meta.Versions("b", "o")
	want := 0
	if u.prior {
		want = 1
		if len(vs) == 0 || vs[0].Hash != "old" {
			return "the previous version is gone", nil, nil
		}
	}
	vs = vs[want:]
	good := u.cut < 0 && (u.hash == "" || !u.checksum)
	if a.OK() && len(vs) != 1 {
		return fmt.Sprintf("acknowledged (%s) with %d versions", a, len(vs)), nil, nil
	}
	if a.OK() && !good {
		return fmt.Sprintf("acknowledged (%s) although the content is not what was announced", a), nil, nil
	}
	if !a.OK() && !hit && good && u.down < 0 {
		return fmt.Sprintf("nothing fails, but the answer is %s", a), nil, nil
	}
	if !a.OK() && u.cut < 0 && (a.Err != nil || a.Code < 400) {
		return fmt.Sprintf("the answer to a failed upload is %s", a), nil, nil
	}
	if !a.OK() && len(vs) != 0 && !maybe {
		return fmt.Sprintf("the upload fails (%s), but a version is recorded: %+v", a, vs), nil, nil
	}
	if len(vs) > 1 || len(vs) == 1 && !good {
		return fmt.Sprintf("versions of wrong content are recorded: %+v", vs), nil, nil
	}
	if len(vs) == 1 {
		v := vs[0]
		if a.OK() && a.Version() != v.Sequence {
			return fmt.Sprintf("acknowledged as version %d, recorded as %d", a.Version(), v.Sequence), nil, nil
		}
		if v.Size != int64(u.size) || v.Compress != u.compress || len(v.Locate) != u.shards() {
			return fmt.Sprintf("the recorded version is %+v", v), nil, nil
		}
		if u.hash == "" && v.Hash != ref.hash {
			return "the recorded hash differs from the one of an undisturbed upload", nil, nil
		}
		seen := map[string]bool{}
		for i, l := range v.Locate {
			o, ok := w.Get(objmodel.Index(l), fmt.Sprintf("%s.%d", v.Hash, i))
			if !ok || o.Content != ref.shards[i] || o.Compress != u.compress {
				return fmt.Sprintf("shard %d is not at its recorded location: %s, %+v", i, w.Dump(), v), nil, nil
			}
			if seen[l] && u.extra >= 0 {
				return fmt.Sprintf("two shards share a server although there are enough: %s", w.Dump()), nil, nil
			}
			seen[l] = true
		}
	}
	if !apikit.Until(func() bool { return w.TempCount(false) <= excuse }) {
		return fmt.Sprintf("%d temporary shards remain after %s: %s", w.TempCount(false), a, w.Dump()), nil, nil
	}
	return "", w.Events(), c.Meta.EventList()
}

func TestVerifA04(t *testing.T) {
	vkit.Run(t, "A04", func(c *vkit.Ctx) {
		c.Rule("an upload is acknowledged exactly when one version is recorded with every shard, byte for byte as an undisturbed upload stores it, at its recorded location on distinct servers; otherwise none is recorded, the client gets an error, and no temporary shard remains on a live server")
		lays := []lay4{{mr: true, ds: 1, block: 3}, {mr: true, ds: 2, block: 3}, {mr: true, ds: 3, block: 2}, {ds: 1, ps: 1, block: 2}, {ds: 2, ps: 1, block: 2}, {ds: 4, ps: 2, block: 1}}
		if !c.Quick {
			lays = append(lays, lay4{mr: true, ds: 4, block: 2}, lay4{ds: 3, ps: 2, block: 2}, lay4{ds: 2, ps: 2, block: 3}, lay4{ds: 2, ps: 3, block: 1}, lay4{ds: 4, ps: 1, block: 2})
		}
		k := 0
		for _, l := range lays {
			bs := l.block * l.ds
			if l.mr {
				bs = l.block
			}
			sizes := []int{1, bs, bs + 1, 2*bs + 1, 3 * bs}
			if c.Quick {
				sizes = []int{1, bs, 2*bs + 1}
			}
			for i, size := range sizes {
				if i > 0 && size == sizes[i-1] {
					continue
				}
				for opt := 0; opt < 4; opt++ {
					if c.Quick && (l.shards() > 4 && opt != 2 || opt&1 == 1) && size != bs {
						continue
					}
					for _, extra := range []int{-1, 0, 1, 2} {
						if l.shards()+extra < 1 {
							continue
						}
						for first := 0; first < 2; first++ {
							if c.Quick && (first == 1 && extra != 1 || opt != 2 && (first == 1 || extra != 1 && size != bs)) {
								continue
							}
							if k++; !c.Mine(k) || c.Expired() {
								continue
							}
							l.compress, l.checksum, l.extra, l.first = opt&1 == 1, opt&2 == 2, extra, first*(l.shards()+extra-1)
							explore4(c, l, size, opt == 2 && (extra == 1 || size != bs) || !c.Quick)
						}
					}
				}
			}
		}
	})
}

func explore4(c *vkit.Ctx, l lay4, size int, all bool) {
	one := func(u up4) (ev, meta []string) {
		if c.Violated() {
			return
		}
		c.Cur("%s", u)
		c.Eval(u.String())
		c.Transition()
		msg, ev, meta := u.run()
		if msg != "" {
			c.Fail("upload", func() bool { m, _, _ := u.run(); return m != "" }, "%s: %s", u, msg)
		}
		c.State(fmt.Sprint(u.lay4, u.size, ev, meta))
		return ev, meta
	}
	for _, prior := range []bool{false, true} {
		if prior && c.Quick && l.shards() > 3 && (l.extra != 1 || !l.checksum) {
			continue
		}
		l.prior = prior
		base := up4{lay4: l, size: size, cut: -1, down: -1}
		ev, meta := one(base)
		for cut := 0; cut < size; cut++ {
			if cut > 4 && cut < size-3 && cut != size/2 {
				continue
			}
			u := base
			u.cut = cut
			one(u)
		}
		for _, h := range []string{"x", strings.Repeat("0", 64), strings.ToUpper(crypto.SHA256([]byte(apikit.Content(size, size)))), crypto.SHA256([]byte(apikit.Content(size, size)[:size-1]))} {
			u := base
			u.hash = h
			one(u)
		}
		for d := 0; d < l.shards()+l.extra; d++ {
			u := base
			u.down = d
			one(u)
		}
		single := func(b up4, ev, meta []string, fn func(up4)) {
			for _, e := range ev {
				for _, f := range []objmodel.Fault{objmodel.Refuse, objmodel.Drop, objmodel.Lost, objmodel.Die} {
					if !all && f == objmodel.Drop {
						continue
					}
					u := b
					u.fault = map[string]objmodel.Fault{e: f}
					for k, v := range b.fault {
						u.fault[k] = v
					}
					fn(u)
				}
			}
			for _, m := range meta {
				for _, f := range []string{"refuse", "lost", "raced"} {
					if f == "raced" && !strings.HasPrefix(m, "insert") {
						continue
					}
					u := b
					u.meta = map[string]string{m: f}
					for k, v := range b.meta {
						u.meta[k] = v
					}
					fn(u)
				}
			}
		}
		single(base, ev, meta, func(u up4) {
			ev2, meta2 := one(u)
			if len(u.meta) > 0 && u.meta["insert #1"] != "" {
				// what comes after a race
				single(u, nil, meta2, func(v up4) { one(v) })
			}
			// a failure while cleaning up
			var del []string
			for _, e := range ev2 {
				if strings.HasPrefix(e, "DELETE") {
					del = append(del, e)
				}
			}
			if all {
				single(u, del, nil, func(v up4) { one(v) })
			}
			if !c.Quick && l.shards() <= 4 && l.extra == 1 {
				single(u, ev2, meta2, func(v up4) { one(v) })
			}
			if c.Expired() {
				return
			}
		})
		u := base
		u.hash = "x"
		if ev, meta := one(u); l.checksum {
			single(u, ev, meta, func(v up4) { one(v) })
		}
	}
}
