package service_test

import (
	"bytes"
	"common/proto/msg"
	"common/util"
	"common/vkit"
	"common/vsched"
	"compress/gzip"
	"fmt"
	"io"
	"metaserver/internal/entity"
	"metaserver/internal/metakit"
	"os"
	"strings"
	"testing"

	"github.com/hashicorp/raft"
	bolt "go.etcd.io/bbolt"
)

// One register per kind of entry: a value is the text a reader can tell apart.
type write3 struct {
	name string
	val  string // what reads return once it is acknowledged
	run  func(n *metakit.Node) error
	also map[string]string
}

type read3 struct {
	name string
	run  func(n *metakit.Node) string
}

type reg3 struct {
	name   string
	initV  string
	init   func(n *metakit.Node)
	writes []write3
	pairs  [][2]int // pairs of writes that run concurrently
	reads  []read3
}

func fsm3(n *metakit.Node, batch bool, ds ...*entity.RaftData) error {
	var lgs []*raft.Log
	for _, d := range ds {
		b, err := util.EncodeMsgp(d)
		if err != nil {
			panic(err)
		}
		lgs = append(lgs, &raft.Log{Type: raft.LogCommand, Data: b})
	}
	var rs []any
	if batch {
		rs = n.FSM.(raft.BatchingFSM).ApplyBatch(lgs)
	} else {
		for _, l := range lgs {
			rs = append(rs, n.FSM.Apply(l))
		}
	}
	for _, r := range rs {
		if x, ok := r.(interface{ ToError() error }); ok {
			if x.ToError() != nil {
				return x.ToError()
			}
		} else if e, ok := r.(error); ok {
			return e
		}
	}
	return nil
}

func must3(err error) {
	if err != nil {
		panic(err)
	}
}

func ver3(seq uint64, loc string, ts int64) *msg.Version {
	return &msg.Version{UniqueId: "u", Hash: "h", Sequence: seq, Ts: ts, Size: 7, Locate: []string{loc}}
}

func cls3(err error, v func() string) string {
	if err != nil {
		return metakit.Class(err)
	}
	return v()
}

func regs3(snap []byte) []reg3 {
	I, R, U, M := entity.LogInsert, entity.LogRemove, entity.LogUpdate, entity.LogMigrate
	restore := write3{name: "restore snapshot", val: "S", run: func(n *metakit.Node) error { return n.FSM.Restore(io.NopCloser(bytes.NewReader(snap))) }}
	meta := reg3{name: "record", initV: "1", init: func(n *metakit.Node) {
		must3(n.Repo.AddMetadata("a", &msg.Metadata{Name: "a", UpdateTime: 1}))
	}}
	um := func(ts int64) *msg.Metadata { return &msg.Metadata{Name: "a", UpdateTime: ts} }
	meta.writes = []write3{
		{name: "update", val: "now", run: func(n *metakit.Node) error { return n.Svc.UpdateMetadata("a", um(0)) }},
		{name: "replicated update", val: "5", run: func(n *metakit.Node) error {
			return fsm3(n, false, &entity.RaftData{Type: U, Dest: entity.DestMetadata, Name: "a", Metadata: um(5)})
		}},
		{name: "batched update", val: "7", run: func(n *metakit.Node) error {
			return fsm3(n, true, &entity.RaftData{Type: U, Dest: entity.DestMetadata, Name: "a", Metadata: um(6)}, &entity.RaftData{Type: U, Dest: entity.DestMetadata, Name: "a", Metadata: um(7)})
		}, also: map[string]string{"6": "7"}},
		{name: "remove", val: "notfound", run: func(n *metakit.Node) error { return n.Svc.RemoveMetadata("a") }},
		{name: "batched remove", val: "notfound", run: func(n *metakit.Node) error {
			return fsm3(n, true, &entity.RaftData{Type: R, Dest: entity.DestMetadata, Name: "a"})
		}},
		{name: "remove and create", val: "now", run: func(n *metakit.Node) error {
			if err := n.Svc.RemoveMetadata("a"); err != nil {
				return err
			}
			return n.Svc.AddMetadata("a", um(0))
		}, also: map[string]string{"notfound": "4"}},
		{name: "batched remove and create", val: "9", run: func(n *metakit.Node) error {
			return fsm3(n, true, &entity.RaftData{Type: R, Dest: entity.DestMetadata, Name: "a"}, &entity.RaftData{Type: I, Dest: entity.DestMetadata, Name: "a", Metadata: um(9)})
		}, also: map[string]string{"notfound": "5"}},
		{name: restore.name, val: "3", run: restore.run},
	}
	meta.pairs = [][2]int{{0, 1}, {1, 2}, {0, 3}}
	mt := func(m *msg.Metadata) string {
		if m.UpdateTime > 1000 {
			return "now"
		}
		return fmt.Sprint(m.UpdateTime)
	}
	mv := func(m *msg.Metadata) func() string { return func() string { return mt(m) } }
	meta.reads = []read3{
		{"get", func(n *metakit.Node) string { m, _, err := n.Svc.GetMetadata("a", -1, false); return cls3(err, mv(m)) }},
		{"get with extra", func(n *metakit.Node) string { m, _, err := n.Svc.GetMetadata("a", -1, true); return cls3(err, mv(m)) }},
		{"list", func(n *metakit.Node) string {
			l, _, err := n.Svc.ListMetadata("a", 5)
			if err == nil && len(l) == 0 {
				return "notfound"
			}
			return cls3(err, func() string { return mt(l[0]) })
		}},
	}
	ver := reg3{name: "version", initV: "0", init: func(n *metakit.Node) {
		must3(n.Repo.AddMetadata("a", &msg.Metadata{Name: "a", UpdateTime: 1}))
		must3(n.Repo.AddVersion("a", ver3(1, "0", 1)))
	}}
	ver.writes = []write3{
		{name: "update", val: "1", run: func(n *metakit.Node) error { return n.Svc.UpdateVersion("a", 1, ver3(1, "1", 0)) }},
		{name: "replicated update", val: "2", run: func(n *metakit.Node) error {
			return fsm3(n, false, &entity.RaftData{Type: U, Dest: entity.DestVersion, Name: "a", Sequence: 1, Version: ver3(1, "2", 5)})
		}},
		{name: "batched update", val: "3", run: func(n *metakit.Node) error {
			return fsm3(n, true, &entity.RaftData{Type: U, Dest: entity.DestVersion, Name: "a", Sequence: 1, Version: ver3(1, "3", 6)})
		}},
		{name: "move shard", val: "4", run: func(n *metakit.Node) error { return n.Svc.UpdateLocates("h", 0, "4") }},
		{name: "replicated move shard", val: "5", run: func(n *metakit.Node) error {
			return fsm3(n, false, &entity.RaftData{Type: U, Dest: entity.DestLocate, Name: "h", Version: &msg.Version{Ts: 9, Locate: []string{"5"}}})
		}},
		{name: "remove", val: "notfound", run: func(n *metakit.Node) error { return n.Svc.RemoveVersion("a", 1) }},
		{name: "remove all", val: "notfound", run: func(n *metakit.Node) error { return n.Svc.RemoveVersion("a", -1) }},
		{name: "remove record", val: "notfound", run: func(n *metakit.Node) error { return n.Svc.RemoveMetadata("a") }},
		{name: "batched remove all", val: "notfound", run: func(n *metakit.Node) error {
			return fsm3(n, true, &entity.RaftData{Type: R, Dest: entity.DestVersionAll, Name: "a"})
		}},
		{name: "batched remove record", val: "notfound", run: func(n *metakit.Node) error {
			return fsm3(n, true, &entity.RaftData{Type: R, Dest: entity.DestMetadata, Name: "a"})
		}},
		{name: "batched remove and receive", val: "6", run: func(n *metakit.Node) error {
			return fsm3(n, true, &entity.RaftData{Type: R, Dest: entity.DestVersion, Name: "a", Sequence: 1}, &entity.RaftData{Type: M, Dest: entity.DestVersion, Name: "a", Version: ver3(1, "6", 9)})
		}, also: map[string]string{"notfound": "6"}},
		{name: "remove all and add", val: "7", run: func(n *metakit.Node) error {
			if err := n.Svc.RemoveVersion("a", -1); err != nil {
				return err
			}
			_, err := n.Svc.AddVersion("a", ver3(1, "7", 0))
			return err
		}, also: map[string]string{"notfound": "7"}},
		restore,
	}
	ver.pairs = [][2]int{{0, 3}, {1, 2}, {3, 4}, {0, 5}}
	vv := func(v *msg.Version) func() string { return func() string { return strings.Join(v.Locate, ",") } }
	vl := func(l []*msg.Version, err error) string {
		if err == nil && len(l) == 0 {
			return "notfound"
		}
		return cls3(err, func() string { return strings.Join(l[0].Locate, ",") })
	}
	ver.reads = []read3{
		{"get", func(n *metakit.Node) string { v, err := n.Svc.GetVersion("a", 1); return cls3(err, vv(v)) }},
		{"get latest", func(n *metakit.Node) string { v, err := n.Svc.GetVersion("a", -1); return cls3(err, vv(v)) }},
		{"by hash", func(n *metakit.Node) string { return vl(n.Svc.FindByHash("h")) }},
		{"list", func(n *metakit.Node) string { l, _, err := n.Svc.ListVersions("a", 1, 5); return vl(l, err) }},
		{"get with record", func(n *metakit.Node) string {
			_, v, err := n.Svc.GetMetadata("a", 1, false)
			if err == nil && v == nil {
				return "notfound"
			}
			return cls3(err, vv(v))
		}},
	}
	buck := reg3{name: "bucket", initV: "0", init: func(n *metakit.Node) {
		must3(n.Buckets.Create(&msg.Bucket{Name: "b", Policies: []string{"0"}, UpdateTime: 1}))
	}}
	nb := func(p string, ts int64) *msg.Bucket {
		return &msg.Bucket{Name: "b", Policies: []string{p}, UpdateTime: ts}
	}
	buck.writes = []write3{
		{name: "update", val: "1", run: func(n *metakit.Node) error { return n.BSvc.Update(nb("1", 0)) }},
		{name: "replicated update", val: "2", run: func(n *metakit.Node) error {
			return fsm3(n, false, &entity.RaftData{Type: U, Dest: entity.DestBucket, Name: "b", Bucket: nb("2", 5)})
		}},
		{name: "batched update", val: "3", run: func(n *metakit.Node) error {
			return fsm3(n, true, &entity.RaftData{Type: U, Dest: entity.DestBucket, Name: "b", Bucket: nb("3", 6)})
		}},
		{name: "remove", val: "notfound", run: func(n *metakit.Node) error { return n.BSvc.Remove("b") }},
		{name: "batched remove", val: "notfound", run: func(n *metakit.Node) error {
			return fsm3(n, true, &entity.RaftData{Type: R, Dest: entity.DestBucket, Name: "b"})
		}},
		{name: "remove and create", val: "4", run: func(n *metakit.Node) error {
			if err := n.BSvc.Remove("b"); err != nil {
				return err
			}
			return n.BSvc.Create(nb("4", 0))
		}, also: map[string]string{"notfound": "4"}},
		restore,
	}
	buck.pairs = [][2]int{{0, 1}, {1, 2}, {0, 3}}
	bv := func(b *msg.Bucket) string { return strings.Join(b.Policies, ",") }
	buck.reads = []read3{
		{"get", func(n *metakit.Node) string {
			b, err := n.BSvc.Get("b")
			return cls3(err, func() string { return bv(b) })
		}},
		{"get bytes", func(n *metakit.Node) string {
			bt, err := n.BSvc.GetBytes("b")
			return cls3(err, func() string {
				var b msg.Bucket
				if err := util.DecodeMsgp(&b, bt); err != nil {
					return "undecodable"
				}
				return bv(&b)
			})
		}},
		{"list", func(n *metakit.Node) string {
			l, _, err := n.BSvc.List("b", 5)
			if err == nil && len(l) == 0 {
				return "notfound"
			}
			return cls3(err, func() string { return bv(l[0]) })
		}},
	}
	return []reg3{meta, ver, buck}
}

type ev3 struct {
	what       string
	val        string
	start, end int
	ok         bool
	write      bool
}

func judge3(evs []ev3, initV string) string {
	ws := []ev3{{what: "the initial content", val: initV, start: -2, end: -1, ok: true, write: true}}
	for _, e := range evs {
		if e.write && e.ok {
			ws = append(ws, e)
		}
	}
	for _, r := range evs {
		if r.write {
			continue
		}
		fine, why := false, "nobody wrote that"
		for _, w := range ws {
			if w.val != r.val || w.start > r.end {
				continue
			}
			over := false
			for _, x := range ws {
				if x.start > w.end && x.end < r.start {
					over = true
					why = fmt.Sprintf("it was overwritten by %s (acknowledged at %d)", x.what, x.end)
				}
			}
			if !over {
				fine = true
			}
		}
		if !fine {
			return fmt.Sprintf("%s (from %d to %d) returned %q: %s", r.what, r.start, r.end, r.val, why)
		}
	}
	return ""
}

func snap3(dir string) []byte {
	n := metakit.Open(dir)
	defer n.Close()
	must3(n.Repo.AddMetadata("a", &msg.Metadata{Name: "a", Bucket: "S", UpdateTime: 3}))
	must3(n.Repo.AddVersion("a", ver3(1, "S", 3)))
	must3(n.Buckets.Create(&msg.Bucket{Name: "b", Policies: []string{"S"}, UpdateTime: 3}))
	var b bytes.Buffer
	z := gzip.NewWriter(&b)
	must3(n.Store.DB().View(func(tx *bolt.Tx) error { _, err := tx.WriteTo(z); return err }))
	must3(z.Close())
	return b.Bytes()
}

func TestVerifM03(t *testing.T) {
	vkit.Run(t, "M03", func(c *vkit.Ctx) {
		c.Rule("one evaluation = one schedule of writers and readers of one entry; distinct = scenario and choices")
		d0 := c.Scratch("snap")
		must3(os.MkdirAll(d0, 0o755))
		snap := snap3(d0)
		k, id := 0, 0
		for _, r := range regs3(snap) {
			r := r
			var sets [][]int
			for i := range r.writes {
				sets = append(sets, []int{i})
			}
			for _, p := range r.pairs {
				sets = append(sets, []int{p[0], p[1]})
			}
			for _, set := range sets {
				for ri := range r.reads {
					for _, warm := range []bool{false, true} {
						if len(set) == 2 && (warm || ri > 1) {
							continue
						}
						id++
						if !c.Mine(id) {
							continue
						}
						set, rd := set, r.reads[ri]
						name := r.name + ": "
						for _, w := range set {
							name += r.writes[w].name + " | "
						}
						name += rd.name
						if warm {
							name += " (warm)"
						}
						var evs []ev3
						var clock int
						tick := func() int { clock++; return clock }
						end := ""
						scen := func(x *vsched.Exec) {
							k++
							dir := c.Scratch(fmt.Sprintf("s%d", k))
							must3(os.MkdirAll(dir, 0o755))
							n := metakit.Open(dir)
							r.init(n)
							if warm {
								for _, q := range r.reads {
									q.run(n)
								}
							}
							evs, clock, end = nil, 0, ""
							read := func(q read3) {
								e := ev3{what: q.name, start: tick()}
								e.val = q.run(n)
								e.end = tick()
								evs = append(evs, e)
							}
							x.Go("reader", func() { read(rd); read(rd) })
							for _, wi := range set {
								w := r.writes[wi]
								x.Go(w.name, func() {
									e := ev3{what: w.name, val: w.val, start: tick(), write: true}
									err := w.run(n)
									e.end, e.ok = tick(), err == nil
									if err != nil && len(set) == 1 {
										end = w.name + " fails: " + err.Error()
									}
									if e.ok {
										for v := range w.also {
											// values in between, overwritten before the end
											evs = append(evs, ev3{what: w.name + " (in between)", val: v, start: e.start, end: e.end, ok: true, write: true})
										}
									}
									evs = append(evs, e)
									read(rd)
								})
							}
							x.Cleanup(func() {
								// at rest: what is cached is what is stored
								var got []string
								for _, q := range r.reads {
									e := ev3{what: "at rest: " + q.name, start: tick()}
									e.val = q.run(n)
									e.end = tick()
									evs = append(evs, e)
									got = append(got, e.val)
								}
								n.Cache.Clear()
								for i, q := range r.reads {
									if v := q.run(n); v != got[i] && end == "" {
										end = fmt.Sprintf("at rest %s returns %q from the cache, %q is stored", q.name, got[i], v)
									}
								}
								n.Close()
								_ = os.RemoveAll(dir)
							})
						}
						dev := c.N(1, 2)
						if len(set) == 1 && !warm && ri < c.N(1, 2) {
							dev++
						}
						vsched.Check(t, c, name, name, vsched.Opts{MaxDev: dev}, scen, func(x *vsched.Exec) string {
							if v := judge3(evs, r.initV); v != "" {
								return v
							}
							return end
						})
					}
				}
			}
		}
	})
}
