package service_test

import (
	"common/hashslot"
	"common/proto/msg"
	"common/proto/pb"
	"common/registry"
	"common/util"
	"common/vkit"
	"common/vsched"
	"context"
	"errors"
	"fmt"
	"io"
	"metaserver/config"
	"metaserver/internal/entity"
	"metaserver/internal/metakit"
	"metaserver/internal/usecase/db"
	"metaserver/internal/usecase/pool"
	"metaserver/internal/usecase/service"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	clientv3 "go.etcd.io/etcd/client/v3"
	"google.golang.org/grpc"
)

func TestVerifH02(t *testing.T) {
	vkit.Run(t, "H02", func(c *vkit.Ctx) {
		c.Rule("histories of operations; schedules of concurrent operations; peer behaviours; failing call")
		pool.Registry = registry.NewEtcdRegistry(&clientv3.Client{KV: metakit.NewKV()}, &pool.Config.Registry)
		for i, f := range []func(){func() { store2(t, c) }, func() { sched2(t, c) }, func() { sender2(c) }, func() { receiver2(t, c) }} {
			if o := os.Getenv("VERIF_ONLY"); o != "" && o != fmt.Sprint(i) {
				continue
			}
			f()
		}
	})
}

// ---- the ownership store alone

type state2 struct {
	st    string // normal, to, from, closed
	host  string
	slots string
}

type op2 struct {
	name string
	// next is the state after the operation and if it succeeds
	next func(s state2) (state2, bool)
	do   func(h *db.HashSlotDB) error
}

func ready2(kind, host, slots string) op2 {
	return op2{"ready " + kind + " " + host + " " + slots, func(s state2) (state2, bool) {
		if s.st != "normal" {
			return s, false
		}
		return state2{kind, host, slots}, true
	}, func(h *db.HashSlotDB) error {
		if kind == "to" {
			return h.ReadyMigrateTo(host, []string{slots})
		}
		return h.ReadyMigrateFrom(host, []string{slots})
	}}
}

func finish2(kind string) op2 {
	return op2{"finish " + kind, func(s state2) (state2, bool) {
		if s.st != kind {
			return s, false
		}
		return state2{st: "normal"}, true
	}, func(h *db.HashSlotDB) error {
		if kind == "to" {
			return h.FinishMigrateTo()
		}
		return h.FinishMigrateFrom()
	}}
}

func save2(slots string) op2 {
	return op2{"save " + slots, func(s state2) (state2, bool) { return s, s.st == "normal" },
		func(h *db.HashSlotDB) error {
			return h.Save("S", &hashslot.SlotInfo{GroupID: "S", ServerID: "S", Slots: []string{slots}})
		}}
}

// observe renders what the store says about itself
func observe2(h *db.HashSlotDB) state2 {
	to, th, ts := h.GetMigrateTo()
	from, fh, fs := h.GetMigrateFrom()
	switch {
	case to && from:
		return state2{st: "both"}
	case to:
		return state2{"to", th, strings.Join(ts, ",")}
	case from:
		return state2{"from", fh, strings.Join(fs, ",")}
	case h.IsNormal():
		return state2{st: "normal"}
	}
	return state2{st: "closed"}
}

func store2(t *testing.T, c *vkit.Ctx) {
	closeOp := op2{"close", func(s state2) (state2, bool) {
		if s.st != "normal" {
			return s, false
		}
		return state2{st: "closed"}, true
	}, func(h *db.HashSlotDB) error { return h.Close(time.Second) }}
	remove := op2{"remove", func(s state2) (state2, bool) { return s, s.st == "normal" }, func(h *db.HashSlotDB) error { return h.Remove("S") }}
	ops := []op2{ready2("to", "p1", "0-5"), ready2("to", "p2", "5-9"), ready2("from", "p1", "20-25"), ready2("from", "p2", "25-29"), finish2("to"), finish2("from"), save2("0-10"), save2("0-7"), remove, closeOp}
	depth := c.N(5, 6)
	idx := 0
	var walk func(path []op2)
	run := func(path []op2) {
		vkit.Bubble(t, func(t *testing.T) {
			kv := metakit.NewKV()
			h := db.NewHashSlotDB("slots/", kv)
			s := state2{st: "normal"}
			rec := ""
			var names []string
			for _, o := range path {
				names = append(names, o.name)
				next, ok := o.next(s)
				err := o.do(h)
				desc := strings.Join(names, ", ")
				if (err == nil) != ok {
					c.Fail("store result "+o.name+" in "+s.st, nil, "%s: returns %v in state %+v", desc, err, s)
					return
				}
				s = next
				if ok && strings.HasPrefix(o.name, "save") {
					rec = o.name[5:]
				} else if ok && o.name == "remove" {
					rec = ""
				}
				if got := observe2(h); got != s {
					c.Fail("store state after "+o.name, nil, "%s: the store says %+v, expected %+v", desc, got, s)
					return
				}
				info, exist, err := h.Get("S")
				if err != nil || exist != (rec != "") || exist && strings.Join(info.Slots, ",") != rec {
					c.Fail("store record after "+o.name, nil, "%s: the record is %v %v, expected %q", desc, info, err, rec)
					return
				}
				c.State(fmt.Sprint(s, rec))
				c.Transition()
			}
			c.Eval(strings.Join(names, ","))
			c.Validated()
		})
	}
	walk = func(path []op2) {
		if c.Expired() {
			return
		}
		if len(path) == depth {
			idx++
			if c.Mine(idx) {
				run(path)
			}
			return
		}
		for _, o := range ops {
			if len(path) > 0 && path[len(path)-1].name == "close" && o.name == "close" {
				continue
			}
			walk(append(path[:len(path):len(path)], o))
		}
	}
	walk(nil)
}

// ---- concurrent operations of the store

type event2 struct {
	op       string
	res      string
	from, to int64
}

func sched2(t *testing.T, c *vkit.Ctx) {
	get := op2{name: "get"}
	normal := op2{name: "normal?"}
	ops := []op2{ready2("to", "p1", "0-5"), ready2("to", "p2", "5-9"), ready2("from", "p3", "20-25"), finish2("to"), finish2("from"), get, normal}
	seqs := [][]op2{}
	for _, o := range ops {
		seqs = append(seqs, []op2{o})
	}
	for _, a := range ops[:5] {
		for _, b := range ops {
			seqs = append(seqs, []op2{a, b})
		}
	}
	name := func(l []op2) string {
		var n []string
		for _, o := range l {
			n = append(n, o.name)
		}
		return strings.Join(n, "+")
	}
	starts := []op2{{name: "nothing"}, ready2("to", "p0", "1-2"), ready2("from", "p0", "1-2")}
	idx := 0
	run := func(start op2, threads [][]op2, dev int) {
		idx++
		if !c.Mine(idx) || c.Expired() {
			return
		}
		var n []string
		for _, l := range threads {
			n = append(n, name(l))
		}
		nm := start.name + ": " + strings.Join(n, " | ")
		var evs []event2
		var fin state2
		init := state2{st: "normal"}
		if start.do != nil {
			init, _ = start.next(init)
		}
		vsched.Check(t, c, nm, "concurrent", vsched.Opts{MaxDev: dev}, func(x *vsched.Exec) {
			h := db.NewHashSlotDB("slots/", metakit.NewKV())
			if start.do != nil {
				vkit2(start.do(h))
			}
			evs = nil
			var mu sync.Mutex
			var clock atomic.Int64
			for i, l := range threads {
				l := l
				x.Go(fmt.Sprintf("t%d", i), func() {
					for _, o := range l {
						e := event2{op: o.name, from: clock.Add(1)}
						switch o.name {
						case "get":
							a, b, s := h.GetMigrateTo()
							if a {
								e.res = "to " + b + " " + strings.Join(s, ",")
							} else {
								a, b, s = h.GetMigrateFrom()
								if a {
									e.res = "from " + b + " " + strings.Join(s, ",")
								}
							}
						case "normal?":
							e.res = fmt.Sprint(h.IsNormal())
						default:
							e.res = fmt.Sprint(o.do(h) == nil)
						}
						e.to = clock.Add(1)
						mu.Lock()
						evs = append(evs, e)
						mu.Unlock()
						x.Log("%s = %s", o.name, e.res)
					}
				})
			}
			x.After(func() { fin = observe2(h) })
		}, func(x *vsched.Exec) string {
			byName := map[string]op2{}
			for _, o := range ops {
				byName[o.name] = o
			}
			if !linear2(init, evs, fin, byName) {
				sort.Slice(evs, func(i, j int) bool { return evs[i].from < evs[j].from })
				return fmt.Sprintf("no order of the operations explains their results %+v and the final state %+v", evs, fin)
			}
			return ""
		})
	}
	dev := c.N(2, 4)
	for _, s := range starts {
		for i, a := range seqs {
			for j, b := range seqs {
				if j < i && len(a) == len(b) || len(a) > len(b) {
					continue
				}
				run(s, [][]op2{a, b}, dev)
			}
		}
		for i := range ops {
			for j := i; j < len(ops); j++ {
				for k := j; k < len(ops); k++ {
					run(s, [][]op2{{ops[i]}, {ops[j]}, {ops[k]}}, dev-1)
				}
			}
		}
	}
}

func vkit2(err error) {
	if err != nil {
		panic(err)
	}
}

// linear2 searches an order of the events which respects real time and explains all results.
// "get" asks for both directions, one after the other: it is allowed to see two states.
func linear2(s state2, evs []event2, fin state2, ops map[string]op2) bool {
	if len(evs) == 0 {
		return s == fin
	}
	for i, e := range evs {
		first := true
		for _, o := range evs {
			if o.to < e.from {
				first = false
				break
			}
		}
		if !first {
			continue
		}
		next, ok := s, true
		switch e.op {
		case "get":
			cur := ""
			if s.st == "to" || s.st == "from" {
				cur = s.st + " " + s.host + " " + s.slots
			}
			ok = cur == e.res || e.res == "" // two questions, the migration may begin in between
		case "normal?":
			ok = fmt.Sprint(s.st == "normal") == e.res
		default:
			var done bool
			next, done = ops[e.op].next(s)
			ok = fmt.Sprint(done) == e.res
		}
		if !ok {
			continue
		}
		rest := append(append([]event2{}, evs[:i]...), evs[i+1:]...)
		if linear2(next, rest, fin, ops) {
			return true
		}
	}
	return false
}

// ---- a group

type set2 [16385]bool

func parse2(slots []string) (r set2, err error) {
	l, err := hashslot.WrapSlotsToEdges(slots, "")
	if err != nil {
		return r, err
	}
	for _, e := range l {
		for i := e.Start; i < e.End; i++ {
			if r[i] {
				return r, errors.New("overlap")
			}
			r[i] = true
		}
	}
	return
}

func (s set2) String() string {
	var l []string
	for i := 0; i < len(s); i++ {
		if s[i] {
			j := i
			for j < len(s) && s[j] {
				j++
			}
			l = append(l, fmt.Sprintf("%d-%d", i, j))
			i = j
		}
	}
	return "[" + strings.Join(l, " ") + "]"
}

const conf2 = `port: "8090"
registry:
  name: meta
  group: g
  server-id: S
hash-slot:
  slots: [%s]
  prepare-timeout: 10s
etcd:
  endpoint: ["x:1"]
  username: u
  password: p
`

type group2 struct {
	dir  string
	kv   *metakit.KV
	node *metakit.Node
	svc  *service.HashSlotService
	db   *db.HashSlotDB
}

// boot starts the group the way the program does
func (g *group2) boot() {
	pool.Config = config.ReadConfigFrom(filepath.Join(g.dir, "conf.yaml"))
	g.db = db.NewHashSlotDB("slots/", g.kv)
	pool.HashSlot = g.db
	g.svc = service.NewHashSlotService(g.db, g.node.Svc, g.node.BSvc, &pool.Config.HashSlot)
	g.svc.OnLeaderChanged(true)
}

// shutdown does what the program does when it ends
func (g *group2) shutdown() {
	if info, _, err := g.db.Get(pool.Config.HashSlot.StoreID); err == nil {
		pool.Config.HashSlot.Slots = info.Slots
	}
	vkit2(g.db.Remove(pool.Config.HashSlot.StoreID))
	vkit2(pool.Config.Persist())
}

func put2(kv *metakit.KV, id string, slots ...string) {
	bt, _ := util.EncodeMsgp(&hashslot.SlotInfo{GroupID: id, ServerID: id, Slots: slots})
	_, _ = kv.Put(context.Background(), "slots/"+id, string(bt))
}

func newGroup2(dir string, node *metakit.Node, own string, others ...string) *group2 {
	g := &group2{dir: dir, kv: metakit.NewKV(), node: node}
	q := []string{}
	if own != "" {
		q = append(q, `"`+own+`"`)
	}
	vkit2(os.WriteFile(filepath.Join(dir, "conf.yaml"), []byte(fmt.Sprintf(conf2, strings.Join(q, ","))), 0o600))
	put2(g.kv, "O", others...)
	return g
}

// record is what the group publishes
func (g *group2) record(id string) (set2, string) {
	v, ok := g.kv.Data()["slots/"+id]
	if !ok {
		return set2{}, "no record"
	}
	var i hashslot.SlotInfo
	if err := util.DecodeMsgp(&i, []byte(v)); err != nil {
		return set2{}, err.Error()
	}
	if i.ServerID != id || i.GroupID != id {
		return set2{}, fmt.Sprintf("record names group %q server %q", i.GroupID, i.ServerID)
	}
	s, err := parse2(i.Slots)
	if err != nil {
		return s, err.Error()
	}
	return s, ""
}

// check compares what the group publishes, believes and would start with
func (g *group2) check(want set2, st state2) string {
	rec, bad := g.record("S")
	if bad != "" {
		return bad
	}
	if rec != want {
		return fmt.Sprintf("the group publishes %s, its finished migrations add up to %s", rec, want)
	}
	if got := observe2(g.db); got != st {
		return fmt.Sprintf("the group is in %+v, expected %+v", got, st)
	}
	p, err := g.db.GetEdgeProvider(false)
	if err != nil {
		return "the group does not know the slots: " + err.Error()
	}
	var own set2
	for _, e := range hashslot.CopyOfEdges("S", p) {
		for i := e.Start; i < e.End; i++ {
			own[i] = true
		}
	}
	if own != want {
		return fmt.Sprintf("the group goes by %s, it owns %s", own, want)
	}
	m, err := g.svc.GetCurrentSlots(true)
	if err != nil {
		return err.Error()
	}
	if shown, err := parse2(m["S"]); err != nil || shown != want {
		return fmt.Sprintf("the group shows %v, it owns %s", m["S"], want)
	}
	cf := config.ReadConfigFrom(filepath.Join(g.dir, "conf.yaml"))
	if s, err := parse2(cf.HashSlot.Slots); err != nil || s != want {
		return fmt.Sprintf("the configuration has %v, the group owns %s", cf.HashSlot.Slots, want)
	}
	return ""
}

// ---- receiving

type rop2 struct {
	name  string
	fault int // which call of the coordination store fails
}

func receiver2(t *testing.T, c *vkit.Ctx) {
	dir := c.Scratch("recv")
	node := metakit.Open(filepath.Join(dir, "n"+""))
	defer node.Close()
	names := []string{"from free", "from free2", "from owned", "from part", "from around", "from mix", "from two", "from bad", "ready to", "done to", "item", "foreign item", "odd item", "finish ok", "finish failed", "wait 6s", "wait 11s", "leader", "crash restart", "restart"}
	var ops []rop2
	for _, n := range names {
		ops = append(ops, rop2{n, 0})
	}
	for _, n := range []string{"from free", "finish ok", "finish failed", "leader"} {
		for f := 1; f <= 4; f++ {
			ops = append(ops, rop2{n, f})
		}
	}
	key := ""
	for i := 0; ; i++ {
		key = fmt.Sprintf("k%d", i)
		if s := hashslot.CalcBytesSlot([]byte(key)); s > 5000 && s < 6000 {
			break
		}
	}
	idx := 0
	starts := []string{"", "from free", "from free,item", "from free,finish ok", "from free,item,finish ok,from free2", "from free,wait 6s"}
	for _, own := range []string{"0-4000", ""} {
		own := own
		run := func(path []rop2) {
			vkit.Bubble(t, func(t *testing.T) {
				recvRun2(c, dir, node, own, key, path)
				time.Sleep(time.Minute)
			})
		}
		for i, pre := range starts {
			depth := c.N(2, 3)
			var start []rop2
			if pre != "" {
				for _, n := range strings.Split(pre, ",") {
					start = append(start, rop2{n, 0})
				}
			}
			if i == 0 && own != "" {
				depth++
			}
			var walk func(path []rop2, faults int)
			walk = func(path []rop2, faults int) {
				if c.Expired() {
					return
				}
				if len(path) == len(start)+2 {
					idx++
					if !c.Mine(idx) {
						return
					}
				}
				if len(path) == len(start)+depth {
					run(path)
					return
				}
				for _, o := range ops {
					f := faults
					if o.fault > 0 {
						f++
					}
					if f > 1 {
						continue
					}
					walk(append(path[:len(path):len(path)], o), f)
				}
			}
			walk(start, 0)
		}
	}
}

func recvRun2(c *vkit.Ctx, dir string, node *metakit.Node, own, key string, path []rop2) bool {
	free, free2 := "5000-6000", "4000-4500"
	var want set2
	var g *group2
	if own != "" {
		want, _ = parse2([]string{own})
		g = newGroup2(dir, node, own, "6000-16384")
	} else {
		g = newGroup2(dir, node, own, "6000-16384")
	}
	g.boot()
	st := state2{st: "normal"}
	var deadline time.Time // of a prepared migration
	started := false
	var desc []string
	fail := func(o rop2, format string, a ...any) bool {
		d := fmt.Sprintf(format, a...)
		c.Fail("receiver "+o.name+fmt.Sprint(o.fault > 0)+": "+strings.Join(strings.Fields(d)[:min2(6, len(strings.Fields(d)))], " "), nil, "owning [%s]: %s: %s", own, strings.Join(desc, ", "), d)
		return false
	}
	if bad := g.check(want, st); bad != "" {
		return fail(rop2{"boot", 0}, "after the start: %s", bad)
	}
	for _, o := range path {
		n := o.name
		if o.fault > 0 {
			n += fmt.Sprintf(" (call %d of the coordination store fails)", o.fault)
		}
		desc = append(desc, n)
		c.Cur("receiver own [%s] %s", own, strings.Join(desc, ", "))
		if o.fault > 0 {
			base := g.kv.Calls
			g.kv.Fault = func(n int, op, key string) error {
				if n == base+o.fault {
					return errors.New("coordination store down")
				}
				return nil
			}
		}
		calls := g.kv.Calls
		var err error
		// lenient: both outcomes are fine, the state has to agree with the result
		exp, lenient := true, o.fault > 0
		next, nwant := st, want
		prep := func(host string, slots []string, ok bool) {
			if l, bad := parse2(slots); bad == nil {
				for i := range l {
					ok = ok && !(l[i] && want[i])
				}
			}
			err = g.svc.PrepareMigrationFrom(&pb.LocationInfo{Host: host, Port: "1"}, slots)
			exp = ok && st.st == "normal"
			if exp {
				next = state2{"from", host, strings.Join(slots, ",")}
			}
		}
		tookTimer := false
		switch o.name {
		case "from free":
			prep("p1", []string{free}, true)
			tookTimer = exp && err == nil
		case "from free2":
			prep("p2", []string{free2}, true)
			tookTimer = exp && err == nil
		case "from owned":
			prep("p1", []string{"10-20"}, true)
			tookTimer = exp && err == nil
		case "from part":
			prep("p1", []string{"3990-4010"}, true)
			tookTimer = exp && err == nil
		case "from around":
			prep("p1", []string{"4990-6000"}, true)
			tookTimer = exp && err == nil
		case "from mix":
			prep("p1", []string{"5500-5600", "4100-4200", "10-20"}, true)
			tookTimer = exp && err == nil
		case "from two":
			prep("p1", []string{"5500-5600", "4100-4200"}, true)
			tookTimer = exp && err == nil
		case "from bad":
			prep("p1", []string{"x-9"}, false)
		case "ready to":
			err = g.db.ReadyMigrateTo("p9", []string{"1-2"})
			if exp = st.st == "normal"; exp {
				next = state2{"to", "p9", "1-2"}
			}
		case "done to":
			err = g.db.FinishMigrateTo()
			if exp = st.st == "to"; exp {
				next = state2{st: "normal"}
			}
		case "item", "foreign item", "odd item":
			it := &pb.MigrationItem{Name: key, Dest: int32(entity.DestBucket), Data: enc2(&msg.Bucket{Name: key})}
			in := st.st == "from" && slotIn2(st.slots, key)
			switch o.name {
			case "foreign item":
				it.Name, in = foreign2(st.slots), false
				it.Data = enc2(&msg.Bucket{Name: it.Name})
			case "odd item":
				it.Dest, in = 77, false
			}
			err = g.svc.ReceiveItem(it)
			exp = in
			if st.st == "from" {
				started = true
			}
		case "finish ok", "finish failed":
			err = g.svc.FinishReceiveItem(o.name == "finish ok")
			if exp = st.st == "from"; exp {
				next = state2{st: "normal"}
				if o.name == "finish ok" {
					add, _ := parse2(strings.Split(st.slots, ","))
					over := false
					for i := range add {
						if add[i] {
							over = over || nwant[i]
							nwant[i] = true
						}
					}
				}
			}
			started = false
		case "wait 6s", "wait 11s":
			d := 6 * time.Second
			if o.name == "wait 11s" {
				d = 11 * time.Second
			}
			time.Sleep(d)
			synctest.Wait()
			if st.st == "from" && !started && !time.Now().Before(deadline) {
				next = state2{st: "normal"}
			}
		case "leader":
			g.svc.OnLeaderChanged(true)
		case "crash restart":
			g.boot()
			next, started = state2{st: "normal"}, false
		case "restart":
			if st.st != "normal" {
				continue
			}
			g.shutdown()
			g.boot()
			started = false
		}
		failed := g.kv.Fault != nil && g.kv.Calls-calls >= o.fault
		g.kv.Fault = nil
		if o.fault > 0 && !failed {
			return true // the call does not exist, same as without the fault
		}
		if !lenient {
			if (err == nil) != exp {
				return fail(o, "returns %v in %+v owning %s", err, st, want)
			}
			if exp {
				st, want = next, nwant
			}
		} else {
			// an operation that succeeds has its whole effect, one that fails has none (a migration that fails ends)
			switch {
			case o.name == "leader":
			case err == nil && !exp:
				return fail(o, "succeeds in %+v", st)
			case err == nil:
				st, want = next, nwant
			case o.name == "finish ok" || o.name == "finish failed":
				if st.st == "from" {
					st = state2{st: "normal"}
				}
			}
		}
		if o.name[:4] == "from" && err == nil && tookTimer {
			deadline, started = time.Now().Add(10*time.Second), false
		}
		if bad := g.check(want, st); bad != "" {
			return fail(o, "%s", bad)
		}
		c.State(fmt.Sprint(st, want, started))
		c.Transition()
	}
	c.Eval("receiver " + own + strings.Join(desc, ","))
	c.Validated()
	// the records do not matter here
	_ = node.BSvc.Remove(key)
	return true
}

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func enc2(b *msg.Bucket) []byte {
	bt, err := util.EncodeMsgp(b)
	vkit2(err)
	return bt
}

func slotIn2(slots, key string) bool {
	l, err := hashslot.WrapSlotsToEdges(strings.Split(slots, ","), "")
	return err == nil && hashslot.IsSlotInEdges(hashslot.CalcBytesSlot([]byte(key)), l)
}

func foreign2(slots string) string {
	for i := 0; ; i++ {
		k := fmt.Sprintf("f%d", i)
		if slots == "" || !slotIn2(slots, k) {
			return k
		}
	}
}

// ---- sending, against a scripted peer

type peer2 struct {
	pb.UnimplementedHashSlotServer
	script string
	kv     *metakit.KV
	slots  []string
	// at is called when the message arrives
	at    func(point string)
	items int
}

func (p *peer2) PrepareMigration(_ context.Context, r *pb.PrepareReq) (*pb.Response, error) {
	p.at("prepare")
	switch p.script {
	case "refuses":
		return &pb.Response{Success: false, Message: "no"}, nil
	case "prepare fails":
		return nil, errors.New("broken")
	}
	p.slots = r.GetSlots()
	return &pb.Response{Success: true}, nil
}

func (p *peer2) take() {
	v := p.kv.Data()["slots/O"]
	var i hashslot.SlotInfo
	_ = util.DecodeMsgp(&i, []byte(v))
	a, _ := hashslot.WrapSlotsToEdges(i.Slots, "")
	b, _ := hashslot.WrapSlotsToEdges(p.slots, "")
	// not counted as a call of the group
	f, n := p.kv.Fault, p.kv.Calls
	p.kv.Fault = nil
	put2(p.kv, "O", hashslot.CombineEdges(a, b).Strings()...)
	p.kv.Fault, p.kv.Calls = f, n
}

func (p *peer2) StreamingReceive(s pb.HashSlot_StreamingReceiveServer) error {
	p.at("stream")
	if p.script == "stream fails" {
		return errors.New("broken")
	}
	for {
		_, err := s.Recv()
		if err == io.EOF {
			p.at("close")
			switch p.script {
			case "takes not":
				return errors.New("broken")
			case "confirmation lost":
				p.take()
				return errors.New("broken")
			}
			p.take()
			return nil
		}
		if err != nil {
			return err
		}
		p.items++
		p.at(fmt.Sprintf("item%d", p.items))
		switch p.script {
		case fmt.Sprintf("item%d refused", p.items):
			_ = s.Send(&pb.Response{Success: false, Message: "no"})
			continue
		case fmt.Sprintf("item%d breaks", p.items):
			return errors.New("broken")
		case fmt.Sprintf("item%d ends", p.items):
			return nil
		}
		_ = s.Send(&pb.Response{Success: true})
	}
}

var scripts2 = []string{"fine", "refuses", "prepare fails", "stream fails", "item1 refused", "item1 breaks", "item1 ends", "item2 refused", "item2 breaks", "item3 refused", "item3 breaks", "item3 ends", "takes not", "confirmation lost", "absent"}

type sop2 struct {
	script string
	slots  string
	fault  int
	nested string // competing operation
	point  string // issued when this message arrives
}

func (o sop2) String() string {
	s := "migrate " + o.slots + " to a peer: " + o.script
	if o.fault > 0 {
		s += fmt.Sprintf(", call %d of the coordination store fails", o.fault)
	}
	if o.nested != "" {
		s += fmt.Sprintf(", %s during %s", o.nested, o.point)
	}
	return s
}

func sender2(c *vkit.Ctx) {
	dir := c.Scratch("send")
	node := metakit.Open(filepath.Join(dir, "n"))
	defer node.Close()
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	vkit2(err)
	srv := grpc.NewServer()
	proxy := &proxy2{}
	pb.RegisterHashSlotServer(srv, proxy)
	go func() { _ = srv.Serve(lis) }()
	defer srv.Stop()
	_, port, _ := net.SplitHostPort(lis.Addr().String())
	// an address where nobody listens
	dead, err := net.Listen("tcp", "127.0.0.1:0")
	vkit2(err)
	_, deadPort, _ := net.SplitHostPort(dead.Addr().String())
	_ = dead.Close()
	// records in the slots that move
	var keys []string
	for i := 0; len(keys) < 3; i++ {
		k := fmt.Sprintf("s%d", i)
		if s := hashslot.CalcBytesSlot([]byte(k)); s < 100 {
			keys = append(keys, k)
		}
	}
	fill := func() {
		_ = node.Svc.AddMetadata(keys[0], &msg.Metadata{Name: keys[0]})
		_, _ = node.Svc.AddVersion(keys[0], &msg.Version{Hash: "h", Size: 1})
		_ = node.BSvc.Create(&msg.Bucket{Name: keys[1]})
	}
	fill()
	slots := []string{"0-100", "0-8000", "7900-8100", "8000-9000", "x", "50-100,0-20", "0-100,8000-8100", "8000-8100,0-100"}
	var first []sop2
	for _, sc := range scripts2 {
		for _, sl := range slots {
			first = append(first, sop2{script: sc, slots: sl})
		}
		for f := 1; f <= 8; f++ {
			first = append(first, sop2{script: sc, slots: "0-100", fault: f})
		}
	}
	for _, n := range []string{"to", "from", "auto", "leader", "finish receive", "item"} {
		for _, p := range []string{"prepare", "stream", "item1", "item2", "item3", "close"} {
			for _, sc := range []string{"fine", "takes not", "item3 refused"} {
				first = append(first, sop2{script: sc, slots: "0-100", nested: n, point: p})
			}
		}
	}
	idx := 0
	for _, a := range first {
		for _, b := range first {
			if b.nested != "" || b.fault > 0 && (a.fault > 0 || a.nested != "") {
				continue
			}
			if b.script == "absent" && a.script == "absent" {
				continue
			}
			if c.N(1, 0) == 1 && (b.fault > 0 || !strings.Contains("fine,refuses,takes not,confirmation lost,item2 breaks", b.script)) {
				continue
			}
			idx++
			if !c.Mine(idx) || c.Expired() {
				continue
			}
			fill()
			sendRun2(c, dir, node, proxy, port, deadPort, []sop2{a, b})
		}
	}
}

// proxy2 hands the calls to the peer of the current run
type proxy2 struct {
	pb.UnimplementedHashSlotServer
	cur atomic.Pointer[peer2]
	wg  sync.WaitGroup
}

func (p *proxy2) PrepareMigration(ctx context.Context, r *pb.PrepareReq) (*pb.Response, error) {
	return p.cur.Load().PrepareMigration(ctx, r)
}
func (p *proxy2) StreamingReceive(s pb.HashSlot_StreamingReceiveServer) error {
	p.wg.Add(1)
	defer p.wg.Done()
	return p.cur.Load().StreamingReceive(s)
}

func sendRun2(c *vkit.Ctx, dir string, node *metakit.Node, proxy *proxy2, port, deadPort string, path []sop2) {
	own := "0-8000"
	want, _ := parse2([]string{own})
	g := newGroup2(dir, node, own, "8000-16384")
	g.boot()
	var desc []string
	for _, o := range path {
		o := o
		desc = append(desc, o.String())
		c.Cur("sender %s", strings.Join(desc, "; then "))
		fail := func(format string, a ...any) {
			d := fmt.Sprintf(format, a...)
			f := strings.Fields(d)
			c.Fail("sender "+o.script+" "+o.nested+fmt.Sprint(o.fault > 0)+": "+strings.Join(f[:min2(6, len(f))], " "), nil, "owning %s: %s: %s", own, strings.Join(desc, "; then "), d)
		}
		p := &peer2{script: o.script, kv: g.kv}
		loc := &pb.LocationInfo{Host: "127.0.0.1", Port: port}
		if o.script == "absent" {
			loc.Port = deadPort
		}
		var nestedBad string
		seen := false
		p.at = func(point string) {
			if point != o.point || seen {
				return
			}
			seen = true
			before := observe2(g.db)
			var err error
			switch o.nested {
			case "to":
				err = g.svc.PrepareMigrationTo(&pb.LocationInfo{Host: "127.0.0.1", Port: deadPort}, []string{"200-300"})
			case "from":
				err = g.svc.PrepareMigrationFrom(&pb.LocationInfo{Host: "x", Port: "1"}, []string{"9000-9100"})
			case "auto":
				err = g.svc.AutoMigrate(&pb.LocationInfo{Host: "other", Port: deadPort}, []string{"0-100"})
			case "finish receive":
				err = g.svc.FinishReceiveItem(true)
			case "item":
				err = g.svc.ReceiveItem(&pb.MigrationItem{Name: "z", Dest: int32(entity.DestBucket), Data: enc2(&msg.Bucket{Name: "z"})})
			case "leader":
				rec := g.kv.Data()["slots/S"]
				g.svc.OnLeaderChanged(true)
				if g.kv.Data()["slots/S"] != rec {
					nestedBad = "a leader change during a migration changed the published slots"
				}
				err = errors.New("n/a")
			}
			if err == nil {
				nestedBad = fmt.Sprintf("a competing %q during %s was admitted", o.nested, point)
			}
			if after := observe2(g.db); after != before {
				nestedBad = fmt.Sprintf("a competing %q during %s changed the state from %+v to %+v", o.nested, point, before, after)
			}
		}
		proxy.cur.Store(p)
		sl, serr := parse2(strings.Split(o.slots, ","))
		owned := serr == nil
		for i := range sl {
			if sl[i] && !want[i] {
				owned = false
			}
		}
		base := g.kv.Calls
		if o.fault > 0 {
			g.kv.Fault = func(n int, op, key string) error {
				if n == base+o.fault {
					return errors.New("coordination store down")
				}
				return nil
			}
		}
		err := g.svc.PrepareMigrationTo(loc, strings.Split(o.slots, ","))
		if err == nil {
			if got := observe2(g.db); got.st != "to" || got.host != loc.Host || got.slots != o.slots {
				fail("a prepared migration leaves the state %+v", got)
			}
			err = g.svc.AutoMigrate(loc, strings.Split(o.slots, ","))
		}
		proxy.wg.Wait()
		hit := g.kv.Calls-base >= o.fault && o.fault > 0
		g.kv.Fault = nil
		if o.fault > 0 && !hit {
			return
		}
		if nestedBad != "" {
			fail("%s", nestedBad)
			return
		}
		// what became of the slots
		other, bad := g.record("O")
		if bad != "" {
			panic(bad)
		}
		taken := owned && serr == nil
		for i := range sl {
			if sl[i] && !other[i] {
				taken = false
			}
		}
		may := owned && (o.script == "fine" || o.script == "confirmation lost" || strings.HasPrefix(o.script, "item2") || strings.HasPrefix(o.script, "item3"))
		switch {
		case err == nil && !taken:
			fail("reported as done, but the peer does not own the slots")
			return
		case taken && !may:
			fail("the slots were given away, which has to be refused")
			return
		case err != nil && o.script == "fine" && owned && o.fault == 0:
			fail("fails: %v", err)
			return
		}
		if taken {
			for i := range sl {
				if sl[i] {
					want[i] = false
				}
			}
		}
		if o.script == "confirmation lost" && hit || o.script == "takes not" && hit {
			// two failures: nobody may own a slot twice
			rec, bad := g.record("S")
			if bad != "" {
				fail("%s", bad)
				return
			}
			for i := range rec {
				if rec[i] && other[i] {
					fail("slot %d has two owners", i)
					return
				}
				if rec[i] && !want[i] {
					fail("slot %d is owned again", i)
					return
				}
			}
			want = rec
			c.Outcome("two failures")
		}
		if bad := g.check(want, state2{st: "normal"}); bad != "" {
			fail("result %v: %s", err, bad)
			return
		}
		c.State("sender " + want.String())
		c.Transition()
	}
	c.Eval("sender " + strings.Join(desc, ","))
	c.Validated()
	// and a restart
	g.shutdown()
	g.boot()
	if bad := g.check(want, state2{st: "normal"}); bad != "" {
		c.Fail("sender restart: "+strings.Join(strings.Fields(bad)[:4], " "), nil, "%s; after a restart: %s", strings.Join(desc, "; then "), bad)
	}
}

var _ = reflect.DeepEqual
