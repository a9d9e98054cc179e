package service_test

import (
	"bytes"
	"common/proto/msg"
	"common/util"
	"common/vkit"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"metaserver/internal/entity"
	"metaserver/internal/metakit"
	"metaserver/internal/usecase/raftimpl"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/hashicorp/go-hclog"
	"github.com/hashicorp/raft"
	bolt "go.etcd.io/bbolt"
)

type cmd4 struct {
	name string
	typ  raft.LogType
	data []byte
	bad  bool
}

func enc4(d *entity.RaftData) []byte {
	b, err := util.EncodeMsgp(d)
	if err != nil {
		panic(err)
	}
	return b
}

func ver4(uid, hash string, seq uint64, ts int64) *msg.Version {
	return &msg.Version{UniqueId: uid, Hash: hash, Sequence: seq, Ts: ts, Size: 7, Locate: []string{"l1", "l2"}, StoreStrategy: 2, DataShards: 1, ParityShards: 1}
}

func commands4() []cmd4 {
	var l []cmd4
	add := func(name string, bad bool, d *entity.RaftData) {
		l = append(l, cmd4{name, raft.LogCommand, enc4(d), bad})
	}
	I, R, U, M := entity.LogInsert, entity.LogRemove, entity.LogUpdate, entity.LogMigrate
	add("meta+a", false, &entity.RaftData{Type: I, Dest: entity.DestMetadata, Name: "a", Metadata: &msg.Metadata{Name: "a", Bucket: "b", CreateTime: 5, UpdateTime: 5}})
	add("ver+a u1", false, &entity.RaftData{Type: I, Dest: entity.DestVersion, Name: "a", Version: ver4("u1", "h1", 0, 6)})
	add("ver+a u2", false, &entity.RaftData{Type: I, Dest: entity.DestVersion, Name: "a", Version: ver4("u2", "h1", 0, 7)})
	add("ver-a 1", false, &entity.RaftData{Type: R, Dest: entity.DestVersion, Name: "a", Sequence: 1})
	add("meta-a", false, &entity.RaftData{Type: R, Dest: entity.DestMetadata, Name: "a"})
	add("ver*a 1", false, &entity.RaftData{Type: U, Dest: entity.DestVersion, Name: "a", Sequence: 1, Version: ver4("x", "x", 0, 9)})
	add("ver>a 3 u3", false, &entity.RaftData{Type: M, Dest: entity.DestVersion, Name: "a", Version: ver4("u3", "h2", 3, 8)})
	add("ver-a all", false, &entity.RaftData{Type: R, Dest: entity.DestVersionAll, Name: "a"})
	add("meta*a", false, &entity.RaftData{Type: U, Dest: entity.DestMetadata, Name: "a", Metadata: &msg.Metadata{Name: "a", UpdateTime: 10}})
	add("loc h1 0", false, &entity.RaftData{Type: U, Dest: entity.DestLocate, Name: "h1", Sequence: 0, Version: &msg.Version{Ts: 20, Locate: []string{"moved"}}})
	add("buck+b", false, &entity.RaftData{Type: I, Dest: entity.DestBucket, Name: "b", Bucket: &msg.Bucket{Name: "b", Versioning: true, CreateTime: 1, UpdateTime: 1, Policies: []string{"p"}}})
	add("buck*b", false, &entity.RaftData{Type: U, Dest: entity.DestBucket, Name: "b", Bucket: &msg.Bucket{Name: "b", Readonly: true, UpdateTime: 3}})
	add("buck-b", false, &entity.RaftData{Type: R, Dest: entity.DestBucket, Name: "b"})
	add("ver+a u4 other fields", false, &entity.RaftData{Type: I, Dest: entity.DestVersion, Name: "a", Version: &msg.Version{UniqueId: "u4", Hash: "h3", Ts: 30}})
	add("meta+a.1", false, &entity.RaftData{Type: I, Dest: entity.DestMetadata, Name: "a.1", Metadata: &msg.Metadata{Name: "a.1"}})
	// malformed
	add("ver+a nothing", true, &entity.RaftData{Type: I, Dest: entity.DestVersion, Name: "a"})
	add("ver*a nothing", true, &entity.RaftData{Type: U, Dest: entity.DestVersion, Name: "a", Sequence: 1})
	add("buck+ nothing", true, &entity.RaftData{Type: I, Dest: entity.DestBucket, Name: "b"})
	add("meta* nothing", true, &entity.RaftData{Type: U, Dest: entity.DestMetadata, Name: "a"})
	add("unknown type", true, &entity.RaftData{Type: 64, Dest: entity.DestMetadata, Name: "a", Metadata: &msg.Metadata{Name: "a"}})
	add("unknown dest", true, &entity.RaftData{Type: R, Dest: 64, Name: "a"})
	l = append(l, cmd4{"empty", raft.LogCommand, nil, true})
	g := enc4(&entity.RaftData{Type: R, Dest: entity.DestMetadata, Name: "a"})
	l = append(l, cmd4{"truncated", raft.LogCommand, g[:len(g)-3], true})
	l = append(l, cmd4{"not a command", raft.LogNoop, g, true})
	return l
}

func res4(x any) string {
	switch v := x.(type) {
	case *raftimpl.FSMResponse:
		if v.Ok() {
			return fmt.Sprintf("ok %v", v.Data)
		}
		return fmt.Sprintf("error %v %v", v.ToError(), v.Data)
	case error:
		return "error " + v.Error()
	}
	return fmt.Sprintf("%T %v", x, x)
}

func content4(n *metakit.Node) string {
	d := n.Dump()
	var s []string
	for k, v := range d {
		if strings.Contains(k, "lastAppliedIndex") {
			continue
		}
		s = append(s, fmt.Sprintf("%s=%q", k, v))
	}
	sort.Strings(s)
	// a root that exists but is empty reads like one that does not
	return strings.Join(s, "\n")
}

// visible is what clients read, through the cache.
func visible4(n *metakit.Node) string {
	f := metakit.Direct{N: n}
	var s strings.Builder
	j := func(v any, t int, c string) {
		b, _ := json.Marshal(v)
		fmt.Fprintf(&s, "%s %d %s\n", b, t, c)
	}
	for _, o := range []string{"a", "a.1"} {
		m, c := f.GetMeta(o, true)
		j(m, 0, c)
		l, t, c := f.ListVer(o, 1, 50)
		j(l, t, c)
		for i := -1; i < 6; i++ {
			v, c := f.GetVer(o, i)
			j(v, 0, c)
		}
	}
	for _, h := range []string{"h1", "h2", "h3"} {
		l, c := f.ByHash(h)
		j(l, 0, c)
	}
	b, c := f.GetBucket("b")
	j(b, 0, c)
	return s.String()
}

type sink4 struct {
	bytes.Buffer
	cancelled bool
	n, failAt int
}

func (s *sink4) ID() string    { return "x" }
func (s *sink4) Cancel() error { s.cancelled = true; return nil }
func (s *sink4) Close() error {
	if s.failAt == -1 {
		return errors.New("close fails")
	}
	return nil
}
func (s *sink4) Write(p []byte) (int, error) {
	s.n++
	if s.n == s.failAt {
		return 0, errors.New("write fails")
	}
	return s.Buffer.Write(p)
}

// failing sends a snapshot into a sink that fails at one call: raft must learn about it,
// it would drop the log otherwise.
func failing4(c *vkit.Ctx, w *w4) {
	n := w.node()
	defer n.Close()
	seq := []int{0, 1, 2}
	for i := range seq {
		n.FSM.Apply(w.log(seq, i))
	}
	writes := 1
	for at := -1; at <= writes+1; at++ {
		run := func() string {
			s := &sink4{failAt: at}
			sn, err := n.FSM.Snapshot()
			if err != nil {
				return "snapshot: " + err.Error()
			}
			err = sn.Persist(s)
			sn.Release()
			if at == 0 {
				writes = s.n
			}
			if fails := at == -1 || at > 0 && at <= writes; fails != (err != nil) {
				return fmt.Sprintf("returned %v", err)
			}
			return ""
		}
		c.Cur("sink fails at %d", at)
		c.Eval(fmt.Sprint("sink fails at ", at))
		c.Transition()
		if bad := run(); bad != "" {
			c.Fail(fmt.Sprintf("snapshot into a sink that fails: %s", bad), func() bool { return run() != "" }, "failing call %d of %d (-1: close, 0: none)\n%s", at, writes, bad)
		}
	}
}

var tmpl4 []byte

type w4 struct {
	c    *vkit.Ctx
	k    int
	cmds []cmd4
}

func (w *w4) node() *metakit.Node {
	w.k++
	dir := w.c.Scratch(fmt.Sprintf("n%d", w.k))
	_ = os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, "meta.db")
	// a file that need not grow: bbolt lets a growing writer wait for an open snapshot,
	// and here one goroutine does both
	if tmpl4 == nil {
		d, err := bolt.Open(p, 0o600, nil)
		if err != nil {
			panic(err)
		}
		_ = d.Close()
		tmpl4, _ = os.ReadFile(p)
	}
	_ = os.WriteFile(p, tmpl4, 0o600)
	_ = os.Truncate(p, 1<<20)
	return metakit.OpenPath(p)
}

func (w *w4) log(seq []int, i int) *raft.Log {
	cm := w.cmds[seq[i]]
	return &raft.Log{Index: uint64(i + 1), Term: 1, Type: cm.typ, Data: append([]byte(nil), cm.data...)}
}

func (w *w4) show(seq []int) string {
	var s []string
	for _, i := range seq {
		s = append(s, w.cmds[i].name)
	}
	return "[" + strings.Join(s, "] [") + "]"
}

type batcher interface{ ApplyBatch([]*raft.Log) []any }

func sameRes(got, want []string, from int) string {
	for i := range got {
		if got[i] != want[from+i] {
			return fmt.Sprintf("command %d answered %q, alone it answers %q", from+i+1, got[i], want[from+i])
		}
	}
	return ""
}

func diff4(got, want string) string {
	if got == want {
		return ""
	}
	g, w := strings.Split(got, "\n"), strings.Split(want, "\n")
	in := func(l []string, x string) bool {
		for _, y := range l {
			if x == y {
				return true
			}
		}
		return false
	}
	var s []string
	for _, x := range g {
		if !in(w, x) {
			s = append(s, "has "+x)
		}
	}
	for _, x := range w {
		if !in(g, x) {
			s = append(s, "lacks "+x)
		}
	}
	r := strings.Join(s, "; ")
	if len(r) > 600 {
		r = r[:600]
	}
	return r
}

type ref4 struct {
	res     []string
	content []string // after i commands
	visible []string
}

// base applies one by one, checks malformed commands, and is the reference.
func (w *w4) base(seq []int) (r ref4, bad string) {
	n := w.node()
	defer n.Close()
	r.content, r.visible = []string{content4(n)}, []string{visible4(n)}
	for i := range seq {
		x := res4(n.FSM.Apply(w.log(seq, i)))
		r.res = append(r.res, x)
		r.content = append(r.content, content4(n))
		r.visible = append(r.visible, visible4(n))
		cm := w.cmds[seq[i]]
		if cm.bad {
			if !strings.HasPrefix(x, "error") {
				return r, fmt.Sprintf("malformed command %q answered %q", cm.name, x)
			}
			if d := diff4(r.visible[i+1], r.visible[i]); d != "" {
				return r, fmt.Sprintf("malformed command %q changed something: %s", cm.name, d)
			}
		} else if strings.HasPrefix(x, "error") {
			if d := diff4(r.visible[i+1], r.visible[i]); d != "" {
				return r, fmt.Sprintf("command %q was refused (%s) but changed something: %s", cm.name, x, d)
			}
		}
	}
	return r, ""
}

func (w *w4) batches(seq []int, r ref4, mask int, warm bool) string {
	n := w.node()
	defer n.Close()
	b := n.FSM.(batcher)
	for i := 0; i < len(seq); {
		j := i + 1
		for j < len(seq) && mask&(1<<(j-1)) == 0 {
			j++
		}
		var l []*raft.Log
		for k := i; k < j; k++ {
			l = append(l, w.log(seq, k))
		}
		if warm {
			visible4(n)
		}
		var got []string
		for _, x := range b.ApplyBatch(l) {
			got = append(got, res4(x))
		}
		if len(got) != len(l) {
			return fmt.Sprintf("batch of %d answered %d results", len(l), len(got))
		}
		if d := sameRes(got, r.res, i); d != "" {
			return d
		}
		if d := diff4(visible4(n), r.visible[j]); d != "" {
			return fmt.Sprintf("after command %d reads differ: %s", j, d)
		}
		i = j
	}
	if d := diff4(content4(n), r.content[len(seq)]); d != "" {
		return "content differs: " + d
	}
	return ""
}

// snapshot after at commands, persisted at once or after the rest; restored into an
// empty or used store; then the rest is applied there.
func (w *w4) snapshot(seq []int, r ref4, at int, late, used bool) string {
	n := w.node()
	defer n.Close()
	for i := 0; i < at; i++ {
		n.FSM.Apply(w.log(seq, i))
	}
	sn, err := n.FSM.Snapshot()
	if err != nil {
		return "snapshot: " + err.Error()
	}
	s := &sink4{}
	rest := func(m *metakit.Node) string {
		for i := at; i < len(seq); i++ {
			if x := res4(m.FSM.Apply(w.log(seq, i))); x != r.res[i] {
				return fmt.Sprintf("command %d answered %q, without snapshot %q", i+1, x, r.res[i])
			}
		}
		if d := diff4(visible4(m), r.visible[len(seq)]); d != "" {
			return "reads differ: " + d
		}
		if d := diff4(content4(m), r.content[len(seq)]); d != "" {
			return "content differs: " + d
		}
		return ""
	}
	if late {
		// bbolt's memory map may have to grow: it waits for readers, the writer goes on after Release
		if d := rest(n); d != "" {
			return "at the one that took the snapshot: " + d
		}
	}
	err = sn.Persist(s)
	sn.Release()
	if err != nil || s.cancelled {
		return fmt.Sprintf("persist: %v cancelled=%t", err, s.cancelled)
	}
	m := w.node()
	defer m.Close()
	if used {
		for i := range w.cmds {
			if !w.cmds[i].bad && i < 3 {
				m.FSM.Apply(w.log([]int{i, i, i, i, i, i, i, i, i, i}, 9-i))
			}
		}
		visible4(m)
	}
	if err := m.FSM.Restore(io.NopCloser(bytes.NewReader(s.Bytes()))); err != nil {
		return "restore: " + err.Error()
	}
	if d := diff4(visible4(m), r.visible[at]); d != "" {
		return "after restore reads differ: " + d
	}
	if d := rest(m); d != "" {
		return "after restore: " + d
	}
	if late {
		return ""
	}
	if d := rest(n); d != "" {
		return "at the one that took the snapshot: " + d
	}
	return ""
}

// restart after at commands; raft then delivers the whole log again.
func (w *w4) restart(seq []int, r ref4, at int, saved, batch bool) string {
	n := w.node()
	for i := 0; i < at; i++ {
		l := w.log(seq, i)
		if i == at-1 && !saved {
			l.Index = 0 // crash between the command and the note that it was applied
		}
		n.FSM.Apply(l)
	}
	p := n.Path
	_ = n.Cache.Close()
	if err := n.Store.Stop(); err != nil {
		return "stop: " + err.Error()
	}
	m := metakit.OpenPath(p)
	defer m.Close()
	var all []*raft.Log
	for i := range seq {
		all = append(all, w.log(seq, i))
	}
	var got []string
	if batch {
		for _, x := range m.FSM.(batcher).ApplyBatch(all) {
			got = append(got, res4(x))
		}
	} else {
		for _, l := range all {
			got = append(got, res4(m.FSM.Apply(l)))
		}
	}
	if d := sameRes(got[at:], r.res, at); d != "" {
		return d
	}
	if d := diff4(visible4(m), r.visible[len(seq)]); d != "" {
		return "reads differ: " + d
	}
	if d := diff4(content4(m), r.content[len(seq)]); d != "" {
		return "content differs: " + d
	}
	return ""
}

func TestVerifM04(t *testing.T) {
	vkit.Run(t, "M04", func(c *vkit.Ctx) {
		metakit.OwnAll(metakit.NewKV())
		w := &w4{c: c, cmds: commands4()}
		c.Rule("one evaluation = one command sequence executed in one way (a split into batches, a snapshot position with persist time and target store, a restart position) on fresh real stores, results and content compared with applying it one by one; all sequences up to the depth, not extended past an already seen content; counted as states: distinct contents")
		if c.Mine(0) {
			vkit.Bubble(t, func(*testing.T) { viaRaft(c, w) })
			failing4(c, w)
		}
		depth := c.N(4, 5)
		type item struct {
			seq []int
		}
		visit := func(seq []int) bool {
			c.Cur("%s", w.show(seq))
			one := func(kind string, fn func() string) {
				var bad string
				run := func() string {
					p := vkit.Safe(func() { bad = fn() })
					if p != "" {
						bad = "panics: " + strings.SplitN(p, "\n", 2)[0]
					}
					return bad
				}
				run()
				c.Eval(w.show(seq) + kind)
				c.Transition()
				c.Validated()
				if bad != "" {
					c.Fail(kind+" "+w.show(tail4(seq))+": "+bad, func() bool { return run() != "" }, "%s %s\n%s", w.show(seq), kind, bad)
				}
			}
			var r ref4
			ok := false
			one("one by one", func() string {
				var bad string
				r, bad = w.base(seq)
				ok = bad == ""
				return bad
			})
			if !ok {
				return false
			}
			n := len(seq)
			for mask := 0; mask < 1<<(n-1); mask++ {
				m := mask
				one(fmt.Sprintf("batches %0*b", n-1, m), func() string { return w.batches(seq, r, m, m%2 == 0) })
			}
			for at := 0; at <= n; at++ {
				at := at
				one(fmt.Sprintf("snapshot after %d", at), func() string { return w.snapshot(seq, r, at, false, at%2 == 1) })
				if at < n {
					one(fmt.Sprintf("late snapshot after %d", at), func() string { return w.snapshot(seq, r, at, true, at%2 == 0) })
				}
				if at > 0 {
					one(fmt.Sprintf("restart after %d", at), func() string { return w.restart(seq, r, at, true, at%2 == 0) })
					one(fmt.Sprintf("crash after %d", at), func() string { return w.restart(seq, r, at, false, at%2 == 1) })
				}
			}
			if c.Samples() < 3 && n == 3 {
				c.Sample(w.show(seq))
			}
			return c.State(r.content[n])
		}
		// one root per shard: dedupe per first command keeps shards independent
		for i := range w.cmds {
			if !c.Mine(i + 1) {
				continue
			}
			var queue [][]int
			if visit([]int{i}) || true {
				queue = append(queue, []int{i})
			}
			for len(queue) > 0 {
				q := queue[0]
				queue = queue[1:]
				if len(q) >= depth {
					continue
				}
				for j := range w.cmds {
					if c.Expired() {
						return
					}
					s := append(append([]int{}, q...), j)
					if visit(s) {
						queue = append(queue, s)
					}
				}
			}
		}
	})
}

// viaRaft sends every modification of the services through a real single-node raft and
// replays the log it wrote.
func viaRaft(c *vkit.Ctx, w *w4) {
	n := w.node()
	defer n.Close()
	conf := raft.DefaultConfig()
	conf.LocalID, conf.Logger = "S", hclog.NewNullLogger()
	conf.HeartbeatTimeout, conf.ElectionTimeout, conf.LeaderLeaseTimeout, conf.CommitTimeout = 50*time.Millisecond, 50*time.Millisecond, 50*time.Millisecond, 5*time.Millisecond
	st := raft.NewInmemStore()
	addr, tr := raft.NewInmemTransport("S")
	r, err := raft.NewRaft(conf, n.FSM, st, st, raft.NewInmemSnapshotStore(), tr)
	if err != nil {
		panic(err)
	}
	defer func() { _ = r.Shutdown().Error() }()
	if err := r.BootstrapCluster(raft.Configuration{Servers: []raft.Server{{ID: "S", Address: addr}}}).Error(); err != nil {
		panic(err)
	}
	select {
	case <-r.LeaderCh():
	case <-time.After(30 * time.Second):
		panic("no leader")
	}
	rw := raftimpl.NewDisabledRaft()
	rw.Raft, rw.Enabled = r, true
	setLeader(rw)
	n.Wire(rw)
	m := metakit.NewModel()
	at := func() *metakit.Node { return n }
	steps := []metakit.Step{metakit.AddMeta("a"), metakit.AddMeta("a.1"), metakit.AddVer("a", "h1"), metakit.AddVer("a", "h2"), metakit.AddVer("a.1", "h1"), metakit.UpdMeta("a"),
		metakit.UpdVer("a", "last"), metakit.Locate("h1", 1, "x"), metakit.Receive(at, "a", "h1", "missing"), metakit.DelVer("a", "first"), metakit.AddVer("a", "h1"), metakit.Locate("h1", 0, "y"),
		metakit.AddBucket("b"), metakit.UpdBucket("b"), metakit.AddBucket("c"), metakit.DelBucket("c"), metakit.AddMeta("z"), metakit.DelMeta("z"), metakit.AddVer("none", "h1"), metakit.DelVer("a.1", "all"), metakit.AddVer("a.1", "h2")}
	for i, s := range steps {
		time.Sleep(2 * time.Millisecond)
		before, _ := st.LastIndex()
		c.Cur("via raft: %s", s.Name)
		if bad := s.Do(metakit.Direct{N: n}, m, func() {}); bad != "" {
			c.Fail("raft "+s.Name, nil, "through raft, step %d %s: %s", i, s.Name, bad)
			return
		}
		m.Learn(n)
		c.Eval("raft " + s.Name)
		c.Transition()
		c.Validated()
		if after, _ := st.LastIndex(); after == before {
			c.Fail("bypass "+s.Name, nil, "%s was acknowledged without a log entry: no other replica learns of it", s.Name)
		}
		// a fresh replica that gets the log
		f := w.node()
		last, _ := st.LastIndex()
		fst, _ := st.FirstIndex()
		for ; fst <= last; fst++ {
			var l raft.Log
			if st.GetLog(fst, &l) == nil && l.Type == raft.LogCommand {
				f.FSM.Apply(&l)
			}
		}
		if d := diff4(content4(f), content4(n)); d != "" {
			c.Fail("replica after "+s.Name, nil, "after %s a replica with the same log differs: %s", s.Name, d)
		}
		f.Close()
		if bad := m.ReadObjects(metakit.Direct{N: n}, []string{"a", "a.1", "z"}); bad != "" {
			c.Fail("raft read "+s.Name, nil, "through raft, after %s: %s", s.Name, bad)
		}
	}
}

// setLeader marks the wrapper as leader, as its leadership subscription does.
func setLeader(rw *raftimpl.RaftWrapper) { metakit.SetLeader(rw, true) }

func tail4(s []int) []int {
	if len(s) > 2 {
		return s[len(s)-2:]
	}
	return s
}
