package service_test

import (
	"common/hashslot"
	"common/proto/msg"
	"common/proto/pb"
	"common/registry"
	"common/util"
	"common/vkit"
	"context"
	"errors"
	"fmt"
	"metaserver/config"
	mgrpc "metaserver/internal/controller/grpc"
	"metaserver/internal/metakit"
	"metaserver/internal/usecase"
	"metaserver/internal/usecase/db"
	"metaserver/internal/usecase/pool"
	"metaserver/internal/usecase/service"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	clientv3 "go.etcd.io/etcd/client/v3"
	"google.golang.org/grpc"
)

func TestVerifH03(t *testing.T) {
	vkit.Run(t, "H03", func(c *vkit.Ctx) {
		c.Rule("populations of the moved and other slots; one fault at every message, write and call; then repeated and reversed")
		names3()
		pool.Registry = registry.NewEtcdRegistry(&clientv3.Client{KV: metakit.NewKV()}, &pool.Config.Registry)
		explore3(c)
	})
}

// ---- names

var (
	objs3                 []string // objects that move
	buck3                 []string // buckets that move
	near3                 []string // names in the slots right before and after
	other3                string   // name of the other group
	slots3                []string
	hashes3               = []string{"h0", "h1", "h2", "stale"}
	all3                  []string
	moved3                = map[string]bool{}
	errDown3, errDead3    = errors.New("fault"), errors.New("dead")
	ownA3, ownB3          = "0-8000", "8000-16384"
	farA3                 string
)

// names3 picks the names: slots of the moved ones are single, their neighbours stay
func names3() {
	bySlot := map[uint32]string{}
	for i := 0; i < 400000; i++ {
		n := fmt.Sprintf("n%d", i)
		s := uint32(hashslot.CalcBytesSlot([]byte(n)))
		if _, ok := bySlot[s]; !ok {
			bySlot[s] = n
		}
	}
	pick := func(s uint32) string {
		n, ok := bySlot[s]
		if !ok {
			panic("no name for the slot")
		}
		return n
	}
	objs3 = []string{pick(100), pick(101), pick(7999)}
	buck3 = []string{pick(300), pick(0)}
	near3 = []string{pick(99), pick(102), pick(299), pick(301), pick(1), pick(7998)}
	other3 = pick(9000)
	farA3 = pick(4000)
	slots3 = []string{"100-102", "7999-8000", "300-301", "0-1"}
	for _, l := range [][]string{objs3, buck3} {
		for _, n := range l {
			moved3[n] = true
		}
	}
	all3 = append(append(append(append([]string{}, objs3...), buck3...), near3...), other3, farA3)
}

// ---- groups

type conn3 struct {
	net.Conn
}

type lis3 struct {
	net.Listener
	mu    sync.Mutex
	conns []net.Conn
}

func (l *lis3) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err == nil {
		l.mu.Lock()
		l.conns = append(l.conns, c)
		l.mu.Unlock()
	}
	return c, err
}

func (l *lis3) cut() {
	l.mu.Lock()
	defer l.mu.Unlock()
	for _, c := range l.conns {
		_ = c.Close()
	}
	l.conns = nil
}

type group3 struct {
	w     *world3
	id    string
	dir   string
	node  *metakit.Node
	cfg   *config.Config
	db    *db.HashSlotDB
	svc   *service.HashSlotService
	lis   *lis3
	srv   *grpc.Server
	wg    sync.WaitGroup
	calls int  // numbered calls of the current attempt
	dead  bool // nothing it does has an effect any more
}

// step numbers the calls of a group, one of them may fail or be the last
func (g *group3) step(what string) error {
	g.w.mu.Lock()
	defer g.w.mu.Unlock()
	if g.dead {
		return errDead3
	}
	g.calls++
	f := g.w.fault
	if f.group == g.id && f.call == g.calls {
		g.w.hit = what
		if f.kind == "dies" {
			g.dead = true
			for _, o := range g.w.g {
				o.lis.cut()
			}
			return errDead3
		}
		if f.kind == "is readonly" {
			return usecase.ErrReadOnly
		}
		return errDown3
	}
	return nil
}

type kv3 struct {
	*metakit.KV
	g *group3
}

func (k kv3) wait() {
	k.g.w.mu.Lock()
	ch := k.g.w.gate
	if k.g.id != k.g.w.sender {
		ch = nil
	}
	k.g.w.mu.Unlock()
	if ch != nil {
		select {
		case <-ch:
		case <-time.After(20 * time.Second):
			panic("the receiver does not finish")
		}
	}
}

func (k kv3) Get(ctx context.Context, key string, o ...clientv3.OpOption) (*clientv3.GetResponse, error) {
	k.wait()
	if err := k.g.step("get"); err != nil {
		return nil, err
	}
	return k.KV.Get(ctx, key, o...)
}
func (k kv3) Put(ctx context.Context, key, v string, o ...clientv3.OpOption) (*clientv3.PutResponse, error) {
	k.wait()
	if err := k.g.step("put"); err != nil {
		return nil, err
	}
	return k.KV.Put(ctx, key, v, o...)
}

// metas3 and buckets3 are the group's records with calls that may fail
type metas3 struct {
	usecase.IMetadataService
	g *group3
}

func (m metas3) ReceiveVersion(n string, v *msg.Version) error {
	if err := m.g.step("write version"); err != nil {
		return err
	}
	return m.IMetadataService.ReceiveVersion(n, v)
}
func (m metas3) ReceiveMetadata(n string, v *msg.Metadata) error {
	if err := m.g.step("write metadata"); err != nil {
		return err
	}
	return m.IMetadataService.ReceiveMetadata(n, v)
}
func (m metas3) AddMetadata(n string, v *msg.Metadata) error {
	if err := m.g.step("write metadata"); err != nil {
		return err
	}
	return m.IMetadataService.AddMetadata(n, v)
}
func (m metas3) RemoveMetadata(n string) error {
	if err := m.g.step("remove metadata"); err != nil {
		return err
	}
	return m.IMetadataService.RemoveMetadata(n)
}
func (m metas3) GetMetadataBytes(n string) ([]byte, error) {
	if err := m.g.step("read metadata"); err != nil {
		return nil, err
	}
	return m.IMetadataService.GetMetadataBytes(n)
}

type buckets3 struct {
	usecase.BucketService
	g *group3
}

func (m buckets3) Receive(b *msg.Bucket) error {
	if err := m.g.step("write bucket"); err != nil {
		return err
	}
	return m.BucketService.Receive(b)
}
func (m buckets3) Create(b *msg.Bucket) error {
	if err := m.g.step("write bucket"); err != nil {
		return err
	}
	return m.BucketService.Create(b)
}
func (m buckets3) Remove(n string) error {
	if err := m.g.step("remove bucket"); err != nil {
		return err
	}
	return m.BucketService.Remove(n)
}
func (m buckets3) GetBytes(n string) ([]byte, error) {
	if err := m.g.step("read bucket"); err != nil {
		return nil, err
	}
	return m.BucketService.GetBytes(n)
}
func (m buckets3) Foreach(f func(k, v []byte) error) error {
	if err := m.g.step("scan buckets"); err != nil {
		return err
	}
	return m.BucketService.Foreach(f)
}

// hook3 is the group's migration service as its RPC server sees it
type hook3 struct {
	usecase.IHashSlotService
	g *group3
}

// at runs do as this group; the connection may be cut before or after
func (h hook3) at(do func() error) error {
	w, g := h.g.w, h.g
	w.mu.Lock()
	if w.over {
		w.mu.Unlock()
		return errDead3
	}
	w.msgs++
	f := w.fault
	here := strings.HasPrefix(f.kind, "cut") && f.call == w.msgs && g.id != w.sender
	first := f.group
	w.mu.Unlock()
	cut := func() {
		w.mu.Lock()
		w.hit = "cut"
		if first == "receiver" {
			w.gate = make(chan struct{})
		}
		w.mu.Unlock()
		g.lis.cut()
		if first == "sender" {
			select {
			case <-w.done:
			case <-time.After(20 * time.Second):
				panic("the sender does not finish")
			}
		}
	}
	if here && f.kind == "cut before" {
		cut()
	}
	if g.dead {
		return errDead3
	}
	back := w.enter(g)
	err := do()
	back()
	if here && f.kind == "cut after" {
		cut()
	}
	return err
}

func (h hook3) PrepareMigrationFrom(l *pb.LocationInfo, s []string) error {
	return h.at(func() error { return h.IHashSlotService.PrepareMigrationFrom(l, s) })
}
func (h hook3) ReceiveItem(i *pb.MigrationItem) error {
	return h.at(func() error { return h.IHashSlotService.ReceiveItem(i) })
}
func (h hook3) FinishReceiveItem(ok bool) error {
	return h.at(func() error { return h.IHashSlotService.FinishReceiveItem(ok) })
}

type world3 struct {
	mu     sync.Mutex
	kv     *metakit.KV
	g      map[string]*group3
	sender string
	fault  fault3
	hit    string
	gate   chan struct{} // the sender waits here before it asks the coordination store
	done   chan struct{} // the sender returned
	msgs   int           // calls the receiver got
	over   bool
	cur    *group3
}

// enter makes g the running group
func (w *world3) enter(g *group3) func() {
	w.mu.Lock()
	old := w.cur
	w.set(g)
	w.mu.Unlock()
	return func() {
		w.mu.Lock()
		w.set(old)
		w.mu.Unlock()
	}
}

func (w *world3) set(g *group3) {
	w.cur = g
	pool.Config, pool.HashSlot = g.cfg, g.db
}

const conf3 = `port: "%s"
registry:
  name: meta
  group: g
  server-id: %s
hash-slot:
  slots: ["%s"]
  prepare-timeout: 10s
etcd:
  endpoint: ["x:1"]
  username: u
  password: p
`

func must3(err error) {
	if err != nil {
		panic(err)
	}
}

func newWorld3(dir string) *world3 {
	w := &world3{kv: metakit.NewKV(), g: map[string]*group3{}}
	for id, own := range map[string]string{"A": ownA3, "B": ownB3} {
		g := &group3{w: w, id: id, dir: filepath.Join(dir, id)}
		must3(os.MkdirAll(g.dir, 0o700))
		l, err := net.Listen("tcp", "127.0.0.1:0")
		must3(err)
		g.lis = &lis3{Listener: l}
		g.node = metakit.Open(filepath.Join(g.dir, "n"))
		_, port, _ := net.SplitHostPort(l.Addr().String())
		must3(os.WriteFile(filepath.Join(g.dir, "conf.yaml"), []byte(fmt.Sprintf(conf3, port, id, own)), 0o600))
		w.g[id] = g
		g.boot()
	}
	return w
}

// boot starts the group on what is on its disk
func (g *group3) boot() {
	if g.srv != nil {
		g.srv.Stop()
		l, err := net.Listen("tcp", "127.0.0.1:0")
		must3(err)
		g.lis = &lis3{Listener: l}
	}
	g.dead = false
	g.cfg = config.ReadConfigFrom(filepath.Join(g.dir, "conf.yaml"))
	g.cfg.HashSlot.PrepareTimeout = 5 * time.Second
	g.db = db.NewHashSlotDB("slots/", kv3{g.w.kv, g})
	g.svc = service.NewHashSlotService(g.db, metas3{g.node.Svc, g}, buckets3{g.node.BSvc, g}, &g.cfg.HashSlot)
	g.srv = grpc.NewServer(grpc.StreamInterceptor(func(s any, ss grpc.ServerStream, i *grpc.StreamServerInfo, h grpc.StreamHandler) error {
		g.wg.Add(1)
		defer func() {
			g.wg.Done()
			g.w.mu.Lock()
			if g.w.gate != nil {
				close(g.w.gate)
				g.w.gate = nil
			}
			g.w.mu.Unlock()
		}()
		return h(s, ss)
	}), grpc.UnaryInterceptor(func(ctx context.Context, r any, i *grpc.UnaryServerInfo, h grpc.UnaryHandler) (any, error) {
		g.wg.Add(1)
		defer func() {
			g.wg.Done()
			g.w.mu.Lock()
			if g.w.gate != nil {
				close(g.w.gate)
				g.w.gate = nil
			}
			g.w.mu.Unlock()
		}()
		return h(ctx, r)
	}))
	pb.RegisterHashSlotServer(g.srv, mgrpc.NewHashSlotServer(hook3{g.svc, g}))
	go func(s *grpc.Server, l net.Listener) { _ = s.Serve(l) }(g.srv, g.lis)
	g.w.mu.Lock()
	g.w.set(g)
	g.w.mu.Unlock()
	g.svc.OnLeaderChanged(true)
}

func (w *world3) close() {
	w.mu.Lock()
	w.over = true
	w.mu.Unlock()
	for _, g := range w.g {
		g.srv.Stop()
		g.wg.Wait()
		g.node.Close()
	}
}

// view is everything a client can read about the names at this group
func (g *group3) view() map[string]string {
	d := metakit.Direct{N: g.node}
	r := map[string]string{}
	for _, n := range all3 {
		m, cl := d.GetMeta(n, true)
		if cl != "notfound" {
			s := cl
			if cl == "ok" {
				s = fmt.Sprintf("%s/%s c%d u%d %+v", m.Bucket, m.Name, m.CreateTime, m.UpdateTime, m.Extra)
			}
			l, total, cl := d.ListVer(n, 1, 100)
			s += fmt.Sprintf(" | %d versions %s", total, cl)
			for _, v := range l {
				one, cl := d.GetVer(n, int(v.Sequence))
				s += fmt.Sprintf(" {%+v} %s", *v, cl)
				if cl == "ok" && fmt.Sprint(*one) != fmt.Sprint(*v) {
					s += fmt.Sprintf(" or %+v", *one)
				}
			}
			r["object "+n] = s
		}
		b, cl := d.GetBucket(n)
		if cl != "notfound" {
			s := cl
			if cl == "ok" {
				s = fmt.Sprintf("%+v", *b)
			}
			r["bucket "+n] = s
		}
	}
	for _, h := range hashes3 {
		l, cl := d.ByHash(h)
		if cl != "ok" && cl != "notfound" {
			r["hash "+h] = cl
		}
		for _, v := range l {
			r["hash "+h+" "+v.UniqueId] = fmt.Sprintf("%+v", *v)
		}
	}
	return r
}

// part splits a view into what moves and what stays; lookups by hash follow their version
func part3(v map[string]string) (mv, st map[string]string) {
	mv, st = map[string]string{}, map[string]string{}
	text := ""
	for k, s := range v {
		f := strings.Fields(k)
		if f[0] != "hash" {
			if moved3[f[1]] {
				mv[k] = s
				text += s
			} else {
				st[k] = s
			}
		}
	}
	for k, s := range v {
		if strings.HasPrefix(k, "hash ") {
			if f := strings.Fields(k); len(f) > 2 && strings.Contains(text, f[2]) {
				mv[k] = s
			} else {
				st[k] = s
			}
		}
	}
	return
}

func diff3(got, want map[string]string) string {
	var l []string
	for k, v := range want {
		if g, ok := got[k]; !ok {
			l = append(l, "misses "+k)
		} else if g != v {
			l = append(l, fmt.Sprintf("changed %s: %s, was %s", k, g, v))
		}
	}
	for k, v := range got {
		if _, ok := want[k]; !ok {
			l = append(l, "has "+k+": "+v)
		}
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}

func (w *world3) owns(id string) set3 {
	v, ok := w.kv.Data()["slots/"+id]
	if !ok {
		return set3{}
	}
	var i hashslot.SlotInfo
	must3(util.DecodeMsgp(&i, []byte(v)))
	return parse3(i.Slots)
}

type set3 [16385]bool

func parse3(slots []string) (r set3) {
	l, err := hashslot.WrapSlotsToEdges(slots, "")
	must3(err)
	for _, e := range l {
		for i := e.Start; i < e.End; i++ {
			r[i] = true
		}
	}
	return
}

// ---- populations

type pop3 struct {
	name string
	fill func(a, b *group3)
}

func ver3(g *group3, name, hash string, del bool) {
	_, err := g.node.Svc.AddVersion(name, &msg.Version{Hash: hash, Size: 5, StoreStrategy: 1, DataShards: 1, ShardSize: 5, Locate: []string{"l1", "l2"}})
	must3(err)
}

func obj3(g *group3, name string, hashes ...string) {
	must3(g.node.Svc.ReceiveMetadata(name, &msg.Metadata{Name: name, Bucket: "bk", CreateTime: 5, UpdateTime: 7}))
	for _, h := range hashes {
		ver3(g, name, h, false)
	}
}

func bkt3(g *group3, name string) {
	must3(g.node.BSvc.Receive(&msg.Bucket{Name: name, Versioning: true, VersionRemains: 3, CreateTime: 5, UpdateTime: 6, Policies: []string{"p"}}))
}

func neighbours3(a, b *group3) {
	for i, n := range near3 {
		if i < 3 {
			obj3(a, n, "h0", "h1")
		} else {
			bkt3(a, n)
		}
	}
	obj3(a, farA3, "h2")
	obj3(b, other3, "h0")
}

func pops3() []pop3 {
	stale := func(b *group3) {
		obj3(b, objs3[0], "stale", "stale", "stale")
		obj3(b, objs3[2], "stale")
		bkt3(b, buck3[1])
		must3(b.node.BSvc.Update(&msg.Bucket{Name: buck3[1], Compress: true}))
	}
	return []pop3{
		{"nothing stored", func(a, b *group3) {}},
		{"nothing in the moved slots", neighbours3},
		{"one object without versions", func(a, b *group3) { neighbours3(a, b); obj3(a, objs3[0]) }},
		{"one object, two versions, one content", func(a, b *group3) { neighbours3(a, b); obj3(a, objs3[1], "h1", "h1") }},
		{"only a bucket", func(a, b *group3) { bkt3(a, buck3[0]) }},
		{"objects and buckets", func(a, b *group3) {
			neighbours3(a, b)
			obj3(a, objs3[0], "h0", "h1", "h2")
			must3(a.node.Svc.RemoveVersion(objs3[0], 1))
			obj3(a, objs3[1])
			obj3(a, objs3[2], "h1")
			bkt3(a, buck3[0])
			bkt3(a, buck3[1])
		}},
		{"leftovers at the receiver", func(a, b *group3) {
			neighbours3(a, b)
			stale(b)
			obj3(a, objs3[0], "h0", "h1")
			bkt3(a, buck3[0])
			bkt3(a, buck3[1])
		}},
		{"eleven versions", func(a, b *group3) {
			obj3(a, objs3[0], "h0", "h1", "h2", "h0", "h1", "h2", "h0", "h1", "h2", "h0", "h1")
			must3(a.node.Svc.RemoveVersion(objs3[0], 10))
		}},
	}
}

// ---- exploration

type fault3 struct {
	kind  string // "", fails, dies, cut before, cut after
	group string // whose call; with a cut: who goes on first
	call  int
}

func (f fault3) String() string {
	switch {
	case f.kind == "":
		return "no fault"
	case strings.HasPrefix(f.kind, "cut"):
		return fmt.Sprintf("connection %s call %d of the receiver, %s goes on first", f.kind, f.call, f.group)
	case f.kind == "dies":
		return fmt.Sprintf("group %s dies at its call %d", f.group, f.call)
	}
	return fmt.Sprintf("call %d of group %s %s", f.call, f.group, f.kind)
}

func explore3(c *vkit.Ctx) {
	idx := 0
	for _, p := range pops3() {
		type fam struct{ kind, group string }
		two := c.N(0, 1) == 1 && (p.name == "leftovers at the receiver" || p.name == "objects and buckets")
		fams := []fam{{"", ""}, {"fails", "A"}, {"fails", "B"}, {"is readonly", "B"}, {"cut before", "sender"}, {"cut before", "receiver"}, {"cut after", "sender"}, {"cut after", "receiver"}, {"dies", "A"}, {"dies", "B"}}
		for _, f := range fams {
			for part := 0; part < 16; part++ { // a family is split to spread it
				idx++
				if !c.Mine(idx) {
					continue
				}
				for n := 1 + part; n < 400; n += 16 {
					if c.Expired() {
						return
					}
					if f.kind == "" && n > 1 {
						break
					}
					f := fault3{f.kind, f.group, n}
					if !run3(c, p, f) {
						break
					}
					for _, g := range fams {
						for m := 1; two && g.kind != "" && m < 400; m++ {
							if c.Expired() || !run3(c, p, f, fault3{g.kind, g.group, m}) {
								break
							}
						}
					}
				}
			}
		}
	}
}

// attempt migrates the slots from one group to the other
func (w *world3) attempt(from, to string, f fault3) error {
	a, b := w.g[from], w.g[to]
	w.mu.Lock()
	w.sender, w.fault, w.hit, w.msgs, w.done, w.gate = from, f, "", 0, make(chan struct{}), nil
	a.calls, b.calls = 0, 0
	w.set(a)
	w.mu.Unlock()
	if f.kind != "" {
		// only with a fault a migration stays prepared until the timeout
		b.cfg.HashSlot.PrepareTimeout = 400 * time.Millisecond
	}
	host, port, _ := net.SplitHostPort(b.lis.Addr().String())
	res := make(chan error, 1)
	go func() {
		loc := &pb.LocationInfo{Host: host, Port: port}
		err := a.svc.PrepareMigrationTo(loc, slots3)
		if err == nil {
			err = a.svc.AutoMigrate(loc, slots3)
		}
		close(w.done)
		res <- err
	}()
	err := <-res
	b.wg.Wait()
	if a.dead || b.dead {
		for _, g := range []*group3{a, b} {
			if g.dead {
				w.mu.Lock()
				w.fault = fault3{}
				w.mu.Unlock()
				g.boot()
			}
		}
	}
	until := time.Now().Add(8 * time.Second)
	for !(a.db.IsNormal() && b.db.IsNormal()) && time.Now().Before(until) {
		time.Sleep(time.Millisecond)
	}
	b.wg.Wait()
	w.mu.Lock()
	w.fault = fault3{}
	w.mu.Unlock()
	b.cfg.HashSlot.PrepareTimeout = 5 * time.Second
	return err
}

func run3(c *vkit.Ctx, p pop3, f fault3, second ...fault3) bool {
	dir := c.Scratch("w")
	w := newWorld3(dir)
	defer w.close()
	a, b := w.g["A"], w.g["B"]
	p.fill(a, b)
	c.Cur("%s: %s %v", p.name, f, second)
	trip := "first"
	fail := func(format string, x ...any) bool {
		d := fmt.Sprintf(format, x...)
		fl := strings.Fields(d)
		if len(fl) > 6 {
			fl = fl[:6]
		}
		c.Fail(fmt.Sprintf("%s %s %s: %s", trip, f.kind, w.hit, strings.Join(fl, " ")), nil, "%s; %s (%s) %v: %s migration: %s", p.name, f, w.hit, second, trip, d)
		return false
	}
	mv := parse3(slots3)
	check := func(from, to string, err error, move, restF, restT map[string]string, f fault3) (string, bool) {
		s, r := w.g[from], w.g[to]
		if !s.db.IsNormal() || !r.db.IsNormal() {
			return "a group stays in the migration", false
		}
		sm, sr := part3(s.view())
		rm, rr := part3(r.view())
		so, ro := w.owns(from), w.owns(to)
		owned, free := true, true
		for i := range mv {
			if so[i] && ro[i] {
				return fmt.Sprintf("slot %d has two owners", i), false
			}
			if mv[i] {
				owned = owned && ro[i]
				free = free && !so[i] && !ro[i]
			}
		}
		if d := diff3(sr, restF); d != "" {
			return "what stays at the sender changed: " + d, owned
		}
		if d := diff3(rr, restT); d != "" {
			return "what belongs to the receiver changed: " + d, owned
		}
		if owned {
			if d := diff3(rm, move); d != "" {
				return "the receiver took the slots over without the records: " + d, owned
			}
		}
		switch {
		case err == nil && !owned:
			return "reported as done, but the receiver does not own the slots", owned
		case err == nil && len(sm) > 0:
			return "done, but the sender still has records: " + diff3(sm, nil), owned
		case err != nil && f.kind == "":
			return "fails: " + err.Error(), owned
		case !owned:
			if d := diff3(sm, move); d != "" {
				return fmt.Sprintf("failed (%v), and the sender lost or changed records: %s", err, d), owned
			}
			if free && f.kind != "dies" {
				return fmt.Sprintf("failed (%v), and nobody owns the slots", err), owned
			}
		}
		return "", owned
	}
	move, restA := part3(a.view())
	_, restB := part3(b.view())
	err := w.attempt("A", "B", f)
	hit := w.hit
	if f.kind != "" && hit == "" {
		return false // there is no such call
	}
	bad, owned := check("A", "B", err, move, restA, restB, f)
	c.Transition()
	c.State(fmt.Sprint(p.name, f, err == nil, owned))
	c.Outcome(fmt.Sprintf("%s: done %v, moved %v", f.kind, err == nil, owned))
	if bad != "" {
		return fail("%s", bad)
	}
	again := func(from, to string) bool {
		w.hit = hit
		s, r := w.g[from], w.g[to]
		move, restS := part3(s.view())
		_, restR := part3(r.view())
		var err error
		for i := 0; i < 3; i++ {
			if err = w.attempt(from, to, fault3{}); err == nil {
				break
			}
		}
		w.hit = hit
		bad, _ := check(from, to, err, move, restS, restR, fault3{})
		c.Transition()
		if bad != "" {
			return fail("%s", bad)
		}
		return true
	}
	so := w.owns("A")
	if len(second) > 0 {
		if owned || !so[100] {
			return false
		}
		trip = "second"
		obj3(b, fmt.Sprint("extra of B"), "h2")
		move, restA = part3(a.view())
		_, restB = part3(b.view())
		err = w.attempt("A", "B", second[0])
		if hit = w.hit; hit == "" {
			return false
		}
		bad, owned = check("A", "B", err, move, restA, restB, second[0])
		c.Transition()
		c.State(fmt.Sprint(p.name, f, second, err == nil, owned))
		if bad != "" {
			return fail("%s", bad)
		}
		so = w.owns("A")
	}
	if !owned && so[100] {
		trip = "repeated"
		// the records change before the next attempt
		if _, _, err := a.node.Svc.GetMetadata(objs3[0], -1, false); err == nil {
			ver3(a, objs3[0], "h2", false)
		} else {
			obj3(a, objs3[0], "h1")
		}
		_ = a.node.Svc.RemoveMetadata(objs3[1])
		_ = a.node.BSvc.Remove(buck3[0])
		if !again("A", "B") {
			return true
		}
		owned = true
	}
	if owned && len(dirty3(w)) == 0 {
		trip = "reversed"
		if !again("B", "A") {
			return true
		}
	}
	c.Eval(p.name + f.String() + fmt.Sprint(second))
	c.Validated()
	return true
}

// dirty3 lists moved records left at the sender
func dirty3(w *world3) map[string]string {
	m, _ := part3(w.g["A"].view())
	return m
}
