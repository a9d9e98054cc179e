package objkit_test

import (
	"bytes"
	"common/datasize"
	"common/proto/pb"
	"common/util"
	"common/vkit"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	rpc "objectserver/internal/controller/grpc"
	"objectserver/internal/objkit"
	"objectserver/internal/usecase/pool"
	"objectserver/internal/usecase/service"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// ---- the other servers

// peer6 is another object server: what it answers is up to the world of the moment
type peer6 struct {
	pb.UnimplementedObjectMigrationServer
	addr string
	stat string // header of /stat; "-" no header, "x" not a number, "500" an error
	w    *world6
}

var (
	peers6 []*peer6
	dead6  string // nobody listens there
	metas6 []*meta6
)

type meta6 struct {
	mu     sync.Mutex
	addr   string
	answer int
	got    []string
}

func listen6(h http.Handler) string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	go func() { _ = http.Serve(l, h) }()
	return l.Addr().String()
}

func start6() {
	if len(peers6) > 0 {
		return
	}
	for i := 0; i < 3; i++ {
		p := &peer6{}
		srv := grpc.NewServer(grpc.MaxRecvMsgSize(int(8 * datasize.MB)))
		pb.RegisterObjectMigrationServer(srv, p)
		mux := http.NewServeMux()
		mux.HandleFunc("/stat", func(w http.ResponseWriter, _ *http.Request) {
			switch p.stat {
			case "-":
			case "500":
				w.WriteHeader(500)
			default:
				w.Header().Set("Capacity", p.stat)
			}
		})
		p.addr = listen6(util.H2CHandler(mux, srv))
		peers6 = append(peers6, p)
		m := &meta6{}
		mux = http.NewServeMux()
		mux.HandleFunc("/version/locate", func(w http.ResponseWriter, r *http.Request) {
			var b struct {
				Hash        string
				LocateIndex int
				Locate      string
			}
			bt, _ := io.ReadAll(r.Body)
			_ = json.Unmarshal(bt, &b)
			m.mu.Lock()
			m.got = append(m.got, fmt.Sprintf("%s %s %d %s", r.Method, b.Hash, b.LocateIndex, b.Locate))
			a := m.answer
			m.mu.Unlock()
			w.WriteHeader(a)
		})
		m.addr = listen6(util.H2CHandler(mux, srv))
		metas6 = append(metas6, m)
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	dead6 = l.Addr().String()
	_ = l.Close()
}

const self6 = "127.0.0.1:2"

// group6 is who is registered
type group6 struct {
	peers []string
	metas []string
	gone  bool
}

func (g group6) GetServices(name string) []string {
	if name == "metaserver" {
		return g.metas
	}
	return append([]string{self6}, g.peers...)
}
func (g group6) GetServiceMapping(name string) map[string]string {
	return g.GetServiceMappingWith(name, true)
}
func (g group6) GetServiceMappingWith(name string, _ bool) map[string]string {
	res := map[string]string{}
	for i, s := range g.GetServices(name) {
		res[fmt.Sprint("id", i)] = s
	}
	return res
}
func (g group6) GetService(string, string) (string, bool) { return self6, !g.gone }

// ---- sending

type shard6 struct {
	name string
	size int
}

type world6 struct {
	mu     sync.Mutex
	want   map[string][]byte
	faults map[string]string // event -> what goes wrong
	hit    map[string]bool
	events []string
	stored map[string][]byte
	done   map[string]bool // told to be finished, and answered so
	to     map[string]string
	msgs   map[string][]*pb.ObjectData
	origin []string
	asked  []string
}

func (w *world6) event(e string) string {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.events = append(w.events, e)
	f := w.faults[e]
	if f != "" {
		w.hit[e] = true
	}
	return f
}

func (p *peer6) ReceiveData(s pb.ObjectMigration_ReceiveDataServer) error {
	w := p.w
	if f := w.event("open at " + p.addr); f != "" {
		return status.Error(codes.Unavailable, f)
	}
	var name string
	var size int64
	var got []byte
	for k := 0; ; k++ {
		d, err := s.Recv()
		if err == io.EOF {
			f := w.event(name + " eof")
			if f == "refuse" {
				return s.SendAndClose(&pb.Response{Message: "refused"})
			}
			if f == "status" {
				return status.Error(codes.Internal, f)
			}
			if k == 0 {
				return status.Error(codes.InvalidArgument, "no message")
			}
			if int64(len(got)) != size {
				return s.SendAndClose(&pb.Response{Message: fmt.Sprintf("%d bytes of %d", len(got), size)})
			}
			w.mu.Lock()
			w.stored[name] = got
			w.mu.Unlock()
			if f == "lost" {
				return status.Error(codes.Unavailable, f)
			}
			return s.SendAndClose(&pb.Response{Success: true})
		}
		if err != nil {
			return err
		}
		w.mu.Lock()
		if k == 0 {
			name, size = d.FileName, d.Size
			w.to[name] = p.addr
			delete(w.msgs, name)
		}
		if d.FileName != name || d.Size != size {
			w.mu.Unlock()
			return status.Error(codes.InvalidArgument, "mixed messages")
		}
		w.msgs[name] = append(w.msgs[name], &pb.ObjectData{FileName: d.FileName, Size: d.Size, Data: bytes.Clone(d.Data)})
		w.mu.Unlock()
		switch f := w.event(fmt.Sprintf("%s message %d", name, k)); f {
		case "refuse":
			return s.SendAndClose(&pb.Response{Message: "refused"})
		case "status":
			return status.Error(codes.Internal, f)
		case "has": // it has this shard already
			w.mu.Lock()
			w.stored[name] = w.want[name]
			w.mu.Unlock()
			return s.SendAndClose(&pb.Response{Success: true})
		}
		got = append(got, d.Data...)
	}
}

func (p *peer6) FinishReceive(_ context.Context, info *pb.ObjectInfo) (*pb.Response, error) {
	w := p.w
	f := w.event(info.FileName + " finish")
	switch f {
	case "refuse":
		return &pb.Response{Message: "refused"}, nil
	case "status":
		return nil, status.Error(codes.Internal, f)
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	w.origin = append(w.origin, info.OriginLocate)
	if b, ok := w.stored[info.FileName]; !ok || int64(len(b)) != info.Size || w.to[info.FileName] != p.addr {
		return &pb.Response{Message: "not here"}, nil
	}
	if f == "lost" {
		return nil, status.Error(codes.Unavailable, f)
	}
	w.done[info.FileName] = true
	return &pb.Response{Success: true}, nil
}

func (p *peer6) RequireSend(_ context.Context, info *pb.RequiredInfo) (*pb.Response, error) {
	w := p.w
	f := w.event("require at " + p.addr)
	w.mu.Lock()
	w.asked = append(w.asked, fmt.Sprintf("%s %d %s", p.addr, info.RequiredSize, info.TargetAddress))
	w.mu.Unlock()
	if f != "" {
		return nil, status.Error(codes.Internal, f)
	}
	return &pb.Response{Success: true}, nil
}

var seq6 int

func node6(c *vkit.Ctx) *objkit.Node {
	seq6++
	return objkit.Open(filepath.Join(c.Scratch("o06"), fmt.Sprintf("n%d", seq6)), objkit.Options{Disks: 2, MaxItem: 10 * datasize.KB, MemIndex: true})
}

// put6 gives the server its shards, on alternating disks, and temporary files next to them
func put6(n *objkit.Node, shards []shard6, temps bool) map[string][]byte {
	want := map[string][]byte{}
	for i, s := range shards {
		n.Prefer(i % 2)
		want[s.name] = objkit.Content(s.size, i+1)
		if s.size == 0 {
			// cannot be uploaded, but might have been left there by older versions
			if err := os.WriteFile(n.Path(i%2, s.name), nil, 0600); err != nil {
				panic(err)
			}
			continue
		}
		if r := n.Put(s.name, objkit.NewBody(want[s.name]), false); r.Code != 200 {
			panic(fmt.Sprintf("cannot put: %d %s", r.Code, r.Body))
		}
	}
	if temps {
		for i := 0; i < 2; i++ {
			n.Prefer(i)
			id, r := n.Post(fmt.Sprintf("t.%d", i), 10)
			if r.Code != 200 {
				panic("cannot post")
			}
			if r = n.Patch(id, objkit.NewBody(objkit.Content(10, i))); r.Code != 200 {
				panic("cannot patch")
			}
		}
	}
	return want
}

type send6 struct {
	shards []shard6
	temps  bool
	plan   []int64 // of the first peers
	down   int     // number of the peer that is not reachable, or -1
	leave  bool    // on command, all of it
}

func (s send6) String() string {
	how := fmt.Sprintf("to %d", s.plan)
	if s.leave {
		how = fmt.Sprintf("leaving, to servers with %d", s.plan)
	}
	return fmt.Sprintf("%v %s down %d temps %v", s.shards, how, s.down, s.temps)
}

// read6 reads a shard; one without content cannot be read but is there
func read6(n *objkit.Node, name string, size int) objkit.Resp {
	if size == 0 {
		r := n.Do("HEAD", "/objects/"+name, nil, nil)
		r.Body = nil
		return r
	}
	return n.Get(name, 0, int64(size), false, false, false)
}

// run sends, and judges what is left. It returns the world to find out what happened.
func (s send6) run(c *vkit.Ctx, faults map[string]string) (w *world6, msg string) {
	n := node6(c)
	defer n.Close()
	want := put6(n, s.shards, s.temps)
	w = &world6{want: want, faults: faults, hit: map[string]bool{}, stored: map[string][]byte{}, done: map[string]bool{},
		to: map[string]string{}, msgs: map[string][]*pb.ObjectData{}}
	plan := map[string]int64{}
	g := group6{}
	for i, v := range s.plan {
		addr := peers6[i].addr
		peers6[i].w = w
		peers6[i].stat = fmt.Sprint(v)
		if i == s.down {
			addr = dead6
		}
		plan[addr] = v
		g.peers = append(g.peers, addr)
	}
	pool.Discovery = g
	srv := rpc.NewMigrationServer(service.NewMigrationService(pool.ObjectCap))
	temps := n.Temps()
	var err error
	if s.leave {
		var r *pb.Response
		if r, err = srv.LeaveCommand(context.Background(), &pb.EmptyReq{}); err == nil && !r.Success {
			err = errors.New(r.Message)
		}
		if plan, err2 := srv.Service.DeviationValues(false); err == nil && err2 != nil {
			return w, fmt.Sprintf("no plan after leaving: %v %v", plan, err2)
		}
	} else {
		err = srv.Service.SendingTo(self6, plan)
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	files := n.Files()
	var left int64
	moved, attempted := 0, 0
	for _, sh := range s.shards {
		_, here := files[sh.name]
		got, there := w.stored[sh.name]
		if w.to[sh.name] != "" {
			attempted++
		}
		if here {
			left += int64(sh.size)
			r := read6(n, sh.name, sh.size)
			if r.Code != 200 {
				return w, fmt.Sprintf("%s is kept, but reading it is answered by %d", sh.name, r.Code)
			}
			if d := objkit.Diff(want[sh.name], r.Body); d != "" {
				return w, fmt.Sprintf("%s is kept, but reads as %s", sh.name, d)
			}
			if there && w.done[sh.name] && err == nil {
				return w, fmt.Sprintf("%s was handed over and kept, without an error", sh.name)
			}
			continue
		}
		moved++
		if !there {
			return w, fmt.Sprintf("%s is gone, the target does not have it (error %v)", sh.name, err)
		}
		if d := objkit.Diff(want[sh.name], got); d != "" {
			return w, fmt.Sprintf("%s is gone, the target has %s", sh.name, d)
		}
		if !w.done[sh.name] {
			return w, fmt.Sprintf("%s is gone, the metadata was not changed", sh.name)
		}
		if r := read6(n, sh.name, sh.size); r.Code == 200 {
			return w, fmt.Sprintf("%s is gone, but can be read", sh.name)
		}
	}
	for _, o := range w.origin {
		if o != self6 {
			return w, fmt.Sprintf("names %s as origin", o)
		}
	}
	for name := range w.to {
		if _, ok := want[name]; !ok {
			return w, fmt.Sprintf("sends %s", name)
		}
	}
	if c := n.Capacity(); c != left {
		return w, fmt.Sprintf("capacity is %d with %d bytes of shards", c, left)
	}
	if after := n.Temps(); strings.Join(temps, " ") != strings.Join(after, " ") {
		return w, fmt.Sprintf("temporary files were %v, are %v", temps, after)
	}
	for e := range w.hit {
		if w.faults[e] != "has" && err == nil {
			return w, fmt.Sprintf("no error, although %s: %s", e, w.faults[e])
		}
	}
	if len(w.hit) == 0 && s.down < 0 {
		if err != nil {
			return w, fmt.Sprintf("error without a failure: %v", err)
		}
		if moved != attempted {
			return w, fmt.Sprintf("%d shards sent, %d removed", attempted, moved)
		}
	}
	if s.down >= 0 && err == nil && moved < len(s.shards) && !(s.leave && left == 0) {
		return w, "no error, although a target was not reachable and shards are left"
	}
	// the amounts: no more than one shard over each of them, everything if they are large enough
	if s.down < 0 && !s.leave {
		full := true
		for i, v := range s.plan {
			var sum int64
			largest := 0
			for _, sh := range s.shards {
				if w.to[sh.name] == peers6[i].addr {
					sum += int64(sh.size)
					if sh.size > largest {
						largest = sh.size
					}
				}
			}
			if v > 0 && sum-int64(largest) >= v {
				return w, fmt.Sprintf("%d bytes sent to a target that takes %d", sum, v)
			}
			full = full && sum >= v
		}
		if attempted < len(s.shards) && !full && len(faults) == 0 {
			return w, fmt.Sprintf("only %d of %d shards sent", attempted, len(s.shards))
		}
	}
	if s.leave && len(w.hit) == 0 && s.down < 0 && left > 0 {
		return w, fmt.Sprintf("%d bytes left on a server that has left", left)
	}
	return w, ""
}

// replay feeds what was sent to the real receiver on a server of its own
func (s send6) replay(c *vkit.Ctx, w *world6) string {
	n := node6(c)
	defer n.Close()
	metas6[0].answer = 200
	pool.Discovery = group6{metas: []string{metas6[0].addr}}
	srv := rpc.NewMigrationServer(service.NewMigrationService(pool.ObjectCap))
	var sum int64
	for name, msgs := range w.msgs {
		st := &stream6{msgs: msgs, end: io.EOF}
		if err := srv.ReceiveData(st); err != nil || st.resp == nil || !st.resp.Success {
			return fmt.Sprintf("receiver: %v %v", err, st.resp)
		}
		if r, err := srv.FinishReceive(context.Background(), &pb.ObjectInfo{FileName: name, Size: int64(len(w.want[name]))}); err != nil || !r.Success {
			return fmt.Sprintf("receiver cannot finish: %v %v", err, r)
		}
		sum += int64(len(w.want[name]))
		r := read6(n, name, len(w.want[name]))
		if d := objkit.Diff(w.want[name], r.Body); r.Code != 200 || d != "" {
			return fmt.Sprintf("receiver returns %d: %s", r.Code, d)
		}
	}
	if n.Capacity() != sum || len(n.Temps()) > 0 {
		return fmt.Sprintf("receiver: capacity %d of %d, temporary files %v", n.Capacity(), sum, n.Temps())
	}
	c.Validated()
	return ""
}

func TestVerifO06Send(t *testing.T) {
	vkit.Run(t, "O06", func(c *vkit.Ctx) {
		c.Rule("a shard is gone at the source only if the target has stored the same bytes and confirmed the change of the metadata, whatever was sent was planned, every failure is reported and leaves the shard readable; a received shard is visible only when complete, and the change of the metadata is confirmed only if all metadata servers have made it or do not know it; plans cover what there is")
		start6()
		big := int(4 * datasize.MB)
		sets := [][]shard6{
			{},
			{{"a.0", 1}},
			{{"a.0", 5000}},
			{{"a.0", big}},
			{{"a.0", big + 3}},
			{{"a.0", 0}, {"b.1", 0}},
			{{"a.0", 1}, {"b.1", 5000}},
			{{"a.0", 5000}, {"a.1", 5000}, {"b.0", 17}},
			{{"a.12", 0}, {"b.0", 1}, {"c,x.3", 4096}, {"d.0", 8192}},
		}
		if !c.Quick {
			sets = append(sets, []shard6{{"a.0", 2*big + 1}, {"b.0", big - 1}},
				[]shard6{{"a.0", 1}, {"b.0", 2}, {"c.0", 3}, {"d.0", 4}, {"e.0", 5}, {"f.0", 6}, {"g.0", 0}})
		}
		var all []send6
		for _, set := range sets {
			var sum int64
			for _, s := range set {
				sum += int64(s.size)
			}
			plans := [][]int64{nil, {1}, {sum - 1}, {sum}, {sum + 1}, {1, 1}, {1, sum}, {sum, sum}, {sum / 2, sum - sum/2}, {1, 1, sum}}
			for _, plan := range plans {
				if len(plan) > 0 && plan[0] <= 0 {
					continue
				}
				for _, temps := range []bool{false, true} {
					if temps && len(plan) != 1 {
						continue
					}
					all = append(all, send6{set, temps, plan, -1, false})
				}
				for d := range plan {
					all = append(all, send6{set, false, plan, d, false})
				}
			}
			for _, caps := range [][]int64{{0}, {0, 0}, {0, 5000}, {1 << 30, 0}, {1 << 30, 0, 3}, {7, 7, 7}} {
				all = append(all, send6{set, false, caps, -1, true}, send6{set, false, caps, len(caps) - 1, true})
			}
		}
		item := 0
		check := func(s send6, faults map[string]string, what string) *world6 {
			id := s.String() + what
			c.Cur("%s", id)
			c.Eval(id)
			w, msg := s.run(c, faults)
			if msg != "" {
				c.Fail("send "+id, func() bool { _, m := s.run(c, faults); return m != "" }, "%s: %s", id, msg)
			}
			return w
		}
		kinds := func(e string) []string {
			switch {
			case strings.HasPrefix(e, "open at"):
				return []string{"status"}
			case strings.HasSuffix(e, "message 0"):
				return []string{"refuse", "status", "has"}
			case strings.HasSuffix(e, "eof"), strings.HasSuffix(e, "finish"):
				return []string{"refuse", "status", "lost"}
			}
			return []string{"refuse", "status"}
		}
		for _, s := range all {
			if item++; !c.Mine(item) {
				continue
			}
			if c.Expired() {
				return
			}
			w := check(s, nil, "")
			if s.down < 0 {
				if msg := s.replay(c, w); msg != "" {
					c.Fail("replay "+s.String(), nil, "%s: %s", s, msg)
				}
			}
			events := distinct6(w.events)
			for i, e := range events {
				for _, k := range kinds(e) {
					if c.Expired() {
						return
					}
					w2 := check(s, map[string]string{e: k}, fmt.Sprintf(" %s: %s", e, k))
					c.State(fmt.Sprintf("%s %s %s %d", s, e, k, len(w2.done)))
					c.Transition()
					if s.down >= 0 || (len(s.plan) > 1 || len(s.shards) > 2) && c.Quick {
						continue
					}
					for _, e2 := range events[i+1:] {
						for _, k2 := range kinds(e2) {
							check(s, map[string]string{e: k, e2: k2}, fmt.Sprintf(" %s: %s, %s: %s", e, k, e2, k2))
							c.Transition()
						}
					}
				}
			}
		}
	})
}

func distinct6(ss []string) (res []string) {
	seen := map[string]bool{}
	for _, s := range ss {
		if !seen[s] {
			seen[s] = true
			res = append(res, s)
		}
	}
	sort.Strings(res)
	return
}

// ---- receiving

type stream6 struct {
	grpc.ServerStream
	msgs []*pb.ObjectData
	end  error
	resp *pb.Response
	step func(int) // called before a message is received
	k    int
}

func (s *stream6) Context() context.Context { return context.Background() }

func (s *stream6) Recv() (*pb.ObjectData, error) {
	if s.step != nil {
		s.step(s.k)
	}
	if s.k++; s.k <= len(s.msgs) {
		return s.msgs[s.k-1], nil
	}
	return nil, s.end
}

func (s *stream6) SendMsg(m any) error {
	if r, ok := m.(*pb.Response); ok {
		s.resp = r
	}
	return nil
}

func (s *stream6) SendAndClose(r *pb.Response) error { s.resp = r; return nil }

// split6 cuts a content into messages, in all ways of the bounds
func split6(name string, b []byte, declared int64) (res [][]*pb.ObjectData) {
	m := func(parts ...[]byte) {
		var ms []*pb.ObjectData
		for _, p := range parts {
			ms = append(ms, &pb.ObjectData{FileName: name, Size: declared, Data: p})
		}
		res = append(res, ms)
	}
	h := len(b) / 2
	m(b)
	m(b[:h], b[h:])
	m(nil, b)
	m(b[:1], nil, b[1:])
	return
}

type recv6 struct {
	n    *objkit.Node
	srv  *rpc.MigrationServer
	name string
	has  []byte
	log  []string
}

func (r *recv6) state() string {
	if r.has == nil {
		return "none"
	}
	return fmt.Sprint(len(r.has))
}

// receive gives messages to the receiver and judges what it did
func (r *recv6) receive(msgs []*pb.ObjectData, end error) string {
	st := &stream6{msgs: msgs, end: end}
	err := r.srv.ReceiveData(st)
	ok := err == nil && st.resp != nil && st.resp.Success
	got := []byte{}
	for _, m := range msgs {
		got = append(got, m.Data...)
	}
	complete := len(msgs) > 0 && end == io.EOF && int64(len(got)) == msgs[0].Size
	same := len(msgs) > 0 && r.has != nil && int64(len(r.has)) == msgs[0].Size
	switch {
	case same: // it has the shard already, whatever comes
		if !ok && complete {
			return fmt.Sprintf("does not accept what it has already: %v %v", err, st.resp)
		}
	case complete:
		if !ok {
			return fmt.Sprintf("does not accept a complete shard: %v %v", err, st.resp)
		}
		r.has = got
	default:
		if ok {
			return fmt.Sprintf("accepts %d bytes in %d messages, then %v", len(got), len(msgs), end)
		}
	}
	return ""
}

func (r *recv6) judge() string {
	var want int64
	files := r.n.Files()
	names := 0
	for name, disks := range files {
		if name != r.name || len(disks) != 1 {
			return fmt.Sprintf("files are %v", files)
		}
		names++
	}
	if (r.has != nil) != (names == 1) {
		return fmt.Sprintf("files are %v, expected content %s", files, r.state())
	}
	head := r.n.Do("HEAD", "/objects/"+r.name, nil, nil)
	if r.has == nil {
		if head.Code != 404 {
			return fmt.Sprintf("HEAD of a shard that is not there: %d", head.Code)
		}
	} else {
		want = int64(len(r.has))
		if head.Code != 200 {
			return fmt.Sprintf("HEAD of the shard: %d", head.Code)
		}
		g := read6(r.n, r.name, len(r.has))
		if d := objkit.Diff(r.has, g.Body); g.Code != 200 || d != "" {
			return fmt.Sprintf("GET answers %d, %s", g.Code, d)
		}
	}
	if c := r.n.Capacity(); c != want {
		return fmt.Sprintf("capacity is %d with %d bytes of shards", c, want)
	}
	return ""
}

// finish confirms a shard; the answers of the metadata servers are given, 0 is unreachable
func (r *recv6) finish(name string, size int64, metas []int, gone bool) string {
	g := group6{gone: gone}
	for i, a := range metas {
		m := metas6[i]
		m.mu.Lock()
		m.answer, m.got = a, nil
		m.mu.Unlock()
		if a == 0 {
			g.metas = append(g.metas, dead6)
		} else {
			g.metas = append(g.metas, m.addr)
		}
	}
	pool.Discovery = g
	resp, err := r.srv.FinishReceive(context.Background(), &pb.ObjectInfo{FileName: name, Size: size, OriginLocate: "127.0.0.1:3"})
	ok := err == nil && resp.Success
	should := r.has != nil && name == r.name && int64(len(r.has)) == size && len(metas) > 0 && !gone
	dot := strings.LastIndexByte(name, '.')
	var hash, idx string
	if dot < 0 {
		should = false
	} else {
		hash, idx = name[:dot], name[dot+1:]
		if strings.Trim(idx, "0123456789") != "" || idx == "" {
			should = false
		}
	}
	expect := should
	for i, a := range metas {
		if a != 200 && a != 404 {
			expect = false
		}
		m := metas6[i]
		m.mu.Lock()
		got := strings.Join(m.got, ", ")
		m.mu.Unlock()
		if want := fmt.Sprintf("PATCH %s %s %s", hash, idx, self6); should && a != 0 && got != want {
			return fmt.Sprintf("metadata server is told %q instead of %q", got, want)
		} else if !should && got != "" {
			return fmt.Sprintf("metadata server is told %q, but %s of %d bytes is not here", got, name, size)
		}
	}
	if ok != expect {
		return fmt.Sprintf("finish of %s, %d bytes, with %s, metadata servers %v, gone %v: success %v", name, size, r.state(), metas, gone, ok)
	}
	return ""
}

func TestVerifO06Receive(t *testing.T) {
	vkit.Run(t, "O06", func(c *vkit.Ctx) {
		start6()
		broken := errors.New("connection lost")
		item := 0
		a, b, old := objkit.Content(3000, 1), objkit.Content(4500, 2), objkit.Content(2000, 3)
		newRecv := func(url string) *recv6 {
			r := &recv6{n: node6(c), name: url}
			r.srv = rpc.NewMigrationServer(service.NewMigrationService(pool.ObjectCap))
			pool.Discovery = group6{}
			return r
		}
		check := func(id string, run func(r *recv6) string) {
			if item++; !c.Mine(item) || c.Expired() {
				return
			}
			c.Cur("%s", id)
			c.Eval(id)
			again := func() (msg string) {
				r := newRecv("a.7")
				defer r.n.Close()
				defer func() {
					if p := recover(); p != nil {
						msg = fmt.Sprint("panics: ", p)
					}
				}()
				if msg = run(r); msg == "" {
					msg = r.judge()
				}
				if msg != "" {
					return strings.Join(r.log, ", ") + ": " + msg
				}
				c.State(id + r.state())
				return ""
			}
			if m := again(); m != "" {
				c.Fail("receive "+id, func() bool { return again() != "" }, "%s: %s", id, m)
			}
		}
		put := func(r *recv6, b []byte) string {
			if b == nil {
				return ""
			}
			if x := r.n.Put(r.name, objkit.NewBody(b), false); x.Code != 200 {
				return fmt.Sprintf("PUT answers %d", x.Code)
			}
			r.has = b
			return ""
		}
		// all sequences of messages, cut after each of them
		for _, initial := range [][]byte{nil, a, old} {
			for _, declared := range []int64{3000, 2999, 3001, 0} {
				for si, msgs := range split6("a.7", a, declared) {
					for k := 0; k <= len(msgs); k++ {
						for _, end := range []error{io.EOF, broken} {
							check(fmt.Sprintf("initially %d bytes, declared %d, split %d, %d messages, %v", len(initial), declared, si, k, end), func(r *recv6) string {
								if m := put(r, initial); m != "" {
									return m
								}
								return r.receive(msgs[:k], end)
							})
						}
					}
				}
			}
		}
		check("no name", func(r *recv6) string {
			st := &stream6{msgs: []*pb.ObjectData{{Size: 3, Data: []byte("abc")}}, end: io.EOF}
			if err := r.srv.ReceiveData(st); err == nil && st.resp.Success {
				return "accepts a shard without a name"
			}
			return ""
		})
		// all answers of metadata servers
		var answers [][]int
		var rec func(h []int)
		rec = func(h []int) {
			answers = append(answers, h)
			if len(h) < 3 {
				for _, x := range []int{200, 404, 500, 0} {
					rec(append(h[:len(h):len(h)], x))
				}
			}
		}
		rec(nil)
		for _, metas := range answers {
			for _, initial := range [][]byte{nil, a, old} {
				for _, size := range []int64{3000, 2000, 0} {
					for _, gone := range []bool{false, true} {
						for _, nm := range []string{"a.7", "a.x", "a", "a."} {
							if (gone || nm != "a.7") && len(metas) > 1 {
								continue
							}
							check(fmt.Sprintf("initially %d bytes, finish %s %d, metadata %v, gone %v", len(initial), nm, size, metas, gone), func(r *recv6) string {
								r.name = nm
								if m := put(r, initial); m != "" {
									return m
								}
								return r.finish(nm, size, metas, gone)
							})
						}
					}
				}
			}
		}
		// all histories
		type op struct {
			name string
			do   func(r *recv6) string
		}
		two := func(x []byte) []*pb.ObjectData { return split6("a.7", x, int64(len(x)))[1] }
		var ops []op
		for i, x := range [][]byte{a, b} {
			ops = append(ops,
				op{fmt.Sprintf("receive %c", 'A'+i), func(r *recv6) string { return r.receive(two(x), io.EOF) }},
				op{fmt.Sprintf("lose connection in %c", 'A'+i), func(r *recv6) string { return r.receive(two(x)[:1], broken) }},
				op{fmt.Sprintf("receive half of %c", 'A'+i), func(r *recv6) string { return r.receive(two(x)[:1], io.EOF) }},
				op{fmt.Sprintf("finish %c", 'A'+i), func(r *recv6) string { return r.finish("a.7", int64(len(x)), []int{200, 404}, false) }})
		}
		ops = append(ops,
			op{"metadata fails", func(r *recv6) string { return r.finish("a.7", 3000, []int{200, 500}, false) }},
			op{"delete", func(r *recv6) string {
				x := r.n.Do("DELETE", "/objects/a.7", nil, nil)
				if x.Code/100 == 5 || r.has != nil && x.Code/100 != 2 {
					return fmt.Sprintf("DELETE answers %d", x.Code)
				}
				r.has = nil
				return ""
			}},
			op{"put A", func(r *recv6) string {
				if r.has != nil {
					return ""
				}
				return put(r, a)
			}},
			op{"other disk", func(r *recv6) string { r.n.Prefer(1); return "" }},
			op{"restart", func(r *recv6) string {
				r.n.Restart()
				r.srv = rpc.NewMigrationServer(service.NewMigrationService(pool.ObjectCap))
				return ""
			}})
		var hist func(h []int)
		depth := c.N(3, 4)
		hist = func(h []int) {
			if len(h) == depth {
				var names []string
				for _, i := range h {
					names = append(names, ops[i].name)
				}
				check("history "+strings.Join(names, ", "), func(r *recv6) string {
					for _, i := range h {
						r.log = append(r.log, ops[i].name)
						if m := ops[i].do(r); m != "" {
							return m
						}
						c.Transition()
						if m := r.judge(); m != "" {
							return m
						}
					}
					return ""
				})
				return
			}
			for i := range ops {
				hist(append(h[:len(h):len(h)], i))
			}
		}
		hist(nil)
		// two senders at once, all orders of their messages
		sizes := [][2][]byte{{a, a}, {a, b}, {b, old}}
		ends := []error{io.EOF, broken}
		for _, initial := range [][]byte{nil, a, objkit.Content(100, 9)} {
			for _, pair := range sizes {
				for _, e0 := range ends {
					for _, e1 := range ends {
						var orders func(h []int, n0, n1 int)
						orders = func(h []int, n0, n1 int) {
							if n0+n1 > 0 {
								if n0 > 0 {
									orders(append(h[:len(h):len(h)], 0), n0-1, n1)
								}
								if n1 > 0 {
									orders(append(h[:len(h):len(h)], 1), n0, n1-1)
								}
								return
							}
							check(fmt.Sprintf("initially %d bytes, two senders of %d and %d bytes, %v, %v, order %v", len(initial), len(pair[0]), len(pair[1]), e0, e1, h), func(r *recv6) string {
								if m := put(r, initial); m != "" {
									return m
								}
								return r.both(pair, [2]error{e0, e1}, h)
							})
						}
						orders(nil, 3, 3)
					}
				}
			}
		}
	})
}

// both lets two senders send the same shard; each has two messages and an end
func (r *recv6) both(data [2][]byte, ends [2]error, order []int) string {
	var ready, move, done [2]chan bool
	var sts [2]*stream6
	var errs [2]error
	for i := 0; i < 2; i++ {
		i := i
		ready[i], move[i], done[i] = make(chan bool), make(chan bool), make(chan bool)
		sts[i] = &stream6{msgs: split6("a.7", data[i], int64(len(data[i])))[1], end: ends[i], step: func(int) { ready[i] <- true; <-move[i] }}
		go func() {
			defer close(done[i])
			errs[i] = r.srv.ReceiveData(sts[i])
		}()
		select {
		case <-ready[i]:
		case <-done[i]:
		}
	}
	waits := func(i int) string {
		select {
		case <-ready[i]:
		case <-done[i]:
		case <-time.After(20 * time.Second):
			return "a receiver waits for the other one"
		}
		return ""
	}
	over := [2]bool{}
	last := -1
	for _, i := range order {
		select {
		case <-done[i]:
			over[i] = true
			continue
		default:
		}
		move[i] <- true
		if m := waits(i); m != "" {
			return m
		}
		if sts[i].k == 3 {
			<-done[i]
			over[i] = true
			if sts[i].resp != nil && sts[i].resp.Success {
				last = i
			}
		}
	}
	for i := range done {
		<-done[i]
	}
	ok := [2]bool{}
	for i := range ok {
		ok[i] = errs[i] == nil && sts[i].resp != nil && sts[i].resp.Success
		if ok[i] && ends[i] != io.EOF && sts[i].k == 3 {
			return "accepts an incomplete shard"
		}
		if !ok[i] && ends[i] == io.EOF {
			return fmt.Sprintf("does not accept a complete shard: %v %v", errs[i], sts[i].resp)
		}
	}
	if last >= 0 {
		r.has = data[last]
	}
	return ""
}

// ---- plans

func TestVerifO06Plan(t *testing.T) {
	vkit.Run(t, "O06", func(c *vkit.Ctx) {
		start6()
		values := []string{"0", "1", "5", "10", "-", "500"}
		var configs [][]string
		var rec func(h []string)
		rec = func(h []string) {
			configs = append(configs, h)
			if len(h) < 3 {
				for _, v := range values {
					rec(append(h[:len(h):len(h)], v))
				}
			}
		}
		rec(nil)
		item := 0
		for _, own := range []int64{0, 1, 4, 7, 30} {
			for _, conf := range configs {
				for _, join := range []bool{false, true} {
					for dead := -1; dead < len(conf); dead++ {
						if item++; !c.Mine(item) {
							continue
						}
						if c.Expired() {
							return
						}
						id := fmt.Sprintf("own %d, others %v, not reachable %d, join %v", own, conf, dead, join)
						c.Cur("%s", id)
						c.Eval(id)
						run := func() string { return plan6(c, own, conf, dead, join) }
						if m := run(); m != "" {
							c.Fail("plan "+id, func() bool { return run() != "" }, "%s: %s", id, m)
						}
					}
				}
			}
		}
	})
}

func plan6(c *vkit.Ctx, own int64, conf []string, dead int, join bool) string {
	n := node6(c)
	defer n.Close()
	if own > 0 {
		n.Put("a.0", objkit.NewBody(objkit.Content(int(own), 1)), false)
	}
	w := &world6{hit: map[string]bool{}, faults: map[string]string{}}
	g := group6{}
	known := map[string]int64{}
	for i, v := range conf {
		peers6[i].stat, peers6[i].w = v, w
		if i == dead {
			g.peers = append(g.peers, dead6)
			continue
		}
		g.peers = append(g.peers, peers6[i].addr)
		var x int64
		if _, err := fmt.Sscan(v, &x); err == nil && v != "500" {
			known[peers6[i].addr] = x
		}
	}
	pool.Discovery = g
	srv := rpc.NewMigrationServer(service.NewMigrationService(pool.ObjectCap))
	plan, err := srv.Service.DeviationValues(join)
	if len(known) == 0 && !join {
		if err == nil {
			return "a server without others can leave"
		}
		return ""
	}
	if err != nil {
		return fmt.Sprintf("no plan: %v", err)
	}
	var sum int64
	total := own
	for _, v := range known {
		total += v
	}
	for k, v := range plan {
		has, ok := known[k]
		if !ok {
			return fmt.Sprintf("plans with %s", k)
		}
		if v <= 0 || join && v > has {
			return fmt.Sprintf("plans to move %d from or to a server with %d", v, has)
		}
		// nobody is left with less than the average, or made to have more, but for rounding
		size := int64(len(known))
		if join {
			size++
		}
		after := has + v
		if join {
			after = has - v
		}
		if d := after*size - total; d < 0 || d >= size {
			return fmt.Sprintf("a server with %d has %d afterwards, of %d in %d servers", has, after, total, size)
		}
		sum += v
	}
	if !join && sum < own {
		return fmt.Sprintf("only %d of %d would be moved", sum, own)
	}
	if join && len(plan) == 0 && own == 0 {
		for _, v := range known {
			if v*int64(len(known)+1) >= total+int64(len(known)+1) {
				return "a joining server gets nothing"
			}
		}
	}
	if !join || len(plan) == 0 {
		return ""
	}
	// all of them are asked, and a refusal is reported
	pool.OnOpen(func() {})
	for k := range plan {
		for _, refuse := range []bool{false, true} {
			w.asked = nil
			w.faults = map[string]string{}
			if refuse {
				w.faults["require at "+k] = "refused"
			}
			r, err := srv.JoinCommand(context.Background(), &pb.EmptyReq{})
			if ok := err == nil && r.Success; ok == refuse {
				return fmt.Sprintf("joining: success %v, a server refuses: %v", ok, refuse)
			}
			var want []string
			for k, v := range plan {
				want = append(want, fmt.Sprintf("%s %d %s", k, v, self6))
			}
			sort.Strings(want)
			sort.Strings(w.asked)
			if strings.Join(want, ", ") != strings.Join(w.asked, ", ") {
				return fmt.Sprintf("asks %v, the plan is %v", w.asked, want)
			}
		}
	}
	return ""
}
