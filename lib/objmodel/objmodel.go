// Package objmodel is an executable model of object servers: their HTTP interface to the api server,
// with all data in memory and a fault possible at every request.
// It is bound to the real object server by the conformance part of check A01.
package objmodel

import (
	"common/util"
	"fmt"
	"io"
	"net"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
)

// Object is a stored object or shard
type Object struct {
	Content  string
	Compress bool
}

// Temp is an upload in progress
type Temp struct {
	Name    string
	Size    int64
	Content string
}

// Fault is what happens to one request
type Fault int

const (
	None    Fault = iota
	Refuse        // answered 503, nothing done
	Drop          // connection reset, nothing done
	Lost          // done, but the answer is lost
	CutHalf       // only half of the answer's body arrives, then the connection is reset
	Short         // only half of the answer's body arrives, it looks complete
	Empty         // nothing of the answer's body arrives, it looks complete
	Corrupt       // the answer's body ends with one byte more than asked for
	Die           // this server is unreachable from now on
)

func (f Fault) String() string {
	return [...]string{"none", "refused", "dropped", "answer lost", "body cut", "body short", "body empty", "body long", "server dies"}[f]
}

// Server is one object server
type Server struct {
	Objects map[string]Object
	Temps   map[string]*Temp
	Down    bool
}

// World is a cluster of object servers, one execution uses one world
type World struct {
	mu      sync.Mutex
	Servers []*Server
	Fault   func(ev string) Fault // decides about every request by its name
	events  []string
	count   map[string]int
	active  int
	idle    *sync.Cond
	closed  bool
}

func NewWorld(n int) *World {
	w := &World{count: map[string]int{}}
	w.idle = sync.NewCond(&w.mu)
	for i := 0; i < n; i++ {
		w.Servers = append(w.Servers, &Server{Objects: map[string]Object{}, Temps: map[string]*Temp{}})
	}
	return w
}

// Clone copies servers and their data, without faults and events
func (w *World) Clone() *World {
	w.mu.Lock()
	defer w.mu.Unlock()
	c := NewWorld(len(w.Servers))
	for i, s := range w.Servers {
		c.Servers[i].Down = s.Down
		for n, o := range s.Objects {
			c.Servers[i].Objects[n] = o
		}
		for id, t := range s.Temps {
			cp := *t
			c.Servers[i].Temps[id] = &cp
		}
	}
	return c
}

// Remove deletes an object
func (w *World) Remove(server int, name string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	delete(w.Servers[server].Objects, name)
}

// Lock gives exclusive access to the servers' state
func (w *World) Lock()   { w.mu.Lock() }
func (w *World) Unlock() { w.mu.Unlock() }

// Events are all requests so far, sorted
func (w *World) Events() []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	res := append([]string(nil), w.events...)
	sort.Strings(res)
	return res
}

// ResetEvents starts counting anew
func (w *World) ResetEvents() {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.events, w.count = nil, map[string]int{}
}

// Temps counts the temporary uploads on servers that are up
func (w *World) TempCount(down bool) (n int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, s := range w.Servers {
		if down || !s.Down {
			n += len(s.Temps)
		}
	}
	return
}

// Get returns an object of a server
func (w *World) Get(server int, name string) (Object, bool) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if server < 0 || server >= len(w.Servers) {
		return Object{}, false
	}
	o, ok := w.Servers[server].Objects[name]
	return o, ok
}

// Names are the objects of a server
func (w *World) Names(server int) []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	var res []string
	for n := range w.Servers[server].Objects {
		res = append(res, n)
	}
	sort.Strings(res)
	return res
}

// Dump is the whole stored state
func (w *World) Dump() string {
	w.mu.Lock()
	defer w.mu.Unlock()
	var sb strings.Builder
	for i, s := range w.Servers {
		var ls []string
		for n, o := range s.Objects {
			ls = append(ls, fmt.Sprintf("%s(%d,%t)", Tail(n), len(o.Content), o.Compress))
		}
		for _, t := range s.Temps {
			ls = append(ls, fmt.Sprintf("temp %s(%d/%d)", Tail(t.Name), len(t.Content), t.Size))
		}
		sort.Strings(ls)
		fmt.Fprintf(&sb, "s%d:%v ", i, ls)
	}
	return sb.String()
}

// Tail is the index part of a shard's name
func Tail(name string) string {
	if i := strings.LastIndexByte(name, '.'); i >= 0 {
		return name[i:]
	}
	return name
}

// Scramble is what reading with the wrong compression flag gives
func Scramble(s string) string {
	b := []byte(s)
	for i := range b {
		b[i] ^= 0x5a
	}
	return string(b)
}

// begin decides about the fate of a request
func (w *World) begin(server int, method, kind, name string) Fault {
	key := fmt.Sprintf("%s %s %s s%d", method, kind, Tail(name), server)
	w.count[key]++
	ev := fmt.Sprintf("%s #%d", key, w.count[key])
	w.events = append(w.events, ev)
	if w.Servers[server].Down {
		return Drop
	}
	if w.Fault == nil {
		return None
	}
	f := w.Fault(ev)
	if f == Die {
		w.Servers[server].Down = true
		return Drop
	}
	return f
}

// ServeHTTP answers for a server
func (w *World) Serve(server int, rw http.ResponseWriter, r *http.Request) {
	var body []byte
	var bodyErr error
	if r.Method == http.MethodPut || r.Method == http.MethodPatch {
		body, bodyErr = io.ReadAll(r.Body)
	}
	parts := strings.SplitN(strings.TrimPrefix(r.URL.Path, "/"), "/", 2)
	if len(parts) != 2 {
		rw.WriteHeader(404)
		return
	}
	kind, name := parts[0], parts[1]
	w.mu.Lock()
	w.active++
	defer func() {
		w.mu.Lock()
		w.active--
		w.idle.Broadcast()
		w.mu.Unlock()
	}()
	s := w.Servers[server]
	label := name
	if kind == "temp" && r.Method != http.MethodPost {
		if t := s.Temps[name]; t != nil {
			label = t.Name
		} else if i := strings.LastIndexByte(name, '|'); i >= 0 {
			label = name[:i]
		}
	}
	f := w.begin(server, r.Method, kind, label)
	if f == Refuse {
		w.mu.Unlock()
		rw.WriteHeader(503)
		return
	}
	if f == Drop || bodyErr != nil {
		w.mu.Unlock()
		panic(http.ErrAbortHandler)
	}
	code, hd, out := s.Do(Request{Method: r.Method, Kind: kind, Name: name, Body: string(body),
		Size: r.Header.Get("Size"), Range: r.Header.Get("Range"), Compress: r.URL.Query().Get("compress")})
	w.mu.Unlock()
	if f == Lost {
		panic(http.ErrAbortHandler)
	}
	if f >= CutHalf && r.Method != http.MethodGet {
		f = None
	}
	for k, v := range hd {
		rw.Header().Set(k, v)
	}
	rw.WriteHeader(code)
	switch f {
	case CutHalf:
		_, _ = io.WriteString(rw, out[:len(out)/2])
		if fl, ok := rw.(http.Flusher); ok {
			fl.Flush()
		}
		panic(http.ErrAbortHandler)
	case Short:
		out = out[:len(out)/2]
	case Empty:
		out = ""
	case Corrupt:
		out += "!"
	}
	_, _ = io.WriteString(rw, out)
}

// Wait until no request is being handled
func (w *World) Wait() {
	w.mu.Lock()
	defer w.mu.Unlock()
	for w.active > 0 {
		w.idle.Wait()
	}
}

// Request is what a server is asked to do
type Request struct{ Method, Kind, Name, Body, Size, Range, Compress string }

var ids int64

// Do is the semantics of an object server
func (s *Server) Do(r Request) (code int, hd map[string]string, body string) {
	compress := r.Compress == "true"
	switch r.Kind + " " + r.Method {
	case "objects HEAD":
		if _, ok := s.Objects[r.Name]; ok {
			return 200, nil, ""
		}
		return 404, nil, ""
	case "objects GET":
		size, err := strconv.ParseInt(r.Size, 10, 64)
		if err != nil || size == 0 {
			return 400, nil, ""
		}
		var off int64
		if rg := strings.TrimPrefix(r.Range, "bytes="); rg != r.Range {
			off, _ = strconv.ParseInt(strings.SplitN(rg, "-", 2)[0], 10, 64)
		}
		o, ok := s.Objects[r.Name]
		if !ok {
			return 404, nil, ""
		}
		c := o.Content
		if o.Compress != compress {
			c = Scramble(c)
		}
		if off >= int64(len(c)) {
			return 200, nil, ""
		}
		c = c[off:]
		if int64(len(c)) > size {
			c = c[:size]
		}
		return 200, nil, c
	case "objects PUT":
		if _, ok := s.Objects[r.Name]; !ok {
			s.Objects[r.Name] = Object{r.Body, compress}
		}
		return 200, nil, ""
	case "objects DELETE":
		delete(s.Objects, r.Name)
		return 204, nil, ""
	case "temp POST":
		size, err := strconv.ParseInt(r.Size, 10, 64)
		if err != nil || size < 1 {
			return 400, nil, ""
		}
		// ids are never used again, not even in another world
		id := fmt.Sprintf("%s|%d", r.Name, atomic.AddInt64(&ids, 1))
		s.Temps[id] = &Temp{Name: r.Name, Size: size}
		return 200, nil, id
	}
	t := s.Temps[r.Name]
	if t == nil {
		return 404, nil, ""
	}
	switch r.Kind + " " + r.Method {
	case "temp PATCH":
		if r.Body == "" {
			return 400, nil, ""
		}
		t.Content += r.Body
		return 200, nil, ""
	case "temp PUT":
		if int64(len(t.Content)) != t.Size {
			return 400, nil, ""
		}
		if _, ok := s.Objects[t.Name]; !ok {
			s.Objects[t.Name] = Object{t.Content, compress}
		}
		delete(s.Temps, r.Name)
		return 200, nil, ""
	case "temp DELETE":
		delete(s.Temps, r.Name)
		return 200, nil, ""
	case "temp HEAD":
		return 200, map[string]string{"Size": fmt.Sprint(len(t.Content))}, ""
	case "temp GET":
		size, err := strconv.ParseInt(r.Size, 10, 64)
		if err != nil || size < 1 {
			return 400, nil, ""
		}
		c := t.Content
		if int64(len(c)) > size {
			c = c[:size]
		}
		return 200, nil, c
	}
	return 404, nil, ""
}

// ---- listeners, shared by all executions of a process

var (
	once    sync.Once
	current struct {
		sync.RWMutex
		w *World
	}
	// Addrs of the servers
	Addrs []string
	// Dead is an address where nobody listens
	Dead string
)

// Listen starts the listeners
func Listen(n int) {
	once.Do(func() {
		for i := 0; i < n; i++ {
			i := i
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				panic(err)
			}
			h := http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
				current.RLock()
				w := current.w
				current.RUnlock()
				if w == nil || i >= len(w.Servers) {
					panic(http.ErrAbortHandler)
				}
				w.Serve(i, rw, r)
			})
			go func() { _ = http.Serve(l, util.H2CHandler(h, http.NotFoundHandler())) }()
			Addrs = append(Addrs, l.Addr().String())
		}
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		Dead = l.Addr().String()
		_ = l.Close()
	})
}

// Use makes a world the current one
func Use(w *World) {
	current.Lock()
	current.w = w
	current.Unlock()
}

// Index of an address, -1 if it is none of the servers
func Index(addr string) int {
	for i, a := range Addrs {
		if a == addr {
			return i
		}
	}
	return -1
}
