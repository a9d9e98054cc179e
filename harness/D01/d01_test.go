package logic

import (
	"adminserver/config"
	"adminserver/internal/usecase/pool"
	"bytes"
	"common/logs"
	"common/proto/msg"
	"common/registry"
	"common/vkit"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	pb "go.etcd.io/etcd/api/v3/etcdserverpb"
	"go.etcd.io/etcd/api/v3/mvccpb"
	clientv3 "go.etcd.io/etcd/client/v3"
)

// directory is the coordination store: groups masters and their slaves
type directory struct {
	clientv3.KV
	clientv3.Watcher
	n int
}

func (d *directory) Get(_ context.Context, key string, _ ...clientv3.OpOption) (*clientv3.GetResponse, error) {
	res := &clientv3.GetResponse{Header: &pb.ResponseHeader{Revision: 1}}
	for i := 0; i < d.n; i++ {
		for _, role := range []string{"master", "slave"} {
			host := fmt.Sprintf("%s%d:80", role, i)
			res.Kvs = append(res.Kvs, &mvccpb.KeyValue{Key: []byte(fmt.Sprintf("%s/id%d%s_%s", strings.TrimSuffix(key, "/"), i, role, role)), Value: []byte(host)})
		}
	}
	return res, nil
}

func (d *directory) Watch(context.Context, string, ...clientv3.OpOption) clientv3.WatchChan {
	return make(chan clientv3.WatchResponse)
}

// group is a simulated metadata server
type group struct {
	objects []*msg.Metadata
	buckets []*msg.Bucket
	fail    string
}

func key(m *msg.Metadata) string { return m.Bucket + "/" + m.Name }

// groups answers requests in a given order. Each listing has its own: requests may outlive a listing that failed.
type groups struct {
	mu    sync.Mutex
	cond  *sync.Cond
	g     []*group
	turn  int
	order []int // position of each group
}

type transport struct {
	cur atomic.Pointer[groups]
}

func (t *transport) RoundTrip(r *http.Request) (*http.Response, error) { return t.cur.Load().RoundTrip(r) }

func (t *transport) use(g []*group, order []int) {
	w := &groups{g: g, order: order}
	w.cond = sync.NewCond(&w.mu)
	t.cur.Store(w)
}

type brokenBody struct {
	io.Reader
}

func (b brokenBody) Read(p []byte) (int, error) {
	n, err := b.Reader.Read(p)
	if err == io.EOF {
		err = errors.New("connection lost")
	}
	return n, err
}

func (s *groups) RoundTrip(r *http.Request) (*http.Response, error) {
	var i int
	host := r.URL.Host
	slave := strings.HasPrefix(host, "slave")
	_, err := fmt.Sscanf(strings.TrimPrefix(strings.TrimPrefix(host, "master"), "slave"), "%d:80", &i)
	if err != nil || i >= len(s.g) {
		return nil, errors.New("no such host")
	}
	if s.order != nil && !slave {
		s.mu.Lock()
		for s.turn < s.order[i] {
			s.cond.Wait()
		}
		s.mu.Unlock()
		defer func() {
			s.mu.Lock()
			if s.turn <= s.order[i] {
				s.turn = s.order[i] + 1
			}
			s.cond.Broadcast()
			s.mu.Unlock()
		}()
	}
	g := s.g[i]
	q := r.URL.Query()
	size, err := strconv.Atoi(q.Get("page_size"))
	resp := &http.Response{StatusCode: 200, Header: http.Header{}, Request: r, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
	fail := func(code int, m string) (*http.Response, error) {
		resp.StatusCode = code
		resp.Body = io.NopCloser(strings.NewReader(fmt.Sprintf(`{"message":%q}`, m)))
		return resp, nil
	}
	if err != nil || size == 0 || size > 10000 {
		return fail(400, "page_size")
	}
	var body any
	total := 0
	switch r.URL.Path {
	case "/metadata/list":
		l := []*msg.Metadata{}
		for _, m := range g.objects {
			if strings.HasPrefix(key(m), q.Get("prefix")) {
				l = append(l, m)
			}
		}
		total = len(l)
		sort.Slice(l, func(a, b int) bool { return key(l[a]) < key(l[b]) })
		if len(l) > size {
			l = l[:size]
		}
		sort.SliceStable(l, func(a, b int) bool { return l[a].CreateTime < l[b].CreateTime })
		body = l
	case "/bucket/list":
		l := []*msg.Bucket{}
		for _, m := range g.buckets {
			if strings.HasPrefix(m.Name, q.Get("prefix")) {
				l = append(l, m)
			}
		}
		total = len(l)
		sort.Slice(l, func(a, b int) bool { return l[a].Name < l[b].Name })
		if len(l) > size {
			l = l[:size]
		}
		body = l
	default:
		return fail(404, r.URL.Path)
	}
	bt, _ := json.Marshal(body)
	resp.Header.Set("X-Total-Count", strconv.Itoa(total))
	resp.Header.Set("Content-Type", "application/json; charset=utf-8")
	switch g.fail {
	case "":
		resp.Body = io.NopCloser(bytes.NewReader(bt))
	case "refused":
		return nil, errors.New("connection refused")
	case "status 500":
		return fail(500, "broken")
	case "status 404":
		return fail(404, "not found")
	case "lost at once":
		resp.Body = io.NopCloser(brokenBody{strings.NewReader("")})
	case "lost in the middle":
		resp.Body = io.NopCloser(brokenBody{bytes.NewReader(bt[:len(bt)/2])})
	case "not a list":
		resp.Body = io.NopCloser(strings.NewReader(`{"a":1}`))
	}
	return resp, nil
}

var discoveries = map[int]*registry.EtcdDiscovery{}

func discover(n int) {
	d := discoveries[n]
	if d == nil {
		e := &directory{n: n}
		d = registry.NewEtcdDiscovery(&clientv3.Client{KV: e, Watcher: e}, &registry.Config{Group: "g", Name: "admin", ServerIP: "127.0.0.1", ServerPort: "1", ServerID: "me", Services: []string{"metaserver"}})
		for i := 0; len(d.GetServices("metaserver")) != 2*n; i++ {
			if i > 100000 {
				panic("servers are not discovered")
			}
			time.Sleep(100 * time.Microsecond)
		}
		discoveries[n] = d
	}
	pool.Discovery = d
}

func perms(n int) (r [][]int) {
	var rec func(p []int)
	rec = func(p []int) {
		if len(p) == n {
			r = append(r, append([]int{}, p...))
			return
		}
		for i := 0; i < n; i++ {
			used := false
			for _, x := range p {
				used = used || x == i
			}
			if !used {
				rec(append(p, i))
			}
		}
	}
	rec(nil)
	return
}

func TestVerifD01(t *testing.T) {
	logs.Std().SetOutput(io.Discard)
	vkit.Run(t, "D01", func(c *vkit.Ctx) {
		c.Rule("one evaluation = one page of one merged listing of a distribution of entries over groups")
		pool.Config = &config.Config{Discovery: config.DiscoveryConfig{Group: "g", MetaServName: "metaserver"}}
		tr := &transport{}
		var world struct {
			g     []*group
			order []int
		}
		pool.Http = &http.Client{Transport: tr}
		universe := [][2]string{{"b", "a"}, {"b", "a/x"}, {"b-x", "a"}, {"%d", "a%s"}, {"b.c", "z"}, {"a", "b"}}[:c.N(5, 6)]
		type filter struct{ bucket, name string }
		filters := []filter{{"", ""}, {"b", ""}, {"", "b"}, {"b", "a"}, {"zz", ""}}
		// one listing: compared to the union; failing: an error is due
		list := func(n int, kind string, f filter, page, size int) (got []string, total int, err error) {
			discover(n)
			tr.use(world.g, world.order)
			if kind == "objects" {
				l, t, e := NewMetadata().MetadataPaging(&MetadataCond{Name: f.name, Bucket: f.bucket, Page: page, PageSize: size})
				for _, m := range l {
					got = append(got, key(m))
				}
				return got, t, e
			}
			l, t, e := NewMetadata().BucketPaging(&BucketCond{Name: f.name, Page: page, PageSize: size})
			for _, m := range l {
				got = append(got, m.Name)
			}
			return got, t, e
		}
		want := func(kind string, f filter) (r []string) {
			for _, g := range world.g {
				if kind == "objects" {
					p := f.name
					if f.bucket != "" {
						p = f.bucket + "/" + f.name
					}
					for _, m := range g.objects {
						if strings.HasPrefix(key(m), p) {
							r = append(r, key(m))
						}
					}
				} else {
					for _, m := range g.buckets {
						if strings.HasPrefix(m.Name, f.name) {
							r = append(r, m.Name)
						}
					}
				}
			}
			sort.Strings(r)
			return
		}
		check := func(n int, kind string, f filter, page, size int, failing bool) string {
			got, total, err := list(n, kind, f, page, size)
			if failing {
				if err == nil {
					return fmt.Sprintf("a group fails, but the answer is %v, %d in total, without an error", got, total)
				}
				return ""
			}
			if err != nil {
				return "error: " + err.Error()
			}
			w := want(kind, f)
			if total != len(w) {
				return fmt.Sprintf("total %d, want %d", total, len(w))
			}
			lo, hi := (page-1)*size, page*size
			if lo > len(w) {
				lo = len(w)
			}
			if hi > len(w) {
				hi = len(w)
			}
			if fmt.Sprint(got) != fmt.Sprint(w[lo:hi]) {
				return fmt.Sprintf("page %v, want %v of %v", got, w[lo:hi], w)
			}
			return ""
		}
		set := func(n int, places []int) {
			world.g = nil
			for i := 0; i < n; i++ {
				world.g = append(world.g, &group{})
			}
			for i, p := range places {
				if p < n {
					u := universe[i]
					world.g[p].objects = append(world.g[p].objects, &msg.Metadata{Bucket: u[0], Name: u[1], CreateTime: int64(100 - i)})
					world.g[p].buckets = append(world.g[p].buckets, &msg.Bucket{Name: fmt.Sprint(u[0], "-", u[1])})
				}
			}
		}
		one := func(name string, n int, kind string, f filter, page, size int, failing bool) {
			nm := fmt.Sprintf("%s: %s %v, page %d of %d", name, kind, f, page, size)
			c.Cur("%s", nm)
			c.Eval(nm)
			c.Transition()
			if m := check(n, kind, f, page, size, failing); m != "" {
				c.Fail(kind+": "+m, func() bool { return check(n, kind, f, page, size, failing) != "" }, "%s\n%s", nm, m)
			}
		}
		i := 0
		kinds := []string{"objects", "buckets"}
		for n := 1; n <= 3; n++ {
			places := make([]int, len(universe))
			var rec func(k int)
			rec = func(k int) {
				if k < len(places) {
					for p := 0; p <= n; p++ {
						places[k] = p
						rec(k + 1)
					}
					return
				}
				i++
				if !c.Mine(i) || c.Expired() || c.Violated() {
					return
				}
				set(n, places)
				c.State(fmt.Sprint(n, places))
				world.order = nil
				for _, kind := range kinds {
					for _, f := range filters {
						if kind == "buckets" && f.bucket != "" {
							continue
						}
						for _, size := range []int{1, 2, 3, 5, 10000} {
							last := len(want(kind, f))/size + 2
							if size == 10000 {
								last = 1
							}
							for page := 1; page <= last; page++ {
								one(fmt.Sprintf("groups %d, entries in %v", n, places), n, kind, f, page, size, false)
							}
						}
					}
				}
			}
			rec(0)
		}
		// every order of answers, every failing group
		for n := 1; n <= 3; n++ {
			for _, order := range perms(n) {
				for _, places := range [][]int{{0, 1, 2, 0, 1, 2}, {0, 0, 1, 1, 2, 2}, {2, 2, 2, 2, 2, 2}, {1, 0, 0, 0, 0, 0}} {
					for bad := 0; bad <= n; bad++ {
						for _, how := range []string{"refused", "status 500", "status 404", "lost at once", "lost in the middle", "not a list"} {
							i++
							if !c.Mine(i) || c.Expired() || c.Violated() {
								continue
							}
							set(n, places[:len(universe)])
							world.order = order
							if bad < n {
								world.g[bad].fail = how
							}
							for _, kind := range kinds {
								for _, size := range []int{1, 3} {
									for page := 1; page <= 3; page++ {
										one(fmt.Sprintf("groups %d, entries in %v, answers in order %v, group %d: %s", n, places, order, bad, how), n, kind, filter{}, page, size, bad < n)
									}
								}
							}
							// totals of the console
							if bad == n {
								tr.use(world.g, world.order)
								a, e1 := NewMetadata().TotalObjects()
								tr.use(world.g, world.order)
								b, e2 := NewMetadata().TotalBuckets()
								if w1, w2 := len(want("objects", filter{})), len(want("buckets", filter{})); e1 != nil || e2 != nil || a != w1 || b != w2 {
									c.Fail("totals", nil, "TotalObjects %d %v, TotalBuckets %d %v, want %d and %d", a, e1, b, e2, w1, w2)
								}
							}
						}
					}
				}
			}
		}
		// a page beyond what a group lists at most is an error, not a shorter list
		world.order = nil
		set(2, []int{0, 1, 0, 1, 0, 1}[:len(universe)])
		for _, kind := range kinds {
			if _, _, err := list(2, kind, filter{}, 1001, 10); err == nil {
				c.Fail("beyond", nil, "%s beyond the 10000th: no error", kind)
			}
		}
		if len(c.Races()) > 0 {
			c.Fail("data race", nil, "%v", c.Races())
		}
	})
}
