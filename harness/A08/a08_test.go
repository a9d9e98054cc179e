package apikit_test

import (
	"apiserver/config"
	"apiserver/internal/apikit"
	"apiserver/internal/usecase/componet/selector"
	"apiserver/internal/usecase/logic"
	"apiserver/internal/usecase/pool"
	"common/objmodel"
	"common/vkit"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

// ---- servers that only tell how loaded they are

type stat8 struct {
	mu    sync.Mutex
	kinds []string
	addrs []string
	hold  atomic.Int32 // the server that does not answer for now
	at    atomic.Int32 // the server that was asked last
}

var stats8 *stat8

func servers8() *stat8 {
	if stats8 != nil {
		return stats8
	}
	s := &stat8{}
	s.hold.Store(-1)
	s.at.Store(-1)
	for i := 0; i < 6; i++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		s.addrs = append(s.addrs, l.Addr().String())
		s.kinds = append(s.kinds, "0")
		i := i
		h := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			s.at.Store(int32(i))
			for int(s.hold.Load()) == i {
				time.Sleep(20 * time.Microsecond)
			}
			s.mu.Lock()
			k := s.kinds[i]
			s.mu.Unlock()
			w.Header().Set("Connection", "close")
			switch k {
			case "down":
				panic(http.ErrAbortHandler)
			case "500":
				w.WriteHeader(500)
			case "":
			default:
				w.Header().Set("Capacity", k)
				w.Header().Set("Weighted-IO", k)
			}
		})
		srv := &http.Server{Handler: h, ReadHeaderTimeout: time.Second}
		srv.SetKeepAlivesEnabled(false)
		go func() { _ = srv.Serve(l) }()
	}
	pool.Config = &config.Config{}
	pool.Config.Discovery.DataServName = "objectserver"
	stats8 = s
	return s
}

func (s *stat8) set(kinds []string) {
	s.mu.Lock()
	copy(s.kinds, kinds)
	s.mu.Unlock()
}

func register8(addrs []string) {
	(&apikit.Cluster{World: objmodel.NewWorld(0)}).Register(addrs...)
}

// minutes8 is how far virtual time has gone: statistics are kept across scenarios
var minutes8 int

// ordered puts the servers in a certain order before the first choice, and calls before at every choice
type ordered struct {
	selector.Selector
	perm   []int
	before func(step, n int)
	step   int
	seen   []string
}

func (o *ordered) Pop(ds []string) ([]string, string) {
	if o.step == 0 && len(o.perm) == len(ds) {
		sort.Strings(ds)
		cp := append([]string(nil), ds...)
		for i, p := range o.perm {
			ds[i] = cp[p]
		}
	}
	if o.before != nil {
		o.before(o.step, len(ds))
	}
	o.step++
	rest, ip := o.Selector.Pop(ds)
	o.seen = append(o.seen, ip)
	return rest, ip
}

func sorted8(s []string) []string {
	s = append([]string(nil), s...)
	sort.Strings(s)
	return s
}

// choose8 chooses servers and judges the choice
func choose8(sel selector.Selector, addrs []string, size int) (string, []string) {
	d := logic.NewDiscovery()
	got := d.SelectDataServer(sel, size)
	if len(addrs) == 0 {
		if len(got) > 0 {
			return fmt.Sprintf("%v chosen of no servers", got), got
		}
		return "", got
	}
	if len(got) != size {
		return fmt.Sprintf("%d servers are chosen instead of %d: %v", len(got), size, got), got
	}
	known := map[string]bool{}
	for _, a := range addrs {
		known[a] = true
	}
	used := map[string]int{}
	for i, a := range got {
		if !known[a] {
			return fmt.Sprintf("choice %d of %v is not one of %v", i, got, addrs), got
		}
		if used[a]++; used[a] > 1+i/len(addrs) {
			return fmt.Sprintf("choice %d of %v is repeated before all of %v are used", i, got, addrs), got
		}
	}
	if now := d.GetDataServers(); fmt.Sprint(sorted8(now)) != fmt.Sprint(sorted8(addrs)) {
		return fmt.Sprintf("after choosing, the servers are %v instead of %v", now, addrs), got
	}
	return "", got
}

func perms8(n int) [][]int {
	if n == 0 {
		return [][]int{nil}
	}
	var res [][]int
	for _, p := range perms8(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append([]int(nil), p[:i]...)
			q = append(append(q, n-1), p[i:]...)
			res = append(res, q)
		}
	}
	return res
}

func TestVerifA08(t *testing.T) {
	vkit.Run(t, "A08", func(c *vkit.Ctx) {
		c.Rule("choosing n servers returns n known ones, none of them again before all were used equally often, and none when there are none; the view of the cluster stays as it is")
		servers8()
		random8(t, c)
		loads8(t, c)
		both8(t, c)
	})
}

func names8() []string { return []string{"random", "space-first", "io-first"} }

// random8: all outcomes of the random choices
func random8(t *testing.T, c *vkit.Ctx) {
	s := servers8()
	max := 4
	if !c.Quick {
		max = 5
	}
	k := 0
	for n := 0; n <= max; n++ {
		addrs := s.addrs[:n]
		for size := 0; size <= 2*n+1; size++ {
			if n == 4 && c.Quick && size > 6 || n == 5 && size > 7 {
				continue
			}
			// choices of the outcomes
			var runs [][]int
			runs = append(runs, nil)
			for i := 0; i < size && n > 0; i++ {
				var next [][]int
				left := n - i%n
				for _, r := range runs {
					for j := 0; j < left; j++ {
						next = append(next, append(r[:len(r):len(r)], j))
					}
				}
				runs = next
			}
			seen := map[string]bool{}
			all := true
			for lo := 0; lo < len(runs); lo += 200 {
				if k++; !c.Mine(k) || c.Expired() {
					all = false
					continue
				}
				hi := lo + 200
				if hi > len(runs) {
					hi = len(runs)
				}
				var fails []string
				batch := func() {
					register8(addrs)
					fails = nil
					vkit.Bubble(t, func(t *testing.T) {
						for _, r := range runs[lo:hi] {
							r := r
							what := fmt.Sprintf("random, %d of %d, outcomes %v", size, n, r)
							c.Cur("%s", what)
							c.Eval(what)
							perm := make([]int, n)
							for i := range perm {
								perm[i] = i
							}
							o := &ordered{Selector: selector.NewSelector("random"), perm: perm}
							o.before = func(step, left int) {
								if step < len(r) {
									sleepToOutcome(left, r[step])
								}
							}
							m, got := choose8(o, addrs, size)
							c.Transition()
							if m != "" {
								fails = append(fails, what+": "+m)
							}
							c.State(fmt.Sprint(n, got))
							seen[fmt.Sprint(got)] = true
						}
					})
				}
				batch()
				if len(fails) > 0 {
					f := fails[0]
					c.Fail("random choice", func() bool { batch(); return len(fails) > 0 }, "%s", f)
					return
				}
			}
			if n > 0 && all && len(seen) != len(runs) {
				c.NotExhaustive("not all outcomes of random choices could be provoked")
			}
		}
	}
}

// sleepToOutcome sleeps in virtual time until a second at which a choice among n seeded with it is want
func sleepToOutcome(n, want int) {
	for i := 0; i < 500; i++ {
		now := time.Now().Unix()
		if rand.New(rand.NewSource(now)).Intn(n) == want {
			return
		}
		time.Sleep(time.Second)
	}
}

// loads8: all loads of servers
func loads8(t *testing.T, c *vkit.Ctx) {
	s := servers8()
	k := 0
	for n := 0; n <= 4; n++ {
		kinds := []string{"0", "5", "9", "down", "500", "", "x", "9223372036854775807"}
		if n > 2 {
			kinds = kinds[:5]
		}
		if n > 3 {
			kinds = kinds[:4]
		}
		total := 1
		for i := 0; i < n; i++ {
			total *= len(kinds)
		}
		perms := perms8(n)
		for m := 0; m < total; m++ {
			var ks []string
			for i, x := 0, m; i < n; i++ {
				ks = append(ks, kinds[x%len(kinds)])
				x /= len(kinds)
			}
			for _, name := range names8()[1:] {
				for pi, perm := range perms {
					if n == 4 && (pi+m)%6 != 0 && c.Quick {
						continue
					}
					if k++; !c.Mine(k) || c.Expired() || c.Violated() {
						continue
					}
					name, perm := name, perm
					what := fmt.Sprintf("%s, servers with %q in order %v", name, ks, perm)
					c.Cur("%s", what)
					c.Eval(what)
					c.Transition()
					run := func() string { return load8(t, s, name, ks, perm) }
					if m := run(); m != "" {
						c.Fail("choice by load", func() bool { return run() != "" }, "%s: %s", what, m)
					}
					c.State(fmt.Sprint(name, ks))
				}
			}
		}
	}
}

func load8(t *testing.T, s *stat8, name string, ks []string, perm []int) (msg string) {
	n := len(ks)
	s.set(ks)
	minutes8 += 20
	start := minutes8
	register8(s.addrs[:n])
	register8(s.addrs[1 : n+1])
	// made before the virtual time begins
	use := func(shift int) []string {
		register8(s.addrs[shift : n+shift])
		return s.addrs[shift : n+shift]
	}
	vkit.Bubble(t, func(t *testing.T) {
		time.Sleep(time.Duration(start) * time.Minute)
		step := func(what string, shift, size int) {
			if msg != "" {
				return
			}
			addrs := use(shift)
			m, _ := choose8(&ordered{Selector: selector.NewSelector(name), perm: perm}, addrs, size)
			if m != "" {
				msg = what + ": " + m
				return
			}
			if n == 0 {
				return
			}
			view := append([]string(nil), addrs...)
			one := selector.NewSelector(name).Select(view)
			if fmt.Sprint(view) != fmt.Sprint(addrs) {
				msg = fmt.Sprintf("%s: selecting one of %v leaves %v", what, addrs, view)
			}
			if !strings.Contains(fmt.Sprint(addrs), one) {
				msg = fmt.Sprintf("%s: %q selected of %v", what, one, addrs)
			}
		}
		step("first", 0, 2*n+1)
		for size := 0; size <= n; size++ {
			step(fmt.Sprint("then ", size), 0, size)
		}
		step("other servers", 1, n)
		time.Sleep(90 * time.Second)
		step("other servers, later", 1, n+1)
		step("back", 0, n)
	})
	return
}

// both8: two choices at a time, one of them held while it asks a server
func both8(t *testing.T, c *vkit.Ctx) {
	s := servers8()
	k := 0
	for n := 1; n <= 4; n++ {
		for _, name := range names8() {
			for _, second := range names8() {
				for hold := 0; hold < n; hold++ {
					for down := -1; down < n; down++ {
						for again := 0; again < 2; again++ {
							if k++; !c.Mine(k) || c.Expired() || c.Violated() {
								continue
							}
							name, second, hold, down, again, n := name, second, hold, down, again, n
							what := fmt.Sprintf("%s choosing of %d, asking %d while %s chooses (%d is down, %d)", name, n, hold, second, down, again)
							c.Cur("%s", what)
							c.Eval(what)
							c.Transition()
							run := func() string {
								c.Races()
								m := pair8(t, s, n, name, second, hold, down, again)
								if m == "" {
									if r := c.Races(); r != "" {
										m = "unsynchronised accesses: " + r
									}
								}
								return m
							}
							if m := run(); m != "" {
								// the detector reports a pair of accesses once
								c.Fail("concurrent choices", nil, "%s: %s", what, m)
							}
							c.State(what)
						}
					}
				}
			}
		}
	}
}

func pair8(t *testing.T, s *stat8, n int, name, second string, hold, down, again int) (msg string) {
	ks := make([]string, n)
	for i := range ks {
		ks[i] = fmt.Sprint(i * 3 % 4)
		if i == down {
			ks[i] = "down"
		}
	}
	s.set(ks)
	minutes8 += 20
	start := minutes8
	addrs := s.addrs[:n]
	register8(addrs)
	// real time: the transport may wait before it repeats a request, virtual time stands still while the loop below runs
	var late atomic.Bool
	defer time.AfterFunc(2*time.Second, func() { late.Store(true) }).Stop()
	vkit.Bubble(t, func(t *testing.T) {
		time.Sleep(time.Duration(start) * time.Minute)
		if again == 1 {
			// something is known already
			if m, _ := choose8(selector.NewSelector(name), addrs, n); m != "" {
				msg = m
			}
			time.Sleep(2 * time.Minute)
		}
		s.at.Store(-1)
		s.hold.Store(int32(hold))
		var done atomic.Bool
		var m1 string
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			m1, _ = choose8(selector.NewSelector(name), addrs, n+1)
			done.Store(true)
		}()
		for int(s.at.Load()) != hold && !done.Load() && !late.Load() {
			runtime.Gosched()
		}
		var m2 string
		if second == name {
			// does not wait for the first one, works with what is known
			m2, _ = choose8(selector.NewSelector(second), addrs, n+1)
			s.hold.Store(-1)
		} else {
			go func() { s.hold.Store(-1) }()
			m2, _ = choose8(selector.NewSelector(second), addrs, n+1)
		}
		wg.Wait()
		if m1 != "" || m2 != "" {
			msg = m1 + " " + m2
		}
	})
	return
}
