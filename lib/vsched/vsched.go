// Package vsched is the controlled scheduler behind the concurrency checks.
//
// The instrumenter (/verif/tools/instr) rewrites the packages under test so that
// every synchronisation operation calls into this package.  An execution runs in a
// testing/synctest bubble: time is virtual, and the controller can wait until every
// goroutine of the program is parked, either here or in a real blocking operation.
// It then releases exactly one goroutine, which runs to its next scheduling point.
// The sequence of choices made is the schedule; Explore enumerates all schedules
// with at most MaxDev departures from the default one.
package vsched

import (
	"bytes"
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
)

type thread struct {
	id     int
	goid   uint64
	name   string
	ch     chan int
	parked bool
	site   string
	sel    int
	lockW  bool
	masked int
	main   bool
	done   bool
}

// Decision is one scheduling decision of an execution.
type Decision struct {
	N          int  // number of options
	Chosen     int  // option taken
	CurEnabled bool // option 0 continues the thread that ran last
	Cur0       int  // options [0,Cur0) belong to the current thread
	Label      string
}

// Exec is one execution.
type Exec struct {
	mu        sync.Mutex
	byGo      map[uint64]*thread
	threads   []*thread
	arrive    chan struct{}
	active    atomic.Bool
	prefix    []byte
	decisions []Decision
	trace     []string
	cur       *thread
	controlID uint64
	o         Opts

	Deadlock  string   // non-empty: threads of the scenario that can never finish
	Panics    []string // panics raised by goroutines of the code under test
	Leak      bool     // goroutines were left blocked for ever
	Steps     int
	Overrun   bool // hit MaxSteps
	Diverged  bool // replaying the prefix did not meet the recorded options
	after     []func()
	cleanups  []func()
	log       []string
	onlyFinal bool
}

type Opts struct {
	MaxDev     int
	MaxSteps   int
	FreeSwitch bool          // choosing among threads when the current one is blocked costs nothing
	Time       bool          // letting time pass while threads are runnable is an option
	Drain      time.Duration // virtual time given to background work after the scenario ended
	MaxExecs   int
	Stop       func() bool
}

type Result struct {
	Execs     int
	Decisions int64
	DoneDev   int // every schedule with at most this many deviations was executed
	Complete  bool
	Diverged  int
	Overrun   int
	Nodes     int64 // distinct nodes of the schedule tree visited
	Steps     int64 // steps (scheduling points passed) executed
}

var cur atomic.Pointer[Exec]

func goid() uint64 {
	var buf [64]byte
	n := runtime.Stack(buf[:], false)
	b := buf[10:n]
	i := bytes.IndexByte(b, ' ')
	v, _ := strconv.ParseUint(string(b[:i]), 10, 64)
	return v
}

func (e *Exec) me(id uint64) *thread {
	t := e.byGo[id]
	if t == nil {
		t = &thread{id: len(e.threads), goid: id, ch: make(chan int, 1)}
		t.name = "g" + strconv.Itoa(t.id)
		e.byGo[id] = t
		e.threads = append(e.threads, t)
	}
	return t
}

// park stops the calling goroutine until the controller releases it.
func (e *Exec) park(site string, sel int, lock bool) int {
	id := goid()
	if id == e.controlID {
		return sel
	}
	e.mu.Lock()
	if !e.active.Load() {
		e.mu.Unlock()
		return sel
	}
	t := e.me(id)
	if t.masked > 0 {
		e.mu.Unlock()
		return sel
	}
	t.parked, t.site, t.sel, t.lockW = true, site, sel, lock
	e.mu.Unlock()
	select {
	case e.arrive <- struct{}{}:
	default:
	}
	return <-t.ch
}

// Y is a scheduling point.
func Y(site string) {
	if e := cur.Load(); e != nil && e.active.Load() {
		e.park(site, 0, false)
	}
}

// Sel chooses which of n select cases is tried first; n means no preference.
func Sel(site string, n int) int {
	if e := cur.Load(); e != nil && e.active.Load() {
		return e.park(site, n, false)
	}
	return n
}

// LockF acquires a lock whose TryLock method is given.
func LockF(site string, try func() bool, lock func()) {
	e := cur.Load()
	if e == nil || !e.active.Load() {
		lock()
		return
	}
	e.mu.Lock()
	t := e.byGo[goid()]
	masked := t != nil && t.masked > 0
	e.mu.Unlock()
	if masked {
		lock()
		return
	}
	e.park(site, 0, false)
	for !try() {
		if !e.active.Load() {
			lock()
			return
		}
		e.park(site+"(blocked)", 0, true)
	}
}

type tryLocker interface{ TryLock() bool }

// LockI acquires a sync.Locker.
func LockI(site string, l sync.Locker) {
	if tl, ok := l.(tryLocker); ok {
		LockF(site, tl.TryLock, l.Lock)
		return
	}
	Y(site)
	l.Lock()
}

// UnlockF releases a lock.
func UnlockF(site string, unlock func()) {
	unlock()
	e := cur.Load()
	if e == nil || !e.active.Load() {
		return
	}
	e.mu.Lock()
	for _, t := range e.threads {
		t.lockW = false
	}
	e.mu.Unlock()
	e.park(site, 0, false)
}

// Mask / Unmask bracket code that runs inside a lock the scheduler does not see.
func Mask() {
	if e := cur.Load(); e != nil {
		id := goid()
		e.mu.Lock()
		e.me(id).masked++
		e.mu.Unlock()
	}
}

func Unmask() {
	if e := cur.Load(); e != nil {
		id := goid()
		e.mu.Lock()
		e.me(id).masked--
		e.mu.Unlock()
	}
}

// Catch records a panic of a goroutine of the code under test.
func Catch() {
	e := cur.Load()
	if e == nil {
		return
	}
	if r := recover(); r != nil {
		e.mu.Lock()
		e.Panics = append(e.Panics, fmt.Sprintf("%v\n%s", r, debug.Stack()))
		e.mu.Unlock()
	}
}

// Go starts a thread of the scenario; the execution is over when all have returned.
func (e *Exec) Go(name string, fn func()) {
	e.mu.Lock()
	t := &thread{id: len(e.threads), name: name, ch: make(chan int, 1), main: true}
	e.threads = append(e.threads, t)
	e.mu.Unlock()
	ready := make(chan struct{})
	go func() {
		defer func() {
			if r := recover(); r != nil {
				e.mu.Lock()
				e.Panics = append(e.Panics, fmt.Sprintf("%s: %v\n%s", name, r, debug.Stack()))
				e.mu.Unlock()
			}
			e.mu.Lock()
			t.done = true
			e.mu.Unlock()
			select {
			case e.arrive <- struct{}{}:
			default:
			}
		}()
		e.mu.Lock()
		t.goid = goid()
		e.byGo[t.goid] = t
		e.mu.Unlock()
		close(ready)
		e.mu.Lock()
		t.parked, t.site = true, "start"
		e.mu.Unlock()
		<-t.ch
		fn()
	}()
	<-ready
}

// Log adds an event to the execution's history.
func (e *Exec) Log(format string, a ...any) {
	e.mu.Lock()
	e.log = append(e.log, fmt.Sprintf(format, a...))
	e.mu.Unlock()
}

func (e *Exec) History() []string {
	e.mu.Lock()
	defer e.mu.Unlock()
	return append([]string{}, e.log...)
}

// After registers a function run (uncontrolled) once the execution is quiescent.
func (e *Exec) After(fn func()) { e.after = append(e.after, fn) }

// Cleanup registers a function run last, in reverse order.
func (e *Exec) Cleanup(fn func()) { e.cleanups = append(e.cleanups, fn) }

// Schedule renders the choices of this execution.
func (e *Exec) Schedule() string { return strings.Join(e.trace, " ") }

// Choices is the replayable form of the schedule.
func (e *Exec) Choices() []byte {
	b := make([]byte, len(e.decisions))
	for i, d := range e.decisions {
		b[i] = byte(d.Chosen)
	}
	for len(b) > 0 && b[len(b)-1] == 0 {
		b = b[:len(b)-1]
	}
	return b
}

type option struct {
	t   *thread
	sel int
	adv bool
}

func (e *Exec) loop() {
	for {
		synctest.Wait()
		e.mu.Lock()
		var ready, lockers []*thread
		live := 0
		for _, t := range e.threads {
			if t.main && !t.done {
				live++
			}
			if t.parked {
				if t.lockW {
					lockers = append(lockers, t)
				} else {
					ready = append(ready, t)
				}
			}
		}
		// drop stale signals
		for len(e.arrive) > 0 {
			<-e.arrive
		}
		e.mu.Unlock()
		if len(ready) == 0 {
			wait := e.o.Drain
			if live > 0 {
				wait = 48 * time.Hour
			}
			if wait <= 0 {
				return
			}
			tm := time.NewTimer(wait)
			select {
			case <-e.arrive:
				tm.Stop()
				continue
			case <-tm.C:
			}
			synctest.Wait()
			e.mu.Lock()
			any := false
			for _, t := range e.threads {
				if t.parked && !t.lockW {
					any = true
				}
			}
			if !any && live > 0 {
				// try lock waiters once more: the lock may have been released by code the scheduler does not see
				if len(lockers) > 0 && e.onlyFinal == false {
					e.onlyFinal = true
					for _, t := range lockers {
						t.lockW = false
					}
					any = true
				} else {
					var w []string
					for _, t := range e.threads {
						if t.main && !t.done {
							w = append(w, t.name+"@"+t.site)
						}
					}
					e.Deadlock = strings.Join(w, ",")
				}
			}
			e.mu.Unlock()
			if any {
				continue
			}
			return
		}
		if e.Steps >= e.o.MaxSteps {
			e.Overrun = true
			return
		}
		e.Steps++
		sort.Slice(ready, func(i, j int) bool { return ready[i].id < ready[j].id })
		var opts []option
		add := func(t *thread) {
			if t.sel > 0 {
				for k := 0; k < t.sel; k++ {
					opts = append(opts, option{t, k, false})
				}
				return
			}
			opts = append(opts, option{t, 0, false})
		}
		curEnabled := false
		cur0 := 0
		for _, t := range ready {
			if t == e.cur {
				curEnabled = true
				add(t)
				cur0 = len(opts)
			}
		}
		for _, t := range ready {
			if t != e.cur {
				add(t)
			}
		}
		if e.o.Time {
			opts = append(opts, option{nil, 0, true})
		}
		pick := 0
		if len(opts) > 1 {
			i := len(e.decisions)
			if i < len(e.prefix) {
				pick = int(e.prefix[i])
			}
			if pick >= len(opts) {
				e.Diverged = true
				pick = 0
			}
			e.decisions = append(e.decisions, Decision{N: len(opts), Chosen: pick, CurEnabled: curEnabled, Cur0: cur0})
		}
		op := opts[pick]
		if op.adv {
			e.trace = append(e.trace, "time")
			tm := time.NewTimer(e.horizon())
			select {
			case <-e.arrive:
				tm.Stop()
			case <-tm.C:
			}
			continue
		}
		if pick != 0 || e.cur != op.t {
			lab := op.t.name + "@" + op.t.site
			if op.t.sel > 0 {
				lab += "/" + strconv.Itoa(op.sel)
			}
			if pick != 0 {
				lab = "*" + lab
			}
			e.trace = append(e.trace, lab)
		}
		e.mu.Lock()
		op.t.parked = false
		e.cur = op.t
		e.onlyFinal = false
		e.mu.Unlock()
		op.t.ch <- op.sel
	}
}

func (e *Exec) horizon() time.Duration { return 24 * time.Hour }

// Add accumulates the counters of another exploration.
func (r *Result) Add(b Result) {
	r.Execs += b.Execs
	r.Decisions += b.Decisions
	r.Diverged += b.Diverged
	r.Overrun += b.Overrun
	r.Nodes += b.Nodes
	r.Steps += b.Steps
}

// RunOne executes the scenario under the given choice prefix.
func RunOne(t *testing.T, o Opts, prefix []byte, scenario func(*Exec)) (e *Exec) {
	if o.MaxSteps == 0 {
		o.MaxSteps = 4000
	}
	e = &Exec{byGo: map[uint64]*thread{}, prefix: prefix, o: o}
	defer func() {
		cur.Store(nil)
		if r := recover(); r != nil {
			if s := fmt.Sprint(r); strings.Contains(s, "blocked goroutines remain") {
				e.Leak = true
				return
			}
			panic(r)
		}
	}()
	synctest.Test(t, func(t *testing.T) {
		e.arrive = make(chan struct{}, 1)
		e.controlID = goid()
		cur.Store(e)
		scenario(e)
		synctest.Wait()
		e.active.Store(true)
		e.loop()
		e.active.Store(false)
		e.mu.Lock()
		for _, th := range e.threads {
			if th.parked {
				th.parked = false
				th.ch <- th.sel
			}
		}
		e.mu.Unlock()
		synctest.Wait()
		for _, f := range e.after {
			f()
		}
		for i := len(e.cleanups) - 1; i >= 0; i-- {
			e.cleanups[i]()
		}
		synctest.Wait()
	})
	return e
}

// Explore runs every schedule with at most o.MaxDev deviations, fewest first.
func Explore(t *testing.T, o Opts, scenario func(*Exec), check func(*Exec)) Result {
	res := Result{DoneDev: -1}
	buckets := make([][][]byte, o.MaxDev+1)
	buckets[0] = [][]byte{{}}
	for d := 0; d <= o.MaxDev; d++ {
		for len(buckets[d]) > 0 {
			n := len(buckets[d]) - 1
			p := buckets[d][n]
			buckets[d] = buckets[d][:n]
			if (o.MaxExecs > 0 && res.Execs >= o.MaxExecs) || (o.Stop != nil && o.Stop()) {
				return res
			}
			x := RunOne(t, o, p, scenario)
			if len(x.decisions) < len(p) {
				x.Diverged = true
			}
			res.Execs++
			res.Decisions += int64(len(x.decisions))
			res.Nodes += int64(len(x.decisions)-len(p)) + 1
			res.Steps += int64(x.Steps)
			if x.Diverged {
				res.Diverged++
				continue
			}
			if x.Overrun {
				res.Overrun++
			}
			check(x)
			for i := len(p); i < len(x.decisions); i++ {
				dc := x.decisions[i]
				for alt := 1; alt < dc.N; alt++ {
					cost := 1
					if o.FreeSwitch && !dc.CurEnabled {
						cost = 0
					}
					if d+cost > o.MaxDev {
						continue
					}
					np := make([]byte, i+1)
					for j := 0; j < i; j++ {
						np[j] = byte(x.decisions[j].Chosen)
					}
					np[i] = byte(alt)
					buckets[d+cost] = append(buckets[d+cost], np)
				}
			}
		}
		res.DoneDev = d
	}
	res.Complete = true
	return res
}
