// Package vkit is the harness kit shared by every check in /verif: it keeps the
// counters the evidence file reports, re-checks and records violations, matches
// them against the committed list of known findings and enforces the internal
// deadline.
package vkit

import (
	"bufio"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"
)

type Violation struct {
	Key    string `json:"key"`
	Detail string `json:"detail"`
	Replay string `json:"replay"`
}

type Ctx struct {
	T     *testing.T
	ID    string
	Tier  string
	Seed  int64
	Quick bool

	mu          sync.Mutex
	start       time.Time
	deadline    time.Time
	evals       int64
	xstates     int64
	transitions int64
	validated   int64
	distinct    map[string]struct{}
	states      map[string]struct{}
	outcomes    map[string]int64
	samples     []any
	exhaustive  bool
	notes       []string
	extra       map[string]any
	rule        string
	assume      []string
	violations  []Violation
	known       map[string]string // key -> what
	knownHit    map[string]bool
	unrepro     int
	out         string
	maxViol     int
	cur         []byte
	only        string
	beat        atomic.Int64
}

const curSize = 1 << 16

// Run executes a check body and writes its report.
func Run(t *testing.T, id string, body func(c *Ctx)) {
	c := &Ctx{T: t, ID: id, Tier: os.Getenv("VERIF_TIER"), start: time.Now(),
		distinct: map[string]struct{}{}, states: map[string]struct{}{}, outcomes: map[string]int64{},
		exhaustive: true, extra: map[string]any{}, known: map[string]string{}, knownHit: map[string]bool{},
		out: os.Getenv("VERIF_OUT"), maxViol: 1, only: os.Getenv("VERIF_ONLY")}
	if c.Tier == "" {
		c.Tier = "quick"
	}
	c.Quick = c.Tier != "thorough"
	c.Seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	sec := 240
	if !c.Quick {
		sec = 780
	}
	if s, err := strconv.Atoi(os.Getenv("VERIF_BUDGET")); err == nil {
		sec = s
	}
	c.deadline = c.start.Add(time.Duration(sec) * time.Second)
	if s, err := strconv.Atoi(os.Getenv("VERIF_MAXVIOL")); err == nil {
		c.maxViol = s
	}
	if c.out == "" {
		c.out = t.TempDir()
	}
	c.loadKnown(os.Getenv("VERIF_KNOWN"))
	c.openCur()
	go c.watch()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if r == stop {
					return
				}
				c.record(Violation{Key: "panic:" + firstLine(fmt.Sprint(r)), Detail: fmt.Sprintf("case: %s\npanic: %v\n%s", c.Current(), r, debug.Stack())})
			}
		}()
		body(c)
	}()
	c.finish()
}

var stop = fmt.Errorf("vkit: stop")

// Bubble runs f in a bubble of its own with fake time; a stop inside ends the exploration as usual.
func Bubble(t *testing.T, f func(t *testing.T)) {
	var stopped any
	synctest.Test(t, func(t *testing.T) {
		defer func() {
			if r := recover(); r == any(stop) {
				stopped = r
			} else if r != nil {
				panic(r)
			}
		}()
		f(t)
	})
	if stopped != nil {
		panic(stopped)
	}
}

// watch reports a case that makes no progress for a long time: cases take milliseconds.
func (c *Ctx) watch() {
	last, since := c.beat.Load(), time.Now()
	for {
		time.Sleep(time.Second)
		if b := c.beat.Load(); b != last {
			last, since = b, time.Now()
			continue
		}
		if time.Since(since) > 60*time.Second {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			c.record(Violation{Key: "hang: " + firstLine(c.Current()), Detail: fmt.Sprintf("no progress for a minute\ncase: %s\n%s", c.Current(), buf)})
			c.finish()
			os.Exit(0)
		}
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return s
}

func (c *Ctx) loadKnown(path string) {
	f, err := os.Open(path)
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		var k struct{ Property, Key, What, Status string }
		if json.Unmarshal(sc.Bytes(), &k) != nil || k.Status == "fixed" {
			continue
		}
		if k.Property == c.ID {
			c.known[k.Key] = k.What
		}
	}
}

func (c *Ctx) openCur() {
	p := filepath.Join(c.out, "current")
	f, err := os.OpenFile(p, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
	if err != nil {
		c.cur = make([]byte, curSize)
		return
	}
	defer f.Close()
	_ = f.Truncate(curSize)
	c.cur, err = syscall.Mmap(int(f.Fd()), 0, curSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		c.cur = make([]byte, curSize)
	}
}

// Cur notes the case about to run, so that a crash of the whole process names it.
func (c *Ctx) Cur(format string, a ...any) {
	c.beat.Add(1)
	s := fmt.Sprintf(format, a...)
	if len(s) > curSize-1 {
		s = s[:curSize-1]
	}
	c.mu.Lock()
	n := copy(c.cur, s)
	c.cur[n] = 0
	c.mu.Unlock()
}

func (c *Ctx) Current() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	for i, b := range c.cur {
		if b == 0 {
			return string(c.cur[:i])
		}
	}
	return ""
}

// Mine says whether work item i belongs to this shard.
func (c *Ctx) Mine(i int) bool {
	var k, n int
	if _, err := fmt.Sscanf(os.Getenv("VERIF_SHARD"), "%d/%d", &k, &n); err != nil || n < 2 {
		return true
	}
	return i%n == k
}

// Expired reports that the internal deadline passed; the run is then no longer exhaustive.
func (c *Ctx) Expired() bool {
	c.beat.Add(1)
	if time.Now().After(c.deadline) {
		c.mu.Lock()
		c.exhaustive = false
		c.mu.Unlock()
		return true
	}
	return false
}

// Remaining time until the deadline.
func (c *Ctx) Remaining() time.Duration { return time.Until(c.deadline) }

func (c *Ctx) N(quick, thorough int) int {
	if c.Quick {
		return quick
	}
	return thorough
}

// NotExhaustive records why a bound or cap was hit.
func (c *Ctx) NotExhaustive(why string) {
	c.mu.Lock()
	c.exhaustive = false
	c.notes = append(c.notes, why)
	c.mu.Unlock()
}

func (c *Ctx) Note(s string)   { c.mu.Lock(); c.notes = append(c.notes, s); c.mu.Unlock() }
func (c *Ctx) Assume(s string) { c.mu.Lock(); c.assume = append(c.assume, s); c.mu.Unlock() }
func (c *Ctx) Rule(s string)   { c.rule = s }
func (c *Ctx) Extra(k string, v any) {
	c.mu.Lock()
	c.extra[k] = v
	c.mu.Unlock()
}

// Eval counts one execution / case; key is its identity, empty when trivial.
func (c *Ctx) Eval(key string) {
	c.beat.Add(1)
	c.mu.Lock()
	c.evals++
	if key != "" {
		c.distinct[short(key)] = struct{}{}
	}
	c.mu.Unlock()
}

// State adds a state and says whether it is new.
func (c *Ctx) State(s string) bool {
	k := short(s)
	c.mu.Lock()
	defer c.mu.Unlock()
	if _, ok := c.states[k]; ok {
		return false
	}
	c.states[k] = struct{}{}
	return true
}

func (c *Ctx) Transition() { c.beat.Add(1); c.mu.Lock(); c.transitions++; c.mu.Unlock() }

// AddCounts adds states, transitions and validated traces counted elsewhere (a schedule exploration).
func (c *Ctx) AddCounts(states, transitions, validated int64) {
	c.mu.Lock()
	c.xstates += states
	c.transitions += transitions
	c.validated += validated
	c.mu.Unlock()
}

// Validated counts a complete model trace replayed against the implementation and compared.
func (c *Ctx) Validated() { c.beat.Add(1); c.mu.Lock(); c.validated++; c.mu.Unlock() }

func (c *Ctx) Outcome(s string) { c.mu.Lock(); c.outcomes[s]++; c.mu.Unlock() }

func (c *Ctx) Sample(s any) {
	c.mu.Lock()
	if len(c.samples) < 12 {
		c.samples = append(c.samples, s)
	}
	c.mu.Unlock()
}

func (c *Ctx) Samples() int { c.mu.Lock(); defer c.mu.Unlock(); return len(c.samples) }

func short(s string) string {
	if len(s) <= 24 {
		return s
	}
	h := sha256.Sum256([]byte(s))
	return string(h[:12])
}

// Fail reports a violation identified by key (the specific input, call site or
// history). again re-runs the very same case and reports whether it still fails;
// the violation only counts when all re-runs fail too.
func (c *Ctx) Fail(key string, again func() bool, format string, a ...any) {
	detail := fmt.Sprintf(format, a...)
	c.mu.Lock()
	if _, ok := c.known[key]; ok {
		c.knownHit[key] = true
		c.mu.Unlock()
		return
	}
	for _, v := range c.violations {
		if v.Key == key {
			c.mu.Unlock()
			return
		}
	}
	c.mu.Unlock()
	if again != nil {
		for i := 0; i < 5; i++ {
			if !again() {
				c.mu.Lock()
				c.unrepro++
				c.notes = append(c.notes, "not reproduced on re-run, not counted: "+key+": "+detail)
				c.mu.Unlock()
				return
			}
		}
	}
	c.record(Violation{Key: key, Detail: detail})
	c.mu.Lock()
	n := len(c.violations)
	c.mu.Unlock()
	if n >= c.maxViol {
		panic(stop)
	}
}

// Violated tells whether a violation was found, exploring on can be slow then
func (c *Ctx) Violated() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.violations) > 0
}

func (c *Ctx) record(v Violation) {
	h := sha256.Sum256([]byte(c.ID + v.Key))
	v.Replay = fmt.Sprintf("%s-%s.txt", c.ID, hex.EncodeToString(h[:6]))
	c.mu.Lock()
	defer c.mu.Unlock()
	c.exhaustive = false
	c.violations = append(c.violations, v)
}

func (c *Ctx) finish() {
	c.mu.Lock()
	defer c.mu.Unlock()
	known := make([]map[string]string, 0)
	for k := range c.knownHit {
		known = append(known, map[string]string{"key": k, "what": c.known[k]})
	}
	sort.Slice(known, func(i, j int) bool { return known[i]["key"] < known[j]["key"] })
	missed := make([]string, 0)
	for k := range c.known {
		if !c.knownHit[k] {
			missed = append(missed, k)
		}
	}
	sort.Strings(missed)
	if len(c.outcomes) > 0 {
		c.extra["distinct_outcomes"] = len(c.outcomes)
		if len(c.outcomes) <= 24 {
			c.extra["outcomes"] = c.outcomes
		}
	}
	cov := map[string]any{
		"evaluations": c.evals, "distinct_nontrivial": len(c.distinct), "rule": c.rule,
		"states": int64(len(c.states)) + c.xstates, "transitions": c.transitions, "traces_validated_against_impl": c.validated,
		"samples": c.samples, "exhaustive": c.exhaustive && !c.Expired2(),
	}
	for k, v := range c.extra {
		cov[k] = v
	}
	rep := map[string]any{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "coverage": cov, "assumptions": c.assume,
		"notes": c.notes, "violations": c.violations, "known": known, "known_not_seen": missed,
		"unreproduced": c.unrepro, "wall_s": time.Since(c.start).Seconds(),
	}
	bt, err := json.MarshalIndent(rep, "", " ")
	if err != nil {
		c.T.Fatalf("marshal report: %v", err)
	}
	tmp := filepath.Join(c.out, c.T.Name()+".json.tmp")
	if err = os.WriteFile(tmp, bt, 0o644); err != nil {
		c.T.Fatal(err)
	}
	_ = os.Rename(tmp, filepath.Join(c.out, c.T.Name()+".json"))
}

func (c *Ctx) Expired2() bool { return time.Now().After(c.deadline) }

// Scratch returns a fresh directory below the run's private scratch space.
func (c *Ctx) Scratch(name string) string {
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		base = c.out
	}
	d, err := os.MkdirTemp(base, name+"-")
	if err != nil {
		panic(err)
	}
	return d
}

// Safe runs fn and turns a panic into an error text.
func Safe(fn func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprintf("panic: %v", r)
		}
	}()
	fn()
	return ""
}

var racesRead = map[string]int{}

// Races returns what the race detector reported since the last call
func (c *Ctx) Races() (text string) {
	fs, _ := filepath.Glob(filepath.Join(os.Getenv("VERIF_OUT"), "race.*"))
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		if n := racesRead[f]; len(b) > n {
			text += string(b[n:])
			racesRead[f] = len(b)
		}
	}
	return
}
