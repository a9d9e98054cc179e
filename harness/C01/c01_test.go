package util_test

import (
	"common/graceful"
	"common/util"
	"common/vkit"
	"common/vsched"
	"errors"
	"fmt"
	"sort"
	"strings"
	"testing"
)

type group interface {
	Todo()
	Done()
	Error(error)
	Errors(error)
	Close()
	Wait()
	WaitError() <-chan error
	WaitDone() <-chan struct{}
	WaitUntilError() error
}

// one scenario: what every worker does, which group, when the group is closed
type scen struct {
	kind    string // plain, limit1, limit2
	workers []string
	late    bool   // workers are added by another worker (nested Todo)
	mode    string // until: WaitUntilError; wait: Wait; done: WaitDone
}

func (s scen) String() string {
	return fmt.Sprintf("%s/%s[%s]late=%t", s.kind, s.mode, strings.Join(s.workers, ","), s.late)
}

func mk(kind string) group {
	switch kind {
	case "waitonly":
		return plainWait{util.NewWaitGroup()}
	case "limit1":
		return util.LimitDoneGroup(1)
	case "limit2":
		return util.LimitDoneGroup(2)
	}
	return util.NewDoneGroup()
}

type obs struct {
	returned bool
	err      error
	finished []bool
	atReturn []bool
	running  int
	peak     int
}

// the wait-only group has no error channel
type plainWait struct{ util.WaitGroup }

func (plainWait) Error(error)             {}
func (plainWait) Errors(error)            {}
func (plainWait) Close()                  {}
func (plainWait) WaitError() <-chan error { return nil }
func (plainWait) WaitUntilError() error   { return nil }

func run(s scen, o *obs) func(*vsched.Exec) {
	return func(x *vsched.Exec) {
		*o = obs{finished: make([]bool, len(s.workers))}
		x.Go("main", func() {
			dg := mk(s.kind)
			body := func(i int, w string) {
				defer dg.Done()
				o.running++
				if o.running > o.peak {
					o.peak = o.running
				}
				defer func() { o.running-- }()
				switch w {
				case "err":
					o.finished[i] = true
					dg.Error(fmt.Errorf("e%d", i))
				case "rpanic":
					// the worker reports its panic itself
					defer graceful.Recover(func(msg string) { dg.Error(errors.New(msg)) })
					o.finished[i] = true
					panic(fmt.Sprintf("p%d", i))
				case "rok":
					defer graceful.Recover(func(msg string) { dg.Error(errors.New(msg)) })
					vsched.Y("work")
					o.finished[i] = true
				case "panic":
					o.finished[i] = true
					panic(fmt.Sprintf("p%d", i))
				default:
					vsched.Y("work")
					o.finished[i] = true
				}
			}
			if s.late {
				dg.Todo()
				go func() {
					defer dg.Done()
					for i, w := range s.workers {
						dg.Todo()
						go body(i, w)
					}
				}()
			} else {
				for i, w := range s.workers {
					dg.Todo()
					go body(i, w)
				}
			}
			switch s.mode {
			case "wait":
				dg.Wait()
			case "done":
				<-dg.WaitDone()
			default:
				o.err = dg.WaitUntilError()
			}
			o.atReturn = append([]bool{}, o.finished...)
			o.returned = true
			// callers close the group right after they waited; workers may still run
			if s.kind == "plain" {
				dg.Close()
			}
		})
	}
}

func check(s scen, o *obs, x *vsched.Exec) string {
	bad := false
	limit := 0
	switch s.kind {
	case "limit1":
		limit = 1
	case "limit2":
		limit = 2
	}
	want := map[string]bool{}
	for i, w := range s.workers {
		if w == "err" {
			bad = true
			want[fmt.Sprintf("e%d", i)] = true
		}
		if w == "panic" || w == "rpanic" {
			bad = true
			want[fmt.Sprintf("p%d", i)] = true
		}
	}
	switch {
	case x.Deadlock != "":
		return "deadlock: " + x.Deadlock
	case len(x.Panics) > 0:
		return "panic escaped: " + strings.SplitN(x.Panics[0], "\n", 2)[0]
	case !o.returned:
		return "the wait did not return"
	case limit > 0 && o.peak > limit:
		return fmt.Sprintf("%d workers of a group limited to %d ran at once", o.peak, limit)
	case s.mode == "until" && bad && o.err == nil:
		return "a failed worker was reported as success"
	case !bad && o.err != nil:
		return "error reported though no worker failed: " + o.err.Error()
	case o.err != nil && !want[o.err.Error()]:
		return "reported an error no worker raised: " + o.err.Error()
	}
	if o.err == nil {
		for i, f := range o.atReturn {
			if !f {
				return fmt.Sprintf("success reported before worker %d finished", i)
			}
		}
	}
	for i, f := range o.finished {
		if !f {
			return fmt.Sprintf("worker %d never ran", i)
		}
	}
	if x.Leak {
		return "goroutines left blocked for ever after the group was waited for"
	}
	return ""
}

// streaming use: a consumer ranges over the error channel until the group is closed
func runStream(kind string, n int, fails int, got *[]string) func(*vsched.Exec) {
	return func(x *vsched.Exec) {
		*got = nil
		x.Go("main", func() {
			dg := mk(kind)
			done := make(chan struct{})
			go func() {
				defer close(done)
				for e := range dg.WaitError() {
					if e != nil {
						*got = append(*got, e.Error())
					}
				}
			}()
			for i := 0; i < n; i++ {
				dg.Todo()
				go func(i int) {
					defer dg.Done()
					if i < fails {
						dg.Errors(errors.New(fmt.Sprint("e", i)))
					}
				}(i)
			}
			dg.Wait()
			dg.Close()
			<-done
		})
	}
}

func TestVerifC01(t *testing.T) {
	vkit.Run(t, "C01", func(c *vkit.Ctx) {
		c.Rule("one evaluation = one complete schedule of one scenario (group kind x worker outcomes x nesting) on the real wait group; distinct = distinct (scenario, schedule)")
		recoverAll(c)
		maxDev := c.N(3, 5)
		kinds := []string{"plain", "limit1", "limit2"}
		var scens []scen
		maxW := c.N(2, 3)
		for n := 1; n <= maxW; n++ {
			outs := []string{"ok", "err", "panic", "rpanic", "rok"}
			if n > 2 {
				outs = outs[:3]
			}
			tot := 1
			for i := 0; i < n; i++ {
				tot *= len(outs)
			}
			for v := 0; v < tot; v++ {
				ws := make([]string, n)
				y := v
				for i := range ws {
					ws[i] = outs[y%len(outs)]
					y /= len(outs)
				}
				if !strings.Contains(strings.Join(ws, ","), "err") {
					scens = append(scens, scen{"waitonly", ws, false, "wait"}, scen{"waitonly", ws, false, "done"})
				}
				for _, k := range kinds {
					scens = append(scens, scen{k, ws, false, "until"}, scen{k, ws, false, "wait"})
					if k == "plain" {
						scens = append(scens, scen{k, ws, true, "until"}, scen{k, ws, false, "done"})
					}
				}
			}
		}
		if c.Quick {
			scens = append(scens, scen{"limit2", []string{"ok", "ok", "ok"}, false, "wait"}, scen{"limit1", []string{"ok", "ok", "err"}, false, "until"})
		}
		var total vsched.Result
		minDone := maxDev
		for _, s := range scens {
			if c.Expired() {
				break
			}
			var o obs
			var fail string
			var sched []byte
			var desc string
			md := maxDev
			if len(s.workers) >= 2 && c.Quick {
				md = maxDev - 1
			}
			if len(s.workers) >= 3 {
				md = maxDev - 2
			}
			c.Cur("%s", s)
			r := vsched.Explore(t, vsched.Opts{MaxDev: md, Stop: func() bool { return fail != "" || c.Expired() }}, run(s, &o), func(x *vsched.Exec) {
				c.Eval(s.String() + string(x.Choices()))
				out := check(s, &o, x)
				es := "nil"
				if o.err != nil {
					es = o.err.Error()
				}
				c.Outcome(fmt.Sprintf("%s/%s -> %s", s.kind, s.mode, es))
				if out != "" && fail == "" {
					fail, sched, desc = out, x.Choices(), x.Schedule()
				} else if c.Samples() < 8 && len(x.Choices()) > 0 {
					c.Sample(map[string]any{"scenario": s.String(), "schedule": x.Schedule(), "result": es})
				}
			})
			total.Add(r)
			if r.DoneDev < md && fail == "" {
				c.NotExhaustive(fmt.Sprintf("%s: deviation bound reached %d of %d", s, r.DoneDev, md))
			}
			if r.DoneDev < minDone && fail == "" {
				minDone = r.DoneDev
			}
			if fail != "" {
				c.Fail(s.kind+": "+fail, func() bool {
					x := vsched.RunOne(t, vsched.Opts{}, sched, run(s, &o))
					return check(s, &o, x) != ""
				}, "scenario %s\nschedule (choices %v): %s\n%s", s, sched, desc, fail)
			}
		}
		for _, k := range kinds {
			for n := 1; n <= maxW; n++ {
				for f := 0; f <= n; f++ {
					if c.Expired() {
						break
					}
					var got []string
					var fail, desc string
					var sched []byte
					name := fmt.Sprintf("stream %s n=%d fails=%d", k, n, f)
					c.Cur("%s", name)
					verdict := func(x *vsched.Exec) string {
						g := append([]string{}, got...)
						sort.Strings(g)
						var w []string
						for i := 0; i < f; i++ {
							w = append(w, fmt.Sprint("e", i))
						}
						switch {
						case x.Deadlock != "":
							return "deadlock " + x.Deadlock
						case len(x.Panics) > 0:
							return "panic " + strings.SplitN(x.Panics[0], "\n", 2)[0]
						case strings.Join(g, ",") != strings.Join(w, ","):
							return fmt.Sprintf("delivered %v instead of %v", g, w)
						case x.Leak:
							return "goroutines left blocked for ever"
						}
						return ""
					}
					sc := runStream(k, n, f, &got)
					r := vsched.Explore(t, vsched.Opts{MaxDev: c.N(2, 3), Stop: func() bool { return fail != "" || c.Expired() }}, sc, func(x *vsched.Exec) {
						c.Eval(name + string(x.Choices()))
						if v := verdict(x); v != "" && fail == "" {
							fail, sched, desc = v, x.Choices(), x.Schedule()
						}
					})
					total.Add(r)
					if fail != "" {
						c.Fail("stream "+k+": "+fail, func() bool {
							return verdict(vsched.RunOne(t, vsched.Opts{}, sched, sc)) != ""
						}, "%s\nschedule: %s\n%s", name, desc, fail)
					}
				}
			}
		}
		c.Extra("schedules", total.Execs)
		c.Extra("scheduling_decisions", total.Decisions)
		c.Extra("replay_divergences", total.Diverged)
		c.Extra("deviation_bound_completed", minDone)
		c.AddCounts(total.Nodes, total.Steps, int64(total.Execs))
		if total.Diverged > 0 {
			c.NotExhaustive(fmt.Sprintf("%d executions diverged from their prefix and were discarded", total.Diverged))
		}
	})
}

// recoverAll: whatever is thrown, a deferred Recover ends it and tells its callback exactly once; nothing thrown, nothing told
func recoverAll(c *vkit.Ctx) {
	throw := map[string]func(){
		"nothing": func() {},
		"string":  func() { panic("p") },
		"format":  func() { panic("100%d %s %") },
		"error":   func() { panic(errors.New("e")) },
		"number":  func() { panic(0) },
		"index":   func() { var a []int; _ = a[len(a)] },
		"nilmap":  func() { var m map[string]int; m["a"] = 1 },
		"nilptr":  func() { var p *scen; p.kind = "" },
		"deep": func() {
			var f func(n int)
			f = func(n int) {
				if n == 0 {
					panic("deep")
				}
				f(n - 1)
			}
			f(300)
		},
	}
	for name, f := range throw {
		for _, callback := range []bool{false, true} {
			told := 0
			escaped := func() (res any) {
				defer func() { res = recover() }()
				func() {
					if callback {
						defer graceful.Recover(func(string) { told++ })
					} else {
						defer graceful.Recover()
					}
					f()
				}()
				return nil
			}()
			key := fmt.Sprintf("recover %s callback %v", name, callback)
			c.Eval(key)
			want := 0
			if callback && name != "nothing" {
				want = 1
			}
			if escaped != nil {
				c.Fail(key, nil, "escaped: %v", escaped)
			} else if told != want {
				c.Fail(key, nil, "told %d times", told)
			}
		}
	}
}
