package performance_test

import (
	"common/performance"
	"common/vkit"
	"common/vsched"
	"fmt"
	"sync"
	"testing"
	"testing/synctest"
	"time"
)

func TestVerifP01Sched(t *testing.T) {
	vkit.Run(t, "P01", func(c *vkit.Ctx) {
		c.Rule("one evaluation = one schedule of recorders, flushes, the flushing timer and closing on the real collector, or of two puts into the etcd store")
		type env struct {
			col  performance.Collector
			st   *memory
			errs []string
			mu   sync.Mutex
		}
		type actor func(e *env)
		put := func(ns ...int) actor {
			return func(e *env) {
				for _, n := range ns {
					s := sm(n)
					_ = e.col.Put(s.action, s.kind, s.cost)
				}
			}
		}
		async := func(ns ...int) actor {
			return func(e *env) {
				for _, n := range ns {
					s := sm(n)
					e.col.PutAsync(s.action, s.kind, s.cost)
				}
			}
		}
		flush := func(e *env) { _ = e.col.Flush() }
		cls := func(e *env) { _ = e.col.Close() }
		// has: what was recorded before a successful flush is stored
		has := func(what string, fl func(e *env) error, ns ...int) actor {
			return func(e *env) {
				if fl(e) != nil {
					return
				}
				for _, n := range ns {
					found := false
					for _, s := range e.st.content() {
						found = found || s == sm(n)
					}
					if !found {
						e.mu.Lock()
						e.errs = append(e.errs, fmt.Sprintf("%s succeeded, but %v recorded before it is not stored", what, sm(n)))
						e.mu.Unlock()
					}
				}
			}
		}
		flushHas := func(ns ...int) actor {
			return has("Flush", func(e *env) error { return e.col.Flush() }, ns...)
		}
		closeHas := func(ns ...int) actor {
			return has("Close", func(e *env) error { return e.col.Close() }, ns...)
		}
		seq := func(l ...actor) actor {
			return func(e *env) {
				for _, a := range l {
					a(e)
				}
			}
		}
		type scn struct {
			name   string
			max    int
			reach  bool
			fail   int
			n      int
			timed  bool
			actors []actor
		}
		for i, sc := range []scn{
			{"put put | put put | flush", 100, false, 0, 4, false, []actor{put(1, 2), put(3, 4), flush}},
			{"put flush put | put flush", 100, false, 0, 3, false, []actor{seq(put(1), flushHas(1), put(2), flushHas(1, 2)), seq(put(3), flushHas(3))}},
			{"async flush | async", 100, false, 0, 3, false, []actor{seq(async(1), flushHas(1), async(2), flushHas(1, 2)), async(3)}},
			{"async async close", 100, false, 0, 2, false, []actor{seq(async(1, 2), closeHas(1, 2))}},
			{"async | close", 100, false, 0, 2, false, []actor{async(1, 2), cls}},
			{"put | close | flush", 100, false, 0, 2, false, []actor{put(1, 2), cls, flush}},
			{"put put put | async put | flush, flushing when 1 is reached", 1, true, 0, 5, false, []actor{put(1, 2, 3), seq(async(4), put(5)), flush}},
			{"async async | async, flushing when 1 is reached, one failure", 1, true, 1, 4, false, []actor{async(1, 2), seq(async(3), put(4))}},
			{"put flush | put flush | close, one failure", 100, false, 1, 2, false, []actor{seq(put(1), flushHas(1)), seq(put(2), flushHas(2)), cls}},
			{"put | put | timer", 100, false, 0, 3, true, []actor{put(1, 2), put(3)}},
			{"put | timer | flush, one failure", 100, false, 1, 2, true, []actor{put(1, 2), flush}},
			{"close at once", 100, false, 0, 0, false, []actor{cls}},
		} {
			if !c.Mine(i) || c.Violated() {
				continue
			}
			sc := sc
			var e *env
			var final string
			scen := func(x *vsched.Exec) {
				e = &env{st: &memory{fail: sc.fail}}
				final = ""
				e.st.hook = func() { vsched.Y("store.Put"); vsched.Y("store.Put") }
				x.Go("main", func() {
					performance.SetLocalStore(e.st)
					e.col = performance.NewCollector(&performance.Config{Enable: true, Store: performance.Local, FlushInterval: time.Hour, MaxInMemory: sc.max, FlushWhenReached: sc.reach})
					done := make(chan struct{}, len(sc.actors))
					for _, a := range sc.actors {
						go func(a actor) {
							vsched.Y("actor")
							a(e)
							done <- struct{}{}
						}(a)
					}
					for range sc.actors {
						<-done
					}
				})
				x.After(func() {
					e.st.hook = nil
					for k := 0; k < 3; k++ {
						_ = e.col.Flush()
					}
					if err := e.col.Close(); err != nil {
						final = "Close fails: " + err.Error()
					}
					calls := e.st.calls()
					time.Sleep(3 * time.Hour)
					synctest.Wait()
					if e.st.calls() != calls {
						final = "the collector flushes periodically after it was closed"
					}
					_ = e.col.Close()
					var want []sample
					for n := 1; n <= sc.n; n++ {
						want = append(want, sm(n))
					}
					if g, w := canon(e.st.content()), canon(want); g != w {
						final = fmt.Sprintf("after the last flush the store contains %s, want %s", g, w)
					}
				})
			}
			vsched.Check(t, c, sc.name, sc.name, vsched.Opts{MaxDev: c.N(3, 5), Time: sc.timed, Drain: time.Second}, scen, func(x *vsched.Exec) string {
				if len(e.errs) > 0 {
					return e.errs[0]
				}
				if x.Leak {
					return "goroutines are left after closing"
				}
				return final
			})
		}
		for i, stores := range []int{1, 2} {
			for j, have := range []int{0, 99999} {
				if !c.Mine(i*2+j) || c.Violated() {
					continue
				}
				stores, have := stores, have
				name := fmt.Sprintf("two puts into %d etcd store(s) with %d samples", stores, have)
				var e *etcd
				var final string
				var errs [2]error
				base := newEtcd()
				fill(base, have)
				scen := func(x *vsched.Exec) {
					final = ""
					errs = [2]error{}
					e = newEtcd()
					e.rev = base.rev
					for k, v := range base.kvs {
						e.kvs[k] = v
					}
					e.hook = func(op string) { vsched.Y(op) }
					var put []sample
					var sts []performance.Store
					n := 0
					for k := 0; k < stores; k++ {
						e.hook = nil
						sts = append(sts, performance.NewEtcdStore(e.client(), actions))
						e.hook = func(op string) { vsched.Y(op) }
					}
					for k := 0; k < 2; k++ {
						k := k
						b := big(3, 1).samples(&n)
						put = append(put, b...)
						x.Go(fmt.Sprint("putter", k), func() { errs[k] = sts[k%stores].Put(performs(b)) })
					}
					x.After(func() {
						e.hook = nil
						for _, err := range errs {
							if err != nil {
								final = "put fails: " + err.Error()
							}
						}
						if final == "" {
							final = full(e, sts[0], have, put)
						}
					})
					x.Cleanup(func() { e.close() })
				}
				vsched.Check(t, c, name, name, vsched.Opts{MaxDev: c.N(1, 2), Drain: time.Second}, scen, func(x *vsched.Exec) string { return final })
			}
		}
	})
}
