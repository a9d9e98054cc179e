package service_test

import (
	"common/vkit"
	"fmt"
	"metaserver/internal/metakit"
	"os"
	"path/filepath"
	"regexp"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
)

var caseNo atomic.Int64

type world struct {
	n *metakit.Node
	f metakit.Front
	m *metakit.Model
	c *metakit.RecCache
}

// unique ids and times differ between runs; they are no part of what failed
var volatile = regexp.MustCompile(`[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}|[0-9]{9,}`)

type setup struct {
	c     *vkit.Ctx
	t     *testing.T
	wire  bool
	roots map[string][]metakit.Step
	order []string
	steps func(w **world) []metakit.Step
	read  func(w *world) string
	depth int
	label string
}

// run replays one history on a fresh server; it returns the state and what differs.
func (s *setup) run(root string, hist []int) (state, bad string) {
	vkit.Bubble(s.t, func(*testing.T) {
		dir := s.c.Scratch(fmt.Sprintf("n%d", caseNo.Add(1)))
		_ = os.MkdirAll(dir, 0o755)
		w := &world{m: metakit.NewModel()}
		rc := metakit.Record(metakit.NewCache())
		w.n = metakit.OpenWith(filepath.Join(dir, "meta.db"), rc)
		w.c = rc
		defer w.n.Close()
		if s.wire {
			w.f = metakit.Wire{N: w.n}
		} else {
			w.f = metakit.Direct{N: w.n}
		}
		adv := func() { time.Sleep(time.Millisecond); synctest.Wait() }
		steps := s.steps(&w)
		adv()
		for _, st := range s.roots[root] {
			if bad = st.Do(w.f, w.m, adv); bad != "" {
				bad = st.Name + ": " + bad
				return
			}
			w.m.Learn(w.n)
			adv()
		}
		for _, i := range hist {
			if bad = steps[i].Do(w.f, w.m, adv); bad != "" {
				bad = steps[i].Name + ": " + bad
				return
			}
			w.m.Learn(w.n)
			adv()
		}
		state = w.m.Shape() + "\n" + metakit.Keys(w.n.Dump()) + "\n" + rc.Held()
		// cold, then with whatever the first pass cached
		for i := 0; i < 2; i++ {
			if bad = s.read(w); bad != "" {
				return
			}
			w.m.Learn(w.n)
			adv()
		}
	})
	return
}

func (s *setup) explore() {
	c := s.c
	var w0 *world
	names := s.steps(&w0)
	type item struct {
		root string
		hist []int
	}
	show := func(it item) string {
		x := s.label + " from " + it.root + ":"
		for _, i := range it.hist {
			x += " [" + names[i].Name + "]"
		}
		return x
	}
	visit := func(it item) bool {
		c.Cur("%s", show(it))
		st, bad := s.run(it.root, it.hist)
		c.Eval(show(it))
		c.Transition()
		c.Validated()
		if bad != "" {
			it2 := item{it.root, append([]int{}, it.hist...)}
			c.Fail(s.label+": "+volatile.ReplaceAllString(bad, "*"), func() bool { _, b := s.run(it2.root, it2.hist); return b != "" }, "%s\n%s", show(it2), bad)
			return false
		}
		if c.Samples() < 3 && len(it.hist) == 3 {
			c.Sample(show(it))
		}
		return c.State(s.label + st)
	}
	k := 0
	for _, r := range s.order {
		var queue []item
		if c.Mine(k) {
			visit(item{r, nil})
		}
		for i := range names {
			k++
			if !c.Mine(k) {
				continue
			}
			it := item{r, []int{i}}
			if visit(it) {
				queue = append(queue, it)
			}
		}
		for len(queue) > 0 {
			it := queue[0]
			queue = queue[1:]
			if len(it.hist) >= s.depth {
				continue
			}
			for i := range names {
				if c.Expired() {
					return
				}
				nx := item{r, append(append([]int{}, it.hist...), i)}
				if visit(nx) {
					queue = append(queue, nx)
				}
			}
		}
	}
}

func many(n int, then ...metakit.Step) []metakit.Step {
	s := []metakit.Step{metakit.AddMeta("a")}
	for i := 0; i < n; i++ {
		s = append(s, metakit.AddVer("a", []string{"h1", "h2"}[i%2]))
	}
	return append(s, then...)
}

func readStep(w **world, read func(w *world) string) metakit.Step {
	return metakit.Step{Name: "read-all", Do: func(metakit.Front, *metakit.Model, func()) string { return read(*w) }}
}
