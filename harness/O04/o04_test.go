package objkit_test

import (
	"common/vkit"
	"fmt"
	"objectserver/internal/objkit"
	"testing"
)

func TestVerifO04History(t *testing.T) {
	vkit.Run(t, "O04", func(c *vkit.Ctx) {
		c.Rule("in every reached state the answers to existence, location and read requests and the listing are compared with the files on the disks and with the history")
		objkit.Warm(c.Scratch("warm"))
		histories4(t, c, index4, true)
	})
}

func TestVerifO04Sched(t *testing.T) {
	vkit.Run(t, "O04", func(c *vkit.Ctx) {
		objkit.Warm(c.Scratch("warm"))
		schedules4(t, c, index4)
	})
}

type op4i struct {
	kind       string
	name, path string
}

// TestVerifO04Index: all sequences of changes of the index
func TestVerifO04Index(t *testing.T) {
	vkit.Run(t, "O04", func(c *vkit.Ctx) {
		names := []string{"a.1", "a.10"}
		paths := []string{"/d/s/a", "/d,e/s/a", "/d%2Ce/s/a"}
		var ops []op4i
		for _, n := range names {
			for _, p := range paths {
				ops = append(ops, op4i{"put", n, p}, op4i{"remove", n, p})
			}
			ops = append(ops, op4i{"remove all", n, ""})
		}
		depth := c.N(4, 5)
		db := objkit.MemPathCache()
		used := 0
		run := func(h []int) string {
			if used++; used > 300 {
				_ = db.Close()
				db, used = objkit.MemPathCache(), 0
			}
			model := map[string][]string{}
			without := func(l []string, p string) (r []string) {
				for _, x := range l {
					if x != p {
						r = append(r, x)
					}
				}
				return
			}
			for _, i := range h {
				o := ops[i]
				var err error
				switch o.kind {
				case "put":
					err = db.Put(o.name, o.path)
					model[o.name] = append(without(model[o.name], o.path), o.path)
				case "remove":
					err = db.Remove(o.name, o.path)
					model[o.name] = without(model[o.name], o.path)
				case "remove all":
					err = db.RemoveAll(o.name)
					model[o.name] = nil
				}
				if err != nil {
					return fmt.Sprintf("%v: %v", o, err)
				}
				c.Transition()
			}
			defer func() {
				for _, n := range names {
					_ = db.RemoveAll(n)
				}
			}()
			all := map[string]int{}
			for _, n := range names {
				for _, p := range model[n] {
					all[p]++
				}
				got, err := db.Get(n)
				if (err == nil) != (len(model[n]) > 0) || fmt.Sprint(got) != fmt.Sprint(model[n]) && err == nil {
					return fmt.Sprintf("Get(%s) = %v, %v instead of %v", n, got, err, model[n])
				}
				last, err := db.GetLast(n)
				if (err == nil) != (len(model[n]) > 0) || err == nil && last != model[n][len(model[n])-1] {
					return fmt.Sprintf("GetLast(%s) = %v, %v of %v", n, last, err, model[n])
				}
			}
			listed := map[string]int{}
			if err := db.IteratorAll(func(p string) error { listed[p]++; return nil }); err != nil {
				return fmt.Sprint("iteration: ", err)
			}
			if fmt.Sprint(listed) != fmt.Sprint(all) {
				return fmt.Sprintf("lists %v instead of %v", listed, all)
			}
			c.State(fmt.Sprint(model))
			return ""
		}
		text := func(h []int) (s string) {
			for _, i := range h {
				s += fmt.Sprint(ops[i], " ")
			}
			return
		}
		item := 0
		var rec func(h []int)
		rec = func(h []int) {
			if len(h) == 2 {
				if item++; !c.Mine(item) {
					return
				}
			}
			if len(h) == depth {
				if c.Expired() {
					return
				}
				c.Cur("%s", text(h))
				c.Eval(fmt.Sprint("index", h))
				if m := run(h); m != "" {
					c.Fail("index "+text(h), func() bool {
						used = 1000
						return run(h) != ""
					}, "%s: %s", text(h), m)
					return
				}
				c.Validated()
				return
			}
			for i := range ops {
				rec(append(h[:len(h):len(h)], i))
			}
		}
		rec(nil)
		_ = db.Close()
	})
}
