package service_test

import (
	"common/vkit"
	"metaserver/internal/metakit"
	"testing"
)

func TestVerifM01(t *testing.T) {
	vkit.Run(t, "M01", func(c *vkit.Ctx) {
		metakit.OwnAll(metakit.NewKV())
		c.Rule("one evaluation = one operation history replayed on a fresh real server stack (bbolt store, cache, repositories, service; wire: HTTP and RPC handlers), every answer and every read compared with a plain versioned map; all histories up to the depth from every root, histories reaching an already seen state (records, index and cache keys) are not extended")
		read := func(w *world) string {
			if e := w.m.ReadObjects(w.f, []string{"a", "a.1", "none"}); e != "" {
				return e
			}
			return w.m.ReadHashes(w.f, []string{"h1", "h2"})
		}
		for _, wire := range []bool{false, true} {
			label := map[bool]string{false: "service", true: "wire"}[wire]
			d := c.N(4, 5)
			if wire {
				d--
			}
			s := &setup{c: c, t: t, wire: wire, label: label, depth: d, read: read,
				order: []string{"empty", "nine", "ten", "gap"},
				roots: map[string][]metakit.Step{"empty": nil, "nine": many(9), "ten": many(10),
					"gap": many(11, metakit.DelVer("a", "first"), metakit.DelVer("a", "mid"))},
				steps: func(w **world) []metakit.Step {
					return []metakit.Step{
						metakit.AddMeta("a"), metakit.AddVer("a", "h1"), metakit.AddVer("a", "h2"), metakit.UpdMeta("a"), metakit.UpdVer("a", "last"),
						metakit.DelVer("a", "last"), metakit.DelVer("a", "first"), metakit.DelVer("a", "all"), metakit.DelMeta("a"),
						metakit.AddMeta("a.1"), metakit.AddVer("a.1", "h1"), metakit.DelMeta("a.1"), metakit.UpdVer("a", "missing"), readStep(w, read)}
				}}
			s.explore()
			// entries handed over by another group between own ones
			nd := func(w **world) func() *metakit.Node { return func() *metakit.Node { return (*w).n } }
			g := &setup{c: c, t: t, wire: wire, label: label + " handover", depth: d, read: read,
				order: []string{"gap", "empty"}, roots: map[string][]metakit.Step{"empty": {metakit.AddMeta("a")}, "gap": many(4, metakit.DelVer("a", "first"), metakit.DelVer("a", "mid"))},
				steps: func(w **world) []metakit.Step {
					return []metakit.Step{metakit.Receive(nd(w), "a", "h1", "below"), metakit.Receive(nd(w), "a", "h2", "missing"), metakit.Receive(nd(w), "a", "h1", "last"),
						metakit.AddVer("a", "h1"), metakit.DelVer("a", "last"), metakit.DelVer("a", "all"), metakit.UpdVer("a", "first"), readStep(w, read)}
				}}
			g.explore()
			// buckets
			rb := func(w *world) string { return w.m.ReadBuckets(w.f, []string{"b", "ba", "none"}) }
			b := &setup{c: c, t: t, wire: wire, label: label + " buckets", depth: d + 1, read: rb,
				order: []string{"empty"}, roots: map[string][]metakit.Step{"empty": nil},
				steps: func(w **world) []metakit.Step {
					return []metakit.Step{metakit.AddBucket("b"), metakit.AddBucket("ba"), metakit.AddBucket("c"), metakit.UpdBucket("b"), metakit.UpdBucket("ba"),
						metakit.DelBucket("b"), metakit.DelBucket("ba"), readStep(w, rb)}
				}}
			b.explore()
		}
	})
}
