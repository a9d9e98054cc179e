package service_test

import (
	"common/vkit"
	"metaserver/internal/metakit"
	"testing"
)

func TestVerifM02(t *testing.T) {
	vkit.Run(t, "M02", func(c *vkit.Ctx) {
		metakit.OwnAll(metakit.NewKV())
		c.Rule("one evaluation = one history of creations, deletions, migrations in and location updates on objects that share content hashes, replayed on a fresh real server stack; after it every hash lookup, version and listing is compared with a plain versioned map; all histories up to the depth from every root")
		read := func(w *world) string {
			if e := w.m.ReadHashes(w.f, []string{"h1", "h2", "evil", "none"}); e != "" {
				return e
			}
			return w.m.ReadObjects(w.f, []string{"a", "a.1"})
		}
		for _, wire := range []bool{false, true} {
			d := c.N(4, 5)
			if wire {
				d--
			}
			s := &setup{c: c, t: t, wire: wire, label: map[bool]string{false: "service", true: "wire"}[wire], depth: d, read: read,
				order: []string{"empty", "shared", "stale"},
				roots: map[string][]metakit.Step{"empty": nil,
					"shared": {metakit.AddMeta("a"), metakit.AddMeta("a.1"), metakit.AddVer("a", "h1"), metakit.AddVer("a.1", "h1"), metakit.AddVer("a.1", "h2")},
					"stale":  {metakit.AddMeta("a"), metakit.AddVer("a", "h1"), metakit.AddVer("a", "h2"), metakit.DelMeta("a"), metakit.AddMeta("a"), metakit.AddVer("a", "h2")}},
				steps: func(w **world) []metakit.Step {
					n := func() *metakit.Node { return (*w).n }
					return []metakit.Step{
						metakit.AddMeta("a"), metakit.AddVer("a", "h1"), metakit.AddVer("a.1", "h1"), metakit.AddVer("a", "h2"),
						metakit.Locate("h1", 1, "x"), metakit.Locate("h1", 0, "y"), metakit.Locate("h2", 2, "z"), metakit.Locate("h1", 3, "q"), metakit.Locate("none", 0, "q"),
						metakit.UpdVer("a", "last"), metakit.DelVer("a", "last"), metakit.DelVer("a.1", "first"), metakit.DelVer("a", "all"), metakit.DelMeta("a"),
						metakit.Receive(n, "a", "h1", "missing"), metakit.Receive(n, "a", "h2", "last"), readStep(w, read)}
				}}
			s.explore()
		}
	})
}
