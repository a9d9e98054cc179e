package objkit_test

import (
	"common/datasize"
	"common/vkit"
	"fmt"
	"objectserver/internal/objkit"
	"objectserver/internal/usecase/component"
	"testing"
)

func TestVerifO05History(t *testing.T) {
	vkit.Run(t, "O05", func(c *vkit.Ctx) {
		c.Rule("in every reached state the reported number of bytes equals the sum of the sizes of the shard files; a chosen driver exists and no other one has room when it has none")
		objkit.Warm(c.Scratch("warm"))
		histories4(t, c, capacity4, false)
	})
}

func TestVerifO05Sched(t *testing.T) {
	vkit.Run(t, "O05", func(c *vkit.Ctx) {
		objkit.Warm(c.Scratch("warm"))
		schedules4(t, c, capacity4)
	})
}

// TestVerifO05Place: all small configurations of drivers, asked repeatedly while their space changes
func TestVerifO05Place(t *testing.T) {
	vkit.Run(t, "O05", func(c *vkit.Ctx) {
		spaces := []datasize.DataSize{0, 1, 7, 30, 31, 1 << 40}
		if c.Quick {
			spaces = []datasize.DataSize{0, 1, 30, 31}
		}
		var configs [][]datasize.DataSize
		var rec func(h []datasize.DataSize)
		rec = func(h []datasize.DataSize) {
			configs = append(configs, h)
			if len(h) < 3 {
				for _, s := range spaces {
					rec(append(h[:len(h):len(h)], s))
				}
			}
		}
		rec(nil)
		totals := []datasize.DataSize{0, 100, 1 << 41}
		item := 0
		for _, weighted := range []bool{false, true} {
			for _, first := range configs {
				for _, total := range totals {
					// afterwards the space of the drivers is another one
					for _, second := range configs {
						if len(second) != len(first) && len(second) > 1 {
							continue
						}
						if item++; !c.Mine(item) {
							continue
						}
						if c.Expired() {
							return
						}
						id := fmt.Sprintf("weighted %v, total %d, free %v then %v", weighted, total, first, second)
						run := func() string { return place5(c, weighted, total, first, second) }
						c.Cur("%s", id)
						c.Eval(id)
						if m := run(); m != "" {
							c.Fail("place "+id, func() bool { return run() != "" }, "%s: %s", id, m)
						}
					}
				}
			}
		}
	})
}

func place5(c *vkit.Ctx, weighted bool, total datasize.DataSize, first, second []datasize.DataSize) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprint("panics: ", r)
		}
	}()
	lb := component.SpaceFirstBalancer()
	if weighted {
		lb = component.SpaceWeightedBalancer()
	}
	dm := component.NewDriverManager(lb)
	for round, frees := range [][]datasize.DataSize{first, second} {
		var ds []*component.Driver
		byName := map[string]*component.Driver{}
		for i, f := range frees {
			d := &component.Driver{MountPoint: fmt.Sprint("/d", i), FreeSpace: f, TotalSpace: total}
			ds = append(ds, d)
			byName[d.MountPoint] = d
		}
		objkit.SetDrivers(dm, ds)
		before := fmt.Sprint(dm.GetAllMountPoint())
		for k := 0; k < 4; k++ {
			mp := dm.SelectMountPointFallback("/fallback")
			c.Transition()
			d, ok := byName[mp]
			if !ok && (mp != "/fallback" || len(frees) > 0) {
				return fmt.Sprintf("round %d: chooses %s", round, mp)
			}
			drv, err := dm.SelectDriver()
			if (err == nil) != (len(frees) > 0) {
				return fmt.Sprintf("round %d: choice of a driver: %v", round, err)
			}
			for _, chosen := range []*component.Driver{d, drv} {
				if chosen == nil {
					continue
				}
				if byName[chosen.MountPoint] != chosen {
					return fmt.Sprintf("round %d: chooses a driver that does not exist: %v", round, chosen)
				}
				for i, f := range frees {
					if chosen.FreeSpace == 0 && f > 0 || !weighted && f > chosen.FreeSpace {
						return fmt.Sprintf("round %d: chooses %s with %d while driver %d has %d", round, chosen.MountPoint, chosen.FreeSpace, i, f)
					}
				}
			}
			if after := fmt.Sprint(dm.GetAllMountPoint()); after != before {
				return fmt.Sprintf("round %d: a choice changes the drivers from %s to %s", round, before, after)
			}
		}
	}
	c.Outcome("chosen")
	c.State(fmt.Sprint(weighted, total, first, second))
	c.Validated()
	return ""
}
