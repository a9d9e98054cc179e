package vsched

import "testing"

// Reporter is what a check context offers.
type Reporter interface {
	Cur(format string, a ...any)
	Expired() bool
	Eval(key string)
	NotExhaustive(why string)
	Fail(key string, again func() bool, format string, a ...any)
	Sample(s any)
	Samples() int
	AddCounts(states, transitions, validated int64)
}

// Check explores every schedule of one scenario with at most o.MaxDev deviations and
// reports the first that fails.  The usual failures (deadlock, panic) are judged here;
// verdict judges the rest.
func Check(t *testing.T, c Reporter, name, group string, o Opts, scenario func(*Exec), verdict func(*Exec) string) Result {
	var fail, desc string
	var sched []byte
	judge := func(x *Exec) string {
		if len(x.Panics) > 0 {
			return "panic: " + first(x.Panics[0])
		}
		if x.Deadlock != "" {
			return "deadlock: " + x.Deadlock
		}
		return verdict(x)
	}
	c.Cur("%s", name)
	o.Stop = func() bool { return fail != "" || c.Expired() }
	r := Explore(t, o, scenario, func(x *Exec) {
		c.Eval(name + string(x.Choices()))
		if v := judge(x); v != "" && fail == "" {
			fail, sched, desc = v, x.Choices(), x.Schedule()
		} else if c.Samples() < 6 && len(x.Choices()) > 0 {
			c.Sample(map[string]any{"scenario": name, "schedule": x.Schedule()})
		}
	})
	c.AddCounts(r.Nodes, r.Steps, int64(r.Execs))
	if fail != "" {
		c.Fail(group+": "+fail, func() bool {
			x := RunOne(t, Opts{MaxSteps: o.MaxSteps, FreeSwitch: o.FreeSwitch, Time: o.Time, Drain: o.Drain}, sched, scenario)
			return judge(x) != ""
		}, "scenario %s\nschedule (choices %v): %s\n%s", name, sched, desc, fail)
	} else if r.DoneDev < o.MaxDev {
		c.NotExhaustive(name + ": deviation bound not reached within the budget")
	}
	return r
}

func first(s string) string {
	for i := range s {
		if s[i] == '\n' {
			return s[:i]
		}
	}
	return s
}
