// Statistics of a server are published under its lease while it runs, and only then.
//
// The real StatSyncer and Lifecycle run against an etcd simulated in memory, in virtual time, over all histories of lost
// leases, failing and hanging requests, stops and crashes up to a depth.
package system_test

import (
	"common/etcdsim"
	"common/registry"
	"common/system"
	"common/util"
	"common/vkit"
	"fmt"
	"strings"
	"testing"
	"testing/synctest"
	"time"
)

const statKey = "g/sys_info/meta/n_1"

var pubEvents = []string{"lose", "refuse", "hang", "heal", "putfail", "putlost", "stop", "crash"}

func runPub(t *testing.T, hist []string, pause time.Duration) (msg string, valid bool) {
	vkit.Bubble(t, func(t *testing.T) {
		e := etcdsim.New()
		c := etcdsim.NewConn(e)
		valid = true
		fail := func(f string, a ...any) {
			if msg == "" {
				msg = fmt.Sprintf(f, a...)
			}
		}
		invariant := func() {
			if _, ok := e.All()[statKey]; ok && e.LeaseOf(statKey) == 0 {
				fail("the statistics have no lease, they stay for ever")
			}
		}
		mode := ""
		lc := registry.NewLifecycle(c, 9*time.Second)
		sy := system.Syncer(c, statKey)
		lc.Subscribe(sy.OnLeaseChanged)
		stop := sy.StartAutoSave()
		started := false
		begin := func() {
			if !started {
				started = true
				go lc.DeadLoop()
			}
		}
		if hist[0] != "refuse" && hist[0] != "hang" {
			begin()
			time.Sleep(5 * time.Second)
			if _, ok := e.All()[statKey]; !ok {
				fail("nothing is published at the start")
			}
		}
		state := "runs"
		stopped := make(chan struct{})
		for _, ev := range hist {
			switch ev {
			case "lose":
				l := c.CurrentLease()
				if l == 0 {
					valid = false
				}
				e.Lose(l)
			case "refuse", "hang":
				if mode == ev || state == "crashed" {
					valid = false
				}
				mode = ev
				c.Set(ev)
			case "heal":
				if mode == "" || state == "crashed" {
					valid = false
				}
				mode = ""
				c.Set("")
			case "putfail":
				c.Fault("Put", "refuse")
			case "putlost":
				c.Fault("Put", "lost")
			case "stop":
				if state != "runs" {
					valid = false
					break
				}
				state = "stopped"
				begin()
				go func() {
					stop()
					lc.Close()
					close(stopped)
				}()
			case "crash":
				if state == "crashed" {
					valid = false
					break
				}
				if state == "runs" {
					state = "crashed"
				} else {
					valid = false
				}
				c.Set("dead")
			}
			if !valid {
				break
			}
			begin()
			if pause > 0 {
				for d := time.Duration(0); d < pause; d += 5 * time.Second {
					time.Sleep(5 * time.Second)
					invariant()
				}
			} else {
				synctest.Wait()
				invariant()
			}
		}
		if valid {
			if state == "stopped" {
				time.Sleep(20 * time.Second)
				select {
				case <-stopped:
				default:
					fail("stopping hangs")
				}
			}
			c.Set("")
			time.Sleep(125 * time.Second)
			invariant()
			v, ok := e.All()[statKey]
			if state != "runs" {
				if ok {
					fail("the server %s, its statistics are still there", state)
				}
			} else if !ok {
				fail("the statistics of a running server are missing")
			} else {
				var info system.Info
				if err := util.DecodeMsgp(&info, []byte(v)); err != nil || info.CpuStatus == nil || info.MemStatus == nil || info.DiskInfo == nil || info.IoStatus == nil {
					fail("published statistics are not readable: %v", err)
				}
				if l := e.LeaseOf(statKey); l != c.CurrentLease() {
					fail("published with lease %d, the server has %d", l, c.CurrentLease())
				}
				rev := e.RevOf(statKey)
				time.Sleep(61 * time.Second)
				if e.RevOf(statKey) == rev {
					fail("nothing was published for a minute")
				}
			}
		}
		c.Set("")
		c.Set("dead")
		if state != "stopped" {
			stop()
		}
		lc.Close()
		time.Sleep(30 * time.Second)
		e.Stop()
	})
	return
}

func TestVerifS01Publish(t *testing.T) {
	vkit.Run(t, "S01", func(c *vkit.Ctx) {
		c.Rule("publisher of statistics: all histories up to the depth")
		if _, err := system.NewInfo("/"); err != nil {
			c.NotExhaustive("the statistics of this machine cannot be read: " + err.Error())
			return
		}
		n := 0
		var walk func(hist []string)
		walk = func(hist []string) {
			if len(hist) > 0 {
				for _, pause := range []time.Duration{0, 65 * time.Second} {
					n++
					if !c.Mine(n) || c.Expired() {
						continue
					}
					name := fmt.Sprintf("publish %s pause %s", strings.Join(hist, " "), pause)
					c.Cur("%s", name)
					h := append([]string{}, hist...)
					msg, valid := runPub(t, h, pause)
					if !valid {
						continue
					}
					c.Eval(name)
					c.State(name)
					c.Transition()
					c.Validated()
					if msg != "" {
						c.Fail(name, func() bool { m, _ := runPub(t, h, pause); return m != "" }, "%s", msg)
					}
				}
			}
			if len(hist) == c.N(3, 4) {
				return
			}
			for _, ev := range pubEvents {
				walk(append(hist[:len(hist):len(hist)], ev))
			}
		}
		walk(nil)
	})
}
