// The console shows the statistics the servers publish.
//
// The real ServerStatDB, ServerMonitor and discovery run against an etcd simulated in memory, in virtual time, over all
// histories of publications, malformed records, failing requests and broken watches up to a depth.
package logic

import (
	"adminserver/config"
	"adminserver/internal/usecase/db"
	"adminserver/internal/usecase/pool"
	"common/etcdsim"
	"common/registry"
	"common/system"
	"common/system/cpu"
	"common/system/disk"
	"common/system/mem"
	"common/util"
	"common/vkit"
	"context"
	"encoding/json"
	"fmt"
	"math"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"
)

type sample struct {
	cpu, mem float64
	at       time.Time
	must     bool // the console followed when it was published
}

type statWorld struct {
	mu    sync.Mutex // of n and log: publications may come from the console's own requests
	e     *etcdsim.Etcd
	c     *etcdsim.Conn
	n     int
	log   map[string][]sample // by key
	alive bool                // the watches work
	mode  string
	msg   string
}

const statGroup = "g"

var (
	statServ = []string{"meta", "metaserver", "m"} // api, meta, data
	statKeys = []string{"meta/a", "meta/a_b", "metaserver/a", "m/a"}
)

func (w *statWorld) fail(f string, a ...any) {
	if w.msg == "" {
		w.msg = fmt.Sprintf(f, a...)
	}
}

func (w *statWorld) key(k string) string { return statGroup + "/sys_info/" + k }

func (w *statWorld) publish(k string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.n++
	info := &system.Info{DiskInfo: &disk.Info{Total: 1}, MemStatus: &mem.Status{All: 200, Used: uint64(w.n)}, CpuStatus: &cpu.Stat{UsedPercent: float64(w.n)}, IoStatus: &disk.IOStats{}}
	s := sample{float64(w.n), math.Ceil(float64(w.n)*100/200) / 100, time.Now(), w.alive && w.mode == ""}
	if w.n%3 == 0 {
		// no memory known
		info.MemStatus = &mem.Status{}
		s.mem = 0
	}
	bt, err := util.EncodeMsgp(info)
	if err != nil {
		panic(err)
	}
	w.log[k] = append(w.log[k], s)
	w.e.Put(w.key(k), string(bt), 0)
}

var viewEvents = []string{"pub meta/a", "pub meta/a_b", "pub metaserver/a", "burst meta/a", "bad meta/a", "empty meta/a", "del meta/a",
	"getfail", "refuse", "hang", "heal", "close", "cancel", "gap meta/a", "foreign"}

func (w *statWorld) apply(ev string) bool {
	op, arg, _ := strings.Cut(ev, " ")
	switch op {
	case "pub":
		w.publish(arg)
	case "burst":
		for i := 0; i < 60; i++ {
			w.publish(arg)
		}
	case "bad":
		w.e.Put(w.key(arg), "\xff\x01no record", 0)
	case "empty":
		w.e.Put(w.key(arg), "\x80", 0)
	case "del":
		w.e.Del(w.key(arg))
	case "getfail":
		w.c.Fault("Get", "refuse")
	case "refuse", "hang":
		if w.mode == ev {
			return false
		}
		w.mode = ev
		w.c.Set(ev)
	case "heal":
		if w.mode == "" {
			return false
		}
		w.mode = ""
		w.c.Set("")
	case "close", "cancel":
		some := false
		for i := 0; i < 3; i++ {
			some = w.c.Break(op) || some
		}
		w.mu.Lock()
		w.alive = false
		w.mu.Unlock()
		return some
	case "gap":
		w.c.Gap(func() { w.publish(arg) })
	case "foreign":
		// other keys that look alike
		w.e.Put(statGroup+"/sys_info/meta", "x", 0)
		w.e.Put("g2/sys_info/meta/a", "x", 0)
		w.e.Put(statGroup+"/sys_infos/meta/a", "x", 0)
	}
	return true
}

// judge compares what the console shows with what was published
func (w *statWorld) judge(final bool) {
	w.mu.Lock()
	defer w.mu.Unlock()
	sm := NewServerMonitor()
	cpuAll, memAll := sm.StatTimeLineOverview()
	for no, serv := range statServ {
		lines := map[string][]*db.TimeStat{}
		for kind := range map[string]bool{"cpu": true, "mem": true} {
			tl := sm.StatTimeline(no, kind)
			if bt, err := json.Marshal(tl); err != nil {
				w.fail("time line of %s cannot be shown: %v %s", serv, err, bt)
			}
			for id, got := range tl {
				k := serv + "/" + id
				want, known := w.log[k]
				if !known {
					w.fail("%s time line of %s, which never published", kind, k)
					return
				}
				if len(got) > 59 {
					w.fail("%d samples of %s", len(got), k)
				}
				if kind == "cpu" {
					lines[id] = got
				} else if len(got) != len(lines[id]) && lines[id] != nil {
					w.fail("%s: %d samples of cpu, %d of memory", k, len(lines[id]), len(got))
				}
				// in order, each at most once; those seen are the newest
				val := func(s sample) float64 {
					if kind == "cpu" {
						return s.cpu
					}
					return s.mem
				}
				i := len(want) - 1
				var missed []int
				for j := len(got) - 1; j >= 0; j-- {
					for i >= 0 && (val(want[i]) != got[j].Percent || got[j].Time.Before(want[i].at)) {
						missed = append(missed, i)
						i--
					}
					if i < 0 {
						w.fail("%s of %s shows %v at position %d, which is not what was published before the next one", kind, k, got[j].Percent, j)
						return
					}
					i--
				}
				if len(got) < 59 {
					for ; i >= 0; i-- {
						missed = append(missed, i)
					}
				}
				if final && kind == "cpu" {
					for _, m := range missed {
						if want[m].must {
							w.fail("sample %v of %s is missing", want[m].cpu, k)
						}
					}
				}
			}
			if final {
				for k, want := range w.log {
					id, ok := strings.CutPrefix(k, serv+"/")
					if !ok {
						continue
					}
					for _, s := range want {
						if s.must && len(tl[id]) == 0 {
							w.fail("no time line of %s", k)
						}
					}
				}
			}
			all := cpuAll
			if kind == "mem" {
				all = memAll
			}
			found := len(tl) == 0 && len(all[serv]) == 0
			for _, l := range tl {
				a, _ := json.Marshal(l)
				b, _ := json.Marshal(all[serv])
				found = found || string(a) == string(b)
			}
			if !found {
				w.fail("overview of %s is none of its %s time lines", serv, kind)
			}
		}
	}
}

// judgeNow compares the present statistics
func (w *statWorld) judgeNow() {
	sm := NewServerMonitor()
	if w.mode == "hang" {
		return
	}
	content := w.e.All()
	for _, serv := range statServ {
		got, err := sm.ServerStat(serv)
		if w.mode == "refuse" {
			if err == nil {
				w.fail("etcd refuses, the statistics of %s are shown without an error", serv)
			}
			continue
		}
		if err != nil {
			w.fail("statistics of %s: %v", serv, err)
			continue
		}
		want := map[string]string{}
		for _, k := range statKeys {
			if id, ok := strings.CutPrefix(k, serv+"/"); ok {
				want[id] = k
			}
		}
		if len(got) != len(want) {
			w.fail("%d servers of %s, registered are %d", len(got), serv, len(want))
		}
		for id, k := range want {
			v := got[id]
			if v == nil || v.ServerID != id || v.SysInfo == nil {
				w.fail("%s is not shown", k)
				continue
			}
			if v.HttpAddr != "1.1.1.1:8"+fmt.Sprint(len(k)) {
				w.fail("address of %s: %s", k, v.HttpAddr)
			}
			raw := content[w.key(k)]
			var info system.Info
			if raw == "" || util.DecodeMsgp(&info, []byte(raw)) != nil || info.CpuStatus == nil {
				if v.SysInfo.CpuStatus != nil && v.SysInfo.CpuStatus.UsedPercent != 0 {
					w.fail("%s shows statistics it has not published", k)
				}
				continue
			}
			a, _ := json.Marshal(info)
			b, _ := json.Marshal(v.SysInfo)
			if string(a) != string(b) {
				w.fail("%s published %s, shown is %s", k, a, b)
			}
		}
	}
}

func runView(t *testing.T, start string, hist []string, pause time.Duration) (msg string, valid bool) {
	vkit.Bubble(t, func(t *testing.T) {
		w := &statWorld{e: etcdsim.New(), log: map[string][]sample{}}
		w.c = etcdsim.NewConn(w.e)
		for i, k := range statKeys {
			serv, id, _ := strings.Cut(k, "/")
			rc := &registry.Config{ServerIP: "1.1.1.1", ServerPort: "8" + fmt.Sprint(len(k)), ServerID: id, Group: statGroup, Name: serv, Interval: 9 * time.Second}
			reg := registry.NewEtcdRegistry(etcdsim.NewConn(w.e).Client(), rc)
			if i%2 == 1 {
				reg.AsMaster()
			}
			reg.Register(0)
		}
		synctest.Wait()
		pool.Config = &config.Config{Discovery: config.DiscoveryConfig{Group: statGroup, ApiServName: statServ[0], MetaServName: statServ[1], DataServName: statServ[2]}}
		dc := etcdsim.NewConn(w.e)
		pool.Discovery = registry.NewEtcdDiscovery(dc.Client(), &registry.Config{ServerIP: "9.9.9.1", ServerPort: "1", ServerID: "x", Group: statGroup, Name: "admin", Services: statServ})
		time.Sleep(3 * time.Second)
		w.alive = start == "works" // what is there when the console starts must be shown
		w.publish("meta/a")
		w.publish("m/a")
		if start == "refuse" {
			w.mode = "refuse"
			w.c.Set("refuse")
		}
		pool.Etcd = w.c.Client()
		pool.StatDB = db.NewServerStatDB(db.ServerStatCli{Watcher: w.c, KV: w.c}, statGroup, statServ)
		if start != "race" {
			synctest.Wait()
		}
		end := make(chan struct{})
		done := make(chan struct{})
		go func() {
			// somebody looks all the time
			defer close(done)
			sm := NewServerMonitor()
			for {
				sm.StatTimeline(0, "cpu")
				sm.StatTimeline(0, "mem")
				sm.StatTimeLineOverview()
				select {
				case <-end:
					return
				case <-time.After(700 * time.Millisecond):
				}
			}
		}()
		valid = true
		for _, ev := range hist {
			if !w.apply(ev) {
				valid = false
				break
			}
			if pause > 0 {
				time.Sleep(pause)
				if w.mode == "" {
					w.mu.Lock()
					w.alive = true
					w.mu.Unlock()
				}
			} else {
				synctest.Wait()
			}
			w.judge(false)
			if pause > 0 {
				// also uses up a fault that is left
				if w.mode != "hang" {
					_, _ = pool.Etcd.Get(context.Background(), "none")
					w.judgeNow()
				}
			}
		}
		if valid {
			if w.mode != "" {
				w.mode = ""
				w.c.Set("")
			}
			w.c.Fault("Get", "")
			time.Sleep(10 * time.Second)
			// the last one of each key is known by now
			w.mu.Lock()
			for k, l := range w.log {
				if _, ok := w.e.All()[w.key(k)]; ok && len(l) > 0 {
					raw := w.e.All()[w.key(k)]
					var info system.Info
					if util.DecodeMsgp(&info, []byte(raw)) == nil && info.CpuStatus != nil {
						l[len(l)-1].must = true
					}
				}
			}
			w.alive = true
			w.mu.Unlock()
			w.publish("meta/a")
			w.publish("metaserver/a")
			time.Sleep(2 * time.Second)
			w.judge(true)
			w.judgeNow()
		}
		msg = w.msg
		close(end)
		<-done
		_ = pool.StatDB.Close()
		w.c.Set("")
		pool.Discovery.Close()
		time.Sleep(5 * time.Second)
		size := func() int { return len(NewServerMonitor().StatTimeline(0, "cpu")["a"]) }
		before := size()
		w.publish("meta/a")
		time.Sleep(5 * time.Second)
		if valid && size() != before && msg == "" {
			msg = "a closed view goes on"
		}
		w.e.Stop()
		time.Sleep(5 * time.Second)
	})
	return
}

func TestVerifS01View(t *testing.T) {
	vkit.Run(t, "S01", func(c *vkit.Ctx) {
		c.Rule("console view of statistics: all histories up to the depth")
		n := 0
		var walk func(hist []string)
		walk = func(hist []string) {
			for _, start := range []string{"works", "refuse", "race"} {
				for _, pause := range []time.Duration{0, 3 * time.Second} {
					n++
					if !c.Mine(n) || c.Expired() {
						continue
					}
					name := fmt.Sprintf("view start %s [%s] pause %s", start, strings.Join(hist, ", "), pause)
					c.Cur("%s", name)
					h := append([]string{}, hist...)
					msg, valid := runView(t, start, h, pause)
					if !valid {
						continue
					}
					c.Eval(name)
					c.State(name)
					c.Transition()
					c.Validated()
					if msg != "" {
						c.Fail(name, func() bool { m, _ := runView(t, start, h, pause); return m != "" }, "%s", msg)
					}
				}
			}
			if len(hist) == c.N(3, 4) {
				return
			}
			for _, ev := range viewEvents {
				walk(append(hist[:len(hist):len(hist)], ev))
			}
		}
		walk(nil)
	})
}
