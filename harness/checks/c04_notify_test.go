package checks

import (
	"fmt"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/wearelumenai/distclus/core"
)

// edges of the lifecycle, as seen by the notifier
var lcEdges = map[core.ClustStatus][]core.ClustStatus{
	core.Created:      {core.Initializing},
	core.Initializing: {core.Ready, core.Finished},
	core.Ready:        {core.Running, core.Finished},
	core.Running:      {core.Idle, core.Ready, core.Finished},
	core.Idle:         {core.Running, core.Finished},
	core.Finished:     {core.Initializing},
}

func (c *Case) checkPath(list []core.OCStatus) {
	var cur = core.Created
	for i, s := range list {
		var ok = false
		for _, n := range lcEdges[cur] {
			ok = ok || n == s.Value
		}
		c.Check(ok, "notification %d is %s after %v: lost, repeated or out of order\n%s", i, sstr(s), cur, statusList(list))
		c.Check(s.Error == nil || s.Value == core.Finished, "notification %s has an error", sstr(s))
		cur = s.Value
	}
}

func TestC04(t *testing.T) {
	var h = newH(t, "C04", "sequential: sequences of control calls with failures and natural ends in virtual time, with recording, slow, blocked and "+
		"re-entrant notifiers; the list received must be exactly the list of status changes of the reference lifecycle. Concurrent: "+
		"random control calls of several goroutines; the list must be a path of the lifecycle whose numbers of Running, Idle, Initializing and "+
		"Finished are those of the calls that succeeded. Bursts: hundreds of Pause and Play, each about when the previous notification ends. A case is non trivial with 3 notifications or more, and distinct by notifier, kind and list")
	var modes = []string{"record", "slow", "blocked", "reentrant", "controlling"}
	for m := range modes {
		var mode = modes[m]
		if mode == "controlling" {
			continue
		}
		h.Cases("seq-"+mode, h.N(3000, 40000), func(c *Case) {
			var kind = lcKind(c.intn(int(lcKinds)))
			var ops = c.randOps(lcOps, c.between(3, 25))
			if c.flip() {
				ops = c.randOps("IPPUSXF", c.between(3, 12))
			}
			c.Bubble(func() {
				var w *lcWorld
				var in atomic.Int32
				var release = make(chan bool)
				var notifier = func(oc core.OnlineClust, s core.OCStatus) {
					if in.Add(1) != 1 {
						c.Errorf("two notifications at the same time")
					}
					defer in.Add(-1)
					w.notes.notify(oc, s)
					switch mode {
					case "slow":
						time.Sleep(7 * time.Millisecond)
					case "blocked":
						<-release
					case "reentrant":
						_ = oc.Status()
						_ = oc.Centroids()
						_ = oc.RuntimeFigures()
						_ = oc.Push(1)
						_ = oc.Wait(nil, time.Nanosecond)
						_, _ = oc.Copy(oc.Conf(), oc.Space())
						_ = oc.Space()
						_ = oc.Impl()
					}
				}
				if mode == "reentrant" {
					kind = kind % lcKmeansInfinite
				}
				w = newLC(c, kind, notifier)
				w.runOps(ops)
				close(release)
				time.Sleep(time.Hour)
				synctest.Wait()
				var got = w.notes.get()
				c.Check(len(got) == len(w.want), "%d notifications, expected %d\n got %s\nwant %s", len(got), len(w.want), statusList(got), statusList(w.want))
				for i := range got {
					c.Check(sameStatus(got[i], w.want[i]), "notification %d is %s, expected %s\n got %s\nwant %s", i, sstr(got[i]), sstr(w.want[i]), statusList(got), statusList(w.want))
					c.Check(w.notes.from[i] == core.OnlineClust(w.algo), "notification %d is not about the algorithm", i)
				}
				c.Count("notifications", len(got))
				if len(got) >= 3 {
					c.Distinct(mode, kind, statusList(got))
				}
				c.Sample(fmt.Sprintf("%s %d %s: %s", mode, kind, ops, statusList(got)))
			})
		})
	}
	for m := range modes {
		var mode = modes[m]
		h.Cases("conc-"+mode, h.N(1500, 20000), func(c *Case) {
			c.what.Store("concurrent control with a " + mode + " notifier")
			var cc = concConf{endless: c.flip(), failIter: c.flip(), failInit: c.flip(), clients: c.between(2, 4), ops: c.between(2, 5), alphabet: "IPPUUSS?"}
			var in, calling atomic.Int32
			var quiet atomic.Bool
			c.Bubble(func() {
				var release = make(chan bool)
				var rg = &safeRand{}
				rg.state.Store(c.Rng.Uint64())
				cc.notifier = func(w *conc) core.StatusNotifier {
					return func(oc core.OnlineClust, s core.OCStatus) {
						if in.Add(1) != 1 {
							c.Errorf("two notifications at the same time")
						}
						defer in.Add(-1)
						w.notes.notify(oc, s)
						switch mode {
						case "slow":
							spin(rg.next(100))
						case "blocked":
							<-release
						case "reentrant":
							_ = oc.Status()
							_ = oc.Centroids()
							_ = oc.RuntimeFigures()
							_ = oc.Push(1)
							_, _ = oc.Copy(oc.Conf(), oc.Space())
						case "controlling":
							calling.Add(1)
							if !quiet.Load() {
								w.call(7, "IPUS"[rg.next(4)])
							}
							calling.Add(-1)
						}
					}
				}
				var w = newConc(c, cc)
				for ph := 0; ph < 2; ph++ {
					w.runClients(cc)
				}
				quiet.Store(true)
				for calling.Load() > 0 {
					spin(1)
				}
				w.call(9, 'S')
				close(release)
				synctest.Wait()
				var got = w.notes.get()
				c.checkPath(got)
				var last = core.OCStatus{Value: core.Created}
				if len(got) > 0 {
					last = got[len(got)-1]
				}
				c.Check(sameStatus(last, w.algo.Status()), "last notification is %s and status %s", sstr(last), sstr(w.algo.Status()))
				var n [6]int64
				var stopped, prevRun int64
				for i, s := range got {
					n[s.Value]++
					if s.Value == core.Finished && s.Error == nil {
						stopped++
					}
					if s.Value == core.Finished && s.Error != nil && got[i-1].Value != core.Initializing {
						prevRun++
					}
				}
				c.Check(n[core.Initializing] == w.probe.inits.Load(), "%d notifications of Initializing, %d initialisations", n[core.Initializing], w.probe.inits.Load())
				c.Check(n[core.Running] == w.ok['P'].Load(), "%d notifications of Running, %d successful Play\n%s", n[core.Running], w.ok['P'].Load(), w.describe())
				c.Check(n[core.Idle] == w.ok['U'].Load(), "%d notifications of Idle, %d successful Pause\n%s", n[core.Idle], w.ok['U'].Load(), w.describe())
				c.Check(stopped == w.ok['S'].Load(), "%d notifications of Finished without error, %d successful Stop\n%s", stopped, w.ok['S'].Load(), w.describe())
				for _, oc := range w.notes.from {
					c.Check(oc == core.OnlineClust(w.algo), "notification about another algorithm")
				}
				c.Count("notifications", len(got))
				c.Count("failures of runs notified", int(prevRun))
				if len(got) >= 3 {
					c.Distinct(mode, statusList(got))
				}
				c.Sample(fmt.Sprintf("%s: %s", mode, statusList(got)))
			})
		})
	}
	// long bursts of changes, each made when the previous notification is being received or just was
	h.CasesW("burst", h.N(300, 3000), 4, func(c *Case) {
		c.what.Store("burst of Pause and Play")
		var toggles = 2*c.between(100, 400) + 1
		var slow = c.intn(3)
		c.Bubble(func() {
			var rg = &safeRand{}
			rg.state.Store(c.Rng.Uint64())
			var probe = &Probe{c: c}
			probe.OnIter = func(s, i int) error { spin(rg.next(3)); return nil }
			var received atomic.Int64
			var in atomic.Int32
			var list []core.OCStatus // by the notifier only
			var conf core.CtrlConf
			conf.StatusNotifier = func(oc core.OnlineClust, s core.OCStatus) {
				if in.Add(1) != 1 {
					c.Errorf("two notifications at the same time")
				}
				list = append(list, s)
				received.Add(1)
				in.Add(-1)
				for k := rg.next(1 + 50*slow); k > 0; k-- {
					sink.Add(1)
				}
			}
			var algo = core.NewAlgo(&conf, probe, TagSpace{})
			c.Check(algo.Play() == nil, "Play refused")
			var want = []core.ClustStatus{core.Initializing, core.Ready, core.Running}
			for i := 0; i < toggles; i++ {
				if i%2 == 0 {
					c.Check(algo.Pause() == nil, "Pause refused")
					want = append(want, core.Idle)
					synctest.Wait() // nothing runs
					c.Check(received.Load() == int64(len(want)), "%d notifications received once %d changes are made and nothing runs", received.Load(), len(want))
				} else {
					c.Check(algo.Play() == nil, "Play refused")
					want = append(want, core.Running)
				}
				if rg.next(4) > 0 { // change again about when the notification arrives
					for k := 0; k < 300 && received.Load() < int64(len(want)); k++ {
						spin(1)
					}
					for k := rg.next(200); k > 0; k-- {
						sink.Add(1)
					}
				}
			}
			c.Check(algo.Stop() == nil, "Stop refused")
			want = append(want, core.Finished)
			synctest.Wait()
			c.Check(in.Load() == 0, "a notification is in progress")
			for i := range want {
				c.Check(i < len(list), "%d notifications out of %d were received", len(list), len(want))
				c.Check(list[i].Value == want[i] && list[i].Error == nil, "notification %d is %s instead of %v", i, sstr(list[i]), want[i])
			}
			c.Check(len(list) == len(want), "%d notifications for %d changes", len(list), len(want))
			c.Count("notifications in bursts", len(list))
			c.Distinct("burst", c.Index)
			c.Sample(fmt.Sprintf("burst: %d toggles, %d notifications", toggles, len(list)))
		})
	})
	// many changes while the notifier is blocked: all are received afterwards
	h.Cases("backlog", h.N(60, 600), func(c *Case) {
		c.what.Store("changes while the notifier is blocked")
		c.Bubble(func() {
			var list []core.OCStatus
			var hold = make(chan bool)
			var conf core.CtrlConf
			conf.StatusNotifier = func(oc core.OnlineClust, s core.OCStatus) {
				<-hold
				list = append(list, s)
			}
			var fail error
			var probe = &Probe{c: c}
			probe.OnIter = func(s, i int) error { time.Sleep(time.Millisecond); return fail }
			var algo = core.NewAlgo(&conf, probe, TagSpace{})
			var want []core.OCStatus
			var add = func(s core.ClustStatus, err error) { want = append(want, core.OCStatus{Value: s, Error: err}) }
			for n := []int{50, 300, 3000}[c.Index%3]; len(want) < n; {
				fail = nil
				c.Check(algo.Play() == nil, "Play refused")
				add(core.Initializing, nil)
				add(core.Ready, nil)
				add(core.Running, nil)
				for i := c.intn(30); i > 0; i-- {
					c.Check(algo.Pause() == nil, "Pause refused")
					add(core.Idle, nil)
					c.Check(algo.Play() == nil, "Play refused")
					add(core.Running, nil)
				}
				if c.pick(.3) {
					c.Check(algo.Pause() == nil, "Pause refused")
					add(core.Idle, nil)
				}
				if c.flip() && algo.Status().Value == core.Running {
					time.Sleep(2 * time.Millisecond)
					fail = fmt.Errorf("failure %d", len(want))
					synctest.Wait()
					time.Sleep(2 * time.Millisecond)
					synctest.Wait()
					c.Check(algo.Status().Error == fail, "status %s after a failure", sstr(algo.Status()))
					add(core.Finished, fail)
				} else {
					c.Check(algo.Stop() == nil, "Stop refused")
					add(core.Finished, nil)
				}
			}
			synctest.Wait()
			c.Check(len(list) == 0, "a notification was made while another one was in progress")
			close(hold)
			synctest.Wait()
			for i := range want {
				c.Check(i < len(list), "%d notifications out of %d were received", len(list), len(want))
				c.Check(list[i] == want[i], "notification %d is %s instead of %s", i, sstr(list[i]), sstr(want[i]))
			}
			c.Check(len(list) == len(want), "%d notifications for %d changes", len(list), len(want))
			c.Count("notifications in backlogs", len(list))
			c.Distinct("backlog", c.Index)
			c.Sample(fmt.Sprintf("backlog of %d notifications", len(list)))
		})
	})
	h.Require("notifications in backlogs", 20000)
	h.Require("notifications", 20000)
	h.Require("notifications in bursts", 20000)
}
