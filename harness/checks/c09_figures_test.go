package checks

import (
	"errors"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/wearelumenai/distclus/core"
)

// figures against their model, sequential, virtual time
func figuresModel(c *Case) {
	c.Bubble(func() {
		var p = &Probe{c: c, Figures: c.flip()}
		var gate = &Gate{}
		var cost time.Duration
		var failIter, failInit, refuse bool
		var produce = []float64{1, .5, .05}[c.intn(3)]
		var rg = &safeRand{}
		rg.state.Store(c.Rng.Uint64())
		var nextCost = func() time.Duration { return time.Duration(rg.next(3000)) * time.Microsecond }
		p.OnInit = func(int) error {
			time.Sleep(time.Millisecond)
			if failInit {
				return errors.New("init")
			}
			return nil
		}
		p.OnIter = func(int, int) error {
			cost = nextCost() + time.Microsecond
			time.Sleep(cost)
			if failIter {
				failIter = false
				return errors.New("iter")
			}
			return nil
		}
		p.Produce = func(int, int) bool { return float64(rg.next(1000)) < 1000*produce }
		p.OnPush = func(core.Elemt, core.OCModel) error {
			if refuse {
				return errors.New("refused")
			}
			return nil
		}
		var ctrl = core.CtrlConf{Finishing: gate}
		if c.flip() {
			ctrl.DataPerIter = c.between(1, 6)
		}
		if c.pick(.3) {
			ctrl.IterFreq = 200
		}
		// time of the runs of the session, without pauses and with them
		var active, total time.Duration
		var prev core.ClustStatus
		var started, entered time.Time
		ctrl.StatusNotifier = func(_ core.OnlineClust, s core.OCStatus) {
			var now = time.Now()
			if prev == core.Running {
				active += now.Sub(entered)
			}
			switch {
			case s.Value == core.Initializing:
				active, total = 0, 0
			case s.Value == core.Running && prev == core.Ready:
				started = now
			case prev == core.Running && s.Value != core.Idle, prev == core.Idle && s.Value != core.Running:
				total += now.Sub(started)
			}
			prev, entered = s.Value, now
		}
		var algo = core.NewAlgo(&ctrl, p, TagSpace{})
		var pushed, sess int
		var lastData int64
		var begin = time.Now()
		var lastDur float64
		var last core.RuntimeFigures
		var sig strings.Builder
		var verify = func(op string) {
			var rf = algo.RuntimeFigures()
			var iters = 0
			if p.session == sess {
				iters = p.iter
			}
			c.Tracef("%s: %v, status %s", op, rf, sstr(algo.Status()))
			c.Check(rf[core.PushedData] == float64(pushed), "%s: pushedData is %v, %d accepted", op, rf[core.PushedData], pushed)
			c.Check(rf[core.Iterations] == float64(iters), "%s: iterations is %v, %d iterations produced centroids", op, rf[core.Iterations], iters)
			var d = rf[core.Duration]
			c.Check(d >= lastDur, "%s: duration went from %v to %v", op, lastDur, d)
			c.Check(d <= float64(time.Since(begin)), "%s: duration is %v, %v elapsed since the beginning of the session", op, time.Duration(d), time.Since(begin))
			if pushed > 0 {
				c.Check(rf[core.LastDataTime] == float64(lastData), "%s: lastDataTime is %v, last accepted push at %d", op, rf[core.LastDataTime], lastData)
			} else {
				c.Check(rf[core.LastDataTime] == 0, "%s: lastDataTime is %v, no push was accepted in this session", op, rf[core.LastDataTime])
			}
			if p.Figures && iters > 0 {
				c.Check(rf["tag"] == float64(iters), "%s: figures of iteration %v after iteration %d", op, rf["tag"], iters)
				var stale = p.stale(rf, iters)
				c.Check(stale == "", "%s: %s", op, stale)
			}
			if iters == 0 {
				var _, ok = rf["tag"]
				c.Check(!ok, "%s: figures of an iteration before the first one: %v", op, rf)
			}
			if v := algo.Status().Value; v == core.Ready || v == core.Finished {
				c.Check(d >= float64(active), "%s: duration is %v when the runs are over, they lasted %v", op, time.Duration(d), active)
				c.Check(d <= float64(total), "%s: duration is %v when the runs are over, they lasted %v", op, time.Duration(d), total)
				if total > 0 {
					c.Count("durations of runs that are over", 1)
				}
			}
			lastDur, last = d, rf
			c.Eval(1)
		}
		var reset = func() { // the algorithm is initialised
			if algo.Status().Value == core.Finished {
				pushed, lastDur = 0, 0
				sess = p.session + 1
				begin = time.Now()
			} else if algo.Status().Value == core.Created {
				sess = p.session + 1
				begin = time.Now().Add(-time.Hour) // nothing was measured before
			}
		}
		for i := c.between(10, 50); i > 0; i-- {
			synctest.Wait()
			gate.open.Store(false)
			var op = ""
			switch c.intn(11) {
			case 0, 1, 2, 3:
				refuse = c.pick(.3)
				var auto = algo.Status().Value
				var err = algo.Push(i)
				c.Check((err != nil) == refuse, "push returned %v", err)
				if err == nil {
					pushed++
					lastData = time.Now().Unix()
				}
				op = fmt.Sprintf("Push accepted %v in %v", err == nil, auto)
			case 4:
				failInit = c.pick(.1)
				op = "Init"
				reset()
				_ = algo.Init()
			case 5, 6:
				failInit = c.pick(.1)
				op = "Play"
				reset()
				_ = algo.Play()
			case 7:
				op = "Pause"
				_ = algo.Pause()
			case 8:
				op = "Stop"
				if c.flip() {
					_ = algo.Stop()
				} else {
					failIter = algo.Status().Value == core.Running
				}
			case 9:
				op = "end"
				gate.open.Store(true)
				time.Sleep(20 * time.Millisecond)
			case 10:
				op = "time"
				var d = time.Duration(c.intn(int(1500 * time.Millisecond)))
				if c.flip() || algo.Status().Value != core.Running {
					d /= 100
				}
				if algo.Status().Value != core.Running && c.pick(.3) {
					d = time.Duration(c.intn(int(100 * time.Second)))
				}
				if algo.Status().Value == core.Running {
					d = min(d, 50*time.Millisecond)
				}
				time.Sleep(d)
			}
			synctest.Wait()
			sig.WriteString(op[:1])
			verify(op)
		}
		_ = algo.Stop()
		synctest.Wait()
		verify("Stop")
		if len(last) > 3 && p.iters.Load() > 0 {
			c.Distinct(sig.String())
		}
		c.Count("sessions", p.session)
		c.Count("iterations", int(p.iters.Load()))
		c.Count("iterations without result", int(p.iters.Load()-p.done.Load()))
		c.Sample(sig.String() + fmt.Sprint(" final ", last))
	})
}

// concurrent pushes and readers
func figuresConcurrent(c *Case) {
	var rg = &safeRand{}
	rg.state.Store(c.Rng.Uint64())
	var p = &Probe{c: c, Figures: true}
	p.OnPush = func(e core.Elemt, m core.OCModel) error {
		if e.(int)%4 == 0 {
			return errors.New("refused")
		}
		return nil
	}
	p.Produce = func(int, int) bool { return rg.next(3) != 0 }
	var ctrl core.CtrlConf
	if c.flip() {
		ctrl.DataPerIter = c.between(1, 5)
	}
	if c.flip() {
		ctrl.Iter, ctrl.IterPerData = c.between(1, 30), c.between(0, 3)
	}
	var algo = core.NewAlgo(&ctrl, p, TagSpace{})
	var inv, ret atomic.Int64 // accepted pushes
	var stop atomic.Bool
	var wp, wo sync.WaitGroup
	var begin = time.Now()
	var refused atomic.Int64
	for i := 0; i < 4; i++ {
		wp.Add(1)
		go func() {
			defer wp.Done()
			c.protect(func() {
				for k := 0; k < 60; k++ {
					var x = rg.next(1000)
					if x%4 != 0 {
						inv.Add(1)
					}
					var err = algo.Push(x)
					if (err == nil) != (x%4 != 0) {
						c.Errorf("push of %d returned %v", x, err)
					}
					if err == nil {
						ret.Add(1)
					} else {
						refused.Add(1)
					}
					spin(rg.next(10))
				}
			})
		}()
	}
	for i := 0; i < 2; i++ {
		wo.Add(1)
		go func() {
			defer wo.Done()
			c.protect(func() {
				var last core.RuntimeFigures
				for n := 0; !stop.Load() || n < 10; n++ {
					var lo = ret.Load()
					var rf = algo.RuntimeFigures()
					var hi = inv.Load()
					var el = time.Since(begin)
					var pd = int64(rf[core.PushedData])
					if pd < lo || pd > hi {
						c.Errorf("pushedData %d, between %d and %d accepted", pd, lo, hi)
					}
					for _, k := range []string{core.PushedData, core.Iterations, core.Duration, core.LastDataTime} {
						var slack = 0.
						if k == core.LastDataTime {
							slack = 1 // concurrent pushes around a second have no order
						}
						if rf[k] < last[k]-slack {
							c.Errorf("%s went from %v to %v", k, last[k], rf[k])
						}
					}
					if time.Duration(rf[core.Duration]) > el {
						c.Errorf("duration %v, elapsed %v", time.Duration(rf[core.Duration]), el)
					}
					if it := rf[core.Iterations]; it > 0 && rf["tag"] != it {
						c.Errorf("figures of iteration %v with %v iterations", rf["tag"], it)
					} else if it > 0 {
						if stale := p.stale(rf, int(it)); stale != "" {
							c.Errorf("%s", stale)
						}
					}
					last = rf
					c.Count("concurrent readings", 1)
					spin(rg.next(5))
				}
			})
		}()
	}
	var sec0 = begin.Unix()
	for i := 0; i < 15; i++ {
		if c.pick(.3) {
			_ = algo.Pause()
		} else {
			_ = algo.Play()
		}
		spin(c.intn(40))
	}
	wp.Wait()
	if algo.Status().Alive() {
		_ = algo.Stop()
	}
	stop.Store(true)
	wo.Wait()
	var rf = algo.RuntimeFigures()
	c.Check(int64(rf[core.PushedData]) == ret.Load(), "pushedData %v, %d accepted", rf[core.PushedData], ret.Load())
	c.Check(int(rf[core.Iterations]) == p.iter, "iterations %v, %d produced centroids", rf[core.Iterations], p.iter)
	var lt = int64(rf[core.LastDataTime])
	c.Check(lt >= sec0-1 && lt <= time.Now().Unix(), "lastDataTime %d, pushes between %d and %d", lt, sec0, time.Now().Unix())
	c.Count("concurrent pushes", int(ret.Load()))
	c.Count("concurrent refused pushes", int(refused.Load()))
	c.Distinct("concurrent", c.Index, p.iter)
}

// figuresReset: initialised again as soon as a run is over, in real time. The figures are null until the next run.
func figuresReset(c *Case) {
	var p = &Probe{c: c, Figures: true}
	var left int
	var how int
	p.OnIter = func(int, int) error {
		if left--; left > 0 {
			return nil
		}
		if how == 0 {
			return errors.New("failure")
		}
		panic("failure")
	}
	var algo = core.NewAlgo(&core.CtrlConf{}, p, TagSpace{})
	var stop atomic.Bool
	var wg sync.WaitGroup
	for i := c.intn(3); i > 0; i-- { // readers delay the end of runs
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !stop.Load() {
				_ = algo.RuntimeFigures()
			}
		}()
	}
	for i := 0; i < 150; i++ {
		left, how = c.between(1, 4), c.intn(2)
		if i == 0 || c.flip() {
			c.Check(algo.Play() == nil, "Play refused")
		} else {
			c.Check(algo.Push(i) == nil, "push refused")
			c.Check(algo.Play() == nil, "Play refused")
		}
		for algo.Status().Value != core.Finished {
			if c.intn(50) == 0 {
				spin(1)
			}
		}
		c.Check(algo.Init() == nil, "Init refused")
		for k := 0; k < 3; k++ {
			for _, n := range []string{core.Duration, core.Iterations, core.PushedData, core.LastDataTime} {
				var v = algo.RuntimeFigures()[n]
				c.Check(v == 0, "%s is %v after an initialisation, run %d", n, v, i)
			}
			spin(1 + c.intn(10))
		}
	}
	stop.Store(true)
	wg.Wait()
	_ = algo.Stop()
	c.Count("initialisations as soon as a run is over", 150)
	c.Distinct("reset", c.Index)
}

// figuresLarge: many observations and iterations
func figuresLarge(c *Case) {
	var n, m = c.between(2, 1<<c.between(10, 17)), c.between(1, 1<<c.between(10, 17))
	if c.Index == 0 {
		n, m = 70000, 70000
	}
	var p = &Probe{c: c, Figures: true}
	var ctrl core.CtrlConf
	ctrl.Finishing = FuncFinishing(func(core.OCModel) bool { return p.iter >= m })
	var algo = core.NewAlgo(&ctrl, p, TagSpace{})
	c.limit.Store(600)
	for i := 0; i < n; i++ {
		if i == n/2 {
			c.Check(algo.Play() == nil, "Play refused")
		}
		c.Check(algo.Push(i) == nil, "push refused")
	}
	for algo.Status().Value == core.Running {
		spin(10)
	}
	var rf = algo.RuntimeFigures()
	c.Check(rf[core.PushedData] == float64(n), "%d observations pushed, pushedData %v", n, rf[core.PushedData])
	c.Check(rf[core.Iterations] == float64(m), "%d iterations, figure %v", m, rf[core.Iterations])
	if algo.Status().Alive() {
		_ = algo.Stop()
	}
	c.Max("pushes in a session", int64(n))
	c.Max("iterations in a session", int64(m))
	c.Distinct("large", n, m)
}

func TestC09(t *testing.T) {
	var h = newH(t, "C09", "random sequences of pushes (accepted or refused), control operations, ends, failures, iterations without result and time, in virtual time, the figures "+
		"being compared with their model after each operation; concurrent pushers and readers with bounds and monotony. Non trivial: at least one iteration; distinct by sequence")
	h.Cases("model", h.N(6000, 100000), figuresModel)
	h.Cases("large", h.N(20, 300), figuresLarge)
	h.CasesW("concurrent", h.N(600, 8000), 12, figuresConcurrent)
	h.CasesW("reset", h.N(300, 3000), 6, figuresReset)
	h.Require("sessions", 3000)
	h.Require("iterations without result", 100)
	h.Require("concurrent readings", 10000)
}
