package checks

import (
	"errors"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/kmeans"
)

func countRunning(n *Notes) (k int) {
	for _, s := range n.get() {
		if s.Value == core.Running {
			k++
		}
	}
	return
}

// sequential, virtual time, exact
func autoModel(c *Case) {
	c.Bubble(func() {
		var n = []int{0, 1, 1, 2, 3, 5, 9}[c.intn(7)]
		var gate = &Gate{}
		var notes Notes
		var refuse bool
		var p = &Probe{c: c}
		p.OnIter = func(int, int) error { time.Sleep(time.Millisecond); return nil }
		p.OnPush = func(core.Elemt, core.OCModel) error {
			if refuse {
				return errors.New("refused")
			}
			return nil
		}
		var ctrl = core.CtrlConf{DataPerIter: n, Finishing: gate, StatusNotifier: notes.notify}
		var iterations = func() int { return int(p.iters.Load()) }
		var algo *core.Algo
		var elem core.Elemt = 1
		var canRefuse = true
		var kind = c.intn(3)
		switch kind {
		case 0:
			algo = core.NewAlgo(&ctrl, p, TagSpace{})
		case 1: // runs may be complete at once
			ctrl.Iter, ctrl.IterPerData = c.intn(3), c.intn(2)
			algo = core.NewAlgo(&ctrl, p, TagSpace{})
		case 2:
			var its atomic.Int64
			canRefuse = false
			elem = Bag{[]int{1}}
			var space = BagSpace{c: c, onDist: func(a, b Bag) { its.Add(1); time.Sleep(time.Millisecond) }}
			algo = kmeans.NewAlgo(kmeans.Conf{CtrlConf: ctrl, K: 1, RGen: c.gen()}, space, []core.Elemt{elem}, kmeans.GivenInitializer)
			iterations = func() int { return int(its.Load()) }
		}
		var cnt, starts int
		var sig strings.Builder
		for i := c.between(15, 60); i > 0; i-- {
			synctest.Wait()
			var st = algo.Status()
			var runs = countRunning(&notes)
			switch op := c.intn(16); {
			case op < 9:
				refuse = canRefuse && c.pick(.2)
				gate.open.Store(c.pick(.3))
				var open = gate.open.Load()
				if st.Value == core.Running {
					gate.open.Store(false)
					open = false
				}
				var its = iterations()
				var err = algo.Push(elem)
				synctest.Wait()
				c.Check((err != nil) == refuse, "push returned %v", err)
				var started = countRunning(&notes) > runs
				c.Check(countRunning(&notes) <= runs+1, "a push started %d runs", countRunning(&notes)-runs)
				if err == nil {
					cnt++
				}
				var state = fmt.Sprintf("DataPerIter %d, %d accepted since the last automatic start, status %s", n, cnt, sstr(st))
				if started {
					c.Check(err == nil, "a refused push starts a run (%s)", state)
					c.Check(n > 0, "a push starts a run (%s)", state)
					c.Check(st.Value == core.Ready, "a push starts a run (%s)", state)
					c.Check(cnt >= n, "a push starts a run (%s)", state)
					cnt = 0
					starts++
					sig.WriteByte('*')
				} else {
					c.Check(!(err == nil && n > 0 && st.Value == core.Ready && cnt > n), "a push does not start a run (%s)", state)
					c.Check(st.Value == core.Running || iterations() == its, "iterations without start (%s)", state)
					c.Check(st.Value == core.Running || algo.Status() == st, "a push changed the status to %s (%s)", sstr(algo.Status()), state)
					sig.WriteByte('+')
				}
				if open && !refuse && started {
					c.Count("automatic runs that end at once", 1)
				}
				c.Eval(1)
				c.Seen("status at push", n, st.Value, cnt, started)
				c.Tracef("push %v: %s started %v", err, state, started)
			case op < 11:
				_ = algo.Init()
				sig.WriteByte('I')
			case op < 12:
				gate.open.Store(false)
				_ = algo.Play()
				sig.WriteByte('P')
			case op < 13:
				_ = algo.Pause()
				sig.WriteByte('U')
			case op < 14:
				_ = algo.Stop()
				sig.WriteByte('S')
			default:
				gate.open.Store(true)
				time.Sleep(50 * time.Millisecond)
				sig.WriteByte('F')
			}
			c.Tracef("%s", sstr(algo.Status()))
		}
		gate.open.Store(false)
		_ = algo.Stop()
		synctest.Wait()
		c.Count("automatic starts", starts)
		c.Distinct(kind, n, sig.String())
		c.Sample(fmt.Sprintf("kind %d DataPerIter %d: %s (*: start)", kind, n, sig.String()))
	})
}

// concurrent pushes to a ready algorithm
func autoConcurrent(c *Case) {
	c.Bubble(func() {
		var n = c.between(1, 6)
		var pushers, each = c.between(2, 5), c.between(1, 4)
		var notes Notes
		var p = &Probe{c: c}
		var quick = c.pick(.4)
		p.OnIter = func(int, int) error {
			if !quick {
				time.Sleep(time.Millisecond)
			}
			return nil
		}
		var ctrl = core.CtrlConf{DataPerIter: n, StatusNotifier: notes.notify}
		if quick {
			ctrl.Iter = c.between(1, 3)
		}
		var algo = core.NewAlgo(&ctrl, p, TagSpace{})
		c.Check(algo.Init() == nil, "not initialised")
		var rg = &safeRand{}
		rg.state.Store(c.Rng.Uint64())
		var wg sync.WaitGroup
		for i := 0; i < pushers; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < each; k++ {
					spin(rg.next(6))
					_ = algo.Push(k)
				}
			}()
		}
		wg.Wait()
		synctest.Wait()
		var total = pushers * each
		var starts = countRunning(&notes)
		var st = algo.Status()
		c.Check(starts*n <= total, "%d runs started by %d pushes, DataPerIter %d", starts, total, n)
		c.Check(total <= n || starts >= 1, "%d concurrent pushes to a ready algorithm did not start it, DataPerIter %d", total, n)
		if !quick {
			c.Check(starts <= 1, "%d runs started", starts)
			c.Check(starts == 0 || st.Value == core.Running, "status %s after the start", sstr(st))
		}
		var list = notes.get()
		for i := range list { // one run at a time
			if list[i].Value == core.Running && i > 0 {
				c.Check(list[i-1].Value == core.Ready, "notifications %s", statusList(list))
			}
		}
		if st.Value == core.Ready && !quick { // fewer: one by one until it starts
			for k := total; k <= n && algo.Status().Value == core.Ready; k++ {
				_ = algo.Push(k)
			}
			synctest.Wait()
			c.Check(algo.Status().Value == core.Running, "more than %d pushes did not start the algorithm", n)
			starts++
		}
		_ = algo.Stop()
		c.Count("concurrent automatic starts", starts)
		c.Distinct("concurrent", n, pushers, each, quick, starts)
		synctest.Wait()
	})
}

// pushes never start an algorithm that another goroutine has stopped or paused
func autoVersusControl(c *Case) {
	var n = c.between(1, 3)
	var p = &Probe{c: c}
	var ctrl = core.CtrlConf{DataPerIter: n}
	if c.pick(.7) {
		ctrl.Iter, ctrl.IterPerData = c.between(0, 3), 1
	}
	var algo = core.NewAlgo(&ctrl, p, TagSpace{})
	var stop atomic.Bool
	var pushed atomic.Int64
	var wg sync.WaitGroup
	var rg = &safeRand{}
	rg.state.Store(c.Rng.Uint64())
	for i := 0; i < 3; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !stop.Load() {
				_ = algo.Push(1)
				pushed.Add(1)
				spin(rg.next(4))
			}
		}()
	}
	defer wg.Wait()
	defer stop.Store(true)
	var wait = func() { // some complete pushes
		for from := pushed.Load(); pushed.Load() < from+8; {
			spin(1)
		}
	}
	wait()
	c.Check(algo.Status().Value == core.Created && p.inits.Load() == 0 && p.iters.Load() == 0, "pushes changed a created algorithm: %s", sstr(algo.Status()))
	for i := 0; i < 20; i++ {
		if i == 0 || c.flip() {
			_ = algo.Init()
		} else {
			_ = algo.Play()
		}
		spin(c.intn(60))
		var want core.ClustStatus
		if c.flip() {
			if algo.Pause() != nil {
				continue
			}
			want = core.Idle
		} else {
			if algo.Stop() != nil {
				continue
			}
			want = core.Finished
		}
		var its, inits = p.iters.Load(), p.inits.Load()
		wait()
		c.Check(algo.Status().Value == want && algo.Status().Error == nil, "pushes changed the status of a %v algorithm to %s", want, sstr(algo.Status()))
		c.Check(p.iters.Load() == its && p.inits.Load() == inits, "%d iterations and %d initialisations of a %v algorithm while data are pushed", p.iters.Load()-its, p.inits.Load()-inits, want)
		c.Count(fmt.Sprintf("%v while pushing", want), 1)
	}
	c.Count("concurrent pushes", int(pushed.Load()))
	c.Distinct("control", c.Index, p.iters.Load())
	_ = algo.Stop()
}

// autoLarge: many observations between automatic starts
func autoLarge(c *Case) {
	c.Bubble(func() {
		var n = c.between(10, 1<<c.between(4, 12))
		if c.pick(.05) {
			n = c.between(30000, 70000)
		}
		var notes Notes
		var p = &Probe{c: c}
		var ctrl = core.CtrlConf{DataPerIter: n, Iter: 1, StatusNotifier: notes.notify}
		var algo = core.NewAlgo(&ctrl, p, TagSpace{})
		var before = c.between(0, n) // before the initialisation
		for i := 0; i < before; i++ {
			c.Check(algo.Push(i) == nil, "push refused")
		}
		c.Check(algo.Init() == nil, "Init refused")
		var cnt = before
		for round := c.between(1, 3); round > 0; round-- {
			synctest.Wait()
			var runs = countRunning(&notes)
			for ; cnt < n-1; cnt++ {
				c.Check(algo.Push(cnt) == nil, "push refused")
			}
			synctest.Wait()
			c.Check(countRunning(&notes) == runs, "DataPerIter %d, %d accepted: a run has started", n, cnt)
			for ; cnt < n+1 && countRunning(&notes) == runs; cnt++ {
				c.Check(algo.Push(cnt) == nil, "push refused")
				synctest.Wait()
			}
			c.Check(countRunning(&notes) == runs+1, "DataPerIter %d, %d accepted: %d runs have started", n, cnt, countRunning(&notes)-runs)
			cnt = 0
			if c.pick(.3) { // a run on demand in between
				_ = algo.Play()
				synctest.Wait()
			}
			c.Count("large automatic starts", 1)
		}
		_ = algo.Stop()
		c.Distinct("large", n, before)
	})
}

func TestC12(t *testing.T) {
	var h = newH(t, "C12", "random sequences of pushes (accepted or refused), control operations and ends in virtual time, each push being judged from the number of pushes accepted "+
		"since the last automatic start and the status; concurrent pushes to a ready algorithm; pushes hammering an algorithm while it is stopped and paused. "+
		"Non trivial: at least one push; distinct by sequence and starts", "exactly DataPerIter observations: either start or not is accepted")
	h.Cases("model", h.N(6000, 100000), autoModel)
	h.Cases("concurrent", h.N(4000, 60000), autoConcurrent)
	h.Cases("large", h.N(60, 1500), autoLarge)
	h.CasesW("control", h.N(500, 6000), 8, autoVersusControl)
	h.Require("automatic starts", 3000)
	h.Require("concurrent automatic starts", 2000)
	h.Require("Idle while pushing", 500)
	h.Require("Finished while pushing", 500)
}
