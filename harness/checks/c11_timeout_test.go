package checks

import (
	"fmt"
	"math"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
)

func TestC11(t *testing.T) {
	var h = newH(t, "C11", "in virtual time: random plays, pauses, resumptions, ends, stops and waits at random instants of algorithms with a Timeout, compared with the exact instant at which "+
		"each run must be interrupted; waits with durations; in real time: many short runs with tiny timeouts, each interruption being at least the Timeout after its own start. "+
		"Non trivial: at least one run; distinct by the sequence of events")
	h.Cases("virtual", h.N(6000, 100000), timeoutCase)
	h.Cases("wait", h.N(3000, 40000), waitCase)
	h.CasesW("real", h.N(300, 4000), 6, realTimeoutCase)
	h.Require("runs interrupted", 1000)
	h.Require("runs ended before their timeout", 500)
	h.Require("waits timed out", 500)
	h.Require("runs started by pushed data", 300)
}

// one run at a time in virtual time
func timeoutCase(c *Case) {
	c.Bubble(func() {
		var T = time.Duration(c.between(20, 2000)) * time.Millisecond
		var d = time.Duration(c.between(1, 5000)) * time.Microsecond // iteration
		d = max(d, T/5000)
		var gate = &Gate{}
		var ctrl = core.CtrlConf{Timeout: T, Finishing: gate}
		if c.flip() {
			ctrl.DataPerIter = c.between(1, 2)
		}
		var notes Notes
		ctrl.StatusNotifier = notes.notify
		var algo *core.Algo
		var iters func() int64
		if c.pick(.7) {
			var p = &Probe{c: c}
			p.OnIter = func(int, int) error { time.Sleep(d); return nil }
			algo = core.NewAlgo(&ctrl, p, TagSpace{})
			iters = p.iters.Load
		} else {
			algo = kmeans.NewAlgo(kmeans.Conf{CtrlConf: ctrl, K: 1, FrameSize: 2}, &sleepSpace{euclid.Space{}, d / 2}, c.points(2, 1), kmeans.GivenInitializer)
			iters = func() int64 { return int64(algo.RuntimeFigures()[core.Iterations]) }
		}
		const eps = 10 * time.Microsecond
		var t0 = time.Now()
		var deadlines []time.Time // of all runs
		// keep calls apart from the instants when a timeout fires: their order would not be determined
		var avoid = func() {
			for again := true; again; {
				again = false
				for _, x := range deadlines {
					var now = time.Now()
					if now.After(x.Add(-3*d-eps)) && now.Before(x.Add(3*d+eps)) {
						time.Sleep(x.Add(4*d + eps).Sub(now))
						again = true
					}
				}
			}
		}
		var log []string
		var status = core.Created
		var current time.Time // deadline of the current run
		var timedOut, ended = 0, 0
		var note = func(f string, a ...interface{}) {
			log = append(log, fmt.Sprintf(f, a...))
			c.Tracef("%v "+f, append([]interface{}{time.Since(t0)}, a...)...)
		}
		note("timeout %v iteration %v", T, d)
		// bring the reference to the present
		var sync = func(what string) {
			if (status == core.Running || status == core.Idle) && time.Now().After(current) {
				status = core.Finished
				timedOut++
				var got = algo.Status()
				c.Check(sameStatus(got, core.NewOCStatusError(core.ErrTimeout)), "%v after the timeout the run is %s (%s)", time.Since(current), sstr(got), what)
				var n = iters()
				var x = time.Now()
				time.Sleep(5 * d)
				c.Check(n == iters(), "iterations after the timeout, at %v", x.Sub(current))
				note("timed out")
			}
			var got = algo.Status()
			if status == core.Finished {
				c.Check(got.Value == core.Finished, "status %s, expected finished (%s)", sstr(got), what)
			} else {
				c.Check(got.Value == status && got.Error == nil, "status %s, expected %v, %v before the timeout (%s)", sstr(got), status, current.Sub(time.Now()), what)
			}
		}
		for n := c.between(3, 14); n > 0; n-- {
			avoid()
			sync("before a call")
			switch op := c.intn(9); {
			case op <= 2: // play
				var err = algo.Play()
				switch status {
				case core.Running:
					c.Check(err == core.ErrRunning, "Play: %v", err)
				case core.Idle:
					c.Check(err == nil, "Play: %v", err)
					status = core.Running
					note("resume")
				default:
					c.Check(err == nil, "Play: %v", err)
					current = time.Now().Add(T)
					deadlines = append(deadlines, current)
					status = core.Running
					note("play")
					c.Count("runs", 1)
				}
			case op == 3 && status == core.Running:
				c.Check(algo.Pause() == nil, "Pause refused")
				status = core.Idle
				note("pause")
			case op == 4 && status == core.Running: // natural end
				gate.open.Store(true)
				time.Sleep(2*d + eps)
				synctest.Wait()
				gate.open.Store(false)
				status = core.Ready
				ended++
				note("end")
			case op == 5 && status != core.Created && status != core.Finished:
				c.Check(algo.Stop() == nil, "Stop refused")
				status = core.Finished
				ended++
				note("stop")
			case op == 6 && (status == core.Created || status == core.Finished):
				c.Check(algo.Init() == nil, "Init refused")
				status = core.Ready
				note("init")
			case op >= 7: // observations may start a run
				for k := c.between(1, 4); k > 0; k-- {
					c.Check(algo.Push(c.points(1, 1)[0]) == nil, "push refused")
					if status == core.Ready && algo.Status().Value == core.Running {
						current = time.Now().Add(T)
						deadlines = append(deadlines, current)
						status = core.Running
						note("started by a push")
						c.Count("runs", 1)
						c.Count("runs started by pushed data", 1)
					}
				}
				note("pushes")
			}
			// wait: for a random time, until just before or just after the deadline
			var mode = c.intn(4)
			if current.IsZero() {
				mode = 0
			}
			switch mode {
			case 0:
				time.Sleep(time.Duration(c.Rng.Float64() * float64(T)))
			case 1:
				time.Sleep(time.Duration(c.Rng.Float64() * 2 * float64(T)))
			case 2:
				if x := current.Sub(time.Now()) - eps; x > 0 {
					time.Sleep(x)
					synctest.Wait()
					if status == core.Running || status == core.Idle {
						var got = algo.Status()
						c.Check(got.Value == status, "%s %v before the timeout", sstr(got), current.Sub(time.Now()))
					}
				}
			case 3:
				if x := current.Sub(time.Now()); x > 0 {
					time.Sleep(x + d + eps)
				}
			}
			for i, x := range deadlines { // not during the iteration that the timeout interrupts
				if now := time.Now(); i == len(deadlines)-1 && !now.Before(x) && now.Before(x.Add(d+eps)) {
					time.Sleep(d + eps)
				}
			}
			synctest.Wait()
			sync("after waiting")
		}
		avoid()
		sync("end")
		if algo.Status().Alive() {
			c.Check(algo.Stop() == nil, "Stop refused")
			status = core.Finished
		}
		var fin = algo.Status()
		time.Sleep(10 * T) // old timeouts
		synctest.Wait()
		c.Check(sameStatus(fin, algo.Status()), "a stopped algorithm becomes %s", sstr(algo.Status()))
		var n = 0
		for _, s := range notes.get() {
			if s.Error == core.ErrTimeout {
				n++
			}
		}
		c.Check(n == timedOut, "%d interruptions notified, expected %d: %s", n, timedOut, statusList(notes.get()))
		c.checkPath(notes.get())
		c.Count("runs interrupted", timedOut)
		c.Count("runs ended before their timeout", ended)
		if len(deadlines) > 0 {
			c.Distinct(strings.Join(log, " "))
		}
		c.Sample(strings.Join(log, ", "))
	})
}

func waitCase(c *Case) {
	c.Bubble(func() {
		var D = time.Duration(c.between(1, 5000)) * time.Millisecond
		var gate = &Gate{}
		var ctrl = core.CtrlConf{Finishing: gate}
		var p = &Probe{c: c}
		p.OnIter = func(int, int) error { time.Sleep(time.Millisecond); return nil }
		var interrupted = c.pick(.2)
		if interrupted {
			ctrl.Timeout = D + 2*time.Second
		} else if c.pick(.2) { // not reached
			ctrl.Timeout = []time.Duration{time.Hour, 400 * 24 * time.Hour, 250 * 365 * 24 * time.Hour, math.MaxInt64 - 1, math.MaxInt64}[c.intn(5)]
		}
		var algo = core.NewAlgo(&ctrl, p, TagSpace{})
		c.Check(algo.Play() == nil, "Play refused")
		var t0 = time.Now()
		var custom core.Finishing
		var flag = &Gate{}
		var slow time.Duration // duration of an evaluation of the condition
		if c.flip() {
			custom = flag
			if c.flip() {
				slow = time.Duration(c.between(1, 150000)) * time.Microsecond
				custom = FuncFinishing(func(m core.OCModel) bool {
					time.Sleep(slow)
					return flag.IsFinished(m)
				})
			}
		}
		switch mode := c.intn(3); mode {
		case 0: // the duration elapses
			var err = algo.Wait(custom, D)
			var e = time.Since(t0)
			c.Check(err == core.ErrTimeout, "Wait for %v returned %v after %v", D, err, e)
			c.Check(e >= D && e <= D+slow+time.Second, "Wait for %v timed out after %v", D, e)
			c.Check(algo.Status().Value == core.Running, "Wait timed out and the algorithm is %s", sstr(algo.Status()))
			var n = p.iters.Load()
			time.Sleep(20 * time.Millisecond)
			c.Check(p.iters.Load() > n, "no iteration after a Wait that timed out")
			c.Count("waits timed out", 1)
			c.Distinct("timeout", D, slow)
		case 1: // the condition is met long before
			var at = time.Duration(c.Rng.Float64() * float64(D))
			go func() {
				time.Sleep(at)
				gate.open.Store(true)
				flag.open.Store(true)
			}()
			var max = D + 200*time.Millisecond + 2*slow
			if c.pick(.4) { // very long
				max = []time.Duration{time.Hour, 400 * 24 * time.Hour, 250 * 365 * 24 * time.Hour, math.MaxInt64 - 1, math.MaxInt64}[c.intn(5)]
			}
			var err = algo.Wait(custom, max)
			var e = time.Since(t0)
			c.Check(err == nil, "Wait for %v returned %v though its condition was met after %v", max, err, at)
			c.Check(e >= at && e <= at+slow+time.Second, "Wait whose condition was met after %v returned after %v", at, e)
			c.Count("waits satisfied", 1)
			c.Distinct("met", D, at)
		case 2: // no duration, the run is interrupted or stopped
			if interrupted {
				var err = algo.Wait(nil, 0)
				c.Check(err == core.ErrTimeout, "Wait of a run that times out returned %v", err)
				c.Check(algo.Status().Value == core.Finished, "run timed out but %s", sstr(algo.Status()))
				c.Check(time.Since(t0) >= ctrl.Timeout, "run timed out after %v instead of %v", time.Since(t0), ctrl.Timeout)
				c.Count("runs interrupted", 1)
			} else {
				go func() {
					time.Sleep(D)
					_ = algo.Stop()
				}()
				var err = algo.Wait(nil, 0)
				c.Check(err == nil && algo.Status().Value == core.Finished, "Wait of a stopped run returned %v, %s", err, sstr(algo.Status()))
			}
			c.Distinct("other", D, interrupted)
		}
		if algo.Status().Alive() {
			_ = algo.Stop()
		}
		time.Sleep(20 * time.Second)
	})
}

// real time: interruptions are never early, whatever the load
func realTimeoutCase(c *Case) {
	var T = time.Duration(c.between(200, 4000)) * time.Microsecond
	var gate = &Gate{}
	var mu sync.Mutex
	var started time.Time // before the Play of the current run
	var run, interrupted, early atomic.Int64
	var p = &Probe{c: c}
	p.OnIter = func(int, int) error { spin(1); return nil }
	var ctrl = core.CtrlConf{Timeout: T, Finishing: gate}
	ctrl.StatusNotifier = func(oc core.OnlineClust, s core.OCStatus) {}
	var algo = core.NewAlgo(&ctrl, p, TagSpace{})
	for i := 0; i < 20; i++ {
		mu.Lock()
		started = time.Now()
		mu.Unlock()
		run.Add(1)
		gate.open.Store(false)
		if err := algo.Play(); err != nil {
			c.Failf("Play returned %v", err)
		}
		// let it run for a while, around the timeout
		var end = started.Add(time.Duration(c.Rng.Float64() * 1.3 * float64(T)))
		for time.Now().Before(end) {
			if c.pick(.002) {
				if algo.Pause() == nil {
					spin(c.intn(100))
					_ = algo.Play() // resumes, or starts a new run if the timeout came
				}
				break
			}
			spin(10)
		}
		var s = algo.Status()
		var elapsed = time.Since(started)
		if s.Error == core.ErrTimeout {
			interrupted.Add(1)
			if elapsed < T {
				early.Add(1)
				c.Failf("run %d is interrupted %v after its start, timeout %v", i, elapsed, T)
			}
		} else if s.Error != nil {
			c.Failf("status %s", sstr(s))
		}
		switch c.intn(3) {
		case 0:
			_ = algo.Stop()
		case 1:
			gate.open.Store(true)
			for k := 0; algo.Status().Value == core.Running; k++ {
				spin(1)
			}
			if algo.Status().Value == core.Idle {
				_ = algo.Stop()
			}
		case 2: // wait for the timeout
			if c.pick(.8) { // a Wait lasts 100 ms
				for algo.Status().Value == core.Running {
					spin(1)
				}
			} else if err := algo.Wait(nil, 0); err != nil && err != core.ErrTimeout && err != core.ErrIdle {
				c.Failf("Wait returned %v", err)
			}
		}
		if algo.Status().Value == core.Idle || algo.Status().Value == core.Running {
			_ = algo.Stop()
		}
		if s := algo.Status(); s.Error == core.ErrTimeout {
			if e := time.Since(started); e < T {
				c.Failf("run %d is interrupted %v after its start, timeout %v", i, e, T)
			}
		}
	}
	if algo.Status().Alive() {
		_ = algo.Stop()
	}
	c.Count("real time runs", int(run.Load()))
	c.Count("real time interruptions", int(interrupted.Load()))
	c.Distinct("real", T, interrupted.Load())
}
