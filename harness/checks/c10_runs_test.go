package checks

import (
	"errors"
	"fmt"
	"math"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
)

// ---- C10: exact number of iterations, finishing conditions, frequency

// a random finishing condition with its logical meaning
type cond struct {
	f    core.Finishing
	eval func(iter, pushed int, st core.OCStatus) bool
	text string
	iter [2]int // of a single budget
}

// near is the number of iterations at which the condition may change
func (f cond) near(p int) int { return max(1, f.iter[0]+p*f.iter[1]) }

func (c *Case) randCond(depth int) cond {
	switch c.intn(5 + 2*depth) {
	case 0, 1:
		var a, b = c.intn(12), c.intn(4)
		if depth > 1 && c.pick(.3) { // large budgets
			a, b = c.Rng.IntN(1<<c.between(1, 40)), c.Rng.IntN(1<<c.between(1, 20))
		}
		return cond{core.NewIterFinishing(a, b), func(i, p int, _ core.OCStatus) bool {
			return (a > 0 || b > 0) && i >= a+p*b
		}, fmt.Sprintf("iter(%d,%d)", a, b), [2]int{a, b}}
	case 2:
		var all = []core.ClustStatus{core.Created, core.Initializing, core.Ready, core.Running, core.Idle, core.Finished}
		c.Rng.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		var some = all[:c.intn(4)]
		var e = c.flip()
		return cond{core.NewStatusFinishing(e, some...), func(_, _ int, st core.OCStatus) bool {
			if e && st.Error != nil {
				return true
			}
			for _, s := range some {
				if s == st.Value {
					return true
				}
			}
			return false
		}, fmt.Sprintf("status(%v,%v)", e, some), [2]int{}}
	case 3:
		var n = c.intn(15)
		return cond{FuncFinishing(func(m core.OCModel) bool { return int(m.RuntimeFigures()[core.Iterations])%16 >= n }),
			func(i, _ int, _ core.OCStatus) bool { return i%16 >= n }, fmt.Sprintf("func(%d)", n), [2]int{}}
	case 4:
		var v = c.flip()
		if depth < 2 && c.pick(.3) { // no condition never holds
			return cond{nil, func(int, int, core.OCStatus) bool { return false }, "nil", [2]int{}}
		}
		return cond{FuncFinishing(func(core.OCModel) bool { return v }), func(int, int, core.OCStatus) bool { return v }, fmt.Sprint(v), [2]int{}}
	default:
		var n = c.between(1, 3)
		var subs = make([]cond, n)
		var fs = make([]core.Finishing, n)
		var and = c.flip()
		var text = map[bool]string{true: "and(", false: "or("}[and]
		for i := range subs {
			subs[i] = c.randCond(depth - 1)
			fs[i] = subs[i].f
			text += subs[i].text + " "
		}
		var eval = func(i, p int, st core.OCStatus) bool {
			for _, s := range subs {
				if s.eval(i, p, st) != and {
					return !and
				}
			}
			return and
		}
		if and {
			return cond{core.NewAndFinishing(fs...), eval, text + ")", subs[c.intn(n)].iter}
		}
		return cond{core.NewOrFinishing(fs...), eval, text + ")", subs[c.intn(n)].iter}
	}
}

func TestC10(t *testing.T) {
	var h = newH(t, "C10", "runs of mock, kmeans and mcmc algorithms with random Iter, IterPerData and nested finishing conditions, pushes, pauses, restarts and iterations without "+
		"result, in virtual time: the number of iterations of each run is compared with the first count at which the conditions hold; finishing conditions evaluated "+
		"on random models against their logical meaning; start times of iterations under IterFreq. Non trivial: at least one iteration; distinct by configuration and counts")
	h.Cases("finishing", h.N(20000, 300000), func(c *Case) {
		var f = c.randCond(2)
		for k := 0; k < 5; k++ {
			var i, p = c.intn(20), c.intn(6)
			if c.pick(.3) {
				i, p = c.Rng.IntN(1<<c.between(1, 40)), c.Rng.IntN(1<<c.between(1, 20))
				if c.flip() {
					i = f.near(p) + c.between(-1, 1)
				}
			}
			var st = core.OCStatus{Value: core.ClustStatus(c.intn(6))}
			if st.Value == core.Finished && c.flip() {
				st.Error = errors.New("x")
			}
			var m = core.NewSimpleOCModel(nil, nil, st, core.RuntimeFigures{core.Iterations: float64(i), core.PushedData: float64(p)}, nil)
			var want = f.eval(i, p, st)
			c.Check(f.f.IsFinished(m) == want && core.IsFinished(f.f, m) == want, "%s is %v for %d iterations, %d data and status %s", f.text, !want, i, p, sstr(st))
			c.Check(!core.IsFinished(nil, m), "nil condition is finished")
		}
		c.Distinct("finishing", f.text)
		c.Count("conditions evaluated", 5)
		c.Sample(f.text)
	})
	h.Cases("budget", h.N(8000, 100000), budgetCase)
	h.Cases("frequency", h.N(1500, 20000), freqCase)
	h.Require("runs", 10000)
	h.Require("runs with pushes", 1000)
	h.Require("intervals between iterations", 5000)
}

func budgetCase(c *Case) {
	c.Bubble(func() {
		var ctrl core.CtrlConf
		if c.pick(.8) {
			ctrl.Iter = c.intn(9)
		}
		if c.flip() {
			ctrl.IterPerData = c.intn(4)
		}
		var f = c.randCond(1)
		var user = c.pick(.5)
		var evals []string
		if user {
			ctrl.Finishing = f.f
		}
		var holds = func(i, p int) bool {
			if (ctrl.Iter > 0 || ctrl.IterPerData > 0) && i >= ctrl.Iter+p*ctrl.IterPerData {
				return true
			}
			return user && f.eval(i, p, core.OCStatus{Value: core.Running})
		}
		// first count, from i, at which the conditions hold
		var target = func(i, p int) (int, bool) {
			for n := 0; n < 200; n++ {
				if holds(i+n, p) {
					return i + n, true
				}
			}
			return 0, false
		}
		var algo *core.Algo
		var done func() int64 // iterations with a result
		var started func() int64
		var empty func() int64
		var plan map[int]int // observations pushed during iterations of the run
		var inRun, planned atomic.Int64
		var kind = c.intn(4)
		var sp = &sleepSpace{Space: euclid.NewSpace(), d: 100 * time.Microsecond}
		var data = c.points(6, 1)
		switch kind {
		case 0, 1:
			var p = &Probe{c: c}
			var none atomic.Int64
			p.OnIter = func(_, i int) error {
				if n := int(inRun.Add(1)) - 1; plan[n] > 0 {
					go func() {
						for j := plan[n]; j > 0; j-- {
							if algo.Push([]float64{float64(j)}) == nil {
								planned.Add(1)
							}
						}
					}()
				}
				time.Sleep(time.Millisecond)
				return nil
			}
			if kind == 1 {
				var rg = &safeRand{}
				rg.state.Store(c.Rng.Uint64())
				p.Produce = func(s, i int) bool {
					var ok = rg.next(3) > 0
					if !ok {
						none.Add(1)
					}
					return ok
				}
			}
			algo = core.NewAlgo(&ctrl, p, TagSpace{})
			started = p.iters.Load
			empty = none.Load
			done = func() int64 { return started() - empty() }
		case 2:
			algo = kmeans.NewAlgo(kmeans.Conf{CtrlConf: ctrl, K: 2, Par: c.flip(), RGen: c.gen()}, sp, data, kmeans.GivenInitializer)
		case 3:
			algo = mcmc.NewAlgo(mcmc.Conf{CtrlConf: ctrl, InitK: 2, MaxK: 3, RGen: c.gen()}, sp, data, kmeans.GivenInitializer,
				mcmc.NewMultivT(mcmc.MultivTConf{Dim: 1, RGen: c.gen()}))
		}
		var iters, pushed, total = 0, 0, 0
		var text = fmt.Sprintf("kind %d iter %d iterPerData %d %v %s:", kind, ctrl.Iter, ctrl.IterPerData, user, f.text)
		for round := c.between(2, 7); round > 0; round-- {
			for n := c.intn(3); n > 0; n-- {
				if algo.Push([]float64{float64(c.intn(9))}) == nil {
					pushed++
				}
			}
			if c.pick(.2) && algo.Status().Value == core.Ready {
				_ = algo.Stop()
			}
			var st = algo.Status().Value
			if st == core.Finished {
				iters, pushed = 0, 0
			}
			var to, ends = target(iters, pushed)
			plan = nil
			var during = 0
			if kind == 0 && ends && to > iters && c.flip() {
				var next = map[int]int{}
				for k := c.between(1, 4); k > 0; k-- {
					next[c.intn(min(to-iters+3, 20))] += c.between(1, 2)
				}
				var n = 0
				for ; n < 200 && !holds(iters+n, pushed+during); n++ {
					during += next[n]
				}
				if n < 200 {
					to, plan = iters+n, next
				} else {
					during = 0
				}
			}
			inRun.Store(0)
			planned.Store(0)
			if !ends {
				// never ends: it must be running after a while
				c.Check(algo.Play() == nil, "Play refused")
				time.Sleep(500 * time.Millisecond)
				c.Check(algo.Status().Value == core.Running, "the run ended (%s) though no condition holds; %s", sstr(algo.Status()), text)
				c.Check(algo.Stop() == nil, "Stop refused")
				continue
			}
			var before int64
			if started != nil {
				before = done()
			}
			var mode = c.intn(3)
			switch mode {
			case 0:
				c.Check(algo.Play() == nil, "Play refused")
			case 1:
				if algo.Status().Value != core.Ready {
					c.Check(algo.Init() == nil, "Init refused")
				}
				c.Check(algo.Play() == nil, "Play refused")
			case 2: // with pauses
				c.Check(algo.Play() == nil, "Play refused")
				for k := 0; k < 3; k++ {
					time.Sleep(time.Duration(c.intn(3000)) * time.Microsecond)
					if algo.Pause() != nil {
						break
					}
					var n = algo.RuntimeFigures()[core.Iterations]
					time.Sleep(100 * time.Millisecond)
					c.Check(n == algo.RuntimeFigures()[core.Iterations], "iterations while paused")
					c.Check(algo.Play() == nil, "Play refused after Pause")
				}
			}
			time.Sleep(2 * time.Second)
			synctest.Wait()
			var got = int(algo.RuntimeFigures()[core.Iterations])
			c.Check(algo.Status().Value == core.Ready, "the run is %s after its end; %s", sstr(algo.Status()), text)
			c.Check(got == to, "%d iterations after the run, expected %d (from %d, %d data, pushed during iterations %v); %s", got, to, iters, pushed, plan, text)
			if plan != nil {
				c.Check(int(planned.Load()) == during, "%d observations accepted during the run, expected %d", planned.Load(), during)
				pushed += during
				c.Count("runs with pushes", 1)
			}
			if started != nil {
				c.Check(int(done()-before) == to-iters, "%d iterations executed, expected %d; %s", done()-before, to-iters, text)
			}
			total += to - iters
			evals = append(evals, fmt.Sprintf("%d->%d", iters, to))
			iters = to
			c.Count("runs", 1)
		}
		if algo.Status().Alive() {
			_ = algo.Stop()
		}
		if total > 0 {
			c.Distinct(text, fmt.Sprint(evals))
		}
		c.Count("iterations", total)
		c.Sample(text + fmt.Sprint(evals))
	})
}

// sleepSpace makes distances last some virtual time
type sleepSpace struct {
	core.Space
	d time.Duration
}

func (s *sleepSpace) Dist(a, b core.Elemt) float64 {
	time.Sleep(s.d)
	return s.Space.Dist(a, b)
}

func freqCase(c *Case) {
	c.Bubble(func() {
		var freq = math.Pow(10, float64(c.between(-1, 3))) * (1 + c.Rng.Float64()*9)
		var period = time.Duration(float64(time.Second) / freq)
		var ctrl = core.CtrlConf{IterFreq: freq}
		var p = &Probe{c: c}
		var starts []time.Time
		var runs []int64
		var run atomic.Int64
		var produce = c.intn(3)
		p.OnIter = func(int, int) error {
			starts = append(starts, time.Now())
			runs = append(runs, run.Load())
			time.Sleep(time.Duration(c.Rng.Float64() * float64(produce) * float64(period)))
			return nil
		}
		if c.flip() {
			p.Produce = func(s, i int) bool { return len(starts)%3 != 0 }
		}
		if c.flip() {
			ctrl.Iter = c.between(2, 30)
		}
		var algo = core.NewAlgo(&ctrl, p, TagSpace{})
		for k := c.between(1, 3); k > 0; k-- {
			run.Add(1)
			c.Check(algo.Play() == nil, "Play refused")
			for j := c.intn(4); j > 0; j-- {
				time.Sleep(time.Duration(c.Rng.Float64() * 6 * float64(period)))
				if algo.Pause() != nil {
					break
				}
				if c.flip() {
					time.Sleep(time.Duration(c.Rng.Float64() * 10 * float64(period)))
				}
				c.Check(algo.Play() == nil, "Play refused")
			}
			time.Sleep(time.Duration(5 * float64(period)))
			c.Check(algo.Stop() == nil, "Stop refused")
		}
		synctest.Wait()
		var n = 0
		for i := 1; i < len(starts); i++ {
			if runs[i] == runs[i-1] {
				n++
				var d = starts[i].Sub(starts[i-1])
				c.Check(d >= period-time.Microsecond, "iterations %d and %d start %v apart with a period of %v", i-1, i, d, period)
			}
		}
		if n > 0 {
			c.Distinct("freq", freq, n)
		}
		c.Count("intervals between iterations", n)
		c.Sample(fmt.Sprintf("frequency %g: %d iterations", freq, len(starts)))
	})
}
