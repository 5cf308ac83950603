package checks

import (
	"errors"
	"fmt"
	"strings"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	"golang.org/x/exp/rand"
)

// Lifecycle machine: the reference model of the controller used by C01 and C04. Executions are in
// virtual time: an iteration takes 1 ms, and the state is compared when everything is at rest.
//
// operations:
//  I Init  P Play  U Pause  S Stop  B Batch
//  W Wait without duration (the end condition is met 350 ms later if there is one)
//  w Wait for 250 ms   V Wait for a custom condition   x Wait, the run fails  s Wait, another stops
//  F the end condition becomes true  f false  X next iteration fails  Q panics
//  Y next initialisation fails  Z panics

const lcOps = "IPUSBWwVxsFfXQYZ"
const lcCore = "IPUSBFXY"

type lcKind int

const (
	lcInfinite lcKind = iota
	lcGate
	lcIter
	lcKmeansInfinite
	lcKmeansGate
	lcKmeansIter
	lcKinds
)

func (k lcKind) infinite() bool { return k == lcInfinite || k == lcKmeansInfinite }
func (k lcKind) gate() bool     { return k == lcGate || k == lcKmeansGate }
func (k lcKind) iter() bool     { return k == lcIter || k == lcKmeansIter }

const lcBudget = 7

// a failure to inject, with or without panic
type failure struct {
	err   error
	panic bool
}

func (f *failure) raise() error {
	if f.panic {
		panic(f.err.Error())
	}
	return f.err
}

type lcWorld struct {
	c        *Case
	kind     lcKind
	algo     *core.Algo
	gate     Gate
	iterFail atomic.Pointer[failure]
	initFail atomic.Pointer[failure]
	iters    atomic.Int64
	notes    Notes
	// model
	status  core.OCStatus
	done    int // iterations of the session, kind iter
	want    []core.OCStatus
	nextErr int
	fast    bool // do not wait between operations
}

// space of the real implementation: an iteration lasts 1 ms of virtual time
type lcSpace struct {
	euclid.Space
	w *lcWorld
}

func (s lcSpace) Dist(a, b core.Elemt) float64 {
	s.w.c.beats.Add(1)
	time.Sleep(250 * time.Microsecond)
	if f := s.w.iterFail.Swap(nil); f != nil {
		panic(f.err.Error())
	}
	return s.Space.Dist(a, b)
}

func newLC(c *Case, kind lcKind, notifier core.StatusNotifier) *lcWorld {
	var w = &lcWorld{c: c, kind: kind}
	var conf core.CtrlConf
	conf.StatusNotifier = notifier
	if notifier == nil {
		conf.StatusNotifier = w.notes.notify
	}
	if kind.gate() {
		conf.Finishing = &w.gate
	}
	if kind.iter() {
		conf.Iter = lcBudget
	}
	if kind < lcKmeansInfinite {
		var p = &Probe{c: c}
		p.OnInit = func(int) error {
			if f := w.initFail.Swap(nil); f != nil {
				return f.raise()
			}
			return nil
		}
		p.OnIter = func(int, int) error {
			time.Sleep(time.Millisecond)
			if f := w.iterFail.Swap(nil); f != nil {
				return f.raise()
			}
			return nil
		}
		w.algo = core.NewAlgo(&conf, p, TagSpace{})
	} else {
		var init = func(k int, e []core.Elemt, s core.Space, r *rand.Rand) (core.Clust, error) {
			if f := w.initFail.Swap(nil); f != nil {
				return nil, f.raise()
			}
			return kmeans.GivenInitializer(k, e, s, r)
		}
		var data = []core.Elemt{[]float64{1}, []float64{2}, []float64{3}, []float64{4}}
		w.algo = kmeans.NewAlgo(kmeans.Conf{CtrlConf: conf, K: 1}, lcSpace{w: w}, data, init)
	}
	return w
}

func (w *lcWorld) to(v core.ClustStatus, err error) {
	w.status = core.OCStatus{Value: v, Error: err}
	w.want = append(w.want, w.status)
}

func (w *lcWorld) newFail(pan bool) *failure {
	w.nextErr++
	return &failure{fmt.Errorf("injected %d", w.nextErr), pan}
}

// reference init: error or nil
func (w *lcWorld) mInit() error {
	switch w.status.Value {
	case core.Created, core.Finished:
		w.to(core.Initializing, nil)
		if f := w.initFail.Load(); f != nil {
			w.to(core.Finished, f.err)
			return f.err
		}
		w.done = 0
		w.to(core.Ready, nil)
		return nil
	}
	return core.ErrAlreadyCreated
}

func (w *lcWorld) mPlay() error {
	switch w.status.Value {
	case core.Running:
		return core.ErrRunning
	case core.Created, core.Finished:
		if err := w.mInit(); err != nil {
			return err
		}
	}
	w.to(core.Running, nil)
	return nil
}

func (w *lcWorld) mStop() error {
	switch w.status.Value {
	case core.Ready, core.Running, core.Idle:
		w.to(core.Finished, nil)
		return nil
	}
	return core.ErrNotAlive
}

// reference behaviour of the run when time passes
func (w *lcWorld) mSettle() {
	if w.status.Value != core.Running {
		return
	}
	var f = w.iterFail.Load()
	switch {
	case w.kind.gate() && w.gate.open.Load(), w.kind.iter() && w.done >= lcBudget:
		w.to(core.Ready, nil)
	case f != nil:
		w.to(core.Finished, f.err)
	case w.kind.iter():
		w.done = lcBudget
		w.to(core.Ready, nil)
	}
}

// expected result of a call made while not running
func (w *lcWorld) mWaitStill() error {
	switch w.status.Value {
	case core.Idle:
		return core.ErrIdle
	case core.Ready, core.Finished:
		return nil
	}
	return core.ErrNotRunning
}

var errAny = errors.New("any error")

func (w *lcWorld) check(op string, got error, wants ...error) {
	for _, want := range wants {
		if want == errAny && got != nil || want != errAny && sameErr(got, want) {
			return
		}
	}
	w.c.Failf("%s returned %v, expected %v (status before: see trace)", op, got, wants)
}

func (w *lcWorld) later(f func()) {
	go func() {
		time.Sleep(350 * time.Millisecond)
		f()
	}()
}

func (w *lcWorld) rest() {
	time.Sleep(30 * time.Millisecond)
	synctest.Wait()
}

func (w *lcWorld) step(op byte) {
	var a = w.algo
	var running = w.status.Value == core.Running
	switch op {
	case 'I':
		var want = w.mInit()
		w.check("Init", a.Init(), want)
	case 'P':
		var want = w.mPlay()
		w.check("Play", a.Play(), want)
	case 'U':
		if running {
			w.to(core.Idle, nil)
			w.check("Pause", a.Pause(), nil)
		} else {
			w.check("Pause", a.Pause(), errAny)
		}
	case 'S':
		var want = w.mStop()
		w.check("Stop", a.Stop(), want)
	case 'B':
		_ = w.mStop()
		if err := w.mPlay(); err != nil {
			w.check("Batch", a.Batch(), err)
			break
		}
		w.mSettle()
		switch {
		case w.status.Value == core.Ready:
			w.to(core.Finished, nil)
			w.check("Batch", a.Batch(), nil)
		case w.status.Value == core.Finished && w.kind.infinite():
			w.check("Batch", a.Batch(), w.status.Error, core.ErrNeverFinish)
		case w.status.Value == core.Finished:
			w.check("Batch", a.Batch(), w.status.Error)
		case w.kind.infinite():
			w.check("Batch", a.Batch(), core.ErrNeverFinish)
		default: // gate
			w.later(func() { w.gate.open.Store(true) })
			w.to(core.Ready, nil)
			w.to(core.Finished, nil)
			w.check("Batch", a.Batch(), nil)
		}
	case 'W':
		switch {
		case !running:
			w.check("Wait", a.Wait(nil, 0), w.mWaitStill())
		case w.kind.infinite():
			w.check("Wait", a.Wait(nil, 0), core.ErrNeverFinish)
		default:
			w.later(func() { w.gate.open.Store(true) })
			w.to(core.Ready, nil)
			w.check("Wait", a.Wait(nil, 0), nil)
		}
	case 'w':
		var t0 = time.Now()
		if !running {
			w.check("Wait(nil,250ms)", a.Wait(nil, 250*time.Millisecond), w.mWaitStill())
			w.c.Check(time.Since(t0) == 0, "Wait on %s did not return at once but after %v", sstr(w.status), time.Since(t0))
		} else {
			w.check("Wait(nil,250ms)", a.Wait(nil, 250*time.Millisecond), core.ErrTimeout)
			w.c.Check(time.Since(t0) >= 250*time.Millisecond, "Wait(nil,250ms) timed out after %v", time.Since(t0))
		}
	case 'V':
		if !running {
			w.check("Wait(custom)", a.Wait(&w.gate, time.Second), w.mWaitStill())
			break
		}
		var n = a.RuntimeFigures()[core.Iterations] + 5
		w.check("Wait(custom)", a.Wait(FuncFinishing(func(m core.OCModel) bool {
			return m.RuntimeFigures()[core.Iterations] >= n
		}), 0), nil)
		w.c.Check(a.RuntimeFigures()[core.Iterations] >= n, "Wait returned before its condition")
	case 'x':
		if !running {
			break
		}
		var f = w.newFail(false)
		w.later(func() { w.iterFail.Store(f) })
		w.to(core.Finished, f.err)
		w.check("Wait of a failing run", a.Wait(nil, time.Hour), f.err)
	case 's':
		if !running {
			break
		}
		w.later(func() {
			if err := a.Stop(); err != nil {
				w.c.Errorf("Stop returned %v while running", err)
			}
		})
		w.to(core.Finished, nil)
		w.check("Wait of a stopped run", a.Wait(nil, time.Hour), nil)
	case 'F':
		w.gate.open.Store(true)
	case 'f':
		w.gate.open.Store(false)
	case 'X', 'Q':
		w.iterFail.Store(w.newFail(op == 'Q'))
	case 'Y', 'Z':
		w.initFail.Store(w.newFail(op == 'Z'))
	}
	w.mSettle()
	if !w.fast {
		w.rest()
	}
	var got = a.Status()
	w.c.Check(got.Error == nil || got.Value == core.Finished, "status %s has an error", sstr(got))
	w.c.Check(sameStatus(got, w.status), "after %c status is %s, expected %s", op, sstr(got), sstr(w.status))
	w.c.Seen("transitions of the lifecycle", w.kind, string(op), w.status.Value, w.status.Error != nil, running)
}

func (w *lcWorld) runOps(ops string) {
	w.c.Check(sameStatus(w.algo.Status(), w.status), "new algorithm is %s", sstr(w.algo.Status()))
	for i := range ops {
		w.c.Tracef("%s: %c", sstr(w.status), ops[i])
		w.step(ops[i])
	}
	w.c.Count("operations", len(ops))
	// leave nothing behind
	if w.status.Alive() {
		w.step('S')
	}
}

func seqOf(alphabet string, length, index int) string {
	var b = make([]byte, length)
	for i := range b {
		b[i] = alphabet[index%len(alphabet)]
		index /= len(alphabet)
	}
	return string(b)
}

func pow(a, b int) int {
	var r = 1
	for ; b > 0; b-- {
		r *= a
	}
	return r
}

func (c *Case) randOps(alphabet string, length int) string {
	var b = make([]byte, length)
	for i := range b {
		b[i] = alphabet[c.intn(len(alphabet))]
	}
	return string(b)
}

func TestC01(t *testing.T) {
	var h = newH(t, "C01", "sequences of control calls, end conditions and injected failures, run in virtual time against "+
		"the reference lifecycle: all sequences of a fixed length over "+lcCore+" for six kinds of algorithm (mock and kmeans; "+
		"endless, ended by a condition, ended by a number of iterations), then random longer ones over "+lcOps+
		"; a case is non trivial when it makes at least one accepted transition, and is identified by its kind and sequence",
		"iterations of the mock last 1 ms of virtual time", "Go testing/synctest")
	var length = h.N(4, 5)
	var total = pow(len(lcCore), length)
	var run = func(c *Case, kind lcKind, ops string) {
		c.Bubble(func() {
			var w = newLC(c, kind, nil)
			w.fast = strings.HasPrefix(c.Group, "fast")
			w.runOps(ops)
			if len(w.want) > 0 {
				c.Distinct(kind, ops)
			}
			c.Count("status changes", len(w.want))
			c.Sample(fmt.Sprintf("kind %d %s -> %s", kind, ops, statusList(w.want)))
		})
	}
	for k := lcInfinite; k < lcKinds; k++ {
		var k = k
		h.Cases(fmt.Sprintf("exhaustive-%d", k), total, func(c *Case) { run(c, k, seqOf(lcCore, length, c.Index)) })
		h.Cases(fmt.Sprintf("random-%d", k), h.N(400, 4000), func(c *Case) {
			run(c, k, c.randOps(lcOps, c.between(5, 40)))
		})
	}
	// without waiting between the calls: the result does not depend on the progress of an endless run
	for _, k := range []lcKind{lcInfinite, lcGate, lcKmeansInfinite} {
		var k, ops = k, "IPUSB"
		if k == lcGate {
			ops = "IPUS"
		}
		h.Cases(fmt.Sprintf("fast-%d", k), h.N(3000, 20000), func(c *Case) { run(c, k, c.randOps(ops, c.between(3, 20))) })
	}
	h.Cases("waits", h.N(4000, 60000), waitEnds)
	h.Require("status changes", 10000)
	h.Require("ends of a pending wait", 7)
	h.Require("never ending waits refused", 100)
	h.Require("transitions of the lifecycle", 100)
}

// waitEnds compares a Wait or a Batch with the first thing that ends it: every combination of end
// conditions of the configuration and of arguments
func waitEnds(c *Case) {
	c.Bubble(func() {
		const never = 100 * time.Hour
		const it = time.Millisecond // iteration
		var p = &Probe{c: c}
		var fail atomic.Pointer[failure]
		p.OnIter = func(int, int) error {
			time.Sleep(it)
			if f := fail.Swap(nil); f != nil {
				return f.raise()
			}
			return nil
		}
		// the configuration: what can end the run, and when
		var conf core.CtrlConf
		var gate = &Gate{}
		var end = time.Duration(never) // natural end of the run
		var endErr error
		var pushed = c.intn(4)
		var what = "nothing"
		if c.pick(.3) {
			conf.Finishing = gate
		}
		if c.pick(.3) {
			conf.DataPerIter = c.between(1, 5)
		}
		if c.pick(.3) {
			conf.Timeout = time.Duration(c.between(500, 1500)) * time.Millisecond
			end, endErr, what = conf.Timeout, core.ErrTimeout, "timeout"
		}
		if c.pick(.3) {
			conf.Iter = c.between(1, 2000)
		}
		if c.pick(.3) {
			conf.IterPerData = c.between(1, 500)
		}
		if conf.Iter == 0 && pushed == 0 && conf.IterPerData > 0 {
			pushed = 1 // otherwise the run may be over before the call, or not
		}
		var budget = conf.Iter + conf.IterPerData*pushed
		if conf.Iter > 0 || conf.IterPerData > 0 {
			var at = time.Duration(budget) * it
			if at > end-30*it && at < end+30*it { // keep apart the end and the timeout
				conf.Timeout *= 100
				end, endErr, what = at, nil, "iterations"
			} else if at < end {
				end, endErr, what = at, nil, "iterations"
			}
		}
		var canEnd = conf.Finishing != nil || conf.Timeout > 0 || conf.Iter > 0 || conf.IterPerData > 0
		var algo = core.NewAlgo(&conf, p, TagSpace{})
		defer func() { time.Sleep(conf.Timeout + 10*time.Second) }() // timers end
		for i := 0; i < pushed; i++ {
			c.Check(algo.Push(i) == nil, "Push refused")
		}
		// an event during the wait
		var event, eventAt = c.intn(7), time.Duration(c.between(100, 1600)) * time.Millisecond
		if eventAt > end-130*it { // before the end of the run, unless at its end
			eventAt = never
		}
		var batch = c.pick(.2)
		// the arguments
		var custom core.Finishing
		var customAt = time.Duration(never)
		var duration = time.Duration(0)
		if !batch {
			switch c.intn(3) {
			case 0:
				custom = FuncFinishing(func(core.OCModel) bool { return false })
			case 1:
				customAt = time.Duration(c.between(0, 2000)) * time.Millisecond
			}
			switch c.intn(3) {
			case 0:
				duration = time.Duration(c.between(1, 2500)) * time.Millisecond
			case 1:
				duration = -time.Second
			}
		}
		var t0 = time.Now()
		if customAt < never {
			custom = FuncFinishing(func(core.OCModel) bool { return time.Since(t0) >= customAt })
		}
		var desc = fmt.Sprintf("conf {finishing %v timeout %v iter %d iterPerData %d dataPerIter %d} pushed %d, wait custom %v at %v duration %v batch %v, event %d at %v",
			conf.Finishing != nil, conf.Timeout, conf.Iter, conf.IterPerData, conf.DataPerIter, pushed, custom != nil, customAt, duration, batch, event, eventAt)
		c.Tracef("%s", desc)
		if !batch {
			c.Check(algo.Play() == nil, "Play refused")
		}
		if custom == nil && duration <= 0 && !canEnd {
			var err error
			if batch {
				err = algo.Batch()
			} else {
				err = algo.Wait(nil, duration)
			}
			c.Check(err == core.ErrNeverFinish, "a wait that cannot end returns %v", err)
			c.Check(time.Since(t0) == 0 && algo.Status().Value == core.Running, "then after %v it is %s", time.Since(t0), sstr(algo.Status()))
			c.Count("never ending waits refused", 1)
			c.Distinct("never", conf.DataPerIter, pushed, duration, batch)
			_ = algo.Stop()
			return
		}
		// what ends it
		var at = time.Duration(never)
		var want error
		var by = "nothing"
		var first = func(t time.Duration, err error, name string) {
			if t < at {
				at, want, by = t, err, name
			}
		}
		if custom == nil {
			first(end, endErr, what)
			var apply func()
			switch event {
			case 0:
				apply = func() { _ = algo.Pause() }
				if batch {
					break
				}
				first(eventAt, nil, "pause")
			case 1:
				apply = func() { _ = algo.Stop() }
				first(eventAt, nil, "stop")
			case 2:
				var f = &failure{fmt.Errorf("injected"), c.flip()}
				apply = func() { fail.Store(f) }
				first(eventAt, f.err, "failure")
			case 3:
				apply = func() { gate.open.Store(true) }
				if conf.Finishing != nil {
					first(eventAt, nil, "condition of the run")
				}
			}
			if apply != nil && eventAt < never && !(batch && event == 0) {
				go func() { time.Sleep(eventAt); apply() }()
			}
		} else {
			first(customAt, nil, "condition of the wait")
		}
		if duration > 0 {
			if duration > at-150*it && duration < at+150*it { // keep apart
				duration = at + 300*it
			}
			first(duration, core.ErrTimeout, "duration")
		}
		if at == never {
			go func() { time.Sleep(3 * time.Second); _ = algo.Stop() }()
			if custom != nil { // nothing ends such a wait
				synctest.Wait()
				time.Sleep(4 * time.Second)
				_ = algo.Stop()
				return
			}
			first(3*time.Second, nil, "stop")
		}
		var err error
		if batch {
			err = algo.Batch()
		} else {
			err = algo.Wait(custom, duration)
		}
		var e = time.Since(t0)
		if by == "condition of the wait" && endErr != nil && end < at+200*it { // the run may have failed before
			c.Check(sameErr(err, want) || sameErr(err, endErr), "ended by %s at %v: returned %v after %v", by, at, err, e)
		} else {
			c.Check(sameErr(err, want), "ended by %s at %v: returned %v after %v, expected %v", by, at, err, e, want)
		}
		c.Check(e >= at-2*it && e <= at+time.Second, "ended by %s at %v: returned after %v", by, at, e)
		if batch {
			var s = algo.Status()
			c.Check(s.Value == core.Finished && sameErr(s.Error, want), "after a batch it is %s", sstr(s))
		}
		if what == "iterations" && by == what {
			c.Check(p.iters.Load() == int64(budget), "%d iterations, expected %d", p.iters.Load(), budget)
		}
		c.Seen("ends of a pending wait", by, batch)
		c.Distinct(desc)
		c.Sample(desc + ": " + by)
		if conf.Timeout > 0 && c.flip() { // the timeout is not about to expire
			time.Sleep(conf.Timeout + 2*it)
		}
		_ = algo.Stop()
	})
}
