package checks

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	"github.com/wearelumenai/distclus/streaming"
	"golang.org/x/exp/rand"
)

// obeys verifies that an algorithm at rest can still be controlled
func (c *Case) obeys(a core.OnlineClust, endless bool, inits func() bool) {
	var expect = func(name string, err error, want ...error) {
		for _, w := range want {
			if sameErr(err, w) {
				return
			}
		}
		c.Failf("afterwards %s returns %v (status %s)", name, err, sstr(a.Status()))
	}
	c.what.Store("Stop at the end")
	if a.Status().Alive() {
		expect("Stop", a.Stop(), nil, core.ErrNotAlive) // the run may fail just before
	}
	c.Check(a.Status().Value == core.Finished || a.Status().Value == core.Created, "stopped algorithm is %s", sstr(a.Status()))
	if !inits() {
		return
	}
	c.what.Store("Play, Pause, Play, Stop at the end")
	expect("Play", a.Play(), nil)
	if endless {
		c.Check(a.Status().Value == core.Running, "playing algorithm is %s", sstr(a.Status()))
		expect("Pause", a.Pause(), nil)
		expect("Play", a.Play(), nil)
	}
	expect("Stop", a.Stop(), nil)
	c.Check(a.Status().Value == core.Finished, "stopped algorithm is %s", sstr(a.Status()))
}

func TestC03(t *testing.T) {
	var h = newH(t, "C03", "concurrent control, push, prediction, figure, copy and wait calls of several goroutines and of re-entrant notifiers, on mock and real "+
		"algorithms, with failing and slow initialisations and iterations, ends of run and automatic starts; every call must return (deadlocks are found by the virtual "+
		"time scheduler or by the analysis of the blocked goroutines), the algorithm must then obey Stop/Play/Pause/Play/Stop, and no goroutine may remain. "+
		"Non trivial: at least 10 calls; distinct by the kinds and counts of accepted calls")
	// mock algorithm, virtual time: deadlock and leak detection
	for _, mode := range []string{"plain", "reentrant", "blocked"} {
		var mode = mode
		h.Cases("mock-"+mode, h.N(3000, 40000), func(c *Case) {
			c.what.Store("concurrent calls")
			var cc = concConf{endless: c.flip(), failIter: c.flip(), failInit: c.flip(), clients: c.between(2, 6), ops: c.between(3, 12)}
			var dpi = 0
			if c.flip() {
				dpi = c.between(1, 3)
			}
			var rg = &safeRand{}
			rg.state.Store(c.Rng.Uint64())
			c.Bubble(func() {
				var w *conc
				var release = make(chan bool)
				var depth, calling atomic.Int32
				cc.notifier = func(w *conc) core.StatusNotifier {
					return func(oc core.OnlineClust, s core.OCStatus) {
						w.notes.notify(oc, s)
						switch mode {
						case "reentrant":
							calling.Add(1)
							if depth.Add(1) < 40 {
								w.any(rg.next(12), rg)
							}
							calling.Add(-1)
						case "blocked":
							<-release
						}
					}
				}
				w = newConc(c, cc)
				w.algo.Conf().Ctrl().DataPerIter = dpi
				var wg sync.WaitGroup
				for cl := 0; cl < cc.clients; cl++ {
					wg.Add(1)
					go func(cl int) {
						defer wg.Done()
						c.protect(func() {
							for i := 0; i < cc.ops; i++ {
								spin(rg.next(30))
								w.any(rg.next(12), rg)
							}
						})
					}(cl)
				}
				wg.Wait()
				close(release)
				depth.Store(1000)
				c.what.Store("call from the notifier")
				for calling.Load() > 0 {
					spin(1)
				}
				c.what.Store("Stop")
				w.call(9, 'S')
				synctest.Wait()
				var onInit = w.probe.OnInit
				w.probe.OnInit = func(n int) error {
					if onInit != nil {
						_ = func() (err error) { defer func() { recover() }(); return onInit(n) }()
					}
					return nil
				}
				w.probe.OnIter = nil
				c.obeys(w.algo, cc.endless, func() bool { return true })
				var sig strings.Builder
				for i := range w.perOp {
					if n := w.perOp[i].Load(); n > 0 {
						fmt.Fprintf(&sig, "%c%d/%d ", i, w.ok[i].Load(), n)
						c.Count("calls", int(n))
					}
				}
				c.Distinct(mode, sig.String())
				c.Count("iterations", int(w.probe.iters.Load()))
				c.Sample(mode + ": accepted/calls " + sig.String())
			})
		})
	}
	h.Cases("callbacks", h.N(12000, 200000), callbackCalls)
	h.Cases("waits", h.N(1500, 20000), pendingWaits)
	// real algorithms and real time, with Wait and Batch
	h.CasesW("real", h.N(600, 6000), 48, func(c *Case) { realProgress(c) })
	h.Require("calls", 50000)
	h.Require("pending waits released", 2000)
	h.Require("calls from callbacks", 3000)
	h.Require("ends releasing pending waits", 6)
}

// pendingWaits: several goroutines wait for a run, which is then paused, stopped, interrupted, or
// ends or fails: all of them return soon after, and the algorithm obeys
// data and observation calls made while an initialisation or an iteration waits for them, or by itself
func callbackCalls(c *Case) {
	var kind = []string{"kmeans", "kmeans par", "mcmc", "mcmc par", "streaming", "probe"}[c.intn(6)]
	var site = faultSites[c.intn(len(faultSites))]
	var driver = faultDrivers[c.intn(len(faultDrivers))]
	var seed = c.Rng.Uint64()
	var noData = strings.HasPrefix(kind, "kmeans") && c.pick(.3)
	var world = func(site string, n int) *faultWorld {
		var f = newFaults(site, "", n)
		f.sleep, f.noData = true, noData
		return newFaultWorld(c, kind, seed, f)
	}
	var total int
	c.Bubble(func() {
		var w = world("", 0)
		w.drive(driver)
		synctest.Wait()
		total = int(w.f.counts[site].Load())
	})
	if total == 0 {
		return
	}
	c.Bubble(func() {
		var n = c.between(1, total)
		var op = c.intn(9)
		var names = []string{"Push", "Predict", "Centroids", "RuntimeFigures", "Status", "Copy", "Conf", "Space", "Impl"}
		var where = fmt.Sprintf("%s, no data %v, driven by %s: %s called while call %d of %s waits for it", kind, noData, driver, names[op], n, site)
		c.what.Store(where)
		var w = world(site, n)
		var in core.ClustStatus
		var call = func() {
			var a = w.algo
			in = a.Status().Value
			switch op {
			case 0:
				if err := a.Push(w.elemt()); err != nil {
					c.Errorf("%s: %v", where, err)
				}
			case 1:
				_, _, _ = a.Predict(w.elemt())
			case 2:
				_ = a.Centroids()
			case 3:
				_ = a.RuntimeFigures()
			case 4:
				_ = a.Status()
			case 5:
				if kind != "probe" {
					_, _ = a.Copy(a.Conf(), a.Space())
				}
			case 6:
				_ = a.Conf()
			case 7:
				_ = a.Space()
			case 8:
				_ = a.Impl()
			}
		}
		w.f.action = func() {
			var over = make(chan bool)
			go func() {
				defer close(over)
				call()
			}()
			select {
			case <-over:
			case <-time.After(time.Hour):
				c.Errorf("%s: the call has not returned after an hour", where)
			}
		}
		var first, last = w.drive(driver)
		synctest.Wait()
		c.Check(first == nil && last == nil, "%s: results %v and %v", where, first, last)
		if w.f.hit.Load() > 0 {
			c.Count("calls from callbacks", 1)
			c.Seen("callbacks, operations and statuses", kind, site, names[op], in)
			c.Distinct(kind, site, driver, op, n)
		}
		_ = w.algo.Stop()
		synctest.Wait()
		c.obeys(w.algo, false, func() bool { return kind != "streaming" })
	})
}

func pendingWaits(c *Case) {
	c.Bubble(func() {
		c.what.Store("pending waits")
		var gate = &Gate{}
		var fail atomic.Pointer[failure]
		var p = &Probe{c: c}
		p.OnIter = func(int, int) error {
			time.Sleep(time.Millisecond)
			if f := fail.Swap(nil); f != nil {
				return f.raise()
			}
			return nil
		}
		var ctrl core.CtrlConf
		var kind = c.intn(3)
		switch kind {
		case 0:
			ctrl.Finishing = gate
		case 1:
			ctrl.IterPerData = 1 << 40
		case 2:
			ctrl.Iter = 1 << 40
		}
		if c.flip() {
			ctrl.Timeout = 20 * time.Second
		}
		var algo = core.NewAlgo(&ctrl, p, TagSpace{})
		defer func() { time.Sleep(time.Minute) }()
		var stop = func() { _ = algo.Stop(); time.Sleep(time.Second); _ = algo.Stop() }
		for round := c.between(1, 5); round > 0; round-- {
			if v := algo.Status().Value; v != core.Running {
				if v == core.Created || v == core.Finished {
					c.Check(algo.Init() == nil, "Init refused on %s", sstr(algo.Status()))
				}
				c.Check(algo.Push(0) == nil, "Push refused")
				c.Check(algo.Play() == nil, "Play refused on %s", sstr(algo.Status()))
			}
			var n, batches = c.between(1, 5), 0
			var pending atomic.Int32
			var errs = make(chan error, n+1)
			if kind != 1 && c.pick(.2) { // a batch starts its own run
				batches = 1
				pending.Add(1)
				go func() { errs <- algo.Batch(); pending.Add(-1) }()
				time.Sleep(time.Millisecond)
				synctest.Wait()
			}
			for i := 0; i < n; i++ {
				pending.Add(1)
				var d = time.Duration(0)
				if c.pick(.3) {
					d = time.Hour
				}
				go func() { errs <- algo.Wait(nil, d); pending.Add(-1) }()
			}
			time.Sleep(time.Duration(c.between(1, 700)) * time.Millisecond)
			synctest.Wait()
			if k := pending.Load(); int(k) != n+batches {
				stop()
				c.Failf("%d of %d waits are pending while running", k, n+batches)
			}
			var want error
			var how = c.intn(5)
			if batches > 0 && how == 0 {
				how = 1 // a paused batch is not released by the pause of its run alone
			}
			switch how {
			case 0:
				c.Check(algo.Pause() == nil, "Pause refused")
			case 1:
				c.Check(algo.Stop() == nil, "Stop refused")
			case 2:
				if kind != 0 {
					c.Check(algo.Stop() == nil, "Stop refused")
					break
				}
				gate.open.Store(true)
				time.Sleep(2 * time.Millisecond)
				synctest.Wait()
				gate.open.Store(false)
			case 3:
				var f = &failure{fmt.Errorf("failure %d", round), c.flip()}
				want = f.err
				fail.Store(f)
			case 4:
				if ctrl.Timeout == 0 {
					c.Check(algo.Stop() == nil, "Stop refused")
					break
				}
				want = core.ErrTimeout
				time.Sleep(ctrl.Timeout)
			}
			time.Sleep(time.Second)
			synctest.Wait()
			if k := pending.Load(); k > 0 {
				var s = algo.Status()
				stop()
				c.Failf("%d calls of Wait have not returned one second after (%d: 0 pause 1 stop 2 end 3 failure 4 timeout), the status is %s", k, how, sstr(s))
			}
			for i := 0; i < n; i++ {
				var err = <-errs
				c.Check(sameErr(err, want), "a pending wait returned %v, expected %v (%d)", err, want, how)
			}
			c.Count("pending waits released", n+batches)
			c.Seen("ends releasing pending waits", how, batches)
			c.Distinct("waits", kind, how, n, batches, ctrl.Timeout, round)
			if c.flip() && algo.Status().Alive() {
				_ = algo.Stop()
			}
		}
		c.obeys(algo, kind != 1, func() bool { return true })
	})
}

// any performs one call of any kind
func (w *conc) any(op int, rg *safeRand) {
	var count = func(o byte, err error) {
		w.perOp[o].Add(1)
		if err == nil {
			w.ok[o].Add(1)
		}
	}
	switch op {
	case 0:
		w.call(0, 'I')
	case 1, 2:
		w.call(0, 'P')
	case 3:
		w.call(0, 'U')
	case 4:
		w.call(0, 'S')
	case 5:
		w.call(0, '?')
	case 6, 7:
		w.playInv.Add(1) // may start the algorithm
		count('+', w.algo.Push(rg.next(100)))
		w.playRet.Add(1)
	case 8:
		if w.algo.Centroids() != nil {
			w.algo.Predict(rg.next(100))
			count('p', nil)
		}
	case 9:
		_ = w.algo.RuntimeFigures()
		_ = w.algo.Conf()
		_ = w.algo.Impl()
		_ = w.algo.Space()
		count('f', nil)
	case 10:
		var _, err = w.algo.Copy(w.algo.Conf(), w.algo.Space())
		count('c', err)
	case 11:
		count('w', w.algo.Wait(FuncFinishing(func(core.OCModel) bool { return true }), time.Second))
	}
}

// a space that sometimes fails
type flakySpace struct {
	core.Space
	rg    *safeRand
	rate  int
	iters func()
}

func (s flakySpace) Dist(a, b core.Elemt) float64 {
	if s.rate > 0 && s.rg.next(s.rate) == 0 {
		panic("dist")
	}
	if s.iters != nil {
		s.iters()
	}
	return s.Space.Dist(a, b)
}

func genOf(seed uint64) *rand.Rand { return rand.New(rand.NewSource(seed)) }

func (c *Case) gen() *rand.Rand { return rand.New(rand.NewSource(c.Rng.Uint64())) }

func (c *Case) points(n, dim int) []core.Elemt {
	var pts = make([]core.Elemt, n)
	for i := range pts {
		var p = make([]float64, dim)
		var centre = float64(10 * c.intn(3))
		for j := range p {
			p[j] = centre + c.norm()
		}
		pts[i] = p
	}
	return pts
}

func realProgress(c *Case) {
	var rg = &safeRand{}
	rg.state.Store(c.Rng.Uint64())
	c.limit.Store(400)
	c.what.Store("concurrent calls on a real algorithm")
	var kind = c.intn(3)
	var space = flakySpace{Space: euclid.NewSpace(), rg: rg}
	if c.pick(.3) {
		space.rate = 100 * c.between(1, 20)
	}
	var algo *core.Algo
	var ctrl core.CtrlConf
	var depth atomic.Int32
	ctrl.StatusNotifier = func(oc core.OnlineClust, s core.OCStatus) {
		if depth.Add(1) < 20 && rg.next(3) == 0 {
			switch rg.next(5) {
			case 0:
				_ = oc.Play()
			case 1:
				_ = oc.Pause()
			case 2:
				_ = oc.Stop()
			case 3:
				_ = oc.Push([]float64{1, 2})
			case 4:
				_, _ = oc.Copy(oc.Conf(), oc.Space())
			}
		}
	}
	ctrl.Iter = c.between(1, 200)
	if c.flip() {
		ctrl.DataPerIter = c.between(1, 5)
	}
	if c.flip() {
		ctrl.IterPerData = c.between(0, 2)
	}
	var data = c.points(c.between(0, 30), 2)
	switch kind {
	case 0:
		algo = kmeans.NewAlgo(kmeans.Conf{CtrlConf: ctrl, K: c.between(1, 3), Par: c.flip(), NumCPU: c.between(1, 4), FrameSize: c.intn(20), RGen: c.gen()},
			space, data, kmeans.PPInitializer)
	case 1:
		algo = mcmc.NewAlgo(mcmc.Conf{CtrlConf: ctrl, InitK: c.between(1, 3), MaxK: 4, Amp: 1, Par: c.flip(), NumCPU: c.between(1, 4), FrameSize: c.intn(20), RGen: c.gen()},
			space, data, kmeans.PPInitializer, mcmc.NewMultivT(mcmc.MultivTConf{Dim: 2, RGen: c.gen()}))
	default:
		algo = streaming.NewAlgo(streaming.Conf{CtrlConf: ctrl, BufferSize: 40, RGen: c.gen()}, space, data)
	}
	var calls, accepted [12]int64
	var mu sync.Mutex
	var wg sync.WaitGroup
	var clients = c.between(2, 5)
	for cl := 0; cl < clients; cl++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.protect(func() {
				for i := 0; i < 15; i++ {
					spin(rg.next(40))
					var op = rg.next(12)
					var err error
					switch op {
					case 0:
						err = algo.Init()
					case 1, 2:
						err = algo.Play()
					case 3:
						err = algo.Pause()
					case 4:
						if rg.next(2) == 0 {
							err = algo.Stop()
						}
					case 5, 6, 7:
						err = algo.Push([]float64{float64(rg.next(10)), float64(rg.next(10))})
					case 8:
						func() {
							defer func() { recover() }() // the space may fail here too
							algo.Predict([]float64{1, 1})
						}()
					case 9:
						err = algo.Wait(nil, time.Millisecond)
					case 10:
						if rg.next(3) == 0 && kind != 2 {
							err = algo.Batch()
						}
					case 11:
						_, err = algo.Copy(algo.Conf(), algo.Space())
					}
					mu.Lock()
					calls[op]++
					if err == nil {
						accepted[op]++
					}
					mu.Unlock()
				}
			})
		}()
	}
	// a batch of an algorithm paused by another, or which never iterates, waits: run it until it is over
	var done = make(chan bool)
	go func() { wg.Wait(); close(done) }()
	for over := false; !over; {
		select {
		case <-done:
			over = true
		case <-time.After(150 * time.Millisecond):
			if algo.Status().Value == core.Idle {
				_ = algo.Play()
			} else if kind == 2 {
				_ = algo.Stop()
			}
		}
	}
	for i := 0; i < 100 && algo.Status().Alive(); i++ {
		_ = algo.Stop()
		runtime.Gosched()
	}
	mu.Lock()
	defer mu.Unlock()
	c.Distinct(kind, calls, accepted)
	var n int64
	for _, x := range calls {
		n += x
	}
	c.Count("calls", int(n))
	c.Count("calls on real algorithms", int(n))
	c.Sample(fmt.Sprintf("kind %d calls %v accepted %v final %s", kind, calls, accepted, sstr(algo.Status())))
}
