package checks

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/wearelumenai/distclus/core"
)

// Concurrent control: histories of control calls by several goroutines are recorded with a logical
// clock and checked for linearizability against the lifecycle (porcupine). Runs that may end or
// fail by themselves make the model non deterministic: its state is the set of possible statuses.

type ctlOp struct {
	Op byte // I P U S ?
}

type ctlRes struct {
	Err    string // "" accepted
	Status core.ClustStatus
}

type statusSet uint8

func bit(s core.ClustStatus) statusSet { return 1 << uint(s) }

// closure: what a run can do by itself
func closure(s statusSet, canEnd, canFail bool) statusSet {
	if s&bit(core.Running) != 0 {
		if canEnd {
			s |= bit(core.Ready)
		}
		if canFail {
			s |= bit(core.Finished)
		}
	}
	return s
}

func ctlNext(st core.ClustStatus, op byte, r ctlRes) (core.ClustStatus, bool) {
	var failedInit = strings.HasPrefix(r.Err, "init")
	switch op {
	case 'I':
		if st == core.Created || st == core.Finished {
			if failedInit {
				return core.Finished, true
			}
			return core.Ready, r.Err == ""
		}
		return st, r.Err == core.ErrAlreadyCreated.Error()
	case 'P':
		switch st {
		case core.Running:
			return st, r.Err == core.ErrRunning.Error()
		case core.Created, core.Finished:
			if failedInit {
				return core.Finished, true
			}
		}
		return core.Running, r.Err == ""
	case 'U':
		if st == core.Running && r.Err == "" {
			return core.Idle, true
		}
		return st, st != core.Running && r.Err != ""
	case 'S':
		if st == core.Ready || st == core.Running || st == core.Idle {
			return core.Finished, r.Err == ""
		}
		return st, r.Err == core.ErrNotAlive.Error()
	case '?':
		return st, st == r.Status
	}
	return st, false
}

func ctlModel(canEnd, canFail bool) porcupine.Model {
	return porcupine.Model{
		Init: func() interface{} { return bit(core.Created) },
		Step: func(state, in, out interface{}) (bool, interface{}) {
			var from = closure(state.(statusSet), canEnd, canFail)
			var to statusSet
			for st := core.Created; st <= core.Finished; st++ {
				if from&bit(st) != 0 {
					if n, ok := ctlNext(st, in.(ctlOp).Op, out.(ctlRes)); ok {
						to |= bit(n)
					}
				}
			}
			return to != 0, to
		},
		Equal: func(a, b interface{}) bool { return a == b },
		DescribeOperation: func(in, out interface{}) string {
			return fmt.Sprintf("%c -> %+v", in.(ctlOp).Op, out.(ctlRes))
		},
	}
}

type conc struct {
	c       *Case
	probe   *Probe
	algo    *core.Algo
	gate    Gate
	notes   Notes
	clock   atomic.Int64
	mu      sync.Mutex
	history []porcupine.Operation
	playInv atomic.Int64 // Play called
	playRet atomic.Int64 // Play returned
	ok      [256]atomic.Int64
	perOp   [256]atomic.Int64
	checked atomic.Int64 // times no iteration was verified after Pause or Stop
}

// spin yields a random number of times
func spin(n int) {
	for i := 0; i < n; i++ {
		runtime.Gosched()
	}
}

// an own generator for callbacks running in goroutines of the library
type safeRand struct {
	state atomic.Uint64
}

func (r *safeRand) next(n int) int {
	var x = r.state.Add(0x9E3779B97F4A7C15)
	x ^= x >> 30
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 27
	x *= 0x94D049BB133111EB
	x ^= x >> 31
	return int(x % uint64(n))
}

func (w *conc) call(client int, op byte) (r ctlRes) {
	var rec = porcupine.Operation{ClientId: client, Input: ctlOp{op}, Call: w.clock.Add(1)}
	var err error
	var inv0, ret0 = w.playInv.Load(), w.playRet.Load()
	switch op {
	case 'I':
		err = w.algo.Init()
	case 'P':
		w.playInv.Add(1)
		err = w.algo.Play()
		w.playRet.Add(1)
	case 'U':
		err = w.algo.Pause()
	case 'S':
		err = w.algo.Stop()
	case '?':
		r.Status = w.algo.Status().Value
	}
	if (op == 'U' || op == 'S') && err == nil && inv0 == ret0 && w.playInv.Load() == inv0 {
		// no Play may have followed: no iteration is in progress, and none starts
		var n0, in0 = w.probe.iters.Load(), w.probe.inIter.Load()
		spin(30)
		var n1, in1 = w.probe.iters.Load(), w.probe.inIter.Load()
		if w.playInv.Load() == inv0 {
			if in0 != 0 || in1 != 0 || n0 != n1 {
				w.c.Errorf("%c succeeded but an iteration is in progress (%d, %d) or %d iterations started afterwards", op, in0, in1, n1-n0)
			}
			w.checked.Add(1)
		}
	}
	rec.Return = w.clock.Add(1)
	if err != nil {
		r.Err = err.Error()
	} else {
		w.ok[op].Add(1)
	}
	w.perOp[op].Add(1)
	rec.Output = r
	w.mu.Lock()
	w.history = append(w.history, rec)
	w.mu.Unlock()
	return
}

// readings of transient statuses of a Play or Init in progress are not linearization points
func (w *conc) clean() []porcupine.Operation {
	var out []porcupine.Operation
	for _, o := range w.history {
		if o.Input.(ctlOp).Op == '?' {
			var s = o.Output.(ctlRes).Status
			if s == core.Initializing {
				continue
			}
			if s == core.Ready {
				var overlap = false
				for _, p := range w.history {
					if q := p.Input.(ctlOp).Op; (q == 'P' || q == 'I') && p.Call < o.Return && o.Call < p.Return {
						overlap = true
					}
				}
				if overlap {
					continue
				}
			}
		}
		out = append(out, o)
	}
	return out
}

func (w *conc) describe() string {
	var lines []string
	sort.Slice(w.history, func(i, j int) bool { return w.history[i].Call < w.history[j].Call })
	for _, o := range w.history {
		lines = append(lines, fmt.Sprintf("[%d,%d] client %d %c -> %+v", o.Call, o.Return, o.ClientId, o.Input.(ctlOp).Op, o.Output.(ctlRes)))
	}
	return strings.Join(lines, "\n")
}

func (w *conc) signature() string {
	var s strings.Builder
	sort.Slice(w.history, func(i, j int) bool { return w.history[i].Return < w.history[j].Return })
	for _, o := range w.history {
		fmt.Fprintf(&s, "%c%s%d,", o.Input.(ctlOp).Op, o.Output.(ctlRes).Err, o.Output.(ctlRes).Status)
	}
	return s.String()
}

type concConf struct {
	endless, failIter, failInit bool
	clients, ops                int
	alphabet                    string
	notifier                    func(w *conc) core.StatusNotifier
	initOverlap                 bool
}

func newConc(c *Case, cc concConf) *conc {
	var w = &conc{c: c, probe: &Probe{c: c}}
	var rg = &safeRand{}
	rg.state.Store(c.Rng.Uint64())
	var conf core.CtrlConf
	if !cc.endless {
		conf.Iter = 1 + c.intn(20)
		if c.flip() {
			conf.Iter = 0
			conf.Finishing = FuncFinishing(func(core.OCModel) bool { return rg.next(15) == 0 })
		}
	}
	var slow = c.intn(3) * 40
	w.probe.OnIter = func(s, i int) error {
		spin(rg.next(3 + slow))
		if cc.failIter && rg.next(20) == 0 {
			if rg.next(2) == 0 {
				panic("iteration")
			}
			return fmt.Errorf("iteration")
		}
		return nil
	}
	w.probe.OnInit = func(n int) error {
		spin(rg.next(3 + slow))
		if cc.failInit && rg.next(3) == 0 {
			if rg.next(2) == 0 {
				panic(fmt.Sprint("init ", n))
			}
			return fmt.Errorf("init %d", n)
		}
		return nil
	}
	conf.StatusNotifier = w.notes.notify
	if cc.notifier != nil {
		conf.StatusNotifier = cc.notifier(w)
	}
	w.algo = core.NewAlgo(&conf, w.probe, TagSpace{})
	return w
}

// runClients performs the random concurrent calls
func (w *conc) runClients(cc concConf) {
	var wg sync.WaitGroup
	for cl := 0; cl < cc.clients; cl++ {
		var ops = w.c.randOps(cc.alphabet, cc.ops)
		var gaps = make([]int, len(ops))
		for i := range gaps {
			if w.c.flip() {
				gaps[i] = w.c.intn(60)
			}
		}
		wg.Add(1)
		go func(cl int) {
			defer wg.Done()
			w.c.protect(func() {
				for i := range ops {
					spin(gaps[i])
					w.call(cl, ops[i])
				}
			})
		}(cl)
	}
	wg.Wait()
}

// quiet verifies that nothing runs when the status says so
func (w *conc) quiet(cl int) {
	switch w.call(cl, '?').Status {
	case core.Running:
		if w.call(cl, byte("US"[w.c.intn(2)])).Err != "" && w.algo.Status().Value == core.Running {
			w.c.Failf("a running algorithm refuses Pause or Stop\n%s", w.describe())
		}
	}
	var s = w.algo.Status().Value
	var n, in = w.probe.iters.Load(), w.probe.inIter.Load()
	spin(50)
	w.c.Check(w.algo.Status().Value == s, "status changes from %v to %v without any call", s, w.algo.Status().Value)
	w.c.Check(in == 0 && n == w.probe.iters.Load() && w.probe.inIter.Load() == 0,
		"status %v but an iteration is in progress (%d) or starts (%d)\n%s", s, in, w.probe.iters.Load()-n, w.describe())
	w.checked.Add(1)
}

func TestC02(t *testing.T) {
	var h = newH(t, "C02", "histories of Init/Play/Pause/Stop/Status calls of 2 to 4 goroutines in several phases, with random "+
		"pauses, slow iterations and initialisations, failures and natural ends, and histories of a client with iterations of 1 ms to 1 hour in virtual time, checked with porcupine against the lifecycle; "+
		"a case is non trivial when at least two calls overlapped, and distinct by the sequence of results",
		"readings of Initializing, and of Ready during a Play or Init, are transient states of these calls and not linearized")
	var kinds = []struct {
		name                        string
		endless, failIter, failInit bool
		n                           int
	}{
		{"endless", true, false, false, h.N(5000, 60000)},
		{"endless-failinit", true, false, true, h.N(3000, 30000)},
		{"ending", false, false, false, h.N(4000, 40000)},
		{"failing", true, true, false, h.N(3000, 30000)},
		{"ending-failing", false, true, true, h.N(3000, 30000)},
	}
	for _, k := range kinds {
		var k = k
		h.Cases(k.name, k.n, func(c *Case) {
			c.what.Store("concurrent Init/Play/Pause/Stop")
			var cc = concConf{endless: k.endless, failIter: k.failIter, failInit: k.failInit, clients: c.between(2, 4), alphabet: "IPPUUSS?"}
			if c.pick(.3) {
				cc.alphabet = "PPUS?"
			}
			cc.ops = c.between(2, 12/cc.clients)
			c.Bubble(func() {
				var w = newConc(c, cc)
				for ph := 0; ph < 3 && !c.failed.Load(); ph++ {
					w.runClients(cc)
					if c.flip() {
						w.quiet(9)
					}
				}
				w.call(9, 'S')
				synctest.Wait()
				w.quiet(9)
				var hist = w.clean()
				switch porcupine.CheckOperationsTimeout(ctlModel(!k.endless, k.failIter), hist, 20*time.Second) {
				case porcupine.Illegal:
					c.Failf("the results are not those of any sequential order of the calls:\n%s", w.describe())
				case porcupine.Unknown:
					c.Count("histories not decided", 1)
				}
				var overlaps = 0
				for i, a := range w.history {
					for _, b := range w.history[:i] {
						if a.Call < b.Return && b.Call < a.Return {
							overlaps++
						}
					}
				}
				if overlaps > 0 {
					c.Distinct(k.name, w.signature())
				}
				c.Count("overlapping pairs of calls", overlaps)
				c.Count("calls", len(w.history))
				c.Count("iterations", int(w.probe.iters.Load()))
				c.Count("verified absences of iteration", int(w.checked.Load()))
				c.Sample(w.describe())
			})
		})
	}
	// slow iterations and initialisations, in virtual time: one client, as waiting for a mutex would stop the clock
	h.Cases("slow", h.N(2500, 30000), func(c *Case) {
		c.what.Store("Init/Play/Pause/Stop during slow iterations")
		var cc = concConf{endless: c.flip(), failIter: c.pick(.3), failInit: c.pick(.3), clients: 1, ops: c.between(4, 14), alphabet: "IPPPUUSS?"}
		var scale = []time.Duration{time.Millisecond, 50 * time.Millisecond, time.Second, time.Minute, time.Hour}[c.intn(5)]
		c.Bubble(func() {
			var w = newConc(c, cc)
			var rg = &safeRand{}
			rg.state.Store(c.Rng.Uint64())
			var slow = func() {
				if rg.next(4) > 0 {
					time.Sleep(scale * time.Duration(rg.next(300)) / 100)
				}
			}
			var onIter, onInit = w.probe.OnIter, w.probe.OnInit
			w.probe.OnIter = func(s, i int) error { slow(); return onIter(s, i) }
			w.probe.OnInit = func(n int) error { slow(); return onInit(n) }
			var reading = make(chan bool)
			go func() {
				defer close(reading)
				for i := 0; i < 10; i++ {
					time.Sleep(scale * time.Duration(rg.next(300)) / 100)
					w.call(1, '?')
				}
			}()
			for _, op := range []byte(c.randOps(cc.alphabet, cc.ops)) {
				if c.flip() {
					time.Sleep(scale * time.Duration(c.intn(500)) / 100)
				}
				var n0 = w.probe.done.Load()
				w.call(0, op)
				if w.probe.inIter.Load() > 0 {
					c.Count("calls that return during an iteration", 1)
				} else if w.probe.done.Load() > n0 && (op == 'U' || op == 'S') {
					c.Count("slow iterations completed before a Pause or Stop", 1)
				}
				if s := w.algo.Status().Value; s == core.Idle || s == core.Ready || s == core.Finished {
					var n, in = w.probe.iters.Load(), w.probe.inIter.Load()
					time.Sleep(scale * time.Duration(c.intn(900)) / 100)
					c.Check(in == 0 && w.probe.inIter.Load() == 0 && w.probe.iters.Load() == n, "status %v after %c but an iteration is in progress (%d then %d) or starts (%d)\n%s", s, op, in, w.probe.inIter.Load(), w.probe.iters.Load()-n, w.describe())
					c.Check(w.algo.Status().Value == s, "status changes from %v to %v without any call", s, w.algo.Status().Value)
					w.checked.Add(1)
				}
			}
			<-reading
			w.call(0, 'S')
			var n = w.probe.iters.Load()
			time.Sleep(24 * time.Hour)
			c.Check(w.probe.iters.Load() == n && w.probe.inIter.Load() == 0, "an iteration is in progress or starts once stopped")
			if porcupine.CheckOperationsTimeout(ctlModel(!cc.endless, cc.failIter), w.clean(), 20*time.Second) == porcupine.Illegal {
				c.Failf("the results are not those of any sequential order of the calls:\n%s", w.describe())
			}
			c.Count("slow iterations", int(w.probe.iters.Load()))
			c.Count("verified absences of iteration", int(w.checked.Load()))
			if w.probe.iters.Load() > 1 {
				c.Distinct("slow", w.signature())
			}
			c.Sample(w.describe())
		})
	})
	h.Require("slow iterations", 5000)
	h.Require("calls that return during an iteration", 1000)
	h.Require("overlapping pairs of calls", 5000)
	h.Require("verified absences of iteration", 5000)
}
