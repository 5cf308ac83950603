package checks

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	"github.com/wearelumenai/distclus/streaming"
	"golang.org/x/exp/rand"
)

// fault injection: the n-th call of a site fails, once
type faults struct {
	site   string
	mode   string
	n      int64
	counts map[string]*atomic.Int64
	hit    atomic.Int64 // number of faults raised
	during atomic.Int64 // status when raised, plus 1
	status func() core.OCStatus
	err    error
	sleep  bool
	action func() // instead of failing
	noData bool   // no observation, the initializer gives its own centres
}

var faultSites = []string{"dist", "combine", "copy", "dim", "initializer", "sample", "pdf", "finishing", "implinit", "impliter"}
var faultModes = []string{"panic string", "panic error", "runtime error", "panic struct", "returned"}

type faultStruct struct{ A, B int }

type faultError struct{ n int }

func (e *faultError) Error() string { return fmt.Sprintf("fault error %d", e.n) }

// errors that may be taken for something else
var faultErrors = []error{io.EOF, context.Canceled, context.DeadlineExceeded, os.ErrClosed, core.ErrTimeout, core.ErrNotRunning, core.ErrNotAlive, core.ErrRunning, core.ErrIdle,
	core.ErrAlreadyCreated, core.ErrNeverFinish, kmeans.ErrNullSet, fmt.Errorf("reading: %w", io.EOF), errors.Join(core.ErrTimeout, io.EOF), &faultError{1}, errors.New("")}

func newFaults(site, mode string, n int) *faults {
	var f = &faults{site: site, mode: mode, n: int64(n), counts: map[string]*atomic.Int64{}, err: fmt.Errorf("%s fault %d", site, n)}
	for _, s := range faultSites {
		f.counts[s] = &atomic.Int64{}
	}
	return f
}

// message of the error that is expected
func (f *faults) message() string {
	switch f.mode {
	case "runtime error":
		return "runtime error: index out of range [5] with length 1"
	case "panic struct":
		return fmt.Sprint(faultStruct{int(f.n), 2})
	}
	return f.err.Error()
}

func (f *faults) at(site string) error {
	if f.sleep && site != "dim" {
		time.Sleep(time.Millisecond)
	}
	if n := f.counts[site].Add(1); site != f.site || n != f.n {
		return nil
	}
	f.hit.Add(1)
	if f.action != nil {
		f.action()
		return nil
	}
	f.during.Store(int64(f.status().Value) + 1)
	switch f.mode {
	case "panic string":
		panic(f.err.Error())
	case "panic error":
		panic(f.err)
	case "panic struct":
		panic(faultStruct{int(f.n), 2})
	case "runtime error":
		var l = make([]int, 1)
		_ = l[len(l)+4]
	}
	return f.err
}

type faultSpace struct {
	euclid.Space
	f *faults
}

func (s faultSpace) Dist(a, b core.Elemt) float64 {
	_ = s.f.at("dist")
	return s.Space.Dist(a, b)
}

func (s faultSpace) Combine(a core.Elemt, wa int, b core.Elemt, wb int) core.Elemt {
	_ = s.f.at("combine")
	return s.Space.Combine(a, wa, b, wb)
}

func (s faultSpace) Copy(a core.Elemt) core.Elemt {
	_ = s.f.at("copy")
	return s.Space.Copy(a)
}

func (s faultSpace) Dim(l []core.Elemt) int {
	_ = s.f.at("dim")
	return s.Space.Dim(l)
}

type faultDistrib struct {
	mcmc.Distrib
	f *faults
}

func (d faultDistrib) Sample(mu core.Elemt, time int) core.Elemt {
	_ = d.f.at("sample")
	return d.Distrib.Sample(mu, time)
}

func (d faultDistrib) Pdf(x, mu core.Elemt, time int) float64 {
	_ = d.f.at("pdf")
	return d.Distrib.Pdf(x, mu, time)
}

type faultWorld struct {
	f        *faults
	algo     *core.Algo
	lastC    core.Clust // snapshot before each iteration
	lastF    core.RuntimeFigures
	evalued  int
	notes    Notes
	streamed bool
}

func newFaultWorld(c *Case, kind string, seed uint64, f *faults) *faultWorld {
	var w = &faultWorld{f: f}
	var ctrl = core.CtrlConf{Iter: 6, DataPerIter: 1, StatusNotifier: w.notes.notify}
	ctrl.Finishing = FuncFinishing(func(m core.OCModel) bool {
		w.lastC = deepClust(m.Centroids())
		w.lastF = m.RuntimeFigures()
		w.evalued++
		_ = f.at("finishing")
		return false
	})
	var gen = func(n uint64) *rand.Rand { return rand.New(rand.NewSource(seed + n)) }
	var data []core.Elemt
	var g = gen(7)
	for i := 0; i < 7 && !f.noData; i++ {
		data = append(data, []float64{g.NormFloat64() + float64(10*(i%2)), g.NormFloat64()})
	}
	var space = faultSpace{f: f}
	var init = func(i core.Initializer) core.Initializer {
		return func(k int, e []core.Elemt, s core.Space, r *rand.Rand) (core.Clust, error) {
			if err := f.at("initializer"); err != nil {
				return nil, err
			}
			if f.noData {
				return core.Clust{[]float64{1, 2}, []float64{-3, 4}}, nil
			}
			return i(k, e, s, r)
		}
	}
	switch kind {
	case "kmeans", "kmeans par":
		w.algo = kmeans.NewAlgo(kmeans.Conf{CtrlConf: ctrl, K: 2, Par: kind != "kmeans", NumCPU: 3, RGen: gen(1)}, space, data, init(kmeans.GivenInitializer))
	case "mcmc", "mcmc par":
		w.algo = mcmc.NewAlgo(mcmc.Conf{CtrlConf: ctrl, InitK: 2, MaxK: 3, Amp: .1, Par: kind != "mcmc", NumCPU: 3, RGen: gen(1), ProbaK: []float64{1, 1, 1}},
			space, data, init(kmeans.PPInitializer), faultDistrib{mcmc.NewMultivT(mcmc.MultivTConf{Dim: 2, RGen: gen(2)}), f})
	case "streaming":
		w.streamed = true
		w.algo = streaming.NewAlgo(streaming.Conf{CtrlConf: ctrl, BufferSize: 50, RGen: gen(1)}, space, data)
	case "probe":
		var p = &Probe{c: c, Figures: true}
		p.OnInit = func(int) error { return f.at("implinit") }
		p.OnIter = func(int, int) error { return f.at("impliter") }
		w.algo = core.NewAlgo(&ctrl, p, TagSpace{})
	}
	f.status = w.algo.Status
	return w
}

func deepElemt(e core.Elemt) core.Elemt {
	switch v := e.(type) {
	case []float64:
		return append([]float64{}, v...)
	case [][]float64:
		var out = make([][]float64, len(v))
		for i := range v {
			out[i] = append([]float64{}, v[i]...)
		}
		return out
	}
	return e
}

func deepClust(cl core.Clust) core.Clust {
	if cl == nil {
		return nil
	}
	var out = make(core.Clust, len(cl))
	for i := range cl {
		out[i] = deepElemt(cl[i])
	}
	return out
}

func withoutTime(f core.RuntimeFigures) core.RuntimeFigures {
	var out = core.RuntimeFigures{}
	for k, v := range f {
		if k != core.Duration && k != core.LastDataTime {
			out[k] = v
		}
	}
	return out
}

func sameFigures(a, b core.RuntimeFigures) bool {
	a, b = withoutTime(a), withoutTime(b)
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || v != w && (v == v || w == w) { // NaN are equal
			return false
		}
	}
	return true
}

var faultDrivers = []string{"init", "play+wait", "batch", "push", "play, pause, play"}

func (w *faultWorld) elemt() core.Elemt {
	if _, ok := w.algo.Space().(TagSpace); ok {
		return 5
	}
	return []float64{3, 4}
}

// drive runs the algorithm with the driver, returns the result of the call that should report an initialisation
// failure and the one that should report an iteration failure
func (w *faultWorld) drive(driver string) (first, last error) {
	var a = w.algo
	switch driver {
	case "init":
		first = a.Init()
		if first == nil {
			if first = a.Play(); first == nil {
				last = a.Wait(nil, 0)
			}
		}
	case "play+wait":
		if first = a.Play(); first == nil {
			last = a.Wait(nil, time.Hour)
		}
	case "batch":
		first = a.Batch()
		last = first
	case "push":
		if first = a.Init(); first == nil {
			_ = a.Push(w.elemt())
			_ = a.Push(w.elemt())
			last = a.Wait(nil, 0)
		}
	case "play, pause, play":
		if first = a.Play(); first == nil {
			time.Sleep(2 * time.Millisecond)
			_ = a.Pause() // refused if it has failed
			time.Sleep(2 * time.Millisecond)
			if a.Status().Value == core.Idle {
				_ = a.Play()
			}
			if a.Status().Value == core.Running {
				last = a.Wait(nil, 0)
			} else {
				last = a.Status().Error
			}
		}
	}
	return
}

func TestC05(t *testing.T) {
	var h = newH(t, "C05", "for each algorithm, site of failure (call of the space, initializer, distribution, finishing or implementation), kind of failure and driving sequence, "+
		"the n-th call fails, for every n that occurs in a run; checked: status and error, results of the calls, centroids and figures against those of the last "+
		"successful iteration, notifications, leaks, recovery. Non trivial: the fault was raised; distinct by algorithm, site, kind, driver and n")
	var kinds = []string{"kmeans", "kmeans par", "mcmc", "mcmc par", "streaming", "probe"}
	type combo struct{ kind, site, mode, driver string }
	var combos []combo
	for _, k := range kinds {
		for _, s := range faultSites {
			for _, m := range faultModes {
				if m == "returned" && s != "initializer" && s != "implinit" && s != "impliter" {
					continue
				}
				for _, d := range faultDrivers {
					combos = append(combos, combo{k, s, m, d})
					for i := 0; m == "returned" && i < 6; i++ { // other errors
						combos = append(combos, combo{k, s, m, d})
					}
				}
			}
		}
	}
	var rounds = h.N(1, 12)
	h.Cases("faults", len(combos)*rounds, func(c *Case) {
		var cb = combos[c.Index%len(combos)]
		var seed = c.Rng.Uint64()
		var total int
		c.Bubble(func() { // without fault
			var w = newFaultWorld(c, cb.kind, seed, newFaults("", "", 0))
			w.f.sleep = true
			w.drive(cb.driver)
			synctest.Wait()
			total = int(w.f.counts[cb.site].Load())
			c.Check(w.algo.Status().Value == map[bool]core.ClustStatus{true: core.Finished, false: core.Ready}[cb.driver == "batch"] && w.algo.Status().Error == nil, "run without fault ends %s", sstr(w.algo.Status()))
		})
		var step = 1
		if total > 60 { // late calls are like early ones: sample them
			step = total/60 + 1
		}
		for n := 1; n <= total && !c.failed.Load(); n += 1 + c.intn(2*step-1) {
			c.Eval(1)
			c.Bubble(func() { faultCase(c, cb.kind, cb.site, cb.mode, cb.driver, n, seed) })
		}
	})
	h.Require("faults in initialisation", 500)
	h.Require("faults in iterations", 5000)
}

func faultCase(c *Case, kind, site, mode, driver string, n int, seed uint64) {
	c.what.Store(fmt.Sprintf("%s: call %d of %s fails (%s), driven by %s", kind, n, site, mode, driver))
	c.Tracef("%s: call %d of %s fails (%s), driven by %s", kind, n, site, mode, driver)
	var f = newFaults(site, mode, n)
	if k := c.intn(2 * len(faultErrors)); k < len(faultErrors) || mode == "returned" {
		f.err = faultErrors[k%len(faultErrors)]
	}
	f.sleep = true
	var w = newFaultWorld(c, kind, seed, f)
	var first, last = w.drive(driver)
	synctest.Wait()
	if f.hit.Load() == 0 { // other schedule than the one without fault
		c.Count("not reached", 1)
		return
	}
	var want = f.message()
	var is = func(err error) bool {
		if err == nil || err.Error() != want {
			return false
		}
		return mode != "returned" || err == f.err || errors.Is(err, f.err)
	}
	var st = w.algo.Status()
	c.Check(st.Value == core.Finished && is(st.Error), "status %s, expected Finished with %q", sstr(st), want)
	var inInit = core.ClustStatus(f.during.Load()-1) == core.Initializing
	if inInit {
		c.Check(is(first), "the failing initialisation returned %v instead of %q", first, want)
		c.Count("faults in initialisation", 1)
	} else {
		if driver != "batch" {
			c.Check(first == nil, "starting returned %v, but an iteration failed", first)
		}
		c.Check(is(last), "waiting for the failing run returned %v instead of %q", last, want)
		var got, fig = w.algo.Centroids(), w.algo.RuntimeFigures()
		c.Check(reflect.DeepEqual(got, w.lastC), "centroids after failure %v, of the last successful iteration %v", got, w.lastC)
		c.Check(sameFigures(fig, w.lastF), "figures after failure %v, of the last successful iteration %v", fig, w.lastF)
		if w.lastC != nil && kind != "probe" {
			var p, l, _ = predictSafe(w)
			c.Check(l >= 0 && p != nil, "no prediction after failure")
		}
		c.Count("faults in iterations", 1)
	}
	var notes = w.notes.get()
	c.Check(len(notes) > 0 && notes[len(notes)-1].Value == core.Finished && is(notes[len(notes)-1].Error), "notifications %s do not end with the failure", statusList(notes))
	c.Distinct(kind, site, mode, driver, n)
	c.Seen("sites", kind, site, inInit)
	c.Sample(fmt.Sprintf("%s: call %d of %s fails (%s) by %s, in init %v: status %s, notifications %s", kind, n, site, mode, driver, inInit, sstr(st), statusList(notes)))
	// a failed algorithm is like a stopped one
	c.Check(w.algo.Stop() == core.ErrNotAlive, "Stop of a failed algorithm is accepted")
	c.Check(w.algo.Pause() != nil, "Pause of a failed algorithm is accepted")
	if w.streamed { // the first observation of the new session
		for i := 0; i < 8; i++ {
			c.Check(w.algo.Push(w.elemt()) == nil, "push refused after the failure")
		}
	} else {
		_ = w.algo.Push(w.elemt())
	}
	c.Check(w.algo.Status() == st, "pushing changed the status of a failed algorithm to %s", sstr(w.algo.Status()))
	var err error
	switch n % 3 {
	case 0:
		err = w.algo.Batch()
	case 1:
		if err = w.algo.Play(); err == nil {
			err = w.algo.Wait(nil, 0)
		}
	default:
		if err = w.algo.Init(); err == nil {
			c.Check(w.algo.Status().Value == core.Ready, "initialised again: %s", sstr(w.algo.Status()))
			if err = w.algo.Play(); err == nil {
				err = w.algo.Wait(nil, 0)
			}
		}
	}
	c.Check(err == nil, "run after the failure: %v", err)
	synctest.Wait()
	var it = w.algo.RuntimeFigures()[core.Iterations]
	c.Check(it == 6 && w.algo.Status().Error == nil, "run after the failure: %v iterations, status %s", it, sstr(w.algo.Status()))
	_ = w.algo.Stop()
	synctest.Wait()
}

func predictSafe(w *faultWorld) (p core.Elemt, l int, d float64) {
	return w.algo.Predict(w.elemt())
}
