package checks

import (
	"fmt"
	"math"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	"github.com/wearelumenai/distclus/streaming"
)

// This test is run with the race detector: it is the oracle. The harness only shares what users may share.

// deepSum reads all of an element
func deepSum(e core.Elemt) (s float64) {
	switch v := e.(type) {
	case []float64:
		for _, x := range v {
			s += x
		}
	case [][]float64:
		for _, p := range v {
			s += deepSum(p)
		}
	}
	return
}

// a distribution without state, hence that can be shared
type flatDistrib struct{}

func (flatDistrib) Sample(mu core.Elemt, time int) core.Elemt {
	switch v := mu.(type) {
	case []float64:
		var out = make([]float64, len(v))
		for i := range v {
			out[i] = v[i] + .01*math.Sin(float64(time)+v[i])
		}
		return out
	}
	return deepElemt(mu)
}

func (flatDistrib) Pdf(x, mu core.Elemt, time int) float64 { return deepSum(x) * 1e-9 }

var sink atomic.Uint64

func use(x float64) { sink.Add(math.Float64bits(x) & 1) }

type raceAlgo struct {
	r       *realConf
	canCopy bool
	copyOf  func(seed uint64) core.Conf
}

func (c *Case) raceAlgo(notifier core.StatusNotifier) raceAlgo {
	var ctrl core.CtrlConf
	ctrl.StatusNotifier = notifier
	if c.flip() {
		ctrl.Iter, ctrl.IterPerData = c.between(0, 30), c.between(0, 2)
	}
	if c.flip() {
		ctrl.DataPerIter = c.between(1, 4)
	}
	if c.pick(.3) {
		ctrl.Timeout = time.Duration(c.between(1, 20)) * time.Millisecond
	}
	if c.flip() {
		ctrl.Finishing = FuncFinishing(func(m core.OCModel) bool {
			for _, e := range m.Centroids() {
				use(deepSum(e))
			}
			use(m.RuntimeFigures()[core.Duration])
			return m.Status().Error != nil
		})
	}
	var r = c.realAlgo(ctrl, c.between(4, 20))
	var ra = raceAlgo{r: r, canCopy: true}
	switch conf := r.algo.Conf().(type) {
	case *kmeans.Conf:
		ra.copyOf = func(seed uint64) core.Conf {
			var nc = kmeans.Conf{CtrlConf: core.CtrlConf{Iter: 3}, K: 1 + int(seed%3), Par: seed%2 == 0, NumCPU: 2, RGen: genOf(seed)}
			return &nc
		}
	case *mcmc.Conf: // again, with a distribution that can be shared or not
		var init = []core.Initializer{kmeans.GivenInitializer, kmeans.PPInitializer, kmeans.RandInitializer}[c.intn(3)]
		var distrib mcmc.Distrib = flatDistrib{}
		if c.flip() {
			var g = c.gen()
			distrib = mcmc.NewLateDistrib(func(e core.Elemt) mcmc.Distrib {
				return mcmc.NewMultivT(mcmc.MultivTConf{Dim: len(e.([]float64)), RGen: g})
			})
			ra.canCopy = false
		}
		var nc = *conf
		r.algo = mcmc.NewAlgo(nc, r.space, r.data, init, distrib)
		ra.copyOf = func(seed uint64) core.Conf {
			return &mcmc.Conf{CtrlConf: core.CtrlConf{Iter: 3}, InitK: 1 + int(seed%3), MaxK: 4, Amp: .1, Par: seed%2 == 0, NumCPU: 2, RGen: genOf(seed)}
		}
	case *streaming.Conf:
		ra.copyOf = func(seed uint64) core.Conf {
			return &streaming.Conf{CtrlConf: core.CtrlConf{Iter: 3}, BufferSize: 300, RGen: genOf(seed)}
		}
	}
	return ra
}

func raceMethods(c *Case) {
	c.limit.Store(600)
	var rg = &safeRand{}
	rg.state.Store(c.Rng.Uint64())
	var notes atomic.Int64
	var ra = c.raceAlgo(func(oc core.OnlineClust, s core.OCStatus) {
		notes.Add(1)
		for _, e := range oc.Centroids() {
			use(deepSum(e))
		}
		use(oc.RuntimeFigures()[core.Iterations])
	})
	var algo = ra.r.algo
	var elems []core.Elemt
	for i := 0; i < 30; i++ {
		elems = append(elems, ra.r.elem())
	}
	var calls [16]atomic.Int64
	var wg sync.WaitGroup
	var clients = c.between(3, 6)
	var client = func(control bool) {
		defer wg.Done()
		c.protect(func() {
			var kept []core.Clust
			for i := 0; i < 25; i++ {
				spin(rg.next(20))
				var op = rg.next(16)
				if !control && op < 4 {
					op += 4
				}
				calls[op].Add(1)
				switch op {
				case 0:
					_ = algo.Init()
				case 1:
					_ = algo.Play()
				case 2:
					_ = algo.Pause()
				case 3:
					if rg.next(3) == 0 {
						_ = algo.Stop()
					} else {
						_ = algo.Play()
					}
				case 4, 5, 6:
					_ = algo.Push(elems[rg.next(len(elems))])
				case 7, 8:
					var p, l, d = algo.Predict(elems[rg.next(len(elems))])
					use(deepSum(p) + float64(l) + d)
				case 9, 10:
					var cl = algo.Centroids()
					for _, e := range cl {
						use(deepSum(e))
					}
					kept = append(kept, cl)
				case 11:
					var rf = algo.RuntimeFigures()
					for k, v := range rf {
						use(v + float64(len(k)))
					}
					rf["x"] = 1
				case 12:
					use(float64(algo.Status().Value))
					use(float64(algo.Conf().Ctrl().Iter))
					_ = algo.Impl()
					use(ra.r.space.Dist(elems[0], elems[1]))
					_ = algo.Space()
				case 13:
					_ = algo.Wait(nil, time.Duration(1+rg.next(3))*time.Millisecond)
				case 14, 15:
					var oc, err = algo.Copy(ra.copyOf(uint64(rg.next(1000))), ra.r.space)
					if err == nil && ra.canCopy {
						for k := rg.next(3); k >= 0; k-- {
							_ = oc.Push(elems[rg.next(len(elems))])
						}
						if oc.Play() == nil {
							spin(10)
							for _, e := range oc.Centroids() {
								use(deepSum(e))
							}
							_ = oc.Stop()
						}
					}
				}
			}
			for _, cl := range kept {
				for _, e := range cl {
					use(deepSum(e))
				}
			}
		})
	}
	if c.pick(.7) {
		_ = algo.Init()
		_ = algo.Play()
	}
	for i := 0; i < clients; i++ {
		wg.Add(1)
		go client(i < 2)
	}
	wg.Wait()
	if c.pick(.05) && ra.r.kind != "streaming" {
		var done = make(chan bool)
		go func() {
			select {
			case <-done:
			case <-time.After(50 * time.Millisecond):
				_ = algo.Stop()
			}
		}()
		_ = algo.Batch()
		close(done)
	}
	for algo.Status().Alive() {
		_ = algo.Stop()
	}
	var sig string
	for i := range calls {
		c.Count("calls", int(calls[i].Load()))
		sig += fmt.Sprint(calls[i].Load(), " ")
	}
	c.Count("iterations", int(algo.RuntimeFigures()[core.Iterations]))
	c.Count("notifications", int(notes.Load()))
	c.Seen("configurations", ra.r.kind, ra.r.par, fmt.Sprintf("%T", ra.r.space), clients)
	c.Distinct(ra.r.kind, ra.r.par, sig)
	c.Sample(fmt.Sprintf("%s par %v %T: calls %s", ra.r.kind, ra.r.par, ra.r.space, sig))
}

func raceBuffer(c *Case) {
	var rg = &safeRand{}
	rg.state.Store(c.Rng.Uint64())
	var elems = c.points(20, 2)
	var b = core.NewDataBuffer(elems[:c.intn(10)], c.between(-1, 12))
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 40; k++ {
				switch rg.next(4) {
				case 0:
					_ = b.Push(elems[rg.next(20)], true)
				case 1:
					_ = b.Push(elems[rg.next(20)], false)
				case 2:
					_ = b.Apply()
				case 3:
					for _, e := range b.Data() {
						use(deepSum(e))
					}
				}
			}
		}()
	}
	wg.Wait()
	c.Count("calls on buffers", 160)
	c.Distinct("buffer", c.Index)
}

func raceLate(c *Case) {
	var rg = &safeRand{}
	rg.state.Store(c.Rng.Uint64())
	var built = 0 // deliberately not synchronised: built once
	var d = mcmc.NewLateDistrib(func(e core.Elemt) mcmc.Distrib {
		built++
		spin(10)
		return flatDistrib{}
	})
	var wg sync.WaitGroup
	for i := 0; i < 6; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var x core.Elemt = []float64{float64(i), 1}
			spin(rg.next(10))
			for k := 0; k < 5; k++ {
				if rg.next(2) == 0 {
					use(deepSum(d.Sample(x, 3)))
				} else {
					use(d.Pdf(x, x, 3))
				}
			}
		}()
	}
	wg.Wait()
	c.Check(built == 1, "built %d times", built)
	c.Count("calls on late distributions", 30)
	c.Distinct("late", c.Index)
}

// algorithms that share observations, and concurrent parallel computations on the same centroids
func raceShared(c *Case) {
	c.limit.Store(600)
	var first = c.realAlgo(core.CtrlConf{Iter: 10}, 15)
	var data = first.data
	var cl = core.Clust(data[:c.between(1, 4)])
	var wg sync.WaitGroup
	var jobs = []func(){
		func() { _ = first.algo.Play(); spin(50); _ = first.algo.Stop() },
		func() {
			var a = kmeans.NewAlgo(kmeans.Conf{CtrlConf: core.CtrlConf{Iter: 10}, K: 2, Par: true, NumCPU: 3, RGen: genOf(1)}, first.space, data, kmeans.PPInitializer)
			_ = a.Play()
			for _, e := range data {
				_ = a.Push(e)
			}
			spin(50)
			_ = a.Stop()
		},
		func() {
			var a = streaming.NewAlgo(streaming.Conf{CtrlConf: core.CtrlConf{Iter: 10}, RGen: genOf(1)}, first.space, data)
			_ = a.Play()
			spin(50)
			_ = a.Stop()
		},
		func() { cl.ParMapLabel(data, first.space, 3) },
		func() { cl.ParReduceDBA(data, first.space, 3) },
		func() { cl.ParReduceLoss(data, first.space, 2, 4) },
		func() { cl.ParTotalLoss(data, first.space, 1, 2) },
		func() {
			var labels, _ = cl.MapLabel(data, first.space)
			cl.ParReduceDBAForLabels(data, labels, first.space, 3)
			cl.ParReduceLossForLabels(data, labels, first.space, 1, 3)
		},
		func() { _, _ = core.DBA(data, first.space) },
		func() { _, _ = kmeans.PPInitializer(1, data, first.space, genOf(1)) },
	}
	for _, j := range jobs {
		wg.Add(1)
		go func() { defer wg.Done(); c.protect(j) }()
	}
	wg.Wait()
	c.Count("concurrent jobs on shared observations", len(jobs))
	c.Distinct("shared", c.Index)
}

func TestC06(t *testing.T) {
	var h = newH(t, "C06", "3 to 6 goroutines calling all methods of kmeans, mcmc and streaming (sequential and parallel, 3 spaces), reading all that they return, with copies, "+
		"notifiers and end conditions reading the algorithm; data buffers; late distributions; algorithms and parallel computations sharing observations. "+
		"Oracle: the Go race detector. Non trivial: all; distinct by configuration and counts of calls",
		"a distribution with a generator is not shared with a running copy")
	h.CasesW("methods", h.N(1200, 20000), 10, raceMethods)
	h.CasesW("buffer", h.N(300, 3000), 8, raceBuffer)
	h.CasesW("late", h.N(300, 3000), 8, raceLate)
	h.CasesW("shared", h.N(300, 3000), 8, raceShared)
	h.Require("calls", 10000)
	h.Require("iterations", 1000)
}
