package checks

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/cosinus"
	"github.com/wearelumenai/distclus/dtw"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	"github.com/wearelumenai/distclus/streaming"
)

// version of a result
type version struct{ session, iter int }

func (v version) before(w version) bool {
	return v.session < w.session || v.session == w.session && v.iter < w.iter
}

const poison = "poison"

// tagObserver reads results and verifies that each is one whole result, never older than before
type tagObserver struct {
	c     *Case
	algo  *core.Algo
	c0    version // last centroids
	f0    version // last figures
	kept  []core.Clust
	kept0 []core.Clust
	reads int
	moves int // reads of a new version
}

func (o *tagObserver) seeClust(cl core.Clust, what string) {
	if cl == nil {
		return
	}
	var first = cl[0].(Tag)
	for i, e := range cl {
		var t = e.(Tag)
		if t.Label != i || t.Size != len(cl) || t.Session != first.Session || t.Iter != first.Iter {
			o.c.Errorf("%s mix results: %v", what, cl)
			return
		}
	}
	o.seeVersion(version{first.Session, first.Iter}, what)
}

func (o *tagObserver) seeVersion(v version, what string) {
	if v.session < 0 {
		o.c.Errorf("%s of a failed iteration", what)
	}
	if v.before(o.c0) {
		o.c.Errorf("%s of iteration %v after those of %v", what, v, o.c0)
	}
	if v.session == o.f0.session && v.iter < o.f0.iter {
		o.c.Errorf("%s of iteration %v after figures of %v", what, v, o.f0)
	}
	if v != o.c0 {
		o.moves++
		o.c.Seen("versions", o.c.Index, v)
	}
	o.c0 = v
}

func (o *tagObserver) seeFigures(rf core.RuntimeFigures, what string) {
	var it = int(rf[core.Iterations])
	if _, ok := rf[poison]; ok {
		o.c.Errorf("%s contain what was written in returned figures: %v", what, rf)
	}
	var tag, ok = rf["tag"]
	if it > 0 && (!ok || int(tag) != it) || it == 0 && ok {
		o.c.Errorf("%s of iteration %v with %d iterations", what, tag, it)
	}
	if ok {
		var v = version{int(rf["session"]), int(tag)}
		if v.before(o.f0) {
			o.c.Errorf("%s of iteration %v after those of %v", what, v, o.f0)
		}
		if v.session == o.c0.session && v.iter < o.c0.iter {
			o.c.Errorf("%s of iteration %v after centroids of %v", what, v, o.c0)
		}
		o.f0 = v
	}
	rf[poison] = 1
	rf[core.Iterations] = math.Inf(1)
	delete(rf, core.PushedData)
}

func (o *tagObserver) read(op, x int) {
	o.reads++
	switch op {
	case 0:
		var cl = o.algo.Centroids()
		o.seeClust(cl, "centroids")
		if len(o.kept) < 50 && cl != nil {
			o.kept = append(o.kept, cl)
			o.kept0 = append(o.kept0, append(core.Clust{}, cl...))
		}
	case 1:
		var p, l, d = o.algo.Predict(x)
		if p == nil {
			if l != -1 {
				o.c.Errorf("label %d without centroid", l)
			}
			return
		}
		var t = p.(Tag)
		if l != t.Label || d != tagDist(x, t) || l != (x+t.Iter)%t.Size {
			o.c.Errorf("prediction of %d mixes results: centroid %+v label %d distance %v", x, t, l, d)
		}
		o.seeVersion(version{t.Session, t.Iter}, "prediction")
	case 2:
		o.seeFigures(o.algo.RuntimeFigures(), "figures")
	}
}

func (o *tagObserver) immutable() {
	for i := range o.kept {
		if !reflect.DeepEqual(o.kept[i], o.kept0[i]) {
			o.c.Errorf("centroids %v became %v", o.kept0[i], o.kept[i])
		}
	}
}

func probeSnapshots(c *Case) {
	var rg = &safeRand{}
	rg.state.Store(c.Rng.Uint64())
	var p = &Probe{c: c, Figures: true}
	var failEvery, emptyEvery = 0, 0
	if c.flip() {
		failEvery = c.between(10, 60)
	}
	if c.flip() {
		emptyEvery = c.between(2, 10)
	}
	var work = c.between(0, 5)
	var algo *core.Algo
	p.OnIter = func(s, i int) error {
		// what was produced before is visible
		var in = tagObserver{c: c, algo: algo}
		var cl = algo.Centroids()
		in.seeClust(cl, "centroids seen by the iteration")
		if in.c0 != (version{s, i - 1}) {
			c.Errorf("iteration %d/%d sees the centroids of %v", s, i, in.c0)
		}
		var rf = algo.RuntimeFigures()
		if int(rf[core.Iterations]) != i-1 {
			c.Errorf("iteration %d/%d sees figures %v", s, i, rf)
		}
		in.seeFigures(rf, "figures seen by the iteration")
		if i > 1 && in.f0 != (version{s, i - 1}) {
			c.Errorf("iteration %d/%d sees the figures of %v", s, i, in.f0)
		}
		spin(work)
		if failEvery > 0 && rg.next(failEvery) == 0 {
			if rg.next(2) == 0 {
				panic("iteration")
			}
			return errors.New("iteration")
		}
		return nil
	}
	p.Produce = func(int, int) bool { return emptyEvery == 0 || rg.next(emptyEvery) != 0 }
	p.OnModel = func(m core.OCModel, s, i int) {
		var in = tagObserver{c: c}
		in.seeClust(m.Centroids(), "centroids given to the iteration")
		var rf = m.RuntimeFigures()
		if in.c0 != (version{s, i}) || int(rf[core.Iterations]) != i {
			c.Errorf("iteration %d/%d is given the centroids of %v and figures %v", s, i+1, in.c0, rf)
		}
		in.seeFigures(rf, "figures given to the iteration")
	}
	var ctrl core.CtrlConf
	if c.flip() {
		ctrl.Iter = c.between(3, 100)
	}
	algo = core.NewAlgo(&ctrl, p, TagSpace{})
	var stop atomic.Bool
	var wg sync.WaitGroup
	var obs []*tagObserver
	for i := 0; i < 4; i++ {
		var o = &tagObserver{c: c, algo: algo}
		obs = append(obs, o)
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.protect(func() {
				for !stop.Load() || o.reads < 20 {
					o.read(rg.next(3), rg.next(100))
				}
				o.immutable()
			})
		}()
	}
	for i := 0; i < 12 && !c.failed.Load(); i++ {
		var from = p.iters.Load()
		switch c.intn(4) {
		case 0:
			_ = algo.Pause()
		case 1:
			_ = algo.Stop()
		default:
			_ = algo.Play()
		}
		for j := 0; j < 200 && p.iters.Load() < from+int64(c.intn(30)) && algo.Status().Value == core.Running; j++ {
			runtime.Gosched()
		}
	}
	_ = algo.Stop()
	stop.Store(true)
	wg.Wait()
	var moves = 0
	for _, o := range obs {
		c.Count("reads", o.reads)
		c.Count("new versions read", o.moves)
		moves += o.moves
	}
	c.Count("iterations", int(p.iters.Load()))
	if moves > 3 {
		c.Distinct("probe", c.Index, failEvery, emptyEvery, moves)
	}
	c.Sample(fmt.Sprintf("%d sessions %d iterations, failures 1/%d empty 1/%d: new versions read %d", p.inits.Load(), p.iters.Load(), failEvery, emptyEvery, moves))
}

// realAlgo builds a random real algorithm with its space and observations
type realConf struct {
	kind  string
	algo  *core.Algo
	space core.Space
	data  []core.Elemt
	elem  func() core.Elemt
	par   bool
}

func (c *Case) realElem(space string, dim int) func() core.Elemt {
	return func() core.Elemt {
		switch space {
		case "dtw":
			var s = make([][]float64, c.between(2, 6))
			for i := range s {
				s[i] = []float64{c.norm(), c.norm()}
			}
			return s
		}
		var p = make([]float64, dim)
		for i := range p {
			p[i] = c.norm() + float64(4*c.intn(3))
		}
		return p
	}
}

func (c *Case) realAlgo(ctrl core.CtrlConf, n int) *realConf {
	var r = &realConf{kind: []string{"kmeans", "mcmc", "streaming"}[c.intn(3)], par: c.flip()}
	var sp = []string{"euclid", "euclid", "cosinus", "dtw"}[c.intn(4)]
	if r.kind == "mcmc" && sp == "dtw" {
		sp = "euclid"
	}
	switch sp {
	case "euclid":
		r.space = euclid.NewSpace()
	case "cosinus":
		r.space = cosinus.NewSpace()
	case "dtw":
		r.space = dtw.NewSpace(dtw.Conf{InnerSpace: euclid.NewSpace(), Window: c.intn(3)})
	}
	r.elem = c.realElem(sp, 2)
	for i := 0; i < n; i++ {
		r.data = append(r.data, r.elem())
	}
	var frame = 0
	if c.pick(.3) {
		frame = c.between(5, 2*n)
	}
	var init = []core.Initializer{kmeans.GivenInitializer, kmeans.PPInitializer, kmeans.RandInitializer}[c.intn(3)]
	switch r.kind {
	case "kmeans":
		r.algo = kmeans.NewAlgo(kmeans.Conf{CtrlConf: ctrl, K: c.between(1, 4), Par: r.par, NumCPU: c.between(1, 4), FrameSize: frame, RGen: c.gen()}, r.space, r.data, init)
	case "mcmc":
		r.algo = mcmc.NewAlgo(mcmc.Conf{CtrlConf: ctrl, InitK: c.between(1, 4), MaxK: 5, Amp: .1, Par: r.par, NumCPU: c.between(1, 4), FrameSize: frame, RGen: c.gen(), ProbaK: []float64{1, 2, 1}},
			r.space, r.data, init, mcmc.NewMultivT(mcmc.MultivTConf{Dim: 2, RGen: c.gen()}))
	default:
		r.algo = streaming.NewAlgo(streaming.Conf{CtrlConf: ctrl, BufferSize: 10 * n, RGen: c.gen(), Mu: .3}, r.space, r.data)
	}
	return r
}

// log of the published results
type pubLog struct {
	mu sync.Mutex
	c  []core.Clust
	f  []core.RuntimeFigures
}

func (l *pubLog) add(m core.OCModel) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.c = append(l.c, deepClust(m.Centroids()))
	l.f = append(l.f, m.RuntimeFigures())
}

type realRead struct {
	clust, deep core.Clust
	fig         core.RuntimeFigures
	pred, pdeep core.Elemt
	label       int
	dist        float64
	x           core.Elemt
}

func figuresMatch(a, b core.RuntimeFigures) bool {
	var f = func(m core.RuntimeFigures) core.RuntimeFigures {
		m = withoutTime(m)
		delete(m, core.PushedData)
		if m[core.Iterations] == 0 { // no figures before the first push or iteration
			m[core.Iterations] = 0
		}
		return m
	}
	return sameFigures(f(a), f(b))
}

func realSnapshots(c *Case) {
	c.limit.Store(300)
	var log pubLog
	var rg = &safeRand{}
	rg.state.Store(c.Rng.Uint64())
	var ctrl = core.CtrlConf{Iter: c.between(5, 40)}
	var gateIters = ctrl.Iter
	ctrl.Finishing = FuncFinishing(func(m core.OCModel) bool {
		log.add(m)
		spin(rg.next(20))
		return false
	})
	var r = c.realAlgo(ctrl, c.between(8, 40))
	_ = gateIters
	var stop atomic.Bool
	var wg sync.WaitGroup
	var reads = make([][]realRead, 3)
	var elems []core.Elemt
	for i := 0; i < 10; i++ {
		elems = append(elems, r.elem())
	}
	c.what.Store("Init")
	c.Check(r.algo.Init() == nil, "initialisation: %v", r.algo.Status().Error)
	log.add(r.algo)
	for o := range reads {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.protect(func() {
				for n := 0; !stop.Load() && len(reads[o]) < 3000 || n < 5; n++ {
					var rd realRead
					switch rg.next(3) {
					case 0:
						rd.clust = r.algo.Centroids()
						rd.deep = deepClust(rd.clust)
					case 1:
						rd.fig = r.algo.RuntimeFigures()
					default:
						rd.x = elems[rg.next(len(elems))]
						rd.pred, rd.label, rd.dist = r.algo.Predict(rd.x)
						rd.pdeep = deepElemt(rd.pred)
					}
					reads[o] = append(reads[o], rd)
					spin(rg.next(5))
				}
			})
		}()
	}
	c.what.Store("run")
	c.Check(r.algo.Play() == nil, "not started")
	for i := 0; r.algo.Status().Value != core.Ready && r.algo.Status().Value != core.Finished; i++ {
		if i%7 == 0 {
			_ = r.algo.Push(elems[c.intn(len(elems))])
		}
		if i > 200 && r.kind == "streaming" { // no more data: it never ends
			_ = r.algo.Stop()
		}
		if c.pick(.05) && r.algo.Pause() == nil {
			log.add(r.algo)
			_ = r.algo.Play()
		}
		runtime.Gosched()
	}
	c.Check(r.algo.Status().Error == nil, "run failed: %v", r.algo.Status().Error)
	log.add(r.algo)
	stop.Store(true)
	wg.Wait()
	// offline: each observer saw results of the log, in order, and they did not change since
	var moves int
	for o := range reads {
		var at = 0
		for n, rd := range reads[o] {
			var match = func(i int) bool {
				switch {
				case rd.fig != nil:
					return figuresMatch(rd.fig, log.f[i])
				case rd.x == nil:
					return reflect.DeepEqual(rd.deep, log.c[i])
				}
				if rd.label < 0 || rd.label >= len(log.c[i]) || !reflect.DeepEqual(rd.pdeep, log.c[i][rd.label]) {
					return false
				}
				var cl = log.c[i]
				var _, l, d = cl.Assign(rd.x, r.space)
				return l == rd.label && d == rd.dist
			}
			var from = at
			for at < len(log.c) && !match(at) {
				at++
			}
			if at == len(log.c) {
				var older = false
				for i := 0; i < from; i++ {
					older = older || match(i)
				}
				c.Failf("%s: read %d of an observer is not a published result since the previous read (an older one: %v): centroids %v figures %v prediction %v %d %v",
					r.kind, n, older, rd.deep, rd.fig, rd.pdeep, rd.label, rd.dist)
			}
			if at > from {
				moves++
			}
			c.Check(rd.clust == nil || reflect.DeepEqual(rd.clust, rd.deep), "%s: centroids %v became %v", r.kind, rd.deep, rd.clust)
			c.Check(rd.x == nil || reflect.DeepEqual(rd.pred, rd.pdeep), "%s: predicted centroid %v became %v", r.kind, rd.pdeep, rd.pred)
		}
		c.Count("reads of real algorithms", len(reads[o]))
	}
	c.Count("new versions read, real algorithms", moves)
	c.Count("published results logged", len(log.c))
	if moves > 2 {
		c.Distinct("real", c.Index, r.kind, moves)
	}
	c.Sample(fmt.Sprintf("%s par %v: %d results published, new versions read %d", r.kind, r.par, len(log.c), moves))
	_ = r.algo.Stop()
}

// figures of the same published result are those of the iteration: sequential
func TestC07(t *testing.T) {
	var h = newH(t, "C07", "4 observers hammer centroids, predictions and figures of an algorithm whose results carry their session and iteration, with failing and empty "+
		"iterations, pauses and stops; 3 observers of kmeans, mcmc and streaming in 3 spaces, whose reads are matched with the log of published results. "+
		"Checked: whole results, never going back, visible before the next iteration, unchanged afterwards, figures isolated. Non trivial: observers saw at least 3 changes")
	h.CasesW("probe", h.N(1500, 20000), 12, probeSnapshots)
	h.CasesW("real", h.N(600, 8000), 12, realSnapshots)
	h.Require("new versions read", 2000)
	h.Require("new versions read, real algorithms", 300)
}
