package checks

import (
	"fmt"
	"hash/fnv"
	"reflect"
	"testing"
	"testing/synctest"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/cosinus"
	"github.com/wearelumenai/distclus/dtw"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	"github.com/wearelumenai/distclus/streaming"
)

// pureDistrib has no state: what it gives is a function of the location
type pureDistrib struct{}

func (pureDistrib) Sample(mu core.Elemt, time int) core.Elemt {
	var m = mu.([]float64)
	var out = make([]float64, len(m))
	for i := range m {
		var f = fnv.New32a()
		fmt.Fprint(f, m, i, time)
		out[i] = m[i] + float64(f.Sum32()%1000)/2000 - .25
	}
	return out
}

func (pureDistrib) Pdf(x, mu core.Elemt, time int) float64 { return deepSum(x) * 1e-3 }

// algoSpec describes an algorithm that can be built several times identically
type algoSpec struct {
	probaK            []float64 // of mcmc, the default one if nil
	kind, space, init string
	k, frame, cpus    int
	par               bool
	seed              uint64
	window            int
	ctrl              core.CtrlConf
	buffer            int
	mu                float64
}

func (c *Case) algoSpec(kind string) (s algoSpec) {
	s.kind = kind
	s.space = []string{"euclid", "euclid", "cosinus", "dtw"}[c.intn(4)]
	if kind == "mcmc" && s.space == "dtw" {
		s.space = "euclid"
	}
	s.newConf(c)
	s.init = []string{"given", "rand", "pp"}[c.intn(3)]
	return
}

// newConf changes what a copy may change
func (s *algoSpec) newConf(c *Case) {
	s.k, s.cpus, s.par, s.seed, s.window = c.between(1, 4), c.between(1, 5), c.flip(), c.Rng.Uint64(), c.intn(3)
	s.frame = 0
	if c.pick(.5) {
		s.frame = c.between(s.k, 14)
	}
	s.buffer, s.mu = 400, []float64{.2, .5, 1}[c.intn(3)]
	s.ctrl = core.CtrlConf{}
}

func (s algoSpec) conf() core.Conf {
	switch s.kind {
	case "kmeans":
		return &kmeans.Conf{CtrlConf: s.ctrl, K: s.k, Par: s.par, NumCPU: s.cpus, FrameSize: s.frame, RGen: genOf(s.seed)}
	case "mcmc":
		return &mcmc.Conf{CtrlConf: s.ctrl, InitK: s.k, MaxK: 6, Amp: .2, ProbaK: s.proba(), Par: s.par, NumCPU: s.cpus, FrameSize: s.frame, RGen: genOf(s.seed)}
	}
	return &streaming.Conf{CtrlConf: s.ctrl, BufferSize: s.buffer, Mu: s.mu, RGen: genOf(s.seed)}
}

func (s algoSpec) proba() []float64 {
	if s.probaK != nil {
		return s.probaK
	}
	return []float64{1, 2, 1}
}

func (s algoSpec) newSpace() core.Space {
	switch s.space {
	case "cosinus":
		return cosinus.NewSpace()
	case "dtw":
		return dtw.NewSpace(dtw.Conf{InnerSpace: euclid.NewSpace(), Window: s.window})
	}
	return euclid.NewSpace()
}

func (s algoSpec) build(space core.Space, data []core.Elemt) *core.Algo {
	var init = kmeans.CreateInitializer(s.init)
	switch conf := s.conf().(type) {
	case *kmeans.Conf:
		return kmeans.NewAlgo(*conf, space, data, init)
	case *mcmc.Conf:
		return mcmc.NewAlgo(*conf, space, data, init, pureDistrib{})
	case *streaming.Conf:
		return streaming.NewAlgo(*conf, space, data)
	}
	return nil
}

// hooked is an algorithm driven through its end condition
type hooked struct {
	c      *Case
	algo   *core.Algo
	evals  int // evaluations of the end condition
	budget int
	at     func(n int)
}

func (c *Case) hooked(s algoSpec, data []core.Elemt) *hooked {
	var h = &hooked{c: c}
	s.ctrl.Finishing = FuncFinishing(func(core.OCModel) bool {
		h.evals++
		if h.at != nil {
			h.at(h.evals)
		}
		return h.evals > h.budget
	})
	h.algo = s.build(s.newSpace(), data)
	return h
}

func (h *hooked) run(n int) error {
	h.budget = h.evals + n
	var err = h.algo.Play()
	if err == nil {
		err = h.algo.Wait(nil, 0)
	}
	return err
}

// sameState compares what two algorithms publish
func sameState(a, b core.OnlineClust) string {
	if s, t := a.Status(), b.Status(); s.Value != t.Value || !sameErr(s.Error, t.Error) {
		return fmt.Sprintf("status %s and %s", sstr(s), sstr(t))
	}
	if !reflect.DeepEqual(a.Centroids(), b.Centroids()) {
		return fmt.Sprintf("centroids %v and %v", a.Centroids(), b.Centroids())
	}
	if f, g := a.RuntimeFigures(), b.RuntimeFigures(); !sameFigures(f, g) {
		return fmt.Sprintf("figures %v and %v", f, g)
	}
	return ""
}

func copyCase(c *Case) {
	var kind = []string{"kmeans", "kmeans", "mcmc", "streaming"}[c.intn(4)]
	var spec = c.algoSpec(kind)
	var elem = c.realElem(spec.space, 2)
	var initial, extra []core.Elemt
	var n = c.between(7, 25)
	var many = kind == "streaming" && c.pick(.15) // centres
	if many {
		n, spec.mu = c.between(50, 150), -1
	}
	for i := n; i > 0; i-- {
		initial = append(initial, elem())
	}
	for i := c.intn(12); i > 0; i-- {
		extra = append(extra, elem())
	}
	var stage = []string{"created", "ready", "running", "idle", "finished", "failed"}[c.intn(6)]
	var where = fmt.Sprintf("%s %s (%s, frame %d), copy when %s", spec.kind, spec.space, spec.init, spec.frame, stage)
	var a, twin = c.hooked(spec, initial), c.hooked(spec, initial)
	var accepted = append([]core.Elemt{}, initial...)
	var push = func(oc core.OnlineClust, es []core.Elemt) {
		for _, e := range es {
			var err = oc.Push(e)
			c.Check(err == nil, "%s: push refused: %v", where, err)
		}
	}
	var must = func(what string, err error, want error) {
		c.Check(sameErr(err, want), "%s: %s returns %v", where, what, err)
	}
	var j = c.between(2, 6)
	if many {
		j = c.between(n/2, n-2)
	}
	var late []core.Elemt // pushed when alive, right before the copy
	if c.flip() {
		for i := c.between(1, 8); i > 0; i-- {
			late = append(late, elem())
		}
	}
	// what the copy is and does, whatever happens to the original
	var tested = 0
	var use = func(orig *hooked) {
		var o = orig.algo
		tested++
		var status, clust, figures = o.Status(), o.Centroids(), o.RuntimeFigures()
		var deep = deepClust(clust)
		var spec2 = spec
		spec2.newConf(c)
		var others = 1 + c.intn(2)
		for other := 0; other < others; other++ {
			var data = accepted
			if spec.frame > 0 && len(data) > spec.frame {
				data = data[len(data)-spec.frame:]
			}
			if kind == "streaming" {
				data = o.Centroids()
				if c.pick(.3) && len(data) > 1 {
					spec2.buffer = c.between(1, len(data)-1)
					var conf = spec2.conf()
					var oc, err = o.Copy(conf, o.Space())
					c.Check(err != nil && oc == nil, "%s: %d centres copied in a buffer of %d: %v", where, len(data), spec2.buffer, err)
					c.Count("refused copies", 1)
				}
				spec2.buffer = max(1, len(data)) + c.intn(20)
			}
			data = append([]core.Elemt{}, data...)
			for spec2.k > len(data) && kind != "streaming" {
				spec2.k--
			}
			spec2.ctrl = core.CtrlConf{Iter: c.between(1, 8)}
			if kind == "streaming" {
				spec2.ctrl.Iter = max(1, len(data)-1)
			}
			var conf, space = spec2.conf(), spec2.newSpace()
			var oc, err = o.Copy(conf, space)
			c.Check(err == nil && oc != nil, "%s: copy returns %v", where, err)
			c.Check(oc.Status() == core.NewOCStatus(core.Created), "%s: copy is %s", where, sstr(oc.Status()))
			c.Check(len(oc.Centroids()) == 0, "%s: copy has centroids %v", where, oc.Centroids())
			for k, v := range oc.RuntimeFigures() {
				c.Check(v == 0, "%s: copy has figure %s %v", where, k, v)
			}
			c.Check(oc.Conf() == conf, "%s: copy does not use the configuration", where)
			c.Check(reflect.DeepEqual(oc.Space(), space), "%s: copy does not use the space", where)
			var fresh core.OnlineClust = spec2.build(spec2.newSpace(), data)
			// what is done to the copy and to the new algorithm
			var more []core.Elemt
			var room = 20
			if kind == "streaming" {
				room = spec2.buffer - len(data)
			}
			for i := c.intn(6); i > 0 && len(more) < room; i-- {
				more = append(more, elem())
			}
			if c.pick(.3) { // later operations on the original
				if s := o.Status().Value; s == core.Created || s == core.Finished {
					var e = elem()
					push(orig.algo, []core.Elemt{e})
					accepted = append(accepted, e)
					if orig == a {
						push(twin.algo, []core.Elemt{e})
					}
				}
			}
			for _, x := range []core.OnlineClust{oc, fresh} {
				push(x, more)
			}
			if kind == "streaming" && len(data)+len(more) == 0 {
				var e1, e2 = oc.Play(), fresh.Play()
				c.Check(e1 != nil && e2 != nil, "%s: play without data: %v, %v", where, e1, e2)
				continue
			}
			var e1, e2 error
			if kind == "streaming" {
				// the run must have something to process
				if len(data)+len(more) > 1 {
					e1, e2 = oc.Batch(), fresh.Batch()
				} else {
					e1, e2 = oc.Init(), fresh.Init()
				}
			} else {
				e1, e2 = oc.Batch(), fresh.Batch()
			}
			c.Check(sameErr(e1, e2), "%s: the copy ends with %v, a new algorithm with %v", where, e1, e2)
			var diff = sameState(oc, fresh)
			c.Check(diff == "", "%s: copy with frame %d, %d CPU, par %v and a new algorithm on the same %d observations then %d pushed: %s", where, spec2.frame, spec2.cpus, spec2.par, len(data), len(more), diff)
			if kind != "streaming" && c.flip() {
				push(oc, more)
				push(fresh, more)
				e1, e2 = oc.Batch(), fresh.Batch()
				diff = sameState(oc, fresh)
				c.Check(sameErr(e1, e2) && diff == "", "%s: second run of the copy: %v and %v, %s", where, e1, e2, diff)
			}
			c.Count("copies", 1)
			spec2.newConf(c)
		}
		// the original
		c.Check(sameStatus(o.Status(), status), "%s: status of the original goes from %s to %s", where, sstr(status), sstr(o.Status()))
		c.Check(reflect.DeepEqual(o.Centroids(), clust) && reflect.DeepEqual(deep, clust), "%s: centroids of the original change from %v to %v", where, deep, o.Centroids())
		var now = o.RuntimeFigures()
		delete(now, core.PushedData)
		delete(figures, core.PushedData)
		if _, ok := figures[core.Iterations]; !ok && now[core.Iterations] == 0 {
			delete(now, core.Iterations)
		}
		c.Check(sameFigures(now, figures), "%s: figures of the original change from %v to %v", where, figures, now)
	}
	var inHook = func(h *hooked, n int, do func()) {
		h.at = func(i int) {
			if i == n {
				c.protect(do)
			}
		}
	}
	for _, h := range []*hooked{twin, a} {
		if c.failed.Load() {
			return
		}
		var copying = h == a
		var do = func() {
			if len(late) > 0 && h.algo.Status().Alive() {
				push(h.algo, late)
				if copying {
					accepted = append(accepted, late...)
					c.Count("copies with observations not yet used", 1)
				} else if kind != "streaming" { // the original uses them from the copy on
					var _, err = h.algo.Copy(spec.conf(), spec.newSpace())
					must("copy", err, nil)
				}
			}
			if copying {
				use(h)
			}
		}
		var err error
		if stage == "created" || c.Index%2 == 0 { // before the initialisation
			push(h.algo, extra)
			if copying {
				accepted = append(accepted, extra...)
			}
		}
		switch stage {
		case "created":
			do()
		case "ready":
			must("play", h.run(j), nil)
			do()
		case "running":
			inHook(h, j, do)
			must("play", h.run(j+3), nil)
		case "idle":
			var reached, resume = make(chan bool), make(chan bool)
			inHook(h, j, func() { reached <- true; <-resume })
			h.budget = j + 3
			must("play", h.algo.Play(), nil)
			<-reached
			var paused = make(chan error)
			go func() { paused <- h.algo.Pause() }()
			synctest.Wait()
			close(resume)
			must("pause", <-paused, nil)
			c.Check(h.algo.Status().Value == core.Idle, "%s: paused algorithm is %s", where, sstr(h.algo.Status()))
			do()
			must("play", h.algo.Play(), nil)
			must("wait", h.algo.Wait(nil, 0), nil)
		case "finished":
			h.budget = j
			err = h.algo.Batch()
			must("batch", err, nil)
			push(h.algo, extra)
			if copying {
				accepted = append(accepted, extra...)
			}
			do()
		case "failed":
			h.at = func(i int) {
				if i == j {
					panic("failure")
				}
			}
			h.budget = j + 100
			c.Check(h.algo.Play() == nil, "%s: play fails", where)
			_ = h.algo.Wait(nil, 0)
			c.Check(h.algo.Status().Value == core.Finished && h.algo.Status().Error != nil, "%s: status %s", where, sstr(h.algo.Status()))
			h.at = nil
			do()
		}
		h.at = nil
	}
	if c.failed.Load() {
		return
	}
	c.Check(tested == 1, "%s: copied %d times", where, tested)
	var diff = sameState(a.algo, twin.algo)
	c.Check(diff == "", "%s: the copied algorithm and one that is not: %s", where, diff)
	// the original goes on like the other one
	var more = []core.Elemt{elem()}
	push(a.algo, more)
	push(twin.algo, more)
	var e1, e2 = a.run(4), twin.run(4)
	if e2 == kmeans.ErrNullSet { // the frame has the same observations several times
		must("play", e1, e2)
	} else {
		must("play", e1, nil)
		must("play", e2, nil)
	}
	diff = sameState(a.algo, twin.algo)
	c.Check(diff == "", "%s: the copied algorithm and one that is not, later: %s", where, diff)
	_ = a.algo.Stop()
	_ = twin.algo.Stop()
	c.Distinct(c.Index)
	c.Sample(where + fmt.Sprintf(", %d initial and %d pushed observations", len(initial), len(accepted)-len(initial)))
}

func TestC24(t *testing.T) {
	var h = newH(t, "C24", "kmeans, mcmc and streaming algorithms copied in each status (also from inside a run, and paused) with another configuration and space: the copy is compared with a new "+
		"algorithm built with the configuration on the observations it should have, and the original with a twin that is never copied, through further pushes, runs and stops. "+
		"Non trivial: every case; distinct by case",
		"observations pushed to an alive algorithm and not yet used by an iteration are used by the original from the copy on", "the distribution given to mcmc has no state")
	h.Cases("copies", h.N(6000, 100000), func(c *Case) { c.Bubble(func() { copyCase(c) }) })
	h.Require("copies", 3000)
	h.Require("refused copies", 50)
	h.Require("copies with observations not yet used", 500)
}
