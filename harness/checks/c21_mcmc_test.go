package checks

import (
	"fmt"
	"math"
	"reflect"
	"slices"
	"strings"
	"sync"
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/cosinus"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	xrand "golang.org/x/exp/rand"
)

type sampleRec struct {
	mu, s []float64
	time  int
}

// recDistrib records the alterations
type recDistrib struct {
	inner mcmc.Distrib // nil: noise
	c     *Case
	noise float64
	amp   float64
	mu    sync.Mutex
	list  []sampleRec
}

func (d *recDistrib) Sample(mu core.Elemt, time int) core.Elemt {
	var m = mu.([]float64)
	var s = make([]float64, len(m))
	if d.inner != nil {
		copy(s, d.inner.Sample(mu, time).([]float64))
	} else {
		for i := range s {
			s[i] = m[i] + d.c.norm()*d.noise
		}
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	d.list = append(d.list, sampleRec{append([]float64{}, m...), append([]float64{}, s...), time})
	return s
}

func (d *recDistrib) Pdf(x, mu core.Elemt, time int) float64 { return d.pdf(x, mu, time) }

func (d *recDistrib) pdf(x, mu core.Elemt, time int) float64 {
	if d.inner != nil {
		return d.inner.Pdf(x, mu, time)
	}
	return d.amp*math.Sin(deepSum(x)/(1+10*d.noise)) + d.amp/float64(10+time)
}

func (d *recDistrib) take() []sampleRec {
	d.mu.Lock()
	defer d.mu.Unlock()
	var l = d.list
	d.list = nil
	return l
}

// acceptance and transition statistics over all cases
type mcmcStats struct {
	mu       sync.Mutex
	p, v     [10]float64 // expected acceptations and their variance by decile of rho
	acc, n   [10]int
	trans    map[string][3]int // transitions by ProbaK, not constrained
	probs    map[string][]float64
	removed  map[int][]int // rank of the removed centre by number of centres
	nearFrac [2]float64
}

type mcmcSnap struct {
	cl     core.Clust
	rf     core.RuntimeFigures
	pushed int
	recs   []sampleRec
	init   bool
}

func mcmcCase(c *Case, st *mcmcStats) {
	var dim = c.rarely(c.between(1, 4), .05, 5, 15)
	var n = []int{c.between(1, 6), c.between(5, 30), c.rarely(c.between(20, 80), .03, 200, 600)}[c.intn(3)]
	var kind = []string{"euclid", "euclid", "cosinus"}[c.intn(3)]
	var space core.Space = euclid.Space{}
	if kind == "cosinus" {
		space = cosinus.Space{}
	}
	var grid = c.pick(.3)
	var elem = func() core.Elemt {
		var v = make([]float64, dim)
		for i := range v {
			if grid {
				v[i] = float64(c.between(0, 2))
			} else {
				v[i] = c.norm() + 4*float64(c.intn(3))
			}
		}
		return v
	}
	var many = c.pick(.01)
	if many {
		n = c.between(100, 300)
	}
	var all []core.Elemt
	for i := 0; i < n; i++ {
		all = append(all, elem())
	}
	var initK = c.between(1, min(n, c.rarely(6, .05, 7, 25)))
	var maxK = initK + c.intn(5)
	if many { // centres
		initK = c.between(25, 90)
		maxK = initK + c.intn(40)
	}
	var probaK = [][]float64{{1, 8, 1}, {1, 1, 1}, {1, 0, 1}, {0, 1, 1}, {1, 1, 0}, {0, 1, 0}, {5, 1, 3}, {0, 0, 1}}[c.intn(8)]
	var norm = []float64{1, 2, 2, .5, 3}[c.intn(5)]
	var b = []float64{.1, .5, 1, 5}[c.intn(4)]
	var frame = 0
	if c.pick(.3) {
		frame = c.between(initK, n+3)
	}
	var par = c.flip()
	var pushing = c.pick(.3)
	var d = &recDistrib{c: c, noise: []float64{0, .05, .5, 3}[c.intn(4)], amp: []float64{0, .5, 2}[c.intn(3)]}
	var dname = "noise"
	switch c.intn(4) {
	case 0:
		dname, d.inner = "multivt", mcmc.NewMultivT(mcmc.MultivTConf{Dim: dim, Nu: float64(c.between(1, 5)), RGen: c.gen()})
	case 1:
		dname, d.inner = "dirac", mcmc.NewDirac()
	}
	var amp = []float64{0, .01, .1, 1, 10}[c.intn(5)]
	var conf = mcmc.Conf{InitK: initK, MaxK: maxK, ProbaK: probaK, Norm: norm, B: b, Amp: amp, FrameSize: frame, Par: par, NumCPU: c.between(1, 9), RGen: c.gen()}
	var where = fmt.Sprintf("%s dim %d, %d observations, frame %d, InitK %d, MaxK %d, ProbaK %v, norm %v, B %v, amp %v, %s, par %v", kind, dim, n, frame, initK, maxK, probaK, norm, b, amp, dname, par)
	var snaps []mcmcSnap
	var left = 0
	var sessions = 1 + c.intn(2)
	var algo *core.Algo
	var snap = func(m core.OCModel, init bool) {
		snaps = append(snaps, mcmcSnap{deepClust(m.Centroids()), m.RuntimeFigures(), len(all), d.take(), init})
	}
	var started = false
	conf.Finishing = FuncFinishing(func(m core.OCModel) bool {
		snap(m, !started)
		started = true
		left--
		if left < 0 {
			return true
		}
		if pushing && c.pick(.3) {
			for i := c.between(1, 3); i > 0; i-- {
				var e = elem()
				if err := algo.Push(e); err != nil {
					c.Errorf("push refused: %v", err)
				}
				all = append(all, e)
			}
		}
		return false
	})
	var name = []string{"given", "rand", "pp"}[c.intn(3)]
	var initializer = func(k int, e []core.Elemt, s core.Space, r *xrand.Rand) (core.Clust, error) {
		var cl, err = kmeans.CreateInitializer(name)(k, e, s, r)
		if err != nil {
			cl, err = kmeans.GivenInitializer(k, e, s, r)
		}
		return cl, err
	}
	algo = mcmc.NewAlgo(conf, space, append([]core.Elemt{}, all...), initializer, d)
	for s := 0; s < sessions; s++ {
		left, started = c.between(3, 20), false
		var want = len(snaps) + left + 1
		var err = algo.Batch()
		c.Check(err == nil, "%s: batch returned %v", where, err)
		c.Check(len(snaps) == want, "%s: %d evaluations of the condition instead of %d", where, len(snaps), want)
	}
	// replay
	var lossOf = func(cl core.Clust, data []core.Elemt) (sum float64) {
		for _, e := range data {
			var m = math.Inf(1)
			for _, x := range cl {
				m = math.Min(m, space.Dist(e, x))
			}
			sum += math.Pow(m, norm)
		}
		return
	}
	// what rounding errors on almost null distances may change in the loss
	var slackOf = func(cl core.Clust, data []core.Elemt) (sum float64) {
		var eps = 1e-14
		for _, e := range data {
			var m = math.Inf(1)
			for _, x := range cl {
				m = math.Min(m, space.Dist(e, x))
			}
			if m < 1e5*eps {
				sum += math.Pow(m+eps, norm) - math.Pow(math.Max(0, m-eps), norm)
			}
		}
		return
	}
	var densOf = func(cl core.Clust, time int) (sum float64) {
		for _, x := range cl {
			sum += d.pdf(x, x, time)
		}
		return
	}
	type state struct {
		loss, pdf float64
		used      int // observations of the last iteration
	}
	var curs []state // what the figures of the iterations do not distinguish
	var stored = map[int]core.Clust{}
	var accepted, moves = 0, 0
	var restarted = false
	var frameOf = func(m int) []core.Elemt {
		if frame > 0 && m > frame {
			return all[m-frame : m]
		}
		return all[:m]
	}
	var acc float64
	for i, s := range snaps {
		var iters = s.rf[core.Iterations]
		c.Check(s.rf[mcmc.Acceptations] <= iters, "%s: %v acceptations for %v iterations", where, s.rf[mcmc.Acceptations], iters)
		if s.init {
			restarted = i > 0
			var data = frameOf(s.pushed)
			curs = []state{{lossOf(s.cl, data), densOf(s.cl, len(data)), s.pushed}}
			acc = 0
			c.Check(len(s.cl) == initK, "%s: initialised with %d centres", where, len(s.cl))
			c.Check(iters == 0, "%s: %v iterations after the initialisation", where, iters)
			continue
		}
		var before = snaps[i-1]
		var k, newK = len(before.cl), len(s.recs)
		var low = curs[0].used
		for _, cu := range curs {
			low = min(low, cu.used)
		}
		if !before.init && snaps[i-2].pushed > low {
			low = snaps[i-2].pushed
		}
		// number of centres
		var lim = len(frameOf(low))
		var can = map[int]bool{}
		for j, p := range probaK {
			if p > 0 {
				can[max(1, min(k+j-1, maxK, lim))] = true
				can[max(1, min(k+j-1, maxK, len(frameOf(s.pushed))))] = true
			}
		}
		var free = true // an observation that is no centre, whatever the observations taken into account
		for m := low; m <= s.pushed; m++ {
			var any = false
			for _, e := range frameOf(m) {
				var m = math.Inf(1)
				for _, x := range before.cl {
					m = math.Min(m, space.Dist(e, x))
				}
				any = any || m > 0
			}
			free = free && any
		}
		if !free && can[k+1] {
			can[k] = true
		}
		c.Check(can[newK], "%s: %d centres proposed from %d, possible %v", where, newK, k, can)
		c.Check(newK >= 1 && newK <= maxK, "%s: %d centres proposed", where, newK)
		// their origin
		var mus = make(core.Clust, newK)
		var samples = make(core.Clust, newK)
		for j, r := range s.recs {
			mus[j], samples[j] = r.mu, r.s
		}
		var fromStore = stored[newK] != nil && reflect.DeepEqual(mus, stored[newK])
		if !fromStore {
			c.Check(stored[newK] == nil || restarted, "%s: proposal from %v, the last accepted centres of this size are %v", where, mus, stored[newK])
			var ok = false
			switch {
			case newK == k:
				ok = reflect.DeepEqual(mus, before.cl)
			case newK == k+1:
				ok = reflect.DeepEqual(mus[:k], before.cl)
				var found = false
				for _, e := range append(append([]core.Elemt{}, frameOf(low)...), all[low:s.pushed]...) {
					found = found || reflect.DeepEqual(e, mus[k])
				}
				var nearest = math.Inf(1)
				for _, x := range before.cl {
					nearest = math.Min(nearest, space.Dist(mus[k], x))
				}
				ok = ok && found && nearest > 0
				c.Count("centres added", 1)
			case newK == k-1:
				for del := 0; del < k; del++ {
					if reflect.DeepEqual(mus, append(append(core.Clust{}, before.cl[:del]...), before.cl[del+1:]...)) {
						ok = true
					}
				}
				c.Count("centres removed", 1)
			}
			c.Check(ok, "%s: %d centres proposed from %v, that do not come from the current ones %v", where, newK, mus, before.cl)
		} else {
			c.Count("proposals from accepted centres", 1)
		}
		if k > 1 && k < maxK && k < lim && free { // not constrained
			st.mu.Lock()
			var key = fmt.Sprint(probaK)
			var t = st.trans[key]
			t[newK-k+1]++
			st.trans[key] = t
			st.probs[key] = probaK
			st.mu.Unlock()
		}
		// the move and the rule
		var got = s.rf
		var a = got[mcmc.Acceptations] - acc
		c.Check(a == 0 || a == 1, "%s: acceptations went from %v to %v", where, acc, got[mcmc.Acceptations])
		acc = got[mcmc.Acceptations]
		var ok = false
		var diff string
		var diffs []string
		var nexts []state
		for m := low; m <= s.pushed; m++ {
			var data = frameOf(m)
			var time = len(data)
			diff = ""
			for _, r := range s.recs {
				if r.time != time {
					diff = fmt.Sprintf("alteration at time %d, %d observations", r.time, time)
				}
			}
			if got[mcmc.Time] != float64(time) {
				diff = fmt.Sprintf("time is %v, %d observations", got[mcmc.Time], time)
			}
			var prop, _ = lloydStep(kind, samples, data, space)
			for l := range prop {
				prop[l] = append([]float64{}, prop[l].([]float64)...)
			}
			var next = state{lossOf(prop, data), densOf(prop, time), m}
			var lambda = amp * math.Sqrt(float64(dim+3)/float64(time))
			if !near(got[mcmc.Lambda], lambda, 1e-12) && diff == "" {
				diff = fmt.Sprintf("lambda is %v instead of %v", got[mcmc.Lambda], lambda)
			}
			// the decision
			if diff == "" && a == 1 {
				if len(s.cl) != newK {
					diff = fmt.Sprintf("proposal with %d centres accepted, %d centroids", newK, len(s.cl))
				}
				for l := range prop {
					if diff == "" && !vecNear(prop[l].([]float64), s.cl[l], 20) {
						diff = fmt.Sprintf("accepted centre %d is %v, %v expected from %v", l, s.cl[l], prop[l], samples[l])
					}
				}
			}
			if diff == "" && a == 0 && !reflect.DeepEqual(before.cl, s.cl) {
				diff = fmt.Sprintf("proposal rejected, centroids changed from %v to %v", before.cl, s.cl)
			}
			if diff != "" {
				diffs = append(diffs, fmt.Sprintf("with %d: %s", m, diff))
				continue
			}
			// the figures
			var matches = func(loss, pdf float64) string {
				var gibbs = lambda * (loss - next.loss)
				var tol = 1e-9*lambda*(loss+next.loss) + 1e-12
				if kind == "cosinus" { // square roots of rounding errors
					tol = math.Max(tol, 1e-6*lambda*float64(time))
				}
				if norm < 1 && math.Abs(gibbs-got[mcmc.RGibbs]) > tol {
					tol += 2 * lambda * (slackOf(before.cl, all) + slackOf(prop, all))
				}
				if math.Abs(gibbs-got[mcmc.RGibbs]) > tol {
					return fmt.Sprintf("rGibbs is %v instead of %v = %v x (%v - %v)", got[mcmc.RGibbs], gibbs, lambda, loss, next.loss)
				}
				var want = gibbs + float64(dim*(k-newK))*math.Log(2*b) + pdf - next.pdf
				tol += 1e-9 * (math.Abs(pdf) + math.Abs(next.pdf) + 20)
				var rho = got[mcmc.Rho]
				switch {
				case want > 700 && rho > 1e300, want < -700 && rho < 1e-300, math.Abs(want) <= 700 && math.Abs(math.Log(rho)-want) <= tol:
					return ""
				}
				return fmt.Sprintf("rho is %v (log %v), log %v expected = %v + %v x (%d-%d) x log(2x%v) + %v - %v", rho, math.Log(rho), want, gibbs, dim, k, newK, b, pdf, next.pdf)
			}
			for _, cu := range curs {
				if cu.used > m {
					continue
				}
				var why = matches(cu.loss, cu.pdf)
				if why != "" && pushing { // the loss and density of the current centres on the data they were accepted with, or on the present ones
					var loss, pdf = lossOf(before.cl, data), densOf(before.cl, time)
					if matches(loss, cu.pdf) == "" || matches(cu.loss, pdf) == "" || matches(loss, pdf) == "" {
						why = ""
					}
				}
				if why != "" {
					diffs = append(diffs, fmt.Sprintf("with %d: %s", m, why))
					continue
				}
				ok = true
				var to = next
				if a == 0 {
					to = state{cu.loss, cu.pdf, m}
				}
				if !slices.Contains(nexts, to) {
					nexts = append(nexts, to)
				}
			}
		}
		if ok {
			curs = nexts
			var rho = got[mcmc.Rho]
			c.Check(a == 1 || !(rho >= 1), "%s: proposal rejected with rho %v", where, rho)
			c.Check(a == 0 || rho > 0, "%s: proposal accepted with rho %v", where, rho)
			if rho > 0 && rho < 1 {
				var q = int(rho * 10)
				st.mu.Lock()
				st.p[q] += rho
				st.v[q] += rho * (1 - rho)
				st.n[q]++
				st.acc[q] += int(a)
				st.mu.Unlock()
				c.Count("uncertain decisions", 1)
			}
			if a == 1 {
				accepted++
				if newK != k {
					moves++
				}
				stored[newK] = s.cl
			}
			if len(curs) > 1 {
				c.Count("ambiguous iterations", 1)
			}
		}
		if !ok {
			diff = strings.Join(diffs, "; ")
		}
		c.Check(ok, "%s: iteration %d of snapshot %d (%d to %d observations): %s", where, int(iters), i, low, s.pushed, diff)
		c.Eval(1)
		c.Count("iterations", 1)
	}
	c.Count("acceptations", accepted)
	c.Count("changes of size", moves)
	if accepted > 0 {
		c.Distinct(c.Index)
	}
	c.Sample(fmt.Sprintf("%s: %d iterations, %d accepted, %d changes of size", where, len(snaps)-sessions, accepted, moves))
}

// storeCase: centres of another size are drawn from the current ones
func storeCase(c *Case, draws int) {
	var k = c.between(1, 6)
	var n = c.between(k+1, k+8)
	var space = euclid.Space{}
	var data []core.Elemt
	for i := 0; i < n; i++ {
		data = append(data, []float64{float64(i), c.norm()})
	}
	var cl = make(core.Clust, k)
	for i, j := range c.Rng.Perm(n)[:k] {
		cl[i] = deepElemt(data[j])
		if c.flip() {
			cl[i].([]float64)[1] += c.norm()
		}
	}
	var saved = deepClust(cl)
	var savedData = deepClust(core.Clust(data))
	var added, removed = map[string]int{}, map[string]int{}
	var pAdd, pDel = map[string]float64{}, map[string]float64{}
	var sum = 0.
	for pass := 0; pass < 2; pass++ {
		for i, e := range data {
			var m = math.Inf(1)
			for _, x := range cl {
				m = math.Min(m, space.Dist(e, x))
			}
			if pass == 0 {
				sum += m
			} else if m > 0 {
				pAdd[fmt.Sprint(i)] = m / sum
			}
		}
	}
	for i := 0; i < k; i++ {
		pDel[fmt.Sprint(i)] = 1 / float64(k)
	}
	var store = mcmc.NewCenterStore(c.gen())
	for i := 0; i < draws; i++ {
		if c.pick(.2) {
			store = mcmc.NewCenterStore(c.gen())
		}
		var same, err = store.GetCenters(data, space, k, cl)
		c.Check(err == nil && reflect.DeepEqual(same, cl), "%d centres: same size gives %v, %v", k, same, err)
		var more, err1 = store.GetCenters(data, space, k+1, cl)
		c.Check(err1 == nil && len(more) == k+1 && reflect.DeepEqual(more[:k], saved), "%v: one more centre gives %v, %v", saved, more, err1)
		var found = -1
		for j, e := range data {
			if reflect.DeepEqual(e, more[k]) {
				found = j
			}
		}
		c.Check(found >= 0, "%v: added centre %v is no observation", saved, more[k])
		added[fmt.Sprint(found)]++
		if k > 1 {
			var less, err = store.GetCenters(data, space, k-1, cl)
			c.Check(err == nil && len(less) == k-1, "%v: one centre less gives %v, %v", saved, less, err)
			found = -1
			for del := 0; del < k && found < 0; del++ {
				if reflect.DeepEqual(less, append(append(core.Clust{}, saved[:del]...), saved[del+1:]...)) {
					found = del
				}
			}
			c.Check(found >= 0, "%v: one centre less gives %v", saved, less)
			removed[fmt.Sprint(found)]++
		}
		c.Check(reflect.DeepEqual(cl, saved) && reflect.DeepEqual(core.Clust(data), savedData), "%d centres: the current centres or the observations were changed", k)
	}
	c.frequencies(fmt.Sprintf("centre added to %v from %v", saved, savedData), added, pAdd)
	if k > 1 {
		c.frequencies(fmt.Sprintf("centre removed from %v", saved), removed, pDel)
	}
	// the last stored centres of a size
	var last = map[int]core.Clust{}
	for i := 0; i < 20; i++ {
		var x = make(core.Clust, c.between(1, 8))
		for j := range x {
			x[j] = []float64{c.norm(), c.norm()}
		}
		store.SetCenters(x)
		last[len(x)] = deepClust(x)
		for size, want := range last {
			var got, err = store.GetCenters(data, space, size, cl)
			c.Check(err == nil && reflect.DeepEqual(got, want), "%d centres stored: got %v, %v instead of %v", size, got, err, want)
		}
	}
	c.Count("draws of centres", 2*draws)
	c.Eval(draws)
	c.Distinct(c.Index)
	c.Sample(fmt.Sprintf("store: %d centres, %d observations, %d draws: added %v, removed %v", k, n, draws, added, removed))
}

func TestC21(t *testing.T) {
	var h = newH(t, "C21", "mcmc runs with a recording distribution (noise with an arbitrary density, multivariate T or Dirac) in the Euclidean and cosine spaces, sequential and parallel, "+
		"with frames, pushes between iterations and restarts; each iteration is replayed from the recorded alterations: number of centres, their origin, Lloyd step, loss, lambda, "+
		"rGibbs, rho, decision, centroids, acceptations; the store of centres alone: centre added, drawn by its distance, or removed, each as often as the others, centres stored;  frequencies of decisions by rho and of changes of size by ProbaK at 6 standard deviations. "+
		"Non trivial: a proposal was accepted; distinct by case",
		"with pushes the loss and density of the current centres may be those of the moment they were accepted or present ones",
		"after a restart a proposal may come from the accepted centres of the previous session or from the current ones")
	var st = &mcmcStats{trans: map[string][3]int{}, probs: map[string][]float64{}}
	h.Cases("runs", h.N(8000, 150000), func(c *Case) { c.Bubble(func() { mcmcCase(c, st) }) })
	h.Cases("store", h.N(100, 1000), func(c *Case) { storeCase(c, h.N(4000, 20000)) })
	h.Cases("frequencies", 1, func(c *Case) {
		if h.onlyG != "" {
			return
		}
		for q := range st.n {
			var diff = math.Abs(float64(st.acc[q]) - st.p[q])
			c.Check(diff <= 6*math.Sqrt(st.v[q])+1, "with rho in [%v, %v): %d accepted out of %d, %.1f expected", float64(q)/10, float64(q+1)/10, st.acc[q], st.n[q], st.p[q])
		}
		for key, tr := range st.trans {
			var counts, probs = map[string]int{}, map[string]float64{}
			var sum = 0.
			for _, p := range st.probs[key] {
				sum += p
			}
			for j, p := range st.probs[key] {
				var name = fmt.Sprintf("%+d", j-1)
				if tr[j] > 0 {
					counts[name] = tr[j]
				}
				if p > 0 {
					probs[name] = p / sum
				}
			}
			c.frequencies("changes of size with ProbaK "+key, counts, probs)
		}
		c.Sample(fmt.Sprintf("acceptations by decile of rho %v of %v, expected %.0f; changes %v", st.acc, st.n, st.p, st.trans))
	})
	for name, n := range map[string]int64{"uncertain decisions": 2000, "acceptations": 3000, "changes of size": 300, "centres added": 1000, "centres removed": 500, "proposals from accepted centres": 2000} {
		h.Require(name, n)
	}
}
