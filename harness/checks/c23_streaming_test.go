package checks

import (
	"fmt"
	"math"
	"reflect"
	"sync"
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/cosinus"
	"github.com/wearelumenai/distclus/dtw"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/streaming"
)

// decisions against the normal law, by decile of probability
type normStats struct {
	mu     sync.Mutex
	p, v   [10]float64
	hit, n [10]int
}

func streamCase(c *Case, st *normStats) {
	var kind = []string{"euclid", "euclid", "bag", "cosinus", "dtw"}[c.intn(5)]
	var dim = c.between(1, 4)
	var n = []int{1, c.between(2, 10), c.between(5, 60), c.between(5, 60)}[c.intn(4)]
	var long = c.pick(.03) // many observations in few centres
	if long {
		n = c.between(300, 2000)
	}
	var spread = []float64{0, .1, 1, 1, 10}[c.intn(5)]
	var far = []float64{0, 0, .05, .2}[c.intn(4)]
	var ids = 0
	var grow = 1.
	if !long && c.pick(.2) {
		grow = 1.1
	}
	var scale = c.scale()
	var centre = c.points(1, dim)[0].([]float64)
	var vec = func() []float64 {
		var v = make([]float64, dim)
		var f = scale
		if c.pick(far) {
			f *= 5 + 50*c.Rng.Float64()
		}
		for i := range v {
			v[i] = centre[i]*scale + c.norm()*f*spread
		}
		return v
	}
	var elem = func() core.Elemt {
		scale *= grow
		switch kind {
		case "bag":
			ids++
			return BagVec{[]int{ids}, vec()}
		case "dtw":
			var s = make([][]float64, c.between(1, 5))
			for i := range s {
				s[i] = vec()
			}
			return s
		}
		return vec()
	}
	var space core.Space
	switch kind {
	case "euclid":
		space = euclid.Space{}
	case "bag":
		space = bagVecSpace{c}
	case "cosinus":
		space = cosinus.Space{}
	case "dtw":
		space = dtw.NewSpace(dtw.Conf{InnerSpace: euclid.Space{}, Window: c.intn(3)})
	}
	var data []core.Elemt
	for i := 0; i < n; i++ {
		if i > 0 && c.pick(.15) {
			var e = data[c.intn(i)]
			if kind == "bag" {
				ids++
				e = BagVec{[]int{ids}, e.(BagVec).v}
			}
			data = append(data, e)
		} else {
			data = append(data, elem())
		}
	}
	var conf = streaming.Conf{BufferSize: n, RGen: c.gen()}
	var mu, sigma, ratio, after = .5, .1, 2., 5
	if c.pick(.8) {
		mu = []float64{.1, .3, .5, .9, 1.2, -.1, 3}[c.intn(7)]
		conf.Mu = mu
	}
	if c.pick(.8) {
		sigma = []float64{1e-9, 1e-9, .1, .3, 1}[c.intn(5)]
		conf.Sigma = sigma
	}
	if c.pick(.8) {
		ratio = []float64{.3, .8, 1, 1.5, 2, 4}[c.intn(6)]
		conf.OutRatio = ratio
	}
	if c.pick(.8) {
		after = c.between(2, 10)
		conf.OutAfter = after
	}
	if long && c.pick(.8) {
		mu, sigma, ratio = 3, .1, 4
		conf.Mu, conf.Sigma, conf.OutRatio = mu, sigma, ratio
		c.Count("long streams in few centres", 1)
	}
	var initial = c.between(1, n)
	var where = fmt.Sprintf("%s dim %d, %d observations, Mu %v, Sigma %v, OutRatio %v, OutAfter %d", kind, dim, n, mu, sigma, ratio, after)
	type snap struct {
		cl core.Clust
		rf core.RuntimeFigures
	}
	var snaps []snap
	var next = initial
	var algo *core.Algo
	conf.Finishing = FuncFinishing(func(m core.OCModel) bool {
		var cl = m.Centroids()
		if len(snaps) == 0 || m.RuntimeFigures()[core.Iterations] > snaps[len(snaps)-1].rf[core.Iterations] {
			snaps = append(snaps, snap{append(core.Clust{}, cl...), m.RuntimeFigures()})
		}
		for next < n && c.pick(.5) {
			if err := algo.Push(data[next]); err != nil {
				c.Errorf("push %d refused: %v", next, err)
			}
			next++
		}
		return len(snaps) == n
	})
	var iterations = 0
	conf.Finishing = core.Finishing(FuncFinishing(func(f core.Finishing) func(core.OCModel) bool {
		return func(m core.OCModel) bool {
			iterations++
			return f.IsFinished(m) || iterations > 50*n+100
		}
	}(conf.Finishing)))
	algo = streaming.NewAlgo(conf, space, append([]core.Elemt{}, data[:initial]...))
	var err = algo.Batch()
	c.Check(err == nil, "%s: batch returned %v", where, err)
	c.Check(len(snaps) == n, "%s: %d observations processed", where, len(snaps))
	// replay
	c.Check(len(snaps[0].cl) == 1 && reflect.DeepEqual(snaps[0].cl[0], data[0]), "%s: first centre %v, first observation %v", where, snaps[0].cl, data[0])
	var cards = []int{1}
	var maxd = 0.
	var merged, added, outliers = 0, 0, 0
	for i := 1; i < n; i++ {
		var from, to, e = snaps[i-1].cl, snaps[i].cl, data[i]
		var cl = from
		var _, label, d = -1, 0, math.Inf(1)
		label = -1
		for l := range cl {
			if x := space.Dist(e, cl[l]); label < 0 || x < d {
				label, d = l, x
			}
		}
		var rel = d / maxd
		var corner = false // the maximal distance is this one or null
		if maxd == 0 {
			rel = d / d
			corner = true
		}
		var at = fmt.Sprintf("%s: observation %d, %v at %v of centre %d, maximal distance %v, relative distance %v", where, i, e, d, label, maxd, rel)
		var got = snaps[i].rf[streaming.MaxDistance]
		var isNew = len(to) == len(from)+1
		c.Check(isNew || len(to) == len(from), "%s: %d centres become %d", at, len(from), len(to))
		for l := range from {
			if isNew || l != label {
				c.Check(reflect.DeepEqual(from[l], to[l]), "%s: centre %d changed from %v to %v", at, l, from[l], to[l])
			}
		}
		var outlier = rel > ratio && i-1 >= after
		var p = math.NaN()
		if outlier {
			c.Check(isNew, "%s: outlier after %d observations is not a new centre", at, i-1)
			c.Check(got == maxd || corner && got == d, "%s: outlier, the maximal distance becomes %v", at, got)
			outliers++
			maxd = got
		} else {
			var z = (rel - mu) / sigma
			switch {
			case math.IsNaN(rel): // null distances: merged
				c.Check(!isNew, "%s: null distance, new centre", at)
			case z > 8:
				c.Check(isNew, "%s: not a new centre", at)
			case z < -8:
				c.Check(!isNew, "%s: new centre", at)
			default:
				p = .5 * math.Erfc(-z/math.Sqrt2)
			}
			maxd = math.Max(maxd, d)
			c.Check(got == maxd, "%s: the maximal distance becomes %v", at, got)
			if isNew {
				added++
			}
		}
		if isNew {
			c.Check(reflect.DeepEqual(to[len(to)-1], e), "%s: the new centre is %v", at, to[len(to)-1])
			cards = append(cards, 1)
		} else {
			var want = space.Combine(from[label], cards[label], e, 1)
			var ok bool
			if v, is := want.([]float64); is {
				var a, b = from[label].([]float64), e.([]float64)
				for j := range v {
					v[j] = (a[j]*float64(cards[label]) + b[j]) / float64(cards[label]+1)
				}
				ok = vecNear(v, to[label], maxAbs([]core.Elemt{a, b}))
			} else if kind == "bag" {
				ok = sameCentroid("bag", want, to[label], false, maxAbs([]core.Elemt{e.(BagVec).v, from[label].(BagVec).v}))
			} else {
				ok = closeVec(want, to[label], 1e-9)
			}
			c.Check(ok, "%s: merged with weight %d, %v becomes %v instead of %v", at, cards[label], from[label], to[label], want)
			cards[label]++
			merged++
		}
		if !math.IsNaN(p) {
			var q = min(9, int(p*10))
			st.mu.Lock()
			st.p[q] += p
			st.v[q] += p * (1 - p)
			st.n[q]++
			if isNew {
				st.hit[q]++
			}
			st.mu.Unlock()
			c.Count("uncertain decisions", 1)
		}
		c.Eval(1)
	}
	c.Check(reflect.DeepEqual(algo.Centroids(), snaps[n-1].cl), "%s: centroids after the end", where)
	c.Count("merged", merged)
	c.Count("new centres", added)
	c.Count("outliers", outliers)
	if n > 1 {
		c.Distinct(c.Index)
	}
	c.Sample(fmt.Sprintf("%s: %d merged, %d new, %d outliers", where, merged, added, outliers))
}

func TestC23(t *testing.T) {
	var h = newH(t, "C23", "streaming runs over 1 to 60 observations, given or pushed between iterations, in the Euclidean, cosine, DTW and an instrumented space, with narrow and wide "+
		"normal laws; each observation is replayed from the centres before and after it: nearest centre, relative distance, outlier, new centre or merge with its weight, maximal "+
		"distance; frequencies of uncertain decisions against the normal law at 6 standard deviations. Non trivial: at least two observations; distinct by case",
		"one initialisation only", "the first centre does not count among the observations processed before an outlier")
	var st = &normStats{}
	h.Cases("runs", h.N(12000, 250000), func(c *Case) { c.Bubble(func() { streamCase(c, st) }) })
	h.Cases("frequencies", 1, func(c *Case) {
		if h.onlyG != "" {
			return
		}
		for q := range st.n {
			var diff = math.Abs(float64(st.hit[q]) - st.p[q])
			c.Check(diff <= 6*math.Sqrt(st.v[q])+1, "%d new centres out of %d with probability in [%v, %v), %.1f expected", st.hit[q], st.n[q], float64(q)/10, float64(q+1)/10, st.p[q])
		}
		c.Sample(fmt.Sprintf("new centres by decile of probability %v of %v, expected %.0f", st.hit, st.n, st.p))
	})
	for name, n := range map[string]int64{"uncertain decisions": 20000, "merged": 20000, "new centres": 10000, "outliers": 1000} {
		h.Require(name, n)
	}
}
