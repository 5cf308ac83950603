package checks

import (
	"fmt"
	"math"
	"reflect"
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	xrand "golang.org/x/exp/rand"
)

// many observations: what a sample, a cache or a batch could change. Coordinates are small integers, so that sums and distances are exact

func (c *Case) manyInts(n int) (data []core.Elemt) {
	var dim = c.between(1, 2)
	if c.pick(.1) {
		dim, n = c.between(3, 300), n/20+20
	}
	var spread = 1 << c.between(2, 9)
	data = make([]core.Elemt, n)
	for i := range data {
		var v = make([]float64, dim)
		for j := range v {
			v[j] = float64(c.intn(spread))
		}
		data[i] = v
	}
	return
}

func (c *Case) manySize() int { return c.between(1, 9) * 1000 * int(math.Pow(10, float64(c.intn(2)))) }

type exactReduction struct {
	labels []int
	cards  []int
	sums   [][]float64
	losses []float64 // squares
}

func reduceExactly(cl core.Clust, data []core.Elemt) (r exactReduction) {
	r.labels, r.cards = make([]int, len(data)), make([]int, len(cl))
	r.sums, r.losses = make([][]float64, len(cl)), make([]float64, len(cl))
	for i, e := range data {
		var x = e.([]float64)
		var best, least, min = -1, math.Inf(1), 0.
		for l := range cl {
			if d := (euclid.Space{}).Dist(e, cl[l]); d < least { // whatever its roundings
				best, least = l, d
			}
		}
		for j, v := range cl[best].([]float64) {
			min += (x[j] - v) * (x[j] - v)
		}
		r.labels[i] = best
		r.cards[best]++
		r.losses[best] += min
		if r.sums[best] == nil {
			r.sums[best] = make([]float64, len(x))
		}
		for j := range x {
			r.sums[best][j] += x[j]
		}
	}
	return
}

func (r exactReduction) compare(c *Case, where string, cl core.Clust, before core.Clust) {
	c.Check(len(cl) == len(r.cards), "%s: %d centroids", where, len(cl))
	for l := range cl {
		if r.cards[l] == 0 {
			c.Check(before == nil || reflect.DeepEqual(cl[l], before[l]), "%s: centroid %d of an empty cluster is %v", where, l, cl[l])
			continue
		}
		for j, s := range r.sums[l] {
			var got = cl[l].([]float64)[j]
			c.Check(math.Abs(got-s/float64(r.cards[l])) < 1e-7, "%s: centroid %d is %v, sum of its %d observations %v", where, l, cl[l], r.cards[l], r.sums[l])
		}
	}
}

// kmeans: the first iteration from integer centres is exact
func manyLloyd(c *Case) {
	var data = c.manyInts(c.manySize())
	var n = len(data)
	var k = c.between(1, 12)
	var frame = 0
	if c.pick(.3) {
		frame = c.between(k, n+10)
	}
	var first = c.between(k, n)
	var conf = kmeans.Conf{K: k, Par: c.flip(), NumCPU: c.between(1, 40), FrameSize: frame, RGen: c.gen()}
	conf.Iter = 1
	var where = fmt.Sprintf("%d observations, %d of them pushed, K %d, frame %d, par %v, %d CPU", n, n-first, k, frame, conf.Par, conf.NumCPU)
	var start core.Clust
	var algo = kmeans.NewAlgo(conf, euclid.Space{}, data[:first:first], kmeans.GivenInitializer)
	for _, e := range data[first:] {
		c.Check(algo.Push(e) == nil, "push refused")
	}
	c.Check(algo.Init() == nil, "not initialised")
	start = algo.Centroids()
	if frame > 0 && n > frame {
		data = data[n-frame:]
	}
	for l := range start {
		c.Check(reflect.DeepEqual(start[l], data[l]), "%s: initial centroid %d is %v", where, l, start[l])
	}
	c.Check(algo.Play() == nil && algo.Wait(nil, 0) == nil, "%s: %s", where, sstr(algo.Status()))
	reduceExactly(start, data).compare(c, where, algo.Centroids(), start)
	c.Check(algo.RuntimeFigures()[core.PushedData] == float64(n-first), "%s: pushedData is %v", where, algo.RuntimeFigures()[core.PushedData])
	_ = algo.Stop()
	c.Count("observations of large sets", len(data))
	c.Distinct("many", c.Index)
	c.Sample(where)
}

// reductions of many elements, sequential and parallel
func manyReductions(c *Case) {
	var data = c.manyInts(c.manySize())
	var k = c.between(1, 12)
	if c.pick(.3) {
		k = c.between(13, 600)
		data = data[:len(data)/10]
	}
	var cl = make(core.Clust, k)
	for l := range cl {
		cl[l] = deepElemt(data[c.intn(len(data))])
	}
	var degree = c.between(1, 64)
	var space = euclid.Space{}
	var want = reduceExactly(cl, data)
	var where = fmt.Sprintf("%d elements, %d centroids, degree %d", len(data), k, degree)
	var labels = func(what string, got []int, dists []float64) {
		c.Check(reflect.DeepEqual(got, want.labels), "%s: %s", where, what)
		var sums = make([]float64, k)
		for i, d := range dists {
			sums[got[i]] += math.Round(d * d)
		}
		c.Check(reflect.DeepEqual(sums, want.losses), "%s: distances of %s", where, what)
	}
	var losses = func(what string, got []float64, cards []int) {
		c.Check(reflect.DeepEqual(cards, want.cards), "%s: cardinalities of %s %v, %v expected", where, what, cards, want.cards)
		for l := range got {
			c.Check(near(got[l], want.losses[l], 1e-9), "%s: losses of %s %v, %v expected", where, what, got, want.losses)
		}
	}
	var total = func(what string, got float64) {
		var s = 0.
		for _, l := range want.losses {
			s += l
		}
		c.Check(near(got, s, 1e-9), "%s: %s %v, %v expected", where, what, got, s)
	}
	var means = func(what string, got core.Clust, cards []int, before core.Clust) {
		c.Check(reflect.DeepEqual(cards, want.cards), "%s: cardinalities of %s %v, %v expected", where, what, cards, want.cards)
		want.compare(c, where+" "+what, got, before)
	}
	var a, b = cl.MapLabel(data, space)
	labels("MapLabel", a, b)
	a, b = cl.ParMapLabel(data, space, degree)
	labels("ParMapLabel", a, b)
	b, a = cl.ReduceLoss(data, space, 2)
	losses("ReduceLoss", b, a)
	b, a = cl.ParReduceLoss(data, space, 2, degree)
	losses("ParReduceLoss", b, a)
	b, a = cl.ReduceLossForLabels(data, want.labels, space, 2)
	losses("ReduceLossForLabels", b, a)
	b, a = cl.ParReduceLossForLabels(data, want.labels, space, 2, degree)
	losses("ParReduceLossForLabels", b, a)
	total("TotalLoss", cl.TotalLoss(data, space, 2))
	total("ParTotalLoss", cl.ParTotalLoss(data, space, 2, degree))
	var m, n = cl.ReduceDBA(data, space)
	means("ReduceDBA", m, n, nil)
	m, n = cl.ParReduceDBA(data, space, degree)
	means("ParReduceDBA", m, n, cl)
	m, n = cl.ReduceDBAForLabels(data, want.labels, space)
	means("ReduceDBAForLabels", m, n, nil)
	m, n = cl.ParReduceDBAForLabels(data, want.labels, space, degree)
	means("ParReduceDBAForLabels", m, n, nil)
	var mean, err = core.DBA(data, space)
	c.Check(err == nil, "DBA: %v", err)
	var all = reduceExactly(cl[:1], data)
	all.compare(c, where+" DBA", core.Clust{mean}, nil)
	c.Count("observations of large sets", len(data))
	c.Distinct("many", c.Index)
	c.Sample(where)
}

// two executions on many observations are identical
func manyAgain(c *Case) {
	var data = c.manyInts(c.manySize() / 2)
	for i := range data {
		for j, v := range data[i].([]float64) {
			data[i].([]float64)[j] = v / 7
		}
	}
	var kind, par, cpu, seed = c.intn(2), c.pick(.8), c.between(1, 40), c.Rng.Uint64()
	var init = []string{"rand", "pp", "given"}[c.intn(3)]
	var where = fmt.Sprintf("kind %d, %d observations, par %v, %d CPU, %s", kind, len(data), par, cpu, init)
	var run = func() (core.Clust, core.RuntimeFigures) {
		var ctrl = core.CtrlConf{Iter: 4}
		var algo *core.Algo
		var rgen = xrand.New(xrand.NewSource(seed))
		if kind == 0 {
			algo = kmeans.NewAlgo(kmeans.Conf{CtrlConf: ctrl, K: 5, Par: par, NumCPU: cpu, RGen: rgen}, euclid.Space{}, data, kmeans.CreateInitializer(init))
		} else {
			algo = mcmc.NewAlgo(mcmc.Conf{CtrlConf: ctrl, InitK: 4, MaxK: 6, Amp: 1, ProbaK: []float64{1, 2, 1}, Par: par, NumCPU: cpu, RGen: rgen}, euclid.Space{}, data, kmeans.CreateInitializer(init),
				mcmc.NewMultivT(mcmc.MultivTConf{Dim: len(data[0].([]float64)), RGen: xrand.New(xrand.NewSource(seed + 1))}))
		}
		var err = algo.Batch()
		c.Check(err == nil || init == "pp", "%s: %v", where, err)
		return algo.Centroids(), withoutTime(algo.RuntimeFigures())
	}
	var cl, rf = run()
	for i := 0; i < 2; i++ {
		var cl2, rf2 = run()
		c.Check(reflect.DeepEqual(cl, cl2) && sameFigures(rf, rf2), "%s: %v %v, then %v %v", where, cl, rf, cl2, rf2)
	}
	c.Count("observations of large sets", len(data))
	c.Distinct("many", c.Index)
	c.Sample(where)
}

// the frame of many observations pushed while nothing runs and during iterations: with one cluster the centroid is their mean
// manyDraws: centres drawn among many observations come from all parts of them
func manyDraws(c *Case) {
	var n = c.between(600, 6000)
	var space = euclid.NewSpace()
	var src = c.gen()
	var data = make([]core.Elemt, n)
	var weights = make([]float64, n)
	var shape = c.intn(3)
	var parts = c.between(2, 12)
	var where = fmt.Sprintf("%d observations, shape %d, %d parts", n, shape, parts)
	var sums, sizes = map[string]float64{}, map[string]float64{}
	var partOf = func(i int) string { return fmt.Sprint(i * parts / n) }
	var total = 0.
	for i := range data {
		switch shape {
		case 0:
			weights[i] = 1 + c.Rng.Float64()
		case 1: // most are far, in one part
			weights[i] = 1 + 1000*float64(i*parts/n%2)
		case 2: // few are not null
			if c.pick(.01) || i == n-1 {
				weights[i] = 1 + c.Rng.Float64()
			}
		}
		data[i] = []float64{weights[i], float64(i)} // distances do not depend on the index
		total += weights[i]
	}
	for i, w := range weights {
		if w > 0 {
			sums[partOf(i)] += w / total
		}
		sizes[partOf(i)] += 1 / float64(n)
	}
	var firstCoord = FirstSpace{space}
	var chosen, picked = map[string]int{}, map[string]int{}
	for d := 0; d < 400; d++ {
		var ix, err = kmeans.WeightedChoice(weights, src)
		c.Check(err == nil, "%s: %v", where, err)
		chosen[partOf(ix)]++
		var e core.Elemt
		e, err = kmeans.PPIter(core.Clust{[]float64{0, -1}}, data, firstCoord, src)
		c.Check(err == nil, "%s: %v", where, err)
		picked[partOf(int(e.([]float64)[1]))]++
	}
	c.frequencies(where+", weighted choice", chosen, sums)
	c.frequencies(where+", PPIter", picked, sums)
	var first = map[string]int{}
	var among = map[string]int{}
	var k = c.between(1, 5)
	for d := 0; d < 400; d++ {
		if d < 200 {
			var cl, err = kmeans.PPInitializer(min(k, 2), data, firstCoord, src)
			c.Check(err == nil && len(cl) == min(k, 2), "%s: pp gives %v, %v", where, cl, err)
			first[partOf(int(cl[0].([]float64)[1]))]++
		}
		var cl, err = kmeans.RandInitializer(k, data, firstCoord, src)
		c.Check(err == nil && len(cl) == k, "%s: rand gives %v, %v", where, cl, err)
		among[partOf(int(cl[c.intn(k)].([]float64)[1]))]++
	}
	c.frequencies(where+", first centre of pp", first, sizes)
	c.frequencies(where+", a centre of rand", among, sizes)
	c.Count("draws among many observations", 1600)
	c.Distinct("many", n, shape, parts)
}

// FirstSpace only looks at the first coordinate
type FirstSpace struct{ euclid.Space }

func (s FirstSpace) Dist(a, b core.Elemt) float64 {
	return math.Abs(a.([]float64)[0] - b.([]float64)[0])
}

func manyPushed(c *Case) {
	c.Bubble(func() {
		var size = min(c.manySize(), 20000) // a buffer may copy its content at each push
		if c.Index == 0 {
			size = 70000
		}
		var data = c.manyInts(size)
		var n = len(data)
		var frame = 0
		if c.pick(.7) {
			frame = c.between(1, n+10)
		}
		var first = c.between(1, n)
		var conf = kmeans.Conf{K: 1, FrameSize: frame, RGen: c.gen()}
		conf.IterFreq = 1
		var algo = kmeans.NewAlgo(conf, euclid.Space{}, data[:first:first], kmeans.GivenInitializer)
		var pushed = first
		var push = func(m int) {
			for ; m > 0 && pushed < n; m-- {
				c.Check(algo.Push(data[pushed]) == nil, "push refused")
				pushed++
			}
		}
		push(c.intn(n - first + 1))
		c.Check(algo.Play() == nil, "not started")
		for i := 0; i < 4; i++ {
			sleepFor(500)
			push(c.intn(n))
			sleepFor(500)
		}
		push(n)
		sleepFor(3000)
		var used = data
		if frame > 0 && n > frame {
			used = data[n-frame:]
		}
		var cl = algo.Centroids()
		c.Check(algo.Stop() == nil, "not stopped")
		reduceExactly(core.Clust{used[0]}, used).compare(c, fmt.Sprintf("%d observations, frame %d", n, frame), cl, nil)
		c.Check(algo.RuntimeFigures()[core.PushedData] == float64(n-first), "pushedData is %v, %d pushed", algo.RuntimeFigures()[core.PushedData], n-first)
		c.Count("observations of large sets", len(used))
		c.Distinct("many", c.Index)
		c.Sample(fmt.Sprintf("%d observations, frame %d", n, frame))
	})
}

func sleepFor(ms int) { time.Sleep(time.Duration(ms) * time.Millisecond) }
