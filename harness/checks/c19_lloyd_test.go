package checks

import (
	"math"
	"reflect"
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/cosinus"
	"github.com/wearelumenai/distclus/dtw"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	xrand "golang.org/x/exp/rand"
)

// BagVec is a combination of observations that tells which ones
type BagVec struct {
	ids []int
	v   []float64
}

// bagVecSpace verifies the weights of the combinations
type bagVecSpace struct{ c *Case }

func (s bagVecSpace) Dist(a, b core.Elemt) float64 {
	return euclid.Space{}.Dist(a.(BagVec).v, b.(BagVec).v)
}

func (s bagVecSpace) Combine(a core.Elemt, wa int, b core.Elemt, wb int) core.Elemt {
	var x, y = a.(BagVec), b.(BagVec)
	if wa != len(x.ids) || wb != len(y.ids) {
		s.c.Errorf("combination of %d observations with weight %d and %d with weight %d", len(x.ids), wa, len(y.ids), wb)
	}
	var v = make([]float64, len(x.v))
	for i := range v {
		v[i] = (x.v[i]*float64(wa) + y.v[i]*float64(wb)) / float64(wa+wb)
	}
	return BagVec{append(append([]int{}, x.ids...), y.ids...), v}
}

func (s bagVecSpace) Copy(a core.Elemt) core.Elemt {
	var x = a.(BagVec)
	return BagVec{append([]int{}, x.ids...), append([]float64{}, x.v...)}
}

func (s bagVecSpace) Dim(l []core.Elemt) int { return len(l[0].(BagVec).v) }

// a one step reference: the centroids that Lloyd's iteration gives. nil: not exactly determined
func lloydStep(kind string, cl core.Clust, data []core.Elemt, space core.Space) (next core.Clust, members [][]int) {
	next = make(core.Clust, len(cl))
	members = make([][]int, len(cl))
	for i, e := range data {
		var best, min = 0, space.Dist(e, cl[0])
		for l := 1; l < len(cl); l++ {
			if d := space.Dist(e, cl[l]); d < min {
				best, min = l, d
			}
		}
		members[best] = append(members[best], i)
	}
	for l, m := range members {
		if len(m) == 0 {
			next[l] = cl[l]
			continue
		}
		var pts = make([]core.Elemt, len(m))
		for j, i := range m {
			pts[j] = data[i]
		}
		switch kind {
		case "dtw":
			next[l] = space.Copy(pts[0])
			for j := 1; j < len(pts); j++ {
				next[l] = space.Combine(next[l], j, pts[j], 1)
			}
		case "bag":
			var ids []int
			var vs []core.Elemt
			for _, p := range pts {
				ids = append(ids, p.(BagVec).ids...)
				vs = append(vs, p.(BagVec).v)
			}
			next[l] = BagVec{ids, bigMean(vs, ones(len(vs)))}
		default:
			next[l] = bigMean(pts, ones(len(pts)))
		}
	}
	return
}

func sameCentroid(kind string, want, got core.Elemt, empty bool, size float64) bool {
	if empty {
		return reflect.DeepEqual(want, got)
	}
	switch kind {
	case "dtw":
		return closeVec(want, got, 1e-9)
	case "bag":
		var x, y = want.(BagVec), got.(BagVec)
		var a, b = map[int]int{}, map[int]int{}
		for _, i := range x.ids {
			a[i]++
		}
		for _, i := range y.ids {
			b[i]++
		}
		return reflect.DeepEqual(a, b) && vecNear(x.v, y.v, size)
	}
	return vecNear(want.([]float64), got, size)
}

// sum of squared distances to the nearest centroid
func squaredLoss(kind string, cl core.Clust, data []core.Elemt) (sum float64) {
	for _, e := range data {
		var best = math.Inf(1)
		for _, x := range cl {
			var a, b []float64
			if kind == "bag" {
				a, b = e.(BagVec).v, x.(BagVec).v
			} else {
				a, b = e.([]float64), x.([]float64)
			}
			var d = 0.
			for i := range a {
				d += (a[i] - b[i]) * (a[i] - b[i])
			}
			best = math.Min(best, d)
		}
		sum += best
	}
	return
}

func lloydCase(c *Case) {
	var kind = []string{"euclid", "euclid", "bag", "bag", "cosinus", "dtw"}[c.intn(6)]
	var dim = c.rarely(c.between(1, 6), .05, 7, 40)
	var n = []int{c.between(1, 6), c.between(5, 40), c.between(30, 250)}[c.intn(3)]
	if c.pick(.005) {
		n = c.between(1000, 3000)
	}
	if kind == "dtw" {
		n = c.between(1, 15)
	}
	var scale, offset = c.scale(), 0.
	if c.pick(.3) {
		offset = 1e4 * scale * c.norm()
	}
	var grid = c.pick(.4) // ties and duplicates
	var point = func() []float64 {
		var v = make([]float64, dim)
		for i := range v {
			if grid {
				v[i] = float64(c.between(-2, 2))
			} else {
				v[i] = (c.norm()+float64(c.intn(3)*4))*scale + offset
			}
		}
		return v
	}
	var ids = 0
	var elem = func() core.Elemt {
		switch kind {
		case "bag":
			ids++
			return BagVec{[]int{ids}, point()}
		case "dtw":
			var s = make([][]float64, c.between(1, 6))
			for i := range s {
				s[i] = point()
			}
			return s
		}
		return point()
	}
	var space core.Space
	switch kind {
	case "euclid":
		space = euclid.Space{}
	case "bag":
		space = bagVecSpace{c}
	case "cosinus":
		space = cosinus.Space{}
	case "dtw":
		space = dtw.NewSpace(dtw.Conf{InnerSpace: euclid.Space{}, Window: c.intn(3)})
	}
	var all []core.Elemt
	for i := 0; i < n; i++ {
		if i > 0 && c.pick(.1) {
			all = append(all, all[c.intn(i)])
			if kind == "bag" {
				ids++
				all[i] = BagVec{[]int{ids}, all[i].(BagVec).v}
			}
		} else {
			all = append(all, elem())
		}
	}
	var k = min(n, []int{1, 2, 3, c.rarely(c.between(1, 12), .2, 13, 70)}[c.intn(4)])
	var frame = 0
	if c.pick(.3) {
		frame = c.between(k, n+5)
	}
	var par = kind != "dtw" && c.flip() // a parallel combination of series is another one: it is not associative
	var cpus = []int{1, 2, 3, 7, 16, c.between(1, 40)}[c.intn(6)]
	var initializer core.Initializer
	var far = c.pick(.3) // initial centroids that are not observations: empty clusters
	var name = []string{"given", "rand", "pp"}[c.intn(3)]
	initializer = func(k int, e []core.Elemt, s core.Space, r *xrand.Rand) (core.Clust, error) {
		if far {
			var cl = make(core.Clust, k)
			for i := range cl {
				cl[i] = elem()
			}
			return cl, nil
		}
		var cl, err = kmeans.CreateInitializer(name)(k, e, s, r)
		if err != nil { // pp, duplicates
			cl, err = kmeans.GivenInitializer(k, e, s, r)
		}
		return cl, err
	}
	var pushing = c.flip()
	var iters = c.between(1, 12)
	type point_ struct {
		cl     core.Clust
		pushed int // total observations at this moment
	}
	var snaps []point_
	var algo *core.Algo
	var conf = kmeans.Conf{K: k, Par: par, NumCPU: cpus, FrameSize: frame, RGen: c.gen()}
	conf.Finishing = FuncFinishing(func(m core.OCModel) bool {
		snaps = append(snaps, point_{append(core.Clust{}, m.Centroids()...), len(all)})
		if len(snaps) > iters {
			return true
		}
		if pushing && c.pick(.4) {
			for i := c.between(1, 4); i > 0; i-- {
				var e = elem()
				if err := algo.Push(e); err != nil {
					c.Errorf("push refused: %v", err)
				}
				all = append(all, e)
			}
		}
		return false
	})
	algo = kmeans.NewAlgo(conf, space, append([]core.Elemt{}, all...), initializer)
	var err = algo.Batch()
	c.Check(err == nil, "batch returned %v", err)
	c.Check(len(snaps) == iters+1, "%d iterations instead of %d", len(snaps)-1, iters)
	c.Check(reflect.DeepEqual(algo.Centroids(), snaps[iters].cl), "centroids after the last iteration are not those given to the end condition")
	c.Check(len(snaps[0].cl) == k, "%d centroids for K %d", len(snaps[0].cl), k)
	var used = snaps[0].pushed // observations used by the previous iteration
	var empties, moved = 0, 0
	for i := 1; i <= iters; i++ {
		var from, to = snaps[i-1].cl, snaps[i].cl
		c.Check(len(to) == k, "iteration %d gives %d centroids instead of %d", i, len(to), k)
		var low = used
		if i >= 2 && snaps[i-2].pushed > low { // pushed before the start of the previous iteration
			low = snaps[i-2].pushed
		}
		var ok = false
		var diff string
		for m := low; m <= snaps[i].pushed && !ok; m++ {
			var data = all[:m]
			if frame > 0 && len(data) > frame {
				data = data[len(data)-frame:]
			}
			var size = 0.
			for _, e := range data {
				switch x := e.(type) {
				case BagVec:
					size = math.Max(size, maxAbs([]core.Elemt{x.v}))
				case []float64:
					size = math.Max(size, maxAbs([]core.Elemt{x}))
				}
			}
			// sameness of the set is enough: the frame does not keep the order
			var want, members = lloydStep(kind, from, data, space)
			ok = true
			for l := range want {
				var good = sameCentroid(kind, want[l], to[l], len(members[l]) == 0, size)
				if !good && kind == "dtw" && frame > 0 {
					good = true // combination of series depends on the order, that the frame does not keep
				}
				if !good {
					ok = false
					diff = sprintf("iteration %d, cluster %d: centroid is %v, %d observations give %v", i, l, to[l], len(members[l]), want[l])
				} else if len(members[l]) == 0 {
					empties++
				}
			}
			if ok {
				used = m
			}
		}
		c.Check(ok, "%s space, %d observations, frame %d, K %d, par %v, %d CPU, %d to %d observations pushed: %s", kind, n, frame, k, par, cpus, low, snaps[i].pushed, diff)
		if !reflect.DeepEqual(from, to) {
			moved++
		}
		c.Eval(1)
		if !pushing && (kind == "euclid" || kind == "bag") {
			var data = all
			if frame > 0 && len(data) > frame {
				data = data[len(data)-frame:]
			}
			var a, b = squaredLoss(kind, from, data), squaredLoss(kind, to, data)
			c.Check(b <= a+1e-9*math.Max(a, 1e-9*math.Pow(math.Abs(offset)+scale, 2)*float64(n)), "loss went from %v to %v at iteration %d", a, b, i)
			c.Count("losses compared", 1)
		}
	}
	// a fixed point stays so
	if !pushing && frame == 0 && kind != "dtw" && reflect.DeepEqual(snaps[iters].cl, snaps[iters-1].cl) {
		var cl = snaps[iters].cl
		var p2 = !par
		var other = kmeans.Conf{K: k, Par: p2, NumCPU: cpus, RGen: c.gen()}
		other.Iter = 3
		var start = append(core.Clust{}, cl...)
		var a2 = kmeans.NewAlgo(other, space, all, start.Initializer)
		c.Check(a2.Batch() == nil, "batch failed")
		var size = scale*20 + math.Abs(offset)
		var _, members = lloydStep(kind, cl, all, space)
		for l := range cl {
			c.Check(sameCentroid(kind, cl[l], a2.Centroids()[l], len(members[l]) == 0, size) || nearTie(kind, cl, all, space),
				"fixed point %v is %v after 3 iterations (parallel: %v)", cl[l], a2.Centroids()[l], p2)
		}
		c.Count("fixed points", 1)
	}
	c.Count("iterations", iters)
	c.Count("empty clusters", empties)
	if moved > 0 {
		c.Distinct(c.Index)
	}
	c.Sample(sprintf("%s space dim %d, %d observations, %d pushed, frame %d, K %d, par %v, %d CPU, %d iterations", kind, dim, n, len(all)-n, frame, k, par, cpus, iters))
}

// an observation at nearly the same distance from two centroids
func nearTie(kind string, cl core.Clust, data []core.Elemt, space core.Space) bool {
	for _, e := range data {
		var a, b = math.Inf(1), math.Inf(1)
		for _, x := range cl {
			var d = space.Dist(e, x)
			if d < a {
				a, b = d, a
			} else if d < b {
				b = d
			}
		}
		if b-a <= 1e-6*math.Max(a, 1) {
			return true
		}
	}
	return false
}

func TestC19(t *testing.T) {
	var h = newH(t, "C19", "kmeans runs in the Euclidean, cosine, DTW (sequential) and an instrumented space that records what is combined with which weight, sequential or "+
		"parallel with 1 to 40 CPU, with frames, duplicates, ties, centroids that are no observation and observations pushed between iterations; the centroids taken before "+
		"and after each iteration are compared with a double-double mean of the observations nearest to each. Non trivial: the centroids moved; distinct by case",
		"the space given is deterministic", "an iteration works on all observations pushed before the previous iteration and possibly on later ones")
	h.Cases("lloyd", h.N(6000, 150000), func(c *Case) { c.Bubble(func() { lloydCase(c) }) })
	h.CasesW("many", h.N(20, 300), 8, manyLloyd)
	h.Require("empty clusters", 500)
	h.Require("fixed points", 300)
	h.Require("losses compared", 3000)
}
