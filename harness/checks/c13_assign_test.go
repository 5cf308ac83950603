package checks

import (
	"fmt"
	"math"
	"reflect"
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/cosinus"
	"github.com/wearelumenai/distclus/dtw"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
)

// tableSpace gives the distances of a table between elements i and centroids -1-j, or between elements. It is symmetric.
type tableSpace struct{ d [][]float64 }

func (s tableSpace) Dist(a, b core.Elemt) float64                                  { return tableDist(s.d, a.(int), b.(int)) }
func (s tableSpace) Combine(a core.Elemt, wa int, b core.Elemt, wb int) core.Elemt { return a }
func (s tableSpace) Copy(a core.Elemt) core.Elemt                                  { return a }
func (s tableSpace) Dim([]core.Elemt) int                                          { return 1 }

// tableDist is d[a][-1-b] when b is negative, or the other way round. Others are not compared by the library
func tableDist(d [][]float64, a, b int) float64 {
	switch {
	case a >= 0 && b < 0:
		return d[a][-1-b]
	case a < 0 && b >= 0:
		return d[b][-1-a]
	case a == b:
		return 0
	case a < 0 || a >= len(d) || b >= len(d) || len(d) != len(d[0]):
		return 1
	case a > b:
		a, b = b, a
	}
	return d[a][b]
}

var tableValues = []float64{0, 0, 1, 1, 2, 0.5, math.Inf(1), -1e-17, -1e-9, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Copysign(0, -1), 3}

// refNearest: the first minimal
func refNearest(dists []float64) (int, float64) {
	var label = -1
	for i, d := range dists {
		var lowest = true
		for j, e := range dists {
			if e < d || j < i && e == d {
				lowest = false
			}
		}
		if lowest {
			label = i
		}
	}
	if label < 0 {
		return -1, 0
	}
	return label, dists[label]
}

// assignCase: centroids, elements and space of a random kind
func (c *Case) assignCase() (kind string, cl core.Clust, elems []core.Elemt, space core.Space) {
	var k, n = c.between(0, 8), c.between(0, 25)
	if c.pick(.05) {
		k = c.between(20, 80)
	}
	if c.pick(.02) {
		n = c.between(100, 400)
	}
	if c.pick(.002) {
		n, k = c.between(1000, 5000), c.between(1, 4)
	}
	kind = []string{"table", "table", "table", "euclid", "grid", "cosinus", "dtw"}[c.intn(7)]
	switch kind {
	case "table":
		var d = make([][]float64, n)
		var few = c.between(1, len(tableValues))
		var off = c.intn(len(tableValues))
		for i := range d {
			d[i] = make([]float64, k)
			for j := range d[i] {
				if c.pick(.1) {
					d[i][j] = c.norm() * c.scale()
				} else {
					d[i][j] = tableValues[(off+c.intn(few))%len(tableValues)]
				}
			}
			elems = append(elems, i)
		}
		for j := 0; j < k; j++ {
			cl = append(cl, -1-j)
		}
		if k == 0 {
			cl = core.Clust{}
		}
		return kind, cl, elems, tableSpace{d}
	case "dtw":
		space = dtw.NewSpace(dtw.Conf{InnerSpace: euclid.NewSpace(), Window: c.intn(3)})
	case "cosinus":
		space = cosinus.NewSpace()
	default:
		space = euclid.NewSpace()
	}
	var dim = c.rarely(c.between(1, 4), .05, 5, 40)
	var elem = c.realElem(kind, dim)
	if kind == "grid" { // ties
		elem = func() core.Elemt {
			var p = make([]float64, dim)
			for i := range p {
				p[i] = float64(c.between(-1, 1))
			}
			return p
		}
	}
	cl = core.Clust{}
	for j := 0; j < k; j++ {
		if j > 0 && c.pick(.2) {
			cl = append(cl, deepElemt(cl[c.intn(j)])) // same centroid twice
		} else {
			cl = append(cl, elem())
		}
	}
	var refs = c.pick(.3)
	for i := 0; i < n; i++ {
		if k > 0 && c.pick(.1) {
			elems = append(elems, deepElemt(cl[c.intn(k)]))
		} else if k > 0 && refs && c.pick(.1) { // the same memory
			elems = append(elems, cl[c.intn(k)])
		} else if i > 0 && refs && c.pick(.3) {
			elems = append(elems, elems[max(0, i-1-c.intn(3))])
		} else {
			elems = append(elems, elem())
		}
	}
	return
}

func TestC13(t *testing.T) {
	var h = newH(t, "C13", "random centroids, elements and distances (tables with ties, null, infinite, negative and extreme distances, grids, three real spaces), the result of Predict, Assign, "+
		"MapLabel and ParMapLabel being compared with the first minimum. Non trivial: at least 2 centroids and 1 element; distinct by case",
		"distances are numbers: no NaN")
	h.Cases("assign", h.N(40000, 800000), func(c *Case) {
		var kind, cl, elems, space = c.assignCase()
		var dists = func(e core.Elemt) (d []float64) {
			for _, x := range cl {
				d = append(d, space.Dist(e, x))
			}
			return
		}
		var labels, ds = cl.MapLabel(elems, space)
		c.Check(len(labels) == len(elems) && len(ds) == len(elems), "%d labels and %d distances for %d elements", len(labels), len(ds), len(elems))
		var degree = c.between(1, 12)
		if c.pick(.05) {
			degree = c.between(13, 300)
		}
		var pl, pd = cl.ParMapLabel(elems, space, degree)
		c.Check(len(pl) == len(elems) && len(pd) == len(elems), "%d labels and %d distances for %d elements, degree %d", len(pl), len(pd), len(elems), degree)
		var algo core.OnlineClust
		if len(cl) > 0 && c.pick(.3) {
			algo = kmeans.NewAlgo(kmeans.Conf{K: len(cl), Par: c.flip(), RGen: c.gen()}, space, elems, cl.Initializer)
			c.Check(algo.Init() == nil, "not initialised")
		}
		for i, e := range elems {
			var all = dists(e)
			var wl, wd = refNearest(all)
			var describe = func() string {
				return fmt.Sprintf("%s: element %d %v, centroids %v, distances %v", kind, i, e, cl, all)
			}
			var x, l, d = cl.Assign(e, space)
			c.Check(labels[i] == l && pl[i] == l, "%s: Assign gives label %d, MapLabel %d, ParMapLabel(%d) %d", describe(), l, labels[i], degree, pl[i])
			c.Check(l == wl, "%s: label %d", describe(), l)
			if wl < 0 {
				c.Check(x == nil, "%s: centroid %v", describe(), x)
				continue
			}
			c.Check(d == wd && ds[i] == wd && pd[i] == wd, "%s: distances %v (Assign) %v (MapLabel) %v (ParMapLabel)", describe(), d, ds[i], pd[i])
			c.Check(reflect.DeepEqual(x, cl[wl]), "%s: centroid %v", describe(), x)
			if algo != nil {
				var x, l, d = algo.Predict(e)
				c.Check(l == wl && d == wd && reflect.DeepEqual(x, cl[wl]), "%s: prediction %v %d %v", describe(), x, l, d)
				c.Count("predictions", 1)
			}
			for j := range all {
				if j != wl && all[j] == wd {
					c.Count("ties", 1)
					break
				}
			}
			if math.IsInf(wd, 1) {
				c.Count("infinite distances", 1)
			}
			if wd < 0 {
				c.Count("negative distances", 1)
			}
			c.Eval(1)
		}
		if algo != nil {
			_ = algo.Stop()
		}
		if len(cl) > 1 && len(elems) > 0 {
			c.Distinct(kind, len(cl), len(elems), labels, degree)
		}
		if len(cl) == 0 {
			c.Count("without centroid", 1)
		}
		c.Sample(fmt.Sprintf("%s: %d centroids %d elements degree %d labels %v", kind, len(cl), len(elems), degree, labels))
	})
	h.Cases("created", h.N(20, 200), func(c *Case) { // no centroids yet
		var r = c.realAlgo(core.CtrlConf{}, 8)
		var x, l, _ = r.algo.Predict(r.elem())
		c.Check(x == nil && l == -1, "prediction of a created algorithm: %v %d", x, l)
		var cl core.Clust
		x, l, _ = cl.Assign(r.elem(), r.space)
		c.Check(x == nil && l == -1, "assignment to no centroid: %v %d", x, l)
		c.Count("without centroid", 1)
	})
	h.Require("ties", 10000)
	h.Require("infinite distances", 100)
	h.Require("negative distances", 1000)
	h.Require("predictions", 5000)
	h.Require("without centroid", 100)
}
