package checks

import (
	"fmt"
	"math"
	"reflect"
	"testing"

	"github.com/wearelumenai/distclus/core"
)

// weighted mean of vectors, in double-double arithmetic
func bigMean(pts []core.Elemt, weights []int) []float64 {
	var dim = len(pts[0].([]float64))
	var out = make([]float64, dim)
	for d := range out {
		var hi, lo, w = 0., 0., 0.
		var add = func(x float64) {
			var s = hi + x
			var b = s - hi
			lo += (hi - (s - b)) + (x - b)
			hi = s
		}
		for i, p := range pts {
			var x, k = p.([]float64)[d], float64(weights[i])
			var prod = x * k
			add(prod)
			add(math.FMA(x, k, -prod))
			w += k
		}
		out[d] = (hi + lo) / w
	}
	return out
}

func ones(n int) []int {
	var w = make([]int, n)
	for i := range w {
		w[i] = 1
	}
	return w
}

func vecNear(a []float64, b core.Elemt, size float64) bool {
	var v, ok = b.([]float64)
	if !ok || len(v) != len(a) {
		return false
	}
	for i := range a {
		if math.Abs(a[i]-v[i]) > 1e-9*math.Max(size, math.Abs(a[i])) {
			return false
		}
	}
	return true
}

func maxAbs(pts []core.Elemt) (m float64) {
	for _, p := range pts {
		for _, x := range p.([]float64) {
			m = math.Max(m, math.Abs(x))
		}
	}
	return
}

// recorder of combinations: an element is the sequence of combinations that made it
type seqSpace struct{ d [][]float64 }

type seqElem struct {
	id   int
	expr string
}

func (s seqSpace) Dist(a, b core.Elemt) float64 {
	return tableDist(s.d, a.(seqElem).id, b.(seqElem).id)
}
func (s seqSpace) Combine(a core.Elemt, wa int, b core.Elemt, wb int) core.Elemt {
	switch { // a null weight changes nothing
	case wa == 0:
		return b
	case wb == 0:
		return a
	}
	return seqElem{math.MinInt32, fmt.Sprintf("(%s*%d+%s*%d)", a.(seqElem).expr, wa, b.(seqElem).expr, wb)}
}
func (s seqSpace) Copy(a core.Elemt) core.Elemt { return a }
func (s seqSpace) Dim([]core.Elemt) int         { return 1 }

func seqMean(ids []int, weights []int) string {
	if len(ids) == 0 {
		return "nil"
	}
	var expr = fmt.Sprint(ids[0])
	var w = weights[0]
	for i, id := range ids[1:] {
		if w == 0 {
			expr, w = fmt.Sprint(id), weights[i+1]
			continue
		}
		if weights[i+1] == 0 {
			continue
		}
		expr = fmt.Sprintf("(%s*%d+%d*%d)", expr, w, id, weights[i+1])
		w += weights[i+1]
	}
	return expr
}

func exprOf(e core.Elemt) string {
	if e == nil {
		return "nil"
	}
	return e.(seqElem).expr
}

func reductions(c *Case) {
	var kind, cl, elems, space = c.assignCase()
	for len(cl) == 0 {
		kind, cl, elems, space = c.assignCase()
	}
	if kind == "table" {
		space = seqSpace{space.(tableSpace).d}
		for i := range cl {
			cl[i] = seqElem{-1 - i, fmt.Sprint("c", i)}
		}
		for i := range elems {
			elems[i] = seqElem{i, fmt.Sprint(i)}
		}
	}
	var norm = []float64{1, 2, .5, 3, 1.3, 4}[c.intn(6)]
	var k, n = len(cl), len(elems)
	var labels = make([]int, n)
	for i := range labels {
		labels[i] = c.intn(k)
	}
	for _, given := range []bool{false, true} {
		var lab = make([]int, n)
		var wantLoss = make([]float64, k)
		var wantCard = make([]int, k)
		var members = make([][]int, k)
		for i, e := range elems {
			var all []float64
			for _, x := range cl {
				all = append(all, space.Dist(e, x))
			}
			lab[i], _ = refNearest(all)
			if given {
				lab[i] = labels[i]
			}
			wantLoss[lab[i]] += math.Pow(all[lab[i]], norm)
			wantCard[lab[i]]++
			members[lab[i]] = append(members[lab[i]], i)
		}
		var where = fmt.Sprintf("%s: %d centroids %d elements norm %v labels %v given %v", kind, k, n, norm, lab, given)
		var losses []float64
		var cards, kc []int
		var means []core.Elemt
		var name = "Reduce"
		if given {
			losses, cards = cl.ReduceLossForLabels(elems, labels, space, norm)
			means, kc = cl.ReduceDBAForLabels(elems, labels, space)
			name = "Reduce for labels"
		} else {
			losses, cards = cl.ReduceLoss(elems, space, norm)
			means, kc = cl.ReduceDBA(elems, space)
			var total, want = cl.TotalLoss(elems, space, norm), 0.
			for _, l := range wantLoss {
				want += l
			}
			c.Check(closeLoss(total, want), "%s: total loss %v, expected %v", where, total, want)
		}
		c.Check(reflect.DeepEqual(cards, wantCard), "%s: %s loss cardinalities %v, expected %v", where, name, cards, wantCard)
		c.Check(reflect.DeepEqual(kc, wantCard), "%s: %s mean cardinalities %v, expected %v", where, name, kc, wantCard)
		c.Check(len(losses) == k && len(means) == k, "%s: %d losses %d means", where, len(losses), len(means))
		for j := range losses {
			c.Check(closeLoss(losses[j], wantLoss[j]), "%s: %s losses %v, expected %v", where, name, losses, wantLoss)
			var pts []core.Elemt
			for _, i := range members[j] {
				pts = append(pts, elems[i])
			}
			switch {
			case len(pts) == 0:
				c.Check(means[j] == nil, "%s: mean %v of an empty cluster", where, means[j])
				c.Count("empty clusters", 1)
			case kind == "table":
				c.Check(exprOf(means[j]) == seqMean(members[j], ones(len(pts))), "%s: combination %v of cluster %d, expected %v", where, means[j], j, seqMean(members[j], ones(len(pts))))
			case kind == "dtw":
				var want = space.Copy(pts[0])
				for i, p := range pts[1:] {
					want = space.Combine(want, i+1, p, 1)
				}
				c.Check(closeVec(want, means[j], 1e-9), "%s: mean %v of cluster %d, expected %v", where, means[j], j, want)
			default:
				var want = bigMean(pts, ones(len(pts)))
				c.Check(vecNear(want, means[j], maxAbs(pts)), "%s: mean %v of cluster %d, expected %v", where, means[j], j, want)
			}
			c.Eval(1)
		}
		if n > 1 {
			c.Distinct(where)
		}
		c.Sample(where)
	}
}

func averages(c *Case) {
	var n = c.between(0, 30)
	var dim = c.between(1, 4)
	var kind = []string{"euclid", "cosinus", "dtw", "order"}[c.intn(4)]
	var _, _, _, space = c.assignCase()
	var elems []core.Elemt
	switch kind {
	case "order":
		space = seqSpace{}
		for i := 0; i < n; i++ {
			elems = append(elems, seqElem{i, fmt.Sprint(i)})
		}
	default:
		space = c.spaceOf(kind)
		var f = c.realElem(kind, dim)
		for i := 0; i < n; i++ {
			elems = append(elems, f())
		}
	}
	var weights = make([]int, n)
	var ids = make([]int, n)
	for i := range weights {
		weights[i] = c.between(1, 6)
		if c.pick(.1) {
			weights[i] = c.between(1, 1000000)
		}
		ids[i] = i
	}
	if n > 0 && c.flip() { // null weights, except one
		for i := range weights {
			if c.pick(.4) {
				weights[i] = 0
			}
		}
		weights[c.intn(n)] = c.between(1, 3)
	}
	for _, weighted := range []bool{false, true} {
		var w = ones(n)
		var got core.Elemt
		var err error
		if weighted {
			w = weights
			got, err = core.WeightedDBA(elems, weights, space)
		} else {
			got, err = core.DBA(elems, space)
		}
		var where = fmt.Sprintf("%s: %d elements weights %v", kind, n, w)
		if n == 0 {
			c.Check(err != nil && got == nil, "average of nothing: %v %v", got, err)
			c.Count("nothing to average", 1)
			continue
		}
		c.Check(err == nil, "%s: error %v", where, err)
		switch kind {
		case "order":
			c.Check(exprOf(got) == seqMean(ids, w), "%s: average %v, expected %v", where, exprOf(got), seqMean(ids, w))
		case "dtw":
			if w[0] == 0 {
				continue // the length depends on the first series all the same
			}
			var want = space.Copy(elems[0])
			var sum = w[0]
			for i, p := range elems[1:] {
				if w[i+1] > 0 {
					want = space.Combine(want, sum, p, w[i+1])
				}
				sum += w[i+1]
			}
			c.Check(closeVec(want, got, 1e-9), "%s: average %v, expected %v", where, got, want)
		default:
			var want = bigMean(elems, w)
			c.Check(vecNear(want, got, maxAbs(elems)), "%s: average %v, expected %v", where, got, want)
		}
		c.Count("averages", 1)
		c.Distinct("average", where)
	}
}

func TestC15(t *testing.T) {
	var h = newH(t, "C15", "losses, cardinalities and means of random clusters and labels recomputed from their definitions (means of vectors in 400 bit arithmetic, combinations "+
		"recorded symbolically, series by successive combinations). Non trivial: at least 2 elements; distinct by case", "weights are not negative, one at least is positive")
	h.Cases("reduce", h.N(20000, 400000), reductions)
	h.Cases("averages", h.N(10000, 200000), averages)
	h.CasesW("many", h.N(15, 200), 8, manyReductions)
	h.Require("empty clusters", 1000)
	h.Require("nothing to average", 50)
	h.Require("averages", 5000)
}
