package checks

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/wearelumenai/distclus/core"
)

// parallel processes: ranges, completion, panics
func parRanges(c *Case) {
	var size, degree = c.intn(60), c.between(1, 20)
	if c.pick(.1) {
		size = c.intn(5000)
	}
	if c.pick(.1) {
		degree = c.between(1, 300)
	}
	if c.Index < 12*40 { // all the small ones
		size, degree = c.Index%40, 1+c.Index/40
	}
	var failing = c.pick(.4)
	var failRanks = map[int]bool{}
	if failing {
		for i := c.between(1, 3); i > 0; i-- {
			failRanks[c.intn(degree)] = true
		}
	}
	var slow = c.intn(3)
	c.Bubble(func() {
		var mu sync.Mutex
		type rg struct{ start, end, rank int }
		var got []rg
		var running, done atomic.Int32
		var recovered interface{}
		func() {
			defer func() { recovered = recover() }()
			core.Par(func(start, end, rank int) {
				running.Add(1)
				mu.Lock()
				got = append(got, rg{start, end, rank})
				mu.Unlock()
				if slow > 0 {
					time.Sleep(time.Duration((rank*7+slow)%5) * time.Millisecond)
				}
				done.Add(1)
				if failRanks[rank] {
					panic(fmt.Sprintf("rank %d", rank))
				}
			}, size, degree)
		}()
		c.Check(int(done.Load()) == degree, "size %d degree %d: %d processes ended when the call returned", size, degree, done.Load())
		if failing {
			var ok = false
			for r := range failRanks {
				ok = ok || recovered == fmt.Sprintf("rank %d", r)
			}
			c.Check(ok, "size %d degree %d: panics of ranks %v, the caller gets %v", size, degree, failRanks, recovered)
			c.Count("panics", 1)
		} else {
			c.Check(recovered == nil, "size %d degree %d: panic %v", size, degree, recovered)
		}
		synctest.Wait()
		sort.Slice(got, func(i, j int) bool { return got[i].rank < got[j].rank })
		var hits = make([]int, size)
		for i, r := range got {
			c.Check(r.rank == i, "size %d degree %d: ranks %v", size, degree, got)
			c.Check(0 <= r.start && r.start <= r.end && r.end <= size, "size %d degree %d: range %v", size, degree, r)
			for x := r.start; x < r.end; x++ {
				hits[x]++
			}
		}
		for x, n := range hits {
			c.Check(n == 1, "size %d degree %d: index %d is in %d ranges: %v", size, degree, x, n, got)
		}
		c.Count("ranges", len(got))
		c.Distinct("par", size, degree, failRanks)
	})
}

func closeVec(a, b core.Elemt, tol float64) bool {
	if (a == nil) != (b == nil) {
		return false
	}
	if a == nil {
		return true
	}
	switch x := a.(type) {
	case []float64:
		var y, ok = b.([]float64)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !near(x[i], y[i], tol) {
				return false
			}
		}
		return true
	case [][]float64:
		var y, ok = b.([][]float64)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !closeVec(x[i], y[i], tol) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a, b)
}

func sortedIDs(e core.Elemt) string {
	if e == nil {
		return "nil"
	}
	var ids = append([]int{}, e.(Bag).ids...)
	sort.Ints(ids)
	return fmt.Sprint(ids)
}

func parEqualsSeq(c *Case) {
	var kind, cl, elems, space = c.assignCase()
	for len(cl) == 0 {
		kind, cl, elems, space = c.assignCase()
	}
	if kind == "table" { // bags measured by the table, for means
		var d = space.(tableSpace)
		space = tableBag{BagSpace{c: c}, d.d}
		for i := range cl {
			cl[i] = Bag{[]int{-1 - i}}
		}
		for i := range elems {
			elems[i] = Bag{[]int{i}}
		}
	}
	var degree = c.between(1, 12)
	if c.pick(.1) {
		degree = c.between(13, 200)
	}
	var norm = []float64{1, 2, .5, 3, 1.7}[c.intn(5)]
	var where = fmt.Sprintf("%s: %d centroids %d elements degree %d norm %v", kind, len(cl), len(elems), degree, norm)
	var sl, sd = cl.MapLabel(elems, space)
	var pl, pd = cl.ParMapLabel(elems, space, degree)
	c.Check(reflect.DeepEqual(sl, pl) && fmt.Sprint(sd) == fmt.Sprint(pd), "%s: labels %v %v, distances %v %v", where, sl, pl, sd, pd)
	var losses = func(what string, a []float64, ca []int, b []float64, cb []int) {
		c.Check(len(a) == len(b), "%s: %d and %d %s", where, len(a), len(b), what)
		c.Check(reflect.DeepEqual(ca, cb), "%s: %s cardinalities %v, in parallel %v", where, what, ca, cb)
		for i := range a {
			c.Check(closeLoss(a[i], b[i]), "%s: %s %v, in parallel %v", where, what, a, b)
		}
	}
	var a, ca = cl.ReduceLoss(elems, space, norm)
	var b, cb = cl.ParReduceLoss(elems, space, norm, degree)
	losses("losses", a, ca, b, cb)
	var labels = make([]int, len(elems))
	for i := range labels {
		labels[i] = c.intn(len(cl))
	}
	if c.flip() {
		copy(labels, sl)
	}
	a, ca = cl.ReduceLossForLabels(elems, labels, space, norm)
	b, cb = cl.ParReduceLossForLabels(elems, labels, space, norm, degree)
	losses("losses for labels", a, ca, b, cb)
	var ts, tp = cl.TotalLoss(elems, space, norm), cl.ParTotalLoss(elems, space, norm, degree)
	c.Check(closeLoss(ts, tp), "%s: total loss %v, in parallel %v", where, ts, tp)
	if kind != "dtw" { // averages of series are not associative
		var same = func(x, y core.Elemt) bool {
			if kind == "table" {
				return sortedIDs(x) == sortedIDs(y)
			}
			return closeVec(x, y, 1e-9)
		}
		var ms, cs = cl.ReduceDBAForLabels(elems, labels, space)
		var mp, cp = cl.ParReduceDBAForLabels(elems, labels, space, degree)
		c.Check(reflect.DeepEqual(cs, cp) && len(ms) == len(mp), "%s: cardinalities for labels %v, in parallel %v", where, cs, cp)
		for i := range ms {
			c.Check(same(ms[i], mp[i]), "%s: means for labels %v, in parallel %v", where, ms, mp)
		}
		var rs, ks = cl.ReduceDBA(elems, space)
		var rp, kp = cl.ParReduceDBA(elems, space, degree)
		c.Check(len(rp) == len(cl) && reflect.DeepEqual(ks, kp), "%s: cardinalities %v, in parallel %v", where, ks, kp)
		for i := range rs {
			if ks[i] > 0 {
				c.Check(same(rs[i], rp[i]), "%s: means %v, in parallel %v", where, rs, rp)
			} else {
				c.Check(reflect.DeepEqual(rp[i], cl[i]), "%s: empty cluster %d becomes %v instead of %v", where, i, rp[i], cl[i])
				c.Count("empty clusters", 1)
			}
		}
		c.Count("means compared", 1)
	}
	if degree > len(elems) {
		c.Count("degree greater than the number of elements", 1)
	}
	if len(elems) == 0 {
		c.Count("no element", 1)
	}
	c.Distinct(where, sl)
	c.Sample(where)
}

func closeLoss(a, b float64) bool {
	if math.IsNaN(a) && math.IsNaN(b) {
		return true
	}
	return a == b || math.Abs(a-b) <= 1e-9*math.Max(math.Abs(a), math.Abs(b))
}

// tableBag: bags whose distances are in a table
type tableBag struct {
	BagSpace
	d [][]float64
}

func (s tableBag) Dist(a, b core.Elemt) float64 {
	return tableDist(s.d, a.(Bag).ids[0], b.(Bag).ids[0])
}

// a panic in the space during any parallel computation reaches the caller once all is done
func parPanics(c *Case) {
	var n, degree = c.between(1, 30), c.between(1, 10)
	var pts = c.points(n, 2)
	var at = int64(c.between(1, n))
	var calls atomic.Int64
	var f = newFaults("combine", "panic string", 1)
	var op = c.intn(5)
	if op < 3 {
		f = newFaults("dist", "panic string", int(at))
	}
	f.status = func() core.OCStatus { return core.OCStatus{} }
	var space = faultSpace{f: f}
	var cl = core.Clust(pts[:1])
	var recovered interface{}
	var labels = make([]int, n)
	func() {
		defer func() { recovered = recover() }()
		switch op {
		case 0:
			cl.ParMapLabel(pts, space, degree)
		case 1:
			cl.ParReduceLoss(pts, space, 2, degree)
		case 2:
			cl.ParTotalLoss(pts, space, 2, degree)
		case 3:
			cl.ParReduceDBA(pts, space, degree)
		case 4:
			cl.ParReduceDBAForLabels(pts, labels, space, degree)
		}
		calls.Add(1)
	}()
	if f.hit.Load() > 0 {
		c.Check(recovered == f.err.Error(), "parallel computation %d, %d elements, degree %d: the panic of the space gives %v", op, n, degree, recovered)
		c.Count("panics of the space", 1)
	} else {
		c.Check(recovered == nil, "panic %v", recovered)
	}
	c.Distinct("panic", op, n, degree, at)
}

func TestC14(t *testing.T) {
	var h = newH(t, "C14", "ranges received by parallel processes for all sizes under 40 and degrees to 12 and random larger ones, with slow and panicking ranks in virtual time; parallel "+
		"against sequential computations on random data, degrees, norms and spaces; panics of the space. Non trivial: all; distinct by case")
	h.Cases("ranges", h.N(4000, 60000), parRanges)
	h.Cases("equal", h.N(15000, 300000), parEqualsSeq)
	h.Cases("panics", h.N(3000, 40000), parPanics)
	h.CasesW("many", h.N(15, 200), 8, manyReductions)
	h.Require("panics", 500)
	h.Require("panics of the space", 500)
	h.Require("means compared", 5000)
	h.Require("empty clusters", 500)
	h.Require("no element", 50)
}
