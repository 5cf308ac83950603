package checks

import (
	"fmt"
	"math"
	"testing"

	"github.com/wearelumenai/distclus/cosinus"
	"github.com/wearelumenai/distclus/dtw"
	"github.com/wearelumenai/distclus/euclid"
)

// series: random, constant, integral (ties), of any length
func (c *Case) series(n, dim int) [][]float64 {
	var s = make([][]float64, n)
	var kind = c.intn(6)
	if kind == 5 { // steps, that alignments far from the diagonal match; their averages are never null
		var level, rate = .37718, c.Rng.Float64() * 4 / float64(n)
		for i := range s {
			if c.pick(rate) {
				level += float64(c.between(-2, 3))
			}
			s[i] = make([]float64, dim)
			for d := range s[i] {
				s[i][d] = level
			}
		}
		return s
	}
	for i := range s {
		s[i] = make([]float64, dim)
		for d := range s[i] {
			switch kind {
			case 0:
				s[i][d] = float64(c.intn(3))
			case 1:
				s[i][d] = 1
			case 2:
				s[i][d] = math.Sin(float64(i)/2 + float64(d))
			default:
				s[i][d] = c.norm()
			}
		}
	}
	return s
}

// magnitude is an exact factor of the coordinates, 1 most of the time
func (c *Case) magnitude() float64 {
	if c.pick(.15) {
		c.Count("large or small magnitudes", 1)
		return math.Ldexp(1, c.between(-60, 200))
	}
	return 1
}

// scaled multiplies points of a series
func scaled(s [][]float64, f float64) [][]float64 {
	if f == 1 {
		return s
	}
	var r = make([][]float64, len(s))
	for i := range s {
		r[i] = make([]float64, len(s[i]))
		for d := range s[i] {
			r[i][d] = s[i][d] * f
		}
	}
	return r
}

// dtwRef: minimum over all alignments by enumeration of paths (small) or dynamic programming
func dtwRef(s1, s2 [][]float64, dist func(a, b []float64) float64, window int) float64 {
	var allowed = func(i, j int) bool { return window == 0 || i-j <= window && j-i <= window }
	var n, m = len(s1), len(s2)
	if n*m <= 20 {
		var best = math.Inf(1)
		var walk func(i, j int, cost float64)
		walk = func(i, j int, cost float64) {
			if i >= n || j >= m || !allowed(i, j) {
				return
			}
			cost += dist(s1[i], s2[j])
			if i == n-1 && j == m-1 {
				best = math.Min(best, cost)
				return
			}
			walk(i+1, j, cost)
			walk(i, j+1, cost)
			walk(i+1, j+1, cost)
		}
		walk(0, 0, 0)
		return best
	}
	// from the end, whole matrix
	var cost = make([][]float64, n+1)
	for i := range cost {
		cost[i] = make([]float64, m+1)
		for j := range cost[i] {
			cost[i][j] = math.Inf(1)
		}
	}
	for i := n - 1; i >= 0; i-- {
		for j := m - 1; j >= 0; j-- {
			if !allowed(i, j) {
				continue
			}
			var next = math.Min(cost[i+1][j+1], math.Min(cost[i+1][j], cost[i][j+1]))
			if i == n-1 && j == m-1 {
				next = 0
			}
			cost[i][j] = dist(s1[i], s2[j]) + next
		}
	}
	return cost[0][0]
}

// validPath tells what is wrong with a path
func validPath(path []dtw.Ends, n, m, window int) string {
	if len(path) == 0 || path[0] != (dtw.Ends{End0: n - 1, End1: m - 1}) || path[len(path)-1] != (dtw.Ends{}) {
		return "it does not go from the end to the beginning"
	}
	for i, e := range path {
		if window > 0 && (e.End0-e.End1 > window || e.End1-e.End0 > window) {
			return fmt.Sprintf("%v is out of the window", e)
		}
		if i > 0 {
			var d0, d1 = path[i-1].End0 - e.End0, path[i-1].End1 - e.End1
			if d0 < 0 || d1 < 0 || d0 > 1 || d1 > 1 || d0+d1 == 0 {
				return fmt.Sprintf("step from %v to %v", path[i-1], e)
			}
		}
	}
	return ""
}

func dtwCase(c *Case) { dtwCaseOf(c, 0) }

func longDtw(c *Case) {
	c.Count("long series", 1)
	dtwCaseOf(c, c.between(150, 600))
}

func dtwCaseOf(c *Case, long int) {
	var n, m = c.between(1, 7), c.between(1, 7)
	if c.pick(.3) {
		n, m = c.between(1, 40), c.between(1, 40)
	}
	if c.pick(.01) {
		n, m = c.between(100, 200), c.between(1, 200)
	}
	if long > 0 {
		n, m = long, []int{long, c.between(1, 600), c.between(long, long+20)}[c.intn(3)]
	}
	var dim = c.rarely(c.between(1, 3), .05, 4, 20)
	var s1, s2 = c.series(n, dim), c.series(m, dim)
	if c.pick(.1) {
		s2 = deepElemt(s1).([][]float64)
		m = n
	}
	var inner dtw.PointSpace = euclid.NewSpace()
	if c.pick(.2) {
		inner = cosinus.NewSpace()
	}
	var f = 1.
	if _, ok := inner.(euclid.Space); ok {
		f = c.magnitude()
		s1, s2 = scaled(s1, f), scaled(s2, f)
	}
	var window = 0
	var diff = max(n-m, m-n)
	if c.flip() {
		window = max(1, diff) + c.intn(5)
		if c.pick(.2) {
			window = max(1, diff) + c.intn(max(n, m))
		}
	}
	var where = fmt.Sprintf("%T window %d s1 %v s2 %v", inner, window, s1, s2)
	var want = dtwRef(s1, s2, inner.PointDist, window)
	var w = dtw.NewDTWWindow(s1, s2, inner, window)
	if window == 0 && c.flip() {
		w = dtw.NewDTW(s1, s2, inner)
	}
	c.Check(near(w.Dist()/f, want/f, 1e-9), "%s: distance %v, expected %v", where, w.Dist(), want)
	var path = w.Path()
	if bad := validPath(path, n, m, window); bad != "" {
		c.Failf("%s: path %v: %s", where, path, bad)
	}
	var sum = 0.
	for _, e := range path {
		sum += inner.PointDist(s1[e.End0], s2[e.End1])
	}
	c.Check(near(sum/f, w.Dist()/f, 1e-9), "%s: distance %v but path %v costs %v", where, w.Dist(), path, sum)
	var back = dtw.NewDTWWindow(s2, s1, inner, window)
	c.Check(near(back.Dist()/f, w.Dist()/f, 1e-9), "%s: distance %v, in the other direction %v", where, w.Dist(), back.Dist())
	var self = dtw.NewDTWWindow(s1, s1, inner, window)
	c.Check(math.Abs(self.Dist()/f) <= 1e-9, "%s: distance of s1 with itself %v", where, self.Dist())
	if window > 0 {
		var free = dtw.NewDTW(s1, s2, inner)
		c.Check(free.Dist()/f <= w.Dist()/f+1e-9, "%s: distance %v with the window, %v without", where, w.Dist(), free.Dist())
		c.Count("windows", 1)
		if free.Dist()/f < w.Dist()/f-1e-9 {
			c.Count("windows that matter", 1)
		}
	}
	c.Max("cells", int64(n*m))
	if n > 1 && m > 1 {
		c.Distinct(n, m, window, w.Dist())
	}
	c.Sample(fmt.Sprintf("lengths %d %d window %d: distance %v path %v", n, m, window, w.Dist(), path))
}

// the space: the longest series is resized when it has to be
func dtwSpace(c *Case) {
	var n, m = c.between(1, 12), c.between(1, 12)
	if c.pick(.1) {
		n, m = c.between(1, 60), c.between(1, 60)
	}
	var dim = c.rarely(c.between(1, 3), .05, 4, 20)
	var s1, s2 = c.series(n, dim), c.series(m, dim)
	var inner dtw.PointSpace = euclid.NewSpace()
	if c.pick(.2) {
		inner = cosinus.NewSpace()
	}
	var f = 1.
	if _, ok := inner.(euclid.Space); ok {
		f = c.magnitude()
		s1, s2 = scaled(s1, f), scaled(s2, f)
	}
	var window = c.intn(6)
	var space = dtw.NewSpace(dtw.Conf{InnerSpace: inner, Window: window})
	var where = fmt.Sprintf("%T window %d s1 %v s2 %v", inner, window, s1, s2)
	var r1, r2 = s1, s2
	if window > 0 && n > m+window {
		r1 = refResize(s1, m+window)
		c.Count("resized", 1)
	} else if window > 0 && m > n+window {
		r2 = refResize(s2, n+window)
		c.Count("resized", 1)
	}
	var l1, l2 = dtw.ShrinkLongest(s1, s2, inner, window)
	c.Check(closeVec(scaled(r1, 1/f), scaled(l1, 1/f), 1e-9) && closeVec(scaled(r2, 1/f), scaled(l2, 1/f), 1e-9), "%s: resized to %v and %v, expected %v and %v", where, l1, l2, r1, r2)
	var d = space.Dist(s1, s2)
	var want = dtwRef(r1, r2, inner.PointDist, window)
	// the cosine distance is not continuous at null: resizing errors matter
	c.Check(near(d/f, want/f, 1e-6), "%s: distance %v, expected %v", where, d, want)
	c.Check(near(space.Dist(s2, s1)/f, d/f, 1e-6), "%s: distance %v, in the other direction %v", where, d, space.Dist(s2, s1))
	c.Check(math.Abs(space.Dist(s1, s1)/f) <= 1e-9, "%s: distance of s1 with itself %v", where, space.Dist(s1, s1))
	c.Distinct("space", n, m, window, d)
}

func TestC17(t *testing.T) {
	var h = newH(t, "C17", "random series (with ties and constants, euclidean and cosine points, lengths to 600) and windows: distance against the enumeration of all alignments (up to 20 cells) or a "+
		"backward dynamic programming on the whole matrix, validity and cost of the path, symmetry, resizing by the space. Non trivial: both series longer than 1",
		"a window is at least the difference of lengths when series are compared without the space")
	h.Cases("dtw", h.N(20000, 400000), dtwCase)
	h.Cases("space", h.N(10000, 200000), dtwSpace)
	h.Cases("long", h.N(150, 3000), longDtw)
	h.Require("long series", 100)
	h.Require("large or small magnitudes", 500)
	h.Require("windows that matter", 80)
	h.Require("resized", 1000)
}
