package checks

import (
	"fmt"
	"math"
	"reflect"
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/dtw"
	"github.com/wearelumenai/distclus/euclid"
)

// refResize: linear interpolation at regular positions
func refResize(s [][]float64, size int) [][]float64 {
	var out = make([][]float64, size)
	for i := range out {
		var num = i * (len(s) - 1)
		var den = size - 1
		if den == 0 {
			num, den = 0, 1
		}
		var j = num / den
		var rest = float64(num%den) / float64(den)
		out[i] = make([]float64, len(s[j]))
		for d := range out[i] {
			out[i][d] = s[j][d]
			if rest > 0 {
				out[i][d] = s[j][d]*(1-rest) + s[j+1][d]*rest
			}
		}
	}
	return out
}

// refInterpolate: value at multiples of the factor
func refInterpolate(s [][]float64, idx []int, factor int) [][]float64 {
	var n = idx[len(idx)-1]/factor + 1
	var out = make([][]float64, n)
	for i := range out {
		var x = i * factor
		for j := range idx {
			if idx[j] == x {
				out[i] = s[j]
				break
			}
			if idx[j] > x {
				var t = float64(x-idx[j-1]) / float64(idx[j]-idx[j-1])
				out[i] = make([]float64, len(s[j]))
				for d := range out[i] {
					out[i][d] = s[j-1][d]*(1-t) + s[j][d]*t
				}
				break
			}
		}
	}
	return out
}

func interpolation(c *Case) {
	var n, dim = c.rarely(c.between(2, 12), .03, 13, 300), c.rarely(c.between(1, 3), .05, 4, 20)
	var f = c.magnitude()
	var s = scaled(c.series(n, dim), f)
	var inner = euclid.NewSpace()
	// resize
	var size = c.rarely(c.between(2, 25), .03, 26, 600)
	var was = fmt.Sprint(s)
	var got = dtw.Resize(s, size, inner)
	var where = fmt.Sprintf("resize %v to %d", s, size)
	c.Check(len(got) == size, "%s: %d points", where, len(got))
	c.Check(closeVec(got[0], s[0], 0) && closeVec(got[size-1], s[n-1], 0), "%s: ends of %v", where, got)
	c.Check(closeVec(scaled(got, 1/f), scaled(refResize(s, size), 1/f), 1e-9), "%s: %v, expected %v", where, got, refResize(s, size))
	if size == n {
		c.Check(closeVec(got, s, 0), "%s: %v", where, got)
		c.Count("same size", 1)
	}
	// interpolation at irregular indexes
	var idx = make([]int, n)
	var gap = c.between(1, 7)
	for i := 1; i < n; i++ {
		idx[i] = idx[i-1] + c.between(1, gap)
	}
	var factor = c.between(1, 6)
	where = fmt.Sprintf("interpolate %v at %v factor %d", s, idx, factor)
	var res = dtw.Interpolate(s, idx, factor, inner)
	var want = refInterpolate(s, idx, factor)
	c.Check(closeVec(scaled(res, 1/f), scaled(want, 1/f), 1e-9), "%s: %v, expected %v", where, res, want)
	c.Check(fmt.Sprint(s) == was, "%s: series changed", where)
	c.Distinct(where)
	c.Count("interpolated points", len(res))
	c.Sample(where + fmt.Sprint(": ", res))
}

func dtwAverage(c *Case) {
	var n, m, dim = c.between(1, 10), c.between(1, 10), c.rarely(c.between(1, 3), .05, 4, 20)
	if c.pick(.05) {
		n, m = c.between(1, 60), c.between(1, 60)
		if c.pick(.2) {
			n, m = c.between(61, 200), c.between(61, 200)
		}
	}
	var f = c.magnitude()
	var s1, s2 = scaled(c.series(n, dim), f), scaled(c.series(m, dim), f)
	var same = c.pick(.2)
	if same {
		s2 = deepElemt(s1).([][]float64)
		m = n
	}
	var w1, w2 = c.between(1, 5), c.between(1, 5)
	if c.pick(.1) {
		w1 = c.between(1, 100000)
	}
	if c.pick(.1) {
		w2 = c.between(1, 100000)
	}
	var inner = euclid.NewSpace()
	var window = c.intn(5)
	var space = dtw.NewSpace(dtw.Conf{InnerSpace: inner, Window: window})
	var where = fmt.Sprintf("window %d weights %d %d s1 %v s2 %v", window, w1, w2, s1, s2)
	var before = fmt.Sprint(s1, s2)
	var got = space.Combine(s1, w1, s2, w2).([][]float64)
	c.Check(fmt.Sprint(s1, s2) == before, "%s: series changed to %v %v", where, s1, s2)
	// resized series and an optimal path, verified
	var r1, r2 = s1, s2
	if window > 0 && n > m+window {
		r1 = dtw.Resize(s1, m+window, inner)
	} else if window > 0 && m > n+window {
		r2 = dtw.Resize(s2, n+window, inner)
	}
	var path = dtw.NewDTWWindow(r1, r2, inner, window).Path()
	if bad := validPath(path, len(r1), len(r2), window); bad != "" {
		c.Failf("%s: path %v: %s", where, path, bad)
	}
	var cost = 0.
	for _, e := range path {
		cost += inner.PointDist(r1[e.End0], r2[e.End1])
	}
	c.Check(near(cost/f, dtwRef(r1, r2, inner.PointDist, window)/f, 1e-9), "%s: path %v is not optimal", where, path)
	// barycenters along the path
	var bary [][]float64
	var idx []int
	for i := len(path) - 1; i >= 0; i-- {
		var e = path[i]
		var p = make([]float64, dim)
		for d := range p {
			p[d] = (r1[e.End0][d]*float64(w1) + r2[e.End1][d]*float64(w2)) / float64(w1+w2)
		}
		bary = append(bary, p)
		idx = append(idx, e.End0*w1+e.End1*w2)
	}
	var want = refInterpolate(bary, idx, w1+w2)
	c.Check(closeVec(scaled(got, 1/f), scaled(want, 1/f), 1e-9), "%s: average %v, expected %v (path %v)", where, got, want, path)
	c.Check(len(got) >= min(len(r1), len(r2)) && len(got) <= max(len(r1), len(r2)), "%s: average of length %d", where, len(got))
	c.Check(closeVec(scaled(got[:1], 1/f), scaled(bary[:1], 1/f), 1e-9), "%s: average starts with %v", where, got[0])
	if len(r1) == len(r2) {
		c.Check(closeVec(scaled(got[len(got)-1:], 1/f), scaled(bary[len(bary)-1:], 1/f), 1e-9), "%s: average ends with %v", where, got[len(got)-1])
	}
	if same {
		c.Check(closeVec(scaled(got, 1/f), scaled(s1, 1/f), 1e-9), "%s: average %v of the same series", where, got)
		c.Count("averages of the same series", 1)
	}
	var direct = dtw.NewDTWWindow(r1, r2, inner, window).DBA(w1, w2)
	c.Check(closeVec(scaled(got, 1/f), scaled(direct, 1/f), 1e-12), "%s: average %v, by the space %v", where, direct, got)
	for _, p := range got { // within the bounds of both
		for d := range p {
			c.Check(!math.IsNaN(p[d]), "%s: average %v", where, got)
		}
	}
	c.Count("averages", 1)
	c.Distinct(where)
	c.Sample(fmt.Sprintf("lengths %d %d weights %d %d window %d: path %v length %d", n, m, w1, w2, window, path, len(got)))
}

// copies of series are independent
func copySeries(c *Case) {
	var dim = c.rarely(c.between(1, 5), .05, 6, 40)
	var s = c.series(c.rarely(c.between(1, 12), .02, 100, 1000), dim)
	var space = dtw.NewSpace(dtw.Conf{InnerSpace: euclid.NewSpace(), Window: c.intn(4)})
	var before = deepElemt(s)
	var cp = space.Copy(s).([][]float64)
	c.Check(reflect.DeepEqual(cp, s), "copy of %v is %v", s, cp)
	for i := range cp {
		for j := range cp[i] {
			cp[i][j] = 1e300
		}
		cp[i] = nil
	}
	c.Check(reflect.DeepEqual(core.Elemt(s), before), "%v is changed to %v with its copy", before, s)
	c.Check(space.Dim([]core.Elemt{s}) == dim && space.Dim([]core.Elemt{s, c.series(2, dim)}) == dim, "dimension of %v is %d", s, space.Dim([]core.Elemt{s}))
	c.Check(space.Dim(nil) == 0, "dimension without data is %d", space.Dim(nil))
	c.Count("copies of series", 1)
}

func TestC18(t *testing.T) {
	var h = newH(t, "C18", "random series, sizes, irregular indexes, factors, weights and windows: resized, interpolated and averaged series against reference interpolations, the path of an average "+
		"being verified optimal first. Non trivial: all; distinct by case", "weights are positive, a resized series has at least 2 points")
	h.Cases("interpolation", h.N(20000, 400000), interpolation)
	h.Cases("copy", h.N(3000, 30000), copySeries)
	h.Cases("average", h.N(20000, 400000), dtwAverage)
	h.Require("interpolated points", 10000)
	h.Require("large or small magnitudes", 500)
	h.Require("averages of the same series", 1000)
}
