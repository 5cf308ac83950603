package checks

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/cosinus"
	"github.com/wearelumenai/distclus/dtw"
	"github.com/wearelumenai/distclus/euclid"
)

func (c *Case) spaceOf(kind string) core.Space {
	switch kind {
	case "cosinus":
		return cosinus.NewSpace()
	case "dtw":
		return dtw.NewSpace(dtw.Conf{InnerSpace: euclid.NewSpace(), Window: c.intn(4)})
	}
	return euclid.NewSpace()
}

// vec is a random vector: usual, integral, sparse, null, of any scale
func (c *Case) vec(dim int) []float64 {
	var v = make([]float64, dim)
	var kind = c.intn(8)
	var sc = 1.
	if c.pick(.3) {
		sc = c.scale()
	}
	if c.pick(.05) {
		sc = math.Pow(10, float64(c.between(-30, 30)))
	}
	for i := range v {
		switch kind {
		case 0:
			v[i] = float64(c.between(-3, 3))
		case 1:
			if c.pick(.3) {
				v[i] = c.norm()
			}
		case 2:
			v[i] = 0
		case 3:
			v[i] = 1e6 + c.norm()
		default:
			v[i] = c.norm()
		}
		v[i] *= sc
	}
	return v
}

func bigDot(a, b []float64) *big.Float {
	var s = new(big.Float).SetPrec(600)
	for i := range a {
		var x = new(big.Float).SetPrec(600).SetFloat64(a[i])
		s.Add(s, x.Mul(x, new(big.Float).SetPrec(600).SetFloat64(b[i])))
	}
	return s
}

func bigEuclid(a, b []float64) float64 {
	var s = new(big.Float).SetPrec(600)
	for i := range a {
		var x = new(big.Float).SetPrec(600).SetFloat64(a[i])
		x.Sub(x, new(big.Float).SetPrec(600).SetFloat64(b[i]))
		s.Add(s, x.Mul(x, x))
	}
	var f, _ = s.Sqrt(s).Float64()
	return f
}

func bigCosDist(a, b []float64) float64 {
	var na, nb = bigDot(a, a), bigDot(b, b)
	switch {
	case na.Sign() == 0 && nb.Sign() == 0:
		return 0
	case na.Sign() == 0 || nb.Sign() == 0:
		return 1
	}
	var d = bigDot(a, b)
	d.Quo(d, na.Sqrt(na))
	d.Quo(d, nb.Sqrt(nb))
	var f, _ = d.Sub(big.NewFloat(1).SetPrec(600), d).Float64()
	return f
}

func spaceLaws(c *Case) {
	var dim = c.between(1, 6)
	if c.pick(.05) {
		dim = c.between(7, 100)
	}
	spaceLawsOf(c, dim)
}

// vectors of high dimension
func highLaws(c *Case) {
	var dim = int(100 * math.Exp(4*c.Rng.Float64()))
	if c.pick(.3) { // around powers of two
		dim = 1<<c.between(6, 12) + c.between(-1, 1)
	}
	c.Max("dimension", int64(dim))
	c.Count("high dimensions", 1)
	spaceLawsOf(c, dim)
}

func spaceLawsOf(c *Case, dim int) {
	var a, b, d = c.vec(dim), c.vec(dim), c.vec(dim)
	switch c.intn(6) {
	case 0:
		b = append([]float64{}, a...)
	case 1: // collinear
		var k = math.Exp(3 * c.norm())
		if c.pick(.3) {
			k = -k
		}
		for i := range b {
			b[i] = k * a[i]
		}
	case 2: // almost equal
		for i := range b {
			b[i] = a[i] + 1e-9*c.norm()
		}
	}
	if c.pick(.06) { // lengths whose squares are numbers
		for _, v := range [][]float64{a, b, d} {
			var sc = math.Pow(10, float64(c.between(-85, 85)))
			for i := range v {
				v[i] *= sc
			}
		}
		c.Count("extreme lengths", 1)
	}
	for _, kind := range []string{"euclid", "cosinus"} {
		var space = c.spaceOf(kind)
		var point = space.(dtw.PointSpace)
		var where = fmt.Sprintf("%s, dimension %d", kind, dim)
		if dim < 100 {
			where = fmt.Sprintf("%s: a %v b %v", kind, a, b)
		}
		var ca, cb, cd = deepElemt(a), deepElemt(b), deepElemt(d)
		var ab, ba = space.Dist(a, b), space.Dist(b, a)
		c.Check(ab >= 0, "%s: distance %v", where, ab)
		c.Check(near(ab, ba, 1e-12), "%s: distance %v, in the other direction %v", where, ab, ba)
		c.Check(point.PointDist(a, b) == ab, "%s: distance %v, of points %v", where, ab, point.PointDist(a, b))
		var size = math.Max(maxAbs([]core.Elemt{a, b, d}), 1e-300)
		switch kind {
		case "euclid":
			var want = bigEuclid(a, b)
			c.Check(math.Abs(ab-want) <= 1e-12*want, "%s: distance %v, expected %v", where, ab, want)
			c.Check(space.Dist(a, a) == 0, "%s: distance of a with itself %v", where, space.Dist(a, a))
			var ad, bd = space.Dist(a, d), space.Dist(b, d)
			c.Check(ad <= (ab+bd)*(1+1e-9), "%s d %v: triangle %v > %v + %v", where, d, ad, ab, bd)
		case "cosinus":
			var want = bigCosDist(a, b)
			c.Check(math.Abs(ab-want) <= 1e-9, "%s: distance %v, expected %v", where, ab, want)
			c.Check(ab <= 2+1e-9, "%s: distance %v", where, ab)
			c.Check(space.Dist(a, a) <= 1e-9, "%s: distance of a with itself %v", where, space.Dist(a, a))
			var k = math.Exp(4 * c.norm())
			var sa = make([]float64, dim)
			for i := range sa {
				sa[i] = k * a[i]
			}
			c.Check(near(space.Dist(sa, b), ab, 1e-9), "%s: distance %v, %v with a scaled by %v", where, ab, space.Dist(sa, b), k)
			var null = make([]float64, dim)
			c.Check(space.Dist(null, null) == 0, "null vectors at distance %v", space.Dist(null, null))
			if bigDot(a, a).Sign() > 0 {
				c.Check(space.Dist(null, a) == 1 && space.Dist(a, null) == 1, "%v at distance %v of the null vector", a, space.Dist(null, a))
			} else {
				c.Count("null vectors", 1)
			}
		}
		// combination
		var wa, wb = c.between(1, 20), c.between(1, 20)
		switch c.intn(7) {
		case 0:
			wa = c.between(1, 1000000000)
		case 4:
			wa, wb = c.between(1, 1<<c.between(1, 45)), c.between(1, 1<<c.between(1, 45))
		case 1:
			wb = c.between(1, 1000000000)
		case 2:
			wa = 0
		case 3:
			wb = 0
		}
		var m = space.Combine(a, wa, b, wb)
		var want = bigMean([]core.Elemt{a, b}, []int{wa, wb})
		c.Check(vecNear(want, m, size*1e-3), "%s: combination with weights %d %d: %v, expected %v", where, wa, wb, m, want)
		var pm = point.PointCombine(a, wa, b, wb)
		c.Check(reflect.DeepEqual(pm, m), "%s: combination %v, of points %v", where, m, pm)
		var cp = space.Copy(a).([]float64)
		var pc = point.PointCopy(a)
		c.Check(reflect.DeepEqual(cp, ca), "%s: copy %v", where, cp)
		c.Check(reflect.DeepEqual(pc, ca), "%s: copy %v", where, pc)
		c.Check(reflect.DeepEqual(a, ca) && reflect.DeepEqual(b, cb) && reflect.DeepEqual(d, cd), "%s: changed to %v %v", where, a, b)
		for i := range cp { // independent
			cp[i] = 1e300
			pm[i] = 1e300
			m.([]float64)[i] = 1e300
			pc[i] = 1e300
		}
		c.Check(reflect.DeepEqual(a, ca) && reflect.DeepEqual(b, cb), "%s: changed with a copy or a combination to %v %v", where, a, b)
		c.Check(space.Dim([]core.Elemt{a, b}) == dim && space.Dim([]core.Elemt{b}) == dim, "dimension %d of %v", space.Dim([]core.Elemt{a}), a)
		c.Check(space.Dim(nil) == 0 && space.Dim([]core.Elemt{}) == 0, "dimension %d without data", space.Dim(nil))
		c.Eval(1)
		c.Distinct(where, wa, wb)
		c.Sample(where)
	}
}

func TestC16(t *testing.T) {
	var h = newH(t, "C16", "random vectors (usual, integral, sparse, null, collinear, almost equal, lengths 1e-115 to 1e120, dimensions to 5000): distances and combinations against 600 bit arithmetic, "+
		"laws, copies, dimensions. Non trivial: all; distinct by vectors")
	h.Cases("laws", h.N(60000, 1500000), spaceLaws)
	h.Cases("high", h.N(600, 10000), highLaws)
	h.Require("high dimensions", 300)
	h.Require("null vectors", 500)
	h.Require("extreme lengths", 500)
}
