package checks

import (
	"fmt"
	"math"
	"os"
	"reflect"
	"sort"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/mcmc"
	"gonum.org/v1/gonum/mathext"
	"gonum.org/v1/gonum/stat/distuv"
)

func (c *Case) degrees() float64 {
	return []float64{0, .5, 1, 2, 3, 4.5, 10, 30, 200}[c.intn(9)]
}

// density of the multivariate T
func density(c *Case) {
	var dim = []int{1, 2, 3, c.between(1, 20), c.between(20, 1000)}[c.intn(5)]
	var nu = c.degrees()
	var time = []int{1, 2, 10, c.between(1, 1000), 1000000, 1 << 40}[c.intn(6)]
	var d = mcmc.NewMultivT(mcmc.MultivTConf{Dim: dim, Nu: nu, RGen: c.gen()})
	if nu == 0 {
		nu = 3
	}
	var where = fmt.Sprintf("dim %d, nu %v, time %d", dim, nu, time)
	var mu = make([]float64, dim)
	var away = math.Pow(10, float64(c.between(-2, 2)))
	var null = c.flip()
	for i := range mu {
		if !null {
			mu[i] = c.norm() * away
		}
	}
	var dir = make([]float64, dim)
	var norm = 0.
	for i := range dir {
		dir[i] = c.norm()
		norm += dir[i] * dir[i]
	}
	norm = math.Sqrt(norm)
	var at = func(r float64) []float64 {
		var x = make([]float64, dim)
		for i := range x {
			x[i] = mu[i] + dir[i]/norm*r
		}
		return x
	}
	var before = append([]float64{}, mu...)
	var top = d.Pdf(mu, mu, time)
	c.Check(!math.IsNaN(top) && !math.IsInf(top, 0), "%s: density %v at the location", where, top)
	var last = top
	for e := -9; e <= 60; e++ {
		var r = math.Pow(10, float64(e)/4) / math.Sqrt(float64(time))
		if r < 1e-6*away && !null {
			continue // lost in rounding
		}
		var x, y = at(r), at(-r)
		var p = d.Pdf(x, mu, time)
		var tol = 1e-9 * math.Max(1, math.Abs(p)+math.Abs(top))
		if !null {
			tol *= 1000
		}
		c.Check(!math.IsNaN(p) && !math.IsInf(p, 0), "%s: density %v at distance %v", where, p, r)
		c.Check(p <= top+tol && p <= last+tol, "%s: density goes up from %v to %v at distance %v (%v at the location)", where, last, p, r, top)
		c.Check(d.Pdf(mu, x, time) == p, "%s: density %v of x at mu, %v of mu at x", where, p, d.Pdf(mu, x, time))
		var q = d.Pdf(y, mu, time)
		c.Check(math.Abs(p-q) <= tol, "%s: densities %v and %v of symmetric points at distance %v", where, p, q, r)
		// in another direction
		var z = append([]float64{}, mu...)
		z[c.intn(dim)] += r
		c.Check(null && math.Abs(d.Pdf(z, mu, time)-p) <= tol || !null, "%s: densities %v and %v at the same distance %v", where, p, d.Pdf(z, mu, time), r)
		last = p
		c.Eval(1)
	}
	c.Check(last < top, "%s: density %v at a long distance, %v at the location", where, last, top)
	c.Check(reflect.DeepEqual(mu, before), "%s: location modified", where)
	// radial integral, with r = exp(y): the density is the exponential of the value returned
	if null {
		var lg, _ = math.Lgamma(float64(dim) / 2)
		var logSphere = math.Log(2) + float64(dim)/2*math.Log(math.Pi) - lg
		var x = make([]float64, dim)
		var sum = 0.
		var h = .01
		// the mass is around the scale of the distribution, whatever it is: scan a wide range
		for y := -60.; y <= 60.+40/nu; y += h {
			x[0] = math.Exp(y)
			if y > 300 {
				break
			}
			sum += h * math.Exp(logSphere+float64(dim)*y+d.Pdf(x, mu, time))
		}
		c.Check(math.Abs(sum-1) < 1e-5, "%s: the density integrates to %v", where, sum)
		c.Count("integrals", 1)
	}
	c.Distinct(where)
	c.Sample(where)
}

// Kolmogorov-Smirnov distance times the square root of the number of samples
func ks(xs []float64, cdf func(float64) float64) float64 {
	var s = append([]float64{}, xs...)
	sort.Float64s(s)
	var n, d = float64(len(s)), 0.
	for i, x := range s {
		var f = cdf(x)
		d = math.Max(d, math.Max(math.Abs(f-float64(i)/n), math.Abs(f-float64(i+1)/n)))
	}
	return d * math.Sqrt(n)
}

func fCDF(x, d1, d2 float64) float64 {
	if x <= 0 {
		return 0
	}
	return mathext.RegIncBeta(d1/2, d2/2, d1*x/(d1*x+d2))
}

// pooled are the quantiles of one coordinate of all samples
type pooled struct {
	mu sync.Mutex
	n  int
	h  [1000]int
}

func (p *pooled) add(u []float64) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, x := range u {
		p.h[min(999, int(x*1000))]++
	}
	p.n += len(u)
}

func (p *pooled) ks() (d float64) {
	var sum = 0
	for i, n := range p.h {
		sum += n
		d = math.Max(d, math.Abs(float64(sum)/float64(p.n)-float64(i+1)/1000))
	}
	return d * math.Sqrt(float64(p.n))
}

// samples of the multivariate T
func sampling(c *Case, pool *pooled) {
	var n = 8000
	var dim = c.rarely(c.between(1, 5), .1, 6, 20)
	var nu = c.degrees()
	var time = []int{1, 3, 50, 1000, 123456, 10000000, 1 << 33}[c.intn(7)]
	var d = mcmc.NewMultivT(mcmc.MultivTConf{Dim: dim, Nu: nu, RGen: c.gen()})
	if nu == 0 {
		nu = 3
	}
	var where = fmt.Sprintf("dim %d, nu %v, time %d", dim, nu, time)
	var mu = make([]float64, dim)
	var scale = 1 / math.Sqrt(20*float64(time))
	for i := range mu {
		mu[i] = c.norm() * scale * 10
	}
	var before = append([]float64{}, mu...)
	var st = distuv.StudentsT{Mu: 0, Sigma: 1, Nu: nu}
	var xs = make([][]float64, dim+1)
	var u []float64
	var first []float64
	var kept []float64
	for i := 0; i < n; i++ {
		var s = d.Sample(mu, time).([]float64)
		c.Check(len(s) == dim, "%s: sample of dimension %d", where, len(s))
		var r = 0.
		for j := range s {
			var z = (s[j] - before[j]) / scale
			xs[j] = append(xs[j], z)
			r += z * z
		}
		xs[dim] = append(xs[dim], r/float64(dim))
		u = append(u, st.CDF(xs[i%dim][i]))
		if i == 0 {
			first, kept = s, append([]float64{}, s...)
		}
		if c.pick(.1) { // other uses of the same distribution have no effect
			var other = make([]float64, dim)
			_ = d.Sample(other, 1+c.intn(100))
			_ = d.Pdf(s, other, 5)
		}
	}
	c.Check(reflect.DeepEqual(first, kept), "%s: the first sample was %v, it is %v", where, kept, first)
	c.Check(reflect.DeepEqual(mu, before), "%s: location modified", where)
	pool.add(u)
	var worst = 0.
	for j := 0; j < dim; j++ {
		var k = ks(xs[j], st.CDF)
		worst = math.Max(worst, k)
		c.Check(k < 3.5, "%s: coordinate %d of the samples is not a T distribution (KS %v)", where, j, k)
	}
	var k = ks(xs[dim], func(x float64) float64 { return fCDF(x, float64(dim), nu) })
	c.Check(k < 3.5, "%s: distances to the location are not those of a multivariate T (KS %v)", where, k)
	// independence: signs of coordinates, sizes of successive samples
	var lim = 6 * math.Sqrt(float64(n))
	var sign = func(x float64) float64 {
		if x < 0 {
			return -1
		}
		return 1
	}
	var sorted = append([]float64{}, xs[dim]...)
	sort.Float64s(sorted)
	var med = sorted[n/2]
	for lag := 0; lag <= 3; lag++ {
		for a := 0; a <= dim; a++ {
			for b := 0; b <= dim; b++ {
				if lag == 0 && a == b {
					continue
				}
				var sum = 0.
				for i := lag; i < n; i++ {
					var f = func(j, i int) float64 {
						if j == dim {
							return sign(xs[dim][i] - med)
						}
						return sign(xs[j][i])
					}
					sum += f(a, i) * f(b, i-lag)
				}
				c.Check(math.Abs(sum) <= lim, "%s: coordinates %d and %d at lag %d are correlated: %v for %d samples", where, a, b, lag, sum, n)
			}
		}
	}
	c.Count("samples", n)
	c.Max("KS x 1000", int64(worst*1000))
	c.Distinct(where)
	c.Sample(fmt.Sprintf("%s: KS %v", where, worst))
}

func dirac(c *Case) {
	var d mcmc.Distrib = mcmc.NewDirac()
	var dim = c.between(1, 6)
	var e core.Elemt = c.points(1, dim)[0]
	if c.flip() {
		e = c.series(c.between(1, 5), dim)
	}
	var before = deepElemt(e)
	var t = 1 + c.intn(1000)
	c.Check(reflect.DeepEqual(d.Sample(e, t), before), "Dirac samples %v at %v", d.Sample(e, t), e)
	c.Check(d.Pdf(e, e, t) == 1, "Dirac density is %v", d.Pdf(e, e, t))
	c.Count("Dirac samples", 1)
	c.Distinct("dirac", c.Index)
}

// echo is what a late distribution wraps
type echo struct {
	built *atomic.Bool
	c     *Case
	id    int
}

type echoElem struct{ id, serial, time int }

func (d echo) Sample(mu core.Elemt, time int) core.Elemt {
	if !d.built.Load() {
		d.c.Errorf("used before it is built")
	}
	return echoElem{mu.(int), d.id, time}
}

func (d echo) Pdf(x, mu core.Elemt, time int) float64 {
	if !d.built.Load() {
		d.c.Errorf("used before it is built")
	}
	return float64(x.(int)*1000000 + mu.(int)*1000 + time + d.id)
}

func late(c *Case) {
	var rg = &safeRand{}
	rg.state.Store(c.Rng.Uint64())
	var clock, building, attempts atomic.Int64
	var built atomic.Bool
	var panics = int64(0)
	if c.flip() {
		panics = int64(c.between(1, 4))
	}
	var got []int // elements given to the builder
	var mu sync.Mutex
	var d mcmc.Distrib = mcmc.NewLateDistrib(func(e core.Elemt) mcmc.Distrib {
		if building.Add(1) != 1 {
			c.Errorf("two constructions at the same time")
		}
		defer building.Add(-1)
		var n = attempts.Add(1)
		if built.Load() {
			c.Errorf("built again")
		}
		spin(rg.next(20))
		mu.Lock()
		got = append(got, e.(int))
		mu.Unlock()
		if n <= panics {
			panic(fmt.Sprintf("builder %d", n))
		}
		built.Store(true)
		return echo{&built, c, 7}
	})
	var gs, ops = c.between(1, 8), c.between(1, 6)
	var inv = make([]int64, 1000)
	var firstRet atomic.Int64 // first return of a successful call
	firstRet.Store(1 << 60)
	var failed, done atomic.Int64
	var wg sync.WaitGroup
	var start = make(chan bool)
	for g := 0; g < gs; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			spin(rg.next(10))
			for o := 0; o < ops; o++ {
				var id = g*100 + o
				func() {
					defer func() {
						if r := recover(); r != nil {
							failed.Add(1)
							if s, ok := r.(string); !ok || len(s) < 8 || s[:8] != "builder " {
								c.Errorf("late distribution panics with %v", r)
							}
						}
					}()
					inv[id] = clock.Add(1)
					if rg.next(2) == 0 {
						var s = d.Sample(id, 5+o)
						if s != (echoElem{id, 7, 5 + o}) {
							c.Errorf("sample of %d at %d is %v", id, 5+o, s)
						}
					} else {
						var p = d.Pdf(900-id, id, 5+o) // the other element is of no one
						if p != float64((900-id)*1000000+id*1000+5+o+7) {
							c.Errorf("density of %d at %d is %v", id, 5+o, p)
						}
					}
					var now = clock.Add(1)
					for {
						var f = firstRet.Load()
						if now >= f || firstRet.CompareAndSwap(f, now) {
							break
						}
					}
					done.Add(1)
				}()
			}
		}()
	}
	close(start)
	wg.Wait()
	var total = int64(gs * ops)
	var want = min(panics, total)
	c.Check(failed.Load() == want, "%d calls panicked, %d constructions did", failed.Load(), want)
	var expected = min(panics+1, total)
	c.Check(attempts.Load() == expected, "%d constructions instead of %d for %d calls", attempts.Load(), expected, total)
	if built.Load() {
		var e = got[len(got)-1]
		c.Check(inv[e] > 0 && inv[e] < firstRet.Load(), "built with the element of a call that began after another one had returned")
		if gs == 1 {
			c.Check(e == int(min(panics, total-1)), "built with element %d", e)
		}
	}
	c.Count("late calls", int(total))
	c.Count("constructions that panic", int(want))
	c.Distinct("late", gs, ops, panics, got)
	c.Sample(fmt.Sprintf("%d goroutines x %d calls, %d constructions that panic, built with %v", gs, ops, panics, got))
}

func TestC22(t *testing.T) {
	var h = newH(t, "C22", "the multivariate T density on radial grids and integrated numerically, its samples (Kolmogorov-Smirnov of coordinates and distances, sign correlations up "+
		"to lag 3 at 6 standard deviations), Dirac, and late distributions used by 1 to 8 goroutines with builders that panic; the late part also under the race detector. "+
		"Non trivial: every case; distinct by parameters and by order of construction",
		"the logarithm of the density is what Pdf returns for the multivariate T", "the time is at least 1")
	h.Cases("late", h.N(20000, 300000), late)
	if os.Getenv("VERIF_RACE") != "" {
		return
	}
	h.Cases("density", h.N(1500, 20000), density)
	var pool pooled
	h.Cases("sampling", h.N(400, 5000), func(c *Case) { sampling(c, &pool) })
	h.Cases("pooled samples", 1, func(c *Case) {
		if pool.n < 100000 {
			return
		}
		var k = pool.ks()
		c.Check(k < 3.5, "the %d samples as a whole are not distributed as announced (KS %v)", pool.n, k)
		c.Max("KS of all samples x 1000", int64(k*1000))
	})
	h.Cases("dirac", h.N(2000, 20000), dirac)
	h.Require("integrals", 300)
	h.Require("samples", 1000000)
	h.Require("constructions that panic", 5000)
}
