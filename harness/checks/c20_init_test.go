package checks

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/cosinus"
	"github.com/wearelumenai/distclus/dtw"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	"golang.org/x/exp/rand"
)

// hostileSource is a source of randomness that often gives extreme values
type hostileSource struct {
	c    *Case
	mode int
}

func (s *hostileSource) Seed(uint64) {}
func (s *hostileSource) Uint64() uint64 {
	var m = s.mode
	if s.c.pick(.3) { // a constant source makes rejection sampling loop for ever
		m = 4
	}
	if m == 3 {
		m = s.c.intn(5)
	}
	switch m {
	case 0:
		return 0
	case 1:
		return math.MaxUint64
	case 2:
		return 1 << 63
	}
	return s.c.Rng.Uint64()
}

// elements of a few spaces, with duplicates
func (c *Case) initCase() (kind string, data []core.Elemt, space core.Space) {
	kind = []string{"euclid", "cosinus", "dtw", "table"}[c.intn(4)]
	var n = []int{0, 1, c.between(2, 6), c.rarely(c.between(5, 60), .01, 100, 300)}[c.intn(4)]
	var dim = c.rarely(c.between(1, 3), .05, 4, 20)
	var grid = c.flip()
	var vec = func() []float64 {
		var v = make([]float64, dim)
		for i := range v {
			if grid {
				v[i] = float64(c.intn(3))
			} else {
				v[i] = c.norm() * 10
			}
		}
		return v
	}
	switch kind {
	case "euclid":
		space = euclid.Space{}
	case "cosinus":
		space = cosinus.Space{}
	case "dtw":
		space = dtw.NewSpace(dtw.Conf{InnerSpace: euclid.Space{}, Window: c.intn(3)})
	case "table": // any distance, null within groups
		var group = make([]int, n)
		for i := range group {
			group[i] = c.intn(1 + c.intn(n+1))
		}
		var d = make([][]float64, n)
		for i := range d {
			d[i] = make([]float64, n)
			for j := range d[i] {
				if j < i {
					d[i][j] = d[j][i]
				} else if group[i] != group[j] {
					d[i][j] = math.Pow(10, float64(c.between(-12, 12))) * (1 + c.Rng.Float64())
				}
			}
		}
		space = tableSpace{d}
	}
	for i := 0; i < n; i++ {
		switch {
		case kind == "table":
			data = append(data, i)
		case i > 0 && c.pick(.3):
			data = append(data, deepElemt(data[c.intn(i)]))
		case kind == "dtw":
			var s = make([][]float64, c.between(1, 4))
			for j := range s {
				s[j] = vec()
			}
			data = append(data, s)
		default:
			data = append(data, vec())
		}
	}
	return
}

func initializers(c *Case) {
	var kind, data, space = c.initCase()
	var n = len(data)
	var k = c.between(-1, n+2)
	if c.flip() {
		k = c.between(1, max(1, n))
	}
	var name = []string{"given", "rand", "pp"}[c.intn(3)]
	var init = kmeans.CreateInitializer([]string{name, map[string]string{"given": "GIVEN", "rand": "Rand", "pp": "PP"}[name]}[c.intn(2)])
	c.Check(init != nil, "no initializer %s", name)
	var src = c.gen()
	if name == "pp" && c.flip() {
		src = rand.New(&hostileSource{c, c.intn(4)})
	}
	if name == "given" && c.flip() {
		src = nil
	}
	var before = make([]core.Elemt, n)
	for i := range data {
		before[i] = deepElemt(data[i])
	}
	var where = fmt.Sprintf("%s, %s, k %d, %d observations", name, kind, k, n)
	c.Tracef("%s: %v", where, data)
	var cl, err = init(k, data, space, src)
	// number of different points: for a distance that separates groups
	var groups = 0
	for i := range data {
		var old = false
		for j := 0; j < i; j++ {
			old = old || space.Dist(data[i], data[j]) == 0
		}
		if !old {
			groups++
		}
	}
	var exact = kind != "cosinus" && kind != "dtw" // a null distance between series is not transitive
	var bad = k < 1 || n < k || name == "pp" && exact && groups < k
	var rounded = name == "pp" && kind == "cosinus" // null distances between collinear vectors are up to rounding
	var may = name == "pp" && !exact
	if err != nil {
		c.Check(bad || may, "%s: error %v", where, err)
		c.Check(cl == nil, "%s: error %v with centres %v", where, err, cl)
		c.Count("errors", 1)
	} else {
		c.Check(!bad, "%s: no error, %d different observations, centres %v", where, groups, cl)
		c.Check(len(cl) == k, "%s: %d centres", where, len(cl))
		var used = make([]bool, n)
		for i, x := range cl {
			var found = -1
			for j, e := range data {
				if (!used[j] || rounded) && reflect.DeepEqual(x, e) && (name != "given" || i == j) {
					found = j
					break
				}
			}
			c.Check(found >= 0, "%s: centre %d is %v, not one more observation (or not this one)", where, i, x)
			used[found] = true
			if name == "pp" {
				for j := 0; j < i; j++ {
					c.Check(space.Dist(x, cl[j]) > 0, "%s: centres %d and %d, %v and %v, at null distance", where, j, i, cl[j], x)
				}
			}
		}
		c.Count("centres", k)
		if k > 1 {
			c.Distinct(c.Index)
		}
	}
	c.Check(reflect.DeepEqual(before, data) || n == 0, "%s: observations were %v", where, before)
	c.Sample(fmt.Sprintf("%s: %v", where, err))
}

func choices(c *Case) {
	var n = c.intn(8)
	if c.pick(.2) {
		n = c.between(8, 200)
	}
	var w = make([]float64, n)
	var positive = false
	var wide = c.flip()
	for i := range w {
		if c.pick(.5) {
			continue
		}
		w[i] = c.Rng.Float64() * 3
		if wide {
			w[i] = math.Pow(10, float64(c.between(-200, 200)))
		}
		positive = positive || w[i] > 0
	}
	for i := 0; i < 10; i++ {
		var r = rand.New(&hostileSource{c, i % 5})
		var ix, err = kmeans.WeightedChoice(w, r)
		c.Check((err == nil) == positive, "choice in %v: error %v", w, err)
		if err == nil {
			c.Check(ix >= 0 && ix < n && w[ix] > 0, "choice in %v: %d", w, ix)
		} else {
			c.Count("null weights", 1)
		}
		c.Eval(1)
	}
	// a centre to add
	var data = c.points(c.between(1, 12), 2)
	if c.flip() {
		data = append(data, data...)
	}
	var cl = core.Clust(data[:c.between(1, len(data))])
	var hostile = rand.New(&hostileSource{c, c.intn(5)})
	var e, err = kmeans.PPIter(cl, data, euclid.Space{}, hostile)
	var free = 0
	for _, x := range data {
		if _, _, d := cl.Assign(x, euclid.Space{}); d > 0 {
			free++
		}
	}
	c.Check((err == nil) == (free > 0), "PPIter on %d observations with %d not centres: error %v", len(data), free, err)
	if err == nil {
		var _, _, d = cl.Assign(e, euclid.Space{})
		c.Check(d > 0, "PPIter gives an existing centre %v", e)
		var found = false
		for _, x := range data {
			found = found || reflect.DeepEqual(x, e)
		}
		c.Check(found, "PPIter gives %v, not an observation", e)
	}
	if positive {
		c.Distinct("choice", c.Index)
	}
}

// counts compares frequencies with probabilities, at 6 standard deviations
func (c *Case) frequencies(what string, counts map[string]int, probs map[string]float64) {
	var n = 0
	for _, k := range counts {
		n += k
	}
	c.frequenciesOf(what, counts, probs, n)
}

// frequenciesOf events that need not exclude each other, among n draws
func (c *Case) frequenciesOf(what string, counts map[string]int, probs map[string]float64, n int) {
	var keys []string
	for k := range counts {
		if _, ok := probs[k]; !ok {
			c.Failf("%s: %s drawn %d times out of %d, impossible", what, k, counts[k], n)
		}
	}
	for k := range probs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		var p = probs[k]
		var sd = math.Sqrt(float64(n) * p * (1 - p))
		var diff = math.Abs(float64(counts[k]) - float64(n)*p)
		c.Check(diff <= 6*sd+1, "%s: %s drawn %d times out of %d, expected %.1f (%.1f standard deviations)", what, k, counts[k], n, float64(n)*p, diff/sd)
	}
	c.Count("draws", n)
	c.Eval(1)
}

func fairness(c *Case) {
	var draws = 20000
	var src = c.gen()
	switch c.Index % 4 {
	case 0: // weighted choice
		var n = c.between(1, 6)
		var w = make([]float64, n)
		var sum = 0.
		for sum == 0 {
			for i := range w {
				w[i] = 0
				if c.pick(.8) {
					w[i] = c.Rng.Float64() * math.Pow(10, float64(c.intn(3)))
				}
				sum += w[i]
			}
		}
		var counts, probs = map[string]int{}, map[string]float64{}
		for i := range w {
			if w[i] > 0 {
				probs[fmt.Sprint(i)] = w[i] / sum
			}
		}
		for i := 0; i < draws; i++ {
			var ix, err = kmeans.WeightedChoice(w, src)
			c.Check(err == nil, "choice in %v: %v", w, err)
			counts[fmt.Sprint(ix)]++
		}
		c.frequencies(fmt.Sprintf("choice in %v", w), counts, probs)
	case 1: // rand: subsets and positions
		draws *= 3
		var n = c.between(1, 6)
		if c.pick(.4) {
			n = c.between(7, 16)
		}
		var k = c.between(1, n)
		var data []core.Elemt
		for i := 0; i < n; i++ {
			data = append(data, []float64{float64(i)})
		}
		if n > 6 { // pairs
			var pairs, probs = map[string]int{}, map[string]float64{}
			for i := 0; i < n; i++ {
				probs[fmt.Sprint(i, i)] = float64(k) / float64(n)
				for j := 0; j < i && k > 1; j++ {
					probs[fmt.Sprint(j, i)] = float64(k*(k-1)) / float64(n*(n-1))
				}
			}
			var counts = make([]int, n*n)
			for i := 0; i < draws; i++ {
				var cl, err = kmeans.RandInitializer(k, data, euclid.Space{}, src)
				c.Check(err == nil && len(cl) == k, "rand %d of %d: %v", k, n, err)
				for a := range cl {
					for b := range cl {
						var x, y = int(cl[a].([]float64)[0]), int(cl[b].([]float64)[0])
						if x < y || a == b {
							counts[x*n+y]++
						}
					}
				}
			}
			for i, m := range counts {
				if m > 0 {
					pairs[fmt.Sprint(i/n, i%n)] = m
				}
			}
			c.frequenciesOf(fmt.Sprintf("rand %d of %d, pairs", k, n), pairs, probs, draws)
			break
		}
		var subsets = map[string]int{}
		var probs = map[string]float64{}
		var total = 0
		for m := 0; m < 1<<n; m++ {
			var s []int
			for i := 0; i < n; i++ {
				if m>>i&1 == 1 {
					s = append(s, i)
				}
			}
			if len(s) == k {
				probs[fmt.Sprint(s)] = 1
				total++
			}
		}
		for s := range probs {
			probs[s] = 1 / float64(total)
		}
		for i := 0; i < draws; i++ {
			var cl, err = kmeans.RandInitializer(k, data, euclid.Space{}, src)
			c.Check(err == nil, "rand %d of %d: %v", k, n, err)
			var s []int
			for _, x := range cl {
				s = append(s, int(x.([]float64)[0]))
			}
			sort.Ints(s)
			subsets[fmt.Sprint(s)]++
		}
		c.frequencies(fmt.Sprintf("rand %d of %d", k, n), subsets, probs)
	default: // pp: ordered triples at most
		var n = c.between(2, 5)
		var k = c.between(1, min(3, n))
		var d = make([][]float64, n)
		var data []core.Elemt
		for i := range d {
			d[i] = make([]float64, n)
			data = append(data, i)
		}
		for i := range d {
			for j := range d[:i] {
				d[i][j] = .2 + 3*c.Rng.Float64()
				d[j][i] = d[i][j]
			}
		}
		var probs = map[string]float64{}
		var walk func(chosen []int, p float64)
		walk = func(chosen []int, p float64) {
			if len(chosen) == k {
				probs[fmt.Sprint(chosen)] = p
				return
			}
			var w = make([]float64, n)
			var sum = 0.
			for i := range w {
				w[i] = 1
				if len(chosen) > 0 {
					w[i] = math.Inf(1)
					for _, j := range chosen {
						w[i] = math.Min(w[i], d[i][j])
					}
				}
				sum += w[i]
			}
			for i := range w {
				if w[i] > 0 {
					walk(append(append([]int{}, chosen...), i), p*w[i]/sum)
				}
			}
		}
		walk(nil, 1)
		var counts = map[string]int{}
		for i := 0; i < draws; i++ {
			var cl, err = kmeans.PPInitializer(k, data, tableSpace{d}, src)
			c.Check(err == nil, "pp %d of %d: %v", k, n, err)
			var s []int
			for _, x := range cl {
				s = append(s, x.(int))
			}
			counts[fmt.Sprint(s)]++
		}
		c.frequencies(fmt.Sprintf("pp %d of %d, distances %v", k, n, d), counts, probs)
	}
	c.Distinct("fair", c.Index)
}

func TestC20(t *testing.T) {
	var h = newH(t, "C20", "the three initializers, the weighted choice and the addition of a centre, on four spaces, with duplicates, from no observation, with impossible k and with "+
		"hostile sources of randomness, against their specification; frequencies of 20000 to 60000 draws against exact probabilities at 6 standard deviations, up to ordered triples. "+
		"Non trivial: at least 2 centres or a positive weight; distinct by case",
		"weights are not negative and their sum is finite", "for the rand initializer the generator is not constant")
	h.Cases("initializers", h.N(40000, 800000), initializers)
	h.Cases("choices", h.N(20000, 400000), choices)
	h.Cases("fairness", h.N(96, 4000), fairness)
	h.Cases("many", h.N(40, 1500), manyDraws)
	for _, name := range []string{"", "unknown", "gi ven"} {
		if kmeans.CreateInitializer(name) != nil {
			h.Cases("names", 1, func(c *Case) { c.Failf("initializer %q", name) })
		}
	}
	h.Require("errors", 5000)
	h.Require("centres", 20000)
	h.Require("draws", 1000000)
}
