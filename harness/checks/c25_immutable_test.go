package checks

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"math"
	"reflect"
	"strings"
	"sync"
	"testing"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/cosinus"
	"github.com/wearelumenai/distclus/dtw"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	"github.com/wearelumenai/distclus/streaming"
)

// fingerprint of a value, up to the length or the capacity of its slices
func fingerprint(v interface{}, capacity bool) uint64 {
	var f = fnv.New64a()
	var b [8]byte
	var put = func(x uint64) {
		binary.LittleEndian.PutUint64(b[:], x)
		f.Write(b[:])
	}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Slice:
			put(uint64(v.Len()))
			if v.IsNil() {
				put(7)
				return
			}
			var full = v
			if capacity {
				full = v.Slice(0, v.Cap())
			}
			for i := 0; i < full.Len(); i++ {
				walk(full.Index(i))
			}
		case reflect.Interface:
			if v.IsNil() {
				put(9)
				return
			}
			walk(v.Elem())
		case reflect.Float64:
			put(math.Float64bits(v.Float()))
		case reflect.Int:
			put(uint64(v.Int()))
		case reflect.Map:
			var sum uint64
			for _, k := range v.MapKeys() {
				sum += fingerprint(k.String(), false) ^ fingerprint(v.MapIndex(k).Float(), false)*31
			}
			put(sum)
		case reflect.String:
			f.Write([]byte(v.String()))
		default:
			panic("fingerprint of " + v.Kind().String())
		}
	}
	walk(reflect.ValueOf(v))
	return f.Sum64()
}

type watched struct {
	name string
	v    interface{}
	f    uint64
	text string
}

// the library may use the room after a slice that it returned
func given(name string) bool { return !strings.Contains(name, "returned") }

// guard watches values
type guard struct {
	c    *Case
	list []watched
}

func (g *guard) watch(name string, v interface{}) {
	if v == nil {
		return
	}
	g.list = append(g.list, watched{name, v, fingerprint(v, given(name)), fmt.Sprint(v)})
}

func (g *guard) verify(op string) {
	for _, w := range g.list {
		if fingerprint(w.v, given(w.name)) != w.f {
			g.c.Failf("%s modifies %s: %s becomes %v (or what follows it in memory)", op, w.name, w.text, w.v)
		}
	}
	g.c.Count("values verified", len(g.list))
	g.c.Eval(1)
}

// slices have room for elements that must not be touched
func (g *guard) vec(v []float64) []float64 {
	var b = append(append(make([]float64, 0, len(v)+2), v...), 123.5, 321.5)
	return b[:len(v)]
}

func (g *guard) series(s [][]float64) [][]float64 {
	var b = make([][]float64, 0, len(s)+1)
	for _, p := range s {
		b = append(b, g.vec(p))
	}
	b = append(b, []float64{1, 2, 3})
	return b[:len(s)]
}

func (g *guard) elems(es []core.Elemt) []core.Elemt {
	var b = append(append(make([]core.Elemt, 0, len(es)+2), es...), g.vec([]float64{9}), g.vec([]float64{8}))
	return b[:len(es)]
}

func immutability(c *Case) {
	var g = &guard{c: c}
	var kind = []string{"euclid", "cosinus", "dtw"}[c.intn(3)]
	var dim = c.between(1, 3)
	var ps dtw.PointSpace = euclid.NewSpace()
	if c.flip() {
		ps = cosinus.NewSpace()
	}
	var space core.Space = euclid.NewSpace()
	switch kind {
	case "cosinus":
		space = cosinus.NewSpace()
	case "dtw":
		space = dtw.NewSpace(dtw.Conf{InnerSpace: ps, Window: c.intn(3)})
	}
	var null = c.pick(.2)
	var vec = func() []float64 {
		var v = make([]float64, dim)
		for i := range v {
			if !null || c.flip() {
				v[i] = c.norm() * 3
			}
		}
		return g.vec(v)
	}
	var ser = func() [][]float64 {
		var s = make([][]float64, c.between(1, 6))
		for i := range s {
			s[i] = vec()
		}
		return g.series(s)
	}
	var elem = func() core.Elemt {
		if kind == "dtw" {
			return ser()
		}
		return vec()
	}
	var es []core.Elemt
	for i := c.between(2, 14); i > 0; i-- {
		es = append(es, elem())
	}
	if c.flip() {
		es = append(es, es[0]) // shared
	}
	es = g.elems(es)
	g.watch("observations", es)
	var n = len(es)
	var cl = core.Clust(g.elems(es[:c.between(1, n)]))
	g.watch("centroids", []core.Elemt(cl))
	var labels, weights = make([]int, n, n+2), make([]int, n, n+2)
	var fweights = make([]float64, n, n+2)
	for i := range labels {
		labels[i], weights[i], fweights[i] = c.intn(len(cl)), c.weight(), c.Rng.Float64()
	}
	g.watch("labels", labels)
	g.watch("weights", weights)
	g.watch("choice weights", fweights)
	var s1, s2 = ser(), ser()
	for len(s1) < 2 {
		s1 = ser()
	}
	for len(s2) < 2 {
		s2 = ser()
	}
	g.watch("series", s1)
	g.watch("series", s2)
	var p1, p2 = vec(), vec()
	g.watch("points", p1)
	g.watch("points", p2)
	var src = c.gen()
	var any = func() core.Elemt {
		if c.pick(.4) { // something returned earlier
			for i := 0; i < 5; i++ {
				var w = g.list[c.intn(len(g.list))]
				if w.name == "a returned element" {
					return w.v
				}
			}
		}
		return es[c.intn(n)]
	}
	var elemOut = func(e core.Elemt) {
		if e != nil {
			g.watch("a returned element", e)
		}
	}
	var clOut = func(cl []core.Elemt) { g.watch("returned elements", cl) }
	var multi = mcmc.NewMultivT(mcmc.MultivTConf{Dim: dim, RGen: src})
	var buf core.Buffer
	var degree = c.between(1, 5)
	var norm = float64(c.between(1, 3))
	var ops = map[string]func(){
		"Dist":    func() { space.Dist(any(), any()) },
		"Combine": func() { elemOut(space.Combine(any(), c.weight(), any(), c.weight())) },
		"Combine with itself": func() {
			var e = any()
			elemOut(space.Combine(e, c.weight(), e, c.weight()))
		},
		"Copy": func() { elemOut(space.Copy(any())) },
		"Dim":  func() { space.Dim(es) },
		"PointDist, PointCombine, PointCopy": func() {
			ps.PointDist(p1, p2)
			g.watch("a returned point", ps.PointCombine(p1, c.weight(), p2, c.weight()))
			g.watch("a returned point", ps.PointCopy(p1))
		},
		"Cosinus, Norm, ScalarProduct": func() { cosinus.Cosinus(p1, p2); cosinus.Norm(p1); cosinus.ScalarProduct(p1, p2) },
		"DTW": func() {
			var d = dtw.NewDTW(s1, s2, ps)
			d.Path()
			d.Dist()
			g.watch("a returned series", d.DBA(c.weight(), c.weight()))
		},
		"DTW window": func() {
			var diff = len(s1) - len(s2)
			if diff < 0 {
				diff = -diff
			}
			var d = dtw.NewDTWWindow(s1, s2, ps, max(1, diff))
			g.watch("a returned series", d.DBA(1, 2))
		},
		"Resize": func() { g.watch("a returned series", dtw.Resize(s1, c.between(2, 8), ps)) },
		"ShrinkLongest": func() {
			a, b := dtw.ShrinkLongest(s1, s2, ps, c.intn(3))
			g.watch("a returned series", a)
			g.watch("a returned series", b)
		},
		"Interpolate": func() {
			var idx = make([]int, len(s1), len(s1)+2)
			for i := range idx {
				idx[i] = 2 * i
			}
			g.watch("indexes", idx)
			g.watch("a returned series", dtw.Interpolate(s1, idx, c.between(1, 3), ps))
		},
		"Assign": func() { var e, _, _ = cl.Assign(any(), space); elemOut(e) },
		"MapLabel": func() {
			l, d := cl.MapLabel(es, space)
			g.watch("returned labels", l)
			g.watch("returned distances", d)
		},
		"ParMapLabel": func() {
			l, d := cl.ParMapLabel(es, space, degree)
			g.watch("returned labels", l)
			g.watch("returned distances", d)
		},
		"ReduceDBA":          func() { m, k := cl.ReduceDBA(es, space); clOut(m); g.watch("returned cards", k) },
		"ReduceDBAForLabels": func() { m, k := cl.ReduceDBAForLabels(es, labels, space); clOut(m); g.watch("returned cards", k) },
		"ParReduceDBA":       func() { m, k := cl.ParReduceDBA(es, space, degree); clOut(m); g.watch("returned cards", k) },
		"ParReduceDBAForLabels": func() {
			m, k := cl.ParReduceDBAForLabels(es, labels, space, degree)
			clOut(m)
			g.watch("returned cards", k)
		},
		"losses": func() {
			cl.TotalLoss(es, space, norm)
			cl.ParTotalLoss(es, space, norm, degree)
			a, b := cl.ReduceLoss(es, space, norm)
			d, e := cl.ParReduceLoss(es, space, norm, degree)
			g.watch("returned losses", a)
			g.watch("returned losses", d)
			g.watch("returned cards", b)
			g.watch("returned cards", e)
			cl.ReduceLossForLabels(es, labels, space, norm)
			cl.ParReduceLossForLabels(es, labels, space, norm, degree)
		},
		"DBA":               func() { e, _ := core.DBA(es, space); elemOut(e) },
		"WeightedDBA":       func() { e, _ := core.WeightedDBA(es, weights, space); elemOut(e) },
		"Clust.Initializer": func() { m, _ := cl.Initializer(1, es, space, src); clOut(m) },
		"GivenInitializer":  func() { m, _ := kmeans.GivenInitializer(c.between(1, n), es, space, src); clOut(m) },
		"PPInitializer":     func() { m, _ := kmeans.PPInitializer(c.between(1, n), es, space, src); clOut(m) },
		"RandInitializer":   func() { m, _ := kmeans.RandInitializer(c.between(1, n), es, space, src); clOut(m) },
		"PPIter":            func() { e, _ := kmeans.PPIter(cl, es, space, src); elemOut(e) },
		"WeightedChoice":    func() { _, _ = kmeans.WeightedChoice(fweights, src) },
		"MultivT":           func() { multi.Pdf(p1, p2, 3); g.watch("a returned sample", multi.Sample(p1, 3)) },
		"Dirac":             func() { mcmc.NewDirac().Pdf(p1, p2, 3); g.watch("a returned sample", mcmc.NewDirac().Sample(p1, 3)) },
		"NewDataBuffer":     func() { buf = core.NewDataBuffer(es, c.intn(n+3)) },
		"buffer Push, Apply": func() {
			if buf != nil {
				g.watch("data returned by a buffer", buf.Data())
				for i := c.between(1, 4); i > 0; i-- {
					_ = buf.Push(es[c.intn(n)], c.flip())
				}
				_ = buf.Apply()
			}
		},
		"CenterStore": func() {
			var st = mcmc.NewCenterStore(src)
			st.SetCenters(cl)
			for k := len(cl) - 1; k <= len(cl)+1; k++ {
				if k > 0 {
					if m, err := st.GetCenters(es, space, k, cl); err == nil {
						clOut(m)
					}
				}
			}
		},
	}
	var names []string
	for name := range ops {
		names = append(names, name)
	}
	sortStrings(names)
	for i := c.between(5, 25); i > 0; i-- {
		var name = names[c.intn(len(names))]
		c.Tracef("%s", name)
		ops[name]()
		g.verify(kind + " " + name)
		c.Seen("operations", name)
	}
	c.Distinct(kind, c.Index)
	c.Sample(fmt.Sprintf("%s, %d observations: %v", kind, n, c.trace))
}

// whole runs: neither the observations nor what was returned change
func algoImmutability(c *Case) {
	var g = &guard{c: c}
	var spec = c.algoSpec([]string{"kmeans", "mcmc", "streaming"}[c.intn(3)])
	var elem = func() core.Elemt {
		switch e := c.realElem(spec.space, 2)().(type) {
		case []float64:
			return g.vec(e)
		case [][]float64:
			return g.series(e)
		}
		return nil
	}
	var data []core.Elemt
	for i := c.between(7, 25); i > 0; i-- {
		data = append(data, elem())
	}
	data = g.elems(data)
	g.watch("observations", data)
	if spec.kind == "mcmc" { // weights of the configuration
		spec.probaK = []float64{1, 2, 1}
		g.watch("probabilities given to mcmc", spec.probaK)
	}
	var alone = c.hooked(spec, append([]core.Elemt{}, data...)) // built with its own slice
	var slice = g.elems(data)
	var hk = c.hooked(spec, slice)
	var others []*hooked
	for i := c.intn(3); i > 0; i-- { // share the observations
		var s2 = spec
		if c.flip() {
			s2 = c.algoSpec(spec.kind)
			s2.space = spec.space
		}
		others = append(others, c.hooked(s2, data))
	}
	// the slice given may be modified
	for i := range slice {
		slice[i] = elem()
	}
	_ = append(slice, elem(), elem())
	var where = fmt.Sprintf("%s %s (%s)", spec.kind, spec.space, spec.init)
	var step = func(h *hooked, more []core.Elemt, n int, watch bool) error {
		for _, e := range more {
			if err := h.algo.Push(e); err != nil {
				return err
			}
		}
		if watch {
			h.at = func(int) {
				g.watch("centroids returned by "+where, []core.Elemt(h.algo.Centroids()))
				g.watch("figures returned", map[string]float64(h.algo.RuntimeFigures()))
			}
		}
		var err = h.run(n)
		h.at = nil
		return err
	}
	for round := 0; round < 3; round++ {
		var more []core.Elemt
		for i := c.intn(4); i > 0; i-- {
			var e = elem()
			g.watch("a pushed observation", e)
			more = append(more, e)
		}
		var n = c.between(1, 6)
		if spec.kind == "streaming" {
			n = 1
		}
		// at the same time as others on the same observations
		var wg sync.WaitGroup
		for _, o := range others {
			wg.Add(1)
			go func() { defer wg.Done(); _ = step(o, more, n+1, false) }()
		}
		var err = step(hk, more, n, true)
		wg.Wait()
		g.verify(where + " run")
		var ref = step(alone, more, n, false)
		c.Check(sameErr(err, ref), "%s: run ends with %v, and with %v alone", where, err, ref)
		var diff = sameState(hk.algo, alone.algo)
		c.Check(diff == "", "%s: sharing its observations with %d other algorithms, after the slice given was modified: %s", where, len(others), diff)
		// predictions
		var e = elem()
		g.watch("an element to predict", e)
		var p, _, _ = hk.algo.Predict(e)
		g.watch("a returned prediction", p)
		if spec.kind != "streaming" && c.flip() {
			_, _ = hk.algo.Copy(spec.conf(), hk.algo.Space())
			_, _ = alone.algo.Copy(spec.conf(), alone.algo.Space())
		}
	}
	for _, h := range append(others, hk, alone) {
		_ = h.algo.Stop()
	}
	g.verify(where + " stop")
	c.Count("algorithms", 2+len(others))
	c.Distinct(where, c.Index)
	c.Sample(where)
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

func TestC25(t *testing.T) {
	var h = newH(t, "C25", "every operation of the library on values whose memory is watched bit by bit, beyond their length, together with all that was returned before; whole runs of "+
		"the three algorithms with watched observations and results, the slice given at construction being modified, and other algorithms running on the same observations, against "+
		"a run alone. Non trivial: every case; distinct by case",
		"the distribution given to mcmc has no state")
	h.Cases("operations", h.N(20000, 300000), immutability)
	h.Cases("runs", h.N(3000, 50000), func(c *Case) { c.Bubble(func() { algoImmutability(c) }) })
	_ = streaming.MaxDistance
	h.Require("operations", 25)
	h.Require("values verified", 1000000)
	h.Require("algorithms", 3000)
}
