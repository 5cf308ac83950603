package checks

import (
	"fmt"
	"math"
	"reflect"
	"runtime"
	"testing"
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	"github.com/wearelumenai/distclus/streaming"
	"github.com/wearelumenai/distclus/template"
)

// confCase is a configuration with what is expected from it
type confCase struct {
	kind    string
	conf    core.Conf // a pointer
	data    []core.Elemt
	ownBad  bool // refused by Verify
	ctrlBad bool // refused by the verification of the control parameters
	sizeBad bool // refused because of the observations
	missing []string
	want    map[string]interface{} // values after completion
}

func (k confCase) String() string {
	return fmt.Sprintf("%s %+v, %d observations", k.kind, deref(k.conf), len(k.data))
}

func deref(conf core.Conf) interface{} { return reflect.ValueOf(conf).Elem().Interface() }

func (c *Case) anyInt(valid ...int) int {
	if c.pick(.75) {
		return valid[c.intn(len(valid))]
	}
	return []int{-1, -2, -100, math.MinInt32, math.MinInt64, 0, 1, 2, 3, 1 << 20, math.MaxInt64}[c.intn(11)]
}

func (c *Case) anyFloat() float64 {
	return []float64{0, 0, .1, 1, 3.5, -1, 1e-300, 1e300, c.norm()}[c.intn(9)]
}

func (c *Case) ctrlConf(bad float64) (ctrl core.CtrlConf, wrong bool) {
	var val = func() int {
		if c.pick(bad) {
			wrong = true
			return []int{-1, -2, -1 - c.intn(1000), math.MinInt64}[c.intn(4)]
		}
		return []int{0, 0, 0, 1, 2, c.intn(1000), math.MaxInt64}[c.intn(7)]
	}
	ctrl.Iter, ctrl.DataPerIter, ctrl.IterPerData, ctrl.Timeout = val(), val(), val(), time.Duration(val())
	ctrl.IterFreq = math.Abs(c.anyFloat())
	if c.pick(bad) {
		wrong = true
		ctrl.IterFreq = []float64{-1, -1e-300, -math.MaxFloat64, math.Inf(-1), -.5}[c.intn(5)]
	}
	if c.flip() {
		ctrl.Finishing = FuncFinishing(func(core.OCModel) bool { return true })
	}
	if c.flip() {
		ctrl.StatusNotifier = func(core.OnlineClust, core.OCStatus) {}
	}
	return
}

func (c *Case) confCase(kind string, bad float64) (k confCase) {
	k.kind = kind
	var ctrl core.CtrlConf
	ctrl, k.ctrlBad = c.ctrlConf(bad)
	for i := c.intn(6); i > 0; i-- {
		k.data = append(k.data, []float64{c.norm(), c.norm()})
	}
	k.want = map[string]interface{}{
		"Iter": ctrl.Iter, "IterFreq": ctrl.IterFreq, "Timeout": ctrl.Timeout, "DataPerIter": ctrl.DataPerIter, "IterPerData": ctrl.IterPerData,
	}
	var orInt = func(name string, v, def int) {
		if v == 0 {
			k.missing = append(k.missing, name)
			v = def
		}
		k.want[name] = v
	}
	var orFloat = func(name string, v, def float64) {
		if v == 0 {
			k.missing = append(k.missing, name)
			v = def
		}
		k.want[name] = v
	}
	var rgen = genOf(c.Rng.Uint64())
	if c.flip() {
		rgen = nil
		k.missing = append(k.missing, "RGen")
	} else {
		k.want["RGen"] = rgen
	}
	var cpus = c.intn(4) * c.intn(3)
	switch kind {
	case "kmeans":
		var conf = kmeans.Conf{CtrlConf: ctrl, Par: c.flip(), K: c.anyInt(1, 2, 5, 1000), FrameSize: c.intn(5), RGen: rgen, NumCPU: cpus}
		k.conf, k.ownBad = &conf, conf.K < 1
		k.want["K"], k.want["Par"], k.want["FrameSize"] = conf.K, conf.Par, conf.FrameSize
		orInt("NumCPU", cpus, runtime.NumCPU())
	case "mcmc":
		var conf = mcmc.Conf{CtrlConf: ctrl, Par: c.flip(), InitK: c.anyInt(1, 2, 5, 16, 17), RGen: rgen, B: c.anyFloat(), Amp: c.anyFloat(), R: c.anyFloat(),
			Norm: c.anyFloat(), MaxK: []int{0, 0, 16, 5, 2, 1, c.between(1, 30)}[c.intn(7)], FrameSize: c.intn(5), NumCPU: cpus}
		var probak = []float64{1, 8, 1}
		if c.flip() {
			conf.ProbaK = []float64{c.Rng.Float64(), 1, c.Rng.Float64()}[:c.between(1, 3)]
			probak = append([]float64{}, conf.ProbaK...)
		} else {
			k.missing = append(k.missing, "ProbaK")
			if c.flip() {
				conf.ProbaK = []float64{}
			}
		}
		k.conf = &conf
		orInt("MaxK", conf.MaxK, 16)
		orInt("NumCPU", cpus, runtime.NumCPU())
		orFloat("Norm", conf.Norm, 2)
		orFloat("B", conf.B, 1)
		k.ownBad = conf.InitK < 1 || conf.InitK > k.want["MaxK"].(int)
		k.want["InitK"], k.want["Par"], k.want["FrameSize"], k.want["Amp"], k.want["R"], k.want["ProbaK"] = conf.InitK, conf.Par, conf.FrameSize, conf.Amp, conf.R, probak
	case "streaming":
		var conf = streaming.Conf{CtrlConf: ctrl, BufferSize: []int{0, 0, 1, 2, 3, 4, 5, 200}[c.intn(8)], Mu: c.anyFloat(), Sigma: c.anyFloat(), OutRatio: c.anyFloat(),
			OutAfter: c.anyInt(0, 0, 2, 3, 50), RGen: rgen}
		k.conf = &conf
		orInt("BufferSize", conf.BufferSize, 100)
		orFloat("Mu", conf.Mu, .5)
		orFloat("Sigma", conf.Sigma, .1)
		orFloat("OutRatio", conf.OutRatio, 2)
		orInt("OutAfter", conf.OutAfter, 5)
		k.ownBad = k.want["OutAfter"].(int) < 2
		k.sizeBad = k.want["BufferSize"].(int) < len(k.data)
	default:
		var conf = template.Conf{CtrlConf: ctrl}
		k.conf = &conf
		k.ownBad = k.ctrlBad // the verification is that of the control parameters
		k.missing = nil
		delete(k.want, "RGen")
	}
	return
}

// clone copies the configuration itself
func (k confCase) clone() core.Conf {
	var p = reflect.New(reflect.TypeOf(k.conf).Elem())
	p.Elem().Set(reflect.ValueOf(k.conf).Elem())
	return p.Interface().(core.Conf)
}

func (k confCase) build() (algo *core.Algo) {
	var init core.Initializer = kmeans.GivenInitializer
	switch conf := k.clone().(type) {
	case *kmeans.Conf:
		return kmeans.NewAlgo(*conf, euclid.NewSpace(), k.data, init)
	case *mcmc.Conf:
		return mcmc.NewAlgo(*conf, euclid.NewSpace(), k.data, init, pureDistrib{})
	case *streaming.Conf:
		return streaming.NewAlgo(*conf, euclid.NewSpace(), k.data)
	case *template.Conf:
		return template.NewAlgo(*conf, euclid.NewSpace(), k.data)
	}
	panic("unknown kind")
}

// completed checks the values of a configuration after completion
func (c *Case) completed(k confCase, conf core.Conf, when string) {
	var v = reflect.ValueOf(conf).Elem()
	for name, want := range k.want {
		var got = v.FieldByName(name).Interface()
		c.Check(reflect.DeepEqual(got, want), "%v: %s, %s is %v instead of %v", k, when, name, got, want)
	}
	if f := v.FieldByName("RGen"); f.IsValid() {
		c.Check(!f.IsNil(), "%v: %s, no random generator", k, when)
	}
	var in, out = k.conf.Ctrl(), conf.Ctrl()
	c.Check((in.Finishing == nil) == (out.Finishing == nil), "%v: %s, the end condition is changed", k, when)
	c.Check((in.StatusNotifier == nil) == (out.StatusNotifier == nil), "%v: %s, the notifier is changed", k, when)
	c.Eval(len(k.want) + 3)
}

func (c *Case) checkConf(k confCase) {
	var bad = k.ownBad || k.ctrlBad
	var steps = []struct {
		name string
		bad  bool
		full bool
		f    func(core.Conf) error
	}{
		{"Verify", k.ownBad, false, func(x core.Conf) error { return x.Verify() }},
		{"Ctrl().Verify", k.ctrlBad, false, func(x core.Conf) error { return x.Ctrl().Verify() }},
		{"PrepareConf", bad, true, func(x core.Conf) error { return core.PrepareConf(x) }},
	}
	for _, s := range steps {
		var conf = k.clone()
		var err = s.f(conf)
		c.Check((err != nil) == s.bad, "%v: %s returns %v, invalid: %v", k, s.name, err, s.bad)
		if s.full || s.name == "Verify" {
			c.completed(k, conf, s.name)
		}
		var before = deref(conf)
		for i := 0; i < 2; i++ { // again
			var err2 = s.f(conf)
			c.Check((err2 == nil) == (err == nil) && (err == nil || err.Error() == err2.Error()), "%v: %s returns %v, then %v", k, s.name, err, err2)
			c.Check(sameConf(before, deref(conf)), "%v: %s again: %+v becomes %+v", k, s.name, before, deref(conf))
		}
		c.Eval(3)
	}
	if again := c.confCase(k.kind, .3); true { // what was verified is modified, then verified
		var conf = k.clone()
		_ = core.PrepareConf(conf)
		var src, dst = reflect.ValueOf(again.conf).Elem(), reflect.ValueOf(conf).Elem()
		for i := 0; i < src.NumField(); i++ {
			if dst.Field(i).CanSet() {
				dst.Field(i).Set(src.Field(i))
			}
		}
		var err = conf.Verify()
		c.Check((err != nil) == again.ownBad, "%v: Verify returns %v after a verification as %v, invalid: %v", again, err, k, again.ownBad)
		c.completed(again, conf, "Verify again")
		err = core.PrepareConf(conf)
		c.Check((err != nil) == (again.ownBad || again.ctrlBad), "%v: PrepareConf returns %v after a verification as %v", again, err, k)
		c.Eval(2)
	}
	{
		var conf = k.clone()
		conf.SetDefaultValues()
		c.completed(k, conf, "SetDefaultValues")
	}
	// construction
	var algo *core.Algo
	var r interface{}
	func() {
		defer func() { r = recover() }()
		algo = k.build()
	}()
	bad = bad || k.sizeBad
	c.Check((r != nil) == bad, "%v: construction panics with %v, invalid: %v", k, r, bad)
	c.Eval(1)
	if bad {
		c.Check(algo == nil, "%v: an algorithm is built", k)
		c.Count("rejected", 1)
		return
	}
	c.Count("accepted", 1)
	if algo == nil {
		return
	}
	c.completed(k, algo.Conf(), "the configuration of the algorithm")
	c.Check(algo.Status().Value == core.Created && algo.Status().Error == nil, "%v: status %s", k, sstr(algo.Status()))
	// the one of the user is not modified by a construction
	c.Check(sameConf(deref(k.conf), deref(k.clone())), "%v: modified", k)
}

// sameConf compares two configurations, functions and generators by identity
func sameConf(a, b interface{}) bool {
	var x, y = reflect.ValueOf(a), reflect.ValueOf(b)
	for i := 0; i < x.NumField(); i++ {
		var f, g = x.Field(i), y.Field(i)
		switch f.Kind() {
		case reflect.Struct:
			if !sameCtrl(x.FieldByName("CtrlConf").Interface().(core.CtrlConf), y.FieldByName("CtrlConf").Interface().(core.CtrlConf)) {
				return false
			}
		case reflect.Ptr:
			if f.Pointer() != g.Pointer() {
				return false
			}
		default:
			if fmt.Sprint(f) != fmt.Sprint(g) {
				return false
			}
		}
	}
	return true
}

func sameCtrl(a, b core.CtrlConf) bool {
	return a.Iter == b.Iter && a.IterFreq == b.IterFreq && a.Timeout == b.Timeout && a.DataPerIter == b.DataPerIter && a.IterPerData == b.IterPerData &&
		(a.Finishing == nil) == (b.Finishing == nil) && (a.StatusNotifier == nil) == (b.StatusNotifier == nil)
}

func TestC27(t *testing.T) {
	var h = newH(t, "C27", "random and exhaustive configurations of kmeans, mcmc, streaming and of the template: verification and construction must refuse exactly the invalid ones, "+
		"the values after completion must be the given ones or the documented defaults, and verifying again must change nothing; executions with missing parameters are compared with "+
		"executions with the documented defaults. Non trivial: distinct by configuration",
		"NaN values, negative NumCPU, FrameSize and BufferSize are not considered")
	var kinds = []string{"kmeans", "mcmc", "streaming", "template"}
	h.Cases("random", h.N(40000, 400000), func(c *Case) {
		var k = c.confCase(kinds[c.intn(4)], []float64{0, 0, .1, .3}[c.intn(4)])
		c.checkConf(k)
		c.Distinct(k.String())
		c.Seen("missing", k.kind, fmt.Sprint(k.missing))
		c.Sample(k.String()[:min(200, len(k.String()))])
	})
	// each control parameter at each of its interesting values, for each algorithm
	var ints = []int{math.MinInt64, -1, 0, 1, math.MaxInt64}
	var floats = []float64{math.Inf(-1), -1e-9, 0, 1e-9, math.Inf(1)}
	h.Cases("control", 4*5*5*5*5*5, func(c *Case) {
		var i = c.Index
		var next = func(n int) int {
			var x = i % n
			i /= n
			return x
		}
		var kind = kinds[next(4)]
		var k = c.confCase(kind, 0)
		for k.ownBad || k.sizeBad {
			k = c.confCase(kind, 0)
		}
		var ctrl = k.conf.Ctrl()
		ctrl.Iter, ctrl.DataPerIter, ctrl.IterPerData, ctrl.Timeout, ctrl.IterFreq = ints[next(5)], ints[next(5)], ints[next(5)], time.Duration(ints[next(5)]), floats[next(5)]
		k.want["Iter"], k.want["DataPerIter"], k.want["IterPerData"], k.want["Timeout"], k.want["IterFreq"] = ctrl.Iter, ctrl.DataPerIter, ctrl.IterPerData, ctrl.Timeout, ctrl.IterFreq
		k.ctrlBad = ctrl.Iter < 0 || ctrl.DataPerIter < 0 || ctrl.IterPerData < 0 || ctrl.Timeout < 0 || ctrl.IterFreq < 0
		if kind == "template" {
			k.ownBad = k.ctrlBad
		}
		c.checkConf(k)
		c.Distinct(k.String())
	})
	h.Cases("sizes", 30*30*4, func(c *Case) {
		var a, b = c.Index / 4 % 30, c.Index / 4 / 30
		switch c.Index % 4 {
		case 0: // mcmc InitK, MaxK
			var k = c.confCase("mcmc", 0)
			var conf = k.conf.(*mcmc.Conf)
			conf.InitK, conf.MaxK = a-5, b
			k.want["InitK"], k.want["MaxK"] = a-5, b
			if b == 0 {
				k.want["MaxK"] = 16
			}
			k.ownBad = conf.InitK < 1 || conf.InitK > k.want["MaxK"].(int)
			c.checkConf(k)
		case 1: // streaming buffer and observations
			var k = c.confCase("streaming", 0)
			var conf = k.conf.(*streaming.Conf)
			conf.OutAfter, conf.BufferSize = 2, b
			k.want["OutAfter"], k.want["BufferSize"], k.ownBad = 2, b, false
			k.data = make([]core.Elemt, a)
			for i := range k.data {
				k.data[i] = []float64{c.norm()}
			}
			k.sizeBad = b > 0 && a > b
			if b == 0 {
				k.want["BufferSize"] = 100
				for i := 0; i < c.intn(3)*100; i++ {
					k.data = append(k.data, []float64{c.norm()})
				}
				k.sizeBad = len(k.data) > 100
			}
			c.checkConf(k)
		case 2: // streaming OutAfter
			var k = c.confCase("streaming", 0)
			k.conf.(*streaming.Conf).OutAfter = c.Index/4 - 400
			k.want["OutAfter"] = c.Index/4 - 400
			if c.Index/4 == 400 {
				k.want["OutAfter"] = 5
			}
			k.ownBad = k.want["OutAfter"].(int) < 2
			c.checkConf(k)
		default: // kmeans K
			var k = c.confCase("kmeans", 0)
			k.conf.(*kmeans.Conf).K = c.Index/4 - 400
			k.want["K"], k.ownBad = c.Index/4-400, c.Index/4-400 < 1
			c.checkConf(k)
		}
	})
	// missing parameters have the effects of the documented ones
	h.Cases("effect", h.N(1500, 15000), func(c *Case) { c.Bubble(func() { c.confEffect() }) })
	h.Require("rejected", 10000)
	h.Require("accepted", 10000)
	h.Require("executions compared", 1000)
}

func (c *Case) confEffect() {
	var seed = c.Rng.Uint64()
	var n = c.between(5, 60)
	var data []core.Elemt
	for i := 0; i < n; i++ {
		data = append(data, []float64{c.norm()*.3 + float64(c.intn(4)*5), c.norm()})
	}
	var iters = c.between(1, 6)
	var pair [2]core.OnlineClust
	var what string
	switch c.intn(3) {
	case 0:
		var conf = kmeans.Conf{CtrlConf: core.CtrlConf{Iter: iters}, K: c.between(1, 4), Par: c.flip(), FrameSize: 0}
		for i := range pair {
			var f = conf
			f.RGen = genOf(seed)
			if i == 1 {
				f.NumCPU = runtime.NumCPU()
			}
			pair[i] = kmeans.NewAlgo(f, euclid.NewSpace(), data, kmeans.RandInitializer)
		}
		what = "kmeans"
	case 1:
		var conf = mcmc.Conf{CtrlConf: core.CtrlConf{Iter: iters * 5}, InitK: c.between(1, 4), Par: c.flip(), Amp: []float64{.01, .1, 1}[c.intn(3)], R: 1}
		var drop = c.intn(16)
		for i := range pair {
			var f = conf
			f.RGen = genOf(seed)
			if i == 1 || drop&1 == 0 {
				f.ProbaK = []float64{1, 8, 1}
			}
			if i == 1 || drop&2 == 0 {
				f.Norm = 2
			}
			if i == 1 || drop&4 == 0 {
				f.MaxK = 16
			}
			if i == 1 || drop&8 == 0 {
				f.B = 1
			}
			pair[i] = mcmc.NewAlgo(f, euclid.NewSpace(), data, kmeans.RandInitializer, mcmc.NewMultivT(mcmc.MultivTConf{Dim: 2, Nu: 3, RGen: genOf(seed + 1)}))
		}
		what = fmt.Sprintf("mcmc, missing %b", drop)
	default:
		var drop = c.intn(32)
		for i := range pair {
			var evals = 0
			var f = streaming.Conf{CtrlConf: core.CtrlConf{Finishing: FuncFinishing(func(core.OCModel) bool {
				evals++
				return evals > 150
			})}}
			f.RGen = genOf(seed)
			if i == 1 || drop&1 == 0 {
				f.BufferSize = 100
			}
			if i == 1 || drop&2 == 0 {
				f.Mu = .5
			}
			if i == 1 || drop&4 == 0 {
				f.Sigma = .1
			}
			if i == 1 || drop&8 == 0 {
				f.OutRatio = 2
			}
			if i == 1 || drop&16 == 0 {
				f.OutAfter = 5
			}
			pair[i] = streaming.NewAlgo(f, euclid.NewSpace(), data)
		}
		what = fmt.Sprintf("streaming, missing %b", drop)
		if c.flip() { // capacity
			var pushed [2]int
			for i := range pair {
				for j := n; j < 130; j++ { // only the buffer may refuse them
					if pair[i].Push([]float64{1, 2}) != nil {
						break
					}
					pushed[i]++
				}
			}
			c.Check(pushed[0] == pushed[1] && n+pushed[0] == 100, "%s: %d and %d pushes accepted after %d observations", what, pushed[0], pushed[1], n)
		}
	}
	for i := range pair {
		var err = pair[i].Play()
		if err == nil {
			err = pair[i].Wait(nil, 0)
		}
		c.Check(err == nil, "%s: %v", what, err)
	}
	c.Check(reflect.DeepEqual(pair[0].Centroids(), pair[1].Centroids()) && sameFigures(withoutTime(pair[0].RuntimeFigures()), withoutTime(pair[1].RuntimeFigures())),
		"%s: %v, %v instead of %v, %v", what, pair[0].Centroids(), pair[0].RuntimeFigures(), pair[1].Centroids(), pair[1].RuntimeFigures())
	for i := range pair {
		_ = pair[i].Stop()
	}
	c.Count("executions compared", 1)
	c.Seen("effects", what)
	c.Eval(3)
}
