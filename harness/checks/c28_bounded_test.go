package checks

import (
	"fmt"
	"regexp"
	"runtime"
	"strings"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
	"weak"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/cosinus"
	"github.com/wearelumenai/distclus/dtw"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	"github.com/wearelumenai/distclus/streaming"
)

// Monitor of C28: weak pointers to everything pushed and published tell what is still retained once
// the garbage collector has run.

// refOf is a weak pointer to the memory of an element: two are equal when they point to the same one
func refOf(e core.Elemt) interface{} {
	switch x := e.(type) {
	case []float64:
		return weak.Make(&x[0])
	case [][]float64:
		return weak.Make(&x[0])
	}
	panic("element")
}

// watchList is a set of elements that are not retained by it
type watchList struct{ refs map[interface{}]bool }

//go:noinline
func (w *watchList) add(e core.Elemt) {
	if w.refs == nil {
		w.refs = map[interface{}]bool{}
	}
	w.refs[refOf(e)] = true
}

// alive forgets the elements that are released and returns the number of others
func (w *watchList) alive() int {
	for r := range w.refs {
		switch x := r.(type) {
		case weak.Pointer[float64]:
			if x.Value() == nil {
				delete(w.refs, r)
			}
		case weak.Pointer[[]float64]:
			if x.Value() == nil {
				delete(w.refs, r)
			}
		}
	}
	return len(w.refs)
}

func collect() {
	runtime.GC()
	runtime.GC()
}

type boundedCase struct {
	c       *Case
	kind    string
	space   core.Space
	dim     int
	series  bool
	frame   int
	k       int
	maxK    int
	algo    *core.Algo
	obs     watchList
	results watchList
	pushed  int // accepted in the session
	iters   atomic.Int64
	target  atomic.Int64
	buffer  int
}

// IsFinished ends a run after a number of iterations, and watches the results
func (b *boundedCase) IsFinished(m core.OCModel) bool {
	var cl = m.Centroids()
	for _, e := range cl {
		b.results.add(e)
	}
	if len(b.results.refs) > 4000 {
		b.results.alive()
	}
	return int64(m.RuntimeFigures()[core.Iterations]) >= b.target.Load()
}

func (b *boundedCase) point() []float64 {
	var p = make([]float64, b.dim)
	var centre = float64(20 * b.c.intn(3))
	for i := range p {
		p[i] = centre + b.c.norm()
	}
	return p
}

//go:noinline
func (b *boundedCase) elemt() (e core.Elemt) {
	if b.series {
		var s = make([][]float64, b.c.between(3, 6))
		for i := range s {
			s[i] = b.point()
		}
		return s
	}
	return b.point()
}

//go:noinline
func (b *boundedCase) push(n int) {
	for i := 0; i < n; i++ {
		var e = b.elemt()
		b.obs.add(e)
		if b.algo.Push(e) == nil {
			b.pushed++
		} else if b.kind != "streaming" {
			b.c.Failf("Push refused")
		}
	}
}

//go:noinline
func (b *boundedCase) build() {
	var c = b.c
	var data []core.Elemt
	for n := c.between(b.k+2, b.k+30); n > 0; n-- {
		var e = b.elemt()
		b.obs.add(e)
		data = append(data, e)
	}
	var ctrl = core.CtrlConf{Finishing: b}
	if c.flip() {
		ctrl.Timeout = time.Hour
	}
	if c.flip() {
		ctrl.StatusNotifier = func(core.OnlineClust, core.OCStatus) {}
	}
	var init = []core.Initializer{kmeans.GivenInitializer, kmeans.PPInitializer, kmeans.RandInitializer}[c.intn(3)]
	switch b.kind {
	case "kmeans":
		b.algo = kmeans.NewAlgo(kmeans.Conf{CtrlConf: ctrl, K: b.k, FrameSize: b.frame, RGen: c.gen(), Par: c.flip(), NumCPU: c.between(1, 4)}, b.space, data, init)
	case "mcmc":
		var dist mcmc.Distrib = mcmc.NewDirac()
		if !b.series && c.flip() {
			dist = mcmc.NewMultivT(mcmc.MultivTConf{Dim: b.dim, RGen: c.gen()})
		}
		b.algo = mcmc.NewAlgo(mcmc.Conf{CtrlConf: ctrl, InitK: b.k, MaxK: b.maxK, FrameSize: b.frame, Amp: .01, RGen: c.gen(), Par: c.flip(), NumCPU: c.between(1, 4)}, b.space, data, init, dist)
	case "streaming":
		b.pushed = len(data)
		b.algo = streaming.NewAlgo(streaming.Conf{CtrlConf: ctrl, BufferSize: b.buffer, RGen: c.gen()}, b.space, data)
	}
}

// run until iterations are done: all of the observations for streaming
func (b *boundedCase) run() {
	var c = b.c
	if v := b.algo.Status().Value; v == core.Created || v == core.Finished {
		if err := b.algo.Init(); err != nil {
			c.Failf("Init: %v", err)
		}
		b.target.Store(0)
		if v == core.Finished {
			b.iters.Store(0)
		}
	}
	if b.kind == "streaming" {
		b.target.Store(int64(b.pushed - 1))
	} else {
		b.target.Store(int64(b.algo.RuntimeFigures()[core.Iterations]) + int64(c.between(2, 12)))
	}
	if err := b.algo.Play(); err != nil {
		c.Failf("Play: %v", err)
	}
	for i := 0; b.algo.Status().Value == core.Running; i++ {
		if i > 1000 {
			c.Failf("the run does not end")
		}
		time.Sleep(time.Millisecond)
	}
	synctest.Wait()
}

func (b *boundedCase) verify(step string) {
	synctest.Wait()
	collect()
	var cents = len(b.algo.Centroids())
	var maxObs, maxRes int
	switch b.kind {
	case "kmeans":
		maxObs, maxRes = b.frame+b.k, 2*b.k
	case "mcmc":
		maxObs = b.frame + 2*b.maxK
		maxRes = b.maxK*(b.maxK+1)/2 + 2*b.maxK // accepted centres of each size
	case "streaming":
		maxObs, maxRes = cents, cents
	}
	var obs, res = b.obs.alive(), b.results.alive()
	for i := 0; (obs > maxObs || res > maxRes+maxObs) && i < 5; i++ { // a preempted goroutine is scanned conservatively
		collect()
		obs, res = b.obs.alive(), b.results.alive()
	}
	b.c.Check(obs <= maxObs, "%s: %d observations are retained, at most %d expected (frame %d, %d centroids)", step, obs, maxObs, b.frame, cents)
	b.c.Check(res <= maxRes+maxObs, "%s: %d vectors of previous results are retained, at most %d expected (%d centroids)", step, res, maxRes+maxObs, cents)
	b.c.Count("verifications of retained memory", 1)
	b.c.Max("observations retained", int64(obs))
}

func memoryCase(c *Case) {
	c.Bubble(func() {
		var b = &boundedCase{c: c, kind: []string{"kmeans", "mcmc", "streaming"}[c.intn(3)], dim: c.between(4, 6)}
		switch c.intn(4) {
		case 0, 1:
			b.space = euclid.NewSpace()
		case 2:
			b.space = cosinus.NewSpace()
		case 3:
			b.space = dtw.NewSpace(dtw.Conf{InnerSpace: euclid.NewSpace()})
			b.series = true
		}
		b.k = c.between(1, 3)
		b.maxK = b.k + c.intn(3)
		b.frame = c.between(b.k, b.k+20)
		b.buffer = c.between(40, 80)
		b.build()
		var total = 0
		var log []string
		for round := c.between(3, 8); round > 0; round-- {
			var n = c.intn(50)
			if b.kind == "streaming" {
				n = min(n, b.buffer-2)
				if round < 8 && b.algo.Status().Value == core.Created {
					n = 0
				}
			}
			total += n
			b.push(n)
			b.run()
			b.verify(fmt.Sprintf("after %d observations", total))
			log = append(log, fmt.Sprint(n))
			switch c.intn(5) {
			case 0:
				if b.kind != "streaming" {
					c.Check(b.algo.Stop() == nil, "Stop refused")
					log = append(log, "stop")
				}
			case 1: // copies are independent: nothing is retained through them
				if b.kind != "streaming" {
					_, _ = b.algo.Copy(b.algo.Conf(), b.algo.Space())
					log = append(log, "copy")
				}
			}
		}
		c.Count("observations pushed", total)
		if b.algo.Status().Alive() {
			_ = b.algo.Stop()
		}
		c.Distinct(b.kind, b.frame, b.k, strings.Join(log, " "))
		c.Sample(fmt.Sprintf("%s frame %d k %d: %s", b.kind, b.frame, b.k, strings.Join(log, " ")))
		time.Sleep(2 * time.Hour)
	})
}

var bubbleID = regexp.MustCompile(`synctest bubble \d+\]`)

// ownGoroutines of this bubble executing code of the library without being called by the harness
func ownGoroutines() (n int, text string) {
	var buf = make([]byte, 500)
	var id = bubbleID.FindString(string(buf[:runtime.Stack(buf, false)]))
	for _, g := range libGoroutines() {
		if head, _, _ := strings.Cut(g.text, "\n"); id != "" && strings.Contains(head, id) {
			n++
			text = g.text
		}
	}
	return
}

func goroutinesCase(c *Case) {
	c.Bubble(func() {
		var fail atomic.Pointer[failure]
		var gate = &Gate{}
		var p = &Probe{c: c}
		p.OnIter = func(int, int) error {
			time.Sleep(time.Millisecond)
			if f := fail.Swap(nil); f != nil {
				return f.raise()
			}
			return nil
		}
		var ctrl = core.CtrlConf{Finishing: gate, Timeout: time.Duration(c.between(1, 3)) * time.Hour, DataPerIter: c.intn(3)}
		if c.flip() {
			ctrl.Timeout = 0
		}
		ctrl.StatusNotifier = func(core.OnlineClust, core.OCStatus) { time.Sleep(time.Millisecond) }
		var algo = core.NewAlgo(&ctrl, p, TagSpace{})
		var log strings.Builder
		var runs = c.between(10, 40)
		for i := 0; i < runs; i++ {
			gate.open.Store(false)
			if algo.Status().Value != core.Running {
				c.Check(algo.Play() == nil, "Play refused")
			}
			_ = algo.Push(i)
			time.Sleep(time.Duration(c.intn(4)) * time.Millisecond)
			var how = c.intn(5)
			fmt.Fprint(&log, how)
			switch how {
			case 0:
				c.Check(algo.Stop() == nil, "Stop refused")
			case 1:
				gate.open.Store(true)
			case 2:
				fail.Store(&failure{fmt.Errorf("injected"), c.flip()})
			case 3:
				c.Check(algo.Wait(nil, time.Duration(c.between(1, 300))*time.Millisecond) == core.ErrTimeout, "Wait does not time out")
			case 4:
				c.Check(algo.Pause() == nil, "Pause refused")
				time.Sleep(time.Millisecond)
				c.Check(algo.Play() == nil, "Play refused")
			}
			time.Sleep(10 * time.Millisecond)
			synctest.Wait()
			if i%10 == 9 || i == runs-1 {
				time.Sleep(time.Second)
				synctest.Wait()
				var n, text = ownGoroutines()
				var max = 2
				if algo.Status().Value == core.Ready || algo.Status().Value == core.Finished {
					max = 1
				}
				if n > max {
					_ = algo.Stop()
					c.Errorf("after %d runs %d goroutines remain, status %s, for instance\n%s", i+1, n, sstr(algo.Status()), text)
					time.Sleep(10 * time.Hour)
					panic(abort{})
				}
				c.Count("verifications of goroutines", 1)
				c.Max("goroutines", int64(n))
			}
		}
		if algo.Status().Alive() {
			_ = algo.Stop()
		}
		c.Count("runs", runs)
		c.Distinct("goroutines", log.String(), ctrl.Timeout)
		time.Sleep(10 * time.Hour)
	})
}

//go:noinline
func (c *Case) abandon() (weak.Pointer[core.Algo], string) {
	var gate = &Gate{}
	var ctrl = core.CtrlConf{Finishing: gate}
	if c.pick(.7) {
		ctrl.Timeout = 5 * time.Hour
	}
	ctrl.StatusNotifier = func(core.OnlineClust, core.OCStatus) {}
	var algo *core.Algo
	var kind = c.intn(3)
	switch kind {
	case 0:
		algo = kmeans.NewAlgo(kmeans.Conf{CtrlConf: ctrl, K: 2, RGen: c.gen()}, euclid.NewSpace(), c.points(10, 2), kmeans.PPInitializer)
	case 1:
		algo = mcmc.NewAlgo(mcmc.Conf{CtrlConf: ctrl, InitK: 2, RGen: c.gen()}, euclid.NewSpace(), c.points(10, 2), kmeans.PPInitializer, mcmc.NewDirac())
	default:
		algo = streaming.NewAlgo(streaming.Conf{CtrlConf: ctrl, RGen: c.gen()}, euclid.NewSpace(), c.points(10, 2))
	}
	var how = c.intn(5)
	if how > 0 {
		_ = algo.Init()
	}
	if how > 1 {
		for n := c.between(1, 3); n > 0; n-- {
			gate.open.Store(false)
			c.Check(algo.Play() == nil, "Play refused")
			spin(c.intn(50))
			if how == 2 || n > 1 || how == 4 {
				gate.open.Store(true)
				for algo.Status().Value == core.Running {
					time.Sleep(time.Millisecond)
				}
			}
		}
		if how != 2 {
			c.Check(algo.Stop() == nil, "Stop refused")
		}
	}
	var s = algo.Status()
	synctest.Wait()
	c.Seen("statuses of abandoned algorithms", kind, s.Value, ctrl.Timeout > 0)
	return weak.Make(algo), fmt.Sprintf("kind %d status %s timeout %v", kind, sstr(s), ctrl.Timeout)
}

func releaseCase(c *Case) {
	c.Bubble(func() {
		var w, text = c.abandon()
		synctest.Wait()
		collect()
		var alive = w.Value() != nil
		for i := 0; alive && i < 5; i++ { // a preempted goroutine is scanned conservatively
			collect()
			alive = w.Value() != nil
		}
		c.Count("abandoned algorithms", 1)
		c.Distinct("release", text, c.Index)
		if alive {
			c.Errorf("an algorithm that does not run and is no longer referenced is retained (%s)", text)
		}
		time.Sleep(10 * time.Hour)
	})
}

// growthCase repeats the same script of runs many times: the heap must not grow with the repetitions
func growthCase(c *Case) {
	c.limit.Store(500)
	c.Bubble(func() {
		var gate = &Gate{}
		var target atomic.Int64
		var fail atomic.Pointer[failure]
		var kind = []string{"probe", "probe", "kmeans", "mcmc", "streaming"}[c.intn(5)]
		var ctrl core.CtrlConf
		ctrl.Finishing = FuncFinishing(func(m core.OCModel) bool {
			return gate.open.Load() || target.Load() > 0 && int64(m.RuntimeFigures()[core.Iterations]) >= target.Load()
		})
		if c.flip() {
			ctrl.Timeout = time.Duration(c.between(1, 60)) * time.Minute
		}
		if c.flip() {
			ctrl.StatusNotifier = func(core.OnlineClust, core.OCStatus) {}
		}
		var algo *core.Algo
		var data = c.points(10, 2)
		var point = func() core.Elemt {
			if kind == "streaming" { // few values: a bounded number of centres
				return []float64{float64(c.intn(3)), float64(c.intn(2))}
			}
			return []float64{c.norm(), c.norm()}
		}
		switch kind {
		case "kmeans":
			algo = kmeans.NewAlgo(kmeans.Conf{CtrlConf: ctrl, K: 2, FrameSize: c.between(5, 20), RGen: c.gen()}, euclid.NewSpace(), data, kmeans.PPInitializer)
		case "mcmc":
			algo = mcmc.NewAlgo(mcmc.Conf{CtrlConf: ctrl, InitK: 2, MaxK: 4, FrameSize: c.between(5, 20), Amp: .1, RGen: c.gen()}, euclid.NewSpace(), data, kmeans.PPInitializer,
				mcmc.NewMultivT(mcmc.MultivTConf{Dim: 2, Nu: 3, RGen: c.gen()}))
		case "streaming":
			algo = streaming.NewAlgo(streaming.Conf{CtrlConf: ctrl, BufferSize: 20, RGen: c.gen()}, euclid.NewSpace(), data)
		default:
			var p = &Probe{c: c, Figures: true}
			p.OnIter = func(int, int) error {
				time.Sleep(time.Millisecond)
				if f := fail.Swap(nil); f != nil {
					return f.raise()
				}
				return nil
			}
			algo = core.NewAlgo(&ctrl, p, TagSpace{})
		}
		var script = make([]int, c.between(1, 3))
		for i := range script {
			script[i] = c.intn(8)
			if kind != "probe" {
				script[i] = c.intn(4)
			}
			if kind == "streaming" && script[i] == 2 { // a restart adds a centre
				script[i] = 0
			}
		}
		var must = func(err error, what string) {
			if err != nil {
				c.Failf("%s %v: %s: %v", kind, script, what, err)
			}
		}
		var n = 0 // observations waiting, for streaming
		var step = func(how int) {
			gate.open.Store(false)
			target.Store(0)
			switch algo.Status().Value {
			case core.Created, core.Finished:
				must(algo.Init(), "Init")
				n-- // one of them makes the first centre
			}
			if kind == "streaming" {
				for ; n < 3; n++ {
					must(algo.Push(point()), "Push")
				}
			} else {
				must(algo.Push(point()), "Push")
			}
			if kind != "probe" { // runs of a few iterations
				target.Store(int64(algo.RuntimeFigures()[core.Iterations]) + 2)
				if kind == "streaming" {
					n -= 2
				}
				must(algo.Play(), "Play")
				must(algo.Wait(nil, 0), "Wait")
				_, _, _ = algo.Predict(point())
				_, _ = algo.Centroids(), algo.RuntimeFigures()
				switch how {
				case 1:
					if kind != "streaming" {
						var other, err = algo.Copy(algo.Conf(), algo.Space())
						must(err, "Copy")
						if other.Status().Alive() {
							_ = other.Stop()
						}
					}
				case 2:
					_ = algo.Stop()
				case 3:
					_ = algo.Wait(core.NewIterFinishing(1, 0), time.Hour)
				}
				return
			}
			must(algo.Play(), "Play")
			switch how {
			case 0:
				must(algo.Stop(), "Stop")
			case 1:
				gate.open.Store(true)
				_ = algo.Wait(nil, time.Hour)
			case 2:
				fail.Store(&failure{fmt.Errorf("injected"), false})
				_ = algo.Wait(nil, 0)
			case 3:
				_ = algo.Wait(nil, 5*time.Millisecond)
				must(algo.Stop(), "Stop")
			case 4:
				must(algo.Pause(), "Pause")
				must(algo.Play(), "Play")
				_, _ = algo.Centroids(), algo.RuntimeFigures()
				must(algo.Stop(), "Stop")
			case 5:
				must(algo.Pause(), "Pause")
				must(algo.Stop(), "Stop")
			case 6:
				_, _, _ = algo.Predict(1)
				target.Store(int64(algo.RuntimeFigures()[core.Iterations]) + 2)
				_ = algo.Wait(core.NewStatusFinishing(true, core.Finished), time.Second)
				_ = algo.Stop()
			case 7:
				var other, err = algo.Copy(algo.Conf(), algo.Space())
				must(err, "Copy")
				must(other.Play(), "Play of the copy")
				_ = other.Stop()
				must(algo.Stop(), "Stop")
			}
		}
		var reps, batches = 1500, 4
		var objects, bytes []int64
		var objs, size, total int64
		var grows bool
		for b := 0; b < batches; b++ {
			for i := 0; i < reps; i++ {
				for _, how := range script {
					step(how)
				}
			}
			c.beats.Add(1)
			if algo.Status().Alive() && kind == "probe" {
				_ = algo.Stop()
			}
			synctest.Wait()
			time.Sleep(time.Second)
			synctest.Wait()
			collect()
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			objects, bytes = append(objects, int64(m.HeapObjects)), append(bytes, int64(m.HeapAlloc))
			if b == batches-1 { // growth between the last batches
				var from = batches/2 - 1
				objs, size, total = objects[b]-objects[from], bytes[b]-bytes[from], int64(reps*(b-from))
				grows = objs >= total/2 || size >= 5*total
				if grows && batches < 16 { // not the first uses of something
					batches *= 2
				}
			}
		}
		if algo.Status().Alive() {
			_ = algo.Stop()
		}
		c.Check(!grows, "%s %v: the heap grows by %d objects and %d bytes in %d repetitions (%v objects, %v bytes)", kind, script, objs, size, total, objects, bytes)
		c.Max("heap growth in objects", objs)
		c.Max("heap growth in bytes", size)
		c.Count("repetitions of a script", reps*batches)
		c.Seen("scripts repeated", kind, script)
		c.Distinct("growth", kind, fmt.Sprint(script))
		time.Sleep(2 * time.Hour)
	})
}

func TestC28(t *testing.T) {
	var h = newH(t, "C28", "kmeans and mcmc with a frame, and streaming, fed with observations over several runs, restarts and copies: weak pointers to all observations and published centroids tell, "+
		"after a garbage collection at rest, how many are retained; goroutines of the library after many runs ended in all manners; algorithms that are abandoned. "+
		"Non trivial: every case; distinct by case",
		"pushes not yet applied by an iteration are retained", "the precise garbage collector of Go decides what is reachable")
	h.Cases("memory", h.N(1500, 20000), memoryCase)
	h.Cases("goroutines", h.N(400, 5000), goroutinesCase)
	h.Cases("release", h.N(1000, 10000), releaseCase)
	h.CasesW("growth", h.N(30, 300), 1, growthCase) // alone: the whole heap is observed
	h.Require("verifications of retained memory", 3000)
	h.Require("verifications of goroutines", 300)
	h.Require("statuses of abandoned algorithms", 12)
	h.Require("scripts repeated", 15)
}
