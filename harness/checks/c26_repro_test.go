package checks

import (
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sync"
	"syscall"
	"testing"
	"time"
	"unsafe"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	"github.com/wearelumenai/distclus/streaming"
)

// noisySpace disturbs the scheduling
type noisySpace struct {
	core.Space
	rg    *safeRand
	every int
}

func (s noisySpace) noise() {
	if s.every > 0 && s.rg.next(s.every) == 0 {
		if s.rg.next(4) == 0 {
			runtime.Gosched()
		}
		spin(s.rg.next(3))
	}
}

func (s noisySpace) Dist(a, b core.Elemt) float64 {
	s.noise()
	return s.Space.Dist(a, b)
}

func (s noisySpace) Combine(a core.Elemt, wa int, b core.Elemt, wb int) core.Elemt {
	s.noise()
	return s.Space.Combine(a, wa, b, wb)
}

// scenario runs the scenario of an identity and returns what was published after each operation.
// Everything is drawn from the identity, apart from the disturbance.
func (c *Case) scenario(id int, rg *safeRand, every int) (steps []string, digests []uint64, iters int) {
	var a, b = caseSeed(c.h.seed, "scenario", id)
	var sc = &Case{h: c.h, Group: c.Group, Index: id, Rng: rand.New(rand.NewPCG(a, b)), t: c.t}
	var spec = sc.algoSpec([]string{"kmeans", "mcmc", "streaming"}[sc.intn(3)])
	spec.ctrl = core.CtrlConf{}
	if sc.pick(.3) {
		spec.ctrl.DataPerIter = sc.between(1, 4)
	}
	// a pause adds an evaluation of the condition without an iteration: the budget of a run is a number of
	// iterations, except for streaming, whose iterations may have nothing to do and which is never paused here
	var budget, evals, first = 0, 0, -1
	spec.ctrl.Finishing = FuncFinishing(func(m core.OCModel) bool {
		iters++
		if spec.kind == "streaming" {
			evals++
			return evals > budget
		}
		var n = int(m.RuntimeFigures()[core.Iterations])
		if first < 0 {
			first = n
		}
		return n-first >= budget
	})
	var allow = func(n int) {
		evals, first, budget = 0, -1, n
	}
	var elem = sc.realElem(spec.space, 2)
	var data []core.Elemt
	for i := sc.between(6, 60); i > 0; i-- {
		data = append(data, elem())
		if sc.pick(.1) {
			data = append(data, data[0])
		}
	}
	if spec.par {
		spec.cpus = sc.between(2, 9)
	}
	var space = noisySpace{spec.newSpace(), rg, every}
	var init = kmeans.CreateInitializer(spec.init)
	var algo *core.Algo
	var gen = genOf(sc.Rng.Uint64())
	var dname = ""
	switch conf := spec.conf().(type) {
	case *kmeans.Conf:
		algo = kmeans.NewAlgo(*conf, space, data, init)
	case *mcmc.Conf:
		var d mcmc.Distrib = mcmc.NewMultivT(mcmc.MultivTConf{Dim: 2, Nu: 3, RGen: gen})
		dname = "multivt"
		if sc.flip() {
			dname = "late"
			d = mcmc.NewLateDistrib(func(core.Elemt) mcmc.Distrib {
				return mcmc.NewMultivT(mcmc.MultivTConf{Dim: 2, Nu: 3, RGen: gen})
			})
		}
		algo = mcmc.NewAlgo(*conf, space, data, init, d)
	case *streaming.Conf:
		algo = streaming.NewAlgo(*conf, space, data)
	}
	var name = fmt.Sprintf("%s %s %s%s, frame %d, par %v, %d CPU, %d observations", spec.kind, spec.space, spec.init, dname, spec.frame, spec.par, spec.cpus, len(data))
	var settle = func() {
		for algo.Status().Value == core.Running {
			time.Sleep(20 * time.Microsecond)
		}
	}
	var x = elem()
	var sessions = 0
	for i := sc.between(3, 10); i > 0; i-- {
		var op string
		var err error
		switch k := sc.intn(8); {
		case k < 3 && (spec.kind != "streaming" || sessions == 0 || algo.Status().Alive()):
			var n = sc.between(1, 8)
			op = fmt.Sprintf("run of %d iterations", n)
			allow(n)
			if !algo.Status().Alive() {
				sessions++
			}
			err = algo.Play()
			if sc.pick(.3) && spec.kind != "streaming" { // paused at any moment
				if algo.Pause() == nil {
					spin(rg.next(5))
					_ = algo.Play()
				}
			}
			settle()
		case k < 6:
			var n = sc.between(1, 5)
			op = fmt.Sprintf("%d pushes", n)
			for ; n > 0; n-- {
				allow(2)
				err = algo.Push(elem())
				settle()
			}
		case k < 7 && spec.kind != "streaming":
			op, err = "stop", algo.Stop()
		case spec.kind != "streaming":
			op, err = "init", algo.Init()
		}
		var p, l, d = algo.Predict(x)
		var f = fingerprint([]core.Elemt(algo.Centroids()), false)
		f = f*31 + fingerprint(map[string]float64(withoutTime(algo.RuntimeFigures())), false)
		f = f*31 + uint64(l) + fingerprint(d, false)
		_ = p
		steps = append(steps, fmt.Sprintf("%s, %s: %v, %s, %v, centroids %v", name, op, err, sstr(algo.Status()), withoutTime(algo.RuntimeFigures()), algo.Centroids()))
		digests = append(digests, f*31+fingerprint(fmt.Sprint(err, sstr(algo.Status())), false))
	}
	_ = algo.Stop()
	return
}

// childDigests executes scenarios in a process bound to a number of CPUs
func (c *Case) childDigests(cpus, n int) (digests map[int][]uint64) {
	var dir, err = os.MkdirTemp("", "c26")
	if err != nil {
		c.Count("processes not started", 1)
		return
	}
	defer os.RemoveAll(dir)
	var out = filepath.Join(dir, "digests.json")
	runtime.LockOSThread() // not unlocked: the thread ends with its affinity
	var mask [128]uint64
	if _, _, e := syscall.RawSyscall(syscall.SYS_SCHED_GETAFFINITY, 0, unsafe.Sizeof(mask), uintptr(unsafe.Pointer(&mask))); e != 0 {
		c.Count("processes not started", 1)
		return
	}
	for i, left := 0, cpus; i < len(mask)*64; i++ { // keep the first ones
		if mask[i/64]&(1<<(i%64)) != 0 {
			if left--; left < 0 {
				mask[i/64] &^= 1 << (i % 64)
			}
		}
	}
	if _, _, e := syscall.RawSyscall(syscall.SYS_SCHED_SETAFFINITY, 0, unsafe.Sizeof(mask), uintptr(unsafe.Pointer(&mask))); e != 0 {
		c.Count("processes not started", 1)
		return
	}
	var cmd = exec.Command(os.Args[0], "-test.run=^TestC26Child$", "-test.timeout=600s")
	cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_C26=%d %d %d", c.h.seed, n, cpus), "VERIF_C26_OUT="+out)
	if msg, e := cmd.CombinedOutput(); e != nil {
		c.Errorf("scenarios in a process bound to %d CPUs: %v: %s", cpus, e, msg)
		return
	}
	var b, e = os.ReadFile(out)
	if e == nil {
		e = json.Unmarshal(b, &digests)
	}
	if e != nil {
		c.Errorf("scenarios in a process bound to %d CPUs: %v", cpus, e)
		return nil
	}
	return
}

// TestC26Child is the process of childDigests
func TestC26Child(t *testing.T) {
	var seed int64
	var n, cpus int
	if k, _ := fmt.Sscan(os.Getenv("VERIF_C26"), &seed, &n, &cpus); k < 3 {
		t.Skip("no parent")
	}
	if runtime.NumCPU() != cpus {
		t.Fatalf("bound to %d CPUs", runtime.NumCPU())
	}
	var h = &H{id: "C26", seed: seed}
	var digests = map[int][]uint64{}
	for i := 0; i < n; i++ {
		var a, b = caseSeed(seed, "child", i)
		var c = &Case{h: h, Group: "child", Index: i, Rng: rand.New(rand.NewPCG(a, b)), t: t}
		_, digests[i], _ = c.scenario(i, &safeRand{}, 0)
	}
	var b, err = json.Marshal(digests)
	if err == nil {
		err = os.WriteFile(os.Getenv("VERIF_C26_OUT"), b, 0o600)
	}
	if err != nil {
		t.Fatal(err)
	}
}

func TestC26(t *testing.T) {
	var h = newH(t, "C26", "random scenarios (kmeans, mcmc with seeded multivariate T, streaming; sequential and parallel; pushes, automatic starts, runs paused at any moment, stops, "+
		"initialisations) executed again with 1, 2, 3 and 8 processors, in processes bound to fewer CPUs, with disturbed scheduling and at another (virtual) date; a digest of centroids, figures, prediction and results "+
		"after each operation must be identical, bit for bit. Non trivial: at least 3 evaluations of the end condition; distinct by scenario",
		"the scenarios are sequential apart from pauses", "NumCPU is given in parallel mode")
	var n = h.N(1200, 15000)
	type result struct {
		steps   []string
		digests []uint64
	}
	var base = map[int]result{}
	var mu sync.Mutex
	var old = runtime.GOMAXPROCS(0)
	var compare = func(c *Case, what string, steps []string, digests []uint64) {
		mu.Lock()
		var b, ok = base[c.Index]
		mu.Unlock()
		if !ok { // a single execution, or the first one failed
			var s, d, _ = c.scenario(c.Index, &safeRand{}, 0)
			b = result{s, d}
		}
		for i := range b.digests {
			c.Check(i < len(digests) && b.digests[i] == digests[i], "scenario %d, step %d, %s: %s\nfirst execution: %s", c.Index, i, what, steps[i], b.steps[i])
		}
		c.Eval(len(digests))
		c.Count("states compared", len(digests))
	}
	runtime.GOMAXPROCS(1)
	h.Cases("first", n, func(c *Case) {
		var s, d, iters = c.scenario(c.Index, &safeRand{}, 0)
		mu.Lock()
		base[c.Index] = result{s, d}
		mu.Unlock()
		if iters >= 3 {
			c.Distinct(s[0], c.Index)
		}
		c.Count("evaluations of the end condition", iters)
		c.Sample(s[len(s)-1][:min(200, len(s[len(s)-1]))])
	})
	for _, p := range []int{1, 2, 3, 8} {
		runtime.GOMAXPROCS(p)
		for _, every := range []int{0, 1, 20} {
			if p == 3 && every == 1 {
				continue
			}
			h.Cases(fmt.Sprintf("again-%d-%d", p, every), n, func(c *Case) {
				var rg = &safeRand{}
				rg.state.Store(c.Rng.Uint64())
				var s, d, _ = c.scenario(c.Index, rg, every)
				compare(c, fmt.Sprintf("%d processors, disturbance 1/%d", p, every), s, d)
			})
		}
	}
	runtime.GOMAXPROCS(old)
	h.Cases("machine", 1, func(c *Case) {
		for _, cpus := range []int{1, 2, 5} {
			if cpus >= runtime.NumCPU() {
				continue
			}
			var m = min(n, 3000)
			var done = make(chan map[int][]uint64)
			go func() { // with a thread of its own
				defer close(done)
				done <- c.childDigests(cpus, m)
			}()
			var digests = <-done
			if digests == nil {
				return
			}
			for i := 0; i < m; i++ {
				var b, ok = base[i]
				if !ok {
					var s, d, _ = c.scenario(i, &safeRand{}, 0)
					b = result{s, d}
				}
				for j := range b.digests {
					c.Check(j < len(digests[i]) && b.digests[j] == digests[i][j], "scenario %d, step %d, process bound to %d CPUs: not the same as %s", i, j, cpus, b.steps[j])
				}
				c.Eval(len(b.digests))
				c.Count("states compared", len(b.digests))
				c.Count("states of processes bound to fewer CPUs", len(b.digests))
			}
		}
	})
	h.CasesW("many", h.N(15, 200), 8, manyAgain)
	h.Cases("date", n, func(c *Case) {
		var s []string
		var d []uint64
		c.Bubble(func() {
			time.Sleep(time.Duration(c.intn(100000)) * time.Second)
			s, d, _ = c.scenario(c.Index, &safeRand{}, 0)
		})
		compare(c, "another date", s, d)
	})
	h.Require("states compared", 50000)
}
