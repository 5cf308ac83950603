package checks

import (
	"fmt"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	"github.com/wearelumenai/distclus/streaming"
	xrand "golang.org/x/exp/rand"
)

// Bag is an observation, or a combination of observations, that tells which ones
type Bag struct{ ids []int }

// BagSpace combines bags. All are at distance 1.
type BagSpace struct {
	c      *Case
	onDist func(a, b Bag)
	onMake func(b Bag)
}

func (s BagSpace) made(b Bag) Bag {
	if s.onMake != nil {
		s.onMake(b)
	}
	return b
}

func (s BagSpace) Dist(a, b core.Elemt) float64 {
	if s.onDist != nil {
		s.onDist(a.(Bag), b.(Bag))
	}
	return 1
}

func (s BagSpace) Combine(a core.Elemt, wa int, b core.Elemt, wb int) core.Elemt {
	var x, y = a.(Bag), b.(Bag)
	if wa != len(x.ids) || wb != len(y.ids) {
		s.c.Errorf("combination of %d observations with weight %d and %d with weight %d", len(x.ids), wa, len(y.ids), wb)
	}
	var ids = make([]int, 0, len(x.ids)+len(y.ids))
	return s.made(Bag{append(append(ids, x.ids...), y.ids...)})
}

func (s BagSpace) Copy(a core.Elemt) core.Elemt { return s.made(Bag{append([]int{}, a.(Bag).ids...)}) }
func (s BagSpace) Dim([]core.Elemt) int         { return 1 }

const pusherStep = 1000000

type pushRec struct {
	id       int
	inv, ret int64
	err      error
}

type window struct {
	must int64 // contains everything accepted before this event
	end  int64 // contains nothing pushed after this event
	ids  []int
	init bool
}

// dataLog records pushes and what the algorithm works on
type dataLog struct {
	c      *Case
	clock  atomic.Int64
	mu     sync.Mutex
	pushes map[int][]pushRec // by pusher, 0: initial data
	wins   []window
	frame  int
}

func newDataLog(c *Case, initial, frame int) *dataLog {
	var l = &dataLog{c: c, pushes: map[int][]pushRec{}, frame: frame}
	for i := 0; i < initial; i++ {
		l.pushes[0] = append(l.pushes[0], pushRec{id: i})
	}
	return l
}

func (l *dataLog) initial() (data []core.Elemt) {
	for _, p := range l.pushes[0] {
		data = append(data, Bag{[]int{p.id}})
	}
	return
}

func (l *dataLog) push(pusher int, push func(core.Elemt) error) error {
	l.mu.Lock()
	var id = pusher*pusherStep + len(l.pushes[pusher])
	l.pushes[pusher] = append(l.pushes[pusher], pushRec{id: id, inv: l.clock.Add(1), ret: 1 << 60})
	l.mu.Unlock()
	var err = push(Bag{[]int{id}})
	l.mu.Lock()
	var r = &l.pushes[pusher][id%pusherStep]
	r.ret, r.err = l.clock.Add(1), err
	l.mu.Unlock()
	return err
}

// check the windows against the pushes
func (l *dataLog) check() {
	var all = map[int]*pushRec{}
	var accepted = map[int][]*pushRec{} // accepted ones by pusher
	var rank = map[int]int{}            // rank among the accepted ones of the pusher
	for p, list := range l.pushes {
		for i := range list {
			var r = &list[i]
			all[r.id] = r
			if r.err == nil {
				rank[r.id] = len(accepted[p])
				accepted[p] = append(accepted[p], r)
			}
		}
	}
	var pushers []int
	for p := range accepted {
		pushers = append(pushers, p)
	}
	sort.Ints(pushers)
	var seenEnd = map[int]int{} // by pusher, number of accepted observations known to be stored
	for wi, w := range l.wins {
		var lo, hi = map[int]int{}, map[int]int{}
		var count = map[int]int{}
		for _, id := range w.ids {
			var r, ok = all[id]
			if !ok || r.err != nil {
				l.c.Failf("window %d contains observation %d that was not accepted", wi, id)
			}
			if r.inv > w.end {
				l.c.Failf("window %d contains observation %d that was pushed afterwards", wi, id)
			}
			var p = id / pusherStep
			var k = rank[id]
			if count[p] == 0 || k < lo[p] {
				lo[p] = k
			}
			if count[p] == 0 || k+1 > hi[p] {
				hi[p] = k + 1
			}
			count[p]++
		}
		var dup = map[int]bool{}
		for _, id := range w.ids {
			if dup[id] {
				l.c.Failf("window %d contains observation %d twice: %v", wi, id, w.ids)
			}
			dup[id] = true
		}
		var stored = 0
		for _, p := range pushers {
			if count[p] > 0 && hi[p]-lo[p] != count[p] {
				l.c.Failf("window %d does not contain consecutive observations of pusher %d: %v", wi, p, w.ids)
			}
			if l.frame <= 0 && count[p] > 0 && lo[p] != 0 {
				l.c.Failf("window %d lost the observations before %d of pusher %d: %v", wi, lo[p], p, w.ids)
			}
			// must contain
			var must = seenEnd[p]
			for must < len(accepted[p]) && accepted[p][must].ret < w.must {
				must++
			}
			if l.frame <= 0 && hi[p] < must {
				l.c.Failf("window %d %v lacks observation %d, pushed at %d, returned at %d (window must contain what was pushed before %d)", wi, w.ids,
					accepted[p][must-1].id, accepted[p][must-1].inv, accepted[p][must-1].ret, w.must)
			}
			if count[p] > 0 && hi[p] < must {
				l.c.Failf("window %d %v lacks the most recent observation %d of pusher %d", wi, w.ids, accepted[p][must-1].id, p)
			}
			if hi[p] > must {
				must = hi[p]
			}
			seenEnd[p] = must
			stored += must
		}
		if l.frame > 0 {
			// as many as possible
			if want := min(l.frame, stored); len(w.ids) < want || len(w.ids) > l.frame {
				l.c.Failf("window %d has %d observations, at least %d are stored and the frame is %d: %v", wi, len(w.ids), stored, l.frame, w.ids)
			}
			// the most recent ones: an observation that is stored but no more in the window is not more recent than one that is
			var oldest int64 = 1 << 62 // earliest return in the window
			var old int
			for _, id := range w.ids {
				if all[id].ret < oldest {
					oldest, old = all[id].ret, id
				}
			}
			for _, p := range pushers {
				for k := 0; k < seenEnd[p]; k++ {
					var r = accepted[p][k]
					if !dup[r.id] && r.inv > oldest {
						l.c.Failf("window %d contains observation %d but not %d that is more recent: %v", wi, old, r.id, w.ids)
					}
				}
			}
		} else if w.init { // order
			var next = map[int]int{}
			for _, id := range w.ids {
				var p = id / pusherStep
				if rank[id] != next[p] {
					l.c.Failf("initialisation with the observations of pusher %d in the wrong order: %v", p, w.ids)
				}
				next[p]++
			}
		}
	}
}

// batchWorld: kmeans or mcmc with one cluster, whose centroid tells the observations of the iteration
type batchWorld struct {
	c        *Case
	log      *dataLog
	algo     *core.Algo
	armed    atomic.Int64 // event of the last evaluation of the end condition, 0 if the iteration has started
	starts   []int64      // starts of the iterations, at the latest
	done     int          // windows recorded
	initInv  atomic.Int64
	gate     chan bool // if set an iteration waits for it
	budget   atomic.Int64
	kind     string
	inflight atomic.Bool
	rejects  bool         // all proposals are rejected: the observations are those of the largest combination
	largest  atomic.Value // Bag
	making   sync.Mutex
}

// refusing is a distribution whose alterations are always rejected
type refusing struct {
	mcmc.Dirac
	n *atomic.Int64
}

func (d refusing) Pdf(x, mu core.Elemt, time int) float64 { return 1e6 * float64(d.n.Add(1)) }

func newBatchWorld(c *Case, initial, frame int, gated bool) *batchWorld {
	var w = &batchWorld{c: c, log: newDataLog(c, initial, frame), kind: []string{"kmeans", "mcmc"}[c.intn(2)], rejects: c.flip()}
	w.rejects = w.rejects && w.kind == "mcmc"
	w.largest.Store(Bag{})
	if gated {
		w.gate = make(chan bool)
	}
	w.budget.Store(1 << 40)
	var ctrl = core.CtrlConf{}
	ctrl.Finishing = FuncFinishing(func(m core.OCModel) bool {
		w.record(m)
		w.largest.Store(Bag{})
		w.armed.Store(w.log.clock.Add(1))
		return w.budget.Add(-1) < 0
	})
	var space = BagSpace{c: c, onDist: func(a, b Bag) {
		if h := w.armed.Swap(0); h > 0 {
			w.log.mu.Lock()
			w.starts = append(w.starts, h)
			w.log.mu.Unlock()
			w.inflight.Store(true)
			if w.gate != nil {
				<-w.gate
			}
		}
	}, onMake: func(b Bag) {
		if w.rejects {
			w.making.Lock()
			if len(b.ids) > len(w.largest.Load().(Bag).ids) {
				w.largest.Store(b)
			}
			w.making.Unlock()
		}
	}}
	var par = c.flip()
	var cpu = c.between(1, 4)
	var init = func(k int, e []core.Elemt, s core.Space, r *xrand.Rand) (core.Clust, error) {
		w.record(w.algo) // the last iteration of the previous session
		w.armed.Store(0)
		var ids []int
		for _, x := range e {
			ids = append(ids, x.(Bag).ids...)
		}
		w.log.mu.Lock()
		var now = w.log.clock.Add(1)
		w.log.wins = append(w.log.wins, window{must: w.initInv.Load(), end: now, ids: ids, init: true})
		w.log.mu.Unlock()
		return kmeans.GivenInitializer(k, e, s, r)
	}
	if w.kind == "kmeans" {
		w.algo = kmeans.NewAlgo(kmeans.Conf{CtrlConf: ctrl, K: 1, Par: par, NumCPU: cpu, FrameSize: frame, RGen: c.gen()}, space, w.log.initial(), init)
	} else {
		w.algo = mcmc.NewAlgo(mcmc.Conf{CtrlConf: ctrl, InitK: 1, MaxK: 1, Par: par, NumCPU: cpu, FrameSize: frame, RGen: c.gen()}, space, w.log.initial(), init, w.distrib())
	}
	return w
}

func (w *batchWorld) distrib() mcmc.Distrib {
	if w.rejects {
		w.kind = "mcmc, rejecting"
		return refusing{n: &atomic.Int64{}}
	}
	return mcmc.NewDirac()
}

// record the window of the iteration that has just ended, if any
func (w *batchWorld) record(m core.OCModel) {
	w.log.mu.Lock()
	defer w.log.mu.Unlock()
	if len(w.starts) == w.done {
		return
	}
	w.inflight.Store(false)
	var k = len(w.starts) - 1
	w.done = len(w.starts)
	var must int64
	if k > 0 {
		must = w.starts[k-1]
	}
	var ids = append([]int{}, m.Centroids()[0].(Bag).ids...)
	if w.rejects {
		ids = w.largest.Load().(Bag).ids
	}
	w.log.wins = append(w.log.wins, window{must: must, end: w.log.clock.Add(1), ids: ids})
}

func (w *batchWorld) initialize(f func() error) error {
	w.initInv.Store(w.log.clock.Add(1))
	return f()
}

func (w *batchWorld) finish(kind string) {
	w.record(w.algo)
	w.log.check()
	var n, refused = 0, 0
	for p, l := range w.log.pushes {
		if p > 0 {
			for _, r := range l {
				n++
				if r.err != nil {
					refused++
				}
			}
		}
	}
	w.c.Check(refused == 0, "%d pushes refused", refused)
	w.c.Count("pushes", n)
	w.c.Count("windows", len(w.log.wins))
	if len(w.log.wins) > 2 && n > 0 {
		w.c.Distinct(kind, w.kind, w.c.Index, len(w.log.wins), n)
	}
	w.c.Sample(fmt.Sprintf("%s %s frame %d: %d pushes by %d pushers, %d windows", kind, w.kind, w.log.frame, n, len(w.log.pushes), len(w.log.wins)))
}

func batchConcurrent(c *Case) {
	var frame = 0
	if c.flip() {
		frame = c.between(1, 25)
	}
	var w = newBatchWorld(c, c.between(1, 12), frame, false)
	var rg = &safeRand{}
	rg.state.Store(c.Rng.Uint64())
	var wg sync.WaitGroup
	var pushers = c.between(1, 4)
	var busy atomic.Int32
	busy.Store(int32(pushers))
	for p := 1; p <= pushers; p++ {
		var n = c.between(5, 25)
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer busy.Add(-1)
			c.protect(func() {
				for i := 0; i < n; i++ {
					spin(rg.next(60))
					_ = w.log.push(p, w.algo.Push)
				}
			})
		}()
	}
	for i := 0; i < 30 && (busy.Load() > 0 || i < 6); i++ {
		switch c.intn(6) {
		case 0:
			_ = w.algo.Pause()
		case 1:
			_ = w.algo.Stop()
		case 2:
			_ = w.initialize(w.algo.Init)
		default:
			w.budget.Store(int64(c.between(1, 60)))
			_ = w.initialize(w.algo.Play)
		}
		spin(c.intn(80))
	}
	wg.Wait()
	// everything is used by two more iterations
	if w.algo.Status().Value == core.Finished && c.flip() {
		_ = w.initialize(w.algo.Init)
	}
	w.budget.Store(1 << 40)
	if w.algo.Status().Value != core.Running {
		_ = w.initialize(w.algo.Play)
	}
	var mark = w.log.clock.Load()
	for w.algo.Status().Value == core.Running {
		w.log.mu.Lock()
		var n = len(w.starts)
		var enough = n >= 3 && w.starts[n-3] > mark
		w.log.mu.Unlock()
		if enough {
			break
		}
		spin(1)
		time.Sleep(10 * time.Microsecond)
	}
	_ = w.algo.Stop()
	w.finish("concurrent")
}

// gated: the harness decides when an iteration ends, in virtual time; pushing during an iteration that does not end
func batchGated(c *Case) {
	c.Bubble(func() {
		var frame = 0
		if c.flip() {
			frame = c.between(1, 12)
		}
		var w = newBatchWorld(c, c.between(1, 8), frame, true)
		var step = func() {
			select {
			case w.gate <- true:
			case <-time.After(time.Second):
			}
			synctest.Wait()
		}
		var many = c.pick(.1)
		for i := c.between(10, 40); i > 0; i-- {
			var st = w.algo.Status().Value
			switch op := c.intn(12); {
			case op < 5:
				var n = c.between(1, 4)
				if many && w.inflight.Load() {
					n = c.between(500, 1500)
					c.Count("pushes during one iteration", n)
				}
				for ; n > 0; n-- {
					_ = w.log.push(1, w.algo.Push)
				}
			case op < 9:
				if st == core.Running && w.inflight.Load() {
					step()
				}
			case op == 9 && (st == core.Running || st == core.Idle):
				var over = make(chan bool)
				var pause = st == core.Running && c.flip()
				go func() {
					if pause {
						_ = w.algo.Pause()
					} else {
						_ = w.algo.Stop()
					}
					close(over)
				}()
				for done := false; !done; {
					select {
					case w.gate <- true:
					case <-over:
						done = true
					}
				}
			case op == 10:
				if st == core.Created || st == core.Finished {
					_ = w.initialize(w.algo.Init)
				}
			default:
				if st != core.Running {
					_ = w.initialize(w.algo.Play)
				}
			}
			synctest.Wait()
		}
		if st := w.algo.Status().Value; st != core.Running {
			_ = w.initialize(w.algo.Play)
		}
		synctest.Wait()
		step()
		step()
		step()
		close(w.gate)
		_ = w.algo.Stop()
		synctest.Wait()
		w.finish("gated")
	})
}

// the buffer alone, sequentially against its model
func bufferModel(c *Case) {
	var n, size = c.intn(8), c.between(-1, 10)
	var next int
	var data, staged []int
	var elems []core.Elemt
	for ; next < n; next++ {
		elems = append(elems, next)
		data = append(data, next)
	}
	var b = core.NewDataBuffer(elems, size)
	for i := range elems { // the buffer keeps its own
		elems[i] = -1
	}
	type snap struct{ got, copied []core.Elemt }
	var snaps []snap
	var trace = fmt.Sprintf("n %d size %d", n, size)
	for i := c.between(5, 60); i > 0; i-- {
		switch c.intn(5) {
		case 0, 1:
			c.Check(b.Push(next, true) == nil, "push refused")
			staged = append(staged, next)
			next++
			trace += " s"
		case 2:
			c.Check(b.Push(next, false) == nil, "push refused")
			data = append(append(data, staged...), next)
			staged = nil
			next++
			trace += " p"
		case 3:
			c.Check(b.Apply() == nil, "apply fails")
			data = append(data, staged...)
			staged = nil
			trace += " a"
		}
		var want = data
		if size > 0 && len(want) > size {
			want = want[len(want)-size:]
		}
		if c.flip() {
			var got = b.Data()
			snaps = append(snaps, snap{got, append([]core.Elemt{}, got...)})
			var ids []int
			for _, e := range got {
				ids = append(ids, e.(int))
			}
			if size > 0 { // as a set
				sort.Ints(ids)
			}
			c.Check(fmt.Sprint(ids) == fmt.Sprint(append([]int(nil), want...)), "%s: data %v, expected %v", trace, ids, want)
		}
	}
	for _, s := range snaps {
		c.Check(fmt.Sprint(s.got) == fmt.Sprint(s.copied), "%s: returned data %v became %v", trace, s.copied, s.got)
	}
	c.Distinct("buffer", trace)
	c.Count("buffer states compared", len(snaps))
}

// the buffer alone, concurrently
func bufferConcurrent(c *Case) {
	var size = c.between(-1, 30)
	var l = newDataLog(c, c.intn(6), size)
	var b = core.NewDataBuffer(l.initial(), size)
	var rg = &safeRand{}
	rg.state.Store(c.Rng.Uint64())
	var wg, wr sync.WaitGroup
	var stop atomic.Bool
	for p := 1; p <= 3; p++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.protect(func() {
				for i := 0; i < 30; i++ {
					_ = l.push(p, func(e core.Elemt) error { return b.Push(e, rg.next(2) == 0) })
					spin(rg.next(3))
				}
			})
		}()
	}
	type snap struct{ got, copied []core.Elemt }
	var snaps []snap
	var read = func() { // one reader, hence the order of windows
		var must = l.clock.Add(1)
		_ = b.Apply()
		var got = b.Data()
		snaps = append(snaps, snap{got, append([]core.Elemt{}, got...)})
		var ids []int
		for _, e := range got {
			ids = append(ids, e.(Bag).ids...)
		}
		l.wins = append(l.wins, window{must: must, end: l.clock.Add(1), ids: ids})
	}
	wr.Add(2)
	go func() {
		defer wr.Done()
		c.protect(func() {
			for !stop.Load() {
				read()
				spin(3)
			}
		})
	}()
	go func() {
		defer wr.Done()
		for !stop.Load() {
			_ = b.Apply()
			_ = b.Data()
			spin(2)
		}
	}()
	wg.Wait()
	stop.Store(true)
	wr.Wait()
	read()
	l.check()
	for _, s := range snaps {
		c.Check(fmt.Sprint(s.got) == fmt.Sprint(s.copied), "returned data %v became %v", s.copied, s.got)
	}
	c.Count("buffer states compared", len(snaps))
	if len(snaps) > 3 {
		c.Distinct("buffer concurrent", c.Index, len(snaps))
	}
}

// streaming
type streamWorld struct {
	c      *Case
	log    *dataLog
	algo   *core.Algo
	size   int
	dists  []int64 // events of the processing of observations, at the latest
	order  []int   // observations processed
	before atomic.Int64
}

func newStreamWorld(c *Case, initial, size int, ctrl core.CtrlConf) *streamWorld {
	var w = &streamWorld{c: c, log: newDataLog(c, initial, 0), size: size}
	var space = BagSpace{c: c, onDist: func(a, b Bag) {
		if a.ids[0] == w.algo.Centroids()[0].(Bag).ids[0] { // a is the centre
			a = b
		}
		w.log.mu.Lock()
		defer w.log.mu.Unlock()
		if n := len(w.order); n > 0 && len(a.ids) == 1 && w.order[n-1] == a.ids[0] {
			return // compared again
		}
		w.dists = append(w.dists, w.log.clock.Add(1))
		w.order = append(w.order, a.ids...)
	}}
	w.algo = streaming.NewAlgo(streaming.Conf{CtrlConf: ctrl, BufferSize: size, Mu: 50, RGen: c.gen()}, space, w.log.initial())
	return w
}

// check that processed observations are the accepted ones, in order; all of them if drained
func (w *streamWorld) check(drained bool) {
	w.log.mu.Lock()
	defer w.log.mu.Unlock()
	var cl = w.algo.Centroids()
	if cl == nil {
		return
	}
	w.c.Check(len(cl) == 1, "%d centres", len(cl))
	var ids = cl[0].(Bag).ids
	var its = int(w.algo.RuntimeFigures()[core.Iterations])
	w.c.Check(len(ids) == its+1 && len(w.order) == its, "%d observations processed and %d compared by %d iterations", len(ids), len(w.order), its)
	w.c.Check(fmt.Sprint(ids[1:]) == fmt.Sprint(w.order), "observations merged %v, compared %v", ids[1:], w.order)
	var all = map[int]pushRec{}
	var next = map[int][]int{}
	for p, l := range w.log.pushes {
		for _, r := range l {
			all[r.id] = r
			if r.err == nil {
				next[p] = append(next[p], r.id)
			}
		}
	}
	for i, id := range ids {
		var p = id / pusherStep
		if all[id].err != nil || len(next[p]) == 0 || next[p][0] != id {
			w.c.Failf("observation %d processed, expected the next accepted ones of pusher %d %v: %v", id, p, next[p], ids)
		}
		next[p] = next[p][1:]
		for _, later := range ids[i+1:] {
			if all[later].ret < all[id].inv {
				w.c.Failf("observation %d processed before %d that was pushed before: %v", id, later, ids)
			}
		}
	}
	if drained {
		for p, l := range next {
			w.c.Check(len(l) == 0, "observations %v of pusher %d accepted but not processed: %v", l, p, ids)
		}
	}
	// refusals happen only if the buffer may be full
	var refused, accepted = 0, 0
	for p, l := range w.log.pushes {
		for _, r := range l {
			if r.err == nil {
				accepted++
				continue
			}
			refused++
			var in = 0
			for _, l2 := range w.log.pushes {
				for _, o := range l2 {
					if o.err == nil && o.inv < r.ret {
						in++
					}
				}
			}
			var out = sort.Search(len(w.dists), func(i int) bool { return w.dists[i] >= r.inv })
			if out > 0 {
				out++ // the first centre
			}
			if in-out < w.size {
				w.c.Failf("observation %d of pusher %d refused although the buffer of size %d had %d observations", r.id, p, w.size, in-out)
			}
		}
	}
	w.c.Count("streaming observations processed", len(ids))
	w.c.Count("streaming observations refused", refused)
	w.c.Distinct("stream", w.c.Group, w.c.Index, accepted, refused)
	w.c.Sample(fmt.Sprintf("streaming buffer %d: %d accepted %d refused %d processed", w.size, accepted, refused, len(ids)))
}

func streamConcurrent(c *Case) {
	var size = c.between(2, 20)
	var rg = &safeRand{}
	rg.state.Store(c.Rng.Uint64())
	var slow = c.between(0, 30)
	var ctrl core.CtrlConf
	var evals atomic.Int64
	ctrl.Finishing = FuncFinishing(func(core.OCModel) bool { evals.Add(1); spin(slow); return false })
	var w = newStreamWorld(c, c.between(1, size), size, ctrl)
	c.Check(w.algo.Init() == nil, "not initialised")
	var wg sync.WaitGroup
	var busy atomic.Int32
	var pushers = c.between(1, 4)
	busy.Store(int32(pushers))
	for p := 1; p <= pushers; p++ {
		var n = c.between(5, 40)
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer busy.Add(-1)
			c.protect(func() {
				for i := 0; i < n; i++ {
					spin(rg.next(30))
					_ = w.log.push(p, w.algo.Push)
				}
			})
		}()
	}
	for i := 0; i < 20 && (busy.Load() > 0 || i < 3); i++ {
		if c.pick(.3) {
			_ = w.algo.Pause()
		} else {
			_ = w.algo.Play()
		}
		spin(c.intn(100))
	}
	wg.Wait()
	_ = w.algo.Play()
	c.what.Store("processing everything")
	var target = func() int {
		var n = 0
		for _, l := range w.log.pushes {
			for _, r := range l {
				if r.err == nil {
					n++
				}
			}
		}
		return n - 1
	}()
	for from := evals.Load(); int(w.algo.RuntimeFigures()[core.Iterations]) < target; {
		time.Sleep(20 * time.Microsecond)
		if n := evals.Load() - from; n > 5000 && int(w.algo.RuntimeFigures()[core.Iterations]) < target {
			c.Failf("%v after %d turns of the run, %d iterations expected", w.algo.RuntimeFigures(), n, target)
		}
	}
	c.Check(w.algo.Stop() == nil, "not stopped: %s", sstr(w.algo.Status()))
	w.check(true)
}

// sequential: exactly BufferSize observations fit when nothing runs
func streamSequential(c *Case) {
	c.Bubble(func() {
		var size = c.between(1, 12)
		if c.pick(.05) {
			size = 1 << c.between(4, 8)
		}
		var ctrl core.CtrlConf
		ctrl.IterFreq = 1
		var w = newStreamWorld(c, c.intn(size+1), size, ctrl)
		var held = len(w.log.pushes[0])
		var pushOne = func() {
			var before = w.algo.RuntimeFigures()
			var st = w.algo.Status()
			var err = w.log.push(1, w.algo.Push)
			c.Check((err == nil) == (held < size), "buffer of size %d holding %d: push returns %v", size, held, err)
			if err == nil {
				held++
			} else {
				c.Check(sameFigures(before, w.algo.RuntimeFigures()) && w.algo.Status() == st, "a refused push changed figures from %v to %v", before, w.algo.RuntimeFigures())
			}
		}
		for i := c.intn(2 * size); i > 0; i-- {
			pushOne()
		}
		if held == 0 {
			pushOne()
		}
		c.Check(w.algo.Init() == nil, "not initialised")
		held--
		for i := c.intn(2 * size); i > 0; i-- {
			pushOne()
		}
		c.Check(w.algo.Play() == nil, "not started")
		time.Sleep(500 * time.Millisecond)
		for i := c.between(3, 15); i > 0; i-- { // one observation processed per second
			synctest.Wait()
			held = 0
			for _, r := range append(w.log.pushes[0], w.log.pushes[1]...) {
				if r.err == nil {
					held++
				}
			}
			held -= len(w.order) + 1
			for j := c.intn(4); j > 0; j-- {
				pushOne()
			}
			time.Sleep(time.Second)
		}
		time.Sleep(time.Duration(size+1) * time.Second)
		c.Check(w.algo.Stop() == nil, "not stopped: %s", sstr(w.algo.Status()))
		synctest.Wait()
		w.check(true)
	})
}

func TestC08(t *testing.T) {
	var h = newH(t, "C08", "observations carry identities that combinations accumulate: the centroid of kmeans and mcmc with one cluster is the set of observations used by each "+
		"iteration, checked against the recorded pushes (exactly once, bounds given by call and return events, most recent frame, order); the centre of streaming lists the "+
		"observations processed. With concurrent pushers and control, gated iterations, and the buffer alone against its model. Non trivial: several windows or observations",
		"streaming is not initialised again: what becomes of the previous centres is not specified")
	h.CasesW("concurrent", h.N(1500, 20000), 16, batchConcurrent)
	h.Cases("gated", h.N(2000, 30000), batchGated)
	h.Cases("buffer-model", h.N(5000, 100000), bufferModel)
	h.CasesW("buffer-concurrent", h.N(400, 6000), 12, bufferConcurrent)
	h.CasesW("stream-concurrent", h.N(1000, 15000), 16, streamConcurrent)
	h.Cases("stream-sequential", h.N(2000, 30000), streamSequential)
	h.CasesW("many", h.N(40, 500), 8, manyPushed)
	h.Require("windows", 20000)
	h.Require("pushes during one iteration", 10000)
	h.Require("streaming observations refused", 1000)
}
