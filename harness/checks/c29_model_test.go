package checks

import (
	"errors"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/wearelumenai/distclus/core"
)

// seer is an implementation that verifies what it is given
type seer struct {
	c      *Case
	where  string
	conf   core.Conf
	space  core.Space
	algo   *core.Algo
	strict bool // one caller

	mu        sync.Mutex
	published core.Clust          // last centroids
	figures   core.RuntimeFigures // of the implementation
	iter      int
	given     []core.Elemt // to Push
	seen      float64      // pushedData seen by the last iteration
	refuse    error
	copies    []copyCall
	failInit  error
	failIter  error
	empty     bool

	accepted          atomic.Int64 // sequential
	session           int
	inits, its, pushd atomic.Int64
	sleep             time.Duration
	spins             int
}

type copyCall struct {
	conf  core.Conf
	space core.Space
	impl  core.Impl
	err   error
	model core.OCModel
}

func (s *seer) bad(f string, a ...interface{}) { s.c.Errorf(s.where+": "+f, a...) }

func (s *seer) common(what string, m core.OCModel) {
	if m.Conf() != s.conf {
		s.bad("%s is given the configuration %p, expected %p", what, m.Conf(), s.conf)
	}
	if m.Space() != s.space {
		s.bad("%s is given the space %v, expected %v", what, m.Space(), s.space)
	}
}

func (s *seer) Init(m core.OCModel) (core.Clust, error) {
	s.inits.Add(1)
	s.common("an initialisation", m)
	if st := m.Status(); st != core.NewOCStatus(core.Initializing) {
		s.bad("an initialisation is given the status %s", sstr(st))
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.session++
	s.iter, s.seen, s.published, s.figures = 0, 0, nil, core.RuntimeFigures{}
	if s.failInit != nil {
		var err = s.failInit
		s.failInit = nil
		return nil, err
	}
	s.published = tagClust(s.session, 0)
	return s.published, nil
}

func sameSlice(a, b core.Clust) bool {
	return len(a) == len(b) && (len(a) == 0 || reflect.DeepEqual(a, b))
}

func (s *seer) Iterate(m core.OCModel) (core.Clust, core.RuntimeFigures, error) {
	s.its.Add(1)
	s.c.beats.Add(1)
	s.common("an iteration", m)
	if st := m.Status(); st != core.NewOCStatus(core.Running) {
		s.bad("an iteration is given the status %s", sstr(st))
	}
	s.mu.Lock()
	var cl, rf = m.Centroids(), m.RuntimeFigures()
	if !sameSlice(cl, s.published) {
		s.bad("iteration %d is given the centroids %v, the last ones are %v", s.iter+1, cl, s.published)
	}
	s.verifyFigures(fmt.Sprintf("iteration %d", s.iter+1), rf, s.strict)
	rf["junk"], rf[core.Iterations] = 1, 77 // its own copy
	var own = core.RuntimeFigures{"tag": float64(s.iter + 1), fmt.Sprint("only", s.iter%3): 1}
	var next = tagClust(s.session, s.iter+1)
	var err, empty = s.failIter, s.empty
	s.failIter = nil
	s.mu.Unlock()
	if s.sleep > 0 {
		time.Sleep(s.sleep)
	} else {
		spin(s.spins)
	}
	if err != nil {
		return nil, nil, err
	}
	if empty {
		return nil, nil, nil
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.iter++
	s.published, s.figures = next, own
	return next, own, nil
}

// the figures of the implementation and of the controller
func (s *seer) verifyFigures(what string, rf core.RuntimeFigures, exact bool) {
	if rf[core.Iterations] != float64(s.iter) {
		s.bad("%s is given %v iterations, %d were done", what, rf[core.Iterations], s.iter)
	}
	for k, v := range s.figures {
		if rf[k] != v {
			s.bad("%s is given %s = %v, the last iteration returned %v", what, k, rf[k], v)
		}
	}
	for k := range rf {
		if _, ok := s.figures[k]; !ok && (k == "junk" || k == "tag" || strings.HasPrefix(k, "only")) {
			s.bad("%s is given the figure %s", what, k)
		}
	}
	var pd = rf[core.PushedData]
	if exact {
		if pd != float64(s.accepted.Load()) {
			s.bad("%s is given pushedData = %v, %d accepted", what, pd, s.accepted.Load())
		}
	} else if pd < s.seen || pd > float64(s.pushd.Load()) {
		s.bad("%s is given pushedData = %v, %v before, %d pushed", what, pd, s.seen, s.pushd.Load())
	}
	s.seen = pd
}

func (s *seer) Push(e core.Elemt, m core.OCModel) error {
	s.pushd.Add(1)
	s.common("a push", m)
	if !s.strict {
		_ = m.Status()
		return nil
	}
	if a, b := m.Status(), s.algo.Status(); a != b {
		s.bad("a push is given the status %s of an algorithm that is %s", sstr(a), sstr(b))
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if !sameSlice(m.Centroids(), s.algo.Centroids()) {
		s.bad("a push is given the centroids %v, the last ones are %v", m.Centroids(), s.algo.Centroids())
	}
	if got := m.RuntimeFigures()[core.PushedData]; got != float64(s.accepted.Load()) {
		s.bad("a push is given pushedData = %v, %d accepted", got, s.accepted.Load())
	}
	s.given = append(s.given, e)
	if s.refuse == nil {
		s.accepted.Add(1)
	}
	return s.refuse
}

type seerCopy struct{ seer }

func (s *seer) Copy(m core.OCModel) (core.Impl, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	var call = copyCall{m.Conf(), m.Space(), &seerCopy{}, nil, m}
	if s.refuse != nil {
		call.impl, call.err = nil, s.refuse
	}
	s.copies = append(s.copies, call)
	return call.impl, call.err
}

// IsFinished is the condition of the configuration
func (s *seer) IsFinished(m core.OCModel) bool {
	s.common("an end condition", m)
	if st := m.Status(); st.Value != core.Running && s.strict {
		s.bad("the end condition of a run is given the status %s", sstr(st))
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if !sameSlice(m.Centroids(), s.published) {
		s.bad("the end condition after iteration %d is given the centroids %v, the last ones are %v", s.iter, m.Centroids(), s.published)
	}
	s.verifyFigures("an end condition", m.RuntimeFigures(), false)
	return s.c != nil && s.its.Load() > 0 && s.its.Load()%23 == 0
}

type otherSpace struct {
	TagSpace
	n int
}

func (c *Case) newSeer(strict bool) (*seer, *core.CtrlConf) {
	var s = &seer{c: c, strict: strict, figures: core.RuntimeFigures{}}
	var conf = &core.CtrlConf{}
	if c.flip() {
		conf.Finishing = s
	}
	if c.pick(.3) {
		conf.DataPerIter = c.between(1, 3)
	}
	if c.pick(.3) {
		conf.Iter = c.between(1, 40)
	}
	if c.pick(.3) {
		conf.IterPerData = c.between(1, 20)
	}
	conf.StatusNotifier = func(oc core.OnlineClust, _ core.OCStatus) {
		if oc != core.OnlineClust(s.algo) {
			s.bad("the notifier is given another algorithm")
		}
		c.Count("notifications", 1)
	}
	s.conf, s.space = conf, otherSpace{n: c.intn(1000)}
	s.algo = core.NewAlgo(conf, s, s.space)
	return s, conf
}

// modelSequential: one caller, in virtual time. The model is compared with the algorithm at each call
func modelSequential(c *Case) {
	c.Bubble(func() {
		var s, conf = c.newSeer(true)
		s.sleep = time.Duration(c.between(1, 20)) * time.Millisecond
		if c.pick(.3) {
			conf.IterFreq = float64(c.between(10, 200))
		}
		s.where = fmt.Sprintf("end condition %v, DataPerIter %d, Iter %d, IterPerData %d", conf.Finishing != nil, conf.DataPerIter, conf.Iter, conf.IterPerData)
		var sig strings.Builder
		var boom = errors.New("refused")
		for i := c.between(10, 40); i > 0; i-- {
			synctest.Wait()
			var st = s.algo.Status().Value
			var inits, pushed, copies = s.inits.Load(), s.pushd.Load(), len(s.copies)
			var wantInits, wantPushed, wantCopies = 0, 0, 0
			var op = c.intn(10)
			var fresh = st == core.Created || st == core.Finished
			s.refuse = nil
			if c.pick(.3) {
				s.refuse = boom
			}
			var before = s.algo.Centroids()
			fmt.Fprint(&sig, op, st, s.refuse != nil, " ")
			switch op {
			case 0, 1, 2:
				var fail = fresh && c.pick(.2)
				s.mu.Lock()
				if fail {
					s.failInit = boom
				}
				s.mu.Unlock()
				if fresh {
					wantInits = 1
					s.accepted.Store(resetAccepted(st, s.accepted.Load()))
				}
				var err error
				if op == 0 {
					err = s.algo.Init()
				} else {
					err = s.algo.Play()
				}
				c.Check(!fail || err == boom, "%s: a failing initialisation returns %v", s.where, err)
			case 3:
				_ = s.algo.Pause()
			case 4:
				_ = s.algo.Stop()
			case 5, 6:
				var e = &Tag{Label: i}
				wantPushed = 1
				var err = s.algo.Push(e)
				c.Check(err == s.refuse, "%s: push returns %v, the implementation %v", s.where, err, s.refuse)
				c.Check(len(s.given) > 0 && s.given[len(s.given)-1] == core.Elemt(e), "%s: another element is pushed", s.where)
			case 7:
				wantCopies = 1
				var conf2, space2 = &core.CtrlConf{Iter: c.intn(5)}, otherSpace{n: -c.intn(1000)}
				var status, centroids, figures = s.algo.Status(), s.algo.Centroids(), s.algo.RuntimeFigures()
				var oc, err = s.algo.Copy(conf2, space2)
				c.Check(len(s.copies) == copies+1, "%s: the implementation is copied %d times", s.where, len(s.copies)-copies)
				var call = s.copies[copies]
				c.Check(call.conf == core.Conf(conf2) && call.space == core.Space(space2), "%s: a copy is made with %v and %v", s.where, call.conf, call.space)
				c.Check(err == call.err, "%s: copy returns %v, the implementation %v", s.where, err, call.err)
				if err == nil {
					c.Check(oc != nil && oc.Impl() == call.impl, "%s: the copy does not use the copied implementation", s.where)
				} else {
					c.Check(oc == nil, "%s: a refused copy returns an algorithm", s.where)
				}
				c.Check(call.model.Status() == status, "%s: a copy is given the status %s, not %s", s.where, sstr(call.model.Status()), sstr(status))
				c.Check(sameSlice(call.model.Centroids(), centroids), "%s: a copy is given the centroids %v, not %v", s.where, call.model.Centroids(), centroids)
				c.Check(reflect.DeepEqual(call.model.RuntimeFigures(), figures), "%s: a copy is given the figures %v, not %v", s.where, call.model.RuntimeFigures(), figures)
			case 8:
				s.mu.Lock()
				if c.flip() {
					s.failIter = boom
				} else {
					s.empty = !s.empty
				}
				s.mu.Unlock()
			case 9:
				_, _, _ = s.algo.Predict(i)
			}
			if op >= 5 {
				c.Check(sameSlice(before, s.algo.Centroids()), "%s: operation %d changes the centroids", s.where, op)
			}
			c.Check(int(s.inits.Load()-inits) == wantInits, "%s: operation %d initialises the implementation %d times (%v)", s.where, op, s.inits.Load()-inits, st)
			c.Check(int(s.pushd.Load()-pushed) == wantPushed, "%s: operation %d pushes %d times", s.where, op, s.pushd.Load()-pushed)
			c.Check(len(s.copies)-copies == wantCopies, "%s: operation %d copies the implementation %d times", s.where, op, len(s.copies)-copies)
			s.refuse = nil
			if c.pick(.6) {
				time.Sleep(time.Duration(c.between(1, 100))*time.Millisecond + 300*time.Microsecond)
			}
		}
		synctest.Wait()
		_ = s.algo.Stop()
		var rf = s.algo.RuntimeFigures()
		c.Check(rf["junk"] == 0, "%s: figures of a model are those of the algorithm", s.where)
		c.Count("models of iterations", int(s.its.Load()))
		c.Count("models of initialisations", int(s.inits.Load()))
		c.Count("models of copies", len(s.copies))
		c.Count("models of pushes", int(s.pushd.Load()))
		if s.its.Load() > 0 {
			c.Distinct(sig.String())
		}
		c.Sample(s.where + ": " + sig.String())
	})
}

// accepted pushes are counted from the last initialisation of a finished algorithm
func resetAccepted(st core.ClustStatus, n int64) int64 {
	if st == core.Finished {
		return 0
	}
	return n
}

// modelConcurrent: real time and threads
func modelConcurrent(c *Case) {
	var s, conf = c.newSeer(false)
	s.spins = c.intn(20)
	s.where = fmt.Sprintf("concurrent, end condition %v, DataPerIter %d, Iter %d, IterPerData %d", conf.Finishing != nil, conf.DataPerIter, conf.Iter, conf.IterPerData)
	var wg sync.WaitGroup
	for g := 0; g < 3; g++ {
		var r = &safeRand{}
		r.state.Store(c.Rng.Uint64())
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.protect(func() {
				for i := 0; i < 60; i++ {
					switch op := r.next(12); {
					case op < 4:
						_ = s.algo.Push(i)
					case op == 4:
						_, _, _ = s.algo.Predict(i)
					case op == 5:
						var conf2, space2 = &core.CtrlConf{}, otherSpace{n: -1}
						var oc, err = s.algo.Copy(conf2, space2)
						if err != nil || oc.Conf() != core.Conf(conf2) || oc.Space() != core.Space(space2) {
							s.bad("copy %v", err)
						}
					case op == 6:
						_ = s.algo.Pause()
					case op == 7:
						_ = s.algo.Stop()
					case op == 8:
						_ = s.algo.Init()
					default:
						_ = s.algo.Play()
					}
					spin(r.next(20))
				}
			})
		}()
	}
	wg.Wait()
	_ = s.algo.Stop()
	for _, call := range s.copies {
		for _, t := range call.model.Centroids() {
			if _, ok := t.(Tag); !ok {
				s.bad("a copy is given the centroids %v", call.model.Centroids())
			}
		}
	}
	c.Count("models of concurrent iterations", int(s.its.Load()))
	c.Distinct("concurrent", c.Index, s.its.Load())
}

func TestC29(t *testing.T) {
	var h = newH(t, "C29", "random sequences of operations in virtual time, and concurrent ones in real time, on an implementation, an end condition and a notifier that verify everything they are "+
		"given: configuration, space, status, centroids, figures, elements, algorithm, and the number of calls they get. Non trivial: at least one iteration; distinct by sequence")
	h.Cases("sequential", h.N(8000, 120000), modelSequential)
	h.CasesW("concurrent", h.N(600, 8000), 12, modelConcurrent)
	h.Require("models of iterations", 50000)
	h.Require("models of initialisations", 5000)
	h.Require("models of copies", 3000)
	h.Require("models of pushes", 10000)
	h.Require("models of concurrent iterations", 5000)
	h.Require("notifications", 10000)
}
