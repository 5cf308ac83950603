package checks

import (
	"errors"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/wearelumenai/distclus/core"
)

// Tag is a centroid of the probe: it tells which initialisation and iteration produced it
type Tag struct {
	Session, Iter, Label, Size int
}

// Probe is an implementation that records and controls what the controller does with it
type Probe struct {
	c       *Case
	inInit  atomic.Int32
	inIter  atomic.Int32
	inits   atomic.Int64 // started
	iters   atomic.Int64 // started, all sessions
	done    atomic.Int64 // completed, all sessions
	session int          // only touched by Init and Iterate
	iter    int
	events  atomic.Int64
	lastIn  atomic.Int64 // event number of the last start of an iteration

	OnInit  func(n int) error                       // n-th call, may panic
	OnIter  func(session, iter int) error           // may panic
	Produce func(session, iter int) bool            // false: iteration without result
	OnPush  func(core.Elemt, core.OCModel) error    // may refuse
	OnModel func(m core.OCModel, session, iter int) // what the iteration is given
	Figures bool
	Copies  atomic.Int64
}

func (p *Probe) Init(m core.OCModel) (core.Clust, error) {
	var n = p.inits.Add(1)
	if p.inInit.Add(1) != 1 {
		p.c.Errorf("two initialisations in progress at the same time")
	}
	defer p.inInit.Add(-1)
	if p.inIter.Load() != 0 {
		p.c.Errorf("initialisation while an iteration is in progress")
	}
	if p.OnInit != nil {
		if err := p.OnInit(int(n)); err != nil {
			return nil, err
		}
	}
	p.session++
	p.iter = 0
	return tagClust(p.session, 0), nil
}

func tagClust(session, iter int) core.Clust {
	var size = 1 + iter%3
	var cl = make(core.Clust, size)
	for i := range cl {
		cl[i] = Tag{session, iter, i, size}
	}
	return cl
}

func (p *Probe) Iterate(m core.OCModel) (cl core.Clust, rf core.RuntimeFigures, err error) {
	p.c.beats.Add(1)
	p.lastIn.Store(p.events.Add(1))
	p.iters.Add(1)
	if p.inIter.Add(1) != 1 {
		p.c.Errorf("two iterations in progress at the same time")
	}
	defer p.inIter.Add(-1)
	if p.inInit.Load() != 0 {
		p.c.Errorf("iteration while an initialisation is in progress")
	}
	if p.OnModel != nil {
		p.OnModel(m, p.session, p.iter)
	}
	if p.OnIter != nil {
		if err = p.OnIter(p.session, p.iter+1); err != nil {
			return tagClust(-1, -1), core.RuntimeFigures{"tag": -1}, err
		}
	}
	if p.Produce != nil && !p.Produce(p.session, p.iter+1) {
		p.done.Add(1)
		return nil, core.RuntimeFigures{"tag": -2}, nil
	}
	p.iter++
	if p.Figures {
		rf = core.RuntimeFigures{"tag": float64(p.iter), "session": float64(p.session), fmt.Sprint("only", p.iter%3): float64(p.iter)}
		if p.iter%4 == 1 { // not the ones of the implementation
			rf[core.Iterations], rf[core.PushedData], rf[core.LastDataTime], rf[core.Duration] = -5, -6, -7, -8
		}
	}
	p.done.Add(1)
	return tagClust(p.session, p.iter), rf, nil
}

func (p *Probe) Push(e core.Elemt, m core.OCModel) error {
	if p.OnPush != nil {
		return p.OnPush(e, m)
	}
	return nil
}

func (p *Probe) Copy(m core.OCModel) (core.Impl, error) {
	p.Copies.Add(1)
	return &Probe{c: p.c}, nil
}

// figures given by an iteration of a probe with figures: nothing remains of the others
func (p *Probe) stale(rf core.RuntimeFigures, iter int) string {
	for name, value := range rf {
		if strings.HasPrefix(name, "only") && (name != fmt.Sprint("only", iter%3) || value != float64(iter)) {
			return fmt.Sprintf("figure %s = %v after iteration %d: %v", name, value, iter, rf)
		}
	}
	if _, ok := rf[fmt.Sprint("only", iter%3)]; !ok {
		return fmt.Sprintf("figure of iteration %d missing: %v", iter, rf)
	}
	return ""
}

// TagSpace measures tags: the distance from x to a tag depends on all the tag and is minimal for one label
type TagSpace struct{}

func tagDist(x int, t Tag) float64 {
	var best = (x + t.Iter) % t.Size
	var d = float64(t.Session*1000000 + t.Iter)
	if t.Label != best {
		d += 0.5
	}
	return d
}

func (TagSpace) Dist(a, b core.Elemt) float64 {
	if t, ok := a.(Tag); ok {
		a, b = b, t
	}
	return tagDist(a.(int), b.(Tag))
}
func (TagSpace) Combine(a core.Elemt, wa int, b core.Elemt, wb int) core.Elemt { return a }
func (TagSpace) Copy(a core.Elemt) core.Elemt                                  { return a }
func (TagSpace) Dim([]core.Elemt) int                                          { return 1 }

// Gate is a finishing condition opened by the harness
type Gate struct {
	open  atomic.Bool
	calls atomic.Int64
}

func (g *Gate) IsFinished(core.OCModel) bool {
	g.calls.Add(1)
	return g.open.Load()
}

// FuncFinishing is a Finishing from a function
type FuncFinishing func(core.OCModel) bool

func (f FuncFinishing) IsFinished(m core.OCModel) bool { return f(m) }

// Notes records notifications
type Notes struct {
	mu   sync.Mutex
	list []core.OCStatus
	from []core.OnlineClust
}

func (n *Notes) notify(oc core.OnlineClust, s core.OCStatus) {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.list = append(n.list, s)
	n.from = append(n.from, oc)
}

func (n *Notes) get() []core.OCStatus {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]core.OCStatus(nil), n.list...)
}

func sstr(s core.OCStatus) string {
	var name = "?"
	if s.Value >= core.Created && s.Value <= core.Finished {
		name = s.Value.String()
	}
	if s.Error != nil {
		return fmt.Sprintf("%s(%v)", name, s.Error)
	}
	return name
}

func statusList(l []core.OCStatus) string {
	var out = ""
	for _, s := range l {
		out += sstr(s) + " "
	}
	return out
}

// sameErr tells if err is the expected one: the same, or an error with the message of a panic
func sameErr(got, want error) bool {
	if got == nil || want == nil {
		return got == want
	}
	return errors.Is(got, want) || got.Error() == want.Error()
}

func sameStatus(got, want core.OCStatus) bool {
	return got.Value == want.Value && sameErr(got.Error, want.Error)
}
