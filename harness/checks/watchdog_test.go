package checks

import (
	"fmt"
	"os"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// The watchdog counts ticks of 200 ms of its own sleeps (not wall-clock time: a suspended machine
// does not tick). When a case is active for longer than its limit, no other case is started, the
// others are given time to end, and the goroutines are analysed:
//   - every goroutine with a library frame is blocked on a lock or channel, in 5 samples over 5 s,
//     and the case is not making progress: the call blocks for ever, a violation;
//   - a call is still blocked, or polling, although the algorithm made more than 20000 iterations
//     during the analysis: violation;
//   - a library goroutine computes without end, on a small input, for more than 60 s of CPU, and it
//     is the call or a call is blocked: violation;
//   - virtual time is stopped by a goroutine waiting for a mutex whose holder waits for a sleeping one:
//     the case is abandoned and tried again (twice), see thaw;
//   - otherwise the limit of the case is doubled and the others go on; after 10 minutes the check is
//     inconclusive.

func cpuTime() time.Duration {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func (h *H) watchdog() {
	var cpu0 = map[*Case]time.Duration{}
	for {
		time.Sleep(200 * time.Millisecond)
		h.mu.Lock()
		var over []*Case
		for c := range h.active {
			c.ticks++
			if c.ticks == 1 {
				cpu0[c] = cpuTime()
				c.from = c.beats.Load()
			}
			if c.ticks > c.limit.Load() || c.ticks > 25 && c.failed.Load() {
				over = append(over, c)
			}
		}
		h.mu.Unlock()
		h.thaw()
		if len(over) > 0 {
			h.draining.Store(true)
			if len(h.viols) > 0 { // a case that failed may not end
				h.finish()
				os.Exit(3)
			}
			h.analyse(over, cpu0)
		}
	}
}

var gBubble = regexp.MustCompile(`^goroutine \d+[^\[]*\[([^\]]*), synctest bubble (\d+)\]`)

// thaw abandons the cases whose virtual time is stopped by a mutex: a goroutine that waits for a mutex
// is not idle for testing/synctest, so when the holder waits for a sleeping goroutine time never
// advances. It says nothing about the library: the case is tried again.
func (h *H) thaw() {
	h.mu.Lock()
	var old = map[int64]*Case{}
	for c := range h.active {
		if b := c.bubble.Load(); b != 0 && c.ticks >= 10 && !c.failed.Load() {
			old[b] = c
		}
	}
	h.mu.Unlock()
	if len(old) == 0 {
		return
	}
	var locked, asleep, other = map[*Case]int{}, map[*Case]int{}, map[*Case]int{}
	for _, text := range strings.Split(stacks(), "\n\n") {
		var m = gBubble.FindStringSubmatch(text)
		if m == nil {
			continue
		}
		var b, _ = strconv.ParseInt(m[2], 10, 64)
		var c = old[b]
		switch state := m[1]; {
		case c == nil:
		case strings.HasPrefix(state, "sync.Mutex") || strings.HasPrefix(state, "sync.RWMutex") || strings.HasPrefix(state, "semacquire"):
			locked[c]++
		case strings.HasPrefix(state, "sleep (durable)") || strings.HasPrefix(state, "select (durable)") || strings.HasPrefix(state, "chan receive (durable)"):
			if strings.HasPrefix(state, "sleep") {
				asleep[c]++
			}
		case strings.Contains(state, "(durable)") || strings.Contains(text, "synctest.Run("):
		default:
			other[c]++
		}
	}
	for _, c := range old {
		if locked[c] == 0 || asleep[c] == 0 || other[c] > 0 {
			c.frozen = 0
			continue
		}
		c.frozen++
		if c.frozen < 5 {
			continue
		}
		h.mu.Lock()
		delete(h.active, c)
		h.counters["cases abandoned as virtual time was stopped by a mutex"]++
		var n = h.counters["cases abandoned as virtual time was stopped by a mutex"]
		h.mu.Unlock()
		if n > 60 {
			var dump string
			for _, g := range libGoroutines() {
				dump += g.text + "\n\n"
			}
			h.Inconclusive("virtual time stopped in %d cases, like %s:%d\n%.6000s", n, c.Group, c.Index, dump)
			h.finish()
			os.Exit(3)
		}
		c.leave()
	}
}

func (h *H) only(stuck []*Case) []*Case {
	h.mu.Lock()
	defer h.mu.Unlock()
	var out []*Case
	for _, c := range stuck {
		if _, ok := h.active[c]; ok {
			out = append(out, c)
		}
	}
	return out
}

func (h *H) nActive() int {
	h.mu.Lock()
	defer h.mu.Unlock()
	return len(h.active)
}

var gHead = regexp.MustCompile(`^goroutine (\d+)[^\[]*\[([^\],]+)`)

// gor is a goroutine of the library, or calling it
type gor struct {
	id, state, text string
	call            bool // called by the harness
	top             bool // executing library code, not a callback of the harness
	blocked         bool
	polling         bool // Wait between two polls
	timer           bool // a pending timeout
}

func libGoroutines() map[string]gor {
	var out = map[string]gor{}
	for _, text := range strings.Split(stacks(), "\n\n") {
		if !strings.Contains(text, "wearelumenai/distclus/") {
			continue
		}
		var m = gHead.FindStringSubmatch(text)
		if m == nil {
			continue
		}
		var g = gor{id: m[1], state: m[2], text: text}
		var created = strings.LastIndex(text, "created by ")
		g.call = created < 0 || !strings.Contains(text[created:], "wearelumenai/distclus/")
		for _, line := range strings.Split(text, "\n")[1:] {
			if strings.HasPrefix(line, "verif/checks.") {
				break
			}
			if strings.HasPrefix(line, "github.com/wearelumenai/distclus/") {
				g.top = true
				break
			}
		}
		switch {
		case strings.HasPrefix(m[2], "chan "), strings.HasPrefix(m[2], "select"), strings.HasPrefix(m[2], "sync."),
			strings.HasPrefix(m[2], "semacquire"):
			g.blocked = true
		case strings.HasPrefix(m[2], "sleep") && strings.Contains(text, "timeout).wait("):
			g.polling = true
		case strings.HasPrefix(m[2], "sleep") && strings.Contains(text, "timeout).interrupt("):
			g.timer = true
		}
		out[g.id] = g
	}
	return out
}

func (h *H) analyse(stuck []*Case, cpu0 map[*Case]time.Duration) {
	for i := 0; i < 60 && h.nActive() > len(stuck); i++ { // let the others end
		time.Sleep(500 * time.Millisecond)
		stuck = h.only(stuck)
	}
	var progress = func(c *Case) int64 { return c.beats.Load() }
	var iters = map[*Case]int64{}
	for _, c := range stuck {
		iters[c] = progress(c)
	}
	var samples []map[string]gor
	for i := 0; i < 6; i++ {
		samples = append(samples, libGoroutines())
		time.Sleep(time.Second)
	}
	var always = func(f func(g gor) bool) (n int) { // goroutines for which f holds in all samples
		for id := range samples[0] {
			var ok = true
			for _, s := range samples {
				var g, found = s[id]
				ok = ok && found && f(g)
			}
			if ok {
				n++
			}
		}
		return
	}
	var sometimes = func(f func(g gor) bool) (n int) {
		for _, s := range samples {
			for _, g := range s {
				if f(g) {
					n++
				}
			}
		}
		return
	}
	var pending = always(func(g gor) bool { return g.call })
	var pendingBlocked = always(func(g gor) bool { return g.call && g.blocked })
	var pendingAsleep = always(func(g gor) bool { return g.call && strings.HasPrefix(g.state, "sleep") })
	var active = sometimes(func(g gor) bool { return !g.blocked && !g.polling && !g.timer })
	var spinning = always(func(g gor) bool { return g.top && g.call && strings.HasPrefix(g.state, "runn") })
	if pendingBlocked > 0 { // on a run
		spinning = always(func(g gor) bool { return g.top && strings.HasPrefix(g.state, "runn") })
	}
	for i := 0; i < 240 && spinning > 0; i++ {
		stuck = h.only(stuck)
		if len(stuck) == 0 || cpuTime()-cpu0[stuck[0]] > 61*time.Second {
			break
		}
		time.Sleep(500 * time.Millisecond)
	}
	var dump string
	for _, g := range samples[len(samples)-1] {
		dump += g.text + "\n\n"
	}
	if len(dump) > 12000 {
		dump = dump[:12000]
	}
	stuck = h.only(stuck)
	for _, c := range stuck {
		var what, _ = c.what.Load().(string)
		var adv = progress(c) - iters[c]
		var cpu = cpuTime() - cpu0[c]
		switch {
		case pending > 0 && active == 0 && adv == 0:
			c.ErrorKey("blocked", "a call never returns (%s): every goroutine of the library is blocked\n%s", what, dump)
		case pendingBlocked+pendingAsleep > 0 && adv > 20000: // asleep: a call that polls
			c.ErrorKey("blocked", "a call has not returned (%s) after %d iterations\n%s", what, progress(c)-c.from, dump)
		case spinning > 0 && cpu > 60*time.Second:
			c.ErrorKey("endless", "no end (%s) after %v of CPU\n%s", what, cpu, dump)
		case c.limit.Load() < 2400: // slow, give it more time
			c.limit.Store(2 * c.limit.Load())
		default:
			h.Inconclusive("case %s:%d does not end (%s): pending %d blocked %d active %d spinning %d\n%s",
				c.Group, c.Index, what, pending, pendingBlocked, active, spinning, dump)
		}
	}
	h.mu.Lock()
	var decided = len(h.viols) > 0 || len(h.errs) > 0
	h.counters["slow cases given more time"]++
	h.mu.Unlock()
	if !decided {
		h.draining.Store(false)
		return
	}
	h.finish()
	fmt.Fprintln(os.Stderr, "watchdog: end of the check")
	os.Exit(3)
}
