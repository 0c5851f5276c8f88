package zkmc

import (
	"fmt"
	"io"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"time"
)

// The controlled scheduler. The process runs on one processor. Every goroutine that reaches a
// yield point (a curve operation, a random draw, a call of a stream) parks there; when nothing
// else can run, the controller lets exactly one parked goroutine go on. A schedule is the list of
// these choices, so the interleavings of the real code at yield points can be enumerated and any
// of them run again. Goroutines may block on anything (channels, mutexes, wait groups).

type parked struct {
	id int64
	op string
	ch chan struct{}
}

type sched struct {
	mu     sync.Mutex
	active bool
	list   []*parked
}

var scheduler = &sched{}

// yieldPoint is called by everything the library calls back into.
func yieldPoint(op string) {
	s := scheduler
	s.mu.Lock()
	if !s.active {
		s.mu.Unlock()
		return
	}
	p := &parked{id: goid(), op: op, ch: make(chan struct{})}
	s.list = append(s.list, p)
	s.mu.Unlock()
	<-p.ch
}

func goid() int64 {
	var buf [40]byte
	n := runtime.Stack(buf[:], false)
	var id int64
	for _, c := range buf[len("goroutine "):n] {
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + int64(c-'0')
	}
	return id
}

var runSample = []metrics.Sample{{Name: "/sched/goroutines/runnable:goroutines"}, {Name: "/sched/goroutines/not-in-go:goroutines"}}

var schedRuns int

// settle returns when no other goroutine can run. It gives up on code that never rests.
func settle() bool {
	for i := 0; ; i++ {
		metrics.Read(runSample)
		if runSample[0].Value.Kind() != metrics.KindUint64 {
			// not this runtime: give everything ample opportunity
			for j := 0; j < 200; j++ {
				runtime.Gosched()
			}
			return true
		}
		if runSample[0].Value.Uint64() == 0 {
			return true
		}
		if i > 200000 {
			return false
		}
		runtime.Gosched()
	}
}

// Schedule policies: which parked goroutine goes on when nothing else is said.
const (
	polLow   = iota // the oldest goroutine first: each runs as far as it can
	polHigh         // the youngest first
	polRound        // in turn
	polCall         // the caller last
	nPolicies
)

var polName = []string{"oldest first", "youngest first", "in turn", "caller last"}

// deviation: at a step, the alt-th other goroutine goes on instead; sticky: and stays preferred.
type deviation struct {
	step, alt int
	sticky    bool
}

func devString(d []deviation) string {
	var l []string
	for _, x := range d {
		s := fmt.Sprintf("step %d: alternative %d", x.step, x.alt)
		if x.sticky {
			s += " (and on)"
		}
		l = append(l, s)
	}
	return "[" + strings.Join(l, ", ") + "]"
}

// trace is what one schedule did.
type trace struct {
	enabled  []int // goroutines that could go on, at each step
	steps    int
	err      string // deadlock, leak, panic
	switches int
	maxPar   int
}

func (s *sched) pick(list []*parked, pol int, last int64, pref int64) []*parked {
	l := append([]*parked(nil), list...)
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	rot := func(k int) []*parked { return append(append([]*parked(nil), l[k:]...), l[:k]...) }
	if pref >= 0 {
		for k, p := range l {
			if p.id == pref {
				r := []*parked{p}
				r = append(r, l[:k]...)
				return append(r, l[k+1:]...)
			}
		}
	}
	switch pol {
	case polHigh:
		for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
	case polRound:
		for k, p := range l {
			if p.id > last {
				return rot(k)
			}
		}
	case polCall:
		if len(l) > 1 {
			return rot(1)
		}
	}
	return l
}

// runSchedule runs the functions, each in a goroutine, under one schedule.
// choices counts the scheduling points with more than one goroutine to choose from.
func (tr trace) choices() (n int64) {
	for _, e := range tr.enabled {
		if e > 1 {
			n++
		}
	}
	return
}

func runSchedule(fns []func(), pol int, devs []deviation) (tr trace) {
	s := scheduler
	schedRuns++
	if schedRuns&63 == 1 {
		runtime.GOMAXPROCS(1)
		debug.SetGCPercent(-1) // collections only between schedules
		var ms [1]metrics.Sample
		ms[0].Name = "/memory/classes/heap/objects:bytes"
		metrics.Read(ms[:])
		if ms[0].Value.Kind() != metrics.KindUint64 || ms[0].Value.Uint64() > 300<<20 {
			runtime.GC()
		}
	}
	settle()
	base := runtime.NumGoroutine()
	s.mu.Lock()
	s.active, s.list = true, nil
	s.mu.Unlock()
	done := make([]bool, len(fns))
	var dmu sync.Mutex
	var pan string
	for i, f := range fns {
		i, f := i, f
		go func() {
			defer func() {
				if r := recover(); r != nil {
					dmu.Lock()
					pan = fmt.Sprintf("panic: %v\n%s", r, clip(trimStack(string(debug.Stack())), 1000))
					dmu.Unlock()
				}
				dmu.Lock()
				done[i] = true
				dmu.Unlock()
			}()
			yieldPoint("start")
			f()
		}()
	}
	finish := func() {
		// let everything that is parked run freely
		s.mu.Lock()
		s.active = false
		for _, p := range s.list {
			close(p.ch)
		}
		s.list = nil
		s.mu.Unlock()
		settle()
	}
	allDone := func() bool {
		dmu.Lock()
		defer dmu.Unlock()
		for _, d := range done {
			if !d {
				return false
			}
		}
		return true
	}
	last, pref := int64(-1), int64(-1)
	di := 0
	for {
		settle()
		s.mu.Lock()
		list := s.list
		s.mu.Unlock()
		if len(list) == 0 {
			if allDone() {
				break
			}
			// something may be waiting for a timer or a system call: be patient
			quiet := false
			for k := 0; k < 400; k++ {
				time.Sleep(5 * time.Millisecond)
				settle()
				s.mu.Lock()
				quiet = len(s.list) == 0
				s.mu.Unlock()
				if !quiet || allDone() {
					break
				}
			}
			if quiet && !allDone() {
				tr.err = "deadlock: nothing can go on and a call has not returned"
				break
			}
			continue
		}
		l := s.pick(list, pol, last, pref)
		k := 0
		if di < len(devs) && devs[di].step == tr.steps {
			k = devs[di].alt % len(l)
			if devs[di].sticky {
				pref = l[k].id
			} else {
				pref = -1
			}
			di++
		}
		tr.enabled = append(tr.enabled, len(l))
		if len(l) > tr.maxPar {
			tr.maxPar = len(l)
		}
		p := l[k]
		if p.id != last {
			tr.switches++
		}
		last = p.id
		s.mu.Lock()
		for i, q := range s.list {
			if q == p {
				s.list = append(s.list[:i], s.list[i+1:]...)
				break
			}
		}
		s.mu.Unlock()
		close(p.ch)
		tr.steps++
		if tr.steps > 200000 {
			tr.err = "a call does not end"
			break
		}
	}
	finish()
	dmu.Lock()
	if pan != "" {
		tr.err = pan
	}
	dmu.Unlock()
	if tr.err == "" {
		left := runtime.NumGoroutine() - base
		for k := 0; left > 0 && k < 400; k++ {
			time.Sleep(5 * time.Millisecond)
			left = runtime.NumGoroutine() - base
		}
		if left > 0 {
			tr.err = fmt.Sprintf("%d goroutines are left behind after the call returned", left)
		}
	}
	return
}

// schedSys is a system of calls to be run under all schedules. mk makes a fresh instance: the
// calls, and a judge of what they returned.
type schedSys struct {
	name string
	mk   func() (fns []func(), judge func() string)
}

// explore runs a system under the policy and all schedules that deviate from it up to depth times
// (every other goroutine at every step). A case is one first deviation with everything behind it.
func explore(c *Ctx, sys schedSys, pol, depth int, sticky bool, stride int) {
	run := func(devs []deviation) (trace, bool) {
		fns, judge := sys.mk()
		tr := runSchedule(fns, pol, devs)
		c.Add(tr.choices(), int64(tr.steps), 1)
		c.Alive()
		if tr.err != "" {
			c.Fail("%s, %s, %s: %s", sys.name, polName[pol], devString(devs), tr.err)
			return tr, false
		}
		if m := judge(); m != "" {
			c.Fail("%s, %s, %s: %s", sys.name, polName[pol], devString(devs), m)
			return tr, false
		}
		return tr, true
	}
	ran := false
	var tr trace
	if c.Case("%s, schedule: %s", sys.name, polName[pol]) {
		var ok bool
		tr, ok = run(nil)
		ran = true
		if !ok {
			return
		}
		c.Outcome("schedule without deviation")
	}
	if c.Stop() || depth == 0 {
		return
	}
	if !ran { // the structure of the schedule is needed for the enumeration
		fns, _ := sys.mk()
		tr = runSchedule(fns, pol, nil)
	}
	kinds := []bool{false}
	if sticky {
		kinds = append(kinds, true)
	}
	var deeper func(devs []deviation, t trace, d int) bool
	deeper = func(devs []deviation, t trace, d int) bool {
		from := devs[len(devs)-1].step + 1
		for st := from; st < len(t.enabled); st += stride {
			for a := 1; a < t.enabled[st]; a++ {
				for _, k := range kinds {
					if c.Tick() || c.stopped || time.Now().After(c.deadline) && c.only < 0 {
						if !c.stopped {
							c.stopped = true
							c.Truncate("deadline")
						}
						return false
					}
					nd := append(append([]deviation(nil), devs...), deviation{st, a, k})
					t2, ok := run(nd)
					if !ok {
						return false
					}
					c.Outcome(fmt.Sprintf("schedule with %d deviations", len(nd)))
					if d > 1 && !deeper(nd, t2, d-1) {
						return false
					}
				}
			}
		}
		return true
	}
	for st := 0; st < len(tr.enabled); st++ {
		for a := 1; a < tr.enabled[st]; a++ {
			for _, k := range kinds {
				dv := []deviation{{st, a, k}}
				if !c.Case("%s, schedule: %s, %s", sys.name, polName[pol], devString(dv)) {
					if c.Stop() {
						return
					}
					continue
				}
				t2, ok := run(dv)
				if !ok {
					continue
				}
				c.Outcome("schedule with 1 deviations")
				if depth > 1 {
					deeper(dv, t2, depth-1)
				}
			}
		}
	}
}

// exploreAll runs a system under every schedule (depth-first, stateless): for small systems.
func exploreAll(c *Ctx, sys schedSys, limit int64) {
	if !c.Case("%s: every schedule", sys.name) {
		return
	}
	var count int64
	prefix := []int{}
	for {
		fns, judge := sys.mk()
		var devs []deviation
		for i, a := range prefix {
			if a > 0 {
				devs = append(devs, deviation{i, a, false})
			}
		}
		tr := runSchedule(fns, polLow, devs)
		count++
		c.Add(tr.choices(), int64(tr.steps), 1)
		c.Alive()
		m := tr.err
		if m == "" {
			m = judge()
		}
		if m != "" {
			c.Fail("%s, %s: %s", sys.name, devString(devs), m)
			return
		}
		for len(prefix) < len(tr.enabled) {
			prefix = append(prefix, 0)
		}
		prefix = prefix[:len(tr.enabled)]
		i := len(prefix) - 1
		for ; i >= 0; i-- {
			prefix[i]++
			if prefix[i] < tr.enabled[i] {
				break
			}
		}
		if i < 0 {
			break
		}
		prefix = prefix[:i+1]
		if count >= limit || c.only < 0 && time.Now().After(c.deadline) {
			c.Truncate(fmt.Sprintf("%s after %d schedules", sys.name, count))
			break
		}
	}
	c.OutcomeN("all schedules of a small system", count)
}

// yieldReader yields before every read of a source.
type yieldReader struct {
	r  io.Reader
	op string
}

func (y *yieldReader) Read(b []byte) (int, error) {
	yieldPoint(y.op)
	return y.r.Read(b)
}

type yieldWriter struct {
	w  io.Writer
	op string
}

func (y *yieldWriter) Write(b []byte) (int, error) {
	yieldPoint(y.op)
	return y.w.Write(b)
}
