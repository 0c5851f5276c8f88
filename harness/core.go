// Package zkmc holds the bounded model checker for zksigma: exhaustive enumeration of
// behaviours of the real code, each compared with an independent reference model.
package zkmc

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// A Unit is one bounded space. Its Run enumerates the space in a fixed order.
type Unit struct {
	Name  string
	Bound string // what is enumerated, for the evidence
	Run   func(c *Ctx)
	Tier  string // "" = both tiers, "thorough" = only there
	Race  bool   // run in the race-detector binary only
	W32   bool   // run in the binary built for a 32-bit processor only
	Solo  bool   // not sharded: one process runs all of it
}

// A Check decides one property.
type Check struct {
	ID          string
	Level       string
	Rule        string
	Schedules   bool // the traces are schedules; otherwise they are cases
	Assumptions []string
	Units       []Unit
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// Failure is one violation, identified by unit and case number.
type Failure struct {
	Unit string `json:"unit"`
	Case int64  `json:"case"`
	Desc string `json:"desc"`
	Msg  string `json:"msg"`
}

// Result is what one shard process reports.
type Result struct {
	States      int64              `json:"states"`
	Transitions int64              `json:"transitions"`
	Traces      int64              `json:"traces"`
	Outcomes    map[string]int64   `json:"outcomes"`
	UnitCases   map[string]int64   `json:"unit_cases"`
	UnitSecs    map[string]float64 `json:"unit_secs"`
	Samples     []string           `json:"samples"`
	Failures    []Failure          `json:"failures"`
	Truncated   []string           `json:"truncated"`
	Notes       []string           `json:"notes"`
	Known       map[string]int64   `json:"known"`
	Done        bool               `json:"done"`
}

// Ctx is handed to a unit.
type Ctx struct {
	Thorough bool
	Seed     int64
	prop     string
	res      *Result
	unit     *Unit
	shard    int64
	nshards  int64
	only     int64 // replay: only this case, -1 otherwise
	idx      int64
	desc     string
	deadline time.Time
	stopped  bool
	mark     []byte
	failed   bool
	executed int64
	tick     int
}

const maxFailures = 3

// A run of a history ends behind this case (ZK_UNTIL).
var (
	untilUnit   string
	untilCase   int64
	historyDone bool
)

// Case announces the next case of the unit; it reports whether this process runs it.
func (c *Ctx) Case(format string, args ...interface{}) bool {
	if c.stopped {
		return false
	}
	i := c.idx
	c.idx++
	if untilUnit == c.unit.Name && i > untilCase {
		c.stopped = true
		historyDone = true
		return false
	}
	if c.only >= 0 {
		if i != c.only {
			return false
		}
	} else if !c.unit.Solo && c.nshards > 1 && int64((uint64(i)*0x9E3779B97F4A7C15>>33)%uint64(c.nshards)) != c.shard {
		return false
	}
	if c.only < 0 {
		c.tick++
		if (c.tick&15) == 0 && time.Now().After(c.deadline) {
			c.stopped = true
			c.res.Truncated = append(c.res.Truncated, c.unit.Name)
			return false
		}
	}
	if c.mark != nil {
		binary.LittleEndian.PutUint64(c.mark[8:], uint64(i))
		binary.LittleEndian.PutUint64(c.mark[16:], binary.LittleEndian.Uint64(c.mark[16:])+1)
	}
	c.executed++
	if c.only >= 0 || len(c.res.Samples) < 4 && c.executed <= 2 {
		c.desc = fmt.Sprintf(format, args...)
		if len(c.res.Samples) < 4 {
			c.res.Samples = append(c.res.Samples, c.unit.Name+": "+clip(c.desc, 300))
		}
	} else {
		c.desc = ""
		if len(args) == 0 {
			c.desc = format
		}
	}
	c.failed = false
	return true
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Stop reports that the unit should wind up (deadline, enough failures, replayed case done).
func (c *Ctx) Stop() bool {
	return c.stopped || c.only >= 0 && c.idx > c.only
}

// Tick is called in long inner loops: it honours the deadline inside one case.
func (c *Ctx) Tick() bool {
	if c.stopped {
		return true
	}
	c.tick++
	if c.mark != nil && c.tick&255 == 0 {
		binary.LittleEndian.PutUint64(c.mark[16:], binary.LittleEndian.Uint64(c.mark[16:])+1)
	}
	if c.only < 0 && c.tick&4095 == 0 && time.Now().After(c.deadline) {
		c.stopped = true
		c.res.Truncated = append(c.res.Truncated, c.unit.Name)
	}
	return c.stopped
}

// Alive tells the watchdog that a long case is making progress.
func (c *Ctx) Alive() {
	if c.mark != nil {
		binary.LittleEndian.PutUint64(c.mark[16:], binary.LittleEndian.Uint64(c.mark[16:])+1)
	}
}

// Fail records a violation of the current case; only the first one of a case counts.
func (c *Ctx) Fail(format string, args ...interface{}) {
	if c.failed {
		return
	}
	c.failed = true
	f := Failure{Unit: c.unit.Name, Case: c.idx - 1, Desc: c.desc, Msg: clip(fmt.Sprintf(format, args...), 2000)}
	c.res.Failures = append(c.res.Failures, f)
	if len(c.res.Failures) >= maxFailures {
		c.stopped = true
	}
}

// Failed reports whether the current case has failed already.
func (c *Ctx) Failed() bool { return c.failed }

// Add counts states, transitions (calls into the implementation) and results compared with the model.
func (c *Ctx) Add(states, transitions, traces int64) {
	c.res.States += states
	c.res.Transitions += transitions
	c.res.Traces += traces
}

// Outcome counts a class of results, to show that the space is not trivial.
func (c *Ctx) Outcome(name string) { c.res.Outcomes[name]++ }

// OutcomeN counts n of them.
func (c *Ctx) OutcomeN(name string, n int64) { c.res.Outcomes[name] += n }

// Note records a remark for the evidence.
func (c *Ctx) Note(format string, args ...interface{}) {
	if len(c.res.Notes) < 8 {
		c.res.Notes = append(c.res.Notes, fmt.Sprintf(format, args...))
	}
}

// Truncate records that the unit did not finish its space.
func (c *Ctx) Truncate(why string) {
	c.res.Truncated = append(c.res.Truncated, c.unit.Name+" ("+why+")")
}

// Guard runs f and turns a panic into a violation. It reports whether f returned.
func (c *Ctx) Guard(what string, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil || !ok { // panic(nil) and Goexit leave nothing to recover
			st := string(debug.Stack())
			c.Fail("%s panicked: %v\n%s", what, r, clip(trimStack(st), 1200))
			ok = false
		}
	}()
	f()
	return true
}

func trimStack(s string) string {
	if i := strings.Index(s, "panic("); i >= 0 {
		return s[i:]
	}
	return s
}

func hashName(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func newResult() *Result {
	return &Result{Outcomes: map[string]int64{}, UnitCases: map[string]int64{}, UnitSecs: map[string]float64{}, Known: map[string]int64{}}
}

// runShard runs the units of a check in this process.
func runShard(ck *Check, tier string, seed int64, race bool, shard, nshards int64, deadline time.Time, unitName string, only int64, markPath string) *Result {
	res := newResult()
	var mark []byte
	if markPath != "" {
		f, err := os.OpenFile(markPath, os.O_RDWR|os.O_CREATE, 0o600)
		if err == nil {
			f.Truncate(4096)
			mark, err = syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
			if err != nil {
				mark = nil
			}
			f.Close()
		}
	}
	units := []*Unit{}
	for i := range ck.Units {
		u := &ck.Units[i]
		if unitName != "" && u.Name != unitName {
			continue
		}
		if u.Race != race || u.W32 != (strconv.IntSize == 32) {
			continue
		}
		if u.Tier == "thorough" && tier != "thorough" && unitName == "" {
			continue
		}
		if u.Solo && unitName == "" && int64(hashName(u.Name)%uint64(nshards)) != shard {
			continue
		}
		units = append(units, u)
	}
	left := len(units)
	for _, u := range units {
		// every unit gets an equal part of what is left, so that a long one cannot starve the rest
		budget := deadline.Sub(time.Now()) / time.Duration(left)
		left--
		c := &Ctx{Thorough: tier == "thorough", Seed: seed, prop: ck.ID, res: res, unit: u, shard: shard, nshards: nshards, only: only, mark: mark}
		// unused time flows to the later units
		c.deadline = time.Now().Add(budget)
		if left == 0 {
			c.deadline = deadline
		}
		if mark != nil {
			binary.LittleEndian.PutUint64(mark[0:], hashName(u.Name))
			binary.LittleEndian.PutUint64(mark[8:], ^uint64(0))
		}
		ustart := time.Now()
		func() {
			defer func() {
				if r := recover(); r != nil {
					c.failed = false
					c.Fail("panic: %v\n%s", r, clip(trimStack(string(debug.Stack())), 1500))
				}
			}()
			u.Run(c)
		}()
		res.UnitCases[u.Name] += c.executed
		res.UnitSecs[u.Name] += time.Since(ustart).Seconds()
		if len(res.Failures) >= maxFailures || historyDone || untilUnit == u.Name {
			break
		}
		runtime.GC()
	}
	res.Transitions += curveOps.Load()
	res.Done = true
	return res
}

func mergeResults(rs []*Result) *Result {
	m := newResult()
	for _, r := range rs {
		m.States += r.States
		m.Transitions += r.Transitions
		m.Traces += r.Traces
		for k, v := range r.Outcomes {
			m.Outcomes[k] += v
		}
		for k, v := range r.Known {
			m.Known[k] += v
		}
		for k, v := range r.UnitCases {
			m.UnitCases[k] += v
		}
		for k, v := range r.UnitSecs {
			m.UnitSecs[k] += v
		}
		m.Failures = append(m.Failures, r.Failures...)
		for _, t := range r.Truncated {
			m.Truncated = appendUnique(m.Truncated, t)
		}
		for _, t := range r.Notes {
			m.Notes = appendUnique(m.Notes, t)
		}
	}
	// a few samples from every shard, without repetition
	for i := 0; i < 4; i++ {
		for _, r := range rs {
			if i < len(r.Samples) && len(m.Samples) < 10 {
				m.Samples = appendUnique(m.Samples, r.Samples[i])
			}
		}
	}
	sort.SliceStable(m.Failures, func(i, j int) bool {
		if m.Failures[i].Unit != m.Failures[j].Unit {
			return m.Failures[i].Unit < m.Failures[j].Unit
		}
		return m.Failures[i].Case < m.Failures[j].Case
	})
	return m
}

func appendUnique(l []string, s string) []string {
	for _, x := range l {
		if x == s {
			return l
		}
	}
	return append(l, s)
}

func writeJSON(path string, v interface{}) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	tmp := path + ".tmp"
	if err := os.WriteFile(tmp, append(b, '\n'), 0o644); err != nil {
		return err
	}
	return os.Rename(tmp, path)
}
