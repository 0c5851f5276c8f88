package zkmc

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Environment of a run (set by run.sh):
//   ZK_PROP, ZK_TIER      property and tier
//   ZK_BIN, ZK_RACEBIN    this binary, and the one built with -race ("" if not needed)
//   ZK_SCRATCH            scratch directory
//   ZK_VERIF              /verif
//   ZK_REPLAY             a replay file (then only that case runs)
// and for children: ZK_SHARD=i/n, ZK_OUT, ZK_MARK, ZK_UNIT, ZK_ONLY, ZK_DEADLINE, ZK_RACE.

func envInt(name string, def int64) int64 {
	v, err := strconv.ParseInt(os.Getenv(name), 10, 64)
	if err != nil {
		return def
	}
	return v
}

func childMain() int {
	ck := checks[os.Getenv("ZK_PROP")]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "no such property")
		return 3
	}
	sh := strings.Split(os.Getenv("ZK_SHARD"), "/")
	shard, _ := strconv.ParseInt(sh[0], 10, 64)
	n, _ := strconv.ParseInt(sh[1], 10, 64)
	deadline := time.Unix(0, envInt("ZK_DEADLINE", time.Now().Add(time.Hour).UnixNano()))
	only := envInt("ZK_ONLY", -1)
	if u := os.Getenv("ZK_UNTIL"); u != "" {
		i := strings.LastIndex(u, "#")
		untilUnit = u[:i]
		untilCase, _ = strconv.ParseInt(u[i+1:], 10, 64)
	}
	r := runShard(ck, os.Getenv("ZK_TIER"), envInt("VERIF_SEED", 1), os.Getenv("ZK_RACE") == "1", shard, n, deadline, os.Getenv("ZK_UNIT"), only, os.Getenv("ZK_MARK"))
	if err := writeJSON(os.Getenv("ZK_OUT"), r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	return 0
}

type child struct {
	cmd    *exec.Cmd
	out    string
	mark   string
	stderr bytes.Buffer
	race   bool
	done   chan error
	name   string
}

func unitByHash(ck *Check, h uint64) string {
	for _, u := range ck.Units {
		if hashName(u.Name) == h {
			return u.Name
		}
	}
	return ""
}

func unitW32(ck *Check, name string) bool {
	if ck != nil {
		for _, u := range ck.Units {
			if u.Name == name {
				return u.W32
			}
		}
	}
	return false
}

func startChild(prop, tier, name string, shard, n int, deadline time.Time, unit string, only int64, race bool, extra ...string) (*child, error) {
	dir := os.Getenv("ZK_SCRATCH")
	bin := os.Getenv("ZK_BIN")
	if race {
		bin = os.Getenv("ZK_RACEBIN")
	}
	w32 := strings.HasPrefix(name, "w32-") || unitW32(checks[prop], unit)
	for _, e := range extra {
		if strings.HasPrefix(e, "ZK_UNTIL=") && unitW32(checks[prop], strings.SplitN(e[9:], "#", 2)[0]) {
			w32 = true
		}
	}
	if w32 {
		if bin = os.Getenv("ZK_32BIN"); bin == "" {
			return nil, fmt.Errorf("no 32-bit binary")
		}
	}
	ch := &child{out: filepath.Join(dir, name+".json"), mark: filepath.Join(dir, name+".mark"), race: race, done: make(chan error, 1), name: name}
	os.Remove(ch.out)
	os.Remove(ch.mark)
	ch.cmd = exec.Command(bin, "-test.timeout=0", "-test.run=^TestNothing$")
	env := []string{}
	if f := os.Getenv("ZK_FIELDBIN32"); w32 && f != "" {
		env = append(env, "ZK_FIELDBIN="+f)
	}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "ZK_") && !strings.HasPrefix(e, "ZK_SCRATCH") && !(strings.HasPrefix(e, "ZK_FIELDBIN=") && !w32) && !strings.HasPrefix(e, "ZK_VERIF") {
			continue
		}
		if strings.HasPrefix(e, "GOMAXPROCS=") || strings.HasPrefix(e, "GORACE=") || strings.HasPrefix(e, "GODEBUG=") {
			continue
		}
		env = append(env, e)
	}
	r := "0"
	gomax := "1"
	if race {
		r = "1"
		gomax = "8"
	}
	env = append(env, "ZK_PROP="+prop, "ZK_TIER="+tier, fmt.Sprintf("ZK_SHARD=%d/%d", shard, n), "ZK_OUT="+ch.out, "ZK_MARK="+ch.mark,
		"ZK_UNIT="+unit, fmt.Sprintf("ZK_ONLY=%d", only), fmt.Sprintf("ZK_DEADLINE=%d", deadline.UnixNano()), "ZK_RACE="+r,
		"GOMAXPROCS="+gomax, "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=100", "GODEBUG=cryptocustomrand=1,panicnil=0", "GOTRACEBACK=all", "GOMEMLIMIT=2500MiB")
	ch.cmd.Env = append(env, extra...)
	ch.cmd.Stderr = &ch.stderr
	ch.cmd.Stdout = &ch.stderr
	ch.cmd.Dir = dir
	ch.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := ch.cmd.Start(); err != nil {
		return nil, err
	}
	go func() { ch.done <- ch.cmd.Wait() }()
	return ch, nil
}

func (ch *child) readMark() (unit uint64, idx int64, beat uint64) {
	b, err := os.ReadFile(ch.mark)
	if err != nil || len(b) < 24 {
		return 0, -1, 0
	}
	return binary.LittleEndian.Uint64(b), int64(binary.LittleEndian.Uint64(b[8:])), binary.LittleEndian.Uint64(b[16:])
}

// wait waits for the child; stall is how long it may go without a heartbeat.
func (ch *child) wait(stall, total time.Duration) (res *Result, how string) {
	start := time.Now()
	lastBeat := uint64(0)
	lastChange := time.Now()
	tick := time.NewTicker(250 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case err := <-ch.done:
			b, e2 := os.ReadFile(ch.out)
			if e2 == nil {
				r := newResult()
				if json.Unmarshal(b, r) == nil && r.Done {
					return r, "ok"
				}
			}
			return nil, fmt.Sprintf("process ended: %v", err)
		case <-tick.C:
			_, _, b := ch.readMark()
			if b != lastBeat {
				lastBeat = b
				lastChange = time.Now()
			}
			if time.Since(lastChange) > stall || time.Since(start) > total {
				// ask for a stack dump, then end it
				syscall.Kill(-ch.cmd.Process.Pid, syscall.SIGQUIT)
				select {
				case <-ch.done:
				case <-time.After(3 * time.Second):
					syscall.Kill(-ch.cmd.Process.Pid, syscall.SIGKILL)
					<-ch.done
				}
				return nil, "no progress (hang)"
			}
		}
	}
}

// crashReport picks the interesting lines of what a dying process wrote.
func crashReport(s string) string {
	lines := strings.Split(s, "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.Contains(l, "WARNING: DATA RACE") || strings.HasPrefix(l, "unexpected fault") {
			end := i + 30
			if end > len(lines) {
				end = len(lines)
			}
			return strings.Join(lines[i:end], "\n")
		}
	}
	return clip(s, 1500)
}

func replayOnce(prop, tier string, f Failure, race bool, n int) (bool, string, string) {
	ch, err := startChild(prop, tier, fmt.Sprintf("replay%d", n), 0, 1, time.Now().Add(10*time.Minute), f.Unit, f.Case, race)
	if err != nil {
		return false, "", err.Error()
	}
	r, how := ch.wait(90*time.Second, 10*time.Minute)
	if r == nil {
		if how == "no progress (hang)" {
			return true, "", "the call does not return: " + crashReport(ch.stderr.String())
		}
		return true, "", how + "\n" + crashReport(ch.stderr.String())
	}
	if len(r.Failures) > 0 {
		return true, r.Failures[0].Desc, r.Failures[0].Msg
	}
	return false, "", ""
}

// replayHistory runs a shard again from its start up to the failing case: some failures need the calls
// that went before (a cache, a shared buffer), so the counterexample is that whole history.
func replayHistory(prop, tier string, f Failure, shard, n int, budget time.Duration, times int) (bool, string, string) {
	var chs []*child
	for i := 0; i < times; i++ {
		ch, err := startChild(prop, tier, fmt.Sprintf("history%d", i), shard, n, time.Now().Add(budget), "", -1, false, fmt.Sprintf("ZK_UNTIL=%s#%d", f.Unit, f.Case))
		if err != nil {
			return false, "", err.Error()
		}
		chs = append(chs, ch)
	}
	got, desc, msg := 0, "", ""
	for _, ch := range chs {
		r, how := ch.wait(120*time.Second, budget+time.Minute)
		if r == nil {
			h, idx, _ := ch.readMark()
			if idx == f.Case && unitByHash(checks[prop], h) == f.Unit {
				got++
				msg = how + "\n" + crashReport(ch.stderr.String())
			}
			continue
		}
		for _, g := range r.Failures {
			if g.Unit == f.Unit && g.Case == f.Case {
				got++
				desc, msg = g.Desc, g.Msg
			}
		}
	}
	return got == times, desc, msg
}

func supervise() int {
	prop, tier := os.Getenv("ZK_PROP"), os.Getenv("ZK_TIER")
	verif := os.Getenv("ZK_VERIF")
	ck := checks[prop]
	if ck == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", prop)
		return 3
	}
	if rp := os.Getenv("ZK_REPLAY"); rp != "" {
		return doReplay(ck, rp)
	}
	start := time.Now()
	budget := time.Duration(envInt("ZK_BUDGET", 300)) * time.Second
	deadline := start.Add(budget)
	stall := 120 * time.Second
	// A violation that appears after the others are found costs nothing extra: all shards run to the end.
	type job struct {
		ch    *child
		race  bool
		shard int
	}
	var jobs []job
	nshards := int(envInt("ZK_JOBS", 8))
	plain, race, wide := false, false, false
	for _, u := range ck.Units {
		if u.Tier == "thorough" && tier != "thorough" {
			continue
		}
		if u.W32 {
			wide = true
		} else if u.Race {
			race = true
		} else {
			plain = true
		}
	}
	if plain {
		for i := 0; i < nshards; i++ {
			ch, err := startChild(prop, tier, fmt.Sprintf("shard%d", i), i, nshards, deadline, "", -1, false)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 3
			}
			jobs = append(jobs, job{ch, false, i})
		}
	}
	if race && os.Getenv("ZK_RACEBIN") != "" {
		for i := 0; i < 2; i++ {
			ch, err := startChild(prop, tier, fmt.Sprintf("race%d", i), i, 2, deadline, "", -1, true)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 3
			}
			jobs = append(jobs, job{ch, true, i})
		}
	}
	if wide && os.Getenv("ZK_32BIN") != "" {
		for i := 0; i < nshards; i++ {
			ch, err := startChild(prop, tier, fmt.Sprintf("w32-%d", i), i, nshards, deadline, "", -1, false)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 3
			}
			jobs = append(jobs, job{ch, false, i})
		}
	}
	var results []*Result
	type cand struct {
		f     Failure
		race  bool
		shard int
	}
	var cands []cand
	for _, j := range jobs {
		r, how := j.ch.wait(stall, budget+10*time.Minute)
		if r != nil {
			results = append(results, r)
			for _, f := range r.Failures {
				cands = append(cands, cand{f, j.race, j.shard})
			}
			continue
		}
		h, idx, _ := j.ch.readMark()
		u := unitByHash(ck, h)
		rep := crashReport(j.ch.stderr.String())
		fmt.Fprintf(os.Stderr, "%s: %s in unit %q case %d\n%s\n", j.ch.name, how, u, idx, clip(rep, 3000))
		lost := newResult()
		lost.Truncated = append(lost.Truncated, fmt.Sprintf("%s ended early in %s", j.ch.name, u))
		results = append(results, lost)
		if u != "" && idx >= 0 {
			cands = append(cands, cand{Failure{Unit: u, Case: idx, Msg: how + "\n" + rep}, j.race, j.shard})
		}
	}
	m := mergeResults(results)
	// Confirm: a violation counts only if it shows up again in fresh processes.
	violations := 0
	var lines []string
	seen := map[string]bool{}
	historyTried := map[int]bool{}
	for _, cd := range cands {
		key := fmt.Sprintf("%s/%d", cd.f.Unit, cd.f.Case)
		if seen[key] || violations >= 3 {
			continue
		}
		seen[key] = true
		need, tries := 5, 5
		if cd.race {
			need = 1
		}
		got := 0
		for i := 0; i < tries && got+(tries-i) >= need; i++ {
			bad, desc, msg := replayOnce(prop, tier, cd.f, cd.race, i)
			if bad {
				got++
				if desc != "" {
					cd.f.Desc = desc
				}
				if msg != "" {
					cd.f.Msg = msg
				}
			}
			if got >= need {
				break
			}
			if strings.Contains(cd.f.Msg, "does not return") && got >= 2 {
				break // each of these costs a stall interval
			}
		}
		history := false
		if got < need && !cd.race && !historyTried[cd.shard] && len(historyTried) < 2 {
			historyTried[cd.shard] = true
			var desc, msg string
			if history, desc, msg = replayHistory(prop, tier, cd.f, cd.shard, nshards, budget, 3); history {
				got = need
				cd.f.Msg = msg + "\n(needs the calls that went before it in this process)"
				if desc != "" {
					cd.f.Desc = desc
				}
			}
		}
		hang := strings.Contains(cd.f.Msg, "does not return") && got >= 2
		if got < need && !hang {
			m.Notes = append(m.Notes, fmt.Sprintf("not reproduced (%d of %d): %s case %d: %s", got, tries, cd.f.Unit, cd.f.Case, clip(cd.f.Msg, 300)))
			m.Truncated = appendUnique(m.Truncated, "unreproduced failure in "+cd.f.Unit)
			fmt.Fprintf(os.Stderr, "NOT REPRODUCED: %s case %d: %s\n", cd.f.Unit, cd.f.Case, clip(cd.f.Msg, 600))
			continue
		}
		violations++
		dir := filepath.Join(verif, "replays")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, violations))
		writeJSON(path, map[string]interface{}{"property": prop, "tier": tier, "unit": cd.f.Unit, "case": cd.f.Case, "race": cd.race, "history": history, "shard": cd.shard, "shards": nshards,
			"desc": cd.f.Desc, "message": cd.f.Msg, "cmd": "bash run.sh replay " + path})
		fmt.Printf("%s: unit %s case %d: %s\n  %s\n", prop, cd.f.Unit, cd.f.Case, clip(cd.f.Desc, 600), clip(cd.f.Msg, 1200))
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", prop, path))
	}
	exhaustive := len(m.Truncated) == 0
	bounds := map[string]string{}
	for _, u := range ck.Units {
		if u.Tier == "thorough" && tier != "thorough" {
			continue
		}
		if u.W32 && os.Getenv("ZK_32BIN") == "" {
			m.Notes = appendUnique(m.Notes, "no 32-bit program could be built and run: its units are left out")
			continue
		}
		bounds[u.Name] = u.Bound
	}
	cov := map[string]interface{}{
		"samples": m.Samples, "exhaustive": exhaustive, "outcomes": m.Outcomes, "cases_per_unit": m.UnitCases, "cpu_s_per_unit": m.UnitSecs, "bounds": bounds,
		"rule": ck.Rule,
	}
	switch ck.Level {
	case "fault_enumeration", "exploration":
		cov["evaluations"] = m.Transitions
		cov["distinct_nontrivial"] = m.States
	default:
		cov["states"] = m.States
		cov["transitions"] = m.Transitions
		var cases int64
		for _, n := range m.UnitCases {
			cases += n
		}
		if ck.Schedules {
			cov["traces_validated_against_impl"] = m.Traces
			cov["counts"] = "states: scheduling points with a choice; transitions: scheduling steps and curve operations of the library on the harness's curves; traces: complete schedules run on the real code and judged"
		} else {
			cov["traces_validated_against_impl"] = cases
			if m.Traces != m.States && m.Traces != m.Transitions {
				cov["results_compared"] = m.Traces
			}
			cov["counts"] = "states: model states, as in the rule; transitions: calls of the library and the curve operations it makes on the harness's curves; traces: cases, each run on the real code and compared with the model all along"
		}
	}
	if !exhaustive {
		cov["not_finished"] = m.Truncated
	}
	if len(m.Known) > 0 {
		cov["known_findings_seen"] = m.Known
	}
	if len(m.Notes) > 0 {
		cov["notes"] = m.Notes
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": envInt("VERIF_SEED", 1), "level": ck.Level, "coverage": cov,
		"assumptions": ck.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": violations}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := writeJSON(filepath.Join(verif, "evidence", prop+".json"), ev); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	fmt.Printf("%s %s: states=%d transitions=%d compared=%d exhaustive=%v violations=%d wall=%.1fs outcomes=%v\n", prop, tier, m.States, m.Transitions, m.Traces, exhaustive, violations, time.Since(start).Seconds(), m.Outcomes)
	for id := range m.Known {
		knownFindings()
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, knownText[prop+" "+id])
	}
	for _, l := range lines {
		fmt.Println(l)
	}
	if violations > 0 {
		return 1
	}
	return 0
}

func doReplay(ck *Check, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var r struct {
		Property, Tier, Unit string
		Case                 int64
		Race, History        bool
		Shard, Shards        int
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	f := Failure{Unit: r.Unit, Case: r.Case}
	var bad bool
	var desc, msg string
	if r.History {
		bad, desc, msg = replayHistory(r.Property, r.Tier, f, r.Shard, r.Shards, time.Duration(envInt("ZK_BUDGET", 300))*time.Second, 1)
	} else {
		bad, desc, msg = replayOnce(r.Property, r.Tier, f, r.Race, 0)
	}
	if bad {
		fmt.Printf("%s\n%s\nVIOLATION property=%s replay=%s\n", desc, msg, r.Property, path)
		return 1
	}
	fmt.Println("the case passes")
	return 0
}
