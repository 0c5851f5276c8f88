package zkmc

import (
	"crypto/rand"
	"fmt"
	"math/big"
)

// proveSys: one run of the range prover on a group that yields at every operation.
func proveSys(g uint64, h uint64, v BI) schedSys {
	return schedSys{fmt.Sprintf("range prover, G=%d, H=%d, value %s", g, h, v), func() ([]func(), func() string) {
		z := newZn(znN)
		z.yield = yieldOrNot()
		cp := z.CPG(g, h, 40)
		var p Proof
		var blind BI
		var err error
		f := func() { p, blind, err = prove(Stmt{kind: kRange, cp: cp, wit: []BI{v}}) }
		rand.Reader = &yieldReader{&lockedReader{r: newStream("c16 " + v.String())}, "random draw"}
		return []func(){f}, func() string {
			rand.Reader = sysRand
			if !freeRunning {
				z.yield = nil
			}
			if err != nil {
				return "the prover fails: " + err.Error()
			}
			if p.r == nil || blind == nil || len(p.r.ProofTuples) != 40 {
				return "the prover returns no complete proof"
			}
			gr := znGroup{z}
			comm := gr.Add(gr.Mul(cp.G, v), gr.Mul(cp.H, blind))
			if !refVerify(gr, cp, kRange, []EC{comm}, fieldsOf(p)) {
				return "the proof does not verify (reference) for the value and the returned blinding factor"
			}
			if ok, err := verify(p, cp, []EC{comm}); !ok || err != nil {
				return fmt.Sprintf("the proof does not verify: %v %v", ok, err)
			}
			return ""
		}
	}}
}

// proveFaultSys: the random source fails at the k-th read.
func proveFaultSys(v BI, k, count int) schedSys {
	return schedSys{fmt.Sprintf("range prover, value %s, random source fails at read %d (%d times)", v, k, count), func() ([]func(), func() string) {
		z := newZn(znN)
		z.yield = yieldOrNot()
		cp := z.CP(7, 40)
		var p Proof
		var blind BI
		var err error
		fr := &faultReader{src: newStream("c16f"), k: k, count: count, err: errRand}
		f := func() { p, blind, err = prove(Stmt{kind: kRange, cp: cp, wit: []BI{v}}) }
		rand.Reader = &yieldReader{&lockedReader{r: fr}, "random draw"}
		return []func(){f}, func() string {
			rand.Reader = sysRand
			if !freeRunning {
				z.yield = nil
			}
			if fr.hits == 0 {
				if err != nil {
					return "the prover fails without a fault: " + err.Error()
				}
			}
			if err == nil {
				if p.r == nil || blind == nil {
					return "no error and no proof"
				}
				gr := znGroup{z}
				comm := gr.Add(gr.Mul(cp.G, v), gr.Mul(cp.H, blind))
				if fr.hits > 0 || !refVerify(gr, cp, kRange, []EC{comm}, fieldsOf(p)) {
					return "a fault of the random source is not reported"
				}
			}
			return ""
		}
	}}
}

// rangeCase is a proof for the verifier, with the verdict of the reference.
type rangeCase struct {
	name string
	z    *Zn
	cp   CP
	p    Proof
	comm EC
	want bool
}

func rangeCases(n int) []rangeCase {
	z := newZn(znN)
	cp := z.CP(11, n)
	gr := znGroup{z}
	digits := make([]int, n)
	pos := make([]int, n)
	for i := range digits {
		digits[i], pos[i] = (i+1)%2, i
	}
	f, v, bl := refRange(gr, cp, digits, pos, newStream("c16 case"))
	comm := gr.Add(gr.Mul(cp.G, v), gr.Mul(cp.H, bl))
	var l []rangeCase
	add := func(name string, f Fields, comm EC, mod func(*Proof)) {
		p, err := build(kRange, f)
		if err != nil {
			panic(err)
		}
		want := mod == nil && refVerify(gr, cp, kRange, []EC{comm}, f)
		if mod != nil {
			mod(&p)
		}
		l = append(l, rangeCase{fmt.Sprintf("range verifier, %d entries, %s", n, name), z, cp, p, comm, want})
	}
	add("valid", f, comm, nil)
	if !l[0].want {
		panic("reference range proof does not verify")
	}
	add("other commitment", f, gr.Add(comm, cp.G), nil)
	for _, i := range []int{0, n / 2, n - 1} {
		g := f.clone()
		g.S[1+i].Add(g.S[1+i], one)
		add(fmt.Sprintf("response %d altered", i), g, comm, nil)
	}
	if n > 1 {
		g := f.clone()
		g.P[1], g.P[2] = g.P[2], g.P[1]
		g.S[1], g.S[2] = g.S[2], g.S[1]
		add("entries 0 and 1 exchanged", g, comm, nil)
	}
	g := f.clone()
	g.S[0].Add(g.S[0], one)
	add("challenge altered", g, comm, nil)
	g = f.clone()
	g.P[0] = gr.Add(g.P[0], cp.H)
	add("aggregate altered", g, comm, nil)
	g = f.clone()
	g.P = append(g.P, g.P[n])
	g.S = append(g.S, g.S[n])
	add("one entry too many", g, comm, nil)
	for _, i := range []int{0, n - 1} {
		i := i
		add(fmt.Sprintf("entry %d without response", i), f, comm, func(p *Proof) { p.r.ProofTuples[i].S = nil })
		add(fmt.Sprintf("entry %d without point", i), f, comm, func(p *Proof) { p.r.ProofTuples[i].C.X, p.r.ProofTuples[i].C.Y = nil, nil })
	}
	return l
}

func (rc rangeCase) sys() schedSys {
	return schedSys{rc.name, func() ([]func(), func() string) {
		if !freeRunning {
			rc.z.yield = yieldPoint
		}
		var ok bool
		var err error
		f := func() { ok, err = verify(rc.p, rc.cp, []EC{rc.comm}) }
		return []func(){f}, func() string {
			if !freeRunning {
				rc.z.yield = nil
			}
			if ok != rc.want || (err == nil) != rc.want {
				return fmt.Sprintf("verdict %v, %v; the right one is %v", ok, err, rc.want)
			}
			return ""
		}
	}}
}

// freeRunning: no scheduler; what the calls leave running may still read the group's settings.
var freeRunning bool

func yieldOrNot() func(string) {
	if freeRunning {
		return nil
	}
	return yieldPoint
}

// c16Race: prover and verifier run freely under the race detector, which orders accesses by the
// code's own synchronization only.
func c16Race(c *Ctx) {
	freeRunning = true
	defer func() { freeRunning = false }()
	reps := 6
	if c.Thorough {
		reps = 60
	}
	run := func(s schedSys) {
		if !c.Case("%s, free running, race detector", s.name) {
			return
		}
		for i := 0; i < reps && !c.Failed(); i++ {
			fs, check := s.mk()
			for _, f := range fs {
				c.Guard("range proof", f)
			}
			if msg := check(); msg != "" && !c.Failed() {
				c.Fail("%s", msg)
			}
			c.Add(1, 1, 1)
		}
		c.Outcome("free-running call without a data race")
	}
	for _, v := range append(c16Vals, hexInt("8000000000"), one) {
		for _, g := range []uint64{1, 5} {
			run(proveSys(g, 7, v))
			if c.Stop() {
				return
			}
		}
	}
	for _, k := range []int{0, 1, 40, 79} {
		run(proveFaultSys(c16Vals[1], k, 1))
	}
	for _, n := range []int{1, 2, 3, 40} {
		for _, rc := range rangeCases(n) {
			run(rc.sys())
			if c.Stop() {
				return
			}
		}
	}
}

var c16Vals = []BI{big.NewInt(0), big.NewInt(0x5555555555), new(big.Int).Sub(pow2(40), one)}

func init() {
	register(&Check{
		ID: "C16", Level: "model_checking", Schedules: true,
		Rule: "under every schedule explored the call returns, no goroutine stays behind, the prover's proof satisfies the reference equations for the value and blinding factor, and the verifier's verdict is the reference verdict",
		Assumptions: []string{
			"goroutines are interleaved at curve operations and random draws (everything between two of them runs without interruption); finer interleavings are left to the race detector units",
			"the group is cyclic of order 2^61-1 behind the elliptic.Curve interface",
		},
		Units: []Unit{
			{Name: "prover: schedules with one deviation", Bound: "value 0x5555555555, 3 policies x every other goroutine at every step, taken once or to its end; values 0 and 2^40-1 without deviation (thorough: with)", Run: func(c *Ctx) {
				for vi, v := range c16Vals {
					for pol := 0; pol < nPolicies; pol++ {
						d := 1
						if !c.Thorough && (vi != 1 || pol == polCall) {
							d = 0
						}
						explore(c, proveSys(1, 7, v), pol, d, true, 1)
						if c.Stop() {
							return
						}
					}
				}
			}},
			{Name: "prover: fault of the random source at every read", Bound: "value 0x5555555555, every read, one fault and all from there, 4 policies", Run: func(c *Ctx) {
				for k := 0; k <= 130; k++ {
					for _, cnt := range []int{1, -1} {
						for pol := 0; pol < nPolicies; pol++ {
							explore(c, proveFaultSys(c16Vals[1], k, cnt), pol, 0, false, 1)
							if c.Stop() {
								return
							}
						}
					}
				}
			}},
			{Name: "race: free running", Bound: "prover for 5 values x 2 generators, 4 faults, all verifier cases with 1, 2, 3 and 40 entries, 6 times each (thorough: 60)", Race: true, Run: c16Race},
			{Name: "number of processors", Bound: "prover for 3 values and all verifier cases with 1 to 64 entries, running freely with GOMAXPROCS at 24 values from 1 to 128", Run: c16Procs},
			{Name: "processors of the machine", Bound: "the same in fresh processes bound to 1, 2, ... up to all processors", Run: c16CPUs},
			{Name: "verifier: every schedule of small proofs", Bound: "1 entry: all schedules; 2 entries: all schedules (up to a limit of 6000 each in the quick tier)", Run: func(c *Ctx) {
				lim := int64(6000)
				if c.Thorough {
					lim = 400000
				}
				for _, n := range []int{1, 2} {
					for _, rc := range rangeCases(n) {
						exploreAll(c, rc.sys(), lim)
						if c.Stop() {
							return
						}
					}
				}
			}},
			{Name: "verifier: schedules with up to two deviations", Bound: "3 entries depth 2 (thorough: 3), 8 entries depth 1 (2), 40 entries depth 1 (quick: of a valid and an invalid proof; the malformed ones without deviation)", Run: func(c *Ctx) {
				for _, n := range []int{3, 8, 40} {
					for ci, rc := range rangeCases(n) {
						for pol := 0; pol < nPolicies; pol++ {
							d := 1
							if n == 3 {
								d = 2
							}
							if c.Thorough && n < 40 {
								d++
							}
							if n == 40 && !c.Thorough && (pol > 1 || ci > 0 && (ci != 3 || pol > 0)) {
								d = 0
							}
							explore(c, rc.sys(), pol, d, n != 3, 1)
							if c.Stop() {
								return
							}
						}
					}
				}
			}},
		},
	})
}
