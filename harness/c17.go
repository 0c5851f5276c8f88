package zkmc

import (
	"bytes"
	"crypto/rand"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"

	zk "github.com/mit-dci/zksigma"
	"github.com/mit-dci/zksigma/btcec"
	"github.com/mit-dci/zksigma/wire"
)

// concOp is one call to run next to others, with the judge of its result.
type concOp struct {
	name string
	big  bool // many goroutines of its own
	mk   func() (run func(), judge func() string)
}

// c17Codec: X then Y in one goroutine, Z in another, for all X, Y, Z.
func c17Codec(c *Ctx, depth int) {
	ops := codecOps()
	y := func() { yieldPoint("stream") }
	for xi := range ops {
		for zi := range ops {
			if !c.Case("codec: %s then everything, next to %s", ops[xi].name, ops[zi].name) {
				continue
			}
			for yi := range ops {
				d := depth
				if yi == zi && d < 2 {
					d = 2
				}
				sys := schedSys{fmt.Sprintf("{%s; %s} || {%s}", ops[xi].name, ops[yi].name, ops[zi].name), func() ([]func(), func() string) {
					var m1, m2, m3 string
					return []func(){func() { m1 = ops[xi].run(y); m2 = ops[yi].run(y) }, func() { m3 = ops[zi].run(y) }}, func() string { return m1 + m2 + m3 }
				}}
				if !exploreInner(c, sys, polLow, d) || !exploreInner(c, sys, polRound, 0) {
					break
				}
			}
			if c.Stop() {
				return
			}
		}
	}
}

// exploreInner is explore inside one case.
func exploreInner(c *Ctx, sys schedSys, pol, depth int) bool {
	var rec func(devs []deviation, from, d int) bool
	rec = func(devs []deviation, from, d int) bool {
		fns, judge := sys.mk()
		tr := runSchedule(fns, pol, devs)
		c.Add(tr.choices(), int64(tr.steps), 1)
		c.Alive()
		m := tr.err
		if m == "" {
			m = judge()
		}
		if m != "" {
			c.Fail("%s, %s, %s: %s", sys.name, polName[pol], devString(devs), m)
			return false
		}
		c.Outcome(fmt.Sprintf("schedule with %d deviations", len(devs)))
		if d == 0 {
			return true
		}
		for st := from; st < len(tr.enabled); st++ {
			for a := 1; a < tr.enabled[st]; a++ {
				if c.only < 0 && time.Now().After(c.deadline) {
					if !c.stopped {
						c.stopped = true
						c.Truncate("deadline")
					}
					return false
				}
				// from here on the other one is preferred, as far as it goes
				if !rec(append(append([]deviation(nil), devs...), deviation{st, a, true}), st+1, d-1) {
					return false
				}
			}
		}
		return true
	}
	return rec(nil, 0, depth)
}

// triples of codec calls in three goroutines
func c17Codec3(c *Ctx) {
	ops := codecOps()
	y := func() { yieldPoint("stream") }
	tuple(len(ops), 3, func(x []int) bool {
		if x[0] > x[1] || x[1] > x[2] {
			return true
		}
		if !c.Case("codec: %s || %s || %s", ops[x[0]].name, ops[x[1]].name, ops[x[2]].name) {
			return !c.stopped
		}
		a, b, d := x[0], x[1], x[2]
		sys := schedSys{fmt.Sprintf("{%s} || {%s} || {%s}", ops[a].name, ops[b].name, ops[d].name), func() ([]func(), func() string) {
			var m [3]string
			return []func(){func() { m[0] = ops[a].run(y) }, func() { m[1] = ops[b].run(y) }, func() { m[2] = ops[d].run(y) }}, func() string { return m[0] + m[1] + m[2] }
		}}
		exploreInner(c, sys, polLow, 1)
		exploreInner(c, sys, polRound, 0)
		return !c.Stop()
	})
}

// znConcOps: calls of the library on one shared parameter set over the model group.
func znConcOps(z *Zn) []concOp { return znConcOpsH(z, 31, 40) }

func znConcOpsH(z *Zn, h uint64, np int) []concOp {
	cp := z.CP(h, np)
	g := znGroup{z}
	var l []concOp
	sub := func(a, b EC) EC { return g.Add(a, g.Neg(b)) }
	for k := kGSPFS; k <= kRange; k++ {
		k := k
		sides := []zk.Side{zk.Left}
		if k == kDisj {
			sides = append(sides, zk.Right)
		}
		for _, side := range sides {
			s := znStmt(z, k, h, big.NewInt(5), big.NewInt(9), big.NewInt(7), side)
			s.cp = cp
			l = append(l, concOp{"prove " + kindName[k], k == kRange, func() (func(), func() string) {
				var p Proof
				var r BI
				var err error
				return func() { p, r, err = prove(s) }, func() string {
					if err != nil || p.isNil() {
						return fmt.Sprintf("%s prover: %v", kindName[k], err)
					}
					v := s.vpts(sub)
					if k == kRange {
						v = []EC{g.Add(g.Mul(cp.G, s.wit[0]), g.Mul(cp.H, r))}
					}
					if !refVerify(g, cp, k, v, fieldsOf(p)) {
						return kindName[k] + " proof is not valid"
					}
					return ""
				}
			}})
			var f Fields
			v := s.vpts(sub)
			if k == kRange {
				digits, pos := []int{1, 0, 1}, []int{0, 1, 2}
				ff, val, bl := refRange(g, cp, digits, pos, newStream("c17"))
				f, v = ff, []EC{g.Add(g.Mul(cp.G, val), g.Mul(cp.H, bl))}
			} else {
				f = refProve(g, s, newStream("c17"+kindName[k]))
			}
			for _, wrong := range []bool{false, true} {
				fv := f.clone()
				if wrong {
					fv.S[1].Add(fv.S[1], one)
				}
				want := refVerify(g, cp, k, v, fv)
				if want == wrong {
					panic("c17: reference " + kindName[k])
				}
				p, err := build(k, fv)
				if k == kIneq {
					p, err = fromBytes(kIneq, refEncode(kIneq, fv))
				}
				if err != nil {
					panic(err)
				}
				vv := v
				l = append(l, concOp{fmt.Sprintf("verify %s (%v)", kindName[k], want), false, func() (func(), func() string) {
					var ok bool
					var err error
					return func() { ok, err = verify(p, cp, vv) }, func() string {
						if ok != want || (err == nil) != want {
							return fmt.Sprintf("%s verifier: %v %v, the right verdict is %v", kindName[k], ok, err, want)
						}
						return ""
					}
				}})
			}
		}
	}
	pt := g.Add(g.Mul(cp.G, big.NewInt(77)), g.Mul(cp.H, big.NewInt(5)))
	simple := func(name string, want EC, f func() EC) {
		l = append(l, concOp{name, false, func() (func(), func() string) {
			var got EC
			return func() { got = f() }, func() string {
				if !sameEC(got, want) {
					return name + " gives " + ecs(got) + " instead of " + ecs(want)
				}
				return ""
			}
		}})
	}
	for _, sc := range []BI{big.NewInt(12), big.NewInt(-3)} {
		sc := sc
		simple("Mult(P,"+sc.String()+")", g.Mul(pt, sc), func() EC { return cp.Mult(pt, sc) })
		simple("Mult(H,"+sc.String()+")", g.Mul(cp.H, sc), func() EC { return cp.Mult(cp.H, sc) })
		simple("CommitR", g.Mul(pt, sc), func() EC { return zk.CommitR(cp, pt, sc) })
		simple("PedCommitR", g.Add(g.Mul(cp.G, sc), g.Mul(cp.H, big.NewInt(8))), func() EC { return zk.PedCommitR(cp, sc, big.NewInt(8)) })
	}
	simple("Sub", sub(pt, cp.H), func() EC { return cp.Sub(pt, cp.H) })
	l = append(l, concOp{"PedCommit", false, func() (func(), func() string) {
		var p EC
		var r BI
		var err error
		return func() { p, r, err = zk.PedCommit(cp, big.NewInt(6)) }, func() string {
			if err != nil || !sameEC(p, g.Add(g.Mul(cp.G, big.NewInt(6)), g.Mul(cp.H, r))) {
				return fmt.Sprintf("PedCommit: %v %v %v", ecs(p), r, err)
			}
			return ""
		}
	}})
	l = append(l, concOp{"KeyGen", false, func() (func(), func() string) {
		var p EC
		var r BI
		return func() { p, r = zk.KeyGen(cp.C, cp.H) }, func() string {
			if !sameEC(p, g.Mul(cp.H, r)) {
				return fmt.Sprintf("KeyGen: %v %v", ecs(p), r)
			}
			return ""
		}
	}})
	return l
}

func c17Calls(c *Ctx) {
	z := newZn(znN)
	ops := znConcOps(z)
	for i := range ops {
		for j := i; j < len(ops); j++ {
			if !c.Case("%s || %s", ops[i].name, ops[j].name) {
				continue
			}
			a, b := ops[i], ops[j]
			sys := schedSys{a.name + " || " + b.name, func() ([]func(), func() string) {
				z.yield = yieldPoint
				rand.Reader = &yieldReader{&lockedReader{r: newStream("c17 run")}, "random draw"}
				r1, j1 := a.mk()
				r2, j2 := b.mk()
				return []func(){r1, r2}, func() string {
					z.yield = nil
					rand.Reader = sysRand
					return strings.TrimSpace(j1() + " " + j2())
				}
			}}
			d := 2
			if a.big || b.big {
				d = 0
				if c.Thorough && !(a.big && b.big) {
					d = 1
				}
			}
			for pol := 0; pol < nPolicies; pol++ {
				dd := d
				if pol > 1 || pol == polHigh && !c.Thorough {
					dd = 0
				}
				if !exploreInner(c, sys, pol, dd) {
					break
				}
			}
			z.yield = nil
			rand.Reader = sysRand
			if c.Stop() {
				return
			}
		}
	}
}

// c17OtherParams: the same kinds of calls at the same time on two sets of parameters.
func c17OtherParams(c *Ctx) {
	z := newZn(znN)
	z2 := newZn(1<<31 - 1)
	a := znConcOps(z)
	for v, b := range [][]concOp{znConcOpsH(z, 77, 41), znConcOpsH(z2, 31, 40)} {
		what := []string{"another H", "another curve"}[v]
		kind := func(o concOp) string {
			f := strings.Fields(strings.SplitN(o.name, "(", 2)[0])
			return f[len(f)-1]
		}
		for i := range a {
			for j := range b {
				if kind(a[i]) != kind(b[j]) {
					continue
				}
				if !c.Case("%s || %s with %s", a[i].name, b[j].name, what) {
					continue
				}
				x, y := a[i], b[j]
				sys := schedSys{x.name + " || " + y.name + " with " + what, func() ([]func(), func() string) {
					z.yield, z2.yield = yieldPoint, yieldPoint
					rand.Reader = &yieldReader{&lockedReader{r: newStream("c17 run")}, "random draw"}
					r1, j1 := x.mk()
					r2, j2 := y.mk()
					return []func(){r1, r2}, func() string {
						z.yield, z2.yield = nil, nil
						rand.Reader = sysRand
						return strings.TrimSpace(j1() + " " + j2())
					}
				}}
				d := 2
				if x.big || y.big {
					d = 0
				}
				for pol := 0; pol < nPolicies; pol++ {
					dd := d
					if pol > 1 {
						dd = 0
					}
					if !exploreInner(c, sys, pol, dd) {
						break
					}
				}
				z.yield, z2.yield = nil, nil
				rand.Reader = sysRand
				if c.Stop() {
					return
				}
			}
		}
	}
}

// c17RaceOther: the same call at once on two sets of parameters, running freely under the race detector.
func c17RaceOther(c *Ctx, mk, mk2 func() *cenv, ops func(*cenv) []cop) {
	envs := []*cenv{mk(), mk2()}
	l := [][]cop{ops(envs[0]), ops(envs[1])}
	for i := range l[0] {
		o := [2]cop{l[0][i], l[1][i]}
		if o[0].name != o[1].name || !o[0].rep {
			continue
		}
		if !c.Case("%s || %s: %s, free running, race detector", envs[0].name, envs[1].name, o[0].name) {
			continue
		}
		alone := [][]interface{}{runCop(envs[0], o[0]), runCop(envs[1], o[1])}
		rand.Reader = &lockedReader{r: newStream("c17 race")}
		for round := 0; round < 3; round++ {
			var wg sync.WaitGroup
			res := make([][]interface{}, 4)
			for k := range res {
				wg.Add(1)
				k := k
				go func() {
					defer wg.Done()
					res[k] = o[k%2].run(envs[k%2])
				}()
			}
			wg.Wait()
			for k := range res {
				if o[0].det && !drawsRandom(o[0].name) && !sameResults(res[k], alone[k%2]) {
					c.Fail("%s gives another result next to the same call with other parameters", o[0].name)
				}
			}
			c.Add(0, 4, 4)
		}
		rand.Reader = sysRand
		c.Add(1, 0, 0)
		c.Outcome("free-running pair on two parameter sets without a data race")
		if c.Stop() {
			return
		}
	}
}

// c17Race: two calls at once on shared values, running freely under the race detector.
func c17Race(c *Ctx, mk func() *cenv, ops func(*cenv) []cop, stride int) {
	e := mk()
	// what only reads the environment, with the result each call has alone
	var reps []cop
	var alone [][]interface{}
	for _, o := range ops(e) {
		if o.rep {
			reps = append(reps, o)
			alone = append(alone, runCop(e, o))
		}
	}
	rand.Reader = &lockedReader{r: newStream("c17 race")}
	defer func() { rand.Reader = sysRand }()
	for i := range reps {
		for j := i; j < len(reps); j++ {
			if stride > 1 && i != j && (i+j)%stride != 0 {
				continue
			}
			if !c.Case("%s: %s || %s, free running, race detector", e.name, reps[i].name, reps[j].name) {
				continue
			}
			var wg sync.WaitGroup
			res := make([][]interface{}, 4)
			for k, o := range []cop{reps[i], reps[j], reps[j], reps[i]} {
				wg.Add(1)
				k, o := k, o
				go func() {
					defer wg.Done()
					res[k] = o.run(e)
				}()
			}
			wg.Wait()
			for k, x := range []int{i, j, j, i} {
				// results that depend on the random source are not compared
				if reps[x].det && !drawsRandom(reps[x].name) && !sameResults(res[k], alone[x]) {
					c.Fail("%s: %s gives another result next to %s", e.name, reps[x].name, reps[i+j-x].name)
				}
			}
			c.Add(1, 4, 4)
			c.Outcome("free-running pair without a data race")
			if c.Stop() {
				return
			}
		}
	}
}

func drawsRandom(name string) bool {
	for _, p := range []string{"prove", "KeyGen", "PedCommit(", "Encrypt", "NewPrivateKey"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// firstUse: the first calls in a fresh process, at the same time in four goroutines. The
// environment is made with the reference arithmetic only.
var firstOps = []string{"Mult", "MultG", "MultH", "Add", "PedCommitR", "PedCommit", "KeyGen", "prove0", "prove1", "prove2", "prove3", "prove4", "prove5", "prove6",
	"verify0", "verify1", "verify2", "verify3", "verify4", "verify5", "verify6", "decode", "codec", "S256", "ScalarBaseMult", "ScalarBaseMultH", "PrivKey", "Sign", "Verify", "Encrypt", "Decrypt", "ParsePubKey", "SignCompact", "ParseDER", "challenge"}

func firstMain(op string) int {
	if op == "procs" {
		return procMain()
	}
	noComb = true
	five := big.NewInt(5)
	cp := zk.TestCurve
	rand.Reader = &lockedReader{r: newStream("first " + op)}
	var f func() string
	ec := func(want EC, g func() EC) func() string {
		return func() string {
			if got := g(); !sameEC(got, want) {
				return ecs(got)
			}
			return ""
		}
	}
	xy := func(g func() (BI, BI)) func() EC { return func() EC { x, y := g(); return EC{X: x, Y: y} } }
	P := mki(3, 4)
	hash := []byte("0123456789abcdef0123456789abcdef")
	switch {
	case op == "Mult":
		f = ec(P.mul(five).P, func() EC { return cp.Mult(P.P, five) })
	case op == "MultG":
		f = ec(mki(5, 0).P, func() EC { return cp.Mult(cp.G, five) })
	case op == "MultH":
		f = ec(mki(0, 5).P, func() EC { return cp.Mult(cp.H, five) })
	case op == "Add":
		f = ec(mki(4, 4).P, func() EC { return cp.Add(P.P, cp.G) })
	case op == "PedCommitR":
		f = ec(mki(5, 5).P, func() EC { return zk.PedCommitR(cp, five, five) })
	case op == "PedCommit":
		f = func() string {
			p, r, err := zk.PedCommit(cp, five)
			if err != nil || !sameEC(p, mk(five, r).P) {
				return "wrong commitment"
			}
			return ""
		}
	case op == "KeyGen":
		f = func() string {
			p, r := zk.KeyGen(cp.C, cp.H)
			if !sameEC(p, mk(new(big.Int), r).P) {
				return "wrong key"
			}
			return ""
		}
	case strings.HasPrefix(op, "prove"):
		k := int(op[5] - '0')
		s := realStmt(k, 0, cp, five, big.NewInt(9), big.NewInt(7), zk.Left)
		f = func() string {
			p, r, err := prove(s)
			if err != nil {
				return err.Error()
			}
			v := s.vpts(func(a, b EC) EC { return secp.Add(a, secp.Neg(b)) })
			if k == kRange {
				v = []EC{mk(five, r).P}
			}
			if !refVerify(secp, cp, k, v, fieldsOf(p)) {
				return "invalid proof"
			}
			return ""
		}
	case strings.HasPrefix(op, "verify"):
		k := int(op[6] - '0')
		s := realStmt(k, 0, cp, five, big.NewInt(9), big.NewInt(7), zk.Left)
		var fl Fields
		var v []EC
		if k == kRange {
			var val, bl BI
			fl, val, bl = refRange(secp, cp, []int{1, 0, 1}, []int{0, 1, 2}, newStream("first"))
			v = []EC{mk(val, bl).P}
		} else {
			fl = refProve(secp, s, newStream("first"))
			v = s.vpts(func(a, b EC) EC { return secp.Add(a, secp.Neg(b)) })
		}
		enc := refEncode(k, fl)
		f = func() string {
			p, err := fromBytes(k, enc)
			if err != nil {
				return err.Error()
			}
			if ok, err := verify(p, cp, v); !ok || err != nil {
				return fmt.Sprint(ok, err)
			}
			return ""
		}
	case op == "decode":
		fl := Fields{[]EC{P.P, P.P}, []BI{five, five}}
		enc := refEncode(kGSPFS, fl)
		f = func() string {
			p, err := fromBytes(kGSPFS, enc)
			if err != nil || !bytes.Equal(p.bytes(), enc) {
				return "wrong decoding"
			}
			return ""
		}
	case op == "codec":
		f = func() string {
			var b bytes.Buffer
			wire.WriteVarInt(&b, 0x12345)
			v, err := wire.ReadVarInt(&b)
			if err != nil || v != 0x12345 {
				return "wrong"
			}
			return ""
		}
	case op == "S256":
		f = func() string {
			if btcec.S256().N.Cmp(sN) != 0 {
				return "wrong"
			}
			return ""
		}
	case op == "ScalarBaseMult":
		f = ec(mki(5, 0).P, xy(func() (BI, BI) { return btcec.S256().ScalarBaseMult([]byte{5}) }))
	case op == "ScalarBaseMultH":
		f = ec(mki(0, 5).P, xy(func() (BI, BI) { return btcec.S256().ScalarBaseMultH([]byte{5}) }))
	case op == "challenge":
		f = func() string { zk.GenerateChallenge(cp, hash); return "" }
	default:
		f = func() string {
			priv, pub := btcec.PrivKeyFromBytes(btcec.S256(), []byte{5})
			if !sameEC(EC{X: pub.X, Y: pub.Y}, mki(5, 0).P) {
				return "wrong key"
			}
			switch op {
			case "Sign", "Verify", "ParseDER":
				s, err := priv.Sign(hash)
				if err != nil || !s.Verify(hash, pub) {
					return "signature"
				}
				t, err := btcec.ParseDERSignature(s.Serialize(), btcec.S256())
				if err != nil || !t.IsEqual(s) {
					return "DER"
				}
			case "SignCompact":
				s, err := btcec.SignCompact(btcec.S256(), priv, hash, true)
				if err != nil {
					return err.Error()
				}
				k, _, err := btcec.RecoverCompact(btcec.S256(), s, hash)
				if err != nil || !k.IsEqual(pub) {
					return "recovery"
				}
			case "Encrypt", "Decrypt":
				ct, err := btcec.Encrypt(pub, hash)
				if err != nil {
					return err.Error()
				}
				m, err := btcec.Decrypt(priv, ct)
				if err != nil || !bytes.Equal(m, hash) {
					return "decryption"
				}
			case "ParsePubKey":
				k, err := btcec.ParsePubKey(pub.SerializeCompressed(), btcec.S256())
				if err != nil || !k.IsEqual(pub) {
					return "parse"
				}
			}
			return ""
		}
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := ""
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			if m := f(); m != "" {
				mu.Lock()
				bad = m
				mu.Unlock()
			}
		}()
	}
	close(start)
	wg.Wait()
	if bad != "" {
		fmt.Println("FIRST-USE wrong result:", bad)
		return 1
	}
	fmt.Println("FIRST-USE ok")
	return 0
}

func c17First(c *Ctx) {
	self, err := os.Executable()
	if err != nil {
		c.Truncate("no path of the own program")
		return
	}
	for _, op := range firstOps {
		if !c.Case("first use of the library: %s in four goroutines at once", op) {
			continue
		}
		cmd := exec.Command(self)
		for _, e := range os.Environ() {
			if !strings.HasPrefix(e, "ZK_SHARD=") {
				cmd.Env = append(cmd.Env, e)
			}
		}
		cmd.Env = append(cmd.Env, "ZK_FIRST="+op, "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
		out, err := cmd.CombinedOutput()
		if err != nil && (strings.Contains(string(out), "DATA RACE") || strings.Contains(string(out), "FIRST-USE wrong") || strings.Contains(string(out), "panic:")) {
			c.Fail("first use of %s in four goroutines: %v\n%s", op, err, clip(string(out), 1500))
		} else if err != nil {
			c.Truncate("first use: " + err.Error())
		}
		c.Add(1, 4, 4)
		c.Outcome("first use without a data race")
		if c.Stop() {
			return
		}
	}
}

func init() {
	ck := &Check{ID: "C17", Level: "model_checking", Schedules: true,
		Rule: "every caller's result is the one it gets alone (deterministic calls) or satisfies the reference equations (provers), under every interleaving explored; no data race is reported",
		Assumptions: []string{
			"interleavings happen at curve operations, random draws and calls of the stream; in between, the free-running race-detector units look for unsynchronized access",
		}}
	add := func(name, bound string, race bool, tier string, run func(*Ctx)) {
		ck.Units = append(ck.Units, Unit{Name: name, Bound: bound, Race: race, Tier: tier, Run: run})
	}
	add("codec: two callers", "{X; Y} || Z for codec calls of all widths, with and without stream faults; every interleaving with one switch back and forth (thorough: two)", false, "", func(c *Ctx) {
		d := 1
		if c.Thorough {
			d = 2
		}
		c17Codec(c, d)
	})
	add("codec: three callers", "X || Y || Z, one deviation", false, "", c17Codec3)
	add("calls: two callers", "all pairs of provers, verifiers and point operations on shared parameters over the model group; 4 policies, up to two deviations of one of them (thorough: two)", false, "", c17Calls)
	raceUnit := Unit{Name: "race: pairs on the model group", Bound: "all pairs of representative zksigma calls on shared values, running freely", Race: true, Run: func(c *Ctx) { c17Race(c, c15ZnEnv, zkOps, 1) }}
	ck.Units = append(ck.Units, raceUnit)
	add("race: pairs on secp256k1", "pairs of representative btcec calls on shared values, running freely", true, "", func(c *Ctx) {
		c17Race(c, c15SecpEnv, btcOps, 1)
	})
	add("calls: two parameter sets", "provers, verifiers and point operations of the same kind on two parameter sets at once: another H, another curve", false, "", c17OtherParams)
	add("race: two parameter sets, model group", "representative zksigma calls next to the same call on other parameters, running freely", true, "", func(c *Ctx) { c17RaceOther(c, c15ZnEnv, c15ZnEnv2, zkOps) })
	add("race: two parameter sets, secp256k1", "the same on secp256k1, with the generators swapped", true, "", func(c *Ctx) { c17RaceOther(c, c15SecpEnv, c15SecpEnv2, zkOps) })
	add("race: first use", "35 calls, each the first use in a process, in four goroutines", true, "", c17First)
	register(ck)
}
