package zkmc

import (
	"crypto/sha256"
	"fmt"
	"math/big"

	zk "github.com/mit-dci/zksigma"
)

// challengeOf recomputes the challenge of a proof from its statement and commitments, and
// names the scalar fields that must hold it.
func checkChallenge(c *Ctx, g Group, s Stmt, v []EC, f Fields) {
	N := g.Order()
	cmp := func(what string, got, want BI) {
		if got.Cmp(want) != 0 {
			c.Fail("%s challenge is %s, the hash of statement and commitments is %s (%s)", what, got.Text(16), want.Text(16), s)
		}
	}
	switch s.kind {
	case kGSPFS:
		if !sameEC(f.P[0], s.pts[0]) {
			c.Fail("the proof names another base")
		}
		cmp("gspfs", f.S[1], hashPts(N, s.pts[0], v[0], f.P[1]))
	case kEquiv:
		cmp("equivalence", f.S[0], hashPts(N, v[0], v[1], v[2], v[3], f.P[0], f.P[1]))
	case kDisj:
		cmp("disjunctive", f.S[0], hashPts(N, v[0], v[1], v[2], v[3], f.P[0], f.P[1]))
	case kCons:
		cmp("consistency", f.S[0], hashPts(N, s.cp.G, s.cp.H, v[0], v[1], v[2], f.P[0], f.P[1]))
	case kABC, kIneq:
		cmp("abc", f.S[0], hashPts(N, s.cp.G, s.cp.H, v[0], v[1], f.P[0], f.P[1], f.P[2], f.P[3]))
		cmp("embedded disjunctive", f.S[4], hashPts(N, v[0], v[1], s.cp.H, g.Add(f.P[1], g.Neg(s.cp.G)), f.P[5], f.P[6]))
	}
	if !c.Failed() && !refVerify(g, s.cp, s.kind, v, f) {
		c.Fail("an independent verifier rejects the library's proof (%s, proof %s)", s, f)
	}
}

// c07Both: library prover against reference verifier and reference prover against library verifier.
func c07Both(c *Ctx, g Group, s Stmt, label string) {
	v := s.vpts(func(a, b EC) EC { return g.Add(a, g.Neg(b)) })
	c.Guard("prove", func() {
		var p Proof
		var err error
		withRand(newStream(label), func() { p, _, err = prove(s) })
		if err != nil {
			c.Fail("prover refused a true statement: %v (%s)", err, s)
			return
		}
		checkChallenge(c, g, s, v, fieldsOf(p))
		c.Outcome("library proof, reference verifier")
	})
	f := refProve(g, s, newStream(label+" ref"))
	if !refVerify(g, s.cp, s.kind, v, f) {
		c.Fail("harness: reference prover and verifier disagree (%s)", s)
		return
	}
	p, err := build(s.kind, f)
	if err != nil {
		c.Fail("decoder rejects a proof: %v", err)
		return
	}
	verdict(c, p, s.cp, v, true, func() string { return "a proof by an independent implementation of " + s.String() })
	c.Add(2, 2, 2)
	// every public input changed, one at a time, to every other public point of the statement and
	// to neighbours: the challenge has to change, so the proof is void
	all := append(append([]EC{s.cp.G, s.cp.H}, v...), f.P...)
	reject := func(what string, cp CP, v []EC, f Fields) {
		q, err := build(s.kind, f)
		if err != nil {
			return
		}
		want := refVerify(g, cp, s.kind, v, f)
		verdict(c, q, cp, v, want, func() string { return what + " of " + s.String() })
		c.Add(1, 1, 1)
	}
	for i := range v {
		for k, q := range all {
			if sameEC(q, v[i]) {
				continue
			}
			w := append([]EC(nil), v...)
			w[i] = q
			reject(fmt.Sprintf("statement point %d replaced by point %d", i, k), s.cp, w, f)
		}
	}
	for i := range f.P {
		for k, q := range all {
			if sameEC(q, f.P[i]) || (s.kind == kABC || s.kind == kIneq) && i == 4 {
				continue
			}
			w := Fields{append([]EC(nil), f.P...), f.S}
			w.P[i] = q
			reject(fmt.Sprintf("proof point %d replaced by point %d", i, k), s.cp, v, w)
		}
	}
	if s.kind == kCons || s.kind == kABC || s.kind == kIneq {
		for _, q := range all {
			if sameEC(q, s.cp.H) {
				continue
			}
			cp := s.cp
			cp.H = q
			reject("another H", cp, v, f)
		}
	}
}

func c07Scalars() []BI {
	return []BI{big.NewInt(0), big.NewInt(1), big.NewInt(2), big.NewInt(9), big.NewInt(-1), pow2(60), new(big.Int).SetUint64(znN - 1), hexInt("123456789abcdef"), hexInt("fedcba9876543")}
}

func c07Zn(c *Ctx, kind int) {
	z := newZn(znN)
	g := znGroup{z}
	sc := c07Scalars()
	for _, h := range []uint64{2, 0x1234567890abcd, znN - 1, 1} {
		for xi, x := range sc {
			for yi, y := range sc {
				for wi, w := range sc {
					if kind != kCons && kind < kABC && wi > 0 {
						break
					}
					if !c.Case("%s model group h=%d scalars %v %v %v", kindName[kind], h, x, y, w) {
						continue
					}
					for side := zk.Left; side <= zk.Right; side++ {
						if side == zk.Right && kind != kDisj {
							break
						}
						c07Both(c, g, znStmt(z, kind, h, x, y, w, side), fmt.Sprintf("c07 %d %d %d %d %d", kind, h, xi, yi, wi))
					}
					if c.Stop() {
						return
					}
				}
			}
		}
	}
}

func c07Secp(c *Ctx, kind int) {
	xs := []BI{big.NewInt(0), big.NewInt(1), big.NewInt(7), new(big.Int).Sub(sN, one), hexInt("123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef1")}
	if c.Thorough {
		xs = scalarAlphabet(false)
	}
	for pi, cp := range realParams() {
		for xi, x := range xs {
			if !c.Case("%s secp256k1 params %d x=%s", kindName[kind], pi, x.Text(16)) {
				continue
			}
			y := xs[(xi+1)%len(xs)]
			for side := zk.Left; side <= zk.Right; side++ {
				if side == zk.Right && kind != kDisj {
					break
				}
				c07Both(c, secpGroup{}, realStmt(kind, pi, cp, x, y, big.NewInt(5), side), fmt.Sprintf("c07s %d %d %d", kind, pi, xi))
				c.Alive()
			}
			if c.Stop() {
				return
			}
		}
	}
}

// c07Toy: the library's challenges for every statement of small groups, several draws.
func c07Toy(c *Ctx, n int) {
	t := GetToy(n)
	n = t.N
	g := toyGroup{t}
	run := func(s Stmt) {
		for d := 0; d < n; d++ {
			r := &choiceReader{rest: int64(d), choices: []int{d, (d + 1) % n, (2*d + 1) % n}}
			c.Guard("prove", func() {
				var p Proof
				var err error
				withRand(r, func() { p, _, err = prove(s) })
				if err != nil {
					c.Fail("prover refused a true statement: %v (%s)", err, s)
					return
				}
				v := s.vpts(func(a, b EC) EC { return g.Add(a, g.Neg(b)) })
				checkChallenge(c, g, s, v, fieldsOf(p))
			})
			c.Add(1, 1, 1)
		}
	}
	tuple(n, 4, func(x []int) bool {
		if !c.Case("N=%d, all proof kinds for %v", n, x) {
			return !c.Stop()
		}
		h := 1 + x[3]%(n-1)
		cp := t.CP(h, 0)
		P := t.Pts
		run(Stmt{kGSPFS, cp, []EC{P[x[0]], P[x[0]*x[1]%n]}, []BI{bi(x[1])}, 1})
		run(Stmt{kEquiv, cp, []EC{P[x[0]], P[x[0]*x[2]%n], P[x[1]], P[x[1]*x[2]%n]}, []BI{bi(x[2])}, 0})
		run(Stmt{kDisj, cp, []EC{P[x[0]], P[x[0]*x[2]%n], P[x[1]], P[x[3]]}, []BI{bi(x[2])}, zk.Left})
		run(Stmt{kDisj, cp, []EC{P[x[0]], P[x[3]], P[x[1]], P[x[1]*x[2]%n]}, []BI{bi(x[2])}, zk.Right})
		v, r, sk := x[0], x[1], x[2]
		run(Stmt{kCons, cp, []EC{P[(v+r*h)%n], P[r*sk%n], P[sk]}, []BI{bi(v), bi(r)}, 0})
		if sk > 0 {
			side := zk.Right
			if v == 0 {
				side = zk.Left
			}
			run(Stmt{kABC, cp, []EC{P[(v+r*h)%n], P[r*sk*h%n]}, []BI{bi(v), bi(sk)}, side})
		}
		return !c.Stop()
	})
}

// c07Hash: the generic challenge function on every split of byte strings.
func c07Hash(c *Ctx) {
	z := newZn(znN)
	cps := []CP{zk.TestCurve, z.CP(3, 0), GetToy(3).CP(1, 0), GetToy(31).CP(2, 0)}
	max := 200
	if c.Thorough {
		max = 600
	}
	for ln := 0; ln <= max; ln++ {
		if !c.Case("GenerateChallenge on %d bytes, all splits in up to three parts", ln) {
			continue
		}
		b := make([]byte, ln)
		newStream(fmt.Sprintf("hash %d", ln)).Read(b)
		sum := sha256.Sum256(b)
		for _, cp := range cps {
			want := new(big.Int).SetBytes(sum[:])
			want.Mod(want, cp.C.Params().N)
			try := func(parts ...[]byte) {
				c.Guard("GenerateChallenge", func() {
					if got := zk.GenerateChallenge(cp, parts...); got.Cmp(want) != 0 {
						c.Fail("GenerateChallenge of %x in %d parts is %s, want %s", b, len(parts), got.Text(16), want.Text(16))
					}
				})
				c.Add(1, 1, 1)
			}
			try(b)
			if ln == 0 {
				try()
				try(nil)
				try(nil, []byte{}, nil)
			}
			for i := 0; i <= ln; i++ {
				try(b[:i], b[i:])
				if ln <= 70 {
					for j := i; j <= ln; j++ {
						try(b[:i], b[i:j], b[j:])
					}
				}
			}
			one := make([][]byte, ln)
			for i := range one {
				one[i] = b[i : i+1]
			}
			try(one...)
		}
		if c.Stop() {
			return
		}
	}
}

// c07Range: range proofs in both directions.
func c07Range(c *Ctx) {
	z := newZn(znN)
	vals := rangeValues(1, 8)
	for vi, v := range vals {
		if !c.Case("range proofs of %d in both directions", v) {
			continue
		}
		run := func(g Group, cp CP) {
			c.Guard("range", func() {
				var p *zk.RangeProof
				var err error
				withRand(newStream(fmt.Sprintf("c07r %d", v)), func() { p, _, err = zk.NewRangeProof(cp, new(big.Int).SetUint64(v)) })
				if err != nil {
					c.Fail("range prover: %v", err)
					return
				}
				if !refVerify(g, cp, kRange, []EC{p.ProofAggregate}, fieldsOf(Proof{kind: kRange, r: p})) {
					c.Fail("an independent verifier rejects the library's range proof of %d", v)
					return
				}
				digits, pos := make([]int, 40), make([]int, 40)
				for i := range digits {
					digits[i], pos[i] = int(v>>uint(i)&1), i
				}
				f, _, _ := refRange(g, cp, digits, pos, newStream(fmt.Sprintf("c07rr %d", v)))
				q, err := build(kRange, f)
				if err != nil {
					c.Fail("decoder: %v", err)
					return
				}
				verdict(c, q, cp, []EC{f.P[0]}, true, func() string { return "range proof by an independent implementation" })
			})
			c.Add(2, 2, 2)
		}
		run(znGroup{z}, z.CP(0x1234567890abcd, 64))
		if vi%8 == 0 || c.Thorough {
			run(secpGroup{}, zk.TestCurve)
		}
		if c.Stop() {
			return
		}
	}
}

func init() {
	ck := &Check{ID: "C07", Level: "model_checking",
		Rule:        "state = one (parameters, statement, witness, draws, proof variant): the library's challenge must be the reference hash, an independent verifier must accept the library's proof, the library must accept an independent prover's proof, and changing any hashed input must void it exactly as the specification says",
		Assumptions: []string{"the transcript (order of inputs, SHA-256, reduction) is the one the code documents in its verifier comments and implements at the pinned commit plus the base in GSPFS"}}
	add := func(name, tier, bound string, run func(*Ctx)) {
		ck.Units = append(ck.Units, Unit{Name: name, Tier: tier, Bound: bound, Run: run})
	}
	for k := kGSPFS; k <= kIneq; k++ {
		k := k
		add("model-group-"+kindName[k], "", "9 boundary scalars in every role x 4 choices of H; every public point replaced by every other", func(c *Ctx) { c07Zn(c, k) })
		add("secp-"+kindName[k], "", "boundary scalars x three parameter sets; every public point replaced by every other", func(c *Ctx) { c07Secp(c, k) })
	}
	add("toy-5", "", "all statements of the group of order 5, 5 draw patterns each", func(c *Ctx) { c07Toy(c, 5) })
	add("toy-11", "", "all statements of the group of order 11", func(c *Ctx) { c07Toy(c, 11) })
	add("hash", "", "GenerateChallenge: byte strings of length 0..200 (600), every split in two, up to 70 bytes in three, and bytewise, four group orders", c07Hash)
	add("range", "", "range proofs of boundary values in both directions", c07Range)
	stdUnits(ck, "std-", "statements of every kind, both directions, every public point replaced by every other,", stdBoth)
	register(ck)
}
