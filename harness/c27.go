package zkmc

import (
	"errors"
	"fmt"
	"math/big"

	zk "github.com/mit-dci/zksigma"
)

// absent: what came instead of a proof must be rejected for the given points, with an error.
func absent(c *Ctx, p Proof, cp CP, v []EC, what func() string) {
	c.Guard("verifier", func() {
		ok, err := verify(p, cp, v)
		if ok || err == nil {
			c.Fail("verdict (%v, %v) on %s", ok, err, what())
		}
	})
	if p.isNil() {
		c.Outcome("nil rejected")
	} else {
		c.Outcome("empty proof rejected")
	}
	c.Add(1, 1, 1)
}

func emptyProof(kind int) Proof {
	p := Proof{kind: kind}
	switch kind {
	case kGSPFS:
		p.g = &zk.GSPFSProof{}
	case kEquiv:
		p.e = &zk.EquivalenceProof{}
	case kDisj:
		p.d = &zk.DisjunctiveProof{}
	case kCons:
		p.c = &zk.ConsistencyProof{}
	case kABC:
		p.a = &zk.ABCProof{}
	case kIneq:
		p.i = &zk.InequalityProof{}
	case kRange:
		p.r = &zk.RangeProof{}
	}
	return p
}

// vLen is the number of points a verifier takes, pLen and wLen what a prover takes.
var vLen = []int{kGSPFS: 1, kEquiv: 4, kDisj: 4, kCons: 3, kABC: 2, kIneq: 2, kRange: 1}
var pLen = []int{kGSPFS: 2, kEquiv: 4, kDisj: 4, kCons: 3, kABC: 2, kIneq: 4, kRange: 0}
var wLen = []int{kGSPFS: 1, kEquiv: 1, kDisj: 1, kCons: 2, kABC: 2, kIneq: 3, kRange: 1}

// c27Nil: nil and empty proofs for every tuple of public points.
func c27Nil(c *Ctx, kind, n int) {
	t := GetToy(n)
	n = t.N
	for h := 0; h < n; h++ {
		cp := t.CP(h, 40)
		if !c.Case("%s N=%d H=%d: nil and empty proofs for all points", kindName[kind], n, h) {
			continue
		}
		tuple(n, vLen[kind], func(x []int) bool {
			var v []EC
			for _, i := range x {
				v = append(v, t.Pts[i])
			}
			absent(c, Proof{kind: kind}, cp, v, func() string { return fmt.Sprintf("a nil proof, points %v", x) })
			absent(c, emptyProof(kind), cp, v, func() string { return fmt.Sprintf("an empty proof, points %v", x) })
			return !c.Failed()
		})
		if c.Stop() {
			return
		}
	}
}

// shell judges what a prover returned: with an error nothing that verifies, for the statement
// itself or for any of the other points.
func shell(c *Ctx, s Stmt, p Proof, err error, vs [][]EC) {
	if err == nil {
		if p.isNil() {
			c.Fail("neither proof nor error (%s)", s)
		}
		c.Outcome("proof")
		return
	}
	p.kind = s.kind
	for _, v := range vs {
		absent(c, p, s.cp, v, func() string { return fmt.Sprintf("what the prover returned with the error %q for %s", err, s) })
		if c.Failed() {
			return
		}
	}
}

// c27Refused: every call of a prover over a small group, with every side.
func c27Refused(c *Ctx, kind, n int) {
	t := GetToy(n)
	n = t.N
	g := toyGroup{t}
	sides := []zk.Side{zk.Left}
	if kind == kDisj || kind == kABC {
		sides = []zk.Side{zk.Left, zk.Right, 2, -1}
	}
	var vals []BI
	for i := 0; i < n; i++ {
		vals = append(vals, big.NewInt(int64(i)))
	}
	vals = append(vals, big.NewInt(-1), big.NewInt(int64(n)))
	for _, h := range []int{2 % n, n - 1} {
		cp := t.CP(h, 40)
		tuple(n, pLen[kind], func(x []int) bool {
			if !c.Case("%s N=%d H=%d points %v, all witnesses and sides", kindName[kind], n, h, x) {
				return !c.Stop()
			}
			var pts []EC
			for _, i := range x {
				pts = append(pts, t.Pts[i])
			}
			tuple(len(vals), wLen[kind], func(y []int) bool {
				var wit []BI
				for _, i := range y {
					wit = append(wit, vals[i])
				}
				for _, side := range sides {
					s := Stmt{kind, cp, pts, wit, side}
					c.Guard("prover", func() {
						var p Proof
						var err error
						withRand(&choiceReader{rest: 1, choices: []int{1, 2 % n, 0, n - 1}}, func() { p, _, err = prove(s) })
						v := s.vpts(func(a, b EC) EC { return g.Add(a, g.Neg(b)) })
						inf := make([]EC, len(v))
						for i := range inf {
							inf[i] = t.Pts[0]
						}
						shell(c, s, p, err, [][]EC{v, inf})
					})
				}
				return !c.Failed() && !c.Tick()
			})
			return !c.Stop()
		})
	}
}

// c27Faults: true statements, the random source failing at each of its reads.
func c27Faults(c *Ctx, name string, g Group, stmts []Stmt) {
	for _, s := range stmts {
		if !c.Case("%s, %s: the random source fails at every byte", name, kindName[s.kind]) {
			continue
		}
		c.Guard("prover", func() {
			for at := 0; ; at++ {
				r := &chunkReader{src: newStream("c27"), at: at, count: -1, err: errors.New("no randomness")}
				var p Proof
				var err error
				withRand(r, func() { p, _, err = prove(s) })
				if r.hits == 0 {
					break
				}
				if err == nil {
					return // judged by C09
				}
				v := s.vpts(func(a, b EC) EC { return g.Add(a, g.Neg(b)) })
				if s.kind == kRange {
					v = []EC{g.Mul(s.cp.G, s.wit[0])}
				}
				shell(c, s, p, err, [][]EC{v})
				if c.Failed() || c.Tick() {
					return
				}
				if s.kind == kRange && at > 4 {
					at += 31
				}
			}
		})
		if c.Stop() {
			return
		}
	}
}

// c27Decoders: what the decoders return next to an error.
func c27Decoders(c *Ctx, hs []*hostileCtx) {
	for _, h := range hs {
		b := h.bytes
		for n := 0; n < len(b); n++ {
			if !c.Case("%s cut to %d of %d bytes; the byte at the end takes all values", kindName[h.kind], n, len(b)) {
				continue
			}
			c.Guard("decoder", func() {
				for k := -1; k < 256; k++ {
					in := b[:n:n]
					if k >= 0 {
						in = append(in, byte(k))
					}
					p, err := fromBytes(h.kind, in)
					c.Add(1, 1, 0)
					if err == nil {
						c.Outcome("decoded")
						continue
					}
					absent(c, p, h.cp, h.v, func() string { return fmt.Sprintf("what the decoder returned with the error %q for %x", err, in) })
					if c.Failed() {
						return
					}
				}
			})
			if c.Stop() {
				return
			}
		}
	}
}

// c27Partial: proofs with some fields missing are never accepted (they may stop the verifier).
func c27Partial(c *Ctx, h *hostileCtx) {
	full := mustBuild(h)
	slots := partSlots(full)
	n := len(slots)
	for m := 1; m < 1<<uint(n); m++ {
		if !c.Case("%s without the fields %b", kindName[h.kind], m) {
			continue
		}
		p := mustBuild(h)
		sl := partSlots(p)
		for i := range sl {
			if m>>uint(i)&1 == 1 {
				sl[i]()
			}
		}
		func() {
			defer func() {
				if recover() != nil {
					c.Outcome("stopped the verifier (not judged)")
				}
			}()
			if ok, err := verify(p, h.cp, h.v); ok || err == nil {
				c.Fail("%s proof without the fields %b: verdict (%v, %v)", kindName[h.kind], m, ok, err)
			}
			c.Outcome("incomplete proof rejected")
		}()
		c.Add(1, 1, 1)
		if c.Stop() {
			return
		}
	}
}

// partSlots lists functions that remove one field each, as far as the fields are exported and verified.
func partSlots(p Proof) (l []func()) {
	pt := func(ps ...*EC) {
		for _, q := range ps {
			q := q
			l = append(l, func() { q.X = nil }, func() { q.Y = nil })
		}
	}
	sc := func(ss ...*BI) {
		for _, s := range ss {
			s := s
			l = append(l, func() { *s = nil })
		}
	}
	switch p.kind {
	case kGSPFS:
		pt(&p.g.Base, &p.g.RandCommit)
		sc(&p.g.HiddenValue, &p.g.Challenge)
	case kEquiv:
		pt(&p.e.UG, &p.e.UH)
		sc(&p.e.Challenge, &p.e.HiddenValue)
	case kDisj:
		pt(&p.d.T1, &p.d.T2)
		sc(&p.d.C, &p.d.C1, &p.d.C2, &p.d.S1, &p.d.S2)
	case kCons:
		pt(&p.c.T1, &p.c.T2)
		sc(&p.c.Challenge, &p.c.S1, &p.c.S2)
	case kABC:
		pt(&p.a.B, &p.a.C, &p.a.T1, &p.a.T2)
		sc(&p.a.Challenge)
	case kIneq:
		pt(&p.i.B, &p.i.C, &p.i.T1, &p.i.T2)
		sc(&p.i.Challenge)
	case kRange:
		pt(&p.r.ProofAggregate)
		sc(&p.r.ProofE)
		for i := range p.r.ProofTuples {
			pt(&p.r.ProofTuples[i].C)
			sc(&p.r.ProofTuples[i].S)
		}
	}
	return
}

func init() {
	ck := &Check{ID: "C27", Level: "model_checking",
		Rule:        "state = a verifier call on something that is no proof: nil, an empty proof, what a prover or decoder returned next to an error, a proof with missing fields; the verdict must be (false, error)",
		Assumptions: []string{"a caller-made proof with some fields missing may stop a verifier with a nil dereference; it may not be accepted", "the audit token of ABC proofs is not verified, so a proof without it is not judged"}}
	add := func(name, tier, bound string, run func(*Ctx)) {
		ck.Units = append(ck.Units, Unit{Name: name, Tier: tier, Bound: bound, Run: run})
	}
	for k := kGSPFS; k <= kRange; k++ {
		k := k
		n, r := 5, 5
		if vLen[k] == 1 {
			n, r = 11, 11
		}
		if k == kIneq || k == kDisj {
			r = 3
		}
		if k == kRange {
			// challenges of a tiny group are 0 now and then, which the range prover does not survive
			add("refused-range", "", "values outside the range on the model group and on secp256k1", func(c *Ctx) {
				z := newZn(znN)
				for i, cp := range []CP{z.CP(9, 64), zk.TestCurve, realParams()[3]} {
					for _, v := range []BI{big.NewInt(-1), pow2(40), new(big.Int).Add(pow2(40), one), new(big.Int).Sub(pow2(64), one), pow2(64), new(big.Int).Add(pow2(64), one), pow2(300), new(big.Int).Neg(pow2(40)), new(big.Int).Neg(pow2(63)), sN, new(big.Int).Sub(sN, one), cp.C.Params().N} {
						if !c.Case("range proof of %d, parameters %d", v, i) {
							continue
						}
						s := Stmt{kRange, cp, nil, []BI{v}, 0}
						c.Guard("prover", func() {
							p, _, err := prove(s)
							inf := EC{X: new(big.Int), Y: new(big.Int)}
							shell(c, s, p, err, [][]EC{{inf}, {cp.G}, {cp.H}})
						})
					}
				}
			})
			add("nil-range", "", "all commitments and all H over the group of order 11, nil and empty proof", func(c *Ctx) { c27Nil(c, k, 11) })
		} else {
			add("nil-"+kindName[k], "", fmt.Sprintf("all public points and all H over the group of order %d, nil and empty proof", n), func(c *Ctx) { c27Nil(c, k, n) })
			add("refused-"+kindName[k], "", fmt.Sprintf("all calls of the prover over the group of order %d, also with witnesses -1 and N and sides 2 and -1", r), func(c *Ctx) { c27Refused(c, k, r) })
			add("large-"+kindName[k], "thorough", "the same over the next larger group", func(c *Ctx) { c27Nil(c, k, 7); c27Refused(c, k, r+2) })
		}
		add("partial-"+kindName[k], "", "a valid proof without each subset of its fields", func(c *Ctx) { c27Partial(c, hostileZn(k, 2)) })
		add("secp-"+kindName[k], "", "nil and empty proofs, failing random source, truncated encodings on secp256k1", func(c *Ctx) {
			cp := zk.TestCurve
			inf := EC{X: new(big.Int), Y: new(big.Int)}
			if c.Case("nil and empty proofs") {
				tuple(3, vLen[k], func(x []int) bool {
					var v []EC
					for _, i := range x {
						v = append(v, []EC{inf, cp.G, cp.H}[i])
					}
					absent(c, Proof{kind: k}, cp, v, func() string { return "a nil proof" })
					absent(c, emptyProof(k), cp, v, func() string { return "an empty proof" })
					return !c.Failed()
				})
			}
			c27Faults(c, "secp256k1", secp, []Stmt{realStmt(k, 0, cp, big.NewInt(77), big.NewInt(12), big.NewInt(9), zk.Left), realStmt(k, 3, realParams()[3], big.NewInt(77), big.NewInt(12), big.NewInt(9), zk.Right)})
			c27Decoders(c, []*hostileCtx{hostileSecp(k, 2)})
		})
	}
	register(ck)
}
