package zkmc

import (
	"encoding/binary"
	"fmt"
	"math/big"

	zk "github.com/mit-dci/zksigma"
)

// proofKey packs a proof over a toy group into a number; ok is false if a scalar is not in [0,N)
// or a point is outside the group. The audit token of abc proofs is left out.
func proofKey(t *Toy, f Fields) (key uint64, ok bool) {
	for i, p := range f.P {
		if len(f.P) == 7 && i == 4 {
			continue
		}
		l := t.Log(p)
		if l < 0 {
			return 0, false
		}
		key = key*uint64(t.N) + uint64(l)
	}
	for _, s := range f.S {
		if s.Sign() < 0 || s.Cmp(t.params.N) >= 0 {
			return 0, false
		}
		key = key*uint64(t.N) + s.Uint64()
	}
	return key, true
}

// distribution runs the prover over all draw sequences and returns proof -> weight, all weights
// scaled to draw sequences of the same length.
func distribution(c *Ctx, t *Toy, s Stmt) map[uint64]float64 {
	m := map[uint64]float64{}
	var runs int64
	total := 0.0
	runs = forDraws(t.N, 16, func(r *choiceReader) {
		if c.Failed() {
			return
		}
		c.Guard("prover", func() {
			p, _, err := prove(s)
			if err != nil {
				c.Fail("prover refused a true statement: %v (%s)", err, s)
				return
			}
			f := fieldsOf(p)
			k, ok := proofKey(t, f)
			if !ok {
				c.Fail("a scalar of the proof is not reduced to [0,N), or a point is not in the group: %s proof %s", s, f)
				return
			}
			w := 1.0
			for i := 0; i < r.n; i++ {
				w /= float64(t.N)
			}
			m[k] += w
			total += w
		})
	}, func() bool { return c.Failed() || c.Tick() })
	c.Add(runs, runs, runs)
	if !c.Failed() && !c.stopped && (total < 0.999999 || total > 1.000001) {
		c.Fail("harness: draw weights add up to %v", total)
	}
	return m
}

func sameDist(a, b map[uint64]float64) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		d := v - b[k]
		if d > 1e-9 || d < -1e-9 {
			return false
		}
	}
	return true
}

// c08Same checks that all witnesses of a statement give the same distribution, and that it is
// the uniform one on the given number of accepted proofs.
func c08Same(c *Ctx, t *Toy, ss []Stmt, size int, accepted func(key uint64) bool) {
	var first map[uint64]float64
	for i, s := range ss {
		m := distribution(c, t, s)
		if c.Failed() || c.stopped {
			return
		}
		if i == 0 {
			first = m
			if len(m) != size {
				c.Fail("%d different proofs over all draws, %d are valid for the statement: the proofs that do not come out depend on the witness (%s)", len(m), size, s)
				return
			}
			for k, w := range m {
				d := w*float64(size) - 1
				if d > 1e-6 || d < -1e-6 {
					c.Fail("proof %d comes out with probability %v instead of 1/%d (%s)", k, w, size, s)
					return
				}
				if accepted != nil && !accepted(k) {
					c.Fail("proof %d is not one of the valid proofs of the statement (%s)", k, s)
					return
				}
			}
		} else if !sameDist(first, m) {
			c.Fail("the proofs' distribution differs between two witnesses of one statement: %s and %s", ss[0], s)
			return
		}
	}
	c.Outcome(fmt.Sprintf("%s: %d witnesses, same distribution", kindName[ss[0].kind], len(ss)))
}

func pw(n, k int) int {
	r := 1
	for i := 0; i < k; i++ {
		r *= n
	}
	return r
}

func c08Toy(c *Ctx, kind, n int) {
	t := GetToy(n)
	n = t.N
	P := t.Pts
	reps := func(x int) []BI { return []BI{bi(x), big.NewInt(int64(x - n)), big.NewInt(int64(x + 2*n))} }
	switch kind {
	case kGSPFS:
		cp := t.CP(2%n, 0)
		for b := 1; b < n; b++ {
			for x := 0; x < n; x++ {
				if !c.Case("gspfs N=%d base %d x=%d: distribution over all draws", n, b, x) {
					continue
				}
				var ss []Stmt
				for _, w := range reps(x) {
					ss = append(ss, Stmt{kGSPFS, cp, []EC{P[b], P[b*x%n]}, []BI{w}, 1})
				}
				c08Same(c, t, ss, n, nil)
			}
		}
	case kEquiv:
		cp := t.CP(2%n, 0)
		for b1 := 1; b1 < n; b1++ {
			for b2 := 1; b2 < n; b2++ {
				for x := 0; x < n; x++ {
					if !c.Case("equivalence N=%d bases %d,%d x=%d: distribution over all draws", n, b1, b2, x) {
						continue
					}
					var ss []Stmt
					for _, w := range reps(x) {
						ss = append(ss, Stmt{kEquiv, cp, []EC{P[b1], P[b1*x%n], P[b2], P[b2*x%n]}, []BI{w}, 0})
					}
					c08Same(c, t, ss, n, nil)
				}
			}
		}
	case kDisj:
		cp := t.CP(2%n, 0)
		for b1 := 1; b1 < n; b1++ {
			for b2 := 1; b2 < n; b2++ {
				for x := 0; x < n; x++ {
					for y := 0; y < n; y++ {
						if !c.Case("disjunctive N=%d bases %d,%d x=%d y=%d: both sides, distribution over all draws", n, b1, b2, x, y) {
							continue
						}
						pts := []EC{P[b1], P[b1*x%n], P[b2], P[b2*y%n]}
						ss := []Stmt{{kDisj, cp, pts, []BI{bi(x)}, zk.Left}, {kDisj, cp, pts, []BI{bi(y)}, zk.Right},
							{kDisj, cp, pts, []BI{big.NewInt(int64(x - n))}, zk.Left}, {kDisj, cp, pts, []BI{big.NewInt(int64(y + n))}, zk.Right}}
						c08Same(c, t, ss, n*n*n, nil)
						if c.Stop() {
							return
						}
					}
				}
			}
		}
	case kCons:
		for h := 1; h < n; h++ {
			cp := t.CP(h, 0)
			for pk := 1; pk < n; pk++ {
				for v := 0; v < n; v++ {
					for r := 0; r < n; r++ {
						if !c.Case("consistency N=%d H=%d PK=%d v=%d r=%d: distribution over all draws", n, h, pk, v, r) {
							continue
						}
						pts := []EC{P[(v+r*h)%n], P[r*pk%n], P[pk]}
						c08Same(c, t, []Stmt{{kCons, cp, pts, []BI{bi(v), bi(r)}, 0}, {kCons, cp, pts, []BI{big.NewInt(int64(v - n)), big.NewInt(int64(r - 2*n))}, 0}}, n*n, nil)
						if c.Stop() {
							return
						}
					}
				}
			}
		}
	case kABC, kIneq:
		for h := 1; h < n; h++ {
			if n > 3 && h > 1 && !c.Thorough {
				break
			}
			cp := t.CP(h, 0)
			for cm := 1; cm < n; cm++ {
				for tok := 0; tok < n; tok++ {
					if n > 3 && (cm > 2 || tok > 1) && !c.Thorough {
						continue
					}
					if !c.Case("%s N=%d H=%d CM=%d Tok=%d: all witnesses on both sides, distribution over all draws", kindName[kind], n, h, cm, tok) {
						continue
					}
					var ss []Stmt
					for v := 0; v < n; v++ {
						r := md((cm-v)*t.inv(h), n)
						for sk := 1; sk < n; sk++ {
							if r*sk*h%n != tok {
								continue
							}
							side := zk.Right
							if v == 0 {
								side = zk.Left
							}
							if kind == kABC {
								ss = append(ss, Stmt{kABC, cp, []EC{P[cm], P[tok]}, []BI{bi(v), bi(sk)}, side})
							} else if v != 0 {
								b, rb := (v+1)%n, 1
								pk := sk * h % n
								ss = append(ss, Stmt{kIneq, cp, []EC{P[(cm+b+rb*h)%n], P[(b+rb*h)%n], P[(tok+rb*pk)%n], P[rb*pk%n]}, []BI{bi((v + b) % n), bi(b), bi(sk)}, 0})
							}
						}
					}
					if len(ss) == 0 {
						continue
					}
					if n > 3 && len(ss) > 3 && !c.Thorough {
						ss = append(ss[:1:1], ss[len(ss)-2:]...)
					}
					c08Same(c, t, ss, pw(n, 8), nil)
					if c.Stop() {
						return
					}
				}
			}
		}
	}
}

// nonces collects recovered masks by role.
type nonces struct {
	role map[string][]BI
	seen map[string]string
	c    *Ctx
}

func (n *nonces) add(role string, v BI) {
	v = mN(v)
	n.role[role] = append(n.role[role], v)
	k := v.Text(62)
	if v.BitLen() > 0 {
		if o, dup := n.seen[k]; dup {
			n.c.Fail("nonce %s of %s was used before, in %s", v.Text(16), role, o)
		}
		n.seen[k] = fmt.Sprintf("%s #%d", role, len(n.role[role]))
	}
}

// full checks that the masks of each role fill the whole range.
func (n *nonces) full() {
	for role, l := range n.role {
		for bit := 0; bit < 256; bit++ {
			var cnt uint
			for _, v := range l {
				cnt += v.Bit(bit)
			}
			if cnt == 0 && !(bit == 255 && len(l) < 40) || int(cnt) == len(l) && bit != 255 {
				// the top bit of numbers below N is one half the time as well
				n.c.Fail("bit %d of the masks %q is the same in all %d runs: not a uniform draw below N", bit, role, len(l))
				return
			}
		}
	}
}

// c08Masks recovers every mask of every proof on a group of order N = secp256k1's with readable
// logs: masks are fresh, pairwise different, and fill the range.
func c08Masks(c *Ctx) {
	z := newZb(sN)
	h := hexInt("31415926535897932384626433832795028841971693993751058209749445923")
	cp := z.CP(h, 64)
	g := zbGroup{z}
	ih := new(big.Int).ModInverse(mN(h), sN)
	mul := func(a, b BI) BI { return mN(new(big.Int).Mul(a, b)) }
	sub := func(a, b BI) BI { return mN(new(big.Int).Sub(a, b)) }
	P := func(k BI) EC { return z.pt(k) }
	runs := 96
	wits := []BI{big.NewInt(0), big.NewInt(1), big.NewInt(5), new(big.Int).Sub(sN, big.NewInt(3)), hexInt("123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef1")}
	canon := func(f Fields, what string) {
		for i, s := range f.S {
			if s.Sign() < 0 || s.Cmp(sN) >= 0 {
				c.Fail("%s: scalar %d is %s, not in [0,N)", what, i, s.Text(16))
			}
		}
	}
	for kind := kGSPFS; kind <= kRange; kind++ {
		for wi, x := range wits {
			if !c.Case("%s: masks of %d runs, witness %s", kindName[kind], runs, x.Text(16)) {
				continue
			}
			n := &nonces{map[string][]BI{}, map[string]string{}, c}
			rd := newStream(fmt.Sprintf("c08 %d %d", kind, wi))
			y := wits[(wi+2)%len(wits)]
			sk := big.NewInt(1234567)
			isk := new(big.Int).ModInverse(sk, sN)
			r := runs
			if kind == kRange {
				r = 4
			}
			withRand(rd, func() {
				for i := 0; i < r && !c.Failed(); i++ {
					c.Guard("prover", func() {
						c.Add(1, 1, 1)
						switch kind {
						case kGSPFS:
							p, err := zk.NewGSPFSProofBase(cp, P(big.NewInt(7)), P(mul(big.NewInt(7), x)), x)
							if err != nil {
								c.Fail("prover: %v", err)
								return
							}
							canon(fieldsOf(Proof{kind: kGSPFS, g: p}), "gspfs")
							n.add("u", new(big.Int).Add(p.HiddenValue, mul(p.Challenge, x)))
							p, err = zk.NewGSPFSProof(cp, P(x), x)
							if err == nil {
								n.add("u(G)", new(big.Int).Add(p.HiddenValue, mul(p.Challenge, x)))
							}
							_, rr, err := zk.PedCommit(cp, x)
							if err == nil {
								n.add("commitment randomness", rr)
							}
							_, key := zk.KeyGen(z, cp.H)
							n.add("key", key)
						case kEquiv:
							p, err := zk.NewEquivalenceProof(cp, P(big.NewInt(7)), P(mul(big.NewInt(7), x)), P(h), P(mul(h, x)), x)
							if err != nil {
								c.Fail("prover: %v", err)
								return
							}
							canon(fieldsOf(Proof{kind: kEquiv, e: p}), "equivalence")
							n.add("u", sub(p.HiddenValue, mul(p.Challenge, x)))
						case kDisj:
							for side := zk.Left; side <= zk.Right; side++ {
								pts := []EC{P(big.NewInt(7)), P(mul(big.NewInt(7), x)), P(h), P(mul(h, y))}
								w := x
								if side == zk.Right {
									w = y
								}
								p, err := zk.NewDisjunctiveProof(cp, pts[0], pts[1], pts[2], pts[3], w, side)
								if err != nil {
									c.Fail("prover: %v", err)
									return
								}
								canon(fieldsOf(Proof{kind: kDisj, d: p}), "disjunctive")
								if side == zk.Left {
									n.add("left u", sub(p.S1, mul(p.C1, x)))
									n.add("left c2", p.C2)
									n.add("left s2", p.S2)
								} else {
									n.add("right u", sub(p.S2, mul(p.C2, y)))
									n.add("right c1", p.C1)
									n.add("right s1", p.S1)
								}
							}
						case kCons:
							p, err := zk.NewConsistencyProof(cp, P(new(big.Int).Add(x, mul(h, y))), P(mul(mul(h, sk), y)), P(mul(h, sk)), x, y)
							if err != nil {
								c.Fail("prover: %v", err)
								return
							}
							canon(fieldsOf(Proof{kind: kCons, c: p}), "consistency")
							n.add("u1", sub(p.S1, mul(p.Challenge, x)))
							n.add("u2", sub(p.S2, mul(p.Challenge, y)))
						case kABC, kIneq:
							rr := hexInt("abcdef0123456789abcdef")
							var pr Proof
							var err error
							v := x
							if kind == kABC {
								side := zk.Right
								if mN(x).Sign() == 0 {
									side = zk.Left
								}
								pr, _, err = prove(Stmt{kABC, cp, []EC{P(new(big.Int).Add(x, mul(h, rr))), P(mul(mul(h, sk), rr))}, []BI{x, sk}, side})
							} else {
								b := big.NewInt(77)
								v = sub(x, b)
								pr, _, err = prove(Stmt{kIneq, cp, []EC{P(new(big.Int).Add(x, mul(h, rr))), P(new(big.Int).Add(b, mul(h, one))), P(mul(mul(h, sk), rr)), P(mul(h, sk))}, []BI{x, b, sk}, 0})
							}
							if err != nil {
								c.Fail("prover: %v", err)
								return
							}
							f := fieldsOf(pr)
							canon(f, kindName[kind])
							v = mN(v)
							inv, cv := new(big.Int), new(big.Int)
							if v.Sign() != 0 {
								inv, cv = new(big.Int).ModInverse(v, sN), one
							}
							ub := mul(sub(z.log(f.P[0]), inv), ih)
							uc := mul(sub(z.log(f.P[1]), cv), ih)
							ch := f.S[0]
							n.add("ub", ub)
							n.add("uc", uc)
							n.add("u1", sub(f.S[1], mul(v, ch)))
							n.add("u2", sub(f.S[2], mul(isk, ch)))
							n.add("u3", sub(f.S[3], mul(sub(uc, mul(v, ub)), ch)))
							if v.Sign() == 0 {
								n.add("embedded u", sub(f.S[7], mul(f.S[5], sk)))
								n.add("embedded c2", f.S[6])
								n.add("embedded s2", f.S[8])
							} else {
								n.add("embedded u", sub(f.S[8], mul(f.S[6], uc)))
								n.add("embedded c1", f.S[5])
								n.add("embedded s1", f.S[7])
							}
						case kRange:
							v := new(big.Int).And(mN(x), new(big.Int).Sub(pow2(40), one))
							p, blind, err := zk.NewRangeProof(cp, v)
							if err != nil {
								c.Fail("prover: %v", err)
								return
							}
							f := fieldsOf(Proof{kind: kRange, r: p})
							canon(f, "range")
							if blind.Sign() < 0 {
								c.Fail("negative blinding factor")
							}
							e0 := f.S[0]
							for k := 0; k < len(f.P)-1; k++ {
								bit := new(big.Int).Lsh(big.NewInt(int64(v.Bit(k))), uint(k))
								bl := mul(sub(z.log(f.P[1+k]), bit), ih)
								mask := sub(f.S[1+k], mul(e0, bl))
								n.add("blinding factors", bl)
								n.add("masks", mask)
								if v.Bit(k) == 0 {
									// R = e_k C has to be a fresh nonce times H as well
									q := g.Add(g.Mul(cp.H, f.S[1+k]), g.Neg(g.Mul(g.Add(f.P[1+k], g.Neg(cp.HPoints[k])), e0)))
									n.add("ring nonces", mul(hashPts(sN, q), bl))
								}
							}
						}
					})
					c.Alive()
				}
			})
			if !c.Failed() {
				n.full()
			}
			c.Outcome(kindName[kind] + " masks fresh and full")
			if c.Stop() {
				return
			}
		}
	}
}

// c08Canon: proofs from extreme draws and witnesses keep their scalars in [0,N).
func c08Canon(c *Ctx) {
	z := newZb(sN)
	cp := z.CP(big.NewInt(3), 64)
	xs := append(scalarAlphabet(c.Thorough), outsideScalars()...)
	draws := []BI{big.NewInt(0), big.NewInt(1), new(big.Int).Sub(sN, one), new(big.Int).Sub(sN, two), pow2(255)}
	for kind := kGSPFS; kind <= kRange; kind++ {
		for xi, x := range xs {
			if !c.Case("%s: witness %s, extreme draws: scalars reduced", kindName[kind], x.Text(16)) {
				continue
			}
			for di, d := range draws {
				for rot := 0; rot < 3; rot++ {
					y := xs[(xi+7+rot)%len(xs)]
					vals := make([]BI, 130)
					for i := range vals {
						vals[i] = d
						if rot > 0 && i%(rot+1) == 0 {
							vals[i] = draws[(di+rot+i)%len(draws)]
						}
					}
					s := zbStmt(z, cp, kind, x, y, big.NewInt(11))
					if kind == kRange {
						if rot > 0 {
							continue
						}
						s.wit[0] = new(big.Int).And(mN(x), new(big.Int).Sub(pow2(40), one))
					}
					c.Guard("prover", func() {
						var p Proof
						var err error
						withRand(&bigReader{vals: vals}, func() { p, _, err = prove(s) })
						if err != nil {
							return
						}
						f := fieldsOf(p)
						for i, sc := range f.S {
							if sc.Sign() < 0 || sc.Cmp(sN) >= 0 {
								c.Fail("scalar %d of the %s proof is %s, not in [0,N) (%s)", i, kindName[kind], sc.Text(16), s)
							}
						}
					})
					c.Add(1, 1, 1)
				}
			}
			c.Alive()
			if c.Stop() {
				return
			}
		}
	}
}

func zbStmt(z *Zb, cp CP, kind int, x, y, w BI) Stmt {
	h := z.log(cp.H)
	mul := func(a ...BI) BI {
		r := big.NewInt(1)
		for _, v := range a {
			r = mN(r.Mul(r, v))
		}
		return r
	}
	P := func(k BI) EC { return z.pt(k) }
	cm := func(v, r BI) EC { return P(new(big.Int).Add(v, mul(h, r))) }
	switch kind {
	case kGSPFS:
		return Stmt{kind, cp, []EC{P(h), P(mul(h, x))}, []BI{x}, 1}
	case kEquiv:
		return Stmt{kind, cp, []EC{P(h), P(mul(h, x)), P(one), P(x)}, []BI{x}, 0}
	case kDisj:
		if y.Bit(0) == 0 {
			return Stmt{kind, cp, []EC{P(h), P(mul(h, x)), P(one), P(y)}, []BI{x}, zk.Left}
		}
		return Stmt{kind, cp, []EC{P(h), P(mul(h, y)), P(one), P(x)}, []BI{x}, zk.Right}
	case kCons:
		return Stmt{kind, cp, []EC{cm(x, y), P(mul(h, w, y)), P(mul(h, w))}, []BI{x, y}, 0}
	case kABC:
		side := zk.Right
		if mN(x).Sign() == 0 {
			side = zk.Left
		}
		return Stmt{kind, cp, []EC{cm(x, y), P(mul(h, w, y))}, []BI{x, w}, side}
	case kIneq:
		b := big.NewInt(77)
		return Stmt{kind, cp, []EC{cm(x, y), cm(b, two), P(mul(h, w, y)), P(mul(h, w, two))}, []BI{x, b, w}, 0}
	}
	return Stmt{kRange, cp, nil, []BI{new(big.Int).Set(x)}, 0}
}

// c08Influence: every draw of every prover reaches the proof.
func c08Influence(c *Ctx) {
	z := newZb(sN)
	cp := z.CP(big.NewInt(3), 64)
	base := func(i int) BI {
		var b [8]byte
		binary.BigEndian.PutUint64(b[:], uint64(i))
		v := make([]byte, 31)
		newStream("infl " + string(b[:])).Read(v)
		return new(big.Int).SetBytes(v)
	}
	for kind := kGSPFS; kind < kRange; kind++ {
		for _, x := range []BI{big.NewInt(0), big.NewInt(5)} {
			for _, y := range []BI{big.NewInt(4), big.NewInt(9)} {
				if !c.Case("%s x=%v: every draw changes the proof", kindName[kind], x) {
					continue
				}
				s := zbStmt(z, cp, kind, x, y, big.NewInt(11))
				run := func(chg int) (Fields, int, bool) {
					vals := make([]BI, 64)
					for i := range vals {
						vals[i] = base(i)
						if i == chg {
							vals[i] = base(1000 + i)
						}
					}
					r := &bigReader{vals: vals}
					var p Proof
					var err error
					withRand(r, func() { p, _, err = prove(s) })
					if err != nil {
						return Fields{}, 0, false
					}
					return fieldsOf(p), r.n, true
				}
				f0, n, ok := run(-1)
				if !ok {
					continue
				}
				if n == 0 {
					c.Fail("the %s prover draws no randomness", kindName[kind])
					continue
				}
				for i := 0; i < n && i < 64; i++ {
					f, _, ok := run(i)
					if ok && f.eq(f0) {
						c.Fail("draw %d of %d does not influence the %s proof (%s)", i, n, kindName[kind], s)
						break
					}
					c.Add(1, 1, 1)
				}
				c.Outcome(fmt.Sprintf("%s uses %d draws", kindName[kind], n))
			}
		}
	}
}

// countReader counts the bytes drawn.
type countReader struct {
	s *stream
	n int
}

func (r *countReader) Read(b []byte) (int, error) { r.n += len(b); return r.s.Read(b) }

// c08RangeShape: whatever the value, a range proof has the same number of parts, draws enough
// randomness for all of them, and every draw reaches the proof.
func c08RangeShape(c *Ctx) {
	z := newZn(znN)
	cp := z.CP(3, 64)
	var vals []BI
	for k := uint(0); k <= 40; k++ {
		vals = append(vals, new(big.Int).Sub(pow2(k), one))
		if k < 40 {
			vals = append(vals, pow2(k), new(big.Int).Sub(pow2(40), pow2(k)), new(big.Int).Sub(new(big.Int).Sub(pow2(40), one), pow2(k)))
		}
		for j := uint(0); j < k && k < 40; j++ {
			vals = append(vals, new(big.Int).Or(pow2(k), pow2(j)))
		}
	}
	shape := func(f Fields) string { return fmt.Sprintf("%d points, %d scalars", len(f.P), len(f.S)) }
	first := ""
	top := new(big.Int).Sub(pow2(40), one)
	c.Guard("prover", func() {
		p, _, err := zk.NewRangeProof(cp, new(big.Int).Set(top))
		if err == nil {
			first = shape(fieldsOf(Proof{kind: kRange, r: p}))
		}
	})
	for _, v := range vals {
		if !c.Case("range %s: shape and randomness used", v.Text(16)) {
			continue
		}
		c.Guard("prover", func() {
			r := &countReader{s: newStream("shape " + v.Text(16))}
			var p *zk.RangeProof
			var err error
			withRand(r, func() { p, _, err = zk.NewRangeProof(cp, new(big.Int).Set(v)) })
			if err != nil {
				c.Fail("prover: %v", err)
				return
			}
			f := fieldsOf(Proof{kind: kRange, r: p})
			if shape(f) != first {
				c.Fail("the proof for %s has %s, the one for %s has %s: the shape tells the value", v.Text(16), shape(f), top.Text(16), first)
			}
			// N^(2n) proofs are equally likely
			if need := (2*(len(f.P)-1)*z.params.N.BitLen() + 7) / 8; r.n < need {
				c.Fail("%d bytes of randomness for a proof that must hide %d bytes worth of masks", r.n, need)
			}
		})
		c.Add(1, 1, 1)
		if c.Stop() {
			return
		}
	}
	c.Outcome("range shape " + first)
	base, alt := hexInt("123456789abcdef"), hexInt("fedcba987654321")
	for _, v := range []BI{new(big.Int), one, hexInt("ffffffffff"), hexInt("aaaaaaaaaa"), hexInt("8000000000"), hexInt("7fffffffff")} {
		if !c.Case("range %s: every draw changes the proof", v.Text(16)) {
			continue
		}
		run := func(chg int) (Fields, int, bool) {
			vs := make([]BI, 400)
			for i := range vs {
				vs[i] = base
				if i == chg {
					vs[i] = alt
				}
			}
			r := &bigReader{vals: vs}
			var p *zk.RangeProof
			var err error
			withRand(r, func() { p, _, err = zk.NewRangeProof(cp, new(big.Int).Set(v)) })
			if err != nil {
				return Fields{}, 0, false
			}
			return fieldsOf(Proof{kind: kRange, r: p}), r.n, true
		}
		c.Guard("prover", func() {
			f0, n, ok := run(-1)
			if !ok {
				c.Fail("prover refused %s", v.Text(16))
				return
			}
			for i := 0; i < n && i < 400; i++ {
				f, _, ok := run(i)
				if ok && f.eq(f0) {
					c.Fail("draw %d of %d does not influence the range proof for %s", i, n, v.Text(16))
					return
				}
				c.Add(1, 1, 1)
				c.Alive()
			}
			c.Outcome(fmt.Sprintf("range uses %d draws", n))
		})
	}
}

// byteReader delivers one byte value per read, whatever the number of bytes asked for.
type byteReader struct {
	vals []byte
	lens []int
}

func (r *byteReader) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = 0
	}
	if len(b) > 0 {
		if i := len(r.lens); i < len(r.vals) {
			b[len(b)-1] = r.vals[i]
		}
		r.lens = append(r.lens, len(b))
	}
	return len(b), nil
}

// c08Draws: each draw on its own, over all values of the byte the random source delivers for it.
// The values that are not rejected have to give a uniform result: every proof equally often.
func c08Draws(c *Ctx) {
	type op struct {
		what string
		run  func() (uint64, bool)
	}
	for _, n := range []int{5, 7, 11, 13, 19} {
		t := GetToy(n)
		n := t.N
		P := t.Pts
		proofOp := func(s Stmt) op {
			return op{fmt.Sprint(s), func() (uint64, bool) {
				p, _, err := prove(s)
				if err != nil {
					return 0, false
				}
				return proofKey(t, fieldsOf(p))
			}}
		}
		h := 2
		cp := t.CP(h, 0)
		for v := 0; v < n; v++ {
			if !c.Case("N=%d P=%d, witness %d: all bytes for each draw of each prover", n, t.p, v) {
				continue
			}
			r, sk, y := 3%n, 2, (v+2)%n
			pk := sk * h % n
			cm, tok := P[(v+r*h)%n], P[r*pk%n]
			side := zk.Right
			if v == 0 {
				side = zk.Left
			}
			ops := []op{
				proofOp(Stmt{kGSPFS, cp, []EC{P[2], P[2*v%n]}, []BI{bi(v)}, 1}),
				proofOp(Stmt{kEquiv, cp, []EC{P[1], P[v], P[3], P[3*v%n]}, []BI{bi(v)}, 0}),
				proofOp(Stmt{kDisj, cp, []EC{P[1], P[v], P[3], P[3*y%n]}, []BI{bi(v)}, zk.Left}),
				proofOp(Stmt{kDisj, cp, []EC{P[1], P[y], P[3], P[3*v%n]}, []BI{bi(v)}, zk.Right}),
				proofOp(Stmt{kCons, cp, []EC{cm, tok, P[pk]}, []BI{bi(v), bi(r)}, 0}),
				proofOp(Stmt{kABC, cp, []EC{cm, tok}, []BI{bi(v), bi(sk)}, side}),
				{fmt.Sprintf("PedCommit(%d)", v), func() (uint64, bool) {
					q, x, err := zk.PedCommit(cp, bi(v))
					if err != nil || x.Sign() < 0 || x.Cmp(t.params.N) >= 0 {
						return 0, false
					}
					return uint64(t.Log(q)), true
				}},
			}
			if v != 0 {
				ops = append(ops, proofOp(Stmt{kIneq, cp, []EC{P[(v+1+(r+1)*h)%n], P[(1+h)%n], P[(r+1)*pk%n], P[pk]}, []BI{bi((v + 1) % n), bi(1), bi(sk)}, 0}))
			}
			for _, o := range ops {
				for _, rest := range []byte{1, 3} {
					base := make([]byte, 24)
					for i := range base {
						base[i] = rest
					}
					one := func(vals []byte) (key uint64, ok bool, r *byteReader) {
						r = &byteReader{vals: vals}
						withRand(r, func() { c.Guard("prover", func() { key, ok = o.run() }) })
						return
					}
					_, ok, r0 := one(base)
					if c.Failed() {
						return
					}
					if !ok || len(r0.lens) == 0 || len(r0.lens) > len(base) {
						continue // other checks judge refusals
					}
					for i, l := range r0.lens {
						if l != 1 {
							continue // the prover samples in a way that one byte does not exhaust
						}
						m := map[uint64]int{}
						for b := 0; b < 256; b++ {
							vals := append([]byte(nil), base...)
							vals[i] = byte(b)
							key, ok, rr := one(vals)
							if c.Failed() {
								return
							}
							if ok && len(rr.lens) == len(r0.lens) {
								m[key]++
							}
							c.Add(1, 1, 1)
						}
						lo, hi := 1<<30, 0
						for _, k := range m {
							lo, hi = min(lo, k), max(hi, k)
						}
						if lo != hi || len(m) != n {
							c.Fail("%s: draw %d of %d: the 256 values of its byte lead to %d different results, from %d to %d times each, instead of %d equally likely ones", o.what, i, len(r0.lens), len(m), lo, hi, n)
							return
						}
					}
				}
			}
			c.Outcome(fmt.Sprintf("N=%d: every draw uniform", n))
			if c.Stop() {
				return
			}
		}
	}
}

// c08Limits: keys and range proofs, where draws cannot be enumerated. A draw of as many bytes as
// N has may not stand for the same nonce as another one does that is N smaller: nonces below
// 2^256-N would come out twice as often as the others.
func c08Limits(c *Ctx) {
	z := newZb(sN)
	cp := z.CP(big.NewInt(3), 64)
	g := zbGroup{z}
	ih := new(big.Int).ModInverse(big.NewInt(3), sN)
	mul := func(a, b BI) BI { return mN(new(big.Int).Mul(a, b)) }
	sub := func(a, b BI) BI { return mN(new(big.Int).Sub(a, b)) }
	top := new(big.Int).Sub(pow2(256), sN)
	base := hexInt("5555555555555555555555555555555555555555555555555555555555555555")
	lows := []BI{big.NewInt(0), big.NewInt(5), pow2(64), new(big.Int).Rsh(top, 1), new(big.Int).Sub(top, one)}
	reader := func(i int, d BI) *bigReader {
		r := &bigReader{vals: make([]BI, 100)}
		for k := range r.vals {
			r.vals[k] = base
		}
		if i >= 0 {
			r.vals[i] = d
		}
		return r
	}
	rangeNonces := func(v BI, r *bigReader) (out []BI, ok bool) {
		var p *zk.RangeProof
		var err error
		withRand(r, func() { p, _, err = zk.NewRangeProof(cp, new(big.Int).Set(v)) })
		if err != nil {
			return nil, false
		}
		f := fieldsOf(Proof{kind: kRange, r: p})
		for k := 0; k < len(f.P)-1; k++ {
			bl := mul(sub(z.log(f.P[1+k]), new(big.Int).Lsh(big.NewInt(int64(v.Bit(k))), uint(k))), ih)
			out = append(out, bl, sub(f.S[1+k], mul(f.S[0], bl)))
			if v.Bit(k) == 0 {
				q := g.Add(g.Mul(cp.H, f.S[1+k]), g.Neg(g.Mul(g.Add(f.P[1+k], g.Neg(cp.HPoints[k])), f.S[0])))
				out = append(out, mul(hashPts(sN, q), bl))
			}
		}
		return out, true
	}
	has := func(l []BI, v BI) bool {
		for _, x := range l {
			if x.Cmp(v) == 0 {
				return true
			}
		}
		return false
	}
	type op struct {
		what string
		run  func(r *bigReader) ([]BI, bool)
	}
	ops := []op{{"KeyGen", func(r *bigReader) (out []BI, ok bool) {
		withRand(r, func() { _, k := zk.KeyGen(z, cp.H); out = []BI{k} })
		if k := out[0]; k.Sign() < 0 || k.Cmp(sN) >= 0 {
			c.Fail("KeyGen gives the secret key %s, not in [0,N)", k.Text(16))
		}
		return out, true
	}}}
	for _, v := range []BI{new(big.Int), hexInt("ffffffffff"), hexInt("a5a5a5a5a5")} {
		v := v
		ops = append(ops, op{"range proof for " + v.Text(16), func(r *bigReader) ([]BI, bool) { return rangeNonces(v, r) }})
	}
	for _, o := range ops {
		if !c.Case("%s: each draw at 0, 5, .. and N, N+5, ..", o.what) {
			continue
		}
		c.Guard("prover", func() {
			r0 := reader(-1, nil)
			l0, ok := o.run(r0)
			if !ok || r0.n > len(r0.vals) {
				return
			}
			for i, n := range r0.lens {
				if n != 32 {
					continue // samples in another way
				}
				for _, d := range lows {
					// what the low draw leads to, if it is used as it is
					if has(l0, d) {
						continue
					}
					rl, rh := reader(i, d), reader(i, new(big.Int).Add(d, sN))
					ll, ok1 := o.run(rl)
					lh, ok2 := o.run(rh)
					c.Add(1, 2, 2)
					if ok1 && ok2 && rl.n == r0.n && rh.n == r0.n && has(ll, d) && has(lh, d) {
						c.Fail("%s: draw %d gives the nonce %s for the random bytes %s and for N more: not uniform", o.what, i, d.Text(16), d.Text(16))
						return
					}
				}
				c.Alive()
			}
			c.Outcome(fmt.Sprintf("%s: %d draws", o.what, r0.n))
		})
		if c.Stop() {
			return
		}
	}
}

func init() {
	ck := &Check{ID: "C08", Level: "model_checking",
		Rule: "state = one (statement, witness, complete sequence of random draws) run through the real prover; per statement the resulting distribution must be uniform over the valid proofs and equal for every witness and side; on groups of cryptographic size with readable logs every mask is recovered and must be fresh, distinct and full-range, every scalar reduced; range proofs have the same shape for every value",
		Assumptions: []string{"perfect zero knowledge is decided on groups of order 3 to 19, where all draws can be enumerated", "range proofs: masks recovered on a group with readable logs (tiny orders make the prover divide by zero)",
			"statements with a base at infinity are left out of the distribution comparison", "the audit token in ABC proofs is left out: it is a function of the witness by design"}}
	for _, u := range []struct {
		kind, n int
		tier    string
	}{{kGSPFS, 5, ""}, {kGSPFS, 19, ""}, {kEquiv, 11, ""}, {kDisj, 3, ""}, {kDisj, 5, ""}, {kDisj, 7, ""}, {kCons, 5, ""}, {kCons, 7, ""}, {kABC, 3, ""}, {kABC, 5, "thorough"}, {kIneq, 3, ""}} {
		u := u
		ck.Units = append(ck.Units, Unit{Name: fmt.Sprintf("toy-%s-%s", kindName[u.kind], toyName(u.n)), Tier: u.tier,
			Bound: fmt.Sprintf("group of order %d: all statements with non-zero bases, all witnesses and sides, all draw sequences", u.n), Run: func(c *Ctx) { c08Toy(c, u.kind, u.n) }})
	}
	ck.Units = append(ck.Units, Unit{Name: "masks", Bound: "all provers x 5 witnesses x 96 runs on a 256-bit group with readable logs (range: 4 runs of 40 entries)", Run: c08Masks},
		Unit{Name: "canonical", Bound: "all provers x boundary witnesses x extreme draws", Run: c08Canon},
		Unit{Name: "range-shape", Bound: "range proofs for all values with one or two bits set or one cleared, all 2^k-1 and 2^40-2^k: number of parts and randomness used; six values: each draw changed on its own", Run: c08RangeShape},
		Unit{Name: "draws", Bound: "groups of order 5 to 19, every witness, all provers and PedCommit: all 256 values of the byte behind each draw, the other draws fixed at two values", Run: c08Draws},
		Unit{Name: "limits", Bound: "KeyGen and three range proofs on a 256-bit group: each draw at five values d and at N+d", Run: c08Limits},
		Unit{Name: "influence", Bound: "all provers: each draw changed on its own", Run: c08Influence})
	register(ck)
}
