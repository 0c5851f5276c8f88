package zkmc

import (
	"fmt"
	"math/big"

	zk "github.com/mit-dci/zksigma"
)

// refused runs a prover on a false statement. must: the prover is able to notice and has to
// return an error. Otherwise a proof may come out, but the verifier's verdict on it has to be
// the specification's.
func refused(c *Ctx, s Stmt, g Group, must bool) {
	c.Guard("prover on a false statement", func() {
		p, _, err := prove(s)
		if err != nil {
			c.Outcome("refused")
			return
		}
		if must {
			c.Fail("prover handed out a proof for a false statement (%s)", s)
			return
		}
		if p.isNil() {
			c.Fail("prover returned neither proof nor error (%s)", s)
			return
		}
		v := s.vpts(func(a, b EC) EC { return g.Add(a, g.Neg(b)) })
		ok, verr := verify(p, s.cp, v)
		want := refVerify(g, s.cp, s.kind, v, fieldsOf(p))
		if ok != want || ok == (verr != nil) {
			c.Fail("verdict %v (err %v) on a proof from a false witness, specification says %v (%s)", ok, verr, want, s)
			return
		}
		c.Outcome(fmt.Sprintf("proof handed out, verdict %v", ok))
	})
}

func c02Toy(c *Ctx, kind, n int) {
	t := GetToy(n)
	n = t.N
	g := toyGroup{t}
	do := func(s Stmt, must bool) {
		for k := 0; k < 3; k++ {
			if k > 0 && must {
				break
			}
			withRand(&choiceReader{rest: int64((k + 1) % n), choices: []int{k, 1, (k + 2) % n, 1, 2 % n, k, 1, (k + 1) % n}}, func() { refused(c, s, g, must) })
			c.Add(1, 2, 1)
		}
	}
	switch kind {
	case kGSPFS:
		cp := t.CP(2%n, 0)
		for b := 0; b < n; b++ {
			for A := 0; A < n; A++ {
				if !c.Case("gspfs N=%d base=%d A=%d, all wrong x", n, b, A) {
					continue
				}
				for x := 0; x < n; x++ {
					if b*x%n == A {
						continue
					}
					for _, w := range witReps(x, n) {
						do(Stmt{kGSPFS, cp, []EC{t.Pts[b], t.Pts[A]}, []BI{w}, 0}, true)
						do(Stmt{kGSPFS, cp, []EC{t.Pts[b], t.Pts[A]}, []BI{w}, 1}, true)
					}
				}
			}
		}
	case kEquiv, kDisj:
		cp := t.CP(2%n, 0)
		for b1 := 0; b1 < n; b1++ {
			for b2 := 0; b2 < n; b2++ {
				for r1 := 0; r1 < n; r1++ {
					for r2 := 0; r2 < n; r2++ {
						if !c.Case("%s N=%d bases=%d,%d results=%d,%d, all wrong x", kindName[kind], n, b1, b2, r1, r2) {
							continue
						}
						pts := []EC{t.Pts[b1], t.Pts[r1], t.Pts[b2], t.Pts[r2]}
						for x := 0; x < n; x++ {
							w := witReps(x, n)[(b1+r1+x)%4]
							l, r := b1*x%n == r1, b2*x%n == r2
							if kind == kEquiv {
								if !(l && r) {
									do(Stmt{kEquiv, cp, pts, []BI{w}, 0}, true)
								}
								continue
							}
							if !l {
								do(Stmt{kDisj, cp, pts, []BI{w}, zk.Left}, true)
							}
							if !r {
								do(Stmt{kDisj, cp, pts, []BI{w}, zk.Right}, true)
							}
							if l || r {
								for _, bad := range []zk.Side{-1, 2, 3, 256, -256} {
									do(Stmt{kDisj, cp, pts, []BI{w}, bad}, true)
								}
							}
						}
					}
				}
			}
		}
	case kCons:
		for h := 1; h < n; h++ {
			cp := t.CP(h, 0)
			for cm := 0; cm < n; cm++ {
				for tok := 0; tok < n; tok++ {
					for pk := 0; pk < n; pk++ {
						if !c.Case("consistency N=%d H=%d CM=%d Tok=%d PK=%d, all wrong openings", n, h, cm, tok, pk) {
							continue
						}
						for v := 0; v < n; v++ {
							for r := 0; r < n; r++ {
								if (v+r*h)%n == cm && r*pk%n == tok {
									continue
								}
								do(Stmt{kCons, cp, []EC{t.Pts[cm], t.Pts[tok], t.Pts[pk]}, []BI{witReps(v, n)[(cm+r)%4], witReps(r, n)[(tok+v)%4]}, 0}, true)
							}
						}
					}
				}
			}
		}
	case kABC:
		for h := 1; h < n; h++ {
			cp := t.CP(h, 0)
			for cm := 0; cm < n; cm++ {
				for tok := 0; tok < n; tok++ {
					if !c.Case("abc N=%d H=%d CM=%d Tok=%d, all values, keys and sides", n, h, cm, tok) {
						continue
					}
					for v := 0; v < n; v++ {
						for sk := 0; sk < n; sk++ {
							for _, side := range []zk.Side{zk.Left, zk.Right, 2, -1} {
								must := sk == 0 || side == zk.Left && (v != 0 || sk*cm%n != tok) || side == zk.Right && v == 0 || side != zk.Left && side != zk.Right
								if !must && (v+tok*t.inv(sk)-cm)%n == 0 {
									continue // true statement
								}
								do(Stmt{kABC, cp, []EC{t.Pts[cm], t.Pts[tok]}, []BI{witReps(v, n)[(cm+sk)%4], witReps(sk, n)[(tok+v)%4]}, side}, must)
							}
						}
					}
				}
			}
		}
	case kIneq:
		for h := 1; h < n; h++ {
			cp := t.CP(h, 0)
			for a := 0; a < n; a++ {
				for b := 0; b < n; b++ {
					if !c.Case("inequality N=%d H=%d a=%d b=%d, all randomness, all keys, wrong values", n, h, a, b) {
						continue
					}
					for ra := 0; ra < n; ra++ {
						for rb := 0; rb < n; rb++ {
							for sk := 0; sk < n; sk++ {
								pk := sk * h % n
								pts := []EC{t.Pts[(a+ra*h)%n], t.Pts[(b+rb*h)%n], t.Pts[ra*pk%n], t.Pts[rb*pk%n]}
								wsk := witReps(sk, n)[(a+ra)%4]
								// claim a = b in all representations
								for _, w := range witReps(b, n) {
									do(Stmt{kIneq, cp, pts, []BI{w, bi(b), wsk}, 0}, true)
									do(Stmt{kIneq, cp, pts, []BI{bi(b), w, wsk}, 0}, true)
								}
								// claim another difference than the committed one
								d := (a - b + 1 + n) % n
								if d != 0 {
									do(Stmt{kIneq, cp, pts, []BI{bi(d), bi(0), wsk}, 0}, sk == 0)
								}
							}
						}
					}
				}
			}
		}
	}
}

// wrongs are scalars near x that a careless comparison takes for x: the negation (same x
// coordinate), the multiples by a cube root of one (same y coordinate), neighbours, zero.
func wrongs(x BI) []BI {
	l := hexInt("5363AD4CC05C30E0A5261C028812645A122E22EA20816678DF02967C1B23BD72")
	l2 := new(big.Int).Mul(l, l)
	return []BI{new(big.Int).Neg(x), new(big.Int).Mul(x, l), new(big.Int).Mul(x, l2), new(big.Int).Add(x, one), new(big.Int).Sub(x, one), new(big.Int), new(big.Int).Neg(new(big.Int).Mul(x, l)), new(big.Int).Xor(mN(x), pow2(200)), new(big.Int).Rsh(mN(x), 8),
		// equal in the low or high part of a machine word, or modulo the field's prime
		new(big.Int).Add(x, pow2(32)), new(big.Int).Add(x, pow2(64)), new(big.Int).Sub(x, pow2(64)), new(big.Int).Xor(mN(x), pow2(63)), new(big.Int).And(mN(x), new(big.Int).SetUint64(1<<64-1)), new(big.Int).Add(x, pow2(256)), new(big.Int).Add(x, sP)}
}

func c02Real(c *Ctx, kind int) {
	xs := scalarAlphabet(c.Thorough)
	ys := []BI{big.NewInt(0), big.NewInt(1), new(big.Int).Sub(sN, one), hexInt("123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef2")}
	for pi, cp := range realParams() {
		for xi, x := range xs {
			for yi, y := range ys {
				if !c.Thorough && pi > 0 && (xi+yi)%4 != pi {
					continue
				}
				if !c.Thorough && (kind == kABC || kind == kIneq) && (xi+yi+pi)%4 != 0 {
					continue // these make a proof and have the specification check it: slow
				}
				if !c.Case("%s on secp256k1, params %d, x=%s y=%s, wrong witnesses", kindName[kind], pi, x.Text(16), y.Text(16)) {
					continue
				}
				z := ys[(xi+yi)%len(ys)]
				for side := zk.Left; side <= zk.Right; side++ {
					s := realStmt(kind, pi, cp, x, y, z, side)
					if kind == kABC || kind == kIneq || kind == kCons || kind == kEquiv {
						if side == zk.Right {
							continue
						}
					}
					for wi := range s.wit {
						for _, w := range wrongs(s.wit[wi]) {
							if mN(w).Cmp(mN(s.wit[wi])) == 0 {
								continue
							}
							q := s
							q.wit = append([]BI(nil), s.wit...)
							q.wit[wi] = w
							must := true
							switch kind {
							case kCons:
								if wi == 1 && sameEC(s.pts[2], zk.Zero) && s.wit[1] == nil {
									continue
								}
							case kABC:
								// the value is only compared with the side; a wrong key shows on the left side
								must = q.side == zk.Left && (wi == 1 && !sameEC(s.pts[0], zk.Zero) || wi == 0) || mN(q.wit[1]).Sign() == 0 || (mN(q.wit[0]).Sign() == 0) != (q.side == zk.Left)
							case kIneq:
								must = mN(new(big.Int).Sub(q.wit[0], q.wit[1])).Sign() == 0 || mN(q.wit[2]).Sign() == 0
							}
							if kind == kABC && wi == 1 && !must && sameEC(s.pts[1], zk.Zero) {
								continue // every key fits a token of zero randomness
							}
							if kind == kIneq && wi == 2 && !must && sameEC(s.pts[2], s.pts[3]) {
								continue
							}
							withRand(newStream(fmt.Sprintf("c02 %d %d %d %d", kind, pi, xi, yi)), func() { refused(c, q, secpGroup{}, must) })
							c.Add(1, 1, 1)
						}
					}
					// wrong result points with the right witness
					if kind <= kCons {
						for k := 0; k < len(s.pts); k++ {
							if kind == kDisj && (k/2 == 0) != (s.side == zk.Left) {
								continue
							}
							if kind != kCons && k%2 == 0 || kind == kCons && k == 2 {
								continue // bases
							}
							q := s
							for _, alt := range append(pointAlts(s.pts[k]), outsideAlts(s.pts[k])...) {
								q.pts = append([]EC(nil), s.pts...)
								q.pts[k] = alt
								withRand(newStream("c02"), func() { refused(c, q, secpGroup{}, true) })
								c.Add(1, 1, 1)
							}
						}
					}
					if kind == kABC || kind == kIneq || kind == kCons || kind == kEquiv || kind == kGSPFS {
						break
					}
				}
				if c.Stop() {
					return
				}
			}
		}
	}
}

// pointAlts are points unlike p that share a coordinate with it or are otherwise close.
func pointAlts(p EC) []EC {
	var l []EC
	if p.X.Sign() != 0 {
		beta := hexInt("7AE96A2B657C07106E64479EAC3434E99CF0497512F58995C1396C28719501EE")
		l = append(l, EC{X: p.X, Y: new(big.Int).Sub(sP, p.Y)}, EC{X: mulP(p.X, beta), Y: p.Y}, EC{X: new(big.Int), Y: new(big.Int)},
			EC{X: p.X, Y: new(big.Int)}, EC{X: p.Y, Y: p.X})
	}
	for _, q := range []EC{{X: sGx, Y: sGy}, refH.ec()} {
		if !sameEC(p, q) {
			l = append(l, q)
		}
	}
	return l
}

// outsideAlts: the same residues outside the field, which name no point.
func outsideAlts(p EC) []EC {
	var l []EC
	for _, d := range []BI{new(big.Int).Neg(sP), sP, new(big.Int).Lsh(sP, 300)} {
		l = append(l, EC{X: new(big.Int).Add(p.X, d), Y: p.Y}, EC{X: p.X, Y: new(big.Int).Add(p.Y, d)})
	}
	if p.X.Sign() != 0 { // the same magnitude
		l = append(l, EC{X: new(big.Int).Neg(p.X), Y: p.Y}, EC{X: p.X, Y: new(big.Int).Neg(p.Y)}, EC{X: new(big.Int).Neg(p.X), Y: new(big.Int).Neg(p.Y)})
	}
	return l
}

func init() {
	ck := &Check{ID: "C02", Level: "model_checking",
		Rule:        "state = one (curve, G, H, statement, witness that does not satisfy it); the real prover must return an error, or (ABC and inequality with a wrong value or key, which the prover cannot notice) a proof on which the verifier agrees with the specification",
		Assumptions: []string{"secp256k1 runs cover boundary scalars and coordinate-sharing wrong points, not all"}}
	for _, u := range []struct {
		kind, n int
		tier    string
	}{{kGSPFS, 13, ""}, {kGSPFS, 31, ""}, {kEquiv, 7, ""}, {kEquiv, 13, "thorough"}, {kDisj, 5, ""}, {kDisj, 7, ""}, {kCons, 5, ""}, {kCons, 7, ""}, {kABC, 3, ""}, {kABC, 5, ""}, {kABC, 11, ""}, {kIneq, 3, ""}, {kIneq, 5, ""}, {kIneq, 7, "thorough"},
		{kGSPFS, -13, ""}, {kEquiv, -7, ""}, {kDisj, -5, ""}, {kCons, -5, ""}, {kABC, -5, ""}, {kIneq, -5, ""}} {
		u := u
		ck.Units = append(ck.Units, Unit{Name: fmt.Sprintf("toy-%s-%s", kindName[u.kind], toyName(u.n)), Tier: u.tier,
			Bound: fmt.Sprintf("all false (statement, witness) combinations of the group of %s", toyDesc(u.n)),
			Run:   func(c *Ctx) { c02Toy(c, u.kind, u.n) }})
	}
	for k := kGSPFS; k <= kIneq; k++ {
		k := k
		ck.Units = append(ck.Units, Unit{Name: "secp-" + kindName[k], Bound: "boundary scalars on secp256k1 x wrong witnesses (negated, neighbouring, coordinate-sharing) x wrong result points", Run: func(c *Ctx) { c02Real(c, k) }})
	}
	register(ck)
}
