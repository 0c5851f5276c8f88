package zkmc

import (
	"fmt"
	"math/big"

	zk "github.com/mit-dci/zksigma"
)

// verdict runs the verifier and compares with the specification; a verdict is (true, nil) or (false, error).
func verdict(c *Ctx, p Proof, cp CP, v []EC, want bool, what func() string) {
	c.Guard("verifier", func() {
		ok, err := verify(p, cp, v)
		if ok != want || ok != (err == nil) {
			c.Fail("verdict (%v, %v), specification says %v: %s", ok, err, want, what())
		}
	})
}

func c03GSPFS(c *Ctx, n int) {
	t := GetToy(n)
	n = t.N
	cp := t.CP(2%n, 0)
	for base := 0; base < n; base++ {
		for A := 0; A < n; A++ {
			if !c.Case("gspfs N=%d base=%d A=%d, all commitments, responses and challenges", n, base, A) {
				continue
			}
			var acc int64
			for R := 0; R < n; R++ {
				for s := 0; s < n; s++ {
					for ch := 0; ch < n; ch++ {
						want := t.okGSPFS(base, A, R, s, ch)
						if want {
							acc++
						}
						p := Proof{kind: kGSPFS, g: &zk.GSPFSProof{Base: t.Pts[base], RandCommit: t.Pts[R], HiddenValue: bi(s), Challenge: bi(ch)}}
						verdict(c, p, cp, []EC{t.Pts[A]}, want, func() string { return fmt.Sprintf("base %d A %d R %d s %d c %d", base, A, R, s, ch) })
						if c.Failed() {
							return
						}
					}
				}
			}
			if c.Tick() {
				return
			}
			k := int64(n * n * n)
			c.Add(k, k, k)
			c.OutcomeN("accepted", acc)
			c.OutcomeN("rejected", k-acc)
		}
	}
}

func c03Equiv(c *Ctx, n int) {
	t := GetToy(n)
	n = t.N
	cp := t.CP(2%n, 0)
	for b1 := 0; b1 < n; b1++ {
		for r1 := 0; r1 < n; r1++ {
			for b2 := 0; b2 < n; b2++ {
				for r2 := 0; r2 < n; r2++ {
					if !c.Case("equivalence N=%d %d->%d, %d->%d, all commitments, responses and challenges", n, b1, r1, b2, r2) {
						continue
					}
					v := []EC{t.Pts[b1], t.Pts[r1], t.Pts[b2], t.Pts[r2]}
					var acc int64
					for u1 := 0; u1 < n; u1++ {
						for u2 := 0; u2 < n; u2++ {
							for s := 0; s < n; s++ {
								for ch := 0; ch < n; ch++ {
									want := t.okEquiv(b1, r1, b2, r2, u1, u2, ch, s)
									if want {
										acc++
									}
									p := Proof{kind: kEquiv, e: &zk.EquivalenceProof{UG: t.Pts[u1], UH: t.Pts[u2], Challenge: bi(ch), HiddenValue: bi(s)}}
									verdict(c, p, cp, v, want, func() string {
										return fmt.Sprintf("%d->%d %d->%d UG %d UH %d c %d s %d", b1, r1, b2, r2, u1, u2, ch, s)
									})
									if c.Failed() {
										return
									}
								}
							}
						}
					}
					if c.Tick() {
						return
					}
					k := int64(n * n * n * n)
					c.Add(k, k, k)
					c.OutcomeN("accepted", acc)
					c.OutcomeN("rejected", k-acc)
				}
			}
		}
	}
}

func c03Cons(c *Ctx, n int) {
	t := GetToy(n)
	n = t.N
	for h := 1; h < n; h++ {
		cp := t.CP(h, 0)
		for cm := 0; cm < n; cm++ {
			for tok := 0; tok < n; tok++ {
				for pk := 0; pk < n; pk++ {
					if !c.Case("consistency N=%d H=%d CM=%d Tok=%d PK=%d, all commitments, responses and challenges", n, h, cm, tok, pk) {
						continue
					}
					v := []EC{t.Pts[cm], t.Pts[tok], t.Pts[pk]}
					var acc int64
					for t1 := 0; t1 < n; t1++ {
						for t2 := 0; t2 < n; t2++ {
							for s1 := 0; s1 < n; s1++ {
								for s2 := 0; s2 < n; s2++ {
									for ch := 0; ch < n; ch++ {
										want := t.okCons(h, cm, tok, pk, t1, t2, ch, s1, s2)
										if want {
											acc++
										}
										p := Proof{kind: kCons, c: &zk.ConsistencyProof{T1: t.Pts[t1], T2: t.Pts[t2], Challenge: bi(ch), S1: bi(s1), S2: bi(s2)}}
										verdict(c, p, cp, v, want, func() string {
											return fmt.Sprintf("H %d CM %d tok %d pk %d T1 %d T2 %d c %d s1 %d s2 %d", h, cm, tok, pk, t1, t2, ch, s1, s2)
										})
										if c.Failed() {
											return
										}
									}
								}
							}
						}
					}
					if c.Tick() {
						return
					}
					k := int64(n * n * n * n * n)
					c.Add(k, k, k)
					c.OutcomeN("accepted", acc)
					c.OutcomeN("rejected", k-acc)
				}
			}
		}
	}
}

// wideScalars: scalars outside [0,N) in a proof may be refused, but what is accepted must satisfy the specification.
func c03Wide(c *Ctx, kinds []int, n int) {
	t := GetToy(n)
	n = t.N
	g := toyGroup{t}
	wide := []BI{}
	for i := -n; i < 2*n; i++ {
		wide = append(wide, big.NewInt(int64(i)))
	}
	wide = append(wide, new(big.Int).Add(pow2(256), one), new(big.Int).Neg(pow2(300)))
	for _, kind := range kinds {
		nv, np, ns := 1, 2, 2
		switch kind {
		case kEquiv:
			nv = 4
		case kCons:
			nv, ns = 3, 3
		}
		h := 2 % n
		cp := t.CP(h, 0)
		tuple(n, nv+np, func(x []int) bool {
			if !c.Case("%s N=%d points %v, scalars in [-N,2N) and huge ones", kindName[kind], n, x) {
				return !c.Stop()
			}
			var v, P []EC
			for i, k := range x {
				if i < nv {
					v = append(v, t.Pts[k])
				} else {
					P = append(P, t.Pts[k])
				}
			}
			tuple(len(wide), ns, func(y []int) bool {
				f := Fields{P: P}
				r := Fields{P: P}
				inside := true
				for _, k := range y {
					f.S = append(f.S, wide[k])
					m := new(big.Int).Mod(wide[k], t.params.N)
					inside = inside && m.Cmp(wide[k]) == 0
					r.S = append(r.S, m)
				}
				want := refVerify(g, cp, kind, v, r)
				p, _ := build(kind, f)
				c.Guard("verifier", func() {
					ok, err := verify(p, cp, v)
					if ok && !want || inside && ok != want || ok != (err == nil) {
						c.Fail("verdict (%v, %v), specification says %v: %s N=%d points %v scalars %s", ok, err, want, kindName[kind], n, x, f)
					}
				})
				c.Add(1, 1, 1)
				return !c.Failed() && !c.Tick()
			})
			return !c.Stop()
		})
	}
}

// tuple enumerates all k-tuples over [0,n) until f returns false.
func tuple(n, k int, f func([]int) bool) {
	x := make([]int, k)
	for {
		if !f(x) {
			return
		}
		i := k - 1
		for i >= 0 {
			x[i]++
			if x[i] < n {
				break
			}
			x[i] = 0
			i--
		}
		if i < 0 {
			return
		}
	}
}

// scalarAlts are scalars close to s but different.
func scalarAlts(s BI) []BI {
	l := []BI{new(big.Int).Add(s, one), new(big.Int).Sub(s, one), new(big.Int).Sub(sN, s), new(big.Int), big.NewInt(1), new(big.Int).Xor(s, pow2(255)), new(big.Int).Xor(s, one), new(big.Int).Xor(s, pow2(128)), new(big.Int).Rsh(s, 8), new(big.Int).Sub(pow2(256), one)}
	var r []BI
	for _, x := range l {
		if x.Cmp(s) != 0 && x.Sign() >= 0 {
			r = append(r, x)
		}
	}
	return r
}

// tamper enumerates single changes of a proof and of the statement, and of the parameters; f gets each variant.
func tamper(cp CP, kind int, v []EC, fl Fields, f func(what string, cp CP, v []EC, fl Fields) bool) {
	np, ns := len(fl.P), len(fl.S)
	if kind == kRange && np > 3 {
		np, ns = 3, 3
	}
	for i := 0; i < np; i++ {
		for j, a := range append(pointAlts(fl.P[i]), outsideAlts(fl.P[i])...) {
			g := fl.clone()
			g.P[i] = a
			if !f(fmt.Sprintf("proof point %d -> alternative %d", i, j), cp, v, g) {
				return
			}
		}
		for k := i + 1; k < np; k++ {
			g := fl.clone()
			g.P[i], g.P[k] = g.P[k], g.P[i]
			if !f(fmt.Sprintf("proof points %d and %d swapped", i, k), cp, v, g) {
				return
			}
		}
	}
	for i := 0; i < ns; i++ {
		for j, a := range scalarAlts(fl.S[i]) {
			g := fl.clone()
			g.S[i] = a
			if !f(fmt.Sprintf("proof scalar %d -> alternative %d", i, j), cp, v, g) {
				return
			}
		}
		for k := i + 1; k < ns; k++ {
			g := fl.clone()
			g.S[i], g.S[k] = g.S[k], g.S[i]
			if !f(fmt.Sprintf("proof scalars %d and %d swapped", i, k), cp, v, g) {
				return
			}
		}
	}
	for i := range v {
		for j, a := range append(pointAlts(v[i]), outsideAlts(v[i])...) {
			w := append([]EC(nil), v...)
			w[i] = a
			if !f(fmt.Sprintf("statement point %d -> alternative %d", i, j), cp, w, fl) {
				return
			}
		}
		for k := i + 1; k < len(v); k++ {
			w := append([]EC(nil), v...)
			w[i], w[k] = w[k], w[i]
			if !f(fmt.Sprintf("statement points %d and %d swapped", i, k), cp, w, fl) {
				return
			}
		}
	}
	for j, a := range pointAlts(cp.H) {
		q := cp
		q.H = a
		if !secpOK(a) {
			continue
		}
		if !f(fmt.Sprintf("other H %d", j), q, v, fl) {
			return
		}
	}
}

func secpOK(p EC) bool { return secpGroup{}.Valid(p) }

// c03Real: honest proofs on secp256k1 and every single change of them, judged by the specification.
func c0xReal(c *Ctx, kind int) {
	xs := []BI{big.NewInt(0), big.NewInt(1), big.NewInt(2), big.NewInt(10), new(big.Int).Sub(sN, one), pow2(128), hexInt("123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef1")}
	ys := []BI{big.NewInt(1), big.NewInt(0), hexInt("7f3456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef2")}
	if c.Thorough {
		xs = scalarAlphabet(false)
	}
	for pi, cp := range realParams() {
		if pi == 1 && !c.Thorough {
			continue
		}
		for xi, x := range xs {
			for yi, y := range ys {
				if pi > 0 && !c.Thorough && (xi+yi)%3 != 0 {
					continue
				}
				for side := zk.Left; side <= zk.Right; side++ {
					if side == zk.Right && kind != kDisj && kind != kGSPFS {
						continue
					}
					if !c.Case("%s on secp256k1, params %d, x=%s y=%s side %d: every single change of an honest proof", kindName[kind], pi, x.Text(16), y.Text(16), side) {
						continue
					}
					z := ys[(xi+yi)%len(ys)]
					s := realStmt(kind, pi, cp, x, y, z, side)
					var p Proof
					var err error
					withRand(newStream(fmt.Sprintf("c03 %d %d %d %d", kind, pi, xi, yi)), func() { p, _, err = prove(s) })
					if err != nil {
						c.Outcome("no proof")
						continue // C01's business
					}
					g := secpGroup{}
					v := s.vpts(func(a, b EC) EC { return g.Add(a, g.Neg(b)) })
					fl := fieldsOf(p)
					tamper(cp, kind, v, fl, func(what string, cp CP, v []EC, fl Fields) bool {
						q, err := build(kind, fl)
						if err != nil {
							c.Outcome("not decodable")
							return true
						}
						if kind >= kABC { // what the bytes say, which cannot hold negative coordinates
							fl = fieldsOf(q)
						}
						want := refVerify(g, cp, kind, v, fl)
						verdict(c, q, cp, v, want, func() string { return what + " of " + s.String() + " proof " + fl.String() })
						c.Add(1, 1, 1)
						c.Outcome(fmt.Sprintf("secp verdict %v", want))
						return !c.Failed()
					})
					c.Alive()
					if c.Stop() {
						return
					}
				}
			}
		}
	}
}

var lambda = hexInt("5363AD4CC05C30E0A5261C028812645A122E22EA20816678DF02967C1B23BD72")

// factors: how the two sides of an equation are made to differ: 1 not at all, -1 same x
// coordinate, lambda and its square same y coordinate, 0 one side at infinity, 2 unrelated.
func factors() []BI {
	return []BI{big.NewInt(1), big.NewInt(-1), lambda, new(big.Int).Mul(lambda, lambda), big.NewInt(2), big.NewInt(0), new(big.Int).Neg(lambda)}
}

// c03Forge: transcripts with the right challenge in which each equation holds up to a chosen factor.
func c03Forge(c *Ctx) {
	g := secpGroup{}
	sc := []BI{big.NewInt(0), big.NewInt(1), hexInt("6f3456789abcdef0123456789abcdef0123456789abcdef0123456789abcde55"), new(big.Int).Sub(sN, big.NewInt(2))}
	for pi, cp := range realParams() {
		H := hReps[pi]
		G := gReps[pi]
		for xi, x := range sc {
			for ui, u := range sc {
				for fi, f1 := range factors() {
					for fj, f2 := range factors() {
						if !c.Thorough && pi > 0 && (fi+fj+xi+ui)%5 != 0 {
							continue
						}
						if !c.Case("secp256k1 params %d x=%s u=%s: equations off by factors %s and %s", pi, x.Text(16), u.Text(16), f1.Text(16), f2.Text(16)) {
							continue
						}
						try := func(kind int, v []EC, fl Fields) {
							want := refVerify(g, cp, kind, v, fl)
							p, err := build(kind, fl)
							if err != nil {
								c.Fail("cannot build: %v", err)
								return
							}
							verdict(c, p, cp, v, want, func() string { return fmt.Sprintf("%s forged with factors %v %v: %s", kindName[kind], f1, f2, fl) })
							c.Add(1, 1, 1)
							c.Outcome(fmt.Sprintf("forged %s verdict %v", kindName[kind], want))
						}
						mul := func(a, b BI) BI { return mN(new(big.Int).Mul(a, b)) }
						add := func(a, b BI) BI { return mN(new(big.Int).Add(a, b)) }
						// equivalence: R1 = f1 x B1, U1 = f1 u B1, likewise 2, s = u + c x
						b1, b2 := G, H
						v := []EC{pt(b1), pt(b1.mul(mul(f1, x))), pt(b2), pt(b2.mul(mul(f2, x)))}
						P := []EC{pt(b1.mul(mul(f1, u))), pt(b2.mul(mul(f2, u)))}
						ch := hashPts(sN, append(append([]EC{}, v...), P...)...)
						try(kEquiv, v, Fields{P, []BI{ch, add(u, mul(ch, x))}})
						// consistency: CM, T1 off by f1; Tok, T2 off by f2
						r, u2 := add(x, big.NewInt(3)), add(u, big.NewInt(7))
						pk := H.mul(big.NewInt(13))
						v = []EC{pt(G.mul(x).add(H.mul(r)).mul(f1)), pt(pk.mul(mul(f2, r))), pt(pk)}
						P = []EC{pt(G.mul(u).add(H.mul(u2)).mul(f1)), pt(pk.mul(mul(f2, u2)))}
						ch = hashPts(sN, append([]EC{cp.G, cp.H, v[0], v[1], v[2]}, P...)...)
						try(kCons, v, Fields{P, []BI{ch, add(u, mul(ch, x)), add(u2, mul(ch, r))}})
						// gspfs: R = f1 (sB + cA)
						if fj == 0 && f1.Sign() != 0 {
							for _, B := range []rep{G, H, {big.NewInt(7), big.NewInt(11)}} {
								A := pt(B.mul(x))
								R := pt(B.mul(u))
								ch = hashPts(sN, pt(B), A, R)
								s := add(mul(u, new(big.Int).ModInverse(mN(f1), sN)), new(big.Int).Neg(mul(ch, x)))
								try(kGSPFS, []EC{A}, Fields{[]EC{pt(B), R}, []BI{s, ch}})
							}
						}
						if c.Stop() {
							return
						}
					}
				}
			}
		}
	}
}

func init() {
	ck := &Check{ID: "C03", Level: "model_checking",
		Rule:        "state = one (parameters, statement, proof contents); the real verifier's verdict must be the specification's, as (true, nil) or (false, error)",
		Assumptions: []string{"on secp256k1 single changes and equation-factor forgeries of boundary transcripts are enumerated, not all proofs"}}
	add := func(name, tier, bound string, run func(*Ctx)) {
		ck.Units = append(ck.Units, Unit{Name: name, Tier: tier, Bound: bound, Run: run})
	}
	for _, n := range []int{5, 13, 19, -13} {
		n := n
		tier := ""
		add(fmt.Sprintf("toy-gspfs-%s", toyName(n)), tier, fmt.Sprintf("all (base, A, commitment, response, challenge) of %s", toyDesc(n)), func(c *Ctx) { c03GSPFS(c, n) })
	}
	add("toy-gspfs-31", "thorough", "all 31^5", func(c *Ctx) { c03GSPFS(c, 31) })
	add("toy-equivalence-5", "", "all 5^8 (statement, commitments, response, challenge)", func(c *Ctx) { c03Equiv(c, 5) })
	add("toy-equivalence-7", "", "all 7^8", func(c *Ctx) { c03Equiv(c, 7) })
	add("toy-equivalence-x0-5", "", "all 5^8 on a curve that has points with x = 0", func(c *Ctx) { c03Equiv(c, -5) })
	add("toy-consistency-x0-5", "", "all H and 5^8 on a curve that has points with x = 0", func(c *Ctx) { c03Cons(c, -5) })
	add("toy-consistency-3", "", "all H and 3^8", func(c *Ctx) { c03Cons(c, 3) })
	add("toy-consistency-5", "", "all H and 5^8", func(c *Ctx) { c03Cons(c, 5) })
	add("toy-consistency-7", "thorough", "all H and 7^8", func(c *Ctx) { c03Cons(c, 7) })
	add("toy-wide-3", "", "group of order 3: all points, scalars in [-3,6) and two huge ones", func(c *Ctx) { c03Wide(c, []int{kGSPFS, kEquiv, kCons}, 3) })
	add("toy-wide-5", "thorough", "the same for order 5", func(c *Ctx) { c03Wide(c, []int{kGSPFS, kEquiv, kCons}, 5) })
	for _, k := range []int{kGSPFS, kEquiv, kCons} {
		k := k
		add("secp-"+kindName[k], "", "every single field, statement and H change (alternatives listed in pointAlts, scalarAlts) of honest proofs", func(c *Ctx) { c0xReal(c, k) })
	}
	for _, strict := range []bool{false, true} {
		strict := strict
		sfx, desc := "", ""
		if strict {
			sfx, desc = "-strict", ", on a curve that panics on them as crypto/elliptic does"
		}
		add("plane-gspfs-3"+sfx, "", "all statements, bases and commitments over the coordinate plane of a curve of order 3 with a point off the curve, right challenge, all responses"+desc, func(c *Ctx) { planeGSPFS(c, 3, strict) })
		add("plane-gspfs-5"+sfx, "", "the same for order 5"+desc, func(c *Ctx) { planeGSPFS(c, 5, strict) })
		add("plane-equivalence-3"+sfx, "", "order 3: one or two points of statement and commitments anywhere off the curve, right challenge, all responses"+desc, func(c *Ctx) { planeEquiv(c, 3, strict) })
		add("plane-consistency-3"+sfx, "", "the same for consistency proofs"+desc, func(c *Ctx) { planeCons(c, 3, strict) })
	}
	for _, k := range []int{kGSPFS, kEquiv, kCons} {
		k := k
		for _, n := range []int{3, 5, -5} {
			n := n
			add(fmt.Sprintf("alias-%s-%s", kindName[k], toyName(n)), "", fmt.Sprintf("%s: all true statements of a three-parameter family, all nonces, each point written as up to 44 other coordinate pairs (same residues, same low words, same magnitude), in the transcript too", toyDesc(n)), func(c *Ctx) { aliasToy(c, k, n) })
		}
		add("alias-"+kindName[k]+"-secp", "", "the same on secp256k1, nonces zero or not", func(c *Ctx) { aliasSecp(c, k) })
	}
	add("secp-forge", "", "transcripts with correct challenge whose equations are off by every pair of factors {1,-1,lambda,lambda^2,-lambda,2,0}", c03Forge)
	register(ck)
}
