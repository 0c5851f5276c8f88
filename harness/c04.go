package zkmc

import (
	"fmt"
	"math/big"

	zk "github.com/mit-dci/zksigma"
)

func c04Disj(c *Ctx, n int, all bool) {
	t := GetToy(n)
	n = t.N
	cp := t.CP(2%n, 0)
	tuple(n, 4, func(x []int) bool {
		b1, r1, b2, r2 := x[0], x[1], x[2], x[3]
		if !c.Case("disjunctive N=%d %d->%d or %d->%d, all commitments, sub-challenges and responses", n, b1, r1, b2, r2) {
			return !c.Stop()
		}
		v := []EC{t.Pts[b1], t.Pts[r1], t.Pts[b2], t.Pts[r2]}
		var acc, cnt int64
		for t1 := 0; t1 < n; t1++ {
			for t2 := 0; t2 < n; t2++ {
				right := t.Chal(b1, r1, b2, r2, t1, t2)
				for ch := 0; ch < n; ch++ {
					for c1 := 0; c1 < n; c1++ {
						for c2 := 0; c2 < n; c2++ {
							if !all && ch != right && (c1+c2)%n != ch && (c1+c2)%n != right {
								continue
							}
							for s1 := 0; s1 < n; s1++ {
								for s2 := 0; s2 < n; s2++ {
									e1, e2 := (s1*b1-t1-c1*r1)%n == 0, (s2*b2-t2-c2*r2)%n == 0
									if !all && ch != right && !(e1 && e2) {
										continue // quick: with a wrong challenge only proofs that are right otherwise
									}
									want := ch == right && (c1+c2)%n == ch && e1 && e2
									if want {
										acc++
									}
									cnt++
									p := Proof{kind: kDisj, d: &zk.DisjunctiveProof{T1: t.Pts[t1], T2: t.Pts[t2], C: bi(ch), C1: bi(c1), C2: bi(c2), S1: bi(s1), S2: bi(s2)}}
									verdict(c, p, cp, v, want, func() string {
										return fmt.Sprintf("%d->%d or %d->%d T1 %d T2 %d c %d c1 %d c2 %d s1 %d s2 %d", b1, r1, b2, r2, t1, t2, ch, c1, c2, s1, s2)
									})
									if c.Failed() {
										return false
									}
								}
							}
						}
					}
				}
				if c.Tick() {
					return false
				}
				c.Alive()
			}
		}
		c.Add(cnt, cnt, cnt)
		c.OutcomeN("accepted", acc)
		c.OutcomeN("rejected", cnt-acc)
		return !c.Stop()
	})
}

// disjShape is one embedded disjunctive proof in discrete logs.
type disjShape struct{ t1, t2, c, c1, c2, s1, s2 int }

func (d disjShape) ok(t *Toy, b1, r1, b2, r2 int) bool {
	return t.okDisj(b1, r1, b2, r2, d.t1, d.t2, d.c, d.c1, d.c2, d.s1, d.s2)
}

// validDisj finds proofs valid for b1->r1 or b2->r2 (some exist for any statement: the verifier only sees equations).
func validDisj(t *Toy, b1, r1, b2, r2, limit int) []disjShape {
	n := t.N
	var l []disjShape
	for c1 := 0; c1 < n; c1++ {
		for s1 := 0; s1 < n; s1++ {
			for c2 := 0; c2 < n; c2++ {
				for s2 := 0; s2 < n; s2++ {
					t1, t2 := md(s1*b1-c1*r1, n), md(s2*b2-c2*r2, n)
					if ch := t.Chal(b1, r1, b2, r2, t1, t2); (c1+c2)%n == ch {
						l = append(l, disjShape{t1, t2, ch, c1, c2, s1, s2})
						if len(l) >= limit {
							return l
						}
					}
				}
			}
		}
	}
	return l
}

func abcFields(t *Toy, B, C, T1, T2, ctok, ch, j, k, l int, d disjShape) Fields {
	return Fields{[]EC{t.Pts[B], t.Pts[C], t.Pts[T1], t.Pts[T2], t.Pts[ctok], t.Pts[d.t1], t.Pts[d.t2]},
		[]BI{bi(ch), bi(j), bi(k), bi(l), bi(d.c), bi(d.c1), bi(d.c2), bi(d.s1), bi(d.s2)}}
}

// c04ABC: all outer parts against right and wrong embedded proofs.
func c04ABC(c *Ctx, n int, full bool) {
	t := GetToy(n)
	n = t.N
	for h := 1; h < n; h++ {
		cp := t.CP(h, 0)
		tuple(n, 4, func(x []int) bool {
			cm, tok, B, C := x[0], x[1], x[2], x[3]
			if !c.Case("abc N=%d H=%d CM=%d Tok=%d B=%d C=%d, all commitments and responses, right and wrong embedded proofs", n, h, cm, tok, B, C) {
				return !c.Stop()
			}
			b2, r2 := h, md(C-1, n)
			good := validDisj(t, cm, tok, b2, r2, 1)
			if len(good) == 0 {
				return true
			}
			ds := append([]disjShape{}, good...)
			// each embedded field off by one, and proofs valid for neighbouring statements
			g := good[0]
			for i := 0; i < 7; i++ {
				e := g
				p := []*int{&e.t1, &e.t2, &e.c, &e.c1, &e.c2, &e.s1, &e.s2}[i]
				*p = (*p + 1) % n
				ds = append(ds, e)
			}
			ds = append(ds, validDisj(t, cm, tok, b2, C, 1)...)             // c = 0 in place of c = 1
			ds = append(ds, validDisj(t, cm, tok, b2, md(C-2, n), 1)...)    // another C
			ds = append(ds, validDisj(t, cm, tok, 1, r2, 1)...)             // G in place of H
			ds = append(ds, validDisj(t, (cm+1)%n, tok, b2, r2, 1)...)      // another commitment
			ds = append(ds, validDisj(t, cm, (tok+1)%n, b2, r2, 1)...)      // another token
			ds = append(ds, validDisj(t, tok, cm, b2, r2, 1)...)            // roles swapped
			ds = append(ds, validDisj(t, cm, tok, b2, md(1-C, n), 1)...)    // negated
			ds = append(ds, validDisj(t, cm, tok, b2, md(r2+tok, n), 1)...) // shifted
			dok := make([]bool, len(ds))
			prs := make([]Proof, 0, len(ds))
			for i, d := range ds {
				dok[i] = d.ok(t, cm, tok, b2, r2)
			}
			var acc, cnt int64
			// j, k, l are only reachable through the decoder: decode once per combination
			for j := 0; j < n; j++ {
				for k := 0; k < n; k++ {
					for l := 0; l < n; l++ {
						prs = prs[:0]
						for _, d := range ds {
							p, err := build(kABC, abcFields(t, B, C, 0, 0, (j+k)%n, 0, j, k, l, d))
							if err != nil {
								c.Fail("decoder rejects well-formed bytes: %v", err)
								return false
							}
							prs = append(prs, p)
						}
						for t1 := 0; t1 < n; t1++ {
							for t2 := 0; t2 < n; t2++ {
								right := t.Chal(1, h, cm, tok, B, C, t1, t2)
								eq := (right*cm+t1-j-k*tok)%n == 0 && (right*C+t2-j*B-l*h)%n == 0
								for off := 0; off < n; off++ {
									if off > 0 && !full && !eq {
										break
									}
									for i := range ds {
										if i > 0 && !full && !(eq && off == 0) {
											break // quick: wrong embedded proofs only under an outer part that is right
										}
										p := prs[i]
										p.a.T1, p.a.T2, p.a.Challenge = t.Pts[t1], t.Pts[t2], bi((right+off)%n)
										want := off == 0 && eq && dok[i]
										if want {
											acc++
										}
										cnt++
										what := func() string {
											return fmt.Sprintf("H %d CM %d tok %d B %d C %d T1 %d T2 %d chal right+%d j %d k %d l %d embedded %+v", h, cm, tok, B, C, t1, t2, off, j, k, l, ds[i])
										}
										v := []EC{t.Pts[cm], t.Pts[tok]}
										verdict(c, p, cp, v, want, what)
										if want || cnt%7 == 0 {
											verdict(c, Proof{kind: kIneq, i: (*zk.InequalityProof)(p.a)}, cp, v, want, what)
										}
										if c.Failed() {
											return false
										}
									}
								}
							}
						}
					}
				}
				if c.Tick() {
					return false
				}
				c.Alive()
			}
			c.Add(cnt, cnt, cnt)
			c.OutcomeN("abc accepted", acc)
			c.OutcomeN("abc rejected", cnt-acc)
			return !c.Stop()
		})
		if c.Stop() {
			return
		}
	}
}

// c04Embedded: a right outer part around every embedded proof.
func c04Embedded(c *Ctx, n int) {
	t := GetToy(n)
	n = t.N
	for h := 1; h < n; h++ {
		cp := t.CP(h, 0)
		tuple(n, 3, func(x []int) bool {
			cm, tok, C := x[0], x[1], x[2]
			if !c.Case("abc N=%d H=%d CM=%d Tok=%d C=%d, a right outer part, all embedded proofs", n, h, cm, tok, C) {
				return !c.Stop()
			}
			// a right outer part: choose B, j, k, l, solve for T1, T2 by search
			var T1, T2, ch, B, j, k, l int
			found := false
			for B = 0; B < n && !found; B++ {
				for a := 0; a < n*n*n && !found; a++ {
					j, k, l = a%n, a/n%n, a/n/n
					for T1 = 0; T1 < n && !found; T1++ {
						for T2 = 0; T2 < n; T2++ {
							ch = t.Chal(1, h, cm, tok, B, C, T1, T2)
							if (ch*cm+T1-j-k*tok)%n == 0 && (ch*C+T2-j*B-l*h)%n == 0 {
								found = true
								break
							}
						}
						if found {
							break
						}
					}
					if found {
						break
					}
				}
				if found {
					break
				}
			}
			if !found {
				return true
			}
			var acc, cnt int64
			tuple(n, 7, func(y []int) bool {
				d := disjShape{y[0], y[1], y[2], y[3], y[4], y[5], y[6]}
				f := abcFields(t, B, C, T1, T2, 1, ch, j, k, l, d)
				p, err := build(kABC, f)
				if err != nil {
					c.Fail("decoder rejects well-formed bytes: %v", err)
					return false
				}
				want := d.ok(t, cm, tok, h, md(C-1, n))
				if want {
					acc++
				}
				cnt++
				verdict(c, p, cp, []EC{t.Pts[cm], t.Pts[tok]}, want, func() string {
					return fmt.Sprintf("H %d CM %d tok %d C %d embedded %+v", h, cm, tok, C, d)
				})
				return !c.Failed() && !c.Tick()
			})
			c.Add(cnt, cnt, cnt)
			c.OutcomeN("embedded accepted", acc)
			c.OutcomeN("embedded rejected", cnt-acc)
			return !c.Stop()
		})
		if c.Stop() {
			return
		}
	}
}

// c04Wide: scalars outside [0,N).
func c04Wide(c *Ctx, n int) {
	t := GetToy(n)
	n = t.N
	g := toyGroup{t}
	cp := t.CP(2%n, 0)
	shift := []BI{new(big.Int), big.NewInt(int64(n)), big.NewInt(int64(-n)), big.NewInt(int64(256 * n))}
	tuple(n, 6, func(x []int) bool {
		if !c.Case("disjunctive N=%d points %v, scalars shifted by multiples of N", n, x) {
			return !c.Stop()
		}
		v := []EC{t.Pts[x[0]], t.Pts[x[1]], t.Pts[x[2]], t.Pts[x[3]]}
		P := []EC{t.Pts[x[4]], t.Pts[x[5]]}
		tuple(n, 5, func(y []int) bool {
			S := make([]BI, 5)
			for i := range y {
				S[i] = bi(y[i])
			}
			want := refVerify(g, cp, kDisj, v, Fields{P, S})
			for i := 0; i < 5; i++ {
				for _, sh := range shift[1:] {
					W := append([]BI(nil), S...)
					W[i] = new(big.Int).Add(S[i], sh)
					p, _ := build(kDisj, Fields{P, W})
					c.Guard("verifier", func() {
						ok, err := verify(p, cp, v)
						if ok && !want || ok != (err == nil) {
							c.Fail("verdict (%v, %v), specification says %v: points %v scalars %v, scalar %d shifted by %v", ok, err, want, x, y, i, sh)
						}
					})
					c.Add(1, 1, 1)
				}
			}
			return !c.Failed() && !c.Tick()
		})
		return !c.Stop()
	})
}

// c04Forge: secp256k1 transcripts with right challenges whose equations are off by chosen factors.
func c04Forge(c *Ctx) {
	g := secpGroup{}
	mul := func(a, b BI) BI { return mN(new(big.Int).Mul(a, b)) }
	add := func(a, b BI) BI { return mN(new(big.Int).Add(a, b)) }
	neg := func(a BI) BI { return mN(new(big.Int).Neg(a)) }
	u1, u2 := hexInt("6f3456789abcdef0123456789abcdef0123456789abcdef0123456789abcde55"), hexInt("5f00000000000000000000000000000000000000000000000000000000000017")
	x1, x2 := hexInt("11223344556677889900aabbccddeeff00112233445566778899aabbccddee01"), new(big.Int).Sub(sN, big.NewInt(77))
	for pi, cp := range realParams() {
		H := hReps[pi]
		G := gReps[pi]
		for fi, f1 := range factors() {
			for fj, f2 := range factors() {
				for sum := 0; sum < 3; sum++ { // sub-challenges add up to the challenge; off by one; to its negation
					if !c.Case("secp256k1 params %d: disjunctive and abc equations off by factors %s and %s, sum rule %d", pi, f1.Text(16), f2.Text(16), sum) {
						continue
					}
					if pi > 0 && !c.Thorough && (fi+fj+sum)%4 != 0 {
						continue
					}
					disj := func(b1, b2 rep, x1, x2 BI) ([]EC, Fields) {
						v := []EC{pt(b1), pt(b1.mul(mul(f1, x1))), pt(b2), pt(b2.mul(mul(f2, x2)))}
						P := []EC{pt(b1.mul(mul(f1, u1))), pt(b2.mul(mul(f2, u2)))}
						ch := hashPts(sN, v[0], v[1], v[2], v[3], P[0], P[1])
						c1 := big.NewInt(12345)
						c2 := add(ch, neg(c1))
						switch sum {
						case 1:
							c2 = add(c2, one)
						case 2:
							c2 = add(neg(ch), neg(c1))
						}
						return v, Fields{P, []BI{ch, c1, c2, add(u1, mul(c1, x1)), add(u2, mul(c2, x2))}}
					}
					try := func(kind int, v []EC, fl Fields) {
						want := refVerify(g, cp, kind, v, fl)
						p, err := build(kind, fl)
						if err != nil {
							c.Fail("cannot build: %v", err)
							return
						}
						verdict(c, p, cp, v, want, func() string {
							return fmt.Sprintf("%s forged with factors %v %v sum %d: %s", kindName[kind], f1, f2, sum, fl)
						})
						c.Add(1, 1, 1)
						c.Outcome(fmt.Sprintf("forged %s verdict %v", kindName[kind], want))
					}
					v, fl := disj(G, H, x1, x2)
					try(kDisj, v, fl)
					v, fl = disj(H, rep{big.NewInt(9), big.NewInt(4)}, x2, x1)
					try(kDisj, v, fl)
					// abc: commitment CM = vG + rH, token sk r H; the embedded proof right side c = 1
					if sum == 0 {
						vv, r, sk := big.NewInt(42), hexInt("1234567890abcdef1234567890abcdef"), big.NewInt(99)
						inv := new(big.Int).ModInverse(vv, sN)
						isk := new(big.Int).ModInverse(sk, sN)
						ub, uc := big.NewInt(1001), big.NewInt(2002)
						cmR, tokR := G.mul(vv).add(H.mul(r)), H.mul(mul(r, sk))
						BR := G.mul(inv).add(H.mul(ub))
						CR := G.add(H.mul(uc))
						// outer equations: chal*CM + T1 = jG + kTok off by f1: CM' = f1 CM, T1' = f1 T1
						a1, a2, a3 := big.NewInt(31337), hexInt("fedcba9876543210fedcba9876543210"), big.NewInt(7)
						T1R := G.mul(a1).add(tokR.mul(a2)).mul(f1)
						CM := cmR.mul(f1)
						T2R := BR.mul(a1).add(H.mul(a3)).mul(f2)
						// C off by f2 breaks the embedded statement unless uc is adapted; keep C and shift l by the factor instead
						ch := hashPts(sN, cp.G, cp.H, pt(CM), pt(tokR), pt(BR), pt(CR), pt(T1R), pt(T2R))
						j, k := add(a1, mul(vv, ch)), add(a2, mul(isk, ch))
						l := add(a3, mul(add(uc, neg(mul(vv, ub))), ch))
						// embedded: simulate left, prove right (C - G = uc H)
						c1 := big.NewInt(4321)
						s1 := hexInt("77777777777777777777")
						e1 := CM.mul(s1).add(tokR.mul(neg(c1)))
						e2 := H.mul(u2)
						dc := hashPts(sN, pt(CM), pt(tokR), cp.H, pt(H.mul(uc)), pt(e1), pt(e2))
						c2 := add(dc, neg(c1))
						F := Fields{[]EC{pt(BR), pt(CR), pt(T1R), pt(T2R), pt(tokR), pt(e1), pt(e2)}, []BI{ch, j, k, l, dc, c1, c2, s1, add(u2, mul(c2, uc))}}
						try(kABC, []EC{pt(CM), pt(tokR)}, F)
						try(kIneq, []EC{pt(CM), pt(tokR)}, F)
						// value 0, left side proven: then C is free, and the second equation can be off by exactly f2
						{
							CM, tok := H.mul(mul(f1, r)), H.mul(mul(f1, mul(r, sk)))
							C2 := H.mul(mul(f2, uc))
							BR := H.mul(ub)
							T1R := G.mul(a1).add(tok.mul(a2))
							T2R := BR.mul(a1).add(H.mul(a3)).mul(f2)
							ch := hashPts(sN, cp.G, cp.H, pt(CM), pt(tok), pt(BR), pt(C2), pt(T1R), pt(T2R))
							j, k, l := a1, add(a2, mul(isk, ch)), add(a3, mul(uc, ch))
							e1 := CM.mul(u1)
							right := C2.add(G.mul(big.NewInt(-1)))
							c2, s2 := big.NewInt(999), big.NewInt(888)
							e2 := H.mul(s2).add(right.mul(neg(c2)))
							dc := hashPts(sN, pt(CM), pt(tok), cp.H, pt(right), pt(e1), pt(e2))
							c1 := add(dc, neg(c2))
							try(kABC, []EC{pt(CM), pt(tok)}, Fields{[]EC{pt(BR), pt(C2), pt(T1R), pt(T2R), pt(tok), pt(e1), pt(e2)}, []BI{ch, j, k, l, dc, c1, c2, add(u1, mul(c1, sk)), s2}})
						}
						// the same with a C that commits to 2 (or 0), the embedded proof made for it
						for _, cv := range []int64{0, 2, -1} {
							CR2 := G.mul(big.NewInt(cv)).add(H.mul(uc))
							ch := hashPts(sN, cp.G, cp.H, pt(CM), pt(tokR), pt(BR), pt(CR2), pt(T1R), pt(T2R))
							j, k := add(a1, mul(vv, ch)), add(a2, mul(isk, ch))
							F2 := Fields{append([]EC(nil), F.P...), append([]BI(nil), F.S...)}
							F2.P[1] = pt(CR2)
							F2.S[0], F2.S[1], F2.S[2], F2.S[3] = ch, j, k, add(a3, mul(add(uc, neg(mul(vv, ub))), ch))
							try(kABC, []EC{pt(CM), pt(tokR)}, F2)
						}
					}
					if c.Stop() {
						return
					}
				}
			}
		}
	}
}

func init() {
	ck := &Check{ID: "C04", Level: "model_checking",
		Rule:        "state = one (parameters, statement, proof contents); the real verifier's verdict must be the specification's, as (true, nil) or (false, error)",
		Assumptions: []string{"on secp256k1 single changes and equation-factor forgeries are enumerated, not all proofs", "the audit token inside an ABC proof is not part of the verified statement (neither the code nor its documentation checks it)"}}
	add := func(name, tier, bound string, run func(*Ctx)) {
		ck.Units = append(ck.Units, Unit{Name: name, Tier: tier, Bound: bound, Run: run})
	}
	add("toy-disjunctive-3", "", "all 3^11 (statement, commitments, challenge, sub-challenges, responses)", func(c *Ctx) { c04Disj(c, 3, true) })
	add("toy-disjunctive-5", "", "order 5: all points and scalars under the right challenge; under wrong challenges those otherwise right", func(c *Ctx) { c04Disj(c, 5, false) })
	add("toy-disjunctive-x0-5", "", "the same on a curve that has points with x = 0", func(c *Ctx) { c04Disj(c, -5, false) })
	add("toy-disjunctive-5-all", "thorough", "all 5^11", func(c *Ctx) { c04Disj(c, 5, true) })
	add("toy-abc-3", "", "order 3: all H, statements, B, C, T1, T2, challenges, responses x 16 right and wrong embedded proofs", func(c *Ctx) { c04ABC(c, 3, true) })
	add("toy-abc-5", "", "order 5: the same, wrong challenges and embedded proofs only around right outer parts", func(c *Ctx) { c04ABC(c, 5, false) })
	add("toy-abc-x0-5", "", "the same on a curve that has points with x = 0", func(c *Ctx) { c04ABC(c, -5, false) })
	add("toy-embedded-3", "", "order 3: a right outer part around all 3^7 embedded proofs", func(c *Ctx) { c04Embedded(c, 3) })
	add("toy-embedded-5", "thorough", "order 5: around all 5^7 embedded proofs", func(c *Ctx) { c04Embedded(c, 5) })
	add("toy-wide-3", "", "order 3: all disjunctive proofs with one scalar shifted by a multiple of N", func(c *Ctx) { c04Wide(c, 3) })
	for _, k := range []int{kDisj, kABC, kIneq} {
		k := k
		add("secp-"+kindName[k], "", "every single field, statement and H change of honest proofs", func(c *Ctx) { c0xReal(c, k) })
	}
	for _, strict := range []bool{false, true} {
		strict := strict
		sfx, desc := "", ""
		if strict {
			sfx, desc = "-strict", ", on a curve that panics on them as crypto/elliptic does"
		}
		add("plane-disjunctive-3"+sfx, "", "order 3: one or two points of statement and commitments anywhere in the coordinate plane off the curve, right challenge, all sub-challenges and responses that fit by the addition formulas"+desc, func(c *Ctx) { planeDisj(c, 3, strict) })
		add("plane-abc-3"+sfx, "", "the same for abc and inequality proofs, points of the embedded proof included"+desc, func(c *Ctx) { planeABC(c, 3, strict) })
	}
	for _, k := range []int{kDisj, kABC, kIneq} {
		k := k
		for _, n := range []int{3, 5, -5} {
			n := n
			tier := ""
			if n != 3 {
				tier = "thorough"
			}
			add(fmt.Sprintf("alias-%s-%s", kindName[k], toyName(n)), tier, fmt.Sprintf("%s: all true statements of a three-parameter family, all nonces (abc, inequality: up to one zero nonce, or all zero), each point written as up to 44 other coordinate pairs (same residues, same low words, same magnitude), in the transcript too", toyDesc(n)), func(c *Ctx) { aliasToy(c, k, n) })
		}
		add("alias-"+kindName[k]+"-secp", "", "the same on secp256k1, nonces zero or not", func(c *Ctx) { aliasSecp(c, k) })
	}
	add("secp-forge", "", "transcripts with correct challenges whose equations and sub-challenge sum are off in every combination", c04Forge)
	register(ck)
}
