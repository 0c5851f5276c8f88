package zkmc

import (
	"crypto/sha256"
	"fmt"
	"math/big"

	zk "github.com/mit-dci/zksigma"
)

// c06OffCurve: range proofs for commitments to values out of range, made of entries off the curve.
// (0, y) has order 3 and (x, 0) order 2 on the curves they lie on, so a prover can pick the ring
// points before the challenge and try scalars until they fit; y and x are chosen such that the
// chord through both meets the commitment. Needs no opening of the commitment at all.
func c06OffCurve(c *Ctx) {
	cp := zk.TestCurve
	g := secpGroup{}
	// the formulas without regard to the curve's b
	add := func(a, b EC) EC {
		if a.X.Sign() == 0 && a.Y.Sign() == 0 {
			return b
		}
		if b.X.Sign() == 0 && b.Y.Sign() == 0 {
			return a
		}
		return toApt(a).add(toApt(b)).ec()
	}
	// multiples as the library computes them off the curve; it may refuse to
	mult := func(p EC, k BI) (r EC) {
		defer func() {
			if recover() != nil {
				r = EC{X: new(big.Int), Y: new(big.Int)}
			}
		}()
		return cp.Mult(p, k)
	}
	mod := func(x BI) BI { return x.Mod(x, sP) }
	vals := []BI{big.NewInt(-1), pow2(40), new(big.Int).Rsh(sN, 1), big.NewInt(-5), pow2(64), new(big.Int).Sub(pow2(40), one), new(big.Int)}
	for _, v := range vals {
		for _, n := range []int{2, 3, 40} {
			for at := 0; at+1 < n; at += 13 {
				if !c.Case("secp256k1: forged proof of %d entries for a commitment to %s, off-curve entries at %d and %d", n, v.Text(16), at, at+1) {
					continue
				}
				for r := int64(1); r < 40; r++ {
					M := g.Add(g.Mul(cp.G, v), g.Mul(cp.H, big.NewInt(r)))
					l := cubicRoot(mod(new(big.Int).Mul(big.NewInt(-2), M.X)), mod(new(big.Int).Neg(M.Y)), sP)
					if l == nil || l.Sign() == 0 {
						continue
					}
					x2 := mod(new(big.Int).Add(M.X, new(big.Int).Mul(M.Y, new(big.Int).ModInverse(l, sP))))
					y1 := mod(new(big.Int).Neg(new(big.Int).Add(new(big.Int).Mul(l, M.X), M.Y)))
					A, B := EC{X: new(big.Int), Y: y1}, EC{X: x2, Y: new(big.Int)}
					if !sameEC(add(A, B), M) || onCurve(A.X, A.Y) || onCurve(B.X, B.Y) {
						c.Fail("harness: the forged entries do not add up")
						return
					}
					f := Fields{P: []EC{M}, S: []BI{nil}}
					h := sha256.New()
					for i := 0; i < n; i++ {
						P := EC{X: new(big.Int), Y: new(big.Int)} // infinity: a bit 0 with blinding 0
						if i == at {
							P = A
						} else if i == at+1 {
							P = B
						}
						f.P, f.S = append(f.P, P), append(f.S, big.NewInt(1))
						h.Write(P.X.Bytes())
						h.Write(P.Y.Bytes())
					}
					f.S[0] = mN(new(big.Int).SetBytes(h.Sum(nil)))
					fit := 0
					for i := at; i <= at+1; i++ {
						C := f.P[1+i]
						rhs := g.Neg(add(C, g.Neg(cp.HPoints[i])))
						m := mult(rhs, f.S[0])
						for s := int64(1); s < 200; s++ {
							tot := add(g.Mul(cp.H, big.NewInt(s)), m)
							e := sha256.Sum256(append(tot.X.Bytes(), tot.Y.Bytes()...))
							ei := mN(new(big.Int).SetBytes(e[:]))
							if sameEC(mult(C, ei), C) {
								f.S[1+i] = big.NewInt(s)
								fit++
								break
							}
						}
					}
					p, err := build(kRange, f)
					if err != nil {
						c.Fail("decoder rejects well-formed bytes: %v", err)
						return
					}
					verdict(c, p, cp, []EC{M}, false, func() string {
						return fmt.Sprintf("forged range proof for a commitment to %v (blinding %d): %s", v, r, f)
					})
					c.Add(1, 1, 1)
					c.Outcome(fmt.Sprintf("forged from %d fitting entries: rejected", fit))
					break
				}
				c.Alive()
				if c.Stop() {
					return
				}
			}
		}
	}
}

// cubicRoot finds a root of x^3 + a x + b mod p, or nil
func cubicRoot(a, b, p BI) BI {
	type poly []*big.Int
	f := poly{b, a, big.NewInt(0), big.NewInt(1)}
	trim := func(x poly) poly {
		for len(x) > 0 && x[len(x)-1].Sign() == 0 {
			x = x[:len(x)-1]
		}
		return x
	}
	rem := func(x, m poly) poly {
		x = append(poly{}, x...)
		inv := new(big.Int).ModInverse(m[len(m)-1], p)
		for x = trim(x); len(x) >= len(m); x = trim(x) {
			q := new(big.Int).Mul(x[len(x)-1], inv)
			q.Mod(q, p)
			o := len(x) - len(m)
			for i := range m {
				t := new(big.Int).Sub(x[o+i], new(big.Int).Mul(q, m[i]))
				x[o+i] = t.Mod(t, p)
			}
		}
		return x
	}
	mul := func(x, y, m poly) poly {
		if len(x) == 0 || len(y) == 0 {
			return nil
		}
		o := make(poly, len(x)+len(y)-1)
		for i := range o {
			o[i] = new(big.Int)
		}
		for i := range x {
			for j := range y {
				o[i+j].Add(o[i+j], new(big.Int).Mul(x[i], y[j]))
				o[i+j].Mod(o[i+j], p)
			}
		}
		return rem(o, m)
	}
	pow := func(x poly, e *big.Int, m poly) poly {
		r := poly{big.NewInt(1)}
		for i := e.BitLen() - 1; i >= 0; i-- {
			r = mul(r, r, m)
			if e.Bit(i) == 1 {
				r = mul(r, x, m)
			}
		}
		return r
	}
	sub := func(x, y poly) poly {
		n := len(x)
		if len(y) > n {
			n = len(y)
		}
		o := make(poly, n)
		for i := range o {
			o[i] = new(big.Int)
			if i < len(x) {
				o[i].Add(o[i], x[i])
			}
			if i < len(y) {
				o[i].Sub(o[i], y[i])
			}
			o[i].Mod(o[i], p)
		}
		return trim(o)
	}
	gcd := func(x, y poly) poly {
		for len(y) > 0 {
			x, y = y, rem(x, y)
		}
		return x
	}
	g := gcd(f, sub(pow(poly{big.NewInt(0), big.NewInt(1)}, p, f), poly{big.NewInt(0), big.NewInt(1)}))
	for k := int64(1); len(g) > 2; k++ {
		e := new(big.Int).Rsh(p, 1)
		h := gcd(g, sub(pow(poly{big.NewInt(k), big.NewInt(1)}, e, g), poly{big.NewInt(1)}))
		if len(h) > 1 && len(h) < len(g) {
			g = h
		}
		if k > 50 {
			return nil
		}
	}
	if len(g) != 2 {
		return nil
	}
	r := new(big.Int).Mul(g[0], new(big.Int).ModInverse(g[1], p))
	r.Neg(r)
	return r.Mod(r, p)
}
