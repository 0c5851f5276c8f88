package zkmc

import (
	"crypto/elliptic"
	"fmt"
	"math/big"

	zk "github.com/mit-dci/zksigma"
)

// c13Toy: all points, pairs, triples and scalars over small groups, with every choice of G and H.
func c13Toy(c *Ctx, t *Toy, allGens bool) {
	n := t.N
	eq := func(what string, p EC, want int) {
		if l := t.Log(p); l != md(want, n) {
			c.Fail("N=%d: %s gives %s (log %d), want log %d", n, what, ecs(p), l, md(want, n))
		}
	}
	fresh := func(i int) EC {
		return EC{X: new(big.Int).Set(t.Pts[i].X), Y: new(big.Int).Set(t.Pts[i].Y)}
	}
	for gg := 1; gg < n; gg++ {
		for h := 0; h < n; h++ {
			if !allGens && gg != 1 && gg != h && gg != 2 {
				continue
			}
			if !c.Case("N=%d G=%d H=%d: all pairs and scalars", n, gg, h) {
				continue
			}
			cp := t.CPG(gg, h, 0)
			c.Guard("point operations", func() {
				for i := 0; i < n && !c.Failed(); i++ {
					for j := 0; j < n; j++ {
						// separate copies, and the very same point
						p, q := t.Pts[i], fresh(j)
						if i == j && (i+gg)%2 == 0 {
							q = p
						}
						eq(fmt.Sprintf("Add(%d,%d)", i, j), cp.Add(p, q), i+j)
						eq(fmt.Sprintf("Sub(%d,%d)", i, j), cp.Sub(p, q), i-j)
						if p.Equal(q) != (i == j) || q.Equal(p) != (i == j) {
							c.Fail("N=%d: Equal(%d,%d) = %v", n, i, j, p.Equal(q))
						}
						c.Add(1, 4, 4)
					}
					eq(fmt.Sprintf("Neg(%d)", i), cp.Neg(t.Pts[i]), -i)
					eq(fmt.Sprintf("Add(%d, Zero)", i), cp.Add(t.Pts[i], zk.Zero), i)
					eq(fmt.Sprintf("Sub(Zero, %d)", i), cp.Sub(zk.Zero, t.Pts[i]), -i)
					for k := -2 * n; k <= 2*n; k++ {
						s := big.NewInt(int64(k))
						eq(fmt.Sprintf("Mult(%d,%d)", i, k), cp.Mult(t.Pts[i], s), i*k)
						eq(fmt.Sprintf("CommitR(%d,%d)", i, k), zk.CommitR(cp, t.Pts[i], s), i*k)
						c.Add(1, 2, 2)
						if k >= -n && k <= n {
							for m := 0; m < n; m++ {
								if ok := zk.VerifyR(cp, t.Pts[m], t.Pts[i], s); ok != (md(i*k, n) == m) {
									c.Fail("N=%d: VerifyR(token %d, key %d, r %d) = %v", n, m, i, k, ok)
								}
								c.Add(1, 1, 1)
							}
						}
						if c.Failed() {
							return
						}
					}
					for d := 0; d < n; d++ {
						withRand(&choiceReader{choices: []int{d}}, func() {
							pk, sk := zk.KeyGen(t, t.Pts[i])
							if sk == nil || sk.Sign() < 0 || sk.Cmp(t.params.N) >= 0 {
								c.Fail("N=%d: KeyGen's secret key %v", n, sk)
								return
							}
							eq(fmt.Sprintf("KeyGen(base %d) with key %v", i, sk), pk, i*int(sk.Int64()))
						})
						c.Add(1, 1, 1)
					}
				}
			})
			c.Outcome("group laws hold")
			if c.Failed() || c.Stop() {
				return
			}
		}
	}
}

// c13Eq: points that agree in one coordinate only.
func c13Eq(c *Ctx) {
	vals := []BI{new(big.Int), big.NewInt(1), big.NewInt(-1), big.NewInt(2), pow2(64), new(big.Int).Sub(pow2(64), one), pow2(255), sP, new(big.Int).Sub(sP, one), new(big.Int).Neg(pow2(64))}
	tuple(len(vals), 4, func(x []int) bool {
		if !c.Case("Equal over coordinates %v", x) {
			return !c.stopped
		}
		cpy := func(v BI) BI { return new(big.Int).Set(v) }
		a := EC{X: cpy(vals[x[0]]), Y: cpy(vals[x[1]])}
		b := EC{X: cpy(vals[x[2]]), Y: cpy(vals[x[3]])}
		c.Guard("Equal", func() {
			want := x[0] == x[2] && x[1] == x[3]
			if a.Equal(b) != want {
				c.Fail("%s.Equal(%s) = %v", ecs(a), ecs(b), !want)
			}
		})
		c.Add(1, 1, 1)
		c.Outcome("compared")
		return !c.Stop()
	})
}

// wrapped is secp256k1 as a type of its own, so that the library cannot recognize it.
type wrapped struct{ elliptic.Curve }

func c13Secp(c *Ctx) {
	sets := realParams()
	w := sets[0]
	w.C = wrapped{sets[0].C}
	sets = append(sets, w)
	// tracked points: small and special combinations of G and H
	var pts []T
	for a := int64(-2); a <= 2; a++ {
		for b := int64(-1); b <= 1; b++ {
			pts = append(pts, mki(a, b))
		}
	}
	pts = append(pts, mk(lambda, new(big.Int)), mk(pow2(128), pow2(200)), mki(0, 5), mki(3, 1))
	scalars := append(scalarAlphabet(c.Thorough), outsideScalars()...)
	for pi, cp := range sets {
		for i, p := range pts {
			if !c.Case("secp256k1 parameters %d, point %d: all other points and %d scalars", pi, i, len(scalars)) {
				continue
			}
			eq := func(what string, got EC, want rep) {
				if !sameEC(got, pt(want)) {
					c.Fail("parameters %d: %s gives %s, want %s", pi, what, ecs(got), ecs(pt(want)))
				}
			}
			neg := func(r rep) rep { return r.mul(big.NewInt(-1)) }
			c.Guard("point operations", func() {
				for j, q := range pts {
					eq(fmt.Sprintf("Add(%d,%d)", i, j), cp.Add(p.P, q.P), p.rep().add(q.rep()))
					eq(fmt.Sprintf("Sub(%d,%d)", i, j), cp.Sub(p.P, q.P), p.rep().add(neg(q.rep())))
					if p.P.Equal(q.P) != p.eq(q) {
						c.Fail("Equal(%d,%d) = %v", i, j, p.P.Equal(q.P))
					}
					c.Add(1, 3, 3)
				}
				eq(fmt.Sprintf("Neg(%d)", i), cp.Neg(p.P), neg(p.rep()))
				for si, s := range scalars {
					if pi > 0 && si%4 != i%4 && !c.Thorough {
						continue
					}
					eq(fmt.Sprintf("Mult(%d,%s)", i, s.Text(16)), cp.Mult(p.P, s), p.rep().mul(s))
					c.Add(1, 1, 1)
					if si%7 == i%7 {
						tok := zk.CommitR(cp, p.P, s)
						eq(fmt.Sprintf("CommitR(%d,%s)", i, s.Text(16)), tok, p.rep().mul(s))
						if !zk.VerifyR(cp, tok, p.P, s) || !zk.VerifyR(cp, tok, p.P, new(big.Int).Add(s, sN)) {
							c.Fail("VerifyR refuses the token of %s", s.Text(16))
						}
						inf := p.a.Sign() == 0 && p.b.Sign() == 0
						for _, d := range []BI{one, big.NewInt(-1), two, pow2(32), pow2(63), pow2(64), new(big.Int).Neg(pow2(64)), pow2(128), pow2(256), sP} {
							if zk.VerifyR(cp, tok, p.P, new(big.Int).Add(s, d)) && !inf {
								c.Fail("VerifyR accepts %s%+d for the token of %s", s.Text(16), d, s.Text(16))
							}
						}
						if mN(s).Sign() != 0 && !inf && zk.VerifyR(cp, tok, p.P, new(big.Int).Neg(s)) {
							c.Fail("VerifyR accepts -%s for the token of %s", s.Text(16), s.Text(16))
						}
						if zk.VerifyR(cp, EC{X: tok.X, Y: new(big.Int).Sub(sP, tok.Y)}, p.P, s) && tok.Y.Sign() != 0 {
							c.Fail("VerifyR accepts the negated token of %s", s.Text(16))
						}
						for _, q := range outsideAlts(tok) {
							if zk.VerifyR(cp, q, p.P, s) || tok.Equal(q) || q.Equal(tok) {
								c.Fail("VerifyR or Equal takes %s for the token of %s", ecs(q), s.Text(16))
							}
						}
						c.Add(1, 7, 7)
					}
					if c.Failed() || c.Tick() {
						return
					}
				}
				for _, d := range []BI{new(big.Int), one, new(big.Int).Sub(sN, one), pow2(77)} {
					withRand(&bigReader{vals: []BI{d}}, func() {
						pk, sk := zk.KeyGen(cp.C, p.P)
						eq("KeyGen with key "+sk.Text(16), pk, p.rep().mul(sk))
					})
					c.Add(1, 1, 1)
				}
			})
			c.Outcome("group laws hold")
			if c.Failed() || c.Stop() {
				return
			}
		}
	}
}

func init() {
	ck := &Check{ID: "C13", Level: "model_checking",
		Rule:        "state = one (curve, G, H, operands, scalar); the real result must be the group's, by tabulated discrete logs (small curves) or by coefficients over two independent generators (secp256k1)",
		Assumptions: []string{"secp256k1 points are combinations of G and H with known coefficients"}}
	add := func(name, tier, bound string, run func(*Ctx)) {
		ck.Units = append(ck.Units, Unit{Name: name, Tier: tier, Bound: bound, Run: run})
	}
	for _, n := range []int{3, 5, 7, 11, 13, 19} {
		n := n
		add(fmt.Sprintf("toy-%d", n), "", "all G and H, all pairs of points (distinct and shared memory), all scalars in [-2N,2N], all tokens and keys", func(c *Ctx) { c13Toy(c, GetToy(n), true) })
	}
	for _, n := range []int{5, 7, 13, 19} {
		n := n
		add(fmt.Sprintf("toy-x0-%d", n), "", "the same on a curve that has points with x = 0", func(c *Ctx) { c13Toy(c, GetToy(-n), true) })
	}
	for _, n := range []int{31, 61} {
		n := n
		add(fmt.Sprintf("toy-%d", n), "", "the same for three choices of G", func(c *Ctx) { c13Toy(c, GetToy(n), false) })
	}
	add("toy-127", "thorough", "the same", func(c *Ctx) { c13Toy(c, GetToy(127), false) })
	add("equality", "", "all quadruples of 10 coordinate values", c13Eq)
	add("secp", "", "five parameter sets (two H, swapped generators, an unrecognizable curve type), 19 points, boundary scalars of both signs", c13Secp)
	stdUnits(ck, "std-", "point operations, keys, tokens and commitments for three H, 7 points, 15 scalars", stdPoints)
	register(ck)
}
