package zkmc

import (
	"crypto/elliptic"
	"fmt"
	"math/big"

	zk "github.com/mit-dci/zksigma"
)

// stdGroup is independent arithmetic (big.Int, Jacobian coordinates) for the curves of
// crypto/elliptic, y^2 = x^3 - 3x + b, whose own code is what the library calls.
type stdGroup struct {
	c       elliptic.Curve
	p, n, b *big.Int
}

func newStd(c elliptic.Curve) stdGroup {
	pr := c.Params()
	return stdGroup{c, pr.P, pr.N, pr.B}
}

var stdCurves = []elliptic.Curve{elliptic.P224(), elliptic.P256(), elliptic.P384(), elliptic.P521()}

func (g stdGroup) Order() BI { return g.n }

func (g stdGroup) Valid(p EC) bool {
	if p.X.Sign() == 0 && p.Y.Sign() == 0 {
		return true
	}
	if p.X.Sign() < 0 || p.Y.Sign() < 0 || p.X.Cmp(g.p) >= 0 || p.Y.Cmp(g.p) >= 0 {
		return false
	}
	r := new(big.Int).Mul(p.X, p.X)
	r.Sub(r, big.NewInt(3))
	r.Mul(r, p.X)
	r.Add(r, g.b)
	l := new(big.Int).Mul(p.Y, p.Y)
	return r.Sub(r, l).Mod(r, g.p).Sign() == 0
}

func (g stdGroup) m(a, b BI) BI { r := new(big.Int).Mul(a, b); return r.Mod(r, g.p) }
func (g stdGroup) s(a, b BI) BI { r := new(big.Int).Sub(a, b); return r.Mod(r, g.p) }

func (g stdGroup) dbl(p jpt) jpt {
	if p.z.Sign() == 0 || p.y.Sign() == 0 {
		return jInf()
	}
	y2 := g.m(p.y, p.y)
	s := g.m(big.NewInt(4), g.m(p.x, y2))
	z2 := g.m(p.z, p.z)
	m := g.m(big.NewInt(3), g.s(g.m(p.x, p.x), g.m(z2, z2))) // 3x^2 + a z^4, a = -3
	x := g.s(g.m(m, m), new(big.Int).Lsh(s, 1))
	y := g.s(g.m(m, g.s(s, x)), g.m(big.NewInt(8), g.m(y2, y2)))
	return jpt{x, y, g.m(two, g.m(p.y, p.z))}
}

func (g stdGroup) addA(p jpt, q EC) jpt {
	if q.X.Sign() == 0 && q.Y.Sign() == 0 {
		return p
	}
	if p.z.Sign() == 0 {
		return jpt{q.X, q.Y, one}
	}
	z2 := g.m(p.z, p.z)
	h := g.s(g.m(q.X, z2), p.x)
	r := g.s(g.m(q.Y, g.m(z2, p.z)), p.y)
	if h.Sign() == 0 {
		if r.Sign() == 0 {
			return g.dbl(p)
		}
		return jInf()
	}
	h2 := g.m(h, h)
	h3 := g.m(h2, h)
	v := g.m(p.x, h2)
	x := g.s(g.s(g.m(r, r), h3), new(big.Int).Lsh(v, 1))
	y := g.s(g.m(r, g.s(v, x)), g.m(p.y, h3))
	return jpt{x, y, g.m(p.z, h)}
}

func (g stdGroup) affine(p jpt) EC {
	if p.z.Sign() == 0 {
		return EC{X: new(big.Int), Y: new(big.Int)}
	}
	zi := new(big.Int).ModInverse(p.z, g.p)
	z2 := g.m(zi, zi)
	return EC{X: g.m(p.x, z2), Y: g.m(p.y, g.m(z2, zi))}
}

func (g stdGroup) Add(a, b EC) EC { return g.affine(g.addA(g.addA(jInf(), a), b)) }
func (g stdGroup) Neg(a EC) EC {
	return EC{X: new(big.Int).Set(a.X), Y: new(big.Int).Mod(new(big.Int).Neg(a.Y), g.p)}
}
func (g stdGroup) Mul(a EC, k BI) EC {
	k = new(big.Int).Mod(k, g.n)
	r := jInf()
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = g.dbl(r)
		if k.Bit(i) == 1 {
			r = g.addA(r, a)
		}
	}
	return g.affine(r)
}

func (g stdGroup) base() EC {
	pr := g.c.Params()
	return EC{X: new(big.Int).Set(pr.Gx), Y: new(big.Int).Set(pr.Gy)}
}

// CP: parameters with H = h*G and the table of the first n doublings of G.
func (g stdGroup) CP(h int64, n int) CP {
	cp := CP{C: g.c, G: g.base()}
	cp.H = g.Mul(cp.G, big.NewInt(h))
	q := cp.G
	for i := 0; i < n; i++ {
		cp.HPoints = append(cp.HPoints, q)
		q = g.Add(q, q)
	}
	return cp
}

func (g stdGroup) scalars() []BI {
	return []BI{big.NewInt(0), big.NewInt(1), big.NewInt(2), big.NewInt(9), big.NewInt(-1), new(big.Int).Sub(g.n, one), new(big.Int).Add(g.n, two), pow2(64), pow2(200),
		new(big.Int).Rsh(g.n, 1), hexInt("123456789abcdef0123456789abcdef0123456789abcdef01234567")}
}

// stmt makes a true statement of a kind from three scalars.
func (g stdGroup) stmt(kind int, cp CP, x, y, z BI, side zk.Side) Stmt {
	zero := func(v BI) bool { return new(big.Int).Mod(v, g.n).Sign() == 0 }
	switch kind {
	case kGSPFS:
		b := cp.G
		if side == zk.Right {
			b = g.Mul(cp.H, y)
		}
		return Stmt{kind, cp, []EC{b, g.Mul(b, x)}, []BI{x}, side}
	case kEquiv:
		b2 := g.Mul(cp.H, y)
		return Stmt{kind, cp, []EC{cp.G, g.Mul(cp.G, x), b2, g.Mul(b2, x)}, []BI{x}, 0}
	case kDisj:
		if side == zk.Left {
			return Stmt{kind, cp, []EC{cp.G, g.Mul(cp.G, x), cp.H, g.Mul(cp.G, y)}, []BI{x}, side}
		}
		return Stmt{kind, cp, []EC{cp.G, g.Mul(cp.H, y), cp.H, g.Mul(cp.H, x)}, []BI{x}, side}
	case kCons:
		pk := g.Mul(cp.H, z)
		return Stmt{kind, cp, []EC{g.Add(g.Mul(cp.G, x), g.Mul(cp.H, y)), g.Mul(pk, y), pk}, []BI{x, y}, 0}
	}
	if zero(z) {
		z = big.NewInt(3)
	}
	pk := g.Mul(cp.H, z)
	cm, tok := g.Add(g.Mul(cp.G, x), g.Mul(cp.H, y)), g.Mul(pk, y)
	if kind == kABC {
		s := zk.Right
		if zero(x) {
			s = zk.Left
		}
		return Stmt{kind, cp, []EC{cm, tok}, []BI{x, z}, s}
	}
	b := big.NewInt(9)
	if zero(new(big.Int).Sub(x, b)) {
		b = big.NewInt(10)
	}
	rb := new(big.Int).Add(y, big.NewInt(4))
	return Stmt{kind, cp, []EC{cm, g.Add(g.Mul(cp.G, b), g.Mul(cp.H, rb)), tok, g.Mul(pk, rb)}, []BI{x, b, z}, 0}
}

// forStd runs f for every kind, pair of scalars and side over one curve.
func forStd(c *Ctx, g stdGroup, few bool, f func(s Stmt, label string)) {
	cp := g.CP(5, 0)
	sc := g.scalars()
	for kind := kGSPFS; kind <= kIneq; kind++ {
		for xi, x := range sc {
			for yi, y := range sc {
				if few && (xi+yi)%4 != kind%4 {
					continue
				}
				for side := zk.Left; side <= zk.Right; side++ {
					if side == zk.Right && kind != kDisj && kind != kGSPFS {
						continue
					}
					if !c.Case("%s on %s, x=%s y=%s side=%d", kindName[kind], g.c.Params().Name, x.Text(16), y.Text(16), side) {
						continue
					}
					f(g.stmt(kind, cp, x, y, sc[(xi+yi)%len(sc)], side), fmt.Sprintf("std %s %d %d %d", g.c.Params().Name, kind, xi, yi))
					c.Alive()
					if c.Stop() {
						return
					}
				}
			}
		}
	}
}

func stdHonest(c *Ctx, g stdGroup) {
	n1 := new(big.Int).Sub(g.n, one)
	forStd(c, g, !c.Thorough, func(s Stmt, label string) {
		for _, d := range []BI{nil, new(big.Int), one, n1} {
			withRand(&bigReader{vals: []BI{d, d, d, d, d, d, d, d}, tail: newStream(label)}, func() { honest(c, s, g) })
			c.Add(1, 2, 1)
		}
	})
}

func stdBoth(c *Ctx, g stdGroup) {
	forStd(c, g, !c.Thorough, func(s Stmt, label string) {
		c07Both(c, g, s, label)
	})
}

func stdRange(c *Ctx, g stdGroup) {
	for _, h := range []int64{5, -1} {
		cp := g.CP(h, 40)
		for i, v := range []uint64{0, 1, 2, 1 << 39, 1<<40 - 1, 0xaaaaaaaaaa, 0x123456789a, 1<<40 - 2} {
			if !c.Case("range proof of %d on %s, H=%dG", v, g.c.Params().Name, h) {
				continue
			}
			withRand(newStream(fmt.Sprintf("std range %d %d", i, h)), func() {
				rangeHonest(c, cp, g, new(big.Int).SetUint64(v), "standard curve")
			})
			if c.Stop() {
				return
			}
		}
		for _, v := range []BI{big.NewInt(-1), pow2(40), g.n, new(big.Int).Add(g.n, one), pow2(64)} {
			if c.Case("range proof of %d on %s", v, g.c.Params().Name) {
				rangeRefused(c, cp, v)
			}
		}
	}
}

func stdPoints(c *Ctx, g stdGroup) {
	ks := []BI{big.NewInt(0), big.NewInt(1), big.NewInt(-1), big.NewInt(2), big.NewInt(5), new(big.Int).Rsh(g.n, 1), pow2(100)}
	sc := append(g.scalars(), new(big.Int).Neg(g.n), new(big.Int).Lsh(g.n, 3), new(big.Int).Neg(pow2(300)), pow2(600))
	for _, h := range []int64{5, -1, 1} {
		cp := g.CP(h, 0)
		for i, k := range ks {
			if !c.Case("point operations on %s, H=%dG, point %d", g.c.Params().Name, h, i) {
				continue
			}
			p := g.Mul(cp.G, k)
			eq := func(what string, got, want EC) {
				if !sameEC(got, want) {
					c.Fail("%s: %s gives %s, want %s", g.c.Params().Name, what, ecs(got), ecs(want))
				}
			}
			c.Guard("point operations", func() {
				for j, l := range ks {
					q := g.Mul(cp.G, l)
					eq(fmt.Sprintf("Add(%d,%d)", i, j), cp.Add(p, q), g.Add(p, q))
					eq(fmt.Sprintf("Sub(%d,%d)", i, j), cp.Sub(p, q), g.Add(p, g.Neg(q)))
					if p.Equal(q) != (i == j) {
						c.Fail("Equal(%d,%d) = %v", i, j, i != j)
					}
				}
				eq("Neg", cp.Neg(p), g.Neg(p))
				for _, s := range sc {
					want := g.Mul(p, s)
					eq("Mult "+s.Text(16), cp.Mult(p, s), want)
					eq("CommitR "+s.Text(16), zk.CommitR(cp, p, s), want)
					if !zk.VerifyR(cp, want, p, s) || !p.Equal(zk.Zero) && (zk.VerifyR(cp, want, p, new(big.Int).Add(s, one)) || zk.VerifyR(cp, g.Add(want, cp.G), p, s)) {
						c.Fail("%s: VerifyR of the token of %s", g.c.Params().Name, s.Text(16))
					}
					cm := zk.PedCommitR(cp, k, s)
					eq("PedCommitR "+s.Text(16), cm, g.Add(p, g.Mul(cp.H, s)))
					if !zk.Open(cp, k, s, cm) || zk.Open(cp, new(big.Int).Add(k, one), s, cm) || zk.Open(cp, k, new(big.Int).Add(s, one), cm) {
						c.Fail("%s: Open of the commitment to (%s,%s)", g.c.Params().Name, k.Text(16), s.Text(16))
					}
					c.Add(1, 9, 9)
				}
				for _, d := range []BI{new(big.Int), one, new(big.Int).Sub(g.n, one), pow2(77)} {
					withRand(&bigReader{vals: []BI{d}, tail: newStream("std keys")}, func() {
						pk, sk := zk.KeyGen(g.c, p)
						if sk == nil || sk.Sign() < 0 || sk.Cmp(g.n) >= 0 {
							c.Fail("%s: KeyGen's secret key is %v", g.c.Params().Name, sk)
							return
						}
						eq("KeyGen", pk, g.Mul(p, sk))
						cm, r, err := zk.PedCommit(cp, k)
						if err != nil {
							c.Fail("PedCommit: %v", err)
							return
						}
						eq("PedCommit", cm, g.Add(p, g.Mul(cp.H, r)))
					})
					c.Add(1, 2, 2)
				}
			})
			c.Outcome("group laws hold")
			if c.Failed() || c.Stop() {
				return
			}
		}
	}
}

// stdCodec takes honest proofs of every kind through the codec.
func stdCodec(c *Ctx, g stdGroup) {
	forStd(c, g, !c.Thorough, func(s Stmt, label string) {
		withRand(newStream(label), func() { honestCodec(c, g, s, nil) })
	})
	for i, v := range []uint64{0, 1, 1<<40 - 1, 0x123456789a} {
		if c.Case("range proof of %d on %s", v, g.c.Params().Name) {
			s := Stmt{kind: kRange, cp: g.CP(5, 40), wit: []BI{new(big.Int).SetUint64(v)}}
			withRand(newStream(fmt.Sprintf("std codec %d", i)), func() { honestCodec(c, g, s, s.wit[0]) })
		}
	}
}

// stdUnits adds one unit per curve.
func stdUnits(ck *Check, what, bound string, run func(*Ctx, stdGroup)) {
	for _, cv := range stdCurves {
		cv := cv
		ck.Units = append(ck.Units, Unit{Name: what + cv.Params().Name, Bound: bound + " on " + cv.Params().Name + " of crypto/elliptic, reference arithmetic of the harness", Run: func(c *Ctx) { run(c, newStd(cv)) }})
	}
}
