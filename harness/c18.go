package zkmc

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math/big"

	zk "github.com/mit-dci/zksigma"
	"github.com/mit-dci/zksigma/btcec"
)

// c18Tables: every entry of both tables, reached through the base multiplications.
func c18Tables(c *Ctx) {
	S := btcec.S256()
	for b, base := range []apt{refG, refH} {
		name := []string{"ScalarBaseMult", "ScalarBaseMultH"}[b]
		f := []func([]byte) (*big.Int, *big.Int){S.ScalarBaseMult, S.ScalarBaseMultH}[b]
		w := base
		for win := 0; win < 32; win++ {
			p := apt{}
			for d := 0; d < 256; d++ {
				if d > 0 {
					p = p.add(w)
				}
				k := new(big.Int).Lsh(big.NewInt(int64(d)), uint(8*win))
				if c.Case("%s(%x)", name, k) {
					want := p
					short := k.Bytes()
					full := append(make([]byte, 32-len(short)), short...)
					if k.Cmp(sN) >= 0 {
						// only the highest window can exceed the order
						want = base.mul(k)
					}
					for _, e := range [][]byte{short, full} {
						x, y := f(e)
						if !want.eq(x, y) {
							c.Fail("%s(%x) = (%x,%x), the right point is %s", name, e, x, y, ecs(want.ec()))
							break
						}
					}
					c.Add(1, 2, 2)
					c.Outcome("table entry")
				}
				if c.Stop() {
					return
				}
			}
			w = p.add(w)
		}
	}
}

// c18Points: special points with their representation.
func c18Points(n int64) []T {
	l := []T{mki(0, 0)}
	lam := hexInt("5363AD4CC05C30E0A5261C028812645A122E22EA20816678DF02967C1B23BD72")
	for i := int64(1); i <= n; i++ {
		l = append(l, mki(i, 0), mki(-i, 0))
		if i <= 3 {
			l = append(l, mki(0, i), mki(0, -i), mki(i, 5), mki(-i, -5))
			// same y coordinate, other x
			li := new(big.Int).Mul(lam, big.NewInt(i))
			l2 := new(big.Int).Mul(lam, li)
			l = append(l, mk(li, new(big.Int)), mk(l2, new(big.Int)), mk(new(big.Int).Neg(li), new(big.Int)), mk(new(big.Int).Neg(l2), new(big.Int)))
		}
	}
	half := new(big.Int).ModInverse(two, sN)
	l = append(l, mk(half, new(big.Int)), mk(new(big.Int).Neg(half), new(big.Int)), mk(new(big.Int).Sub(pow2(255), one), big.NewInt(1)))
	return l
}

func c18Add(c *Ctx) {
	S := btcec.S256()
	n := int64(20)
	if c.Thorough {
		n = 60
	}
	l := c18Points(n)
	for _, p := range l {
		for _, q := range l {
			if !c.Case("%s + %s", ecs(p.P), ecs(q.P)) {
				continue
			}
			want := p.add(q)
			c.Guard("Add", func() {
				x, y := S.Add(p.P.X, p.P.Y, q.P.X, q.P.Y)
				if !sameEC(EC{X: x, Y: y}, want.P) {
					c.Fail("Add(%s, %s) = (%x,%x), the sum is %s", ecs(p.P), ecs(q.P), x, y, ecs(want.P))
				}
				if p.eq(q) {
					x, y := S.Double(p.P.X, p.P.Y)
					if !sameEC(EC{X: x, Y: y}, want.P) {
						c.Fail("Double(%s) = (%x,%x), the double is %s", ecs(p.P), x, y, ecs(want.P))
					}
					// the same big integers as both operands
					x, y = S.Add(p.P.X, p.P.Y, p.P.X, p.P.Y)
					if !sameEC(EC{X: x, Y: y}, want.P) {
						c.Fail("Add of a point to itself: (%x,%x)", x, y)
					}
				}
			})
			c.Add(1, 1, 1)
			switch {
			case p.P.X.Sign() == 0 || q.P.X.Sign() == 0:
				c.Outcome("sum with infinity")
			case p.eq(q):
				c.Outcome("sum of equal points")
			case want.P.X.Sign() == 0 && want.P.Y.Sign() == 0:
				c.Outcome("sum is infinity")
			case p.P.Y.Cmp(q.P.Y) == 0:
				c.Outcome("sum, same y")
			default:
				c.Outcome("sum")
			}
			if c.Stop() {
				return
			}
		}
	}
}

// scalarCase compares every multiplication for one scalar given as bytes.
func scalarCase(c *Ctx, pts []T, e []byte) {
	S := btcec.S256()
	k := new(big.Int).SetBytes(e)
	keep := append([]byte(nil), e...)
	for _, p := range pts {
		want := p.mul(k)
		x, y := S.ScalarMult(p.P.X, p.P.Y, e)
		if !sameEC(EC{X: x, Y: y}, want.P) {
			c.Fail("ScalarMult(%s, %x) = (%x,%x), the product is %s", ecs(p.P), e, x, y, ecs(want.P))
			return
		}
	}
	x, y := S.ScalarBaseMult(e)
	if want := mk(k, new(big.Int)); !sameEC(EC{X: x, Y: y}, want.P) {
		c.Fail("ScalarBaseMult(%x) = (%x,%x), the product is %s", e, x, y, ecs(want.P))
		return
	}
	x, y = S.ScalarBaseMultH(e)
	if want := mk(new(big.Int), k); !sameEC(EC{X: x, Y: y}, want.P) {
		c.Fail("ScalarBaseMultH(%x) = (%x,%x), the product is %s", e, x, y, ecs(want.P))
		return
	}
	if !bytes.Equal(keep, e) {
		c.Fail("a multiplication changes the scalar %x", keep)
	}
	c.Add(1, int64(len(pts)+2), int64(len(pts)+2))
}

func c18BasePts() []T {
	return []T{mki(0, 0), mki(1, 0), mki(-1, 0), mki(0, 1), mki(3, 7)}
}

func c18Small(c *Ctx) {
	pts := c18BasePts()
	n := int64(4000)
	if c.Thorough {
		n = 20000
	}
	for i := int64(0); i <= n; i++ {
		if c.Case("scalar %d", i) {
			c.Guard("multiplication", func() { scalarCase(c, pts, big.NewInt(i).Bytes()) })
			c.Outcome("small scalar")
		}
		if c.Case("scalar N-%d", i) {
			c.Guard("multiplication", func() { scalarCase(c, pts, new(big.Int).Sub(sN, big.NewInt(i)).Bytes()) })
			c.Outcome("scalar just below the order")
		}
		if c.Stop() {
			return
		}
	}
}

func c18Boundary(c *Ctx) {
	pts := c18BasePts()
	for _, k := range scalarAlphabet(true) {
		if c.Case("scalar %x", k) {
			c.Guard("multiplication", func() { scalarCase(c, pts, k.Bytes()) })
			c.Outcome("boundary scalar")
		}
		if c.Stop() {
			return
		}
	}
	// one byte value at one place, on both sides of zero bytes
	for i := uint(0); i < 32; i++ {
		for _, d := range []int64{0x7f, 0x80, 0xaa, 0xff} {
			for _, j := range []uint{0, 7, 15, 16, 17, 31} {
				k := new(big.Int).Lsh(big.NewInt(d), 8*i)
				k.Or(k, new(big.Int).Lsh(big.NewInt(d), 8*j))
				if c.Case("scalar %x", k) {
					c.Guard("multiplication", func() { scalarCase(c, pts[:2], k.Bytes()) })
					c.Outcome("boundary scalar")
				}
				if c.Stop() {
					return
				}
			}
		}
	}
}

// c18Lengths: the same numbers in byte strings of every length, and numbers above the order.
func c18Lengths(c *Ctx) {
	pts := c18BasePts()
	for n := 0; n <= 70; n++ {
		var l [][]byte
		l = append(l, make([]byte, n))
		if n > 0 {
			b := make([]byte, n)
			b[n-1] = 5
			l = append(l, b)
			b = make([]byte, n)
			b[0] = 1
			l = append(l, b)
			b = make([]byte, n)
			b[0] = 0x80
			l = append(l, b)
			l = append(l, bytes.Repeat([]byte{0xff}, n))
			b = bytes.Repeat([]byte{0xff}, n)
			b[0] = 0
			l = append(l, b)
		}
		if n >= 32 {
			for _, k := range []BI{new(big.Int).Sub(sN, one), sN, new(big.Int).Add(sN, one)} {
				l = append(l, append(make([]byte, n-32), k.Bytes()...))
			}
			// the order above other bytes
			l = append(l, append(append([]byte{}, sN.Bytes()...), make([]byte, n-32)...))
			b := append(append([]byte{}, sN.Bytes()...), make([]byte, n-32)...)
			b[len(b)-1] ^= 7
			l = append(l, b)
		}
		for i, e := range l {
			if c.Case("scalar bytes %x (length %d, form %d)", e, n, i) {
				c.Guard("multiplication", func() { scalarCase(c, pts, e) })
				c.Outcome("scalar by length")
			}
			if c.Stop() {
				return
			}
		}
	}
}

// c18Split: scalars a + b*lambda, whose halves are small and of both signs: the additions of the
// combined multiplication meet equal and opposite points.
func c18Split(c *Ctx) {
	pts := []T{mki(1, 0), mki(3, 7), mki(0, 0)}
	lam := hexInt("5363AD4CC05C30E0A5261C028812645A122E22EA20816678DF02967C1B23BD72")
	n := int64(36)
	if c.Thorough {
		n = 70
	}
	for a := -n; a <= n; a++ {
		for b := -n; b <= n; b++ {
			k := new(big.Int).Mul(lam, big.NewInt(b))
			k.Add(k, big.NewInt(a))
			k.Mod(k, sN)
			if c.Case("scalar %d + %d*lambda", a, b) {
				c.Guard("multiplication", func() { scalarCase(c, pts, k.Bytes()) })
				c.Outcome("scalar with small halves")
			}
			if c.Stop() {
				return
			}
		}
	}
	// around the points where the rounding of the split changes
	for _, m := range []string{"3086D221A7D46BCDE86C90E49284EB15", "E4437ED6010E88286F547FA90ABFE4C3", "114CA50F7A8E2F3F657C1108D9D44CFD8"} {
		v := hexInt(m)
		var is []BI
		for i := int64(0); i < 12; i++ {
			is = append(is, big.NewInt(i), new(big.Int).Sub(v, big.NewInt(i)))
		}
		is = append(is, new(big.Int).Rsh(v, 1), new(big.Int).Rsh(v, 64), pow2(64), pow2(126))
		for _, i := range is {
			k0 := new(big.Int).Div(new(big.Int).Mul(i, sN), v)
			for d := int64(-1); d <= 2; d++ {
				k := new(big.Int).Add(k0, big.NewInt(d))
				if k.Sign() < 0 || k.BitLen() > 256 {
					continue
				}
				if c.Case("scalar %x at a rounding boundary", k) {
					c.Guard("multiplication", func() { scalarCase(c, pts, k.Bytes()) })
					c.Outcome("scalar at a rounding boundary of the split")
				}
				if c.Stop() {
					return
				}
			}
		}
	}
}

// c18Coords: points whose coordinates have boundary limb patterns.
func c18Coords(c *Ctx) {
	S := btcec.S256()
	var l []apt
	add := func(x BI) {
		x = new(big.Int).Mod(x, sP)
		for i := 0; i < 40; i++ { // the next x that belongs to a point
			if p := liftX(x, len(l)%2 == 1); !p.inf() {
				l = append(l, p)
				return
			}
			x = addP(x, one)
		}
	}
	step := uint(26)
	if c.Thorough {
		step = 13
	}
	for i := uint(0); i < 256; i += step {
		add(pow2(i))
		add(new(big.Int).Neg(pow2(i)))
		add(new(big.Int).Sub(pow2(i+26), pow2(i)))
		add(new(big.Int).Sub(new(big.Int).Sub(sP, one), pow2(i)))
	}
	add(new(big.Int).Rsh(sP, 1))
	add(hexInt("3ffffff03ffffff03ffffff03ffffff03ffffff03ffffff03ffffff0"))
	// small and large y: x = cube root of y^2 - 7 where there is one (P = 1 mod 3, P = 7 mod 9)
	for _, y0 := range []BI{one, two, big.NewInt(3), big.NewInt(977), pow2(32), pow2(26), new(big.Int).Sub(pow2(26), one), pow2(130), new(big.Int).Sub(sP, pow2(32))} {
		y := new(big.Int).Set(y0)
		for i := 0; i < 60; i++ {
			t := subP(mulP(y, y), sB)
			e := new(big.Int).Div(new(big.Int).Add(sP, two), big.NewInt(9))
			x := new(big.Int).Exp(t, e, sP)
			if onCurve(x, y) && x.Sign() > 0 {
				l = append(l, apt{x, new(big.Int).Set(y)}, apt{x, subP(new(big.Int), y)})
				c.Outcome("point with boundary y")
				break
			}
			y.Add(y, one)
		}
	}
	ks := []BI{two, big.NewInt(3), new(big.Int).Sub(sN, one), hexInt("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"), new(big.Int).Rsh(sN, 1), hexInt("123456789abcdef0fedcba9876543210123456789abcdef0fedcba9876543210")}
	for i, p := range l {
		for j, q := range l {
			if !c.Case("sum and difference of (%x,%x) and (%x,%x)", p.x, p.y, q.x, q.y) {
				continue
			}
			c.Guard("curve operation", func() {
				x, y := S.Add(p.x, p.y, q.x, q.y)
				if !p.add(q).eq(x, y) {
					c.Fail("Add(%s, %s) = (%x,%x)", ecs(p.ec()), ecs(q.ec()), x, y)
				}
				n := q.neg()
				x, y = S.Add(p.x, p.y, n.x, n.y)
				if !p.add(n).eq(x, y) {
					c.Fail("Add(%s, %s) = (%x,%x)", ecs(p.ec()), ecs(n.ec()), x, y)
				}
				if i == j {
					x, y = S.Double(p.x, p.y)
					if !p.add(p).eq(x, y) {
						c.Fail("Double(%s) = (%x,%x)", ecs(p.ec()), x, y)
					}
					for _, k := range ks {
						x, y = S.ScalarMult(p.x, p.y, k.Bytes())
						if !p.mul(k).eq(x, y) {
							c.Fail("ScalarMult(%s, %x) = (%x,%x)", ecs(p.ec()), k, x, y)
						}
					}
				}
			})
			c.Add(1, 2, 2)
			c.Outcome("points with boundary coordinates")
			if c.Stop() {
				return
			}
		}
	}
}

func nafCase(c *Ctx, e []byte) bool {
	keep := append([]byte(nil), e...)
	pos, neg := btcec.NAF(e)
	if !bytes.Equal(keep, e) {
		c.Fail("NAF changes its argument %x", keep)
		return false
	}
	p, n := new(big.Int).SetBytes(pos), new(big.Int).SetBytes(neg)
	if new(big.Int).Sub(p, n).Cmp(new(big.Int).SetBytes(e)) != 0 {
		c.Fail("NAF(%x) = %x - %x is another number", e, pos, neg)
		return false
	}
	if new(big.Int).And(p, n).Sign() != 0 {
		c.Fail("NAF(%x) = %x - %x has a digit that is both", e, pos, neg)
		return false
	}
	d := new(big.Int).Or(p, n)
	if new(big.Int).And(d, new(big.Int).Rsh(d, 1)).Sign() != 0 {
		c.Fail("NAF(%x) = %x - %x has adjacent digits", e, pos, neg)
		return false
	}
	if len(pos) != len(neg) {
		c.Fail("NAF(%x): the two parts have lengths %d and %d", e, len(pos), len(neg))
		return false
	}
	return true
}

func c18NAF(c *Ctx) {
	if c.Case("NAF of every byte string up to two bytes") {
		c.Guard("NAF", func() {
			nafCase(c, nil)
			for i := 0; i < 256; i++ {
				nafCase(c, []byte{byte(i)})
			}
			for i := 0; i < 65536; i++ {
				nafCase(c, []byte{byte(i >> 8), byte(i)})
			}
		})
		c.Add(65793, 65793, 65793)
		c.OutcomeN("signed-digit form", 65793)
	}
	hi := 4
	if c.Thorough {
		hi = 256
	}
	for h := 0; h < hi; h++ {
		b := byte(h)
		if !c.Thorough {
			b = []byte{1, 0x7f, 0x80, 0xff}[h]
		}
		if c.Case("NAF of every three bytes beginning with %x", b) {
			c.Guard("NAF", func() {
				for i := 0; i < 65536; i++ {
					if !nafCase(c, []byte{b, byte(i >> 8), byte(i)}) {
						return
					}
					c.Tick()
				}
			})
			c.Add(65536, 65536, 65536)
			c.OutcomeN("signed-digit form", 65536)
		}
		if c.Stop() {
			return
		}
	}
	pat := []byte{0x00, 0x01, 0x55, 0x7f, 0x80, 0xaa, 0xff}
	for n := 4; n <= 40; n++ {
		if c.Case("NAF of %d bytes", n) {
			c.Guard("NAF", func() {
				for _, x := range pat {
					for _, y := range pat {
						for i := 0; i < n; i++ {
							e := bytes.Repeat([]byte{x}, n)
							e[i] = y
							if !nafCase(c, e) {
								return
							}
							c.Add(1, 1, 1)
							c.Outcome("signed-digit form")
						}
					}
				}
			})
		}
		if c.Stop() {
			return
		}
	}
}

func c18Constants(c *Ctx) {
	S := btcec.S256()
	if c.Case("curve constants") {
		pr := S.Params()
		for _, x := range []struct {
			n         string
			got, want BI
		}{{"P", pr.P, sP}, {"N", pr.N, sN}, {"B", pr.B, sB}, {"Gx", pr.Gx, sGx}, {"Gy", pr.Gy, sGy},
			{"(P+1)/4", S.QPlus1Div4(), new(big.Int).Rsh(new(big.Int).Add(sP, one), 2)}} {
			if x.got.Cmp(x.want) != 0 {
				c.Fail("curve constant %s is %x", x.n, x.got)
			}
		}
		if pr.BitSize != 256 || S.H != 1 {
			c.Fail("bit size %d, cofactor %d", pr.BitSize, S.H)
		}
		c.Add(1, 8, 8)
		c.Outcome("constant")
	}
	if c.Case("second base") {
		x, y := S.ScalarBaseMultH([]byte{1})
		if !refH.eq(x, y) {
			c.Fail("the second base is (%x,%x), the documented one is %s", x, y, ecs(refH.ec()))
		}
		if !refH.eq(zk.TestCurve.H.X, zk.TestCurve.H.Y) || !refG.eq(zk.TestCurve.G.X, zk.TestCurve.G.Y) {
			c.Fail("TestCurve's generators are %s, %s", ecs(zk.TestCurve.G), ecs(zk.TestCurve.H))
		}
		c.Add(1, 3, 3)
		c.Outcome("constant")
	}
	if c.Case("where H comes from") {
		// x is SHA-256 of Gx + 2, y the even root
		hx := sha256.Sum256(new(big.Int).Add(refG.ec().X, two).Bytes())
		y := refH.ec().Y
		if new(big.Int).SetBytes(hx[:]).Cmp(refH.ec().X) != 0 || y.Bit(0) != 0 {
			c.Fail("harness: the reference H is not the documented one")
		}
		if len(zk.TestCurve.HPoints) != 64 {
			c.Fail("TestCurve.HPoints has %d entries, documented 64", len(zk.TestCurve.HPoints))
		}
		c.Add(1, 1, 1)
	}
	p := refG
	for i, h := range zk.TestCurve.HPoints {
		if c.Case("TestCurve.HPoints[%d]", i) {
			if !p.eq(h.X, h.Y) {
				c.Fail("TestCurve.HPoints[%d] is %s, 2^%d G is %s", i, ecs(h), i, ecs(p.ec()))
			}
			c.Add(1, 1, 1)
			c.Outcome("constant")
		}
		p = p.add(p)
	}
}

func c18OnCurve(c *Ctx) {
	S := btcec.S256()
	n := int64(300)
	if c.Thorough {
		n = 6000
	}
	var xs []BI
	for i := int64(0); i < n; i++ {
		xs = append(xs, big.NewInt(i))
		xs = append(xs, new(big.Int).Sub(sP, big.NewInt(i+1)))
	}
	for i := uint(8); i < 256; i++ {
		xs = append(xs, pow2(i), new(big.Int).Sub(pow2(i), one))
	}
	for _, x := range xs {
		if !c.Case("on-curve test at x = %x", x) {
			continue
		}
		var ys []BI
		r := addP(mulP(x, mulP(x, x)), sB)
		if y := sqrtP(r); y != nil {
			ys = append(ys, y, new(big.Int).Sub(sP, y), addP(y, one), subP(y, one), new(big.Int).Xor(y, pow2(26)), new(big.Int).Xor(y, pow2(200)), new(big.Int).Xor(y, pow2(247)))
			c.Outcome("x of a point")
		} else {
			ys = append(ys, sqrtP(subP(new(big.Int), r))) // a root of -(x^3+7)
			c.Outcome("x of no point")
		}
		ys = append(ys, new(big.Int), one, new(big.Int).Sub(sP, one), x)
		for _, y := range ys {
			if y == nil || y.Cmp(sP) >= 0 || x.Cmp(sP) >= 0 {
				continue
			}
			c.Guard("IsOnCurve", func() {
				if got := S.IsOnCurve(x, y); got != onCurve(x, y) {
					c.Fail("IsOnCurve(%x, %x) = %v", x, y, got)
				}
			})
			c.Add(1, 1, 1)
			if !onCurve(x, y) && x.Sign() != 0 {
				continue
			}
			for _, q := range outsideAlts(EC{X: x, Y: y}) {
				if q.X.Sign() >= 0 && q.X.Cmp(sP) < 0 && q.Y.Sign() >= 0 && q.Y.Cmp(sP) < 0 {
					continue // -0
				}
				c.Guard("IsOnCurve", func() {
					if S.IsOnCurve(q.X, q.Y) {
						c.Fail("IsOnCurve(%x, %x) is true", q.X, q.Y)
					}
				})
				c.Add(1, 1, 1)
			}
		}
		if c.Stop() {
			return
		}
	}
}

func init() {
	ck := &Check{ID: "C18", Level: "model_checking",
		Rule:        "coordinates returned equal those of an independent big-integer implementation of the group (Jacobian, double-and-add), with infinity as (0,0)",
		Assumptions: []string{"coordinates are, except in the on-curve test, those of points on the curve", "the Jacobian formulas are internal: the harness is compiled into the package by an overlay; if it does not compile, only the public part runs and the evidence says so"}}
	add := func(name, bound string, run func(*Ctx)) {
		ck.Units = append(ck.Units, Unit{Name: name, Bound: bound, Run: run})
	}
	add("tables", "all 32 x 256 entries of both tables, minimal and 32-byte scalars", c18Tables)
	add("addition", "all ordered pairs of special points (infinity, small multiples of both signs, points with equal y, mixed), doubling", c18Add)
	add("small scalars", "k and N-k for k up to 4000 (thorough: 20000), five points and both bases", c18Small)
	add("boundary scalars", "all powers of two and neighbours, byte patterns", c18Boundary)
	add("scalar lengths", "byte strings of length 0 to 70, leading zeros, values at and above the order", c18Lengths)
	add("split scalars", fmt.Sprintf("a + b*lambda for |a|,|b| up to %d (thorough: %d), and scalars at the rounding boundaries of the split", 36, 70), c18Split)
	add("boundary coordinates", "sums, differences, doubles and multiples of all pairs of points with boundary limb patterns in x or y", c18Coords)
	add("signed digits", "all byte strings up to 2 bytes, 3 bytes with selected (thorough: all) first bytes, patterns up to 40 bytes", c18NAF)
	add("constants", "curve constants, second base, powers of two of TestCurve", c18Constants)
	add("on-curve test", "x small, near the prime and powers of two; both y, their neighbours, single bit errors, roots of the negative; the same residues outside [0,P)", c18OnCurve)
	// Internal formulas: the public operations reach only those with z = 1 on one side.
	add("jacobian addition", "all ordered pairs of special points in all pairs of 8 (thorough: 26) representations, fresh and in place, and one step on", inPackage("jacobian", "TestZkmcJac", "add", 32, 128))
	add("jacobian doubling", "127 points in 26 representations, fresh and in place", inPackage("jacobian", "TestZkmcJac", "double", 4, 4))
	add("scalar split", "a + b*lambda for |a|,|b| up to 20 (60) times powers of two, powers of two and neighbours; reduction of 0 to 79 bytes", inPackage("jacobian", "TestZkmcJac", "split", 8, 32))
	register(ck)
}
