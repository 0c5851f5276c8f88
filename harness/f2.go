package zkmc

import (
	"crypto/elliptic"
	"fmt"
	"math/big"
)

// F2 is the group of pairs over the integers modulo a prime q of about 2^61, behind the curve
// interface: every element is a*G + b*H with coefficients that can be read off, and G and H are
// independent. It is the algebraic model of a group in which nobody knows the logarithm of H:
// commitments have one opening, and whether a statement is true can be read off.
// As on a curve, negation flips the y coordinate and (0,0) is the neutral element.
type F2 struct {
	z      *Zn
	q      uint64
	tab    []EC // small groups: all points, by a*q + b
	params *elliptic.CurveParams
	pm1    *big.Int
}

type vec struct{ a, b uint64 }

func newF2() *F2 { return newF2of(znN) }

func newF2of(q uint64) *F2 {
	p := new(big.Int).Sub(pow2(127), one)
	f := &F2{z: newZn(q), q: q, pm1: new(big.Int).Sub(p, one)}
	g := f.pt(vec{1, 0})
	if q < 100 {
		for a := uint64(0); a < q; a++ {
			for b := uint64(0); b < q; b++ {
				f.tab = append(f.tab, f.pt(vec{a, b}))
			}
		}
		// f.tab is used from here on only
	}
	f.params = &elliptic.CurveParams{P: p, N: new(big.Int).SetUint64(q), B: big.NewInt(7), Gx: g.X, Gy: g.Y, BitSize: 127, Name: fmt.Sprintf("pairs modulo %d", q)}
	return f
}

func (f *F2) Params() *elliptic.CurveParams { return f.params }

func (f *F2) pt(v vec) EC {
	if len(f.tab) == int(f.q*f.q) && f.q < 100 {
		return f.tab[v.a*f.q+v.b]
	}
	if v.a == 0 && v.b == 0 {
		return EC{X: new(big.Int), Y: new(big.Int)}
	}
	y := big.NewInt(1)
	if v.a > f.q/2 || v.a == 0 && v.b > f.q/2 {
		v = f.neg(v)
		y = new(big.Int).Set(f.pm1)
	}
	x := new(big.Int).SetUint64(v.a)
	x.Lsh(x, 61)
	return EC{X: x.Add(x, new(big.Int).SetUint64(v.b)), Y: y}
}

func (f *F2) log(p EC) (vec, bool) {
	if p.X.Sign() == 0 && p.Y.Sign() == 0 {
		return vec{}, true
	}
	if p.X.Sign() <= 0 || p.X.BitLen() > 122 {
		return vec{}, false
	}
	a := new(big.Int).Rsh(p.X, 61).Uint64()
	b := new(big.Int).And(p.X, new(big.Int).SetUint64(1<<61-1)).Uint64()
	if a >= f.q || b >= f.q || a > f.q/2 || a == 0 && b > f.q/2 {
		return vec{}, false
	}
	if p.Y.IsUint64() && p.Y.Uint64() == 1 {
		return vec{a, b}, true
	}
	if p.Y.Cmp(f.pm1) == 0 {
		return f.neg(vec{a, b}), true
	}
	return vec{}, false
}

func (f *F2) add(v, w vec) vec        { return vec{f.z.addk(v.a, w.a), f.z.addk(v.b, w.b)} }
func (f *F2) neg(v vec) vec           { return vec{(f.q - v.a) % f.q, (f.q - v.b) % f.q} }
func (f *F2) mul(v vec, k uint64) vec { return vec{f.z.mulk(v.a, k), f.z.mulk(v.b, k)} }
func (f *F2) IsOnCurve(x, y *big.Int) bool {
	v, ok := f.log(EC{X: x, Y: y})
	return ok && v != vec{}
}

func (f *F2) Add(x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
	curveOps.Add(1)
	a, ok1 := f.log(EC{X: x1, Y: y1})
	b, ok2 := f.log(EC{X: x2, Y: y2})
	if !ok1 || !ok2 {
		return f.z.junk(x1, y2)
	}
	p := f.pt(f.add(a, b))
	return p.X, p.Y
}

func (f *F2) Double(x1, y1 *big.Int) (*big.Int, *big.Int) { return f.Add(x1, y1, x1, y1) }

func (f *F2) ScalarMult(x1, y1 *big.Int, k []byte) (*big.Int, *big.Int) {
	curveOps.Add(1)
	a, ok := f.log(EC{X: x1, Y: y1})
	if !ok {
		return f.z.junk(x1, y1)
	}
	p := f.pt(f.mul(a, f.z.bytesk(k)))
	return p.X, p.Y
}

func (f *F2) ScalarBaseMult(k []byte) (*big.Int, *big.Int) {
	curveOps.Add(1)
	p := f.pt(vec{f.z.bytesk(k), 0})
	return p.X, p.Y
}

// CP: G = (1,0), H = (0,1), powers of two of G.
func (f *F2) CP(np int) CP {
	cp := CP{C: f, G: f.pt(vec{1, 0}), H: f.pt(vec{0, 1})}
	m := uint64(1)
	for i := 0; i < np; i++ {
		cp.HPoints = append(cp.HPoints, f.pt(vec{m, 0}))
		m = f.z.addk(m, m)
	}
	return cp
}

// inv is the inverse modulo q, 0 for 0.
func (f *F2) inv(k uint64) uint64 {
	r, e := uint64(1), uint64(f.q-2)
	for ; e > 0; e >>= 1 {
		if e&1 == 1 {
			r = f.z.mulk(r, k)
		}
		k = f.z.mulk(k, k)
	}
	return r
}

// div gives x with x*base = p, if there is one.
func (f *F2) div(p, base vec) (uint64, bool) {
	var x uint64
	switch {
	case base.a != 0:
		x = f.z.mulk(p.a, f.inv(base.a))
	case base.b != 0:
		x = f.z.mulk(p.b, f.inv(base.b))
	}
	return x, f.mul(base, x) == p
}

// tries gives the scalars that solve x*base = p in one coordinate at least.
func (f *F2) tries(p, base vec) []uint64 {
	l := []uint64{}
	if base.a != 0 {
		l = append(l, f.z.mulk(p.a, f.inv(base.a)))
	}
	if base.b != 0 {
		if x := f.z.mulk(p.b, f.inv(base.b)); len(l) == 0 || l[0] != x {
			l = append(l, x)
		}
	}
	if len(l) == 0 {
		l = append(l, 5)
	}
	return l
}

type f2Group struct{ f *F2 }

func (g f2Group) Order() BI       { return g.f.params.N }
func (g f2Group) Valid(p EC) bool { _, ok := g.f.log(p); return ok }
func (g f2Group) l(p EC) vec {
	v, ok := g.f.log(p)
	if !ok {
		panic("reference: point outside the group")
	}
	return v
}
func (g f2Group) Add(a, b EC) EC    { return g.f.pt(g.f.add(g.l(a), g.l(b))) }
func (g f2Group) Neg(p EC) EC       { return g.f.pt(g.f.neg(g.l(p))) }
func (g f2Group) Mul(p EC, k BI) EC { return g.f.pt(g.f.mul(g.l(p), g.f.z.red(k))) }
