package zkmc

import (
	"crypto/elliptic"
	"math/big"
)

// Zb is the same dressed cyclic group as Zn, of any large prime order.
type Zb struct {
	N, half *big.Int
	params  *elliptic.CurveParams
	pm1     *big.Int
}

func newZb(n *big.Int) *Zb {
	z := &Zb{N: n, half: new(big.Int).Rsh(n, 1)}
	p := sP
	z.pm1 = new(big.Int).Sub(p, one)
	z.params = &elliptic.CurveParams{P: p, N: n, B: big.NewInt(7), Gx: big.NewInt(1), Gy: big.NewInt(1), BitSize: 256, Name: "Zb"}
	return z
}

func (z *Zb) Params() *elliptic.CurveParams { return z.params }

func (z *Zb) pt(k *big.Int) EC {
	k = new(big.Int).Mod(k, z.N)
	if k.Sign() == 0 {
		return EC{X: k, Y: new(big.Int)}
	}
	if k.Cmp(z.half) <= 0 {
		return EC{X: k, Y: big.NewInt(1)}
	}
	return EC{X: k.Sub(z.N, k), Y: new(big.Int).Set(z.pm1)}
}

func (z *Zb) log(p EC) *big.Int {
	if p.X.Sign() == 0 && p.Y.Sign() == 0 {
		return new(big.Int)
	}
	if p.X.Sign() <= 0 || p.X.Cmp(z.half) > 0 {
		return nil
	}
	if p.Y.Cmp(one) == 0 {
		return new(big.Int).Set(p.X)
	}
	if p.Y.Cmp(z.pm1) == 0 {
		return new(big.Int).Sub(z.N, p.X)
	}
	return nil
}

func (z *Zb) IsOnCurve(x, y *big.Int) bool {
	k := z.log(EC{X: x, Y: y})
	return k != nil && k.Sign() != 0
}

func (z *Zb) Add(x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
	curveOps.Add(1)
	a, b := z.log(EC{X: x1, Y: y1}), z.log(EC{X: x2, Y: y2})
	if a == nil || b == nil {
		return big.NewInt(5), big.NewInt(5)
	}
	p := z.pt(a.Add(a, b))
	return p.X, p.Y
}

func (z *Zb) Double(x1, y1 *big.Int) (*big.Int, *big.Int) { return z.Add(x1, y1, x1, y1) }

func (z *Zb) ScalarMult(x1, y1 *big.Int, k []byte) (*big.Int, *big.Int) {
	curveOps.Add(1)
	a := z.log(EC{X: x1, Y: y1})
	if a == nil {
		return big.NewInt(5), big.NewInt(5)
	}
	p := z.pt(a.Mul(a, new(big.Int).SetBytes(k)))
	return p.X, p.Y
}

func (z *Zb) ScalarBaseMult(k []byte) (*big.Int, *big.Int) {
	curveOps.Add(1)
	p := z.pt(new(big.Int).SetBytes(k))
	return p.X, p.Y
}

func (z *Zb) CP(h *big.Int, np int) CP {
	cp := CP{C: z, G: z.pt(one), H: z.pt(h)}
	for i := 0; i < np; i++ {
		cp.HPoints = append(cp.HPoints, z.pt(pow2(uint(i))))
	}
	return cp
}

type zbGroup struct{ z *Zb }

func (g zbGroup) Order() BI         { return g.z.N }
func (g zbGroup) Valid(p EC) bool   { return g.z.log(p) != nil }
func (g zbGroup) Add(a, b EC) EC    { return g.z.pt(new(big.Int).Add(g.z.log(a), g.z.log(b))) }
func (g zbGroup) Neg(p EC) EC       { return g.z.pt(new(big.Int).Neg(g.z.log(p))) }
func (g zbGroup) Mul(p EC, k BI) EC { return g.z.pt(new(big.Int).Mul(g.z.log(p), k)) }
