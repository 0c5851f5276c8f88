package zkmc

import (
	"crypto/elliptic"
	"fmt"
	"math/big"
	"math/bits"
)

// Zn is the cyclic group of prime order N dressed as an elliptic.Curve: the element k != 0 is
// the point (min(k, N-k), 1 or P-1), so that negation flips the y coordinate as on a curve, and
// (0,0) is the neutral element. It stands for a curve of any order whose discrete logs are
// readable, and makes long proofs cheap.
type Zn struct {
	N      uint64
	params *elliptic.CurveParams
	pm1    *big.Int
	yield  func(op string)
}

const znN = 1<<61 - 1

func newZn(n uint64) *Zn {
	p := new(big.Int).Sub(pow2(89), one)
	z := &Zn{N: n}
	z.pm1 = new(big.Int).Sub(p, one)
	z.params = &elliptic.CurveParams{P: p, N: new(big.Int).SetUint64(n), B: big.NewInt(7), Gx: big.NewInt(1), Gy: big.NewInt(1), BitSize: 89, Name: fmt.Sprintf("Z%d", n)}
	return z
}

func (z *Zn) Params() *elliptic.CurveParams { return z.params }

func (z *Zn) pt(k uint64) EC {
	k %= z.N
	if k == 0 {
		return EC{X: new(big.Int), Y: new(big.Int)}
	}
	if k <= z.N/2 {
		return EC{X: new(big.Int).SetUint64(k), Y: big.NewInt(1)}
	}
	return EC{X: new(big.Int).SetUint64(z.N - k), Y: new(big.Int).Set(z.pm1)}
}

func (z *Zn) log(p EC) (uint64, bool) {
	if p.X.Sign() == 0 && p.Y.Sign() == 0 {
		return 0, true
	}
	if p.X.Sign() < 0 || !p.X.IsUint64() {
		return 0, false
	}
	k := p.X.Uint64()
	if k == 0 || k > z.N/2 {
		return 0, false
	}
	if p.Y.IsUint64() && p.Y.Uint64() == 1 {
		return k, true
	}
	if p.Y.Cmp(z.pm1) == 0 {
		return z.N - k, true
	}
	return 0, false
}

func (z *Zn) IsOnCurve(x, y *big.Int) bool {
	k, ok := z.log(EC{X: x, Y: y})
	return ok && k != 0
}

func (z *Zn) addk(a, b uint64) uint64 { return (a + b) % z.N }
func (z *Zn) mulk(a, b uint64) uint64 {
	hi, lo := bits.Mul64(a, b)
	_, r := bits.Div64(hi, lo, z.N)
	return r
}
func (z *Zn) red(k *big.Int) uint64 { return new(big.Int).Mod(k, z.params.N).Uint64() }

// off-group operands give a point that is recognisably not in the group
func (z *Zn) junk(x, y *big.Int) (*big.Int, *big.Int) {
	return new(big.Int).Add(x, one), big.NewInt(3)
}

func (z *Zn) Add(x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
	curveOps.Add(1)
	if z.yield != nil {
		z.yield("Add")
	}
	a, ok1 := z.log(EC{X: x1, Y: y1})
	b, ok2 := z.log(EC{X: x2, Y: y2})
	if !ok1 || !ok2 {
		return z.junk(x1, y2)
	}
	p := z.pt(z.addk(a, b))
	return p.X, p.Y
}

func (z *Zn) Double(x1, y1 *big.Int) (*big.Int, *big.Int) { return z.Add(x1, y1, x1, y1) }

func (z *Zn) bytesk(k []byte) uint64 {
	return z.red(new(big.Int).SetBytes(k))
}

func (z *Zn) ScalarMult(x1, y1 *big.Int, k []byte) (*big.Int, *big.Int) {
	curveOps.Add(1)
	if z.yield != nil {
		z.yield("ScalarMult")
	}
	a, ok := z.log(EC{X: x1, Y: y1})
	if !ok {
		return z.junk(x1, y1)
	}
	p := z.pt(z.mulk(a, z.bytesk(k)))
	return p.X, p.Y
}

func (z *Zn) ScalarBaseMult(k []byte) (*big.Int, *big.Int) {
	curveOps.Add(1)
	if z.yield != nil {
		z.yield("ScalarBaseMult")
	}
	p := z.pt(z.bytesk(k))
	return p.X, p.Y
}

// CP: parameters with H = hG and np powers of two.
func (z *Zn) CP(h uint64, np int) CP {
	cp := CP{C: z, G: z.pt(1), H: z.pt(h)}
	m := uint64(1)
	for i := 0; i < np; i++ {
		cp.HPoints = append(cp.HPoints, z.pt(m))
		m = z.addk(m, m)
	}
	return cp
}

// CPG: parameters with any two generators.
func (z *Zn) CPG(g, h uint64, np int) CP {
	cp := CP{C: z, G: z.pt(g), H: z.pt(h)}
	for i := 0; i < np; i++ {
		cp.HPoints = append(cp.HPoints, z.pt(g))
		g = z.addk(g, g)
	}
	return cp
}

type znGroup struct{ z *Zn }

func (g znGroup) Order() BI       { return g.z.params.N }
func (g znGroup) Valid(p EC) bool { _, ok := g.z.log(p); return ok }
func (g znGroup) l(p EC) uint64 {
	k, ok := g.z.log(p)
	if !ok {
		panic("reference: point outside the group")
	}
	return k
}
func (g znGroup) Add(a, b EC) EC    { return g.z.pt(g.z.addk(g.l(a), g.l(b))) }
func (g znGroup) Neg(p EC) EC       { return g.z.pt(g.z.N - g.l(p)) }
func (g znGroup) Mul(p EC, k BI) EC { return g.z.pt(g.z.mulk(g.l(p), g.z.red(k))) }

// refRange makes a range proof with the given digits (digit d_i: the entry commits to
// d_i * 2^i), following the published construction. Digits other than 0 and 1 give rings that
// do not close. pos[i] is the power of two the i-th entry is made for. It returns the proof's
// contents, and the sum of digits and of blinding factors.
func refRange(g Group, cp CP, digits []int, pos []int, rnd *stream) (f Fields, v, blind BI) {
	N := g.Order()
	draw := func() BI {
		var b [40]byte
		rnd.Read(b[:])
		k := new(big.Int).SetBytes(b[:])
		return k.Mod(k, N)
	}
	n := len(digits)
	R := make([]EC, n)
	C := make([]EC, n)
	k := make([]BI, n)
	bl := make([]BI, n)
	two := func(i int) BI { return new(big.Int).Lsh(one, uint(i)) }
	for i := range digits {
		k[i] = draw()
		if digits[i] == 0 {
			R[i] = g.Mul(cp.H, k[i])
			continue
		}
		bl[i] = draw()
		m := new(big.Int).Mul(two(pos[i]), big.NewInt(int64(digits[i])))
		C[i] = g.Add(g.Mul(cp.G, m), g.Mul(cp.H, bl[i]))
		R[i] = g.Mul(C[i], hashPts(N, g.Mul(cp.H, k[i])))
	}
	e0 := hashPts(N, R...)
	f.S = []BI{e0}
	f.P = []EC{{X: new(big.Int), Y: new(big.Int)}}
	v, blind = new(big.Int), new(big.Int)
	agg := EC{X: new(big.Int), Y: new(big.Int)}
	for i := range digits {
		var s BI
		if digits[i] == 0 {
			j := draw()
			// e = H(jH + e0 2^i G), C = R/e
			e := hashPts(N, g.Add(g.Mul(cp.H, j), g.Mul(cp.G, new(big.Int).Mul(e0, two(pos[i])))))
			ie := new(big.Int).ModInverse(e, N)
			if ie == nil {
				ie = big.NewInt(1)
			}
			bl[i] = new(big.Int).Mod(new(big.Int).Mul(ie, k[i]), N)
			C[i] = g.Mul(cp.H, bl[i])
			s = new(big.Int).Add(j, new(big.Int).Mul(e0, bl[i]))
		} else {
			s = new(big.Int).Add(k[i], new(big.Int).Mul(e0, bl[i]))
			v.Add(v, new(big.Int).Mul(two(pos[i]), big.NewInt(int64(digits[i]))))
		}
		s.Mod(s, N)
		f.P = append(f.P, C[i])
		f.S = append(f.S, s)
		agg = g.Add(agg, C[i])
		blind.Add(blind, bl[i])
	}
	f.P[0] = agg
	blind.Mod(blind, N)
	return
}
