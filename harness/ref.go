package zkmc

import (
	"crypto/sha256"
	"math/big"
)

// Group is the reference arithmetic of a curve.
type Group interface {
	Order() BI
	Valid(p EC) bool // in the group (infinity included)
	Add(a, b EC) EC
	Mul(p EC, k BI) EC
	Neg(p EC) EC
}

type toyGroup struct{ t *Toy }

func (g toyGroup) Order() BI       { return g.t.params.N }
func (g toyGroup) Valid(p EC) bool { return g.t.Log(p) >= 0 }
func (g toyGroup) Add(a, b EC) EC  { return g.t.Pts[(g.t.Log(a)+g.t.Log(b))%g.t.N] }
func (g toyGroup) Neg(p EC) EC     { return g.t.Pts[(g.t.N-g.t.Log(p))%g.t.N] }
func (g toyGroup) Mul(p EC, k BI) EC {
	s := int(new(big.Int).Mod(k, g.t.params.N).Int64())
	return g.t.Pts[g.t.Log(p)*s%g.t.N]
}

type secpGroup struct{}

func toApt(p EC) apt {
	if p.X.Sign() == 0 && p.Y.Sign() == 0 {
		return apt{}
	}
	return apt{p.X, p.Y}
}

func (secpGroup) Order() BI { return sN }
func (secpGroup) Valid(p EC) bool {
	if p.X.Sign() == 0 && p.Y.Sign() == 0 {
		return true
	}
	return p.X.Sign() >= 0 && p.Y.Sign() >= 0 && p.X.Cmp(sP) < 0 && p.Y.Cmp(sP) < 0 && onCurve(p.X, p.Y)
}
func (secpGroup) Add(a, b EC) EC    { return toApt(a).add(toApt(b)).ec() }
func (secpGroup) Neg(p EC) EC       { return toApt(p).neg().ec() }
func (secpGroup) Mul(p EC, k BI) EC { return refMul(p, k).ec() }

var refMulG = EC{X: sGx, Y: sGy}

func refMul(p EC, k BI) apt {
	if noComb {
		return toApt(p).mul(k)
	}
	initComb()
	if sameEC(p, refMulG) {
		return combG.mulJ(k, jInf()).affine()
	}
	if !refH.inf() && refH.eq(p.X, p.Y) {
		return combH.mulJ(k, jInf()).affine()
	}
	return toApt(p).mul(k)
}

func hashPts(N BI, pts ...EC) BI {
	h := sha256.New()
	for _, p := range pts {
		h.Write(p.X.Bytes())
		h.Write(p.Y.Bytes())
	}
	c := new(big.Int).SetBytes(h.Sum(nil))
	return c.Mod(c, N)
}

// refVerify is the specification of every verifier: (challenge correct) and (all equations hold).
// Scalars may be any integers; challenges must be the canonical ones.
func refVerify(g Group, cp CP, kind int, v []EC, f Fields) bool {
	for i, p := range f.P {
		if (kind == kABC || kind == kIneq) && i == 4 {
			continue // the audit token is carried along, not verified
		}
		if !g.Valid(p) {
			return false
		}
	}
	for _, p := range v {
		if !g.Valid(p) {
			return false
		}
	}
	N := g.Order()
	eq := func(l, r EC) bool { return sameEC(l, r) }
	disj := func(v []EC, P []EC, S []BI) bool {
		c := hashPts(N, v[0], v[1], v[2], v[3], P[0], P[1])
		if c.Cmp(S[0]) != 0 {
			return false
		}
		t := new(big.Int).Add(S[1], S[2])
		if t.Mod(t, N).Cmp(c) != 0 {
			return false
		}
		return eq(g.Mul(v[0], S[3]), g.Add(P[0], g.Mul(v[1], S[1]))) &&
			eq(g.Mul(v[2], S[4]), g.Add(P[1], g.Mul(v[3], S[2])))
	}
	switch kind {
	case kGSPFS:
		c := hashPts(N, f.P[0], v[0], f.P[1])
		return c.Cmp(f.S[1]) == 0 && eq(f.P[1], g.Add(g.Mul(f.P[0], f.S[0]), g.Mul(v[0], c)))
	case kEquiv:
		c := hashPts(N, v[0], v[1], v[2], v[3], f.P[0], f.P[1])
		return c.Cmp(f.S[0]) == 0 &&
			eq(g.Mul(v[0], f.S[1]), g.Add(f.P[0], g.Mul(v[1], c))) &&
			eq(g.Mul(v[2], f.S[1]), g.Add(f.P[1], g.Mul(v[3], c)))
	case kDisj:
		return disj(v, f.P, f.S)
	case kCons:
		c := hashPts(N, cp.G, cp.H, v[0], v[1], v[2], f.P[0], f.P[1])
		return c.Cmp(f.S[0]) == 0 &&
			eq(g.Add(g.Mul(cp.G, f.S[1]), g.Mul(cp.H, f.S[2])), g.Add(f.P[0], g.Mul(v[0], c))) &&
			eq(g.Mul(v[2], f.S[2]), g.Add(f.P[1], g.Mul(v[1], c)))
	case kABC, kIneq:
		B, C, T1, T2 := f.P[0], f.P[1], f.P[2], f.P[3]
		c := hashPts(N, cp.G, cp.H, v[0], v[1], B, C, T1, T2)
		if c.Cmp(f.S[0]) != 0 {
			return false
		}
		if !disj([]EC{v[0], v[1], cp.H, g.Add(C, g.Neg(cp.G))}, f.P[5:7], f.S[4:9]) {
			return false
		}
		return eq(g.Add(g.Mul(v[0], c), T1), g.Add(g.Mul(cp.G, f.S[1]), g.Mul(v[1], f.S[2]))) &&
			eq(g.Add(g.Mul(C, c), T2), g.Add(g.Mul(B, f.S[1]), g.Mul(cp.H, f.S[3])))
	case kRange:
		n := len(f.P) - 1
		if n > len(cp.HPoints) {
			return false
		}
		e0 := f.S[0]
		h := sha256.New()
		sum := EC{X: new(big.Int), Y: new(big.Int)}
		for i := 0; i < n; i++ {
			C, s := f.P[1+i], f.S[1+i]
			// s*H - e0*(C - 2^i G)
			q := g.Add(g.Mul(cp.H, s), g.Neg(g.Mul(g.Add(C, g.Neg(cp.HPoints[i])), e0)))
			ei := hashPts(N, q)
			R := g.Mul(C, ei)
			h.Write(R.X.Bytes())
			h.Write(R.Y.Bytes())
			sum = g.Add(sum, C)
		}
		e := new(big.Int).SetBytes(h.Sum(nil))
		e.Mod(e, N)
		return e.Cmp(e0) == 0 && eq(sum, f.P[0]) && eq(sum, v[0])
	}
	return false
}

// ---- the same specification on discrete logs of a toy curve (fast) ----

func (t *Toy) okGSPFS(base, A, R, s, c int) bool {
	return t.Chal(base, A, R) == c && (base*s+A*c-R)%t.N == 0
}

func (t *Toy) okEquiv(b1, r1, b2, r2, u1, u2, c, s int) bool {
	return t.Chal(b1, r1, b2, r2, u1, u2) == c && (s*b1-u1-c*r1)%t.N == 0 && (s*b2-u2-c*r2)%t.N == 0
}

func (t *Toy) okCons(h, cm, tok, pk, t1, t2, c, s1, s2 int) bool {
	return t.Chal(1, h, cm, tok, pk, t1, t2) == c && (s1+s2*h-t1-c*cm)%t.N == 0 && (s2*pk-t2-c*tok)%t.N == 0
}

func (t *Toy) okDisj(b1, r1, b2, r2, t1, t2, c, c1, c2, s1, s2 int) bool {
	return t.Chal(b1, r1, b2, r2, t1, t2) == c && (c1+c2)%t.N == c && (s1*b1-t1-c1*r1)%t.N == 0 && (s2*b2-t2-c2*r2)%t.N == 0
}
