package zkmc

import (
	"math/big"

	zk "github.com/mit-dci/zksigma"
)

// refProve is an independent prover: it makes a proof for a true statement with the published
// transcript, drawing its nonces from rnd. (Range proofs: refRange.)
func refProve(g Group, s Stmt, rnd *stream) Fields {
	return refProveWith(g, s, func() BI {
		var b [40]byte
		rnd.Read(b[:])
		k := new(big.Int).SetBytes(b[:])
		return k.Mod(k, g.Order())
	}, nil)
}

// refProveWith takes its nonces from draw, and writes every point as as says in transcripts and
// in the proof (nil: as it is).
func refProveWith(g Group, s Stmt, draw func() BI, as func(EC) EC) Fields {
	hashPts := func(N BI, pts ...EC) BI {
		if as != nil {
			pts = asAll(pts, as)
		}
		return hashPts(N, pts...)
	}
	f := refProveRaw(g, s, draw, hashPts)
	if as != nil {
		f.P = asAll(f.P, as)
	}
	return f
}

func asAll(pts []EC, as func(EC) EC) []EC {
	l := make([]EC, len(pts))
	for i, p := range pts {
		l[i] = as(p)
	}
	return l
}

func refProveRaw(g Group, s Stmt, draw func() BI, hashPts func(N BI, pts ...EC) BI) Fields {
	N := g.Order()
	red := func(x BI) BI { return new(big.Int).Mod(x, N) }
	mul := func(a, b BI) BI { return red(new(big.Int).Mul(a, b)) }
	add := func(a, b BI) BI { return red(new(big.Int).Add(a, b)) }
	neg := func(a BI) BI { return red(new(big.Int).Neg(a)) }
	disj := func(v []EC, x BI, side zk.Side) ([]EC, []BI) {
		u, co, so := draw(), draw(), draw()
		if side == zk.Left {
			T1 := g.Mul(v[0], u)
			T2 := g.Add(g.Mul(v[2], so), g.Neg(g.Mul(v[3], co)))
			c := hashPts(N, v[0], v[1], v[2], v[3], T1, T2)
			c1 := add(c, neg(co))
			return []EC{T1, T2}, []BI{c, c1, co, add(u, mul(c1, x)), so}
		}
		T1 := g.Add(g.Mul(v[0], so), g.Neg(g.Mul(v[1], co)))
		T2 := g.Mul(v[2], u)
		c := hashPts(N, v[0], v[1], v[2], v[3], T1, T2)
		c2 := add(c, neg(co))
		return []EC{T1, T2}, []BI{c, co, c2, so, add(u, mul(c2, x))}
	}
	cp := s.cp
	switch s.kind {
	case kGSPFS:
		u := draw()
		R := g.Mul(s.pts[0], u)
		c := hashPts(N, s.pts[0], s.pts[1], R)
		return Fields{[]EC{s.pts[0], R}, []BI{add(u, neg(mul(c, s.wit[0]))), c}}
	case kEquiv:
		u := draw()
		P := []EC{g.Mul(s.pts[0], u), g.Mul(s.pts[2], u)}
		c := hashPts(N, s.pts[0], s.pts[1], s.pts[2], s.pts[3], P[0], P[1])
		return Fields{P, []BI{c, add(u, mul(c, s.wit[0]))}}
	case kDisj:
		P, S := disj(s.pts, s.wit[0], s.side)
		return Fields{P, S}
	case kCons:
		u1, u2 := draw(), draw()
		P := []EC{g.Add(g.Mul(cp.G, u1), g.Mul(cp.H, u2)), g.Mul(s.pts[2], u2)}
		c := hashPts(N, cp.G, cp.H, s.pts[0], s.pts[1], s.pts[2], P[0], P[1])
		return Fields{P, []BI{c, add(u1, mul(c, s.wit[0])), add(u2, mul(c, s.wit[1]))}}
	case kABC, kIneq:
		cm, tok, v, sk := s.pts[0], s.pts[1], s.wit[0], s.wit[1]
		if s.kind == kIneq {
			cm, tok = g.Add(s.pts[0], g.Neg(s.pts[1])), g.Add(s.pts[2], g.Neg(s.pts[3]))
			v, sk = new(big.Int).Sub(s.wit[0], s.wit[1]), s.wit[2]
		}
		v, sk = red(v), red(sk)
		isk := new(big.Int).ModInverse(sk, N)
		inv, cv := new(big.Int), new(big.Int)
		if v.Sign() != 0 {
			inv, cv = new(big.Int).ModInverse(v, N), big.NewInt(1)
		}
		ub, uc, u1, u2, u3 := draw(), draw(), draw(), draw(), draw()
		B := g.Add(g.Mul(cp.G, inv), g.Mul(cp.H, ub))
		C := g.Add(g.Mul(cp.G, cv), g.Mul(cp.H, uc))
		T1 := g.Add(g.Mul(cp.G, u1), g.Mul(tok, u2))
		T2 := g.Add(g.Mul(B, u1), g.Mul(cp.H, u3))
		c := hashPts(N, cp.G, cp.H, cm, tok, B, C, T1, T2)
		vv := []EC{cm, tok, cp.H, g.Add(C, g.Neg(cp.G))}
		var P []EC
		var S []BI
		if v.Sign() == 0 {
			P, S = disj(vv, sk, zk.Left)
		} else {
			P, S = disj(vv, uc, zk.Right)
		}
		ctok := g.Mul(g.Mul(cp.H, sk), uc)
		return Fields{append([]EC{B, C, T1, T2, ctok}, P...), append([]BI{c, add(u1, mul(v, c)), add(u2, mul(isk, c)), add(u3, mul(add(uc, neg(mul(v, ub))), c))}, S...)}
	}
	panic("refProve")
}

// znStmt makes a true statement on the model group.
func znStmt(z *Zn, kind int, h uint64, x, y, w BI, side zk.Side) Stmt {
	g := znGroup{z}
	cp := z.CP(h, 64)
	P := func(b uint64, k BI) EC { return g.Mul(z.pt(b), k) }
	N := z.params.N
	nz := func(k BI) BI {
		if new(big.Int).Mod(k, N).Sign() == 0 {
			return big.NewInt(3)
		}
		return k
	}
	b1, b2 := uint64(1), h
	switch new(big.Int).Mod(y, big.NewInt(3)).Int64() {
	case 1:
		b1, b2 = h, 17
	case 2:
		b1, b2 = 23, 1
	}
	switch kind {
	case kGSPFS:
		return Stmt{kind, cp, []EC{z.pt(b1), P(b1, x)}, []BI{x}, side}
	case kEquiv:
		return Stmt{kind, cp, []EC{z.pt(b1), P(b1, x), z.pt(b2), P(b2, x)}, []BI{x}, 0}
	case kDisj:
		if side == zk.Left {
			return Stmt{kind, cp, []EC{z.pt(b1), P(b1, x), z.pt(b2), P(b2, y)}, []BI{x}, side}
		}
		return Stmt{kind, cp, []EC{z.pt(b1), P(b1, y), z.pt(b2), P(b2, x)}, []BI{x}, side}
	case kCons:
		pk := P(h, w)
		return Stmt{kind, cp, []EC{g.Add(P(1, x), P(h, y)), g.Mul(pk, y), pk}, []BI{x, y}, 0}
	case kABC:
		w = nz(w)
		s := zk.Right
		if new(big.Int).Mod(x, N).Sign() == 0 {
			s = zk.Left
		}
		return Stmt{kind, cp, []EC{g.Add(P(1, x), P(h, y)), g.Mul(P(h, w), y)}, []BI{x, w}, s}
	case kIneq:
		w = nz(w)
		b := big.NewInt(9)
		if new(big.Int).Mod(x, N).Cmp(b) == 0 {
			b = big.NewInt(10)
		}
		rb := new(big.Int).Add(y, big.NewInt(4))
		pk := P(h, w)
		return Stmt{kind, cp, []EC{g.Add(P(1, x), P(h, y)), g.Add(P(1, b), P(h, rb)), g.Mul(pk, y), g.Mul(pk, rb)}, []BI{x, b, w}, 0}
	}
	return Stmt{kRange, cp, nil, []BI{x}, 0}
}
