package zkmc

import (
	"fmt"
	"math/big"

	zk "github.com/mit-dci/zksigma"
)

// aliases are pairs that are close to the coordinates of a point without being a point: the same
// residues modulo the field prime, the same low words, the same magnitudes.
func aliases(p EC, prime BI, serial bool) []EC {
	var l []EC
	var ds []BI
	for _, k := range []uint{8, 16, 31, 32, 63, 64, 128, 192, 255, 256, 512} {
		ds = append(ds, pow2(k))
	}
	ds = append(ds, prime, new(big.Int).Lsh(prime, 1))
	if !serial {
		ds = append(ds, new(big.Int).Neg(prime))
		if p.X.Sign() != 0 {
			l = append(l, EC{X: new(big.Int).Neg(p.X), Y: p.Y})
		}
		if p.Y.Sign() != 0 {
			l = append(l, EC{X: p.X, Y: new(big.Int).Neg(p.Y)})
		}
	}
	for _, d := range ds {
		x, y := new(big.Int).Add(p.X, d), new(big.Int).Add(p.Y, d)
		l = append(l, EC{X: x, Y: p.Y}, EC{X: p.X, Y: y}, EC{X: x, Y: y})
	}
	return l
}

// aliasRun: proofs right in every respect but one: a point of the statement or of the proof is
// written as an alias, in the transcript too.
func aliasRun(c *Ctx, name string, g Group, s Stmt, prime BI, draw func() func() BI) {
	base := refProveWith(g, s, draw(), nil)
	v := s.vpts(func(a, b EC) EC { return g.Add(a, g.Neg(b)) })
	p, err := build(s.kind, base)
	if err != nil {
		c.Fail("decoder rejects well-formed bytes: %v", err)
		return
	}
	verdict(c, p, s.cp, v, true, func() string { return "reference proof for " + s.String() })
	c.Add(1, 1, 1)
	var froms []EC
	for _, q := range append(append([]EC(nil), base.P...), v...) {
		dup := false
		for _, r := range froms {
			dup = dup || sameEC(q, r)
		}
		if s.kind >= kCons && (sameEC(q, s.cp.G) || sameEC(q, s.cp.H)) {
			continue // part of the parameters
		}
		if (s.kind == kABC || s.kind == kIneq) && sameEC(q, base.P[4]) {
			continue // the audit token is carried along, not verified
		}
		if !dup {
			froms = append(froms, q)
		}
	}
	var n int64
	for _, from := range froms {
		for _, to := range aliases(from, prime, s.kind >= kABC) {
			if g.Valid(to) {
				continue // on a tiny field
			}
			as := func(q EC) EC {
				if sameEC(q, from) {
					return to
				}
				return q
			}
			f := refProveWith(g, s, draw(), as)
			if p, err = build(s.kind, f); err != nil {
				c.Outcome("not decodable")
				continue
			}
			verdict(c, p, s.cp, asAll(v, as), false, func() string {
				return fmt.Sprintf("%s proof for %s with %s written as %s: %s", name, s, ecs(from), ecs(to), f)
			})
			n++
			if c.Failed() {
				return
			}
		}
	}
	c.Add(n, n, n)
	c.OutcomeN("point written otherwise: rejected", n)
}

// aliasToy: all statements and all nonces of tiny groups (for ABC proofs up to one zero nonce or all).
func aliasToy(c *Ctx, kind, n int) {
	t := GetToy(n)
	n = t.N
	g := toyGroup{t}
	N := big.NewInt(int64(n))
	prime := t.params.P
	for h := 1; h < n; h++ {
		cp := t.CP(h, 40)
		for side := zk.Left; side <= zk.Right; side++ {
			if side == zk.Right && kind != kDisj {
				continue
			}
			if !c.Case("%s N=%d H=%d side %d: points written as other coordinate pairs", kindName[kind], n, h, side) {
				continue
			}
			tuple(n, 3, func(x []int) bool {
				s := groupStmt(g, cp, kind, bi(x[0]), bi(x[1]), bi(x[2]), side)
				k := []int{kGSPFS: 1, kEquiv: 1, kDisj: 3, kCons: 2, kABC: 8, kIneq: 8}[kind]
				lists(k, n, k > 3, func(d []int) bool {
					draw := func() func() BI {
						i := 0
						return func() BI { i++; return new(big.Int).Mod(bi(d[i-1]), N) }
					}
					aliasRun(c, "toy", g, s, prime, draw)
					return !c.Tick() && !c.Failed()
				})
				return !c.Stop()
			})
			if c.Stop() {
				return
			}
		}
	}
}

// lists gives nonce lists: all of them, or (sparse) 1,2,3.. with up to one zero, and all zero.
func lists(k, n int, sparse bool, f func([]int) bool) {
	if !sparse {
		tuple(n, k, func(x []int) bool { return f(x) })
		return
	}
	x := make([]int, k)
	for z := -1; z <= k; z++ {
		for i := range x {
			x[i] = 1 + i%(n-1)
			if i == z || z == k {
				x[i] = 0
			}
		}
		if !f(x) {
			return
		}
	}
}

// groupStmt makes a true statement over any group from small logarithms.
func groupStmt(g Group, cp CP, kind int, x, y, w BI, side zk.Side) Stmt {
	N := g.Order()
	m := func(k BI) BI { return new(big.Int).Mod(k, N) }
	P := func(b EC, k BI) EC { return g.Mul(b, m(k)) }
	com := func(v, r BI) EC { return g.Add(P(cp.G, v), P(cp.H, r)) }
	nz := func(k BI) BI {
		if m(k).Sign() == 0 {
			return big.NewInt(1)
		}
		return k
	}
	b1, b2 := cp.G, P(cp.H, w)
	switch kind {
	case kGSPFS:
		b := com(y, w)
		return Stmt{kind, cp, []EC{b, P(b, x)}, []BI{x}, side}
	case kEquiv:
		b1 = P(cp.G, y)
		return Stmt{kind, cp, []EC{b1, P(b1, x), b2, P(b2, x)}, []BI{x}, 0}
	case kDisj:
		if side == zk.Left {
			return Stmt{kind, cp, []EC{b1, P(b1, x), b2, P(b2, y)}, []BI{x}, side}
		}
		return Stmt{kind, cp, []EC{b2, P(b2, y), b1, P(b1, x)}, []BI{x}, side}
	case kCons:
		pk := P(cp.H, w)
		return Stmt{kind, cp, []EC{com(x, y), P(pk, y), pk}, []BI{x, y}, 0}
	case kABC:
		w = nz(w)
		s := zk.Right
		if m(x).Sign() == 0 {
			s = zk.Left
		}
		return Stmt{kind, cp, []EC{com(x, y), P(P(cp.H, w), y)}, []BI{x, w}, s}
	case kIneq:
		w = nz(w)
		a := new(big.Int).Add(x, one)
		if m(x).Sign() == 0 {
			x = one
		}
		b := m(new(big.Int).Sub(a, x))
		pk := P(cp.H, w)
		rb := new(big.Int)
		return Stmt{kind, cp, []EC{com(a, y), com(b, rb), P(pk, y), P(pk, rb)}, []BI{a, b, w}, 0}
	}
	panic("groupStmt")
}

// aliasSecp: the same on secp256k1, with nonces that are zero or not.
func aliasSecp(c *Ctx, kind int) {
	g := secpGroup{}
	for pi, cp := range realParams() {
		if pi > 0 && !c.Thorough {
			break
		}
		for _, x := range []BI{new(big.Int), hexInt("123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef1")} {
			for _, y := range []BI{new(big.Int), hexInt("7f3456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef2")} {
				for side := zk.Left; side <= zk.Right; side++ {
					if side == zk.Right && kind != kDisj {
						continue
					}
					if !c.Case("%s on secp256k1, params %d, x=%s y=%s side %d: points written as other coordinate pairs", kindName[kind], pi, x.Text(16), y.Text(16), side) {
						continue
					}
					s := realStmt(kind, pi, cp, x, y, big.NewInt(5), side)
					k := []int{kGSPFS: 1, kEquiv: 1, kDisj: 3, kCons: 2, kABC: 8, kIneq: 8}[kind]
					lists(k, 2, k > 3, func(d []int) bool {
						st := newStream("alias")
						nz := make([]BI, k)
						for i := range nz {
							var b [31]byte
							st.Read(b[:])
							nz[i] = new(big.Int).SetBytes(b[:])
							if d[i] == 0 {
								nz[i] = new(big.Int)
							}
						}
						draw := func() func() BI {
							i := 0
							return func() BI { i++; return nz[i-1] }
						}
						aliasRun(c, "secp", g, s, sP, draw)
						c.Alive()
						return !c.Failed() && (c.Thorough || k <= 3 || d[0] == 0 || d[k-1] == 0)
					})
					if c.Stop() {
						return
					}
				}
			}
		}
	}
}

// fewAliases: one alias per kind.
func fewAliases(p EC, prime BI) []EC {
	var l []EC
	for _, d := range []BI{pow2(32), pow2(64), pow2(128), pow2(256), prime} {
		l = append(l, EC{X: new(big.Int).Add(p.X, d), Y: new(big.Int).Add(p.Y, d)})
	}
	return append(l, EC{X: new(big.Int).Add(p.X, pow2(64)), Y: p.Y}, EC{X: p.X, Y: new(big.Int).Add(p.Y, pow2(64))})
}
