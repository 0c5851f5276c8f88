package zkmc

import (
	"bufio"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"strings"

	zk "github.com/mit-dci/zksigma"
)

// What an accepted proof means, decided in the group of pairs (f2.go), where openings are unique.

type c24 struct {
	c     *Ctx
	f     *F2
	g     f2Group
	cp    CP
	lucky bool
}

func newC24(c *Ctx) *c24 {
	f := newF2()
	return &c24{c: c, f: f, g: f2Group{f}, cp: f.CP(64)}
}

// newC24of is for a group small enough to visit every proof. There a false statement can have a
// valid proof by luck; what the specification rejects must not be accepted.
func newC24of(c *Ctx, q uint64) *c24 {
	f := newF2of(q)
	return &c24{c: c, f: f, g: f2Group{f}, cp: f.CP(8), lucky: true}
}

func (m *c24) pts(vs ...vec) []EC {
	l := make([]EC, len(vs))
	for i, v := range vs {
		l[i] = m.f.pt(v)
	}
	return l
}

func (m *c24) chal(vs ...vec) uint64 { return hashPts(m.g.Order(), m.pts(vs...)...).Uint64() }

func (m *c24) in(p, base vec) bool { _, ok := m.f.div(p, base); return ok }

func sub64(m *F2, a, b uint64) uint64 { return m.z.addk(a, (m.q-b)%m.q) }

// truth tells whether the statement that a proof of this kind makes about v is true. fp are the
// proof's own points (the base of a gspfs proof, B and C of an abc proof), n the number of
// entries of a range proof. def is false where the statement says nothing: tokens that no key and
// no randomness other than zero lead to.
func (m *c24) truth(kind int, v, fp []vec, n int) (ok, def bool) {
	switch kind {
	case kGSPFS:
		return m.in(v[0], fp[0]), true
	case kEquiv:
		x, ok := m.f.div(v[1], v[0])
		if !ok {
			return false, true
		}
		if v[0] == (vec{}) { // any x will do there
			return m.in(v[3], v[2]), true
		}
		return m.f.mul(v[2], x) == v[3], true
	case kDisj:
		return m.in(v[1], v[0]) || m.in(v[3], v[2]), true
	case kCons:
		return m.f.mul(v[2], v[0].b) == v[1], true
	case kABC, kIneq:
		if v[0].b == 0 || v[1].b == 0 || v[1].a != 0 {
			return true, false
		}
		if kind == kIneq {
			return v[0].a != 0, true
		}
		if v[0].a == 0 {
			return fp[1].a == 0, true
		}
		return fp[1].a == 1, true
	case kRange:
		return v[0].a < 1<<uint(n), true
	}
	panic("truth")
}

// judge gives the proof with these contents to the verifier.
func (m *c24) judge(what string, kind int, v []vec, P []vec, S ...uint64) bool {
	f := Fields{P: m.pts(P...)}
	for _, s := range S {
		f.S = append(f.S, new(big.Int).SetUint64(s))
	}
	p, err := build(kind, f)
	if err != nil {
		m.c.Fail("%s: the contents do not decode: %v", what, err)
		return false
	}
	return m.verdict(what, p, v, P)
}

func (m *c24) verdict(what string, p Proof, v []vec, P []vec) bool {
	acc := false
	m.c.Guard(kindName[p.kind]+" verifier", func() { acc, _ = verify(p, m.cp, m.pts(v...)) })
	m.c.Add(1, 1, 1)
	n := 0
	if p.kind == kRange {
		n = len(P) - 1
	}
	ok, def := m.truth(p.kind, v, P, n)
	switch {
	case !acc:
		m.c.res.Outcomes[kindName[p.kind]+", refused"]++
	case !def:
		m.c.res.Outcomes[kindName[p.kind]+", accepted, no statement"]++
	case ok:
		m.c.res.Outcomes[kindName[p.kind]+", accepted, true"]++
	case p.kind == kIneq && what != "NewInequalityProof" && P[1].a == 0:
		// as an abc proof it is right: the difference is zero and C commits to 0
		m.c.Known("inequality-of-equals", "InequalityProof.Verify accepts an abc proof (left side) of a difference that is zero: %s, v=%v", what, v)
	case m.lucky && refVerify(m.g, m.cp, p.kind, m.pts(v...), fieldsOf(p)):
		m.c.res.Outcomes[kindName[p.kind]+", accepted, false but valid by luck"]++
	default:
		m.c.Fail("%s: the %s verifier accepts a false statement: %v, points of the proof %v, %v", what, kindName[p.kind], v, P, fieldsOf(p))
	}
	return acc
}

func small(k int64) uint64 { return uint64((k + znN) % znN) }

func vecs(as, bs []int64) (l []vec) {
	for _, a := range as {
		for _, b := range bs {
			l = append(l, vec{small(a), small(b)})
		}
	}
	return
}

func c24GSPFS(c *Ctx) {
	m := newC24(c)
	r := []int64{0, 1, 2, -1, 3}
	V := vecs(r, r)
	for _, base := range V {
		for _, A := range V {
			if !c.Case("gspfs base %v point %v", base, A) {
				if c.Stop() {
					return
				}
				continue
			}
			for _, R := range V {
				ch := m.chal(base, A, R)
				cA := m.f.mul(A, ch)
				var ss []uint64
				ss = append(ss, m.f.tries(m.f.add(R, m.f.neg(cA)), base)...)
				ss = append(ss, m.f.tries(m.f.add(R, cA), base)...)
				ss = append(ss, 0, 1, ch)
				for _, s := range ss {
					for _, chal := range []uint64{ch, 0, 1} {
						m.judge("chosen commitment", kGSPFS, []vec{A}, []vec{base, R}, s, chal)
					}
				}
			}
			if c.Stop() {
				return
			}
		}
	}
}

var sixVecs = []vec{{0, 0}, {1, 0}, {0, 1}, {1, 1}, {2, 0}, {znN - 1, 1}}

// forVecs enumerates all n-tuples of l.
func forVecs(l []vec, n int, f func(t []vec) bool) bool {
	t := make([]vec, n)
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == n {
			return f(append([]vec{}, t...))
		}
		for _, v := range l {
			t[i] = v
			if !rec(i + 1) {
				return false
			}
		}
		return true
	}
	return rec(0)
}

func c24Equiv(c *Ctx) {
	m := newC24(c)
	forVecs(sixVecs, 4, func(v []vec) bool {
		if !c.Case("equivalence %v", v) {
			return !c.Stop()
		}
		forVecs(sixVecs, 2, func(T []vec) bool {
			ch := m.chal(append(append([]vec{}, v...), T...)...)
			ss := m.f.tries(m.f.add(T[0], m.f.mul(v[1], ch)), v[0])
			ss = append(ss, m.f.tries(m.f.add(T[1], m.f.mul(v[3], ch)), v[2])...)
			for _, s := range ss {
				m.judge("chosen commitments", kEquiv, v, T, ch, s)
				if t, _ := m.truth(kEquiv, v, nil, 0); !t {
					m.special("special scalars", kEquiv, v, T, []uint64{ch, s})
				}
			}
			return true
		})
		return !c.Stop()
	})
}

// disjMoves are contents for a disjunctive proof with given commitments.
func (m *c24) disjMoves(v, T []vec) (l [][]uint64) {
	ch := m.chal(append(append([]vec{}, v...), T...)...)
	seen := map[string]bool{}
	for _, c1 := range []uint64{0, 1, ch, znN - 1, m.f.z.mulk(ch, m.f.inv(2))} {
		for _, c2 := range []uint64{sub64(m.f, ch, c1), ch, c1} {
			for _, s1 := range m.f.tries(m.f.add(T[0], m.f.mul(v[1], c1)), v[0]) {
				for _, s2 := range m.f.tries(m.f.add(T[1], m.f.mul(v[3], c2)), v[2]) {
					k := fmt.Sprint(c1, c2, s1, s2)
					if !seen[k] {
						seen[k] = true
						l = append(l, []uint64{ch, c1, c2, s1, s2})
					}
				}
			}
		}
	}
	return
}

func c24Disj(c *Ctx) {
	m := newC24(c)
	forVecs(sixVecs, 4, func(v []vec) bool {
		if !c.Case("disjunctive %v", v) {
			return !c.Stop()
		}
		t, _ := m.truth(kDisj, v, nil, 0)
		if t && v[0] != (vec{1, 0}) { // nothing to find; a few are kept to see that moves succeed
			return !c.Stop()
		}
		forVecs(sixVecs, 2, func(T []vec) bool {
			for i, S := range m.disjMoves(v, T) {
				m.judge("chosen commitments", kDisj, v, T, S...)
				if i == 0 && !t {
					m.special("special scalars", kDisj, v, T, S)
				}
			}
			return true
		})
		return !c.Stop()
	})
}

func c24Cons(c *Ctx) {
	m := newC24(c)
	V := append(append([]vec{}, sixVecs...), vec{2, 3}, vec{0, 2})
	forVecs(V, 3, func(v []vec) bool {
		if !c.Case("consistency %v", v) {
			return !c.Stop()
		}
		forVecs(V, 2, func(T []vec) bool {
			ch := m.chal(vec{1, 0}, vec{0, 1}, v[0], v[1], v[2], T[0], T[1])
			e := m.f.add(T[0], m.f.mul(v[0], ch))
			ss := append([]uint64{e.b}, m.f.tries(m.f.add(T[1], m.f.mul(v[1], ch)), v[2])...)
			for _, s := range ss {
				m.judge("chosen commitments", kCons, v, T, ch, e.a, s)
				if t, _ := m.truth(kCons, v, nil, 0); !t && s == ss[0] {
					m.special("special scalars", kCons, v, T, []uint64{ch, e.a, s})
				}
			}
			return true
		})
		return !c.Stop()
	})
}

// honestDisj is a disjunctive proof for a clause that can be proved, if there is one.
func (m *c24) honestDisj(v []vec) (T []vec, S []uint64, ok bool) {
	const u, co, so = 1234567, 7654321, 1122334455
	one := func(i int) bool {
		x, can := m.f.div(v[2*i+1], v[2*i])
		if !can {
			return false
		}
		o := 1 - i
		T = make([]vec, 2)
		T[i] = m.f.mul(v[2*i], u)
		T[o] = m.f.add(m.f.mul(v[2*o], so), m.f.neg(m.f.mul(v[2*o+1], co)))
		ch := m.chal(append(append([]vec{}, v...), T...)...)
		ci := sub64(m.f, ch, co)
		S = make([]uint64, 5)
		S[0] = ch
		S[1+i], S[1+o] = ci, co
		S[3+i], S[3+o] = m.f.z.addk(u, m.f.z.mulk(ci, x)), so
		return true
	}
	ok = one(0) || one(1)
	return
}

func c24ABC(c *Ctx) {
	m := newC24(c)
	f := m.f
	half := int64(f.inv(2))
	Bs := vecs([]int64{0, 1, 2, half, -1}, []int64{0, 1})
	Cs := vecs([]int64{0, 1, 2, -1}, []int64{0, 1})
	Ts := vecs([]int64{0, 1, 2}, []int64{0, 1})
	if c.Thorough {
		Bs = vecs([]int64{0, 1, 2, half, -1, 3}, []int64{0, 1, 2})
		Ts = vecs([]int64{0, 1, 2, -1}, []int64{0, 1})
	}
	for _, CM := range vecs([]int64{0, 1, 2, -1}, []int64{1, 3}) {
		for _, sk := range []uint64{1, 2} {
			tok := vec{0, f.z.mulk(CM.b, sk)}
			for _, B := range Bs {
				for _, C := range Cs {
					if !c.Case("abc %v %v B=%v C=%v", CM, tok, B, C) {
						if c.Stop() {
							return
						}
						continue
					}
					dv := []vec{CM, tok, {0, 1}, f.add(C, vec{znN - 1, 0})}
					type emb struct {
						T []vec
						S []uint64
					}
					var embs []emb
					if T, S, ok := m.honestDisj(dv); ok {
						embs = append(embs, emb{T, S})
					}
					for _, T := range [][]vec{{{0, 0}, {0, 0}}, {{1, 0}, {0, 1}}} {
						for i, S := range m.disjMoves(dv, T) {
							if i < 4 {
								embs = append(embs, emb{T, S})
							}
						}
					}
					for _, T1 := range Ts {
						for _, T2 := range Ts {
							ch := m.chal(vec{1, 0}, vec{0, 1}, CM, tok, B, C, T1, T2)
							e1 := f.add(f.mul(CM, ch), T1)
							j, k := e1.a, f.z.mulk(e1.b, f.inv(tok.b))
							l := f.add(f.add(f.mul(C, ch), T2), f.neg(f.mul(B, j))).b
							for ei, e := range embs {
								if ei > 1 && (T1 != Ts[0] || T2 != Ts[0]) {
									break
								}
								P := []vec{B, C, T1, T2, {0, 0}, e.T[0], e.T[1]}
								S := append([]uint64{ch, j, k, l}, e.S...)
								m.judge("chosen commitments", kABC, []vec{CM, tok}, P, S...)
								m.judge("chosen commitments", kIneq, []vec{CM, tok}, P, S...)
								// as if the equations were about another value
								if B.a != 0 {
									j2 := f.z.mulk(f.add(f.mul(C, ch), T2).a, f.inv(B.a))
									S[1] = j2
									m.judge("j from the second equation", kABC, []vec{CM, tok}, P, S...)
								}
							}
						}
					}
					if c.Stop() {
						return
					}
				}
			}
		}
	}
}

// c24Provers: whatever the library's provers hand out, for whatever arguments, taken for any
// statement near the one it was made for, and in any role.
func c24Provers(c *Ctx) {
	m := newC24(c)
	r := []int64{0, 1, 2}
	V := vecs(r, r)
	wit := []int64{0, 1, 2, -1}
	bi := func(k int64) BI { return big.NewInt(k) }
	take := func(s Stmt, v []vec) {
		var p Proof
		var err error
		withRand(newStream("c24"), func() { c.Guard(kindName[s.kind]+" prover", func() { p, _, err = prove(s) }) })
		c.Add(0, 1, 0)
		if err != nil || p.isNil() {
			c.res.Outcomes[kindName[s.kind]+" prover refuses"]++
			return
		}
		roles := []Proof{p}
		if s.kind == kABC {
			i := zk.InequalityProof(*p.a)
			roles = append(roles, Proof{kind: kIneq, i: &i})
		}
		if s.kind == kIneq {
			a := zk.ABCProof(*p.i)
			roles = append(roles, Proof{kind: kABC, a: &a})
		}
		// its bytes read as another type
		b := p.bytes()
		for k := 0; k < nKinds; k++ {
			if k != s.kind && k != kRange && len(b) > 0 {
				if q, err := fromBytes(k, b); err == nil && !q.isNil() {
					roles = append(roles, q)
				}
			}
		}
		for _, q := range roles {
			P := []vec{}
			for _, pt := range fieldsOf(q).P {
				pv, _ := m.f.log(pt)
				P = append(P, pv)
			}
			what := "an honest proof in another role"
			if q.kind == s.kind {
				what = []string{"NewGSPFSProof", "NewEquivalenceProof", "NewDisjunctiveProof", "NewConsistencyProof", "NewABCProof", "NewInequalityProof", ""}[s.kind]
			}
			n := []int{1, 4, 4, 3, 2, 2}[q.kind]
			base := make([]vec, n)
			copy(base, v)
			m.verdict(what, q, base, P)
			for i := range base {
				for _, x := range V {
					w := append([]vec{}, base...)
					w[i] = x
					m.verdict(what, q, w, P)
				}
			}
			for i := range base { // exchanged points
				for j := 0; j < i; j++ {
					w := append([]vec{}, base...)
					w[i], w[j] = w[j], w[i]
					m.verdict(what, q, w, P)
				}
			}
		}
	}
	side := []zk.Side{zk.Left, zk.Right}
	one := func(kind int, v []vec, args []vec, w ...int64) {
		ws := []BI{}
		for _, x := range w {
			ws = append(ws, bi(x))
		}
		for _, sd := range side {
			if sd == zk.Right && kind != kDisj && kind != kABC {
				continue
			}
			if !c.Case("%s prover %v witness %v side %d", kindName[kind], args, w, sd) {
				continue
			}
			take(Stmt{kind, m.cp, m.pts(args...), ws, sd}, v)
		}
	}
	for _, x := range wit {
		for _, b := range V {
			for _, a := range V {
				one(kGSPFS, []vec{a}, []vec{b, a}, x)
			}
		}
	}
	few := []vec{{0, 0}, {1, 0}, {0, 1}, {1, 1}, {2, 0}}
	for _, x := range []int64{0, 1, 2} {
		forVecs(few, 4, func(v []vec) bool {
			one(kEquiv, v, v, x)
			one(kDisj, v, v, x)
			return !c.Stop()
		})
	}
	for _, x := range wit {
		for _, y := range []int64{0, 1, 2} {
			for _, cm := range V {
				for _, tok := range few {
					for _, pk := range few {
						one(kCons, []vec{cm, tok, pk}, []vec{cm, tok, pk}, x, y)
					}
				}
			}
			if c.Stop() {
				return
			}
		}
	}
	for _, x := range wit {
		for _, sk := range []int64{1, 2, 3} {
			for _, cm := range vecs([]int64{0, 1, 2}, []int64{1, 2}) {
				for _, t := range []uint64{1, 2, 3, 4, 6} {
					tok := vec{0, t}
					one(kABC, []vec{cm, tok}, []vec{cm, tok}, x, sk)
				}
			}
		}
	}
	N := int64(znN)
	for _, a := range []int64{0, 1, 2, N} {
		for _, b := range []int64{0, 1, 2, N, N + 1} {
			for _, sk := range []int64{1, 2} {
				for _, cm := range vecs([]int64{0, 1, 2}, []int64{1, 2}) {
					for _, cm2 := range vecs([]int64{0, 1, 2}, []int64{0, 3}) {
						k := uint64(sk)
						ta, tb := vec{0, m.f.z.mulk(cm.b, k)}, vec{0, m.f.z.mulk(cm2.b, k)}
						d, td := m.f.add(cm, m.f.neg(cm2)), m.f.add(ta, m.f.neg(tb))
						one(kIneq, []vec{d, td}, []vec{cm, cm2, ta, tb}, a, b, sk)
					}
				}
			}
		}
		if c.Stop() {
			return
		}
	}
}

// c24Late: the statement is completed after the challenge, computed without the missing point.
func c24Late(c *Ctx) {
	m := newC24(c)
	f := m.f
	V := []vec{{1, 0}, {0, 1}, {1, 1}, {2, 1}, {0, 0}}
	drop := func(l []vec, i int) (r []vec) {
		r = append(r, l[:i]...)
		return append(r, l[i+1:]...)
	}
	over := func(p vec, ch uint64) vec { return f.mul(p, f.inv(ch)) }
	forVecs(V, 4, func(t []vec) bool {
		if !c.Case("late statement from %v", t) {
			return !c.Stop()
		}
		for _, s := range []uint64{0, 1, 5} {
			// gspfs: R = s*base + c*A; A or R left open
			base, R := t[0], t[1]
			ch := m.chal(base, R)
			A := over(f.add(R, f.neg(f.mul(base, s))), ch)
			m.judge("point chosen last", kGSPFS, []vec{A}, []vec{base, R}, s, ch)
			A = t[2]
			ch = m.chal(base, A)
			R = f.add(f.mul(base, s), f.mul(A, ch))
			m.judge("commitment chosen last", kGSPFS, []vec{A}, []vec{base, R}, s, ch)
			// equivalence and disjunctive: B1 R1 B2 R2 T1 T2
			for last := 0; last < 6; last++ {
				for _, x := range []uint64{1, 2} {
					l := []vec{t[0], f.mul(t[0], x), t[1], t[2], t[3], t[0]}
					ch := m.chal(drop(l, last)...)
					l[4] = f.add(f.mul(l[0], s), f.neg(f.mul(l[1], ch)))
					if last != 4 { // the first equation by the rules, the second by the open point
						u := uint64(77)
						l[4] = f.mul(l[0], u)
						ch = m.chal(drop(l, last)...)
						s = f.z.addk(u, f.z.mulk(ch, x))
					}
					switch last {
					case 2:
						if s != 0 {
							l[2] = f.mul(f.add(l[5], f.mul(l[3], ch)), f.inv(s))
						}
					case 3:
						l[3] = over(f.add(f.mul(l[2], s), f.neg(l[5])), ch)
					case 5:
						l[5] = f.add(f.mul(l[2], s), f.neg(f.mul(l[3], ch)))
					}
					m.judge("point chosen last", kEquiv, l[:4], l[4:6], ch, s)
					for _, c1 := range []uint64{0, 9, ch} {
						c2 := sub64(f, ch, c1)
						for _, s1 := range f.tries(f.add(l[4], f.mul(l[1], c1)), l[0]) {
							for _, s2 := range f.tries(f.add(l[5], f.mul(l[3], c2)), l[2]) {
								m.judge("point chosen last", kDisj, l[:4], l[4:6], ch, c1, c2, s1, s2)
							}
						}
					}
					// both results not multiples of their bases, T1 or T2 open
					d := []vec{t[0], t[1], t[2], t[3], {3, 1}, {1, 3}}
					ch2 := m.chal(drop(d, last)...)
					c1 := uint64(9)
					c2 := sub64(f, ch2, c1)
					if last == 4 {
						d[4] = f.add(f.mul(d[0], 5), f.neg(f.mul(d[1], c1)))
					}
					if last == 5 {
						d[5] = f.add(f.mul(d[2], 5), f.neg(f.mul(d[3], c2)))
					}
					for _, s1 := range f.tries(f.add(d[4], f.mul(d[1], c1)), d[0]) {
						for _, s2 := range f.tries(f.add(d[5], f.mul(d[3], c2)), d[2]) {
							m.judge("point chosen last", kDisj, d[:4], d[4:6], ch2, c1, c2, s1, s2)
						}
					}
				}
			}
			// consistency: G H CM Tok PK T1 T2
			for last := 2; last < 7; last++ {
				u1, u2 := uint64(31), uint64(41)
				l := []vec{{1, 0}, {0, 1}, t[0], t[1], t[2], {u1, u2}, f.mul(t[2], u2)}
				ch := m.chal(drop(l, last)...)
				e := f.add(l[5], f.mul(l[2], ch))
				s1, s2 := e.a, e.b
				switch last {
				case 2:
					s2 = f.tries(f.add(l[6], f.mul(l[3], ch)), l[4])[0]
					l[2] = over(f.add(vec{s, s2}, f.neg(l[5])), ch)
					s1 = s
				case 3:
					l[3] = over(f.add(f.mul(l[4], s2), f.neg(l[6])), ch)
				case 4:
					if s2 != 0 {
						l[4] = f.mul(f.add(l[6], f.mul(l[3], ch)), f.inv(s2))
					}
				case 5:
					s2 = f.tries(f.add(l[6], f.mul(l[3], ch)), l[4])[0]
					l[5] = f.add(vec{s, s2}, f.neg(f.mul(l[2], ch)))
					s1 = s
				case 6:
					l[6] = f.add(f.mul(l[4], s2), f.neg(f.mul(l[3], ch)))
				}
				m.judge("point chosen last", kCons, l[2:5], l[5:7], ch, s1, s2)
			}
			// abc: G H CM Tok B C T1 T2 with a value of 2 or 0 that B and C do not fit
			for _, v := range []uint64{0, 2} {
				for last := 2; last < 8; last++ {
					B, C := vec{t[0].a, 1}, vec{t[1].a, 2}
					l := []vec{{1, 0}, {0, 1}, {v, 3}, {0, 6}, B, C, {u(s), 7}, {t[2].a, 4}}
					ch := m.chal(drop(l, last)...)
					e := f.add(f.mul(l[2], ch), l[6])
					j := e.a
					switch last {
					case 4:
						if j != 0 {
							l[4].a = f.z.mulk(f.add(f.mul(l[5], ch), l[7]).a, f.inv(j))
						}
					case 5:
						l[5].a = f.z.mulk(sub64(f, f.z.mulk(l[4].a, j), l[7].a), f.inv(ch))
					case 6:
						if l[4].a != 0 {
							j = f.z.mulk(f.add(f.mul(l[5], ch), l[7]).a, f.inv(l[4].a))
							l[6].a = sub64(f, j, f.z.mulk(l[2].a, ch))
						}
					case 7:
						l[7].a = sub64(f, f.z.mulk(l[4].a, j), f.z.mulk(l[5].a, ch))
					}
					e = f.add(f.mul(l[2], ch), l[6])
					k := f.z.mulk(e.b, f.inv(l[3].b))
					r2 := f.add(f.add(f.mul(l[5], ch), l[7]), f.neg(f.mul(l[4], j)))
					if T, S, ok := m.honestDisj([]vec{l[2], l[3], {0, 1}, f.add(l[5], vec{znN - 1, 0})}); ok {
						m.judge("point chosen last", kABC, l[2:4], []vec{l[4], l[5], l[6], l[7], {0, 0}, T[0], T[1]}, append([]uint64{ch, j, k, r2.b}, S...)...)
					}
				}
			}
		}
		return !c.Stop()
	})
}

func u(k uint64) uint64 { return k % znN }

// scalars with a special look, for each place in turn and for two at once
func (m *c24) special(what string, kind int, v, P []vec, S []uint64) {
	sp := []uint64{0, 1, m.f.q - 1, S[0]}
	for i := range S {
		for _, x := range sp {
			T := append([]uint64{}, S...)
			T[i] = x
			m.judge(what, kind, v, P, T...)
			for j := 0; j < i; j++ {
				for _, y := range sp[:2] {
					T[j] = y
					m.judge(what, kind, v, P, T...)
					T[j] = S[j]
				}
			}
		}
	}
}

// c24All: every proof over pairs modulo 3, for every false statement.
func c24All(kind int) func(*Ctx) {
	return func(c *Ctx) {
		m := newC24of(c, 3)
		all := vecs([]int64{0, 1, 2}, []int64{0, 1, 2})
		scal := func(n int, f func(s []uint64)) {
			t := 1
			for i := 0; i < n; i++ {
				t *= 3
			}
			s := make([]uint64, n)
			for k := 0; k < t; k++ {
				for i, x := 0, k; i < n; i, x = i+1, x/3 {
					s[i] = uint64(x % 3)
				}
				f(s)
			}
		}
		switch kind {
		case kGSPFS:
			forVecs(all, 2, func(v []vec) bool {
				if t, _ := m.truth(kind, v[1:], v, 0); t || !c.Case("all gspfs proofs for %v", v) {
					return !c.Stop()
				}
				for _, R := range all {
					scal(2, func(s []uint64) { m.judge("all proofs", kind, v[1:], []vec{v[0], R}, s...) })
				}
				return !c.Stop()
			})
		case kEquiv, kCons:
			n := 4
			if kind == kCons {
				n = 3
			}
			forVecs(all, n, func(v []vec) bool {
				if t, _ := m.truth(kind, v, nil, 0); t {
					return true
				}
				if !c.Thorough && n == 4 && v[0] != (vec{}) && v[0] != (vec{1, 0}) && v[0] != (vec{1, 1}) {
					return true
				}
				if !c.Case("all %s proofs for %v", kindName[kind], v) {
					return !c.Stop()
				}
				forVecs(all, 2, func(T []vec) bool {
					scal(6-n, func(s []uint64) { m.judge("all proofs", kind, v, T, s...) })
					return true
				})
				return !c.Stop()
			})
		case kDisj:
			for _, one := range [][]vec{{{0, 0}, {1, 0}}, {{1, 0}, {0, 1}}, {{0, 1}, {1, 0}}} {
				if !c.Thorough && one[0] == (vec{0, 1}) {
					continue
				}
				forVecs(all, 2, func(two []vec) bool {
					v := append(append([]vec{}, one...), two...)
					if t, _ := m.truth(kind, v, nil, 0); t || !c.Case("all disjunctive proofs for %v", v) {
						return !c.Stop()
					}
					forVecs(all, 2, func(T []vec) bool {
						scal(5, func(s []uint64) { m.judge("all proofs", kind, v, T, s...) })
						return !c.Tick()
					})
					return !c.Stop()
				})
			}
		case kABC:
			for _, CM := range vecs([]int64{0, 1, 2}, []int64{1, 2}) {
				for _, tok := range []vec{{0, 1}, {0, 2}} {
					forVecs(all, 2, func(bc []vec) bool {
						v := []vec{CM, tok}
						ta, _ := m.truth(kABC, v, bc, 0)
						ti, _ := m.truth(kIneq, v, bc, 0)
						if ta && ti {
							return true
						}
						if !c.Case("all abc proofs for %v %v B, C = %v", CM, tok, bc) {
							return !c.Stop()
						}
						dv := []vec{CM, tok, {0, 1}, m.f.add(bc[1], vec{2, 0})}
						dT, dS, ok := m.honestDisj(dv)
						if !ok {
							dT, dS = []vec{{0, 0}, {0, 0}}, []uint64{m.chal(append(append([]vec{}, dv...), vec{}, vec{})...), 0, 0, 0, 0}
						}
						Ts := all
						if !c.Thorough {
							Ts = vecs([]int64{0, 1}, []int64{0, 2})
						}
						forVecs(Ts, 2, func(T []vec) bool {
							P := []vec{bc[0], bc[1], T[0], T[1], {0, 0}, dT[0], dT[1]}
							scal(4, func(s []uint64) {
								S := append(append([]uint64{}, s...), dS...)
								if !ta {
									m.judge("all proofs", kABC, v, P, S...)
								}
								if !ti {
									m.judge("all proofs", kIneq, v, P, S...)
								}
							})
							return !c.Tick()
						})
						// right equations around any embedded proof
						T := []vec{{1, 0}, {0, 1}}
						ch := m.chal(vec{1, 0}, vec{0, 1}, CM, tok, bc[0], bc[1], T[0], T[1])
						e := m.f.add(m.f.mul(CM, ch), T[0])
						l := m.f.add(m.f.add(m.f.mul(bc[1], ch), T[1]), m.f.neg(m.f.mul(bc[0], e.a))).b
						k := m.f.z.mulk(e.b, m.f.inv(tok.b))
						es := []vec{{0, 0}, {1, 0}, {0, 1}}
						if !c.Thorough {
							es = es[:2]
						}
						forVecs(es, 2, func(d []vec) bool {
							P := []vec{bc[0], bc[1], T[0], T[1], {0, 0}, d[0], d[1]}
							scal(5, func(s []uint64) {
								S := append([]uint64{ch, e.a, k, l}, s...)
								if !ta {
									m.judge("all embedded proofs", kABC, v, P, S...)
								}
								if !ti {
									m.judge("all embedded proofs", kIneq, v, P, S...)
								}
							})
							return !c.Tick()
						})
						return !c.Stop()
					})
				}
			}
		}
	}
}

// c24Range: provers that commit to digits other than 0 and 1, and entries of honest proofs put
// together anew.
func c24Range(c *Ctx) {
	m := newC24(c)
	top := 4
	if c.Thorough {
		top = 5
	}
	alpha := []int{0, 1, -1, 2, 3}
	logs := func(f Fields) (l []vec) {
		for _, p := range f.P {
			x, _ := m.f.log(p)
			l = append(l, x)
		}
		return
	}
	show := func(what string, f Fields, comm vec) {
		p, err := build(kRange, f)
		if err != nil {
			c.Fail("%s: the contents do not decode: %v", what, err)
			return
		}
		m.verdict(what, p, []vec{comm}, logs(f))
	}
	// the proof with other commitments made from its parts, as commitment, aggregate or both
	others := func(f Fields, agg vec) {
		neg := m.f.neg
		l := []vec{neg(agg), {agg.a, sub64(m.f, 0, agg.b)}, {sub64(m.f, 0, agg.a), agg.b}, m.f.add(agg, agg), {}, {agg.a, 0}, {0, agg.b}, {agg.b, agg.a}}
		for _, p := range f.P[1:] {
			e, _ := m.f.log(p)
			l = append(l, e, neg(e), m.f.add(agg, e), m.f.add(agg, neg(e)), m.f.add(agg, neg(m.f.add(e, e))))
		}
		for _, comm := range l {
			show("another commitment", f, comm)
			g := f.clone()
			g.P[0] = m.f.pt(comm)
			show("another commitment", g, comm)
			show("another commitment", g, agg)
		}
	}
	for n := 1; n <= top; n++ {
		d := make([]int, n)
		pos := make([]int, n)
		for i := range pos {
			pos[i] = i
		}
		for {
			if c.Case("digits %v", d) {
				f, _, _ := refRange(m.g, m.cp, d, pos, newStream(fmt.Sprint("c24", d)))
				agg, _ := m.f.log(f.P[0])
				show("chosen digits", f, agg)
				// a commitment to another value with the same randomness
				for _, x := range []int64{1, -1, 1 << uint(n), -1 << uint(n)} {
					show("chosen digits", f, m.f.add(agg, vec{small(x), 0}))
					g := f.clone()
					g.P[0] = m.f.pt(m.f.add(agg, vec{small(x), 0}))
					show("chosen digits", g, m.f.add(agg, vec{small(x), 0}))
				}
				others(f, agg)
				// every entry moved by a multiple of G, the sums with it
				for i := 1; i < len(f.P); i++ {
					for _, x := range []int64{1, -1, 2, -2, 1 << uint(n)} {
						g := f.clone()
						e, _ := m.f.log(f.P[i])
						g.P[i] = m.f.pt(m.f.add(e, vec{small(x), 0}))
						g.P[0] = m.f.pt(m.f.add(agg, vec{small(x), 0}))
						show("moved entry", g, m.f.add(agg, vec{small(x), 0}))
						show("moved entry", g, agg)
					}
				}
				// entries exchanged
				for i := 1; i < len(f.P); i++ {
					for j := 1; j < i; j++ {
						g := f.clone()
						g.P[i], g.P[j], g.S[i], g.S[j] = g.P[j], g.P[i], g.S[j], g.S[i]
						show("exchanged entries", g, agg)
					}
				}
			}
			if c.Stop() {
				return
			}
			i := 0
			for ; i < n; i++ {
				k := 0
				for ; alpha[k] != d[i]; k++ {
				}
				if k+1 < len(alpha) {
					d[i] = alpha[k+1]
					break
				}
				d[i] = 0
			}
			if i == n {
				break
			}
		}
	}
	// honest proofs of 40 entries, taken apart and put together
	vals := []int64{0, 1, 2, 1<<40 - 1, 1 << 39, 5}
	for _, a := range vals {
		for _, b := range vals {
			if !c.Case("range proofs of %d and %d put together", a, b) {
				continue
			}
			var fs [2]Fields
			for i, v := range []int64{a, b} {
				var p *zk.RangeProof
				var err error
				withRand(&lockedReader{r: newStream(fmt.Sprint("c24r", i, v))}, func() { p, _, err = zk.NewRangeProof(m.cp, big.NewInt(v)) })
				if err != nil {
					c.Fail("NewRangeProof(%d): %v", v, err)
					return
				}
				fs[i] = fieldsOf(Proof{kind: kRange, r: p})
			}
			agg, _ := m.f.log(fs[0].P[0])
			show("honest", fs[0], agg)
			others(fs[0], agg)
			mix := func(what string, g Fields) {
				sum := vec{}
				for _, p := range g.P[1:] {
					x, _ := m.f.log(p)
					sum = m.f.add(sum, x)
				}
				g.P[0] = m.f.pt(sum)
				show(what, g, sum)
				show(what, g, agg)
			}
			for k := 1; k < len(fs[0].P); k++ {
				g := fs[0].clone()
				g.P[k], g.S[k] = fs[1].P[k], fs[1].S[k]
				mix("entry of another proof", g)
				g = fs[0].clone()
				g.P = append(g.P[:k:k], fs[1].P[k:]...)
				g.S = append(g.S[:k:k], fs[1].S[k:]...)
				mix("tail of another proof", g)
				g = fs[0].clone()
				g.P, g.S = append(g.P, fs[1].P[1:k]...), append(g.S, fs[1].S[1:k]...)
				mix("entries of another proof behind", g)
				g = fs[0].clone()
				g.P, g.S = g.P[:k], g.S[:k]
				mix("head only", g)
			}
			if c.Stop() {
				return
			}
		}
	}
}

// Known reports a violation that known-findings.txt lists for this property; if it does not, it is
// a violation like any other.
func (c *Ctx) Known(id, format string, args ...interface{}) {
	if knownFindings()[c.prop+" "+id] {
		c.res.Known[id]++
		return
	}
	c.Fail(format, args...)
}

var knownSet map[string]bool

// knownFindings reads lines "finding: property=<id> id=<id> ...".
func knownFindings() map[string]bool {
	if knownSet == nil {
		knownSet = map[string]bool{}
		if f, err := os.Open(filepath.Join(os.Getenv("ZK_VERIF"), "known-findings.txt")); err == nil {
			defer f.Close()
			sc := bufio.NewScanner(f)
			for sc.Scan() {
				w := strings.Fields(sc.Text())
				if len(w) > 3 && w[0] == "finding:" && strings.HasPrefix(w[1], "property=") && strings.HasPrefix(w[2], "id=") {
					knownSet[w[1][9:]+" "+w[2][3:]] = true
					knownText[w[1][9:]+" "+w[2][3:]] = strings.Join(w[3:], " ")
				}
			}
		}
	}
	return knownSet
}

var knownText = map[string]string{}

func init() {
	ck := &Check{ID: "C24", Level: "model_checking",
		Rule: "state = statement and proof in the group of pairs modulo a prime of 2^61, where every point is a*G + b*H for one a and b; whenever the real verifier accepts, the statement is true of those coefficients",
		Assumptions: []string{
			"adversaries are algebraic: commitments and statements are combinations of G and H from a small alphabet (or solved for), challenges are the real hashes",
			"for abc and inequality proofs the token is randomness * key * H with neither of them zero (with randomness zero the token says nothing, see DESIGN.md)",
			"a hash that fits a false statement by accident has a probability of 2^-61 per attempt",
		}}
	add := func(name, bound string, run func(*Ctx)) {
		ck.Units = append(ck.Units, Unit{Name: name, Bound: bound, Run: run})
	}
	add("gspfs", "all bases, points and commitments with coefficients in {-1,0,1,2,3}; responses solving either coordinate, challenges right, 0 and 1", c24GSPFS)
	add("equivalence", "all statements and commitments over six points, responses solving any coordinate of either equation", c24Equiv)
	add("disjunctive", "all false statements and commitments over six points, five splits of the challenge and three that do not add up, responses solving any coordinate", c24Disj)
	add("consistency", "all statements and commitments over eight points", c24Cons)
	add("abc and inequality", "values 0,1,2,-1, two randomnesses, two keys, all B, C, T1, T2 from small alphabets, embedded proofs honest or chosen", c24ABC)
	add("what the provers return", "all calls of all provers over small alphabets of points and witnesses; each proof tried for all statements with one point replaced or two exchanged, as abc and inequality proof, and read as every other type", c24Provers)
	add("statement chosen last", "challenges computed without one of the hashed points, which is then solved for", c24Late)
	for _, k := range []int{kGSPFS, kEquiv, kDisj, kCons, kABC} {
		add("all "+kindName[k]+" proofs", "pairs modulo 3: every proof (abc: with two embedded proofs per point pair, and right equations around all embedded scalars) for every false statement; accepted only if valid by the specification", c24All(k))
	}
	add("range", "all digit vectors over {-1,0,1,2,3} of length up to 4 (thorough: 5), entries moved and exchanged; entries of two honest proofs of 36 pairs of values put together", c24Range)
	register(ck)
}
