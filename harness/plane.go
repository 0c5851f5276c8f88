package zkmc

import (
	"crypto/sha256"
	"fmt"
	"math/big"

	zk "github.com/mit-dci/zksigma"
)

// Plane is every coordinate pair over the field of a toy curve, on the curve or not. Chord and
// tangent formulas do not use the curve's b, so they give some result for any pair; a verifier
// that applies them to points off the curve checks equations that mean nothing. Indices are
// x*p+y; the tables hold what those formulas give, in the order the verifiers apply them.
type Plane struct {
	t   *Toy
	n   int // number of pairs
	pts []EC
	in  []bool
	enc [][]byte
	sum [][]int
	scm [][]int // [point][scalar]
	neg []int
	log []int // dlog -> index
}

func newPlane(t *Toy) *Plane {
	p := int(t.p)
	q := &Plane{t: t, n: p * p}
	at := func(x, y int64) int { return int(x)*p + int(y) }
	q.in = make([]bool, q.n)
	for x := 0; x < p; x++ {
		for y := 0; y < p; y++ {
			P := EC{X: big.NewInt(int64(x)), Y: big.NewInt(int64(y))}
			q.pts = append(q.pts, P)
			q.enc = append(q.enc, append(P.X.Bytes(), P.Y.Bytes()...))
			q.neg = append(q.neg, x*p+(p-y)%p)
			q.in[x*p+y] = t.Log(P) >= 0
		}
	}
	for i := 0; i < t.N; i++ {
		q.log = append(q.log, at(t.xs[i], t.ys[i]))
	}
	for i := 0; i < q.n; i++ {
		s := make([]int, q.n)
		for j := 0; j < q.n; j++ {
			s[j] = at(t.addAffine(int64(i/p), int64(i%p), int64(j/p), int64(j%p)))
		}
		q.sum = append(q.sum, s)
	}
	for i := 0; i < q.n; i++ {
		m := make([]int, t.N)
		for k := range m {
			r, a := 0, i
			for s := k; s > 0; s >>= 1 {
				if s&1 == 1 {
					r = q.sum[r][a]
				}
				a = q.sum[a][a]
			}
			m[k] = r
		}
		q.scm = append(q.scm, m)
	}
	return q
}

func (q *Plane) hash(ix ...int) []byte {
	h := sha256.New()
	for _, i := range ix {
		h.Write(q.enc[i])
	}
	return h.Sum(nil)
}

func (q *Plane) chal(ix ...int) int { return q.t.modN(q.hash(ix...)) }

func (q *Plane) allIn(ix ...int) bool {
	for _, i := range ix {
		if !q.in[i] {
			return false
		}
	}
	return true
}

// tuples enumerates k-tuples of coordinate pairs of which at least one and at most maxOff are off the curve.
func (q *Plane) tuples(k, maxOff int, f func([]int) bool) {
	x := make([]int, k)
	var off []int
	for i := 0; i < q.n; i++ {
		if !q.in[i] {
			off = append(off, i)
		}
	}
	var rec func(i, nOff int) bool
	rec = func(i, nOff int) bool {
		if i == k {
			return nOff == 0 || f(x)
		}
		for _, p := range q.log {
			x[i] = p
			if !rec(i+1, nOff) {
				return false
			}
		}
		if nOff < maxOff {
			for _, p := range off {
				x[i] = p
				if !rec(i+1, nOff+1) {
					return false
				}
			}
		}
		return true
	}
	rec(0, 0)
}

// strictToy is a toy curve that panics on points off the curve, as crypto/elliptic's curves do.
type strictToy struct{ *Toy }

func (t strictToy) need(x, y *big.Int) {
	if t.Log(EC{X: x, Y: y}) < 0 {
		panic("attempted operation on invalid point")
	}
}
func (t strictToy) Add(x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
	t.need(x1, y1)
	t.need(x2, y2)
	return t.Toy.Add(x1, y1, x2, y2)
}
func (t strictToy) Double(x, y *big.Int) (*big.Int, *big.Int) {
	t.need(x, y)
	return t.Toy.Double(x, y)
}
func (t strictToy) ScalarMult(x, y *big.Int, k []byte) (*big.Int, *big.Int) {
	t.need(x, y)
	return t.Toy.ScalarMult(x, y, k)
}

// planeRun is one enumeration over a plane.
type planeRun struct {
	c      *Ctx
	q      *Plane
	h      int
	cp     CP
	strict bool
	any    int64
	loose  int64
}

func newPlaneRun(c *Ctx, n, h, np int, strict bool) *planeRun {
	t := GetToy(n)
	r := &planeRun{c: c, q: newPlane(t), h: h, cp: t.CP(h, np), strict: strict}
	if strict {
		r.cp.C = strictToy{t}
	}
	return r
}

// reject: a proof or statement with a point off the curve is refused.
func (r *planeRun) reject(p Proof, v []EC, loose bool, what func() string) {
	verdict(r.c, p, r.cp, v, false, what)
	r.any++
	if loose {
		r.loose++
	}
}

func (r *planeRun) done() bool {
	r.c.Add(r.any, r.any, r.any)
	r.c.OutcomeN("off the curve, wrong by the formulas too", r.any-r.loose)
	r.c.OutcomeN("off the curve, right by the formulas", r.loose)
	r.any, r.loose = 0, 0
	r.c.Alive()
	return !r.c.Stop()
}

// planeCases splits an enumeration into cases by the first point.
func planeCases(c *Ctx, name string, n int, strict bool, h0 bool, np int, f func(r *planeRun, first int) bool) {
	t := GetToy(n)
	hs := []int{2 % t.N}
	if h0 {
		hs = nil
		for h := 1; h < t.N; h++ {
			hs = append(hs, h)
		}
	}
	for _, h := range hs {
		r := newPlaneRun(c, n, h, np, strict)
		for first := 0; first < r.q.n; first++ {
			if !c.Case("%s N=%d H=%d, points off the curve, strict=%v, first point %s", name, t.N, h, strict, ecs(r.q.pts[first])) {
				continue
			}
			if !f(r, first) || !r.done() {
				return
			}
		}
	}
}

func planeGSPFS(c *Ctx, n int, strict bool) {
	planeCases(c, "gspfs", n, strict, false, 0, func(r *planeRun, base int) bool {
		q := r.q
		for A := 0; A < q.n; A++ {
			for R := 0; R < q.n; R++ {
				if q.allIn(base, A, R) {
					continue
				}
				ch := q.chal(base, A, R)
				for s := 0; s < q.t.N; s++ {
					ok := q.sum[q.scm[base][s]][q.scm[A][ch]] == R
					r.reject(Proof{kind: kGSPFS, g: &zk.GSPFSProof{Base: q.pts[base], RandCommit: q.pts[R], HiddenValue: bi(s), Challenge: bi(ch)}},
						[]EC{q.pts[A]}, ok, func() string {
							return fmt.Sprintf("gspfs base %s A %s R %s s %d c %d", ecs(q.pts[base]), ecs(q.pts[A]), ecs(q.pts[R]), s, ch)
						})
				}
				if c.Tick() {
					return false
				}
			}
		}
		return true
	})
}

// firstTuples gives the tuples that start with a point.
func (r *planeRun) firstTuples(first, k, maxOff int, f func([]int) bool) bool {
	q := r.q
	go1 := true
	base := 0
	if !q.in[first] {
		base = 1
	}
	if base > maxOff {
		return true
	}
	x := make([]int, k)
	x[0] = first
	run := func(y []int) bool {
		copy(x[1:], y)
		go1 = f(x)
		return go1
	}
	if base == 1 { // the rest may be on the curve
		tuple(len(q.log), k-1, func(z []int) bool {
			y := make([]int, k-1)
			for i := range z {
				y[i] = q.log[z[i]]
			}
			return run(y)
		})
	}
	if go1 && maxOff > base {
		q.tuples(k-1, maxOff-base, run)
	}
	return go1
}

func planeEquiv(c *Ctx, n int, strict bool) {
	planeCases(c, "equivalence", n, strict, false, 0, func(r *planeRun, first int) bool {
		q := r.q
		return r.firstTuples(first, 6, 2, func(x []int) bool {
			b1, r1, b2, r2, u1, u2 := x[0], x[1], x[2], x[3], x[4], x[5]
			ch := q.chal(x...)
			v := []EC{q.pts[b1], q.pts[r1], q.pts[b2], q.pts[r2]}
			for s := 0; s < q.t.N; s++ {
				ok := q.scm[b1][s] == q.sum[u1][q.scm[r1][ch]] && q.scm[b2][s] == q.sum[u2][q.scm[r2][ch]]
				r.reject(Proof{kind: kEquiv, e: &zk.EquivalenceProof{UG: q.pts[u1], UH: q.pts[u2], Challenge: bi(ch), HiddenValue: bi(s)}}, v, ok,
					func() string { return fmt.Sprintf("equivalence points %v s %d c %d", x, s, ch) })
			}
			return !c.Tick() && !c.Failed()
		})
	})
}

func planeCons(c *Ctx, n int, strict bool) {
	planeCases(c, "consistency", n, strict, true, 0, func(r *planeRun, first int) bool {
		q := r.q
		G, H := q.log[1], q.log[r.h]
		return r.firstTuples(first, 5, 2, func(x []int) bool {
			cm, tok, pk, t1, t2 := x[0], x[1], x[2], x[3], x[4]
			ch := q.chal(G, H, cm, tok, pk, t1, t2)
			v := []EC{q.pts[cm], q.pts[tok], q.pts[pk]}
			for s1 := 0; s1 < q.t.N; s1++ {
				for s2 := 0; s2 < q.t.N; s2++ {
					ok := q.sum[q.scm[G][s1]][q.scm[H][s2]] == q.sum[t1][q.scm[cm][ch]] && q.scm[pk][s2] == q.sum[t2][q.scm[tok][ch]]
					r.reject(Proof{kind: kCons, c: &zk.ConsistencyProof{T1: q.pts[t1], T2: q.pts[t2], Challenge: bi(ch), S1: bi(s1), S2: bi(s2)}}, v, ok,
						func() string { return fmt.Sprintf("consistency points %v s1 %d s2 %d c %d", x, s1, s2, ch) })
				}
			}
			return !c.Tick() && !c.Failed()
		})
	})
}

func planeDisj(c *Ctx, n int, strict bool) {
	planeCases(c, "disjunctive", n, strict, false, 0, func(r *planeRun, first int) bool {
		q, N := r.q, r.q.t.N
		return r.firstTuples(first, 6, 2, func(x []int) bool {
			b1, r1, b2, r2, t1, t2 := x[0], x[1], x[2], x[3], x[4], x[5]
			ch := q.chal(x...)
			v := []EC{q.pts[b1], q.pts[r1], q.pts[b2], q.pts[r2]}
			for c1 := 0; c1 < N; c1++ {
				c2 := md(ch-c1, N)
				for s1 := 0; s1 < N; s1++ {
					e1 := q.scm[b1][s1] == q.sum[t1][q.scm[r1][c1]]
					for s2 := 0; s2 < N; s2++ {
						ok := e1 && q.scm[b2][s2] == q.sum[q.scm[r2][c2]][t2]
						if !ok && (s1 != 0 || s2 != 0) {
							continue
						}
						r.reject(Proof{kind: kDisj, d: &zk.DisjunctiveProof{T1: q.pts[t1], T2: q.pts[t2], C: bi(ch), C1: bi(c1), C2: bi(c2), S1: bi(s1), S2: bi(s2)}}, v, ok,
							func() string {
								return fmt.Sprintf("disjunctive points %v c %d c1 %d c2 %d s1 %d s2 %d", x, ch, c1, c2, s1, s2)
							})
					}
				}
			}
			return !c.Tick() && !c.Failed()
		})
	})
}

// looseDisj finds an embedded proof that is right by the formulas.
func (q *Plane) looseDisj(b1, r1, b2, r2 int, offT bool) (d [7]int, ok bool) {
	N := q.t.N
	for t1 := 0; t1 < q.n; t1++ {
		for t2 := 0; t2 < q.n; t2++ {
			if q.allIn(t1, t2) == offT {
				continue
			}
			ch := q.chal(b1, r1, b2, r2, t1, t2)
			for c1 := 0; c1 < N; c1++ {
				c2 := md(ch-c1, N)
				for s1 := 0; s1 < N; s1++ {
					if q.scm[b1][s1] != q.sum[t1][q.scm[r1][c1]] {
						continue
					}
					for s2 := 0; s2 < N; s2++ {
						if q.scm[b2][s2] == q.sum[q.scm[r2][c2]][t2] {
							return [7]int{t1, t2, ch, c1, c2, s1, s2}, true
						}
					}
				}
			}
		}
	}
	return
}

func planeABC(c *Ctx, n int, strict bool) {
	type st struct {
		cm, tok, c int
		off        bool
	}
	memo := map[int]map[st]*[7]int{}
	planeCases(c, "abc", n, strict, true, 0, func(r *planeRun, first int) bool {
		q, N := r.q, r.q.t.N
		G, H := q.log[1], q.log[r.h]
		if memo[r.h] == nil {
			memo[r.h] = map[st]*[7]int{}
		}
		emb := func(k st) *[7]int {
			m := memo[r.h]
			if d, ok := m[k]; ok {
				return d
			}
			var res *[7]int
			if d, ok := q.looseDisj(k.cm, k.tok, H, q.sum[k.c][q.neg[G]], k.off); ok {
				res = &d
			}
			m[k] = res
			return res
		}
		try := func(x []int, offEmb bool) {
			cm, tok, B, C, t1, t2 := x[0], x[1], x[2], x[3], x[4], x[5]
			ch := q.chal(G, H, cm, tok, B, C, t1, t2)
			l1, l2 := q.sum[q.scm[cm][ch]][t1], q.sum[q.scm[C][ch]][t2]
			done := 0
			for j := 0; j < N; j++ {
				jG, jB := q.scm[G][j], q.scm[B][j]
				for k := 0; k < N; k++ {
					if l1 != q.sum[jG][q.scm[tok][k]] {
						continue
					}
					for l := 0; l < N && done < 2; l++ {
						if l2 != q.sum[jB][q.scm[H][l]] {
							continue
						}
						d := emb(st{cm, tok, C, offEmb})
						if d == nil {
							return
						}
						done++
						f := Fields{[]EC{q.pts[B], q.pts[C], q.pts[t1], q.pts[t2], q.pts[G], q.pts[d[0]], q.pts[d[1]]},
							[]BI{bi(ch), bi(j), bi(k), bi(l), bi(d[2]), bi(d[3]), bi(d[4]), bi(d[5]), bi(d[6])}}
						p, err := build(kABC, f)
						if err != nil {
							c.Outcome("not decodable") // a decoder cannot know the curve
							return
						}
						v := []EC{q.pts[cm], q.pts[tok]}
						what := func() string { return fmt.Sprintf("abc points %v embedded %v c %d j %d k %d l %d", x, d, ch, j, k, l) }
						r.reject(p, v, true, what)
						r.reject(Proof{kind: kIneq, i: (*zk.InequalityProof)(p.a)}, v, true, what)
					}
				}
			}
		}
		if q.in[first] {
			// a right outer part around an embedded proof with points off the curve
			tuple(len(q.log), 5, func(y []int) bool {
				try([]int{first, q.log[y[0]], q.log[y[1]], q.log[y[2]], q.log[y[3]], q.log[y[4]]}, true)
				return !c.Tick() && !c.Failed()
			})
		}
		return r.firstTuples(first, 6, 2, func(x []int) bool {
			try(x, false)
			return !c.Tick() && !c.Failed()
		})
	})
}

func planeRange(c *Ctx, n, k int, strict bool) {
	planeCases(c, fmt.Sprintf("range, %d entries", k), n, strict, true, k, func(r *planeRun, first int) bool {
		q, N := r.q, r.q.t.N
		H := q.log[r.h]
		pw := make([]int, k)
		for i, m := 0, 1; i < k; i++ {
			pw[i] = q.neg[q.log[m]]
			m = m * 2 % N
		}
		base := Fields{P: make([]EC, k+1), S: make([]BI, k+1)}
		for i := range base.P {
			base.P[i], base.S[i] = q.pts[0], bi(0)
		}
		p, err := build(kRange, base)
		if err != nil {
			c.Fail("decoder: %v", err)
			return false
		}
		x := make([]int, k)
		x[0] = first
		tuple(q.n, k-1, func(y []int) bool {
			copy(x[1:], y)
			if q.allIn(x...) {
				return true
			}
			tot := 0
			for i := 0; i < k; i++ {
				if tot == 0 && q.in[x[i]] {
					tot = x[i]
				} else {
					tot = q.sum[tot][x[i]]
				}
				p.r.ProofTuples[i].C = q.pts[x[i]]
			}
			rs := make([]int, k)
			tuple(N, k+1, func(s []int) bool {
				e := s[k]
				for i := 0; i < k; i++ {
					t := q.sum[q.scm[H][s[i]]][q.neg[q.scm[q.sum[x[i]][pw[i]]][e]]]
					rs[i] = q.scm[x[i]][q.chal(t)]
				}
				ok := q.chal(rs...) == e
				if !ok && s[0]+s[k-1] > 0 {
					return true
				}
				for i := 0; i < k; i++ {
					p.r.ProofTuples[i].S = bi(s[i])
				}
				p.r.ProofE = bi(e)
				p.r.ProofAggregate = q.pts[tot]
				r.reject(p, []EC{q.pts[tot]}, ok, func() string {
					return fmt.Sprintf("range entries %v scalars %v challenge %d, commitment %s", x, s[:k], e, ecs(q.pts[tot]))
				})
				return !c.Failed()
			})
			return !c.Tick() && !c.Failed()
		})
		return true
	})
}
