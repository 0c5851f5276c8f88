package zkmc

import (
	"fmt"
	"math/big"

	zk "github.com/mit-dci/zksigma"
)

// honest runs one honest proof and checks that it is produced and accepted.
func honest(c *Ctx, s Stmt, g Group) {
	c.Guard("prove/verify", func() {
		p, _, err := prove(s)
		if err != nil || p.isNil() {
			c.Fail("prover refused a true statement: %v (%s)", err, s)
			return
		}
		ok, err := verify(p, s.cp, s.vpts(func(a, b EC) EC { return g.Add(a, g.Neg(b)) }))
		if !ok || err != nil {
			c.Fail("verifier rejected an honest proof: ok=%v err=%v (%s) proof %s", ok, err, s, fieldsOf(p))
			return
		}
		c.Outcome("accepted")
	})
}

// witReps are integers congruent to x modulo n.
func witReps(x, n int) []BI {
	return []BI{bi(x), big.NewInt(int64(x - n)), big.NewInt(int64(x + n)), big.NewInt(int64(x) - 3*int64(n))}
}

func c01Toy(c *Ctx, kind, n int, full bool) {
	t := GetToy(n)
	n = t.N
	g := toyGroup{t}
	run := func(s Stmt, draws []int) {
		// all sequences of draws over the given values
		runs := forDrawsOver(draws, 12, func() {
			if !c.Failed() {
				honest(c, s, g)
			}
		}, func() bool { return c.Failed() || c.Tick() })
		c.Add(runs, 2*runs, runs)
	}
	all := seq(n)
	switch kind {
	case kGSPFS:
		cp := t.CP(2%n, 0)
		for b := 0; b < n; b++ {
			for x := 0; x < n; x++ {
				if !c.Case("gspfs N=%d base=%d x=%d, all draws", n, b, x) {
					continue
				}
				for _, w := range witReps(x, n) {
					for side := zk.Side(0); side < 2; side++ { // 0: NewGSPFSProof where the base is G
						run(Stmt{kGSPFS, cp, []EC{t.Pts[b], t.Pts[b*x%n]}, []BI{w}, side}, all)
					}
				}
			}
		}
	case kEquiv:
		cp := t.CP(3%n, 0)
		for b1 := 0; b1 < n; b1++ {
			for b2 := 0; b2 < n; b2++ {
				for x := 0; x < n; x++ {
					if !c.Case("equivalence N=%d bases=%d,%d x=%d, all draws", n, b1, b2, x) {
						continue
					}
					for _, w := range witReps(x, n) {
						run(Stmt{kEquiv, cp, []EC{t.Pts[b1], t.Pts[b1*x%n], t.Pts[b2], t.Pts[b2*x%n]}, []BI{w}, 0}, all)
					}
				}
			}
		}
	case kDisj:
		cp := t.CP(2%n, 0)
		for b1 := 0; b1 < n; b1++ {
			for b2 := 0; b2 < n; b2++ {
				for x := 0; x < n; x++ {
					for o := 0; o < n; o++ {
						if !c.Case("disjunctive N=%d bases=%d,%d x=%d other=%d, both sides, all draws", n, b1, b2, x, o) {
							continue
						}
						reps := witReps(x, n)
						if !full {
							reps = reps[:1+(x+o)%4]
							reps = reps[len(reps)-1:]
						}
						for _, w := range reps {
							run(Stmt{kDisj, cp, []EC{t.Pts[b1], t.Pts[b1*x%n], t.Pts[b2], t.Pts[o]}, []BI{w}, zk.Left}, all)
							run(Stmt{kDisj, cp, []EC{t.Pts[b1], t.Pts[o], t.Pts[b2], t.Pts[b2*x%n]}, []BI{w}, zk.Right}, all)
						}
					}
				}
			}
		}
	case kCons:
		for h := 1; h < n; h++ {
			cp := t.CP(h, 0)
			for pk := 0; pk < n; pk++ {
				for v := 0; v < n; v++ {
					for r := 0; r < n; r++ {
						if !c.Case("consistency N=%d H=%d PK=%d v=%d r=%d, all draws", n, h, pk, v, r) {
							continue
						}
						for i, wv := range witReps(v, n) {
							wr := witReps(r, n)[(i+v+r)%4]
							run(Stmt{kCons, cp, []EC{t.Pts[(v+r*h)%n], t.Pts[r*pk%n], t.Pts[pk]}, []BI{wv, wr}, 0}, all)
						}
					}
				}
			}
		}
	case kABC, kIneq:
		draws := all
		if n > 3 {
			draws = []int{0, 1, n - 1}
			if n > 7 {
				draws = []int{1, n - 2}
			}
		}
		for h := 1; h < n; h++ {
			if n > 7 && h > 3 {
				break
			}
			cp := t.CP(h, 0)
			for sk := 1; sk < n; sk++ {
				for v := 0; v < n; v++ {
					for r := 0; r < n; r++ {
						if !c.Case("%s N=%d H=%d sk=%d v=%d r=%d, draws from %v", kindName[kind], n, h, sk, v, r, draws) {
							continue
						}
						i := v + r + sk
						wv, wsk := witReps(v, n)[i%4], witReps(sk, n)[(i/2)%4]
						pk := sk * h % n
						cm, tok := (v+r*h)%n, r*pk%n
						if kind == kABC {
							side := zk.Right
							if v == 0 {
								side = zk.Left
							}
							if n == 5 && !c.Thorough {
								draws = []int{i % n, (i + 2) % n}
							}
							run(Stmt{kABC, cp, []EC{t.Pts[cm], t.Pts[tok]}, []BI{wv, wsk}, side}, draws)
							continue
						}
						if v == 0 {
							continue
						}
						// inequality: all ways to split the difference v = a - b, r = ra - rb along one direction each
						for b := 0; b < n; b++ {
							if n > 5 && b > 2 {
								break
							}
							rb := (b + 1) % n
							a, ra := (v+b)%n, (r+rb)%n
							if n == 5 && !c.Thorough {
								draws = []int{i % n, (i + 2) % n}
							}
							dr := draws
							if b > 0 && n > 3 {
								dr = []int{b % n}
							}
							run(Stmt{kIneq, cp, []EC{t.Pts[(a+ra*h)%n], t.Pts[(b+rb*h)%n], t.Pts[ra*pk%n], t.Pts[rb*pk%n]}, []BI{witReps(a, n)[i%4], witReps(b, n)[(i+b)%4], wsk}, 0}, dr)
						}
					}
				}
			}
		}
	}
}

// c01OtherG: generators other than the curve's base point, every pair of generators.
func c01OtherG(c *Ctx, t *Toy) {
	n := t.N
	g := toyGroup{t}
	for gg := 1; gg < n; gg++ {
		for h := 1; h < n; h++ {
			cp := t.CPG(gg, h, 0)
			for v := 0; v < n; v++ {
				for r := 0; r < n; r++ {
					if !c.Case("N=%d G=%d H=%d v=%d r=%d: all provers", n, gg, h, v, r) {
						continue
					}
					P := t.Pts
					sk := 1 + (v+r)%(n-1)
					pk := sk * h % n
					cm, tok := (v*gg+r*h)%n, r*pk%n
					side := zk.Right
					if v == 0 {
						side = zk.Left
					}
					ss := []Stmt{
						{kGSPFS, cp, []EC{P[gg], P[gg*v%n]}, []BI{bi(v)}, 0},
						{kGSPFS, cp, []EC{P[h], P[h*v%n]}, []BI{bi(v)}, 1},
						{kGSPFS, cp, []EC{P[1], P[v]}, []BI{bi(v)}, 1},
						{kEquiv, cp, []EC{P[gg], P[gg*v%n], P[h], P[h*v%n]}, []BI{bi(v)}, 0},
						{kEquiv, cp, []EC{P[1], P[v], P[gg], P[gg*v%n]}, []BI{bi(v)}, 0},
						{kDisj, cp, []EC{P[gg], P[gg*v%n], P[h], P[h*r%n]}, []BI{bi(v)}, zk.Left},
						{kDisj, cp, []EC{P[gg], P[gg*v%n], P[h], P[h*r%n]}, []BI{bi(r)}, zk.Right},
						{kCons, cp, []EC{P[cm], P[tok], P[pk]}, []BI{bi(v), bi(r)}, 0},
						{kABC, cp, []EC{P[cm], P[tok]}, []BI{bi(v), bi(sk)}, side},
					}
					if v != 0 {
						ss = append(ss, Stmt{kIneq, cp, []EC{P[(cm+3*gg+2*h)%n], P[(3*gg+2*h)%n], P[(tok+2*pk)%n], P[2*pk%n]}, []BI{bi((v + 3) % n), bi(3), bi(sk)}, 0})
					}
					for _, s := range ss {
						for d := 0; d < n; d += 2 {
							withRand(&choiceReader{choices: []int{d, (d + 1) % n, 1, (2*d + 3) % n, d}, rest: int64((d + 1) % n)}, func() { honest(c, s, g) })
							c.Add(1, 2, 1)
						}
					}
					if c.Failed() || c.Stop() {
						return
					}
				}
			}
		}
	}
}

func seq(n int) []int {
	l := make([]int, n)
	for i := range l {
		l[i] = i
	}
	return l
}

// forDrawsOver is forDraws over a list of possible values.
func forDrawsOver(vals []int, depth int, run func(), stop func() bool) int64 {
	return forDraws(len(vals), depth, func(r *choiceReader) {
		for i := range r.choices {
			r.choices[i] = vals[r.choices[i]]
		}
		r.rest = int64(vals[0])
		run()
	}, stop)
}

// realParams are parameters over secp256k1: the library's own, and others with their own H.
func realParams() []CP {
	tc := zk.TestCurve
	h2 := mki(0, 5) // another H
	h3 := mki(3, 1) // H mixed with G
	a := CP{C: tc.C, G: tc.G, H: h2.P, HPoints: tc.HPoints}
	b := CP{C: tc.C, G: tc.G, H: h3.P, HPoints: tc.HPoints}
	// the roles of the two generators swapped
	d := CP{C: tc.C, G: mki(0, 1).P, H: mki(1, 0).P}
	for i := uint(0); i < 64; i++ {
		d.HPoints = append(d.HPoints, mk(new(big.Int), pow2(i)).P)
	}
	return []CP{tc, a, b, d}
}

// gReps: likewise for each G.
var gReps = []rep{gRep(), gRep(), gRep(), {big.NewInt(0), big.NewInt(1)}}

// hRep gives the representation of each H in realParams.
var hReps = []rep{{big.NewInt(0), big.NewInt(1)}, {big.NewInt(0), big.NewInt(5)}, {big.NewInt(3), big.NewInt(1)}, {big.NewInt(1), big.NewInt(0)}}

func pt(r rep) EC { return mk(r.a, r.b).P }

func gRep() rep { return rep{big.NewInt(1), big.NewInt(0)} }

// realStmt makes a true statement of a kind from three scalars on parameters number pi.
func realStmt(kind, pi int, cp CP, x, y, z BI, side zk.Side) Stmt {
	H := hReps[pi]
	G := gReps[pi]
	bases := []rep{G, H, {big.NewInt(7), big.NewInt(11)}}
	switch kind {
	case kGSPFS:
		b := bases[int(mN(y).Uint64()%3)]
		return Stmt{kind, cp, []EC{pt(b), pt(b.mul(x))}, []BI{x}, side}
	case kEquiv:
		b1, b2 := bases[int(mN(y).Uint64()%3)], bases[int(mN(z).Uint64()%3)]
		return Stmt{kind, cp, []EC{pt(b1), pt(b1.mul(x)), pt(b2), pt(b2.mul(x))}, []BI{x}, 0}
	case kDisj:
		b1, b2 := bases[int(mN(z).Uint64()%3)], bases[int(mN(y).Uint64()%3)]
		if side == zk.Left {
			return Stmt{kind, cp, []EC{pt(b1), pt(b1.mul(x)), pt(b2), pt(b2.mul(y))}, []BI{x}, side}
		}
		return Stmt{kind, cp, []EC{pt(b1), pt(b1.mul(y)), pt(b2), pt(b2.mul(x))}, []BI{x}, side}
	case kCons:
		pk := H.mul(z)
		return Stmt{kind, cp, []EC{pt(G.mul(x).add(H.mul(y))), pt(pk.mul(y)), pt(pk)}, []BI{x, y}, 0}
	case kABC:
		if mN(z).Sign() == 0 {
			z = big.NewInt(3)
		}
		pk := H.mul(z)
		s := zk.Right
		if mN(x).Sign() == 0 {
			s = zk.Left
		}
		return Stmt{kind, cp, []EC{pt(G.mul(x).add(H.mul(y))), pt(pk.mul(y))}, []BI{x, z}, s}
	case kIneq:
		if mN(z).Sign() == 0 {
			z = big.NewInt(3)
		}
		pk := H.mul(z)
		b := big.NewInt(9)
		if mN(x).Cmp(b) == 0 {
			b = big.NewInt(10)
		}
		rb := new(big.Int).Add(y, big.NewInt(4))
		return Stmt{kind, cp, []EC{pt(G.mul(x).add(H.mul(y))), pt(G.mul(b).add(H.mul(rb))), pt(pk.mul(y)), pt(pk.mul(rb))}, []BI{x, b, z}, 0}
	}
	return Stmt{kRange, cp, nil, []BI{x}, 0}
}

// drawSets are lists of leading draws for runs on the real curve: constant extremes and plain streams.
func drawSets(full bool) []func(label string) *bigReader {
	cst := func(v BI) func(string) *bigReader {
		return func(l string) *bigReader {
			return &bigReader{vals: []BI{v, v, v, v, v, v, v, v}, tail: newStream(l)}
		}
	}
	l := []func(string) *bigReader{
		func(l string) *bigReader { return &bigReader{tail: newStream(l)} },
		cst(big.NewInt(0)), cst(big.NewInt(1)), cst(new(big.Int).Sub(sN, one)), cst(pow2(128)),
		func(l string) *bigReader {
			return &bigReader{vals: []BI{new(big.Int).Sub(pow2(256), one), sN, big.NewInt(2), big.NewInt(3), big.NewInt(5)}, tail: newStream(l)} // two rejected draws first
		},
	}
	if full {
		for i := 0; i < 8; i++ {
			i := i
			l = append(l, func(l string) *bigReader {
				v := make([]BI, 8)
				v[i] = big.NewInt(0)
				return &bigReader{vals: v, tail: newStream(l)}
			})
		}
	}
	return l
}

func c01Real(c *Ctx, kind int) {
	xs := append(scalarAlphabet(c.Thorough || kind <= kEquiv), outsideScalars()...)
	ys := []BI{big.NewInt(0), big.NewInt(1), big.NewInt(2), new(big.Int).Sub(sN, one), pow2(200), hexInt("123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef2")}
	sets := drawSets(c.Thorough)
	for pi, cp := range realParams() {
		for xi, x := range xs {
			if pi > 0 && xi%4 != pi && !c.Thorough {
				continue
			}
			for yi, y := range ys {
				for side := zk.Left; side <= zk.Right; side++ {
					if side == zk.Right && kind != kDisj && kind != kGSPFS {
						continue
					}
					if !c.Case("%s on secp256k1, params %d, x=%s y=%s side=%d", kindName[kind], pi, x.Text(16), y.Text(16), side) {
						continue
					}
					z := ys[(xi+yi)%len(ys)]
					for si, mkr := range sets {
						if !c.Thorough && si > 0 && (xi+yi)%5 != si-1 {
							continue
						}
						s := realStmt(kind, pi, cp, x, y, z, side)
						withRand(mkr(fmt.Sprintf("c01 %d %d %d %d %d", kind, pi, xi, yi, si)), func() { honest(c, s, secpGroup{}) })
						c.Add(1, 2, 1)
					}
					if c.Stop() {
						return
					}
				}
			}
		}
	}
}

// machineInts are the boundaries of machine integers, both signs.
func machineInts(full bool) []BI {
	l := []BI{new(big.Int)}
	add := func(v BI) { l = append(l, v, new(big.Int).Neg(v)) }
	for _, i := range []uint{0, 31, 32, 53, 62, 63, 64, 127, 128} {
		add(pow2(i))
		if i >= 31 && i != 53 && i != 127 {
			add(new(big.Int).Sub(pow2(i), one))
		}
		if full && i > 0 {
			add(new(big.Int).Add(pow2(i), one))
			add(new(big.Int).Add(pow2(i), pow2(i-1)))
		}
	}
	return l
}

// c01Machine: all pairs of boundaries of machine integers as the two integers of a statement.
func c01Machine(c *Ctx) {
	cp := zk.TestCurve
	H := hReps[0]
	l := machineInts(c.Thorough)
	sk := big.NewInt(1234567)
	pk := H.mul(sk)
	for ai, a := range l {
		for bj, b := range l {
			if !c.Case("integers %s and %s", a, b) {
				continue
			}
			ra, rb := big.NewInt(int64(1000+ai)), big.NewInt(int64(77*bj))
			A, B := pt(gRep().mul(a).add(H.mul(ra))), pt(gRep().mul(b).add(H.mul(rb)))
			ta, tb := pt(pk.mul(ra)), pt(pk.mul(rb))
			var ss []Stmt
			if ai != bj {
				ss = append(ss, Stmt{kIneq, cp, []EC{A, B, ta, tb}, []BI{a, b, sk}, 0})
			}
			ss = append(ss, Stmt{kCons, cp, []EC{pt(gRep().mul(a).add(H.mul(b))), pt(pk.mul(b)), pt(pk)}, []BI{a, b}, 0})
			if b.Sign() != 0 {
				side := zk.Right
				if a.Sign() == 0 {
					side = zk.Left
				}
				ss = append(ss, Stmt{kABC, cp, []EC{A, pt(H.mul(b).mul(ra))}, []BI{a, b}, side})
			}
			for _, s := range ss {
				withRand(newStream(fmt.Sprint("c01m", ai, bj)), func() { honest(c, s, secpGroup{}) })
				c.Add(1, 2, 1)
			}
			if c.Stop() {
				return
			}
		}
	}
}

func init() {
	ck := &Check{ID: "C01", Level: "model_checking",
		Rule:        "state = one (curve, G, H, statement, witness, sequence of random draws); every one is proved and verified by the real code and must be accepted",
		Assumptions: []string{"small prime-order curves reach the library through its elliptic.Curve parameter; results for them speak for the curve-independent code", "secp256k1 runs cover boundary scalars, not all scalars"}}
	toyUnits := []struct {
		kind, n int
		tier    string
	}{
		{kGSPFS, 7, ""}, {kGSPFS, 31, ""}, {kGSPFS, 61, "thorough"},
		{kEquiv, 13, ""}, {kEquiv, 19, "thorough"},
		{kDisj, 3, ""}, {kDisj, 5, ""}, {kDisj, 7, ""},
		{kCons, 5, ""}, {kCons, 7, ""}, {kCons, 11, "thorough"},
		{kABC, 3, ""}, {kABC, 5, ""}, {kABC, 7, "thorough"}, {kABC, 11, ""},
		{kIneq, 3, ""}, {kIneq, 5, ""}, {kIneq, 7, "thorough"},
		{kGSPFS, -13, ""}, {kEquiv, -13, ""}, {kDisj, -5, ""}, {kCons, -5, ""}, {kABC, -5, ""}, {kIneq, -5, ""},
	}
	for _, u := range toyUnits {
		u := u
		ck.Units = append(ck.Units, Unit{Name: fmt.Sprintf("toy-%s-%s", kindName[u.kind], toyName(u.n)), Tier: u.tier,
			Bound: fmt.Sprintf("all statements and witnesses (several representatives of each residue) of the group of %s, all (abc, inequality: boundary) draw sequences", toyDesc(u.n)),
			Run:   func(c *Ctx) { c01Toy(c, u.kind, u.n, c.Thorough) }})
	}
	ck.Units = append(ck.Units, Unit{Name: "toy-generators-7", Bound: "order 7: all pairs of generators G, H, all values and randomness, all kinds of statement", Run: func(c *Ctx) { c01OtherG(c, GetToy(7)) }},
		Unit{Name: "toy-generators-13", Bound: "order 13: the same", Run: func(c *Ctx) { c01OtherG(c, GetToy(13)) }})
	for _, n := range []int{7, 13} {
		n := n
		ck.Units = append(ck.Units, Unit{Name: fmt.Sprintf("toy-generators-x0-%d", n), Bound: "the same on a curve that has points with x = 0", Run: func(c *Ctx) { c01OtherG(c, GetToy(-n)) }})
	}
	for k := kGSPFS; k <= kIneq; k++ {
		k := k
		ck.Units = append(ck.Units, Unit{Name: "secp-" + kindName[k], Bound: "boundary scalars x bases x four parameter sets x draw patterns on secp256k1", Run: func(c *Ctx) { c01Real(c, k) }})
	}
	ck.Units = append(ck.Units, Unit{Name: "machine-integers", Bound: "secp256k1: all pairs of boundaries of 32-, 53-, 63-, 64- and 128-bit integers of both signs as values of inequality, value and randomness of consistency, value and key of abc proofs", Run: c01Machine})
	stdUnits(ck, "std-", "true statements of every kind, boundary scalars, four draw patterns,", stdHonest)
	register(ck)
}
