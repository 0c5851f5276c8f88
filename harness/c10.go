package zkmc

import (
	"bytes"
	"fmt"
	"math/big"

	zk "github.com/mit-dci/zksigma"
)

// roundTrip checks one proof's encoding in both directions.
func roundTrip(c *Ctx, kind int, f Fields, what func() string) {
	want := refEncode(kind, f)
	c.Guard("encoder/decoder", func() {
		// decoding the documented bytes
		q, err := fromBytes(kind, append([]byte(nil), want...))
		if err != nil || q.isNil() {
			c.Fail("the documented encoding is refused: %v (%s)", err, what())
			return
		}
		if g := fieldsOf(q); !g.eq(f) {
			c.Fail("decoding gives %s instead of %s (%s)", g, f, what())
			return
		}
		if got := q.bytes(); !bytes.Equal(got, want) {
			c.Fail("re-encoding gives %x, documented %x (%s)", got, want, what())
			return
		}
		// encoding the fields
		if kind != kABC && kind != kIneq && kind != kRange {
			p, err := build(kind, f)
			if err != nil {
				c.Fail("harness: %v", err)
				return
			}
			if got := p.bytes(); !bytes.Equal(got, want) {
				c.Fail("encoding gives %x, documented %x (%s)", got, want, what())
				return
			}
		}
		if kind == kRange {
			p := &zk.RangeProof{}
			*p = *q.r
			p.ProofAggregate, p.ProofE = f.P[0], f.S[0]
			for i := range p.ProofTuples {
				p.ProofTuples[i].C, p.ProofTuples[i].S = f.P[i+1], f.S[i+1]
			}
			if got := p.Bytes(); !bytes.Equal(got, want) {
				c.Fail("encoding gives %x, documented %x (%s)", got, want, what())
				return
			}
		}
		if kind == kABC {
			p := &zk.ABCProof{}
			*p = *q.a
			p.B, p.C, p.T1, p.T2, p.CToken, p.Challenge = f.P[0], f.P[1], f.P[2], f.P[3], f.P[4], f.S[0]
			if got := p.Bytes(); !bytes.Equal(got, want) {
				c.Fail("encoding gives %x, documented %x (%s)", got, want, what())
			}
		}
	})
}

// coordAlts are coordinates of every byte length and pattern.
func coordAlts() []BI {
	l := []BI{big.NewInt(0), big.NewInt(1), big.NewInt(0x7f), big.NewInt(0x80), big.NewInt(0xff)}
	for n := uint(1); n <= 66; n++ { // P-521 has coordinates of 66 bytes
		if n > 34 && n < 47 || n > 50 && n < 63 {
			continue
		}
		l = append(l, pow2(8*n-1), new(big.Int).Sub(pow2(8*n), one))
		if n < 66 {
			l = append(l, pow2(8*n))
		}
		if n > 1 {
			l = append(l, pow2(8*n-8)) // 0100..00
			z := new(big.Int).Sub(pow2(8*n-8), one)
			l = append(l, z)
		}
	}
	return l
}

func scalarCodecAlts() []BI {
	l := coordAlts()
	for _, n := range []uint{33, 40, 64, 100, 128, 200, 250, 251, 252, 253, 254, 255, 256, 500, 512, 1000, 1022, 1023} {
		l = append(l, new(big.Int).Sub(pow2(8*n), one), pow2(8*n-8))
	}
	var m []BI
	for _, v := range l {
		m = append(m, v)
		if v.Sign() > 0 {
			m = append(m, new(big.Int).Neg(v))
		}
	}
	return m
}

// nFields gives the number of points and scalars of a kind (range: with the given entries).
func nFields(kind, entries int) (np, ns int) {
	switch kind {
	case kABC, kIneq:
		return 7, 9
	case kRange:
		return 1 + entries, 1 + entries
	}
	for _, ch := range layout[kind] {
		if ch == 'P' {
			np++
		} else {
			ns++
		}
	}
	return
}

func baselines(kind, entries int) []Fields {
	np, ns := nFields(kind, entries)
	mkb := func(pt func(i int) EC, sc func(i int) BI) Fields {
		f := Fields{}
		for i := 0; i < np; i++ {
			f.P = append(f.P, pt(i))
		}
		for i := 0; i < ns; i++ {
			f.S = append(f.S, sc(i))
		}
		return f
	}
	full := new(big.Int).Sub(pow2(256), one)
	return []Fields{
		mkb(func(i int) EC { return EC{X: new(big.Int), Y: new(big.Int)} }, func(i int) BI { return new(big.Int) }),
		mkb(func(i int) EC { return EC{X: full, Y: full} }, func(i int) BI { return full }),
		mkb(func(i int) EC { return mki(int64(3*i+1), int64(i)).P }, func(i int) BI {
			return mN(new(big.Int).Exp(big.NewInt(int64(i+5)), big.NewInt(77), nil))
		}),
		mkb(func(i int) EC { return EC{X: big.NewInt(int64(2*i + 1)), Y: big.NewInt(int64(2*i + 2))} }, func(i int) BI { return big.NewInt(int64(i + 100)) }),
	}
}

// c10Fields changes one and two fields of the baselines to every alternative.
func c10Fields(c *Ctx, kind int) {
	ca, sa := coordAlts(), scalarCodecAlts()
	entries := 2
	var pairC, pairS []BI
	for _, n := range []uint{8, 16, 31 * 8, 256} {
		pairC = append(pairC, pow2(n-8), new(big.Int).Sub(pow2(n), one))
	}
	pairC = append(pairC, new(big.Int), big.NewInt(1), big.NewInt(0x80))
	pairS = append(append([]BI{}, pairC...), big.NewInt(-1), new(big.Int).Neg(pow2(255)), pow2(8*252), pow2(8*251), new(big.Int).Neg(pow2(8*251)))
	for bi, base := range baselines(kind, entries) {
		np, ns := len(base.P), len(base.S)
		slots := 2*np + ns
		set := func(f *Fields, slot int, alts, salts []BI, k int) bool {
			if slot < 2*np {
				if k >= len(alts) {
					return false
				}
				if slot%2 == 0 {
					f.P[slot/2].X = alts[k]
				} else {
					f.P[slot/2].Y = alts[k]
				}
				return true
			}
			if k >= len(salts) {
				return false
			}
			f.S[slot-2*np] = salts[k]
			return true
		}
		for s1 := 0; s1 < slots; s1++ {
			if !c.Case("%s baseline %d, field %d takes every value", kindName[kind], bi, s1) {
				continue
			}
			for k := 0; ; k++ {
				f := base.clone()
				if !set(&f, s1, ca, sa, k) {
					break
				}
				roundTrip(c, kind, f, func() string { return fmt.Sprintf("baseline %d, field %d value %d", bi, s1, k) })
				c.Add(1, 3, 2)
				c.Outcome("round trip")
				if c.Failed() {
					return
				}
			}
			for s2 := s1 + 1; s2 < slots; s2++ {
				for k1 := 0; ; k1++ {
					f := base.clone()
					if !set(&f, s1, pairC, pairS, k1) {
						break
					}
					for k2 := 0; ; k2++ {
						if !set(&f, s2, pairC, pairS, k2) {
							break
						}
						roundTrip(c, kind, f, func() string { return fmt.Sprintf("baseline %d, fields %d,%d values %d,%d", bi, s1, s2, k1, k2) })
						c.Add(1, 3, 2)
						c.Outcome("round trip")
						if c.Failed() || c.Tick() {
							return
						}
					}
				}
			}
			if c.Stop() {
				return
			}
		}
	}
}

// c10Entries: range proofs with every number of entries.
func c10Entries(c *Ctx) {
	max := 300
	if c.Thorough {
		max = 1500
	}
	counts := []int{}
	for i := 0; i <= max; i++ {
		counts = append(counts, i)
	}
	counts = append(counts, 65535, 65536, 65537)
	for _, n := range counts {
		if !c.Case("range proof with %d entries", n) {
			continue
		}
		bl := 0
		if n > 2000 {
			bl = 3
		}
		for i, b := range baselines(kRange, min(n, 2000)) {
			if i < bl {
				continue
			}
			for len(b.P)-1 < n {
				b.P = append(b.P, b.P[len(b.P)%7])
				b.S = append(b.S, b.S[len(b.S)%7])
			}
			roundTrip(c, kRange, b, func() string { return fmt.Sprintf("%d entries, baseline %d", n, i) })
			c.Add(1, 3, 2)
			c.Outcome("round trip")
		}
		if c.Stop() {
			return
		}
	}
}

// c10Primitives: the point and integer codec on its own, with what follows it in the stream.
func c10Primitives(c *Ctx) {
	tails := [][]byte{nil, {0}, {0xff, 1, 2, 3}}
	ca := coordAlts()
	for i, x := range ca {
		if !c.Case("points with x = %s", x.Text(16)) {
			continue
		}
		for _, y := range ca {
			p := EC{X: x, Y: y}
			c.Guard("point codec", func() {
				var b bytes.Buffer
				if err := zk.WriteECPoint(&b, p); err != nil || !bytes.Equal(b.Bytes(), refPoint(p)) {
					c.Fail("WriteECPoint(%s) wrote %x (%v), documented %x", ecs(p), b.Bytes(), err, refPoint(p))
					return
				}
				for _, t := range tails {
					r := bytes.NewReader(append(append([]byte{}, b.Bytes()...), t...))
					q, err := zk.ReadECPoint(r)
					if err != nil || !sameEC(p, q) || r.Len() != len(t) {
						c.Fail("ReadECPoint of %s gives %v %v and leaves %d of %d bytes", ecs(p), q, err, r.Len(), len(t))
						return
					}
				}
			})
			c.Add(1, 4, 4)
			c.Outcome("point")
		}
		_ = i
		if c.Stop() {
			return
		}
	}
	for n := 0; n <= 1023; n++ {
		if !c.Case("integers of %d bytes", n) {
			continue
		}
		var vals []BI
		if n == 0 {
			vals = []BI{new(big.Int)}
		} else {
			lo, hi := pow2(uint(8*n-8)), new(big.Int).Sub(pow2(uint(8*n)), one)
			for d := int64(0); d < 3; d++ {
				vals = append(vals, new(big.Int).Add(lo, big.NewInt(d)), new(big.Int).Sub(hi, big.NewInt(d)))
			}
			vals = append(vals, pow2(uint(8*n-1)))
			if n <= 2 {
				vals = nil
				for v := int64(1) << uint(8*n-8); v < 1<<uint(8*n); v++ {
					vals = append(vals, big.NewInt(v))
				}
			}
		}
		for _, a := range vals {
			for _, v := range []BI{a, new(big.Int).Neg(a)} {
				c.Guard("integer codec", func() {
					var b bytes.Buffer
					if err := zk.WriteBigInt(&b, v); err != nil || !bytes.Equal(b.Bytes(), refScalar(v)) {
						c.Fail("WriteBigInt(%s) wrote %x (%v), documented %x", v.Text(16), b.Bytes(), err, refScalar(v))
						return
					}
					for _, t := range tails {
						r := bytes.NewReader(append(append([]byte{}, b.Bytes()...), t...))
						q, err := zk.ReadBigInt(r)
						if err != nil || q == nil || q.Cmp(v) != 0 || r.Len() != len(t) {
							c.Fail("ReadBigInt of %s gives %v %v and leaves %d of %d bytes", v.Text(16), q, err, r.Len(), len(t))
							return
						}
					}
				})
				c.Add(1, 4, 4)
			}
		}
		c.Outcome("integer length")
		if c.Stop() {
			return
		}
	}
}

// c10Toy: the same verdict before and after serialization, for all proofs over a tiny group.
func c10Toy(c *Ctx, kind, n int, all bool) {
	t := GetToy(n)
	n = t.N
	np, ns := nFields(kind, 0)
	if kind == kRange {
		np, ns = 2, 2
	}
	nv := map[int]int{kGSPFS: 1, kEquiv: 4, kDisj: 4, kCons: 3, kRange: 1}[kind]
	cp := t.CP(2%n, 4)
	var pre, post int64
	tuple(n, nv+np, func(x []int) bool {
		if !c.Case("%s N=%d statement and points %v, all scalars", kindName[kind], n, x) {
			return !c.stopped
		}
		v := make([]EC, nv)
		f := Fields{P: make([]EC, np), S: make([]BI, ns)}
		for i := range v {
			v[i] = t.Pts[x[i]]
		}
		for i := range f.P {
			f.P[i] = t.Pts[x[nv+i]]
		}
		tuple(n, ns, func(y []int) bool {
			for i := range f.S {
				f.S[i] = bi(y[i])
			}
			c.Guard("serialization", func() {
				p, err := build(kind, f)
				if err != nil {
					c.Fail("harness: %v", err)
					return
				}
				b := p.bytes()
				q, err := fromBytes(kind, b)
				if err != nil {
					c.Fail("decoding own bytes: %v", err)
					return
				}
				ok1, _ := verify(p, cp, v)
				ok2, _ := verify(q, cp, v)
				if ok1 != ok2 {
					c.Fail("verdict %v before and %v after serialization: %s", ok1, ok2, f)
				}
				if ok1 {
					pre++
				}
				if ok2 {
					post++
				}
			})
			c.Add(1, 4, 1)
			return !c.Failed() && !c.Tick()
		})
		return !c.Stop()
	})
	c.OutcomeN("accepted before", pre)
	c.OutcomeN("accepted after", post)
}

// honestCodec takes a proof by the library's prover through the codec; x is the value of a range proof.
func honestCodec(c *Ctx, g Group, s Stmt, x BI) {
	kind := s.kind
	c.Guard("prove", func() {
		p, r, err := prove(s)
		if err != nil {
			c.Fail("prover: %v", err)
			return
		}
		f := fieldsOf(p)
		if !bytes.Equal(p.bytes(), refEncode(kind, f)) {
			c.Fail("encoding %x, documented %x", p.bytes(), refEncode(kind, f))
			return
		}
		q, err := fromBytes(kind, p.bytes())
		if err != nil || !fieldsOf(q).eq(f) || !bytes.Equal(q.bytes(), p.bytes()) {
			c.Fail("round trip: %v %s instead of %s", err, fieldsOf(q), f)
			return
		}
		v := s.vpts(func(a, b EC) EC { return g.Add(a, g.Neg(b)) })
		if kind == kRange {
			v = []EC{g.Add(g.Mul(s.cp.G, x), g.Mul(s.cp.H, r))}
		}
		if ok, err := verify(q, s.cp, v); !ok || err != nil {
			c.Fail("rejected after serialization: %v", err)
		}
		// the fields found in the documented places satisfy the equations
		if d, _, err := refDecode(kind, p.bytes()); err != nil || !refVerify(g, s.cp, kind, v, d) {
			c.Fail("the bytes, read in the documented order, are no valid proof (%v)", err)
		}
		v[0] = g.Add(v[0], s.cp.G)
		if ok, err := verify(q, s.cp, v); ok || err == nil {
			c.Fail("accepted for another statement after serialization")
		}
	})
	c.Add(1, 5, 3)
	c.Outcome("honest")
}

// c10Honest: proofs by the library's provers.
func c10Honest(c *Ctx) {
	xs := append(scalarAlphabet(false), outsideScalars()...)
	for kind := 0; kind <= kRange; kind++ {
		for xi, x := range xs {
			if kind == kRange {
				if xi >= 20 {
					break
				}
				x = new(big.Int).Mod(x, pow2(40))
			}
			if !c.Case("honest %s proof x=%s", kindName[kind], x.Text(16)) {
				continue
			}
			side := zk.Left
			if xi%2 == 1 {
				side = zk.Right
			}
			s := realStmt(kind, xi%4, realParams()[xi%4], x, big.NewInt(int64(xi)), big.NewInt(5), side)
			withRand(newStream(fmt.Sprintf("c10 %d %d", kind, xi)), func() { honestCodec(c, secpGroup{}, s, x) })
			if c.Stop() {
				return
			}
		}
	}
}

func init() {
	ck := &Check{ID: "C10", Level: "model_checking",
		Rule:        "state = one proof (all field values); its bytes must be those of an independent encoder, and decode to the same fields and the same bytes",
		Assumptions: []string{"coordinates of at most 66 bytes (P-521) and scalars of at most 1023 bytes; the decoder's limits are 128 and 1024"}}
	add := func(name, tier, bound string, run func(*Ctx)) {
		ck.Units = append(ck.Units, Unit{Name: name, Tier: tier, Bound: bound, Run: run})
	}
	for k := kGSPFS; k <= kRange; k++ {
		k := k
		if k == kIneq {
			continue
		}
		add("fields-"+kindName[k], "", "four baseline proofs; each field takes every length and boundary value, any two fields take boundary values", func(c *Ctx) { c10Fields(c, k) })
	}
	add("entries", "", "range proofs with 0..300 (thorough 1500) and 65535..65537 entries", c10Entries)
	add("primitives", "", "points with all pairs of coordinate lengths and patterns; integers of 0..1023 bytes, both signs; three kinds of following bytes", c10Primitives)
	add("honest", "", "proofs by the library's provers for boundary scalars", c10Honest)
	stdUnits(ck, "std-", "proofs of every kind by the library's provers, boundary scalars,", stdCodec)
	for _, u := range []struct {
		k, n int
		tier string
	}{{kGSPFS, 11, ""}, {kEquiv, 5, ""}, {kCons, 3, ""}, {kDisj, 3, ""}, {kRange, 11, ""}, {kGSPFS, 19, "thorough"}, {kCons, 5, "thorough"}} {
		u := u
		add(fmt.Sprintf("toy-%s-%d", kindName[u.k], u.n), u.tier, fmt.Sprintf("all statements and proofs over the group of order %d: same verdict before and after serialization", u.n), func(c *Ctx) { c10Toy(c, u.k, u.n, true) })
	}
	register(ck)
}
