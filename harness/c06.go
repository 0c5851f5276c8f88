package zkmc

import (
	"fmt"
	"math/big"

	zk "github.com/mit-dci/zksigma"
)

// c06Toy: all proofs with k entries over a tiny group, tables of np entries.
func c06Toy(c *Ctx, n, k, np int) {
	t := GetToy(n)
	n = t.N
	g := toyGroup{t}
	for h := 1; h < n; h++ {
		cp := t.CP(h, np)
		tuple(n, k+1, func(x []int) bool { // commitment, entry points
			if !c.Case("range N=%d H=%d, %d entries, table of %d: commitment and entry points %v, all scalars, aggregates, challenges", n, h, k, np, x) {
				return !c.Stop()
			}
			base := Fields{P: []EC{t.Pts[0]}, S: []BI{bi(0)}}
			for i := 0; i < k; i++ {
				base.P = append(base.P, t.Pts[x[1+i]])
				base.S = append(base.S, bi(0))
			}
			p, err := build(kRange, base)
			if err != nil {
				c.Fail("decoder rejects well-formed bytes: %v", err)
				return false
			}
			v := []EC{t.Pts[x[0]]}
			var acc, cnt int64
			tuple(n, k+2, func(y []int) bool { // aggregate, challenge, scalars
				f := Fields{P: append([]EC(nil), base.P...), S: make([]BI, k+1)}
				f.P[0] = t.Pts[y[0]]
				p.r.ProofAggregate = t.Pts[y[0]]
				for i := 0; i <= k; i++ {
					f.S[i] = bi(y[1+i])
					if i > 0 {
						p.r.ProofTuples[i-1].S = f.S[i]
					}
				}
				p.r.ProofE = f.S[0]
				want := refVerify(g, cp, kRange, v, f)
				if want {
					acc++
				}
				cnt++
				verdict(c, p, cp, v, want, func() string { return fmt.Sprintf("H=%d commitment %d entries %v rest %v", h, x[0], x[1:], y) })
				return !c.Failed() && !c.Tick()
			})
			c.Add(cnt, cnt, cnt)
			c.OutcomeN("accepted", acc)
			c.OutcomeN("rejected", cnt-acc)
			return !c.Stop()
		})
		if c.Stop() {
			return
		}
	}
}

// rangeVariants enumerates changes of a range proof.
func rangeVariants(g Group, cp CP, f Fields, pairs bool, alts func(EC) []EC, salts func(BI) []BI, try func(what string, f Fields) bool) {
	n := len(f.P) - 1
	entry := func(g Fields, i int, P EC, S BI) Fields {
		h := Fields{append([]EC(nil), g.P...), append([]BI(nil), g.S...)}
		h.P[1+i], h.S[1+i] = P, S
		return h
	}
	agg := func(h Fields) Fields { // the aggregate that fits the entries
		s := EC{X: new(big.Int), Y: new(big.Int)}
		for _, p := range h.P[1:] {
			s = g.Add(s, p)
		}
		h.P = append([]EC(nil), h.P...)
		h.P[0] = s
		return h
	}
	for i := 0; i < n; i++ {
		for j, a := range alts(f.P[1+i]) {
			if !try(fmt.Sprintf("entry %d point -> alternative %d", i, j), entry(f, i, a, f.S[1+i])) {
				return
			}
			if g.Valid(a) && !try(fmt.Sprintf("entry %d point -> alternative %d, fitting aggregate", i, j), agg(entry(f, i, a, f.S[1+i]))) {
				return
			}
		}
		for j, a := range salts(f.S[1+i]) {
			if !try(fmt.Sprintf("entry %d scalar -> alternative %d", i, j), entry(f, i, f.P[1+i], a)) {
				return
			}
		}
		// dropped, duplicated, cut off
		d := Fields{append(append([]EC(nil), f.P[:1+i]...), f.P[2+i:]...), append(append([]BI(nil), f.S[:1+i]...), f.S[2+i:]...)}
		if !try(fmt.Sprintf("entry %d dropped", i), d) || !try(fmt.Sprintf("entry %d dropped, fitting aggregate", i), agg(d)) {
			return
		}
		d = Fields{append(append([]EC(nil), f.P...), f.P[1+i]), append(append([]BI(nil), f.S...), f.S[1+i])}
		if !try(fmt.Sprintf("entry %d repeated at the end", i), d) || !try(fmt.Sprintf("entry %d repeated at the end, fitting aggregate", i), agg(d)) {
			return
		}
		d = Fields{f.P[:1+i], f.S[:1+i]}
		if !try(fmt.Sprintf("cut off after %d entries", i), d) || !try(fmt.Sprintf("cut off after %d entries, fitting aggregate", i), agg(d)) {
			return
		}
		for k := i + 1; k < n; k++ {
			if !pairs && k != i+1 && k != n-1 {
				continue
			}
			d = entry(entry(f, i, f.P[1+k], f.S[1+k]), k, f.P[1+i], f.S[1+i])
			if !try(fmt.Sprintf("entries %d and %d swapped", i, k), d) {
				return
			}
			// move value between two entries: the sum stays
			d = entry(entry(f, i, g.Add(f.P[1+i], cp.G), f.S[1+i]), k, g.Add(f.P[1+k], g.Neg(cp.G)), f.S[1+k])
			if !try(fmt.Sprintf("G moved from entry %d to entry %d", k, i), d) {
				return
			}
			d = entry(entry(f, i, f.P[1+i], f.S[1+k]), k, f.P[1+k], f.S[1+i])
			if !try(fmt.Sprintf("scalars of entries %d and %d swapped", i, k), d) {
				return
			}
		}
	}
	for j, a := range alts(f.P[0]) {
		d := Fields{append([]EC(nil), f.P...), f.S}
		d.P[0] = a
		if !try(fmt.Sprintf("aggregate -> alternative %d", j), d) {
			return
		}
	}
	for j, a := range salts(f.S[0]) {
		d := Fields{f.P, append([]BI(nil), f.S...)}
		d.S[0] = a
		if !try(fmt.Sprintf("challenge -> alternative %d", j), d) {
			return
		}
	}
}

func c06Variants(c *Ctx, name string, g Group, cp CP, vals []uint64, entries []int, pairs bool, alts func(EC) []EC, salts func(BI) []BI) {
	for _, n := range entries {
		for _, val := range vals {
			if !c.Case("%s: range proof with %d entries of %d: every change of an entry, and of the commitment", name, n, val) {
				continue
			}
			digits, pos := make([]int, n), make([]int, n)
			for i := range digits {
				digits[i], pos[i] = int(val>>uint(i)&1), i
			}
			f, v, r := refRange(g, cp, digits, pos, newStream(fmt.Sprintf("c06 %d %d", n, val)))
			comm := g.Add(g.Mul(cp.G, v), g.Mul(cp.H, r))
			run := func(what string, comm EC, f Fields) bool {
				want := refVerify(g, cp, kRange, []EC{comm}, f)
				p, err := build(kRange, f)
				if err != nil {
					c.Fail("decoder rejects well-formed bytes: %v (%s)", err, what)
					return false
				}
				verdict(c, p, cp, []EC{comm}, want, func() string { return what })
				c.Add(1, 1, 1)
				c.Outcome(fmt.Sprintf("%s verdict %v", name, want))
				if c.tick&15 == 0 {
					c.Alive()
				}
				return !c.Failed() && !c.Tick()
			}
			if !run("unchanged", comm, f) {
				return
			}
			if n > 0 && n <= len(cp.HPoints) && !refVerify(g, cp, kRange, []EC{comm}, f) {
				c.Fail("harness: the reference prover's proof does not satisfy the specification")
				return
			}
			for j, a := range alts(comm) {
				{
					run(fmt.Sprintf("commitment -> alternative %d", j), a, f)
					d := Fields{append([]EC(nil), f.P...), f.S}
					d.P[0] = a
					run(fmt.Sprintf("commitment and aggregate -> alternative %d", j), a, d)
				}
			}
			rangeVariants(g, cp, f, pairs, alts, salts, func(what string, d Fields) bool {
				if !run(what, comm, d) {
					return false
				}
				// and for the commitment the changed entries add up to
				if len(d.P) > 0 && g.Valid(d.P[0]) && !sameEC(d.P[0], comm) {
					return run(what+", commitment = aggregate", d.P[0], d)
				}
				return true
			})
			if c.Stop() {
				return
			}
		}
	}
}

func znAlts(z *Zn) func(EC) []EC {
	return func(p EC) []EC {
		k, _ := z.log(p)
		var l []EC
		for _, q := range []uint64{z.N - k, z.addk(k, 1), z.addk(k, z.N-1), z.addk(k, k), 0, 3} {
			if r := z.pt(q); !sameEC(r, p) {
				l = append(l, r)
			}
		}
		return append(l, fewAliases(p, z.params.P)...)
	}
}

func znSalts(z *Zn) func(BI) []BI {
	return func(s BI) []BI {
		var l []BI
		for _, q := range []BI{new(big.Int).Add(s, one), new(big.Int).Sub(z.params.N, s), new(big.Int), big.NewInt(1), new(big.Int).Xor(s, pow2(40))} {
			if q.Cmp(s) != 0 {
				l = append(l, q)
			}
		}
		return l
	}
}

// c06Digits: an adversary who follows the construction with digits other than 0 and 1, with
// entries made for other powers of two, and with any number of entries.
func c06Digits(c *Ctx) {
	z := newZn(znN)
	g := znGroup{z}
	cp := z.CP(0x1234567890abcd, 64)
	dig := []int{0, 1, 2, -1, 3}
	for n := 0; n <= 70; n++ {
		for at := 0; at < n || at == 0; at++ {
			if n > 8 && n != 40 && n != 41 && n < 63 && at > 1 && at != n-1 {
				continue
			}
			if !c.Case("%d entries, entry %d with a foreign digit or made for another power of two", n, at) {
				continue
			}
			for _, bg := range []int{0, 1} {
				for _, d := range dig {
					for dp := -2; dp <= 2; dp++ {
						digits, pos := make([]int, n), make([]int, n)
						for i := range digits {
							digits[i], pos[i] = bg, i
						}
						if n > 0 {
							digits[at] = d
							pos[at] += dp
							if pos[at] < 0 {
								pos[at] = 70
							}
						} else if d > 0 || dp != 0 {
							continue
						}
						f, _, _ := refRange(g, cp, digits, pos, newStream(fmt.Sprintf("c06d %d %d %d %d %d", n, at, bg, d, dp)))
						p, err := build(kRange, f)
						if err != nil {
							c.Fail("decoder: %v", err)
							return
						}
						want := refVerify(g, cp, kRange, []EC{f.P[0]}, f)
						verdict(c, p, cp, []EC{f.P[0]}, want, func() string {
							return fmt.Sprintf("%d entries of digit %d, entry %d has digit %d for position %d", n, bg, at, d, pos[at])
						})
						c.Add(1, 1, 1)
						c.Outcome(fmt.Sprintf("digits verdict %v", want))
					}
				}
			}
			if c.Stop() {
				return
			}
		}
	}
}

// c06Malformed: missing parts.
func c06Malformed(c *Ctx) {
	z := newZn(znN)
	for pi, cp := range []CP{zk.TestCurve, z.CP(3, 64), z.CP(3, 40)} {
		mkp := func() (*zk.RangeProof, EC) {
			var p *zk.RangeProof
			var err error
			withRand(newStream("c06m"), func() { p, _, err = zk.NewRangeProof(cp, big.NewInt(0x123456789)) })
			if err != nil {
				return nil, EC{}
			}
			return p, p.ProofAggregate
		}
		bad := func(what string, p *zk.RangeProof, comm EC) {
			verdict(c, Proof{kind: kRange, r: p}, cp, []EC{comm}, false, func() string { return what })
			c.Add(1, 1, 1)
			c.Outcome("malformed rejected")
		}
		for i := 0; i < 40; i++ {
			if !c.Case("params %d: entry %d without scalar or point", pi, i) {
				continue
			}
			p, comm := mkp()
			if p == nil {
				continue
			}
			p.ProofTuples[i].S = nil
			bad(fmt.Sprintf("entry %d without scalar", i), p, comm)
			p, comm = mkp()
			p.ProofTuples[i].C = EC{}
			bad(fmt.Sprintf("entry %d without point", i), p, comm)
			p, comm = mkp()
			p.ProofTuples[i].C = EC{}
			p.ProofTuples[i].S = nil
			bad(fmt.Sprintf("entry %d empty", i), p, comm)
			p, comm = mkp()
			p.ProofTuples[i].S = nil
			p.ProofTuples[39-i].C = EC{}
			bad(fmt.Sprintf("entries %d and %d incomplete", i, 39-i), p, comm)
			p, comm = mkp()
			p.ProofTuples[i].C.X = nil
			bad(fmt.Sprintf("entry %d without x", i), p, comm)
			p, comm = mkp()
			p.ProofTuples[i].C.Y = nil
			bad(fmt.Sprintf("entry %d without y", i), p, comm)
			if pi > 0 && i%8 != 0 {
				continue
			}
			// the same residues and magnitudes outside the field
			p, comm = mkp()
			for j, q := range outsideAlts(p.ProofTuples[i].C) {
				p, comm = mkp()
				p.ProofTuples[i].C = q
				bad(fmt.Sprintf("entry %d with coordinates outside the field (%d)", i, j), p, comm)
			}
			if i == 0 {
				for j, q := range outsideAlts(comm) {
					bad(fmt.Sprintf("commitment with coordinates outside the field (%d)", j), p, q)
					p, comm = mkp()
					p.ProofAggregate = q
					bad(fmt.Sprintf("aggregate with coordinates outside the field (%d)", j), p, comm)
					bad(fmt.Sprintf("aggregate and commitment with coordinates outside the field (%d)", j), p, q)
				}
			}
		}
		if c.Case("params %d: no proof, no challenge, no entries, too many entries", pi) {
			p, comm := mkp()
			if p == nil {
				continue
			}
			bad("nil proof", nil, comm)
			p.ProofE = nil
			bad("no challenge", p, comm)
			p, comm = mkp()
			p.ProofTuples = nil
			bad("no entries", p, comm)
			p, comm = mkp()
			p.ProofTuples = nil
			p.ProofE = new(big.Int)
			p.ProofAggregate = EC{X: new(big.Int), Y: new(big.Int)}
			bad("no entries, zero challenge, zero aggregate", p, p.ProofAggregate)
			for _, n := range []int{len(cp.HPoints) + 1, len(cp.HPoints) + 2, 100, 256, 1000} {
				p, comm = mkp()
				for i := 40; i < n; i++ {
					p.ProofTuples = append(p.ProofTuples, p.ProofTuples[i%40])
				}
				bad(fmt.Sprintf("%d entries", n), p, comm)
			}
			for k := 0; k < 40; k++ {
				q := cp
				q.HPoints = cp.HPoints[:k]
				p, comm = mkp()
				verdict(c, Proof{kind: kRange, r: p}, q, []EC{comm}, false, func() string { return fmt.Sprintf("table of only %d powers", k) })
				c.Add(1, 1, 1)
			}
			q := cp
			q.HPoints = nil
			p, comm = mkp()
			verdict(c, Proof{kind: kRange, r: p}, q, []EC{comm}, false, func() string { return "no table" })
		}
	}
}

func init() {
	ck := &Check{ID: "C06", Level: "model_checking",
		Rule:        "state = one (parameters, commitment, proof contents); the real verifier's verdict must be the specification's, as (true, nil) or (false, error), without panic",
		Assumptions: []string{"complete enumeration only for groups of order 3 to 7 with up to 3 entries; longer proofs by single and double changes"}}
	add := func(name, tier, bound string, run func(*Ctx)) {
		ck.Units = append(ck.Units, Unit{Name: name, Tier: tier, Bound: bound, Run: run})
	}
	toy := func(n, k, np int, tier string) {
		add(fmt.Sprintf("toy-%d-entries-%d-table-%d", n, k, np), tier, fmt.Sprintf("all proofs with %d entries over the group of order %d, all H, table of %d powers", k, n, np), func(c *Ctx) { c06Toy(c, n, k, np) })
	}
	toy(3, 0, 2, "")
	toy(3, 1, 2, "")
	toy(3, 2, 2, "")
	toy(3, 2, 1, "")
	toy(3, 3, 3, "")
	toy(5, 1, 1, "")
	toy(5, 2, 3, "")
	toy(7, 1, 2, "")
	toy(7, 2, 2, "")
	toy(5, 3, 3, "thorough")
	toy(13, 1, 1, "thorough")
	z := newZn(znN)
	add("model-group", "", "honest proofs with 1..64 entries on the model group: every change of one entry, swaps and transfers between any two, drops, repeats, cuts, aggregates, challenges, commitments", func(c *Ctx) {
		vals := []uint64{0, 1<<40 - 1, 0x5a5a5a5a5a}
		ents := []int{1, 2, 3, 40, 64}
		if c.Thorough {
			ents = nil
			for i := 1; i <= 64; i++ {
				ents = append(ents, i)
			}
		}
		c06Variants(c, "model group", znGroup{z}, z.CP(0x1234567890abcd, 64), vals, ents, true, znAlts(z), znSalts(z))
	})
	add("digits", "", "adversarial provers: 0..70 entries, one with a digit in {-1,0,1,2,3} or made for a neighbouring power", c06Digits)
	add("malformed", "", "missing points, scalars, challenge, entries; over-long proofs; short tables", c06Malformed)
	add("secp", "", "the same changes on secp256k1 with 1..3 and 40 entries", func(c *Ctx) {
		ents := []int{1, 2, 3}
		if c.Thorough {
			ents = []int{1, 2, 3, 5, 40}
		}
		c06Variants(c, "secp", secpGroup{}, zk.TestCurve, []uint64{0, 5, 1<<40 - 1}, ents, false, func(p EC) []EC { return append(pointAlts(p), fewAliases(p, sP)...) }, func(s BI) []BI { return scalarAlts(s)[:6] })
	})
	for _, strict := range []bool{false, true} {
		strict := strict
		sfx, desc := "", ""
		if strict {
			sfx, desc = "-strict", ", on a curve that panics on them as crypto/elliptic does"
		}
		for _, e := range [][2]int{{3, 1}, {5, 1}, {3, 2}, {5, 2}, {3, 3}} {
			n, k := e[0], e[1]
			tier := ""
			if k == 3 {
				tier = "thorough"
			}
			add(fmt.Sprintf("plane-%d-entries-%d%s", n, k, sfx), tier, fmt.Sprintf("order %d: all %d-entry proofs with an entry in the coordinate plane off the curve, all scalars and challenges that fit by the addition formulas, for the commitment they add up to%s", n, k, desc), func(c *Ctx) { planeRange(c, n, k, strict) })
		}
	}
	add("secp-off-curve", "", "forged proofs of 2, 3 and 40 entries for 7 values: two entries of small order off the curve whose chord meets the commitment", c06OffCurve)
	register(ck)
}
