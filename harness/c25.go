package zkmc

import (
	"fmt"
	"math/big"

	zk "github.com/mit-dci/zksigma"
)

// c25Holds: sk * (C - count*G) = CToken.
func c25Holds(g Group, cp CP, C, tok EC, sk BI, count int64) bool {
	return sameEC(g.Mul(g.Add(C, g.Neg(g.Mul(cp.G, big.NewInt(count)))), sk), tok)
}

// c25Toy: every statement of a small group, draws enumerated: C commits to the zero bit, CToken is its token.
func c25Toy(c *Ctx, n int) {
	t := GetToy(n)
	n = t.N
	g := toyGroup{t}
	for gg := 1; gg < n; gg++ {
		if gg > 2 && !c.Thorough {
			break
		}
		for h := 1; h < n; h++ {
			cp := t.CPG(gg, h, 0)
			for sk := 1; sk < n; sk++ {
				for v := 0; v < n; v++ {
					if !c.Case("N=%d G=%d H=%d sk=%d v=%d: all randomness, draws varied", n, gg, h, sk, v) {
						continue
					}
					for r := 0; r < n; r++ {
						cm, tok := t.Pts[(v*gg+r*h)%n], t.Pts[r*sk*h%n]
						side, bit := zk.Right, int64(1)
						if v == 0 {
							side, bit = zk.Left, 0
						}
						judge := func(p *zk.ABCProof, err error, what string) {
							c.Add(1, 1, 1)
							if err != nil {
								c.Outcome("prover refuses")
								return // C01 judges refusals
							}
							if p == nil || !g.Valid(p.C) || !g.Valid(p.CToken) {
								c.Fail("%s: points outside the group", what)
								return
							}
							if !c25Holds(g, cp, p.C, p.CToken, bi(sk), bit) {
								c.Fail("N=%d G=%d H=%d sk=%d v=%d r=%d, %s: C is %s, its token %s: not a commitment to %d with its token", n, gg, h, sk, v, r, what, ecs(p.C), ecs(p.CToken), bit)
							}
							c.Outcome(fmt.Sprintf("proof for bit %d", bit))
						}
						wv, wk := witReps(v, n)[(v+r)%4], witReps(sk, n)[(sk+r+v)%4]
						run := func(rd *choiceReader, what func() string) {
							var p *zk.ABCProof
							var err error
							c.Guard("NewABCProof", func() { withRand(rd, func() { p, err = zk.NewABCProof(cp, cm, tok, wv, wk, side) }) })
							if !c.Failed() {
								judge(p, err, what())
							}
						}
						if n == 3 {
							forDraws(n, 5, func(rd *choiceReader) {
								run(rd, func() string { return fmt.Sprintf("draws %v", rd.choices) })
							}, func() bool { return c.Failed() })
						} else {
							for _, rest := range []int{1, n - 1} {
								for i := 0; i < 8; i++ {
									for d := 0; d < n; d++ {
										ch := make([]int, 12)
										for k := range ch {
											ch[k] = rest
										}
										ch[i] = d
										run(&choiceReader{choices: ch, rest: int64(rest)}, func() string { return fmt.Sprintf("draws %v", ch) })
										if c.Failed() {
											return
										}
									}
								}
							}
						}
						if v == 0 || c.Failed() {
							continue
						}
						// the proof inside an inequality proof
						b, rb := 1, 2
						q, err := zk.NewInequalityProof(cp, t.Pts[((v+b)*gg+(r+rb)*h)%n], t.Pts[(b*gg+rb*h)%n], t.Pts[(r+rb)*sk*h%n], t.Pts[rb*sk*h%n], bi(v+b), bi(b), bi(sk))
						judge((*zk.ABCProof)(q), err, "inequality proof")
					}
					if c.Failed() || c.Stop() {
						return
					}
				}
			}
		}
	}
}

type countTx struct {
	v, r BI
	sub  bool
	wire bool // the proof travels as bytes
}

func (o countTx) String() string {
	s := "+"
	if o.sub {
		s = "-"
	}
	if o.wire {
		s += "wire:"
	}
	return s + o.v.Text(10) + "/" + o.r.Text(10)
}

// c25History replays one history of transactions and tries all claims on the number of non-zero values.
func c25History(c *Ctx, g Group, cp CP, sk, sk2 BI, txs []countTx, what string) {
	N := g.Order()
	pk, pk2 := g.Mul(cp.H, sk), g.Mul(cp.H, sk2)
	C, T, CM, TM := zk.Zero, zk.Zero, zk.Zero, zk.Zero
	count := int64(0)
	total := new(big.Int)
	for _, o := range txs {
		cm, tok := zk.PedCommitR(cp, o.v, o.r), zk.CommitR(cp, pk, o.r)
		side, bit := zk.Right, int64(1)
		if new(big.Int).Mod(o.v, N).Sign() == 0 {
			side, bit = zk.Left, 0
		}
		p, err := zk.NewABCProof(cp, cm, tok, o.v, sk, side)
		if err != nil {
			c.Fail("no proof for %s in %s: %v", o, what, err)
			return
		}
		if o.wire {
			if p, err = zk.NewABCProofFromBytes(p.Bytes()); err != nil {
				c.Fail("proof for %s does not decode in %s: %v", o, what, err)
				return
			}
		}
		if ok, err := p.Verify(cp, cm, tok); !ok {
			c.Fail("proof for %s does not verify in %s: %v", o, what, err)
			return
		}
		if !c25Holds(g, cp, p.C, p.CToken, sk, bit) {
			c.Fail("proof for %s in %s: CToken is not the token of a commitment C to %d", o, what, bit)
			return
		}
		if o.sub {
			C, T, CM, TM = cp.Sub(C, p.C), cp.Sub(T, p.CToken), cp.Sub(CM, cm), cp.Sub(TM, tok)
			count -= bit
			total.Sub(total, o.v)
		} else {
			C, T, CM, TM = cp.Add(C, p.C), cp.Add(T, p.CToken), cp.Add(CM, cm), cp.Add(TM, tok)
			count += bit
			total.Add(total, o.v)
		}
		c.Add(1, 4, 2)
	}
	for d := int64(-2); d <= 2; d++ {
		rest := cp.Sub(C, cp.Mult(cp.G, big.NewInt(count+d)))
		e, err := zk.NewEquivalenceProof(cp, rest, T, cp.H, pk, sk)
		ok := err == nil
		if ok {
			ok, err = e.Verify(cp, rest, T, cp.H, pk)
		}
		if ok != (d == 0) {
			c.Fail("proof of the number of non-zero values, claimed %d, true %d: %v %v in %s", count+d, count, ok, err, what)
			return
		}
		// with another bank's key
		if d == 0 && T.X.Sign() != 0 {
			if e2, err := zk.NewEquivalenceProof(cp, rest, T, cp.H, pk2, sk2); err == nil {
				if ok, _ := e2.Verify(cp, rest, T, cp.H, pk2); ok {
					c.Fail("the count is proved with another key in %s", what)
					return
				}
			}
			if ok, _ := e.Verify(cp, rest, T, cp.H, pk2); ok {
				c.Fail("the count's proof is accepted for another key in %s", what)
				return
			}
			// the same proof for the total and for another count
			if ok, _ := e.Verify(cp, g.Add(rest, cp.G), T, cp.H, pk); ok {
				c.Fail("the count's proof is accepted for another count in %s", what)
				return
			}
		}
		sum := cp.Sub(CM, cp.Mult(cp.G, new(big.Int).Add(total, big.NewInt(d))))
		e, err = zk.NewEquivalenceProof(cp, sum, TM, cp.H, pk, sk)
		ok = err == nil
		if ok {
			ok, err = e.Verify(cp, sum, TM, cp.H, pk)
		}
		if ok != (d == 0) {
			c.Fail("proof of the total, claimed %+d: %v %v in %s", d, ok, err, what)
			return
		}
		c.Add(0, 6, 4)
	}
	c.Outcome(fmt.Sprintf("count %d decided", count))
}

func c25Histories(c *Ctx, name string, g Group, cp CP, depth int) {
	N := g.Order()
	b := big.NewInt
	ops := []countTx{
		{v: b(0), r: b(3)}, {v: b(7), r: b(1)}, {v: new(big.Int).Sub(N, one), r: b(0)}, {v: N, r: new(big.Int).Sub(N, b(3)), wire: true},
		{v: b(-2), r: new(big.Int).Add(N, b(4)), wire: true}, {v: b(7), r: b(1), sub: true}, {v: b(0), r: b(9), sub: true, wire: true}, {v: b(1), r: b(2)},
	}
	var hist []int
	var rec func()
	rec = func() {
		if c.Stop() {
			return
		}
		what := "history"
		for _, i := range hist {
			what += " " + ops[i].String()
		}
		if c.Case("%s: %s", name, what) {
			var txs []countTx
			for _, i := range hist {
				txs = append(txs, ops[i])
			}
			c.Guard("counting audit", func() {
				withRand(newStream(fmt.Sprint("c25", hist)), func() { c25History(c, g, cp, b(0x1234567), b(99), txs, what) })
			})
		}
		if len(hist) == depth || c.stopped {
			return
		}
		for i := range ops {
			hist = append(hist, i)
			rec()
			hist = hist[:len(hist)-1]
		}
	}
	rec()
}

func init() {
	ck := &Check{ID: "C25", Level: "model_checking",
		Rule:        "state = the sums of C and CToken of the ABC proofs of a history of transactions; transition = one transaction added or removed; each proof's C and CToken must be a commitment to the zero bit of the value with its token, and the proof of the count must succeed for exactly the true count",
		Assumptions: []string{"groups above order 3: one draw varied at a time"}}
	add := func(name, tier, bound string, run func(*Ctx)) {
		ck.Units = append(ck.Units, Unit{Name: name, Tier: tier, Bound: bound, Run: run})
	}
	for _, n := range []int{3, 5, 7} {
		n := n
		b := "all H, keys, values, randomness; two G (thorough: all); each of the 8 draws at every value"
		if n == 3 {
			b = "all G, H, keys, values, randomness; all values of the first five draws"
		}
		add(fmt.Sprintf("toy-%d", n), "", b, func(c *Ctx) { c25Toy(c, n) })
	}
	add("toy-x0-7", "", "the same on a curve that has points with x = 0", func(c *Ctx) { c25Toy(c, -7) })
	add("toy-13", "thorough", "the same", func(c *Ctx) { c25Toy(c, 13) })
	add("model-group", "", "all histories of up to 4 (thorough 5) of 8 transactions, removals and serialized proofs among them; counts claimed from -2 to +2 off; two choices of generators", func(c *Ctx) {
		z := newZn(znN)
		d := 4
		if c.Thorough {
			d = 5
		}
		c25Histories(c, "model group", znGroup{z}, z.CP(31, 0), d)
		c25Histories(c, "model group, other generators", znGroup{z}, z.CPG(17, 31, 0), d-1)
	})
	add("secp", "", "all histories of up to 1 (thorough 3) transactions on secp256k1, library parameters and swapped generators", func(c *Ctx) {
		d := 1
		if c.Thorough {
			d = 3
		}
		c25Histories(c, "secp256k1", secp, zk.TestCurve, d)
		c25Histories(c, "secp256k1, swapped generators", secp, realParams()[3], d)
	})
	stdUnits(ck, "std-", "all histories of up to 1 (thorough 2) of 8 transactions", func(c *Ctx, g stdGroup) {
		d := 1
		if c.Thorough {
			d = 2
		}
		c25Histories(c, g.c.Params().Name, g, g.CP(31, 0), d)
	})
	register(ck)
}
