package zkmc

import (
	"fmt"
	"math/big"

	zk "github.com/mit-dci/zksigma"
)

// c14Toy: every reachable ledger state (sum of values, sum of randomness) of a small group,
// every transaction from it, every claimed opening in it.
func c14Toy(c *Ctx, n int) {
	t := GetToy(n)
	n = t.N
	for gg := 1; gg < n; gg++ {
		for h := 1; h < n; h++ {
			if gg != 1 && gg != 2 && n > 5 {
				continue
			}
			if !c.Case("N=%d G=%d H=%d: all ledger states and transactions", n, gg, h) {
				continue
			}
			cp := t.CPG(gg, h, 0)
			sk := 1 + (gg+h)%(n-1)
			pk := t.Pts[sk*h%n]
			type state struct{ cm, tok EC }
			seen := map[[2]int]state{{0, 0}: {zk.Zero, zk.Zero}}
			queue := [][2]int{{0, 0}}
			c.Guard("ledger", func() {
				for len(queue) > 0 && !c.Failed() {
					at := queue[0]
					queue = queue[1:]
					st := seen[at]
					for v := 0; v < n; v++ {
						for r := 0; r < n; r++ {
							for sgn := 1; sgn >= -1; sgn -= 2 {
								wv, wr := witReps(v, n)[(v+at[0])%4], witReps(r, n)[(r+at[1])%4]
								cm, tok := zk.PedCommitR(cp, wv, wr), zk.CommitR(cp, pk, wr)
								if t.Log(cm) != (v*gg+r*h)%n || t.Log(tok) != r*sk*h%n {
									c.Fail("N=%d G=%d H=%d: commitment to (%d,%d) is %s, token %s", n, gg, h, v, r, ecs(cm), ecs(tok))
									return
								}
								var s state
								if sgn > 0 {
									s = state{cp.Add(st.cm, cm), cp.Add(st.tok, tok)}
								} else {
									s = state{cp.Sub(st.cm, cm), cp.Sub(st.tok, tok)}
								}
								to := [2]int{md(at[0]+sgn*v, n), md(at[1]+sgn*r, n)}
								if t.Log(s.cm) != (to[0]*gg+to[1]*h)%n || t.Log(s.tok) != to[1]*sk*h%n {
									c.Fail("N=%d G=%d H=%d: total after %v %+d*(%d,%d) is %s, token %s", n, gg, h, at, sgn, v, r, ecs(s.cm), ecs(s.tok))
									return
								}
								c.Add(0, 4, 2)
								if _, old := seen[to]; !old {
									seen[to] = s
									queue = append(queue, to)
								}
							}
						}
					}
					// openings: exactly the congruent ones
					for v := 0; v < n; v++ {
						for r := 0; r < n; r++ {
							want := (v*gg+r*h)%n == (at[0]*gg+at[1]*h)%n
							for i := 0; i < 2; i++ {
								if ok := zk.Open(cp, witReps(v, n)[(i+v)%4], witReps(r, n)[(i+r)%4], st.cm); ok != want {
									c.Fail("N=%d G=%d H=%d: Open(%d,%d) of the total of %v = %v", n, gg, h, v, r, at, ok)
									return
								}
							}
							c.Add(0, 2, 2)
						}
					}
					c.Add(1, 0, 0)
					if c.Tick() {
						return
					}
				}
				if len(seen) != n*n {
					c.Fail("N=%d: %d ledger states reached", n, len(seen))
				}
				// PedCommit: commitment to the value with the randomness it returns, which opens it
				for v := -n; v < 2*n; v++ {
					for d := 0; d < n; d++ {
						withRand(&choiceReader{choices: []int{d}}, func() {
							cm, r, err := zk.PedCommit(cp, big.NewInt(int64(v)))
							if err != nil || r == nil || t.Log(cm) != md(v*gg+int(new(big.Int).Mod(r, t.params.N).Int64())*h, n) || !zk.Open(cp, big.NewInt(int64(v)), r, cm) {
								c.Fail("N=%d: PedCommit(%d) = %s, %v, %v", n, v, ecs(cm), r, err)
							}
						})
						c.Add(1, 2, 2)
					}
				}
			})
			c.Outcome("ledger explored")
			if c.Failed() || c.Stop() {
				return
			}
		}
	}
}

// ledger follows two accounts (rows) of one bank through a history.
type ledger struct {
	g          Group
	cp         CP
	sk         BI
	pk         EC
	v, r       [2]BI // true totals
	cm, tok    [2]EC // the library's running totals
	cms, toks  []EC
	N          BI
	cmR, tokR  [2]EC // reference totals
	historyLen int
}

func newLedger(g Group, cp CP, sk BI) *ledger {
	l := &ledger{g: g, cp: cp, sk: sk, pk: g.Mul(cp.H, sk), N: g.Order()}
	for i := range l.v {
		l.v[i], l.r[i] = new(big.Int), new(big.Int)
		l.cm[i], l.tok[i] = zk.Zero, zk.Zero
		l.cmR[i], l.tokR[i] = g.Mul(cp.G, new(big.Int)), g.Mul(cp.G, new(big.Int))
	}
	return l
}

func (l *ledger) clone() *ledger {
	m := *l
	return &m
}

type ledgerOp struct {
	acct int
	v, r BI
	sub  bool
}

func (o ledgerOp) String() string {
	s := "+"
	if o.sub {
		s = "-"
	}
	return fmt.Sprintf("%s%d:(%s,%s)", s, o.acct, o.v.Text(10), o.r.Text(10))
}

func (l *ledger) apply(c *Ctx, o ledgerOp) {
	cm, tok := zk.PedCommitR(l.cp, o.v, o.r), zk.CommitR(l.cp, l.pk, o.r)
	rc := l.g.Add(l.g.Mul(l.cp.G, o.v), l.g.Mul(l.cp.H, o.r))
	rt := l.g.Mul(l.pk, o.r)
	if !sameEC(cm, rc) || !sameEC(tok, rt) || !zk.VerifyR(l.cp, tok, l.pk, o.r) {
		c.Fail("commitment or token of %s is wrong", o)
		return
	}
	a := o.acct
	if o.sub {
		l.cm[a], l.tok[a] = l.cp.Sub(l.cm[a], cm), l.cp.Sub(l.tok[a], tok)
		l.v[a], l.r[a] = new(big.Int).Sub(l.v[a], o.v), new(big.Int).Sub(l.r[a], o.r)
		rc, rt = l.g.Neg(rc), l.g.Neg(rt)
	} else {
		l.cm[a], l.tok[a] = l.cp.Add(l.cm[a], cm), l.cp.Add(l.tok[a], tok)
		l.v[a], l.r[a] = new(big.Int).Add(l.v[a], o.v), new(big.Int).Add(l.r[a], o.r)
	}
	l.cmR[a], l.tokR[a] = l.g.Add(l.cmR[a], rc), l.g.Add(l.tokR[a], rt)
	c.Add(1, 4, 2)
}

// check tries the claims on the totals.
func (l *ledger) check(c *Ctx, what func() string, label string) {
	for a := 0; a < 2; a++ {
		if !sameEC(l.cm[a], l.cmR[a]) || !sameEC(l.tok[a], l.tokR[a]) {
			c.Fail("running totals of account %d are wrong after %s", a, what())
			return
		}
		for _, d := range []int64{0, 1, -1} {
			claim := new(big.Int).Add(l.v[a], big.NewInt(d))
			want := d == 0
			if zk.Open(l.cp, claim, l.r[a], l.cm[a]) != want || d != 0 && zk.Open(l.cp, l.v[a], new(big.Int).Add(l.r[a], big.NewInt(d)), l.cm[a]) {
				c.Fail("opening account %d with total%+d after %s", a, d, what())
				return
			}
			if zk.VerifyR(l.cp, l.tok[a], l.pk, new(big.Int).Add(l.r[a], big.NewInt(d))) != want {
				c.Fail("token of account %d with randomness%+d after %s", a, d, what())
				return
			}
			// consistency of commitment and token with the claimed total
			p, err := zk.NewConsistencyProof(l.cp, l.cm[a], l.tok[a], l.pk, claim, l.r[a])
			ok := err == nil
			if ok {
				ok, err = p.Verify(l.cp, l.cm[a], l.tok[a], l.pk)
			}
			if ok != want {
				c.Fail("consistency proof for total%+d of account %d: %v %v after %s", d, a, ok, err, what())
				return
			}
			// audit: the bank shows that commitment - claim*G and token have the log of its key
			rest := l.cp.Sub(l.cm[a], l.cp.Mult(l.cp.G, claim))
			e, err := zk.NewEquivalenceProof(l.cp, rest, l.tok[a], l.cp.H, l.pk, l.sk)
			ok = err == nil
			if ok {
				ok, err = e.Verify(l.cp, rest, l.tok[a], l.cp.H, l.pk)
			}
			if ok != want {
				c.Fail("audit proof for total%+d of account %d: %v %v after %s", d, a, ok, err, what())
				return
			}
			if want {
				// the proof does not support another total
				other := l.g.Add(rest, l.cp.G)
				if ok, _ := e.Verify(l.cp, other, l.tok[a], l.cp.H, l.pk); ok {
					c.Fail("the audit proof of account %d is accepted for another total after %s", a, what())
					return
				}
			}
			c.Add(0, 7, 5)
		}
	}
	// inequality of the two totals
	diff := new(big.Int).Mod(new(big.Int).Sub(l.v[0], l.v[1]), l.N)
	for _, d := range []int64{0, 1} {
		a := new(big.Int).Add(l.v[0], big.NewInt(d))
		q, err := zk.NewInequalityProof(l.cp, l.cm[0], l.cm[1], l.tok[0], l.tok[1], a, l.v[1], l.sk)
		ok := err == nil
		if ok {
			ok, err = q.Verify(l.cp, l.g.Add(l.cmR[0], l.g.Neg(l.cmR[1])), l.g.Add(l.tokR[0], l.g.Neg(l.tokR[1])))
		}
		want := d == 0 && diff.Sign() != 0
		if ok != want {
			c.Fail("inequality proof for totals %s%+d and %s: %v %v after %s", l.v[0], d, l.v[1], ok, err, what())
			return
		}
		c.Outcome(fmt.Sprintf("inequality verdict %v", ok))
		c.Add(0, 2, 1)
	}
	c.Outcome("state checked")
}

func c14Histories(c *Ctx, name string, g Group, cp CP, ops []ledgerOp, depth int) {
	var hist []int
	var rec func(l *ledger)
	rec = func(l *ledger) {
		if c.Stop() {
			return
		}
		what := func() string {
			s := ""
			for _, i := range hist {
				s += " " + ops[i].String()
			}
			return "history" + s
		}
		if c.Case("%s:%s", name, what()) {
			c.Guard("ledger", func() {
				withRand(newStream(fmt.Sprint("c14", hist)), func() {
					// replay the history, so that every case stands for itself
					m := newLedger(g, cp, l.sk)
					for _, i := range hist {
						m.apply(c, ops[i])
						if c.Failed() {
							return
						}
					}
					m.check(c, what, name)
				})
			})
		}
		if len(hist) == depth || c.stopped {
			return
		}
		for i := range ops {
			hist = append(hist, i)
			rec(l)
			hist = hist[:len(hist)-1]
		}
	}
	rec(newLedger(g, cp, big.NewInt(0x1234567)))
}

func ledgerOps(N BI) []ledgerOp {
	n1 := new(big.Int).Sub(N, one)
	b := func(x int64) BI { return big.NewInt(x) }
	return []ledgerOp{
		{0, b(1), b(1), false}, {0, b(-1), n1, false}, {0, b(5), b(0), false},
		{1, b(1), b(2), false}, {1, n1, b(-3), false}, {1, b(4), new(big.Int).Add(N, b(7)), true}, {0, b(0), b(0), true},
		{0, new(big.Int).Add(N, b(4)), b(1), true},
	}
}

func init() {
	ck := &Check{ID: "C14", Level: "model_checking",
		Rule:        "state = a ledger's running totals after a history of transactions; transition = one transaction added or subtracted through the library; totals, openings, consistency, audit and inequality verdicts must be the model's in every state",
		Assumptions: []string{"false claims are tried with total and randomness off by one; all claims are tried on the small groups"}}
	add := func(name, tier, bound string, run func(*Ctx)) {
		ck.Units = append(ck.Units, Unit{Name: name, Tier: tier, Bound: bound, Run: run})
	}
	for _, n := range []int{3, 5, 7, 11, 13} {
		n := n
		add(fmt.Sprintf("toy-%d", n), "", "all reachable (value, randomness) totals, all transactions from each in both directions, all claimed openings, all H", func(c *Ctx) { c14Toy(c, n) })
	}
	add("toy-x0-7", "", "the same on a curve that has points with x = 0", func(c *Ctx) { c14Toy(c, -7) })
	add("toy-19", "thorough", "the same", func(c *Ctx) { c14Toy(c, 19) })
	add("model-group", "", "all histories of up to 5 (thorough 6) of 8 transactions on two accounts, on the model group with two choices of generators", func(c *Ctx) {
		z := newZn(znN)
		d := 5
		if c.Thorough {
			d = 6
		}
		c14Histories(c, "model group", znGroup{z}, z.CP(31, 0), ledgerOps(z.params.N), d)
		c14Histories(c, "model group, other generators", znGroup{z}, z.CPG(17, 31, 0), ledgerOps(z.params.N), d-1)
	})
	add("secp", "", "all histories of up to 2 (thorough 3) transactions on secp256k1, library parameters and swapped generators", func(c *Ctx) {
		d := 2
		if c.Thorough {
			d = 3
		}
		c14Histories(c, "secp256k1", secp, zk.TestCurve, ledgerOps(sN), d)
		c14Histories(c, "secp256k1, swapped generators", secp, realParams()[3], ledgerOps(sN), d)
	})
	c14SingleUnits(add)
	stdUnits(ck, "std-", "all histories of up to 1 (thorough 2) of 8 transactions", func(c *Ctx, g stdGroup) {
		d := 1
		if c.Thorough {
			d = 2
		}
		c14Histories(c, g.c.Params().Name, g, g.CP(31, 0), ledgerOps(g.n), d)
	})
	register(ck)
}
