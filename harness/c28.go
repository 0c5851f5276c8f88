package zkmc

import (
	"fmt"
	"math/big"

	zk "github.com/mit-dci/zksigma"
)

// A ledger as in zkLedger: one column per account, one entry per account and row. An entry
// is a commitment to the amount with its token, a second commitment (to the amount, or, for the
// payer, to what is left in the account) with its token, and the proofs that tie them together.

type column struct {
	sk      BI
	pk      EC
	CM, TM  EC // sums of the column
	C, CT   EC // sums of the ABC proofs' commitments
	bal, r  BI
	count   int64
	history []ledgerEntry
}

type ledgerEntry struct {
	cm, tok, cm2, tok2 EC
	cons, cons2        *zk.ConsistencyProof
	link               *zk.DisjunctiveProof
	rp                 *zk.RangeProof
	abc                *zk.ABCProof
	v, r, w, r2        BI // what the commitments hold
}

type zkLedger struct {
	cp   CP
	g    Group
	acc  []*column
	wire bool // proofs travel as bytes
	rnd  *stream
	rows int
}

func newZkLedger(cp CP, g Group, bals []BI, wire bool, seed string) (*zkLedger, error) {
	l := &zkLedger{cp: cp, g: g, wire: wire, rnd: newStream("ledger " + seed)}
	for i, b := range bals {
		sk := big.NewInt(int64(1001 + 77*i))
		a := &column{sk: sk, pk: g.Mul(cp.H, sk), CM: zk.Zero, TM: zk.Zero, C: zk.Zero, CT: zk.Zero, bal: new(big.Int), r: new(big.Int)}
		l.acc = append(l.acc, a)
		// the opening balance is committed to by the issuer
		r := l.rnd.scalar(g.Order())
		e := ledgerEntry{cm: zk.PedCommitR(cp, b, r), tok: zk.CommitR(cp, a.pk, r)}
		p, err := zk.NewConsistencyProof(cp, e.cm, e.tok, a.pk, b, r)
		if err == nil {
			_, err = p.Verify(cp, e.cm, e.tok, a.pk)
		}
		e.cons, e.v, e.r = p, b, r
		if err != nil {
			return nil, fmt.Errorf("opening balance: %v", err)
		}
		if err := l.book(i, e, b, r); err != nil {
			return nil, err
		}
	}
	return l, nil
}

// book adds an entry to its column; the holder adds the ABC proof.
func (l *zkLedger) book(i int, e ledgerEntry, v, r BI) error {
	a := l.acc[i]
	side, bit := zk.Right, int64(1)
	if v.Sign() == 0 {
		side, bit = zk.Left, 0
	}
	p, err := zk.NewABCProof(l.cp, e.cm, e.tok, v, a.sk, side)
	if err != nil {
		return fmt.Errorf("ABC proof: %v", err)
	}
	if l.wire {
		if p, err = zk.NewABCProofFromBytes(p.Bytes()); err != nil {
			return fmt.Errorf("ABC proof: %v", err)
		}
	}
	if ok, err := p.Verify(l.cp, e.cm, e.tok); !ok {
		return fmt.Errorf("ABC proof: %v", err)
	}
	// the other side is not provable
	if q, err := zk.NewABCProof(l.cp, e.cm, e.tok, v, a.sk, 1-side); err == nil {
		if ok, _ := q.Verify(l.cp, e.cm, e.tok); ok {
			return fmt.Errorf("an ABC proof of the wrong side verifies")
		}
	}
	e.abc = p
	a.CM, a.TM = l.cp.Add(a.CM, e.cm), l.cp.Add(a.TM, e.tok)
	a.C, a.CT = l.cp.Add(a.C, p.C), l.cp.Add(a.CT, p.CToken)
	a.bal, a.r = new(big.Int).Add(a.bal, v), new(big.Int).Add(a.r, r)
	a.count += bit
	a.history = append(a.history, e)
	return nil
}

// plan says how an entry is made: v the amount, w what the second commitment holds, left whether
// the link is to the running total (with key linkKey), tokKey the key the tokens are made with.
type plan struct {
	v, w    BI
	left    bool
	linkKey BI
	tokKey  EC
	other   bool // the range proof is about a commitment of its own
	// parts of entries that were booked before, for this or another account
	first, second *ledgerEntry
}

// make builds one entry with whatever the library is willing to prove; a refused proof stays nil.
func (l *zkLedger) make(i int, p plan, r BI) (e ledgerEntry, refused string) {
	cp, a := l.cp, l.acc[i]
	note := func(what string, err error) {
		if err != nil && refused == "" {
			refused = what + ": " + err.Error()
		}
	}
	var r2 BI
	var err error
	e.rp, r2, err = zk.NewRangeProof(cp, p.w)
	note("range", err)
	if err != nil {
		e.rp, r2 = nil, l.rnd.scalar(l.g.Order())
	}
	if p.other {
		r2 = new(big.Int).Add(r2, one)
	}
	e.cm, e.tok = zk.PedCommitR(cp, p.v, r), zk.CommitR(cp, p.tokKey, r)
	e.cm2, e.tok2 = zk.PedCommitR(cp, p.w, r2), zk.CommitR(cp, p.tokKey, r2)
	e.cons, err = zk.NewConsistencyProof(cp, e.cm, e.tok, p.tokKey, p.v, r)
	note("consistency", err)
	e.cons2, err = zk.NewConsistencyProof(cp, e.cm2, e.tok2, p.tokKey, p.w, r2)
	note("second consistency", err)
	if o := p.first; o != nil {
		e.cm, e.tok, e.cons, r = o.cm, o.tok, o.cons, o.r
	}
	if o := p.second; o != nil {
		e.cm2, e.tok2, e.cons2, e.rp, r2 = o.cm2, o.tok2, o.cons2, o.rp, o.r2
	}
	e.v, e.r, e.w, e.r2 = p.v, r, p.w, r2
	b1, r1 := cp.Sub(cp.Add(a.CM, e.cm), e.cm2), cp.Sub(cp.Add(a.TM, e.tok), e.tok2)
	rest := cp.Sub(e.cm, e.cm2)
	if p.left {
		e.link, err = zk.NewDisjunctiveProof(cp, b1, r1, cp.H, rest, p.linkKey, zk.Left)
	} else {
		e.link, err = zk.NewDisjunctiveProof(cp, b1, r1, cp.H, rest, new(big.Int).Sub(r, r2), zk.Right)
	}
	note("link", err)
	if l.wire && refused == "" {
		if e.rp, err = zk.NewRangeProofFromBytes(e.rp.Bytes()); err != nil {
			note("range decoding", err)
		}
		if e.cons, err = zk.NewConsistencyProofFromBytes(e.cons.Bytes()); err != nil {
			note("consistency decoding", err)
		}
		if e.cons2, err = zk.NewConsistencyProofFromBytes(e.cons2.Bytes()); err != nil {
			note("consistency decoding", err)
		}
		if e.link, err = zk.NewDisjunctiveProofFromBytes(e.link.Bytes()); err != nil {
			note("link decoding", err)
		}
	}
	return
}

// accepts is what every participant checks before a row is booked.
func (l *zkLedger) accepts(row []ledgerEntry) (bool, string) {
	cp := l.cp
	sum := zk.Zero
	for i, e := range row {
		a := l.acc[i]
		sum = cp.Add(sum, e.cm)
		if ok, err := e.cons.Verify(cp, e.cm, e.tok, a.pk); !ok || err != nil {
			return false, "consistency"
		}
		if ok, err := e.cons2.Verify(cp, e.cm2, e.tok2, a.pk); !ok || err != nil {
			return false, "second consistency"
		}
		b1, r1 := cp.Sub(cp.Add(a.CM, e.cm), e.cm2), cp.Sub(cp.Add(a.TM, e.tok), e.tok2)
		if ok, err := e.link.Verify(cp, b1, r1, cp.H, cp.Sub(e.cm, e.cm2)); !ok || err != nil {
			return false, "link"
		}
		if ok, err := e.rp.Verify(cp, e.cm2); !ok || err != nil {
			return false, "range"
		}
	}
	if !sum.Equal(zk.Zero) {
		return false, "sum"
	}
	return true, ""
}

// randomness that adds up to zero
func (l *zkLedger) randomness() []BI {
	N := l.g.Order()
	rs := make([]BI, len(l.acc))
	sum := new(big.Int)
	for i := range rs {
		rs[i] = l.rnd.scalar(N)
		if i == len(rs)-1 {
			rs[i] = new(big.Int).Sub(N, sum)
		}
		sum.Mod(sum.Add(sum, rs[i]), N)
	}
	return rs
}

// plans for an honest payment
func (l *zkLedger) plans(from, to int, amount BI) []plan {
	ps := make([]plan, len(l.acc))
	for i, a := range l.acc {
		ps[i] = plan{v: new(big.Int), w: new(big.Int), tokKey: a.pk}
		switch i {
		case from:
			ps[i].v = new(big.Int).Neg(amount)
			ps[i].w = new(big.Int).Sub(a.bal, amount)
			ps[i].left, ps[i].linkKey = true, a.sk
		case to:
			ps[i].v, ps[i].w = amount, amount
		}
	}
	return ps
}

func (l *zkLedger) row(ps []plan, rs []BI) (row []ledgerEntry, refused string) {
	for i := range l.acc {
		e, ref := l.make(i, ps[i], rs[i])
		if ref != "" && refused == "" {
			refused = fmt.Sprintf("account %d: %s", i, ref)
		}
		row = append(row, e)
	}
	return
}

func inRange40(v BI) bool { return v.Sign() >= 0 && v.BitLen() <= 40 }

// pay makes an honest payment; legal says whether it has to go through.
func (l *zkLedger) pay(c *Ctx, from, to int, amount BI, what string) bool {
	left := new(big.Int).Sub(l.acc[from].bal, amount)
	legal := inRange40(left) && inRange40(amount)
	ps, rs := l.plans(from, to, amount), l.randomness()
	row, refused := l.row(ps, rs)
	ok, why := l.accepts(row)
	c.Add(1, int64(8*len(row)), 1)
	if ok != legal {
		c.Fail("%s: paying %d from %d to %d with %d in the account: accepted=%v (%s) refused=%q", what, amount, from, to, l.acc[from].bal, ok, why, refused)
		return false
	}
	if !ok {
		c.Outcome("payment not possible")
		return false
	}
	c.Outcome("payment booked")
	for i, e := range row {
		if err := l.book(i, e, ps[i].v, rs[i]); err != nil {
			c.Fail("%s: booking %d from %d to %d, account %d: %v", what, amount, from, to, i, err)
			return false
		}
	}
	l.rows++
	return true
}

// audit: every holder proves exactly its true balance and its true number of non-zero entries.
func (l *zkLedger) audit(c *Ctx, what string, span int64) {
	cp := l.cp
	total := zk.Zero
	for i, a := range l.acc {
		other := l.acc[(i+1)%len(l.acc)]
		total = cp.Add(total, a.CM)
		if !zk.Open(cp, a.bal, a.r, a.CM) || !zk.VerifyR(cp, a.TM, a.pk, a.r) {
			c.Fail("%s: the column of account %d does not open to its balance %d", what, i, a.bal)
			return
		}
		for d := -span; d <= span; d++ {
			for k, pts := range [][3]interface{}{{a.CM, a.TM, a.bal}, {a.C, a.CT, big.NewInt(a.count)}} {
				kind := []string{"balance", "number of non-zero entries"}[k]
				claim := new(big.Int).Add(pts[2].(BI), big.NewInt(d))
				rest, tok := cp.Sub(pts[0].(EC), cp.Mult(cp.G, claim)), pts[1].(EC)
				p, err := zk.NewEquivalenceProof(cp, rest, tok, cp.H, a.pk, a.sk)
				ok := err == nil
				if ok && l.wire {
					p, err = zk.NewEquivalenceProofFromBytes(p.Bytes())
					ok = err == nil
				}
				if ok {
					ok, _ = p.Verify(cp, rest, tok, cp.H, a.pk)
				}
				c.Add(0, 3, 1)
				if ok != (d == 0) {
					c.Fail("%s: account %d proves %s %d, true is %d: %v %v", what, i, kind, claim, pts[2], ok, err)
					return
				}
				if d != 0 {
					continue
				}
				if ok, _ := p.Verify(cp, rest, tok, cp.H, other.pk); ok {
					c.Fail("%s: the audit proof of account %d is accepted for another account's key", what, i)
					return
				}
				if ok, _ := p.Verify(cp, cp.Add(rest, cp.G), tok, cp.H, a.pk); ok {
					c.Fail("%s: the audit proof of account %d is accepted for another %s", what, i, kind)
					return
				}
				if q, err := zk.NewEquivalenceProof(cp, rest, tok, cp.H, other.pk, other.sk); err == nil {
					if ok, _ := q.Verify(cp, rest, tok, cp.H, other.pk); ok {
						c.Fail("%s: another account proves the %s of account %d", what, kind, i)
						return
					}
				}
			}
		}
		// two accounts hold different amounts: the difference can be proved unequal exactly then
		d := new(big.Int).Sub(a.bal, big.NewInt(1))
		r := big.NewInt(5)
		q, err := zk.NewInequalityProof(cp, a.CM, zk.PedCommitR(cp, d, r), a.TM, zk.CommitR(cp, a.pk, r), a.bal, d, a.sk)
		ok := err == nil
		if ok {
			ok, err = q.Verify(cp, cp.Sub(a.CM, zk.PedCommitR(cp, d, r)), cp.Sub(a.TM, zk.CommitR(cp, a.pk, r)))
		}
		if !ok {
			c.Fail("%s: account %d does not prove that its balance is not %d: %v", what, i, d, err)
			return
		}
		if q, err := zk.NewInequalityProof(cp, a.CM, zk.PedCommitR(cp, a.bal, r), a.TM, zk.CommitR(cp, a.pk, r), a.bal, a.bal, a.sk); err == nil {
			if ok, _ := q.Verify(cp, cp.Sub(a.CM, zk.PedCommitR(cp, a.bal, r)), cp.Sub(a.TM, zk.CommitR(cp, a.pk, r))); ok {
				c.Fail("%s: account %d proves that its balance is not itself", what, i)
				return
			}
		}
	}
	sum := new(big.Int)
	rsum := new(big.Int)
	for _, a := range l.acc {
		sum.Add(sum, a.bal)
		rsum.Add(rsum, a.r)
	}
	if !total.Equal(zk.PedCommitR(cp, sum, rsum)) {
		c.Fail("%s: the columns do not add up to what was issued", what)
	}
	c.Outcome("audit as it should be")
}

// cheats lists the rows that must not go through in the present state.
func (l *zkLedger) cheats(f func(name string, row func() []ledgerEntry) bool) {
	n := len(l.acc)
	b := big.NewInt
	plus := func(x BI, d int64) BI { return new(big.Int).Add(x, b(d)) }
	build := func(ps []plan) func() []ledgerEntry {
		return func() []ledgerEntry { row, _ := l.row(ps, l.randomness()); return row }
	}
	for from := 0; from < n; from++ {
		to := (from + 1) % n
		bal := l.acc[from].bal
		add := func(name string, amount BI, change func(ps []plan)) bool {
			ps := l.plans(from, to, amount)
			change(ps)
			return f(fmt.Sprintf("%s (%d pays %d)", name, from, to), build(ps))
		}
		// more than there is, the second commitment to something small
		for _, w := range []BI{b(0), b(1), bal, plus(bal, 1)} {
			for _, left := range []bool{true, false} {
				w, left := w, left
				if !add(fmt.Sprintf("overdraft, rest said to be %d, left=%v", w, left), plus(bal, 1), func(ps []plan) { ps[from].w, ps[from].left = w, left }) {
					return
				}
			}
		}
		// taking from an account without its key
		for _, w := range []BI{b(0), b(1), plus(l.acc[to].bal, -1)} {
			for _, left := range []bool{true, false} {
				w, left := w, left
				if !add(fmt.Sprintf("taking 1, rest said to be %d, left=%v", w, left), b(-1), func(ps []plan) {
					ps[to].w, ps[to].left, ps[to].linkKey = w, left, l.acc[from].sk
				}) {
					return
				}
			}
		}
		one := b(0)
		if bal.Sign() > 0 && inRange40(plus(bal, -1)) {
			one = b(1)
		}
		if !add("one more arrives than leaves", one, func(ps []plan) { ps[to].v, ps[to].w = plus(one, 1), plus(one, 1) }) ||
			!add("one more leaves than arrives", one, func(ps []plan) { ps[to].v, ps[to].w = b(0), b(0); ps[from].v = plus(ps[from].v, -1) }) ||
			!add("tokens for the payer's key", one, func(ps []plan) { ps[to].tokKey = l.acc[from].pk }) ||
			!add("tokens for G", one, func(ps []plan) { ps[to].tokKey = l.cp.G }) ||
			!add("payer's tokens for the payee's key", one, func(ps []plan) { ps[from].tokKey = l.acc[to].pk }) ||
			!add("range proof for another commitment", one, func(ps []plan) { ps[to].other = true }) ||
			!add("payer's rest one higher", one, func(ps []plan) { ps[from].w = plus(ps[from].w, 1) }) ||
			!add("payee's second commitment one higher", one, func(ps []plan) { ps[to].w = plus(ps[to].w, 1) }) {
			return
		}
		// honest rows with parts from elsewhere
		honest := func(change func(row []ledgerEntry)) func() []ledgerEntry {
			return func() []ledgerEntry {
				row, _ := l.row(l.plans(from, to, one), l.randomness())
				change(row)
				return row
			}
		}
		parts := []struct {
			name string
			do   func(d *ledgerEntry, s ledgerEntry)
		}{
			{"consistency proof", func(d *ledgerEntry, s ledgerEntry) { d.cons = s.cons }},
			{"second consistency proof", func(d *ledgerEntry, s ledgerEntry) { d.cons2 = s.cons2 }},
			{"link", func(d *ledgerEntry, s ledgerEntry) { d.link = s.link }},
			{"range proof", func(d *ledgerEntry, s ledgerEntry) { d.rp = s.rp }},
			{"token", func(d *ledgerEntry, s ledgerEntry) { d.tok = s.tok }},
			{"second token", func(d *ledgerEntry, s ledgerEntry) { d.tok2 = s.tok2 }},
			{"commitment", func(d *ledgerEntry, s ledgerEntry) { d.cm = s.cm }},
			{"second commitment", func(d *ledgerEntry, s ledgerEntry) { d.cm2 = s.cm2 }},
			{"second commitment, token and proofs", func(d *ledgerEntry, s ledgerEntry) { d.cm2, d.tok2, d.cons2, d.rp = s.cm2, s.tok2, s.cons2, s.rp }},
			{"whole entry", func(d *ledgerEntry, s ledgerEntry) { *d = s }},
		}
		for _, p := range parts {
			p := p
			if !f(fmt.Sprintf("%s of the other entry (%d pays %d)", p.name, from, to), honest(func(row []ledgerEntry) { p.do(&row[from], row[to]) })) {
				return
			}
			for _, i := range []int{from, to} {
				i := i
				h := l.acc[i].history
				if len(h) < 2 {
					continue
				}
				if !f(fmt.Sprintf("%s of an earlier row in entry %d (%d pays %d)", p.name, i, from, to), honest(func(row []ledgerEntry) { p.do(&row[i], h[len(h)-1]) })) {
					return
				}
			}
			if !f(fmt.Sprintf("%s missing (%d pays %d)", p.name, from, to), honest(func(row []ledgerEntry) {
				p.do(&row[to], ledgerEntry{cm: row[to].cm, tok: row[to].tok, cm2: row[to].cm2, tok2: row[to].tok2})
				if p.name == "token" || p.name == "second token" || p.name == "commitment" || p.name == "second commitment" {
					p.do(&row[to], ledgerEntry{cm: zk.Zero, tok: zk.Zero, cm2: zk.Zero, tok2: zk.Zero})
				}
			})) {
				return
			}
		}
		if !f(fmt.Sprintf("entries exchanged (%d pays %d)", from, to), honest(func(row []ledgerEntry) { row[from], row[to] = row[to], row[from] })) {
			return
		}
		// entries of another account, each with a new link that fits
		for j := range l.acc {
			if j == to {
				continue
			}
			for hi := range l.acc[j].history {
				o := &l.acc[j].history[hi]
				if o.v.Sign() < 0 || o.v.Cmp(bal) > 0 || !inRange40(new(big.Int).Sub(bal, o.v)) {
					continue
				}
				for part := 1; part < 4; part++ {
					if part > 1 && (o.cm2.X == nil || o.w.Cmp(o.v) != 0) {
						continue
					}
					ps := l.plans(from, to, o.v)
					rs := l.randomness()
					if part&1 == 1 {
						ps[to].first = o
						rs[to] = o.r
						// the others make up for it
						sum := new(big.Int)
						for i := range rs {
							if i != from {
								sum.Add(sum, rs[i])
							}
						}
						rs[from] = sum.Neg(sum)
						rs[from].Mod(rs[from], l.g.Order())
					}
					if part&2 == 2 {
						ps[to].second = o
					}
					if !f(fmt.Sprintf("entry %d of account %d used for account %d, parts %d (%d pays %d)", hi, j, to, part, from, to), func() []ledgerEntry {
						row, _ := l.row(ps, rs)
						return row
					}) {
						return
					}
				}
			}
		}
		h1, h2 := l.acc[from].history, l.acc[to].history
		if len(h1) > 1 && n == 2 {
			// A row with a payment of nothing can go twice only if the link says nothing about the total;
			// the payer's does.
			last := []ledgerEntry{h1[len(h1)-1], h2[len(h2)-1]}
			if from == 1 {
				last[0], last[1] = last[1], last[0]
			}
			if !f("the last row once more", func() []ledgerEntry { return append([]ledgerEntry(nil), last...) }) {
				return
			}
		}
	}
}

type payment struct {
	from, to int
	amount   string // "0", "1", "all", "big"
}

func (p payment) String() string { return fmt.Sprintf("%d>%d:%s", p.from, p.to, p.amount) }

func (p payment) value(l *zkLedger) BI {
	switch p.amount {
	case "0":
		return new(big.Int)
	case "1":
		return big.NewInt(1)
	case "all":
		return l.acc[p.from].bal
	case "over":
		return new(big.Int).Add(l.acc[p.from].bal, one)
	case "minus":
		return big.NewInt(-1)
	}
	panic("amount")
}

func c28(c *Ctx, name string, g Group, cp CP, bals []BI, wire bool, depth int, withCheats bool, amounts []string) {
	var ops []payment
	for from := range bals {
		for to := range bals {
			if from != to {
				for _, a := range amounts {
					ops = append(ops, payment{from, to, a})
				}
			}
		}
	}
	var hist []payment
	var rec func()
	rec = func() {
		if c.Stop() {
			return
		}
		what := fmt.Sprintf("%s, balances %v, wire=%v, history %v", name, bals, wire, hist)
		if c.Case("%s", what) {
			c.Guard("ledger", func() {
				withRand(newStream("c28 "+what), func() {
					l, err := newZkLedger(cp, g, bals, wire, what)
					if err != nil {
						c.Fail("%s: %v", what, err)
						return
					}
					for _, p := range hist {
						l.pay(c, p.from, p.to, p.value(l), what)
						if c.Failed() {
							return
						}
					}
					l.audit(c, what, 2)
					if !withCheats || c.Failed() {
						return
					}
					l.cheats(func(cheat string, row func() []ledgerEntry) bool {
						ok, why := l.accepts(row())
						c.Add(1, 4, 1)
						if ok {
							c.Fail("%s: accepted although it must not be: %s", what, cheat)
							return false
						}
						c.Outcome("cheat rejected: " + why)
						return true
					})
				})
			})
		}
		if len(hist) == depth || c.stopped {
			return
		}
		for _, o := range ops {
			hist = append(hist, o)
			rec()
			hist = hist[:len(hist)-1]
		}
	}
	rec()
}

func init() {
	ck := &Check{ID: "C28", Level: "model_checking",
		Rule:        "state = a ledger with one column per account, reached by a history of payments; transition = one row; honest rows are accepted exactly if the payer can afford them, every row of a list of cheats is rejected in every state, and every holder proves exactly its balance and its number of non-zero entries",
		Assumptions: []string{"the cheats are those listed in cheats(): values, keys, sides and parts of proofs chosen freely, not proofs forged from scratch (C03, C04, C06 and C24 decide those)"}}
	add := func(name, tier, bound string, run func(*Ctx)) {
		ck.Units = append(ck.Units, Unit{Name: name, Tier: tier, Bound: bound, Run: run})
	}
	b := big.NewInt
	top := new(big.Int).Sub(pow2(40), one)
	all := []string{"0", "1", "all", "over", "minus"}
	add("model-group", "", "two accounts, all histories of up to 2 (3 from the first opening balances; thorough 4) payments of nothing, 1, everything, more than there is, -1; three pairs of opening balances, one at the upper end of the range; about 80 cheating rows in every state", func(c *Ctx) {
		z := newZn(znN)
		d := 2
		if c.Thorough {
			d = 4
		}
		for i, bals := range [][]BI{{b(5), b(0)}, {top, b(2)}, {b(1), b(1)}} {
			d := d
			if i == 0 && d == 2 {
				d = 3
			}
			c28(c, "model group", znGroup{z}, []CP{z.CP(31, 64), z.CPG(17, 31, 40), z.CP(znN-5, 41)}[i], bals, i != 1, d, true, all)
		}
	})
	add("model-group-long", "", "two accounts, all histories of up to 4 (thorough 6) payments of 1 or everything, no cheats", func(c *Ctx) {
		z := newZn(znN)
		d := 4
		if c.Thorough {
			d = 6
		}
		c28(c, "model group", znGroup{z}, z.CP(31, 64), []BI{b(3), b(1)}, true, d, false, []string{"1", "all"})
	})
	add("model-group-three", "", "three accounts, all histories of up to 1 (thorough 2) payments, with the cheats", func(c *Ctx) {
		z := newZn(znN)
		d := 1
		if c.Thorough {
			d = 2
		}
		c28(c, "model group", znGroup{z}, z.CP(31, 64), []BI{b(3), b(0), b(9)}, true, d, true, all)
	})
	add("secp", "", "two accounts on secp256k1, all histories of up to 1 (thorough 2) payments, with the cheats (quick: without)", func(c *Ctx) {
		d := 1
		if c.Thorough {
			d = 2
		}
		c28(c, "secp256k1", secp, zk.TestCurve, []BI{b(5), b(0)}, true, d, c.Thorough, []string{"1", "all", "over"})
	})
	register(ck)
}

// scalar draws from [1, n).
func (s *stream) scalar(n BI) BI {
	b := make([]byte, (n.BitLen()+7)/8+16)
	s.Read(b)
	k := new(big.Int).SetBytes(b)
	k.Mod(k, new(big.Int).Sub(n, one))
	return k.Add(k, one)
}
