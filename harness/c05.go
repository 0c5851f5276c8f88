package zkmc

import (
	"fmt"
	"math/big"
	"math/bits"

	zk "github.com/mit-dci/zksigma"
)

// rangeHonest proves one in-range value and checks everything promised for it.
func rangeHonest(c *Ctx, cp CP, g Group, v BI, label string) {
	c.Guard("range prover/verifier", func() {
		vv := new(big.Int).Set(v)
		p, r, err := zk.NewRangeProof(cp, vv)
		if err != nil || p == nil || r == nil {
			c.Fail("no proof for %v: proof %v blinding %v err %v (%s)", v, p != nil, r, err, label)
			return
		}
		comm := g.Add(g.Mul(cp.G, v), g.Mul(cp.H, r))
		if !sameEC(p.ProofAggregate, comm) {
			c.Fail("value %v: the aggregate %s is not the commitment with the returned blinding factor %s (%s)", v, ecs(p.ProofAggregate), ecs(comm), label)
			return
		}
		if ok, err := p.Verify(cp, comm); !ok || err != nil {
			c.Fail("value %v: honest proof rejected: %v %v (%s)", v, ok, err, label)
			return
		}
		if !zk.Open(cp, v, r, comm) {
			c.Fail("value %v: the commitment does not open (%s)", v, label)
			return
		}
		q, err := zk.NewRangeProofFromBytes(p.Bytes())
		if err != nil {
			c.Fail("value %v: decoding the proof's own bytes: %v (%s)", v, err, label)
			return
		}
		if ok, err := q.Verify(cp, comm); !ok || err != nil {
			c.Fail("value %v: proof rejected after serialization: %v %v (%s)", v, ok, err, label)
			return
		}
		c.Outcome("accepted")
	})
	c.Add(1, 4, 1)
}

func rangeRefused(c *Ctx, cp CP, v BI) {
	c.Guard("range prover", func() {
		p, _, err := zk.NewRangeProof(cp, new(big.Int).Set(v))
		if err == nil || p != nil {
			c.Fail("value %v outside [0,2^40): proof %v, err %v", v, p != nil, err)
			return
		}
		c.Outcome("refused")
	})
	c.Add(1, 1, 1)
}

// rangeValues: in-range values with at most k bits set or clear, and a dense low part.
func rangeValues(k, low int) []uint64 {
	const full = 1<<40 - 1
	seen := map[uint64]bool{}
	var l []uint64
	add := func(v uint64) {
		v &= full
		if !seen[v] {
			seen[v] = true
			l = append(l, v)
		}
	}
	for i := 0; i < 40; i++ {
		add(1 << i)
		add(1<<i - 1)
		add(1<<i + 1)
		add(full ^ 1<<i)
		add(full >> i)
		add(full << i)
		if k >= 2 {
			for j := 0; j < i; j++ {
				add(1<<i | 1<<j)
				add(full ^ (1<<i | 1<<j))
				if k >= 3 {
					for m := 0; m < j; m++ {
						add(1<<i | 1<<j | 1<<m)
					}
				}
			}
		}
	}
	add(0xaaaaaaaaaa)
	add(0x5555555555)
	add(0x123456789a)
	for v := 0; v < low; v++ {
		add(uint64(v))
		add(full - uint64(v))
		add(bits.Reverse64(uint64(v)) >> 24)
	}
	return l
}

func outOfRange() []BI {
	var l []BI
	p40 := pow2(40)
	for d := int64(0); d < 40; d++ {
		l = append(l, new(big.Int).Add(p40, big.NewInt(d)), big.NewInt(-1-d))
	}
	for i := uint(0); i < 300; i++ {
		if i >= 40 {
			l = append(l, pow2(i), new(big.Int).Add(pow2(i), one))
		}
		if i > 40 {
			l = append(l, new(big.Int).Sub(pow2(i), one))
		}
		l = append(l, new(big.Int).Neg(pow2(i)))
		// small value hidden under a high bit or a negative multiple of 2^i
		if i >= 40 {
			l = append(l, new(big.Int).Sub(big.NewInt(5), pow2(i)))
		}
	}
	for _, n := range []BI{sN, new(big.Int).SetUint64(znN)} {
		for d := int64(-3); d <= 3; d++ {
			l = append(l, new(big.Int).Add(n, big.NewInt(d)), new(big.Int).Add(new(big.Int).Neg(n), big.NewInt(d)))
		}
	}
	return l
}

func c05Zn(c *Ctx) {
	z := newZn(znN)
	g := znGroup{z}
	k, low := 2, 4096
	if c.Thorough {
		k, low = 3, 1<<17
	}
	hs := []uint64{3, 1, znN - 1, 0x1234567890abcd}
	for i, v := range rangeValues(k, low) {
		if !c.Case("range proof of %d on the model group", v) {
			continue
		}
		h := hs[i%len(hs)]
		cp := z.CPG([]uint64{1, 1, 77, znN - 1, h}[i%5], h, 64)
		if i%3 == 1 {
			cp.HPoints = cp.HPoints[:40]
		}
		withRand(newStream(fmt.Sprintf("c05 %d", v)), func() { rangeHonest(c, cp, g, new(big.Int).SetUint64(v), "stream") })
		if i < 400 || c.Thorough && i < 5000 {
			for _, cst := range []int64{0, 1, znN - 1} {
				if cst == 0 && h == 1 {
					// kH + ... all draws zero: kept, the proof still verifies
				}
				withRand(&choiceReader{rest: cst}, func() { rangeHonest(c, cp, g, new(big.Int).SetUint64(v), fmt.Sprintf("all draws %d", cst)) })
			}
		}
		if c.Stop() {
			return
		}
	}
}

func c05Refuse(c *Ctx) {
	z := newZn(znN)
	for pi, cp := range []CP{zk.TestCurve, z.CP(3, 64)} {
		for _, v := range outOfRange() {
			if !c.Case("range prover on %v, params %d", v, pi) {
				continue
			}
			rangeRefused(c, cp, v)
		}
	}
}

func c05Secp(c *Ctx) {
	vals := rangeValues(1, 16)
	if c.Thorough {
		vals = rangeValues(2, 256)
	}
	ps := realParams()
	for i, v := range vals {
		if !c.Case("range proof of %d on secp256k1", v) {
			continue
		}
		for pi, cp := range ps {
			if pi > 0 && i%8 != pi && !c.Thorough {
				continue
			}
			sets := drawSets(false)
			for si, mkr := range sets {
				if si > 0 && i%40 != si {
					continue
				}
				withRand(mkr(fmt.Sprintf("c05s %d %d %d", v, pi, si)), func() {
					rangeHonest(c, cp, secpGroup{}, new(big.Int).SetUint64(v), fmt.Sprintf("params %d, draws %d", pi, si))
				})
				c.Alive()
			}
		}
		if c.Stop() {
			return
		}
	}
}

func init() {
	ck := &Check{ID: "C05", Level: "model_checking",
		Rule:        "state = one (parameters, value, draws): proved, opened against the returned blinding factor with reference arithmetic, verified before and after serialization; or, outside the range, refused",
		Assumptions: []string{"values are enumerated by bit pattern (all with at most 2, thorough 3, bits set or 2 clear, all low, high and bit-reversed values up to a bound), since the prover treats each bit by its own code path", "the model group is a cyclic group dressed as a curve"},
		Units: []Unit{
			{Name: "model-group", Bound: "values with <=2 (thorough 3) set or <=2 clear bits, the lowest and highest 4096 (131072), their bit reversals; 4 choices of H, 5 of G; random and extreme draws", Run: c05Zn},
			{Name: "secp", Bound: "values with one bit set or clear, runs of ones, neighbours, 0..15; four parameter sets; extreme draws", Run: c05Secp},
			{Name: "refused", Bound: "values around 2^40, negatives, powers of two up to 2^300 and neighbours, around the group orders", Run: c05Refuse},
		}}
	stdUnits(ck, "std-", "boundary values inside and outside the range, two choices of H,", stdRange)
	register(ck)
}
