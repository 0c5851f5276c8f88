package zkmc

import (
	"fmt"
	"math/big"

	zk "github.com/mit-dci/zksigma"
)

// intAlphabet: integers around zero, around powers of two and around multiples of the order, of
// both signs. every: at every power of two below 2^320, otherwise at word boundaries.
func intAlphabet(N BI, every bool) []BI {
	var l []BI
	seen := map[string]bool{}
	add := func(v BI) {
		for _, d := range []int64{0, 1, -1} {
			for _, s := range []int64{1, -1} {
				x := new(big.Int).Mul(new(big.Int).Add(v, big.NewInt(d)), big.NewInt(s))
				if !seen[x.String()] {
					seen[x.String()] = true
					l = append(l, x)
				}
			}
		}
	}
	add(new(big.Int))
	add(big.NewInt(5))
	if every {
		for k := uint(2); k < 320; k++ {
			add(pow2(k))
		}
	} else {
		for _, k := range []uint{7, 8, 15, 16, 31, 32, 39, 40, 52, 53, 62, 63, 64, 65, 127, 128, 191, 192, 255, 256, 257, 511, 512} {
			add(pow2(k))
		}
	}
	for k := int64(1); k <= 3; k++ {
		add(new(big.Int).Mul(N, big.NewInt(k)))
	}
	add(new(big.Int).Rsh(N, 1))
	add(new(big.Int).Lsh(N, 64))
	return l
}

// c14Single: single commitments to every pair of the lists: what they are and what opens them.
func c14Single(c *Ctx, name string, g Group, cp CP, vs, rs []BI) {
	N := g.Order()
	same := func(a, b BI) bool {
		d := new(big.Int).Sub(a, b)
		return d.Mod(d, N).Sign() == 0
	}
	for vi, v := range vs {
		if !c.Case("%s: commitments to %v with every randomness, and tokens", name, v) {
			continue
		}
		mv := new(big.Int).Mod(v, N)
		vG := g.Mul(cp.G, mv)
		pk := g.Mul(cp.H, mv)
		var n int64
		c.Guard("commitment", func() {
			for ri, r := range rs {
				mr := new(big.Int).Mod(r, N)
				want := g.Add(vG, g.Mul(cp.H, mr))
				v0, r0 := new(big.Int).Set(v), new(big.Int).Set(r)
				got := zk.PedCommitR(cp, v0, r0)
				if !sameEC(got, want) {
					c.Fail("the commitment to %v with randomness %v is %s, not %s", v, r, ecs(got), ecs(want))
					return
				}
				tok := zk.CommitR(cp, pk, r0)
				if wt := g.Mul(pk, mr); !sameEC(tok, wt) {
					c.Fail("the token of key %v with randomness %v is %s, not %s", v, r, ecs(tok), ecs(wt))
					return
				}
				if v0.Cmp(v) != 0 || r0.Cmp(r) != 0 {
					c.Fail("the commitment changed its arguments %v, %v", v, r)
				}
				n++
				// openings: congruent ones, opposite ones, shifted ones and the neighbours in the list
				for k, o := range [][2]BI{{v, r}, {new(big.Int).Add(v, N), new(big.Int).Sub(r, N)}, {mv, mr},
					{new(big.Int).Neg(v), r}, {v, new(big.Int).Neg(r)}, {new(big.Int).Add(v, one), r}, {v, new(big.Int).Add(r, one)},
					{vs[(vi+1)%len(vs)], r}, {v, rs[(ri+1)%len(rs)]}, {new(big.Int).Xor(mv, pow2(63)), r}, {v, new(big.Int).Xor(mr, pow2(64))}} {
					ok := same(o[0], v) && same(o[1], r)
					if ok2 := k < 3; ok2 && !ok {
						c.Fail("harness: opening %d", k)
					}
					// other pairs open it only if they commit to the same point
					if !ok {
						ok = sameEC(g.Add(g.Mul(cp.G, new(big.Int).Mod(o[0], N)), g.Mul(cp.H, new(big.Int).Mod(o[1], N))), want)
					}
					if zk.Open(cp, o[0], o[1], got) != ok {
						c.Fail("the commitment to %v with randomness %v: opening with %v, %v gives %v", v, r, o[0], o[1], !ok)
						return
					}
					okT := same(new(big.Int).Mul(v, o[1]), new(big.Int).Mul(v, r))
					if k != 0 && zk.VerifyR(cp, tok, pk, o[1]) != okT {
						c.Fail("the token of key %v with randomness %v: %v gives %v", v, r, o[1], !okT)
						return
					}
					n++
				}
			}
		})
		c.Add(n, n, n)
		c.OutcomeN("single commitment", n)
		c.Alive()
		if c.Stop() || c.Failed() {
			return
		}
	}
}

func c14SingleUnits(add func(name, tier, bound string, run func(*Ctx))) {
	z := newZn(znN)
	N := z.params.N
	all, few := intAlphabet(N, true), intAlphabet(N, false)
	add("single-model-group", "", fmt.Sprintf("commitments to %d values with %d randomnesses and the other way round (neighbours of all powers of two below 2^320 and of multiples of the order, both signs), 11 openings each", len(all), len(few)), func(c *Ctx) {
		rs := few
		if !c.Thorough {
			rs = nil
			for i, r := range few {
				if i%6 == 0 {
					rs = append(rs, r)
				}
			}
		}
		cp := z.CP(31, 0)
		c14Single(c, "model group", znGroup{z}, cp, all, rs)
		c14Single(c, "model group, other generators", znGroup{z}, z.CPG(17, 31, 0), rs, all)
	})
	add("single-secp", "", "the same on secp256k1 at word boundaries", func(c *Ctx) {
		vs := intAlphabet(sN, c.Thorough)
		rs := []BI{new(big.Int), big.NewInt(-77), hexInt("7f3456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef2")}
		c14Single(c, "secp256k1", secp, zk.TestCurve, vs, rs[1:])
		c14Single(c, "secp256k1", secp, zk.TestCurve, rs[:2], vs)
	})
	for _, n := range []int{5, 13, -7} {
		n := n
		add("single-toy-"+toyName(n), "", "the same on a toy curve, all H, all pairs of word boundaries", func(c *Ctx) {
			t := GetToy(n)
			l := intAlphabet(t.params.N, false)
			for h := 1; h < t.N; h++ {
				c14Single(c, fmt.Sprintf("N=%d H=%d", t.N, h), toyGroup{t}, t.CP(h, 0), l, l)
				if c.Stop() {
					return
				}
			}
		})
	}
}
