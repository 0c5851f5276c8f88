package btcec

// In-package harness for the field type, put in by an overlay. It uses the methods that the
// package's own tests use; others are used if they are there.

import (
	"fmt"
	"math/big"
	"os"
	"strconv"
	"strings"
	"testing"
)

var fP, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16)

const fMask = 1<<26 - 1
const fTop = 1<<22 - 1

type counts struct{ states, ops int64 }

var cnt counts
var failed string

func fail(format string, a ...interface{}) {
	if failed == "" {
		failed = fmt.Sprintf(format, a...)
	}
}

// raw is the number that the words stand for.
func raw(f *fieldVal) *big.Int {
	v := new(big.Int)
	for i := 9; i >= 0; i-- {
		v.Lsh(v, 26)
		v.Add(v, big.NewInt(int64(f.n[i])))
	}
	return v
}

// val is the value of a field element, through a normalized copy.
func val(f *fieldVal) *big.Int {
	g := *f
	g.Normalize()
	return packed(&g)
}

// packed reads a normalized element's words.
func packed(g *fieldVal) *big.Int {
	var w [5]uint64
	for i := 0; i < 10; i++ {
		bit := uint(26 * i)
		x := uint64(g.n[i])
		w[bit/64] += x << (bit % 64)
		if bit%64 > 38 {
			w[bit/64+1] += x >> (64 - bit%64)
		}
	}
	var b [40]byte
	for i, x := range w {
		for j := 0; j < 8; j++ {
			b[39-8*i-j] = byte(x >> (8 * uint(j)))
		}
	}
	return new(big.Int).SetBytes(b[:])
}

func canonical(g *fieldVal) bool {
	for i := 0; i < 9; i++ {
		if g.n[i] > fMask {
			return false
		}
	}
	return g.n[9] <= fTop && packed(g).Cmp(fP) < 0
}

func mod(x *big.Int) *big.Int { return new(big.Int).Mod(x, fP) }

func h64(x *big.Int) string { return fmt.Sprintf("%064x", x) }

// expect compares an element with the number it should stand for.
func expect(what string, f *fieldVal, want *big.Int) bool {
	cnt.states++
	g := *f
	r := g.Normalize()
	if r != &g {
		fail("%s: Normalize does not return its receiver", what)
		return false
	}
	w := mod(want)
	if !canonical(&g) || packed(&g).Cmp(w) != 0 {
		fail("%s: words %x stand for %x, the right value is %x", what, f.n, packed(&g), w)
		return false
	}
	if g.IsZero() != (w.Sign() == 0) || g.IsOdd() != (w.Bit(0) == 1) {
		fail("%s: IsZero %v, IsOdd %v of %x", what, g.IsZero(), g.IsOdd(), w)
		return false
	}
	return true
}

func fromInt(v *big.Int) *fieldVal { return new(fieldVal).SetHex(h64(v)) }

// values are boundary numbers below 2^256, at and above the prime too.
func values(full bool) []*big.Int {
	var l []*big.Int
	seen := map[string]bool{}
	top := new(big.Int).Lsh(big.NewInt(1), 256)
	add := func(v *big.Int) {
		v = new(big.Int).Mod(v, top)
		if !seen[v.String()] {
			seen[v.String()] = true
			l = append(l, v)
		}
	}
	for i := int64(0); i < 4; i++ {
		add(big.NewInt(i))
		add(new(big.Int).Sub(fP, big.NewInt(i)))
		add(new(big.Int).Add(fP, big.NewInt(i)))
		add(new(big.Int).Sub(top, big.NewInt(i+1)))
	}
	add(big.NewInt(977))
	add(big.NewInt(976))
	add(new(big.Int).Rsh(fP, 1))
	add(new(big.Int).Add(new(big.Int).Rsh(fP, 1), big.NewInt(1)))
	step := uint(26)
	if full {
		step = 2
	}
	b := func(i uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), i) }
	for i := uint(0); i < 256; i += step {
		add(b(i))
		add(new(big.Int).Sub(b(i), big.NewInt(1)))
		add(new(big.Int).Sub(fP, b(i)))
		add(new(big.Int).Sub(top, b(i)))
		add(new(big.Int).Sub(b(i+26), b(i)))
	}
	add(b(32))
	add(new(big.Int).Add(b(32), big.NewInt(977)))
	add(new(big.Int).Add(b(255), b(32)))
	for _, s := range []string{"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "5555555555555555555555555555555555555555555555555555555555555555",
		"79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", "483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8", "7ae96a2b657c07106e64479eac3434e99cf0497512f58995c1396c28719501ee"} {
		v, _ := new(big.Int).SetString(s, 16)
		add(v)
	}
	// words all ones and all zeros in turn
	for m := 1; m < 1024; m += 1 {
		if !full && m%93 != 0 && m != 0x155 && m != 0x2aa {
			continue
		}
		v := new(big.Int)
		for i := 9; i >= 0; i-- {
			v.Lsh(v, 26)
			if m>>uint(i)&1 == 1 {
				w := int64(fMask)
				if i == 9 {
					w = fTop
				}
				v.Add(v, big.NewInt(w))
			}
		}
		add(v)
	}
	return l
}

// optional methods
type hasMul2 interface {
	Mul2(a, b *fieldVal) *fieldVal
}
type hasSquareVal interface {
	SquareVal(a *fieldVal) *fieldVal
}
type hasNegateVal interface {
	NegateVal(a *fieldVal, m uint32) *fieldVal
}
type hasBytes interface{ Bytes() *[32]byte }
type hasPutBytes interface{ PutBytes(b *[32]byte) }
type hasSetBytes interface {
	SetBytes(b *[32]byte) *fieldVal
}
type hasSetByteSlice interface {
	SetByteSlice(b []byte) *fieldVal
}
type hasSet interface {
	Set(v *fieldVal) *fieldVal
}

func jobSet(mine func(i int) bool, full bool) {
	for i, v := range values(full) {
		if !mine(i) {
			continue
		}
		cnt.ops += 8
		f := fromInt(v)
		expect("SetHex "+h64(v), f, v)
		if raw(f).Cmp(v) != 0 {
			// values above the prime may be kept as they are or reduced
			if mod(raw(f)).Cmp(mod(v)) != 0 {
				fail("SetHex(%x) holds %x", v, raw(f))
			}
		}
		for n := 1; n <= 64; n++ { // shorter texts
			s := h64(v)[64-n:]
			w, _ := new(big.Int).SetString(s, 16)
			expect("SetHex "+s, new(fieldVal).SetHex(s), w)
		}
		g := *f
		g.Normalize()
		if s := g.String(); s != h64(mod(v)) {
			fail("String of %x is %q", mod(v), s)
		}
		if s := fromInt(v).String(); s != h64(mod(v)) {
			fail("String of the unnormalized %x is %q", v, s)
		}
		if x, ok := interface{}(&g).(hasBytes); ok {
			if b := x.Bytes(); fmt.Sprintf("%x", *b) != h64(mod(v)) {
				fail("Bytes of %x is %x", mod(v), *b)
			}
		}
		if x, ok := interface{}(&g).(hasPutBytes); ok {
			var b [32]byte
			for k := range b {
				b[k] = 0xee
			}
			x.PutBytes(&b)
			if fmt.Sprintf("%x", b) != h64(mod(v)) {
				fail("PutBytes of %x is %x", mod(v), b)
			}
		}
		if x, ok := interface{}(new(fieldVal)).(hasSetBytes); ok {
			var b [32]byte
			v.FillBytes(b[:])
			c := b
			expect("SetBytes "+h64(v), x.SetBytes(&b), v)
			if b != c {
				fail("SetBytes changes its argument")
			}
		}
		if x, ok := interface{}(new(fieldVal)).(hasSetByteSlice); ok {
			b := v.Bytes()
			for n := 0; n <= len(b); n++ {
				expect("SetByteSlice", x.SetByteSlice(b[len(b)-n:]), new(big.Int).SetBytes(b[len(b)-n:]))
			}
			if len(b) == 32 { // only the first 32 bytes are used
				for n := 1; n <= 40; n++ {
					l := append(append([]byte(nil), b...), make([]byte, n)...)
					l[len(l)-1] = byte(n)
					expect("SetByteSlice of more than 32 bytes", x.SetByteSlice(l), v)
				}
			}
		}
		if x, ok := interface{}(new(fieldVal)).(hasSet); ok {
			e := x.Set(f)
			expect("Set", e, v)
			f.AddInt(1)
			expect("Set (copy)", e, v)
		}
		g.Zero()
		expect("Zero", &g, new(big.Int))
	}
	if mine(0) {
		for i := uint(0); i < 5000; i++ {
			expect("SetInt", new(fieldVal).SetInt(i), big.NewInt(int64(i)))
		}
		for b := uint(12); b < 32; b++ {
			for d := -2; d <= 2; d++ {
				x := uint(1<<b + d)
				expect("SetInt", new(fieldVal).SetInt(x), big.NewInt(int64(x)))
			}
		}
		f := fromInt(fP)
		expect("SetInt after another value", f.SetInt(3), big.NewInt(3))
		cnt.ops += 5100
	}
}

// jobNormalize: every combination of word patterns up to magnitude 32.
func jobNormalize(mine func(i int) bool, full bool) {
	pat := []uint32{0, fMask, fMask + 1, 32 * fMask}
	topPat := []uint32{0, fTop, fTop + 1, 32 * fTop}
	if full {
		pat = []uint32{0, fMask, fMask + 1, 32 * fMask, 1}
		topPat = []uint32{0, fTop, fTop + 1, 32 * fTop, 1}
	}
	n := len(pat)
	total := 1
	for i := 0; i < 10; i++ {
		total *= n
	}
	if !full {
		total /= n // the two lowest words are not independent in the quick run
	}
	for i := 0; i < total; i++ {
		if i&1023 == 0 && !mine(i>>10) {
			i += 1023
			continue
		}
		var f fieldVal
		k := i
		for j := 0; j < 9; j++ {
			f.n[j] = pat[k%n]
			if j != 0 || full {
				k /= n
			}
		}
		f.n[9] = topPat[k%n]
		cnt.ops++
		if !expect(fmt.Sprintf("Normalize of words %x", f.n), &f, raw(&f)) {
			return
		}
	}
	// around the prime: high words full, low words near the boundary, with carries on the way
	for d := -70; d <= 70; d++ {
		if !mine(d + 70) {
			continue
		}
		for e := -70; e <= 70; e++ {
			for hi := uint32(0); hi < 4; hi++ {
				for c := 2; c <= 9; c++ {
					var f fieldVal
					f.n[0] = uint32(int(fMask-976) + e*14)
					f.n[1] = uint32(int(fMask-64) + d)
					for j := 2; j < 9; j++ {
						f.n[j] = fMask
					}
					f.n[9] = fTop + hi*(fTop+1)
					if c < 9 {
						f.n[c]--
						f.n[c-1] += 1 << 26
					}
					cnt.ops++
					if !expect(fmt.Sprintf("Normalize of words %x", f.n), &f, raw(&f)) {
						return
					}
				}
			}
		}
	}
	for i := 0; i <= 3000; i++ { // every value within 3000 of the prime and of 2^256
		if !mine(i) {
			continue
		}
		for _, b := range []*big.Int{fP, new(big.Int).Lsh(big.NewInt(1), 256)} {
			for _, s := range []int64{-1, 1} {
				v := new(big.Int).Add(b, big.NewInt(s*int64(i)))
				var f fieldVal
				w := new(big.Int).Set(v)
				for j := 0; j < 9; j++ {
					f.n[j] = uint32(new(big.Int).And(w, big.NewInt(fMask)).Int64())
					w.Rsh(w, 26)
				}
				f.n[9] = uint32(w.Int64())
				cnt.ops++
				expect("Normalize of "+v.Text(16), &f, v)
			}
		}
	}
}

// scaled gives an element of a value at a magnitude, in several ways.
func scaled(v *big.Int, mag uint) []*fieldVal {
	l := []*fieldVal{}
	if mag == 1 {
		return append(l, fromInt(v))
	}
	// -(-v) and the like
	f := fromInt(v)
	f.Negate(1)
	if mag == 2 {
		return append(l, f)
	}
	l = append(l, fromInt(v).MulInt(mag))
	l = append(l, fromInt(v).MulInt(mag-1).Negate(uint32(mag-1)))
	return l
}

// jobPairs: all pairs of values, at several magnitudes, with every way to share operands.
func jobPairs(mine func(i int) bool, full bool) {
	vs := values(full)
	if full && len(vs) > 700 {
		vs = vs[:700]
	}
	mags := []uint{1, 2, 8}
	for i, a := range vs {
		if !mine(i) {
			continue
		}
		for _, m := range mags {
			for _, fa := range scaled(a, m) {
				va := raw(fa)
				cnt.ops += 3
				g := *fa
				expect("Square", g.Square(), new(big.Int).Mul(va, va))
				g = *fa
				expect("Mul with itself", g.Mul(&g), new(big.Int).Mul(va, va))
				g = *fa
				expect("Add of itself", g.Add(&g), new(big.Int).Lsh(va, 1))
				if x, ok := interface{}(&g).(hasSquareVal); ok {
					g = *fa
					expect("SquareVal of itself", x.SquareVal(&g), new(big.Int).Mul(va, va))
					var r fieldVal
					r = *fromInt(fP)
					x2 := interface{}(&r).(hasSquareVal)
					c := *fa
					expect("SquareVal", x2.SquareVal(fa), new(big.Int).Mul(va, va))
					if c != *fa {
						fail("SquareVal changes its argument")
					}
				}
			}
		}
		for _, b := range vs {
			for _, ma := range mags {
				for _, mb := range mags {
					if !full && ma != mb && ma+mb != 9 {
						continue
					}
					for _, fa := range scaled(a, ma) {
						for _, fb := range scaled(b, mb) {
							va, vb := raw(fa), raw(fb)
							ca, cb := *fa, *fb
							cnt.ops += 3
							g := ca
							if !expect(fmt.Sprintf("Mul of words %x and %x", ca.n, cb.n), g.Mul(fb), new(big.Int).Mul(va, vb)) {
								return
							}
							g = ca
							expect(fmt.Sprintf("Add of words %x and %x", ca.n, cb.n), g.Add(fb), new(big.Int).Add(va, vb))
							g = cb
							expect("Add2", g.Add2(fa, fb), new(big.Int).Add(va, vb))
							if x, ok := interface{}(&g).(hasMul2); ok && ma == mb {
								g = *fromInt(fP)
								expect("Mul2", x.Mul2(fa, fb), new(big.Int).Mul(va, vb))
								g = ca
								expect("Mul2 into its first operand", x.Mul2(&g, fb), new(big.Int).Mul(va, vb))
								g = cb
								expect("Mul2 into its second operand", x.Mul2(fa, &g), new(big.Int).Mul(va, vb))
								g = ca
								expect("Mul2 with itself", x.Mul2(&g, &g), new(big.Int).Mul(va, va))
								g = ca
								expect("Add2 into its first operand", g.Add2(&g, fb), new(big.Int).Add(va, vb))
								g = cb
								expect("Add2 into its second operand", g.Add2(fa, &g), new(big.Int).Add(va, vb))
								g = ca
								expect("Add2 with itself", g.Add2(&g, &g), new(big.Int).Lsh(va, 1))
							}
							if *fa != ca || *fb != cb {
								fail("an operation changes its argument")
								return
							}
							if ma == 1 && mb == 1 {
								na, nb := ca, cb
								na.Normalize()
								nb.Normalize()
								if na.Equals(&nb) != (mod(va).Cmp(mod(vb)) == 0) || nb.Equals(&na) != na.Equals(&nb) {
									fail("Equals(%x, %x) is %v", mod(va), mod(vb), na.Equals(&nb))
									return
								}
							}
							if failed != "" {
								return
							}
						}
					}
				}
			}
		}
	}
	// Equals tells a difference in every bit
	for bit := uint(0); bit < 256; bit++ {
		if !mine(int(bit)) {
			continue
		}
		for _, a := range vs[:20] {
			b := new(big.Int).Xor(a, new(big.Int).Lsh(big.NewInt(1), bit))
			na, nb := fromInt(a), fromInt(b)
			na.Normalize()
			nb.Normalize()
			cnt.ops++
			cnt.states++
			if na.Equals(nb) != (mod(a).Cmp(mod(b)) == 0) {
				fail("Equals(%x, %x) is %v", mod(a), mod(b), na.Equals(nb))
			}
		}
	}
}

// jobWords: products of all elements whose words are all zeros or all ones, at magnitudes 1 and 8.
func jobWords(mine func(i int) bool, full bool) {
	mk := func(m int, mag uint32) *fieldVal {
		var f fieldVal
		for i := 0; i < 10; i++ {
			if m>>uint(i)&1 == 1 {
				f.n[i] = fMask * mag
				if i == 9 {
					f.n[i] = fTop * mag
				}
			}
		}
		return &f
	}
	for a := 0; a < 1024; a++ {
		if !mine(a) {
			continue
		}
		for _, ma := range []uint32{1, 8} {
			fa := mk(a, ma)
			va := raw(fa)
			g := *fa
			expect(fmt.Sprintf("Square of words %x", fa.n), g.Square(), new(big.Int).Mul(va, va))
			cnt.ops++
			for b := 0; b < 1024; b++ {
				if !full && b != 1023 && b != a && (a*7+b*3)%11 != 0 {
					continue
				}
				fb := mk(b, ma)
				vb := raw(fb)
				g := *fa
				cnt.ops++
				if !expect(fmt.Sprintf("Mul of words %x and %x", fa.n, fb.n), g.Mul(fb), new(big.Int).Mul(va, vb)) {
					return
				}
			}
		}
	}
}

func jobInverse(mine func(i int) bool, full bool) {
	l := values(full)
	n := int64(300)
	if full {
		n = 3000
	}
	for i := int64(0); i < n; i++ {
		l = append(l, big.NewInt(i), new(big.Int).Sub(fP, big.NewInt(i)))
	}
	for i, v := range l {
		if !mine(i) {
			continue
		}
		for _, m := range []uint{1, 2, 8} {
			for _, f := range scaled(v, m) {
				va := mod(raw(f))
				want := new(big.Int).ModInverse(va, fP)
				if want == nil {
					want = new(big.Int)
				}
				g := *f
				cnt.ops++
				if !expect(fmt.Sprintf("Inverse of words %x", f.n), g.Inverse(), want) {
					return
				}
			}
		}
	}
}

// jobSmall: AddInt, MulInt and Negate with every small operand at every magnitude that fits.
func jobSmall(mine func(i int) bool, full bool) {
	for i, v := range values(full) {
		if !mine(i) {
			continue
		}
		for m := uint(1); m <= 31; m++ {
			f := fromInt(v).MulInt(m)
			expect("MulInt", f, new(big.Int).Mul(v, big.NewInt(int64(m))))
			g := *f
			expect(fmt.Sprintf("Negate(%d)", m), g.Negate(uint32(m)), new(big.Int).Neg(raw(f)))
			if x, ok := interface{}(&g).(hasNegateVal); ok {
				g = *fromInt(fP)
				expect(fmt.Sprintf("NegateVal(%d)", m), x.NegateVal(f, uint32(m)), new(big.Int).Neg(raw(f)))
			}
			cnt.ops += 2
			for _, k := range []uint{0, 1, 2, 7, 976, 977, 978, 1<<16 - 1, 1<<26 - 1} {
				g = *f
				cnt.ops++
				expect(fmt.Sprintf("AddInt(%d)", k), g.AddInt(k), new(big.Int).Add(raw(f), big.NewInt(int64(k))))
			}
		}
	}
}

// reg is a register of the operation machine: element, magnitude, value.
type reg struct {
	f   fieldVal
	mag uint32
	v   *big.Int
}

type fop struct {
	name string
	can  func(a, b *reg) bool
	do   func(a, b *reg)
}

var fops = []fop{
	{"a.Normalize()", func(a, b *reg) bool { return true }, func(a, b *reg) { a.f.Normalize(); a.mag = 1 }},
	{"a.Negate(mag)", func(a, b *reg) bool { return a.mag < 32 }, func(a, b *reg) { a.f.Negate(a.mag); a.mag++; a.v = mod(new(big.Int).Neg(a.v)) }},
	{"a.AddInt(1)", func(a, b *reg) bool { return a.mag < 32 }, func(a, b *reg) { a.f.AddInt(1); a.mag++; a.v = mod(new(big.Int).Add(a.v, big.NewInt(1))) }},
	{"a.AddInt(7)", func(a, b *reg) bool { return a.mag < 32 }, func(a, b *reg) { a.f.AddInt(7); a.mag++; a.v = mod(new(big.Int).Add(a.v, big.NewInt(7))) }},
	{"a.MulInt(2)", func(a, b *reg) bool { return a.mag*2 <= 32 }, func(a, b *reg) { a.f.MulInt(2); a.mag *= 2; a.v = mod(new(big.Int).Lsh(a.v, 1)) }},
	{"a.MulInt(3)", func(a, b *reg) bool { return a.mag*3 <= 32 }, func(a, b *reg) { a.f.MulInt(3); a.mag *= 3; a.v = mod(new(big.Int).Mul(a.v, big.NewInt(3))) }},
	{"a.MulInt(8)", func(a, b *reg) bool { return a.mag*8 <= 32 }, func(a, b *reg) { a.f.MulInt(8); a.mag *= 8; a.v = mod(new(big.Int).Lsh(a.v, 3)) }},
	{"a.Square()", func(a, b *reg) bool { return a.mag <= 8 }, func(a, b *reg) { a.f.Square(); a.mag = 1; a.v = mod(new(big.Int).Mul(a.v, a.v)) }},
	{"a.Mul(b)", func(a, b *reg) bool { return a.mag <= 8 && b.mag <= 8 }, func(a, b *reg) { a.f.Mul(&b.f); a.mag = 1; a.v = mod(new(big.Int).Mul(a.v, b.v)) }},
	{"b.Mul(a)", func(a, b *reg) bool { return a.mag <= 8 && b.mag <= 8 }, func(a, b *reg) { b.f.Mul(&a.f); b.mag = 1; b.v = mod(new(big.Int).Mul(a.v, b.v)) }},
	{"a.Mul(a)", func(a, b *reg) bool { return a.mag <= 8 }, func(a, b *reg) { a.f.Mul(&a.f); a.mag = 1; a.v = mod(new(big.Int).Mul(a.v, a.v)) }},
	{"a.Add(b)", func(a, b *reg) bool { return a.mag+b.mag <= 32 }, func(a, b *reg) { a.f.Add(&b.f); a.mag += b.mag; a.v = mod(new(big.Int).Add(a.v, b.v)) }},
	{"b.Add(a)", func(a, b *reg) bool { return a.mag+b.mag <= 32 }, func(a, b *reg) { b.f.Add(&a.f); b.mag += a.mag; b.v = mod(new(big.Int).Add(a.v, b.v)) }},
	{"a.Add(a)", func(a, b *reg) bool { return a.mag*2 <= 32 }, func(a, b *reg) { a.f.Add(&a.f); a.mag *= 2; a.v = mod(new(big.Int).Lsh(a.v, 1)) }},
	{"b.Add2(a, b)", func(a, b *reg) bool { return a.mag+b.mag <= 32 }, func(a, b *reg) { b.f.Add2(&a.f, &b.f); b.mag += a.mag; b.v = mod(new(big.Int).Add(a.v, b.v)) }},
	{"a.Inverse()", func(a, b *reg) bool { return a.mag <= 8 }, func(a, b *reg) {
		a.f.Inverse()
		a.mag = 1
		if a.v.Sign() != 0 {
			a.v = new(big.Int).ModInverse(a.v, fP)
		}
	}},
}

func chain(path string, a, b reg, depth int) bool {
	for i := range fops {
		o := &fops[i]
		if !o.can(&a, &b) || depth > 1 && o.name == "a.Inverse()" && depth < 3 {
			continue
		}
		x, y := a, b
		o.do(&x, &y)
		cnt.ops++
		p := path
		if depth == 1 || failed != "" {
			p = path + "; " + o.name
		} else {
			p = path + "; " + o.name
		}
		if !expect("a after "+p, &x.f, x.v) || !expect("b after "+p, &y.f, y.v) {
			return false
		}
		if depth > 1 && !chain(p, x, y, depth-1) {
			return false
		}
	}
	return true
}

func jobChain(mine func(i int) bool, full bool) {
	vs := values(false)
	depth := 3
	if full {
		depth = 4
	}
	k := 0
	for i, a := range vs {
		for j, b := range vs {
			if full && (i+j)%3 != 0 {
				continue
			}
			k++
			if !mine(k) {
				continue
			}
			if !chain(fmt.Sprintf("a = %x; b = %x", a, b), reg{*fromInt(a), 1, mod(a)}, reg{*fromInt(b), 1, mod(b)}, depth) {
				return
			}
		}
	}
	// fewer start values, one step more
	n := 12
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			k++
			if !mine(k) {
				continue
			}
			a, b := vs[(i*5)%len(vs)], vs[(j*7+3)%len(vs)]
			if !chain(fmt.Sprintf("a = %x; b = %x", a, b), reg{*fromInt(a), 1, mod(a)}, reg{*fromInt(b), 1, mod(b)}, depth+1) {
				return
			}
		}
	}
}

var jobs = map[string]func(func(int) bool, bool){"set": jobSet, "normalize": jobNormalize, "pairs": jobPairs, "words": jobWords, "inverse": jobInverse, "small": jobSmall, "chain": jobChain}

// TestZkmcField runs one part of one job: ZKF_JOB=name:part:parts:tier
func TestZkmcField(t *testing.T) {
	spec := strings.Split(os.Getenv("ZKF_JOB"), ":")
	if len(spec) != 4 {
		t.Skip()
	}
	part, _ := strconv.Atoi(spec[1])
	parts, _ := strconv.Atoi(spec[2])
	func() {
		defer func() {
			if r := recover(); r != nil {
				fail("panic: %v", r)
			}
		}()
		jobs[spec[0]](func(i int) bool { return uint32(i)*2654435761>>8%uint32(parts) == uint32(part) }, spec[3] == "thorough" || spec[0] != "chain")
	}()
	if failed != "" {
		fmt.Printf("ZKF-FAIL %s\n", strings.ReplaceAll(failed, "\n", " "))
		return
	}
	fmt.Printf("ZKF-OK %d %d\n", cnt.states, cnt.ops)
}
