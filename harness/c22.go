package zkmc

import (
	"bytes"
	"math/big"

	"github.com/mit-dci/zksigma/btcec"
)

const (
	parsedNo = iota
	parsedYes
	parsedEither // long-form looking lengths: refuse, or read as stated
)

// refDER reads 30 len 02 len R 02 len S; bytes behind the stated length are ignored.
func refDER(b []byte, strict bool) (r, s *big.Int, verdict int) {
	if len(b) < 8 || b[0] != 0x30 {
		return nil, nil, parsedNo
	}
	total := int(b[1]) + 2
	if total < 8 || total > len(b) {
		return nil, nil, parsedNo
	}
	verdict = parsedYes
	if b[1] >= 0x80 {
		verdict = parsedEither
	}
	rest := b[2:total]
	next := func() *big.Int {
		if len(rest) < 2 || rest[0] != 2 || rest[1] == 0 || int(rest[1]) > len(rest)-2 {
			return nil
		}
		n := int(rest[1])
		if n >= 0x80 {
			verdict = parsedEither
		}
		v := rest[2 : 2+n]
		rest = rest[2+n:]
		if strict && (v[0] >= 0x80 || n > 1 && v[0] == 0 && v[1] < 0x80) {
			return nil
		}
		x := new(big.Int).SetBytes(v)
		if x.Sign() == 0 || x.Cmp(sN) >= 0 {
			return nil
		}
		return x
	}
	if r = next(); r == nil {
		return nil, nil, parsedNo
	}
	if s = next(); s == nil || len(rest) != 0 {
		return nil, nil, parsedNo
	}
	return
}

func derInt(v *big.Int) []byte {
	b := v.Bytes()
	if len(b) == 0 || b[0] >= 0x80 {
		b = append([]byte{0}, b...)
	}
	return append([]byte{2, byte(len(b))}, b...)
}

func derSig(r, s *big.Int) []byte {
	x := append(derInt(r), derInt(s)...)
	return append([]byte{0x30, byte(len(x))}, x...)
}

// c22Parse runs both parsers on one byte string. The outcome tells which accepted.
func c22Parse(c *Ctx, in []byte) {
	var buf [300]byte
	b := buf[:len(in):len(in)]
	if len(in) > 300 {
		b = make([]byte, len(in))
	}
	copy(b, in)
	c.Add(1, 0, 0)
	for _, strict := range []bool{true, false} {
		r, s, v := refDER(in, strict)
		name := "ParseSignature"
		parse := btcec.ParseSignature
		if strict {
			name, parse = "ParseDERSignature", btcec.ParseDERSignature
		}
		var sig *btcec.Signature
		var err error
		if !c.Guard(name, func() { sig, err = parse(b, btcec.S256()) }) {
			return
		}
		if !bytes.Equal(b, in) {
			c.Fail("%s changed its input %x", name, in)
		}
		switch {
		case err != nil && sig != nil:
			c.Fail("%s(%x) gives a signature and an error", name, in)
		case err == nil && (sig == nil || sig.R == nil || sig.S == nil):
			c.Fail("%s(%x) gives neither a signature nor an error", name, in)
		case v == parsedNo && err == nil:
			c.Fail("%s(%x) accepted it as (%x, %x)", name, in, sig.R, sig.S)
		case v == parsedYes && err != nil:
			c.Fail("%s(%x) refused it: %v", name, in, err)
		case err == nil && (sig.R.Cmp(r) != 0 || sig.S.Cmp(s) != 0):
			c.Fail("%s(%x) = (%x, %x)", name, in, sig.R, sig.S)
		}
		c.Add(0, 1, 1)
		if c.Failed() {
			return
		}
		if err == nil {
			c.Add(0, 0, 2)
			c.Outcome(name + ": accepted")
		} else {
			c.Outcome(name + ": refused")
		}
	}
}

// derScalars are integers of every length, with and without the top bit of a byte.
func derScalars(full bool) []*big.Int {
	l := []*big.Int{}
	for _, v := range scalarAlphabet(full) {
		if v.Sign() > 0 && v.Cmp(sN) < 0 {
			l = append(l, v)
		}
	}
	for i := uint(1); i < 32; i++ {
		l = append(l, pow2(8*i), new(big.Int).Sub(pow2(8*i), one), pow2(8*i-1), new(big.Int).Sub(pow2(8*i-1), one), new(big.Int).Add(pow2(8*i), big.NewInt(0x5a)))
	}
	return l
}

func c22Serialize(c *Ctx) {
	half := new(big.Int).Rsh(sN, 1)
	vs := derScalars(c.Thorough)
	for i, r := range vs {
		if !c.Case("R = %x, all S", r) {
			continue
		}
		for _, s := range vs {
			sig := &btcec.Signature{R: new(big.Int).Set(r), S: new(big.Int).Set(s)}
			low := s
			if s.Cmp(half) > 0 {
				low = new(big.Int).Sub(sN, s)
			}
			c.Guard("Serialize", func() {
				b := sig.Serialize()
				c.Add(1, 1, 1)
				if !bytes.Equal(b, derSig(r, low)) {
					c.Fail("Serialize(%x, %x) = %x", r, s, b)
					return
				}
				if sig.R.Cmp(r) != 0 || sig.S.Cmp(s) != 0 {
					c.Fail("Serialize changes the signature (%x, %x)", r, s)
				}
				for _, parse := range []func([]byte) (*btcec.Signature, error){
					func(b []byte) (*btcec.Signature, error) { return btcec.ParseDERSignature(b, btcec.S256()) },
					func(b []byte) (*btcec.Signature, error) { return btcec.ParseSignature(b, btcec.S256()) }} {
					s2, err := parse(b)
					if err != nil {
						c.Fail("Serialize(%x, %x) = %x does not parse: %v", r, s, b, err)
						return
					}
					if s2.R.Cmp(r) != 0 || s2.S.Cmp(low) != 0 {
						c.Fail("(%x, %x) comes back as (%x, %x)", r, s, s2.R, s2.S)
					}
					if s2.IsEqual(sig) != (low == s) || sig.IsEqual(s2) != (low == s) {
						c.Fail("IsEqual of (%x, %x) and (%x, %x)", r, s, s2.R, s2.S)
					}
				}
			})
			c.Outcome("round trip")
		}
		if i%8 == 0 {
			// encodings that differ in one integer, for the strict and the lenient parser
			for _, pad := range [][]byte{{0}, {0, 0}, {0x80}, {0xff}, {1}} {
				x := derInt(r)
				v := append(append([]byte{}, pad...), x[2:]...)
				y := append([]byte{2, byte(len(v))}, v...)
				z := derInt(two)
				for _, body := range [][]byte{append(append([]byte{}, y...), z...), append(append([]byte{}, z...), y...)} {
					c22Parse(c, append([]byte{0x30, byte(len(body))}, body...))
				}
			}
		}
		if c.Stop() {
			return
		}
	}
}

// c22Range: integers around the ends of the range, in minimal and padded form.
func c22Range(c *Ctx) {
	top := pow2(256)
	var vs []*big.Int
	for d := int64(-3); d <= 3; d++ {
		for _, b := range []*big.Int{new(big.Int), sN, sP, top, new(big.Int).Lsh(sN, 1), pow2(255), pow2(264), pow2(512)} {
			if v := new(big.Int).Add(b, big.NewInt(d)); v.Sign() >= 0 {
				vs = append(vs, v)
			}
		}
	}
	form := func(v *big.Int, f int) []byte {
		b := v.Bytes()
		switch f {
		case 0:
			return derInt(v)
		case 1: // no sign byte
		case 2:
			b = append([]byte{0}, b...)
		case 3:
			b = append([]byte{0, 0, 0}, b...)
		case 4:
			b = append(make([]byte, 40), b...)
		}
		return append([]byte{2, byte(len(b))}, b...)
	}
	for _, r := range vs {
		for f := 0; f < 5; f++ {
			if !c.Case("R = %x in form %d", r, f) {
				continue
			}
			for _, s := range vs {
				for g := 0; g < 5; g++ {
					x := append(form(r, f), form(s, g)...)
					if len(x) > 255 {
						continue
					}
					b := append([]byte{0x30, byte(len(x))}, x...)
					c22Parse(c, b)
					c22Parse(c, append(b, 0))
					c22Parse(c, b[:len(b)-1])
				}
			}
			if c.Stop() {
				return
			}
		}
	}
}

// c22Short: all short byte strings over an alphabet of telling bytes.
func c22Short(c *Ctx) {
	al := []byte{0x00, 0x01, 0x02, 0x03, 0x04, 0x06, 0x30, 0x7f, 0x80, 0xff}
	max := 9
	if c.Thorough {
		max = 10
	}
	for n := 0; n <= max; n++ {
		// the first byte is 0x30 (other values: separately), the second one of the lengths
		lens := []byte{0, 1, 4, 5, 6, 7, 8, 9, 0x7f, 0x80, 0xfd, 0xfe, 0xff}
		if n < 4 {
			if !c.Case("all strings of %d bytes over the alphabet", n) {
				continue
			}
			var rec func(b []byte)
			rec = func(b []byte) {
				if len(b) == n {
					c22Parse(c, b)
					return
				}
				for _, x := range al {
					rec(append(b[:len(b):len(b)], x))
				}
			}
			rec(nil)
			continue
		}
		for _, l := range lens {
			for _, m := range al {
				if !c.Case("%d bytes starting 30 %02x %02x", n, l, m) {
					continue
				}
				b := make([]byte, n)
				b[0], b[1], b[2] = 0x30, l, m
				var rec func(i int)
				rec = func(i int) {
					if c.Failed() {
						return
					}
					if i == n {
						c22Parse(c, b)
						return
					}
					for _, x := range al {
						if n >= 9 && i >= 3 && (x == 0x03 || x == 0x06 || x == 0x30 || x == 0x04 && i > 4) {
							continue
						}
						b[i] = x
						rec(i + 1)
					}
				}
				rec(3)
				c.Alive()
				if c.Stop() {
					return
				}
			}
		}
	}
}

// c22Alter: alterations of good encodings.
func c22Alter(c *Ctx) {
	big1, _ := new(big.Int).SetString("f0e1d2c3b4a5968778695a4b3c2d1e0ff0e1d2c3b4a5968778695a4b3c2d1e0f", 16)
	small := hexInt("7000000000000000000000000000000000000000000000000000000000000001")
	pairs := [][2]*big.Int{{one, one}, {big1, small}, {small, big1}, {big1, big1}, {small, small}, {big.NewInt(0x80), big.NewInt(0x7f)}, {new(big.Int).Sub(sN, one), one}, {pow2(240), pow2(8)}}
	if c.Thorough {
		vs := derScalars(false)
		for i := range vs {
			pairs = append(pairs, [2]*big.Int{vs[i], vs[(i*7+3)%len(vs)]})
		}
	}
	for _, p := range pairs {
		enc := derSig(p[0], p[1])
		rpos := 3
		spos := 4 + int(enc[3]) + 1
		// one byte
		for pos := range enc {
			if !c.Case("byte %d of %x", pos, enc) {
				continue
			}
			b := append([]byte{}, enc...)
			for v := 0; v < 256; v++ {
				b[pos] = byte(v)
				c22Parse(c, b)
			}
		}
		// truncations and extensions, with the length adjusted or not
		if c.Case("truncations and extensions of %x", enc) {
			for n := 0; n <= len(enc); n++ {
				c22Parse(c, enc[:n])
				b := append([]byte{}, enc[:n]...)
				if n > 1 {
					b[1] = byte(n - 2)
					c22Parse(c, b)
				}
			}
			for n := 1; n < 200; n++ {
				for _, f := range []byte{0, 2, 0xff} {
					b := append(append([]byte{}, enc...), bytes.Repeat([]byte{f}, n)...)
					c22Parse(c, b)
					if len(b) < 258 {
						b[1] = byte(len(b) - 2)
						c22Parse(c, b)
						// S takes the rest
						b[spos] = byte(len(b) - spos - 1)
						c22Parse(c, b)
					}
				}
			}
		}
		// all combinations of two of the three length bytes, and all three near their values
		for v := 0; v < 256; v++ {
			if !c.Case("length %02x in %x, the other two lengths", v, enc) {
				continue
			}
			b := append(append([]byte{}, enc...), make([]byte, 190)...)
			for w := 0; w < 256; w++ {
				for _, two := range [][2]int{{1, rpos}, {1, spos}, {rpos, spos}} {
					x := append([]byte{}, b...)
					x[two[0]], x[two[1]] = byte(v), byte(w)
					c22Parse(c, x)
					c22Parse(c, x[:len(enc)])
				}
				for d := -3; d <= 3; d++ {
					x := append([]byte{}, b...)
					x[1], x[rpos] = byte(v), byte(w)
					x[spos] = byte(v - (spos + 1 - 2) + d)
					c22Parse(c, x)
					// the marker and length of S where R's length says
					if q := 4 + w; q+1 < len(x) {
						x[q], x[q+1] = 2, byte(v-(q+2-2)+d)
						c22Parse(c, x)
					}
				}
			}
			if c.Stop() {
				return
			}
		}
		if c.Stop() {
			return
		}
	}
}

// refRecover gives the key of a compact signature, from the equation r*Q = s*R - e*G.
func refRecover(b, hash []byte) (apt, bool, bool) {
	if len(b) != 65 || b[0] < 27 || b[0] > 34 {
		return apt{}, false, false
	}
	rec := int(b[0]-27) & 3
	r, s := new(big.Int).SetBytes(b[1:33]), new(big.Int).SetBytes(b[33:])
	if r.Sign() == 0 || s.Sign() == 0 || r.Cmp(sN) >= 0 || s.Cmp(sN) >= 0 {
		return apt{}, false, false
	}
	x := new(big.Int).Set(r)
	if rec >= 2 {
		x.Add(x, sN)
	}
	if x.Cmp(sP) >= 0 {
		return apt{}, false, false
	}
	R := liftX(x, rec&1 == 1)
	if R.inf() {
		return apt{}, false, false
	}
	ri := new(big.Int).ModInverse(r, sN)
	u := mN(new(big.Int).Mul(s, ri))
	v := mN(new(big.Int).Neg(new(big.Int).Mul(refHashInt(hash), ri)))
	Q := combG.mulJ(v, R.mul(u).jac()).affine()
	return Q, b[0] >= 31, !Q.inf()
}

func compact(rec int, r, s *big.Int) []byte {
	return append(append([]byte{byte(27 + rec)}, b32(r)...), b32(s)...)
}

// c22Recover compares recovery with the reference; mustVerify also tries the key on the pair.
func c22Recover(c *Ctx, in, hash []byte) {
	b := spare(in)
	Q, comp, ok := refRecover(in, hash)
	c.Guard("RecoverCompact", func() {
		k, isComp, err := btcec.RecoverCompact(btcec.S256(), b, hash)
		c.Add(1, 1, 1)
		if !bytes.Equal(b, in) {
			c.Fail("RecoverCompact changed its input")
		}
		switch {
		case err != nil && k != nil:
			c.Fail("RecoverCompact(%x, %x) gives a key and an error", in, hash)
		case !ok && err == nil:
			c.Fail("RecoverCompact(%x, %x) = (%x, %x), there is no such key", in, hash, k.X, k.Y)
		case ok && err != nil:
			c.Fail("RecoverCompact(%x, %x): %v; the key is (%x, %x)", in, hash, err, Q.x, Q.y)
		case ok:
			if !Q.eq(k.X, k.Y) || k.Curve != btcec.S256() {
				c.Fail("RecoverCompact(%x, %x) = (%x, %x), the key is (%x, %x)", in, hash, k.X, k.Y, Q.x, Q.y)
			}
			if isComp != comp {
				c.Fail("RecoverCompact(%x, %x): compressed is %v", in, hash, isComp)
			}
			sig := &btcec.Signature{R: new(big.Int).SetBytes(in[1:33]), S: new(big.Int).SetBytes(in[33:])}
			if !sig.Verify(hash, k) {
				c.Fail("RecoverCompact(%x, %x): the pair does not verify under the key", in, hash)
			}
			c.Outcome("recovered")
		default:
			c.Outcome("refused to recover")
		}
	})
}

func c22Compact(c *Ctx) {
	initComb()
	keys, hashes := ecdsaKeys(c.Thorough), hashAlphabet(false)
	for ki, d := range keys {
		for b := 0; b < len(hashes); b += 24 {
			if c.Stop() {
				return
			}
			if !c.Case("key %x, hashes %d to %d", d, b, b+23) {
				continue
			}
			key := mkKey(d)
			for i := b; i < b+24 && i < len(hashes); i++ {
				if !c.Thorough && (i+ki)%8 != 0 {
					continue
				}
				h := spare(hashes[i])
				r, s, rec := refSign(d, h)
				for _, comp := range []bool{false, true} {
					want := rec
					if comp {
						want += 4
					}
					c.Guard("SignCompact", func() {
						out, err := btcec.SignCompact(btcec.S256(), key.priv, h, comp)
						c.Add(1, 2, 2)
						if err != nil || !bytes.Equal(out, compact(want, r, s)) {
							c.Fail("key %x: SignCompact(%x, %v) = %x, %v; should be %x", d, h, comp, out, err, compact(want, r, s))
							return
						}
						k, isComp, err := btcec.RecoverCompact(btcec.S256(), out, h)
						if err != nil || !k.IsEqual(key.pub) || isComp != comp {
							c.Fail("key %x: recovery of %x gives %v, %v, %v", d, out, k, isComp, err)
						}
						c.Outcome("signed and recovered")
					})
				}
			}
		}
	}
}

func c22Recovery(c *Ctx) {
	initComb()
	keys, hashes := ecdsaKeys(false), hashAlphabet(false)
	n := 6
	if c.Thorough {
		n = 60
	}
	for i := 0; i < n; i++ {
		d, h := keys[(i*5+3)%len(keys)], hashes[(i*17+40)%len(hashes)]
		var enc []byte
		get := func() {
			if enc == nil {
				r, s, rec := refSign(d, h)
				enc = compact(rec, r, s)
			}
		}
		if c.Case("key %x, hash %x: all first bytes, all lengths", d, h) {
			get()
			for v := 0; v < 256; v++ {
				b := append([]byte{}, enc...)
				b[0] = byte(v)
				c22Recover(c, b, h)
			}
			for l := 0; l < 140; l++ {
				b := append(append([]byte{}, enc...), bytes.Repeat(enc, 2)...)[:l]
				c22Recover(c, b, h)
			}
			for _, g := range hashes {
				if len(g) > 30 {
					c22Recover(c, enc, g)
				}
			}
		}
		for pos := 1; pos < 65; pos++ {
			if !c.Case("key %x, hash %x: byte %d", d, h, pos) {
				continue
			}
			get()
			for bit := uint(0); bit < 8; bit++ {
				b := append([]byte{}, enc...)
				b[pos] ^= 1 << bit
				c22Recover(c, b, h)
			}
			for _, v := range []byte{0, 0xff} {
				b := append([]byte{}, enc...)
				b[pos] = v
				c22Recover(c, b, h)
			}
			if c.Stop() {
				return
			}
		}
	}
	// boundary pairs with all recovery numbers; small R allows the second x
	var vs []*big.Int
	top := new(big.Int).Sub(pow2(256), one)
	m := int64(6)
	if c.Thorough {
		m = 40
	}
	for i := int64(0); i < m; i++ {
		vs = append(vs, big.NewInt(i))
	}
	d := new(big.Int).Sub(sP, sN)
	for i := int64(-2); i <= 2; i++ {
		vs = append(vs, new(big.Int).Add(sN, big.NewInt(i)), new(big.Int).Add(d, big.NewInt(i)))
	}
	vs = append(vs, sP, top, sGx, new(big.Int).Rsh(sN, 1), pow2(255), pow2(128))
	hs := [][]byte{make([]byte, 32), b32(one), b32(sN), b32(new(big.Int).Sub(sN, one)), bytes.Repeat([]byte{0xff}, 32), bytes.Repeat([]byte{0xab}, 40), {5}}
	for _, r := range vs {
		for _, s := range vs {
			if !c.Case("R = %x, S = %x, all recovery numbers and hashes", r, s) {
				continue
			}
			for _, h := range hs {
				for rec := 0; rec < 8; rec++ {
					c22Recover(c, compact(rec, r, s), h)
				}
			}
			if c.Stop() {
				return
			}
		}
	}
	// hashes for which the recovered key would be infinity, G or -G: e = s*k - t*r with R = k*G
	for _, k := range []int64{1, 2, 3, 5, 7} {
		for _, s := range []*big.Int{one, two, new(big.Int).Sub(sN, one), pow2(200)} {
			if !c.Case("R = %d*G, S = %x, keys 0, G, -G", k, s) {
				continue
			}
			R := mki(k, 0).P
			r := new(big.Int).Mod(R.X, sN)
			for t := int64(-1); t <= 1; t++ {
				for _, sign := range []int64{1, -1} {
					e := mN(new(big.Int).Sub(new(big.Int).Mul(s, big.NewInt(k*sign)), new(big.Int).Mul(big.NewInt(t), r)))
					for rec := 0; rec < 4; rec++ {
						c22Recover(c, compact(rec, r, s), b32(e))
					}
				}
			}
		}
	}
}

// c22Equal: signatures are equal exactly if both numbers are.
func c22Equal(c *Ctx) {
	half := new(big.Int).Rsh(sN, 1)
	vs := []BI{big.NewInt(0), one, two, big.NewInt(-1), half, new(big.Int).Add(half, one), new(big.Int).Sub(sN, one), sN, new(big.Int).Add(sN, one), pow2(64), pow2(128), pow2(255), pow2(256), new(big.Int).Add(pow2(255), one)}
	for _, r := range vs {
		for _, s := range vs {
			if !c.Case("(%s,%s) and all other pairs: IsEqual", r.Text(16), s.Text(16)) {
				continue
			}
			c.Guard("IsEqual", func() {
				a := &btcec.Signature{R: r, S: s}
				for _, r2 := range vs {
					for _, s2 := range vs {
						b := &btcec.Signature{R: new(big.Int).Set(r2), S: new(big.Int).Set(s2)}
						want := r.Cmp(r2) == 0 && s.Cmp(s2) == 0
						if a.IsEqual(b) != want || b.IsEqual(a) != want {
							c.Fail("IsEqual of (%x, %x) and (%x, %x) is not %v", r, s, r2, s2, want)
						}
						c.Add(1, 2, 2)
					}
				}
			})
			c.Outcome("equality")
		}
	}
}

func init() {
	ck := &Check{ID: "C22", Level: "model_checking",
		Rule: "state = one byte string or pair; parsers and recovery are compared with reference implementations, serialization with reference bytes",
		Assumptions: []string{
			"length bytes of 128 and more are long forms in DER: the lenient parser may refuse them or read them as plain lengths",
			"byte strings outside the alphabets differ only in the contents of the integers",
		}}
	add := func(name, bound string, run func(*Ctx)) {
		ck.Units = append(ck.Units, Unit{Name: name, Bound: bound, Run: run})
	}
	add("serialize", "all pairs of integers of every byte length with and without a top bit, and boundary scalars", c22Serialize)
	add("integers", "all pairs of 52 integers around 0, N, P, 2^256, 2^264, 2^512 in 5 forms each, exact, cut and extended", c22Range)
	add("short strings", "all byte strings up to 8 bytes over 10 byte values and of 9 bytes over 6 (thorough: 10 bytes), 13 stated lengths", c22Short)
	add("alterations", "encodings with any one byte altered, truncated or extended everywhere, all pairs of length bytes, related triples", c22Alter)
	add("equality", "all pairs of 196 pairs of boundary integers", c22Equal)
	add("compact", "boundary keys, an eighth of the hashes (thorough: all, and all keys 2^i, 2^i-1, 2^i+1), both flags", c22Compact)
	add("recovery", "compact signatures with all first bytes, all lengths, all single-bit alterations; all pairs of boundary integers with all recovery numbers; keys at infinity", c22Recovery)
	register(ck)
}
