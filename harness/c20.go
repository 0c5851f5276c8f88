package zkmc

import (
	"bytes"
	"math/big"

	"github.com/mit-dci/zksigma/btcec"
)

func b32(v *big.Int) []byte {
	r := make([]byte, 32)
	b := v.Bytes()
	copy(r[32-len(b):], b)
	return r
}

// cbrtP gives a cube root modulo the prime, or nil (the prime is 7 modulo 9).
func cbrtP(a *big.Int) *big.Int {
	e := new(big.Int).Div(new(big.Int).Add(sP, two), big.NewInt(9))
	r := new(big.Int).Exp(a, e, sP)
	if mulP(r, mulP(r, r)).Cmp(new(big.Int).Mod(a, sP)) != 0 {
		return nil
	}
	return r
}

// liftY gives a point with this y, or infinity.
func liftY(y *big.Int) apt {
	x := cbrtP(subP(mulP(y, y), sB))
	if x == nil {
		return apt{}
	}
	return apt{x, new(big.Int).Set(y)}
}

// beta is a cube root of one: with (x,y), (beta*x,y) is a point too.
var beta = hexInt("7ae96a2b657c07106e64479eac3434e99cf0497512f58995c1396c28719501ee")

// keyPoints are points whose coordinates have leading zeros, are near the prime or multiples of G.
func keyPoints(full bool) []apt {
	var l []apt
	seen := map[string]bool{}
	add := func(p apt) {
		if p.inf() {
			return
		}
		for _, q := range []apt{p, p.neg()} {
			k := q.x.Text(16) + "," + q.y.Text(16)
			if !seen[k] {
				seen[k] = true
				l = append(l, q)
			}
		}
	}
	n, st := int64(300), uint(1)
	if full {
		n = 5000
	}
	for i := int64(0); i < n; i++ {
		add(liftX(big.NewInt(i), false))
		add(liftX(new(big.Int).Sub(sP, big.NewInt(i+1)), false))
		for _, y := range []*big.Int{big.NewInt(i), new(big.Int).Sub(sP, big.NewInt(i+1))} {
			p := liftY(y)
			add(p)
			if !p.inf() {
				add(apt{mulP(p.x, beta), p.y})
			}
		}
	}
	// one point per length of x and per length of y
	for s := uint(0); s < 256; s += st {
		for d := int64(0); d < 12; d++ {
			if p := liftX(new(big.Int).Add(pow2(s), big.NewInt(d)), false); !p.inf() {
				add(p)
				break
			}
		}
		for d := int64(0); d < 24; d++ {
			if p := liftY(new(big.Int).Add(pow2(s), big.NewInt(d))); !p.inf() {
				add(p)
				break
			}
		}
	}
	p := refG
	for i := 0; i < 40; i++ {
		add(p)
		p = p.add(refG)
	}
	// coordinates between the order and the prime
	for i := int64(0); i < 20; i++ {
		add(liftX(new(big.Int).Add(sN, big.NewInt(i)), false))
	}
	return l
}

func refUncompressed(p apt) []byte { return append(append([]byte{4}, b32(p.x)...), b32(p.y)...) }
func refHybrid(p apt) []byte {
	b := refUncompressed(p)
	b[0] = 6 + byte(p.y.Bit(0))
	return b
}
func refCompressed(p apt) []byte { return append([]byte{2 + byte(p.y.Bit(0))}, b32(p.x)...) }

// refParsePub is the parser as stated: nil for everything that is not a key.
func refParsePub(b []byte) (apt, bool) {
	switch {
	case len(b) == 33 && (b[0] == 2 || b[0] == 3):
		x := new(big.Int).SetBytes(b[1:])
		if x.Cmp(sP) >= 0 {
			return apt{}, false
		}
		p := liftX(x, b[0] == 3)
		return p, !p.inf()
	case len(b) == 65 && (b[0] == 4 || b[0] == 6 || b[0] == 7):
		x, y := new(big.Int).SetBytes(b[1:33]), new(big.Int).SetBytes(b[33:])
		if x.Cmp(sP) >= 0 || y.Cmp(sP) >= 0 || !onCurve(x, y) {
			return apt{}, false
		}
		if b[0] >= 6 && byte(y.Bit(0)) != b[0]&1 {
			return apt{}, false
		}
		return apt{x, y}, true
	}
	return apt{}, false
}

// c20Parse compares the parser with the reference on one byte string.
func c20Parse(c *Ctx, in []byte) {
	b := spare(in)
	want, ok := refParsePub(in)
	c.Guard("ParsePubKey", func() {
		k, err := btcec.ParsePubKey(b, btcec.S256())
		c.Add(1, 1, 1)
		if !bytes.Equal(b, in) {
			c.Fail("ParsePubKey changed its input %x to %x", in, b)
		}
		switch {
		case ok && (err != nil || k == nil):
			c.Fail("ParsePubKey(%x) refused a key: %v", in, err)
		case !ok && err == nil:
			c.Fail("ParsePubKey(%x) accepted what is no key", in)
		case !ok && k != nil:
			c.Fail("ParsePubKey(%x) returned a key together with an error", in)
		case ok:
			if !want.eq(k.X, k.Y) {
				c.Fail("ParsePubKey(%x) = (%x, %x)", in, k.X, k.Y)
			} else if k.Curve != btcec.S256() {
				c.Fail("ParsePubKey(%x): another curve", in)
			}
			c.Outcome("accepted")
		default:
			c.Outcome("refused")
		}
		comp := len(in) == 33 && (in[0] == 2 || in[0] == 3)
		if btcec.IsCompressedPubKey(b) != comp {
			c.Fail("IsCompressedPubKey(%x) = %v", in, !comp)
		}
	})
}

func c20RoundTrip(c *Ctx) {
	for i, p := range keyPoints(c.Thorough) {
		if !c.Case("point %d: (%x, %x)", i, p.x, p.y) {
			continue
		}
		c.Guard("key", func() {
			k := &btcec.PublicKey{Curve: btcec.S256(), X: new(big.Int).Set(p.x), Y: new(big.Int).Set(p.y)}
			type enc struct {
				name      string
				got, want []byte
			}
			for _, e := range []enc{{"SerializeCompressed", k.SerializeCompressed(), refCompressed(p)},
				{"SerializeUncompressed", k.SerializeUncompressed(), refUncompressed(p)}, {"SerializeHybrid", k.SerializeHybrid(), refHybrid(p)}} {
				if !bytes.Equal(e.got, e.want) {
					c.Fail("%s of (%x, %x) = %x", e.name, p.x, p.y, e.got)
				}
				c20Parse(c, e.want)
				k2, err := btcec.ParsePubKey(e.got, btcec.S256())
				if err != nil {
					c.Fail("%s of (%x, %x) does not parse: %v", e.name, p.x, p.y, err)
					continue
				}
				if !k.IsEqual(k2) || !k2.IsEqual(k) {
					c.Fail("(%x, %x) does not survive %s", p.x, p.y, e.name)
				}
				// the parsed key stands on its own
				for j := range e.got {
					e.got[j] ^= 0xff
				}
				if !p.eq(k2.X, k2.Y) {
					c.Fail("the key parsed from %s changes with the bytes", e.name)
				}
				if again := k2.SerializeCompressed(); !bytes.Equal(again, refCompressed(p)) {
					c.Fail("(%x, %x) parsed from %s serializes to %x", p.x, p.y, e.name, again)
				}
				n := p.neg()
				if k2.IsEqual(&btcec.PublicKey{Curve: btcec.S256(), X: n.x, Y: n.y}) {
					c.Fail("a key equals its negative")
				}
				if k2.IsEqual(&btcec.PublicKey{Curve: btcec.S256(), X: addP(p.x, one), Y: p.y}) {
					c.Fail("keys of different x are equal")
				}
				if ec := k2.ToECDSA(); !p.eq(ec.X, ec.Y) || ec.Curve != btcec.S256() {
					c.Fail("ToECDSA changes the key")
				}
				c.Add(1, 8, 8)
			}
		})
		if c.Stop() {
			return
		}
	}
}

// c20Formats: every length with every first byte.
func c20Formats(c *Ctx) {
	pts := keyPoints(false)
	var bodies [][]byte
	n := 40
	if c.Thorough {
		n = 400
	}
	for i := 0; i < n; i++ {
		p := pts[i*len(pts)/n]
		body := append(append([]byte{}, refUncompressed(p)[1:]...), bytes.Repeat([]byte{0}, 70)...)
		bodies = append(bodies, body)
	}
	bodies = append(bodies, make([]byte, 140), bytes.Repeat([]byte{0xff}, 140))
	if c.Case("no bytes") {
		c20Parse(c, nil)
		c20Parse(c, []byte{})
	}
	for ln := 1; ln <= 133; ln++ {
		for bi, body := range bodies {
			if !c.Case("%d bytes, body %d, all first bytes", ln, bi) {
				continue
			}
			for f := 0; f < 256; f++ {
				c20Parse(c, append([]byte{byte(f)}, body[:ln-1]...))
			}
			if c.Stop() {
				return
			}
		}
	}
}

// c20Coords: pairs of coordinates that are keys, almost keys, and far from keys.
func c20Coords(c *Ctx) {
	pts := keyPoints(c.Thorough)
	top := pow2(256)
	for i, p := range pts {
		if !c.Case("neighbours of point %d: (%x, %x)", i, p.x, p.y) {
			continue
		}
		var xs, ys []*big.Int
		// others: alter one coordinate
		alt := func(v *big.Int) []*big.Int {
			l := []*big.Int{v}
			for _, d := range []int64{1, -1, 2, -2, 256, -256} {
				l = append(l, new(big.Int).Add(v, big.NewInt(d)))
			}
			l = append(l, new(big.Int).Sub(sP, v), new(big.Int).Add(v, sP), mulP(v, beta), mulP(v, mulP(beta, beta)), new(big.Int), new(big.Int).Set(sP), new(big.Int).Sub(top, one))
			var r []*big.Int
			for _, x := range l {
				if x.Sign() >= 0 && x.Cmp(top) < 0 {
					r = append(r, x)
				}
			}
			return r
		}
		xs, ys = alt(p.x), alt(p.y)
		for _, x := range xs {
			for f := byte(0); f < 9; f++ {
				c20Parse(c, append([]byte{f}, b32(x)...))
			}
			for _, y := range ys {
				for f := byte(2); f < 9; f++ {
					c20Parse(c, append(append([]byte{f}, b32(x)...), b32(y)...))
				}
			}
		}
		c20Parse(c, append(append([]byte{4}, b32(p.y)...), b32(p.x)...))
		if c.Stop() {
			return
		}
	}
	// every x near the ends of the range, both parities
	n := int64(4000)
	if c.Thorough {
		n = 40000
	}
	for _, base := range []*big.Int{new(big.Int), sP, sN, new(big.Int).Sub(top, big.NewInt(n)), new(big.Int).Sub(sP, big.NewInt(n)), new(big.Int).Rsh(sP, 1)} {
		for d := int64(0); d < n; d += 10 {
			if !c.Case("compressed keys, ten x from %x+%d", base, d) {
				continue
			}
			for e := int64(0); e < 10; e++ {
				x := new(big.Int).Add(base, big.NewInt(d+e))
				if x.Cmp(top) >= 0 {
					break
				}
				c20Parse(c, append([]byte{2}, b32(x)...))
				c20Parse(c, append([]byte{3}, b32(x)...))
			}
			if c.Stop() {
				return
			}
		}
	}
}

// c20Alter: every alteration of one byte of an encoding.
func c20Alter(c *Ctx) {
	pts := keyPoints(false)
	n := 30
	if c.Thorough {
		n = 300
	}
	for i := 0; i < n; i++ {
		p := pts[(i*7+1)*len(pts)/(7*n+1)]
		for _, enc := range [][]byte{refCompressed(p), refUncompressed(p), refHybrid(p)} {
			for pos := range enc {
				if !c.Case("byte %d of %x", pos, enc) {
					continue
				}
				for v := 0; v < 256; v++ {
					b := append([]byte{}, enc...)
					b[pos] = byte(v)
					c20Parse(c, b)
				}
				if c.Stop() {
					return
				}
			}
		}
	}
}

func c20Priv(c *Ctx) {
	initComb()
	for _, d := range scalarAlphabet(true) {
		if d.Sign() == 0 || d.Cmp(sN) >= 0 {
			continue
		}
		if !c.Case("private key %x", d) {
			continue
		}
		want := mk(d, new(big.Int)).P
		c.Guard("private key", func() {
			for _, in := range [][]byte{b32(d), d.Bytes()} {
				b := spare(in)
				priv, pub := btcec.PrivKeyFromBytes(btcec.S256(), b)
				if !bytes.Equal(b, in) {
					c.Fail("PrivKeyFromBytes changed its input")
				}
				for j := range b {
					b[j] ^= 0x55
				}
				if priv.D.Cmp(d) != 0 {
					c.Fail("PrivKeyFromBytes(%x).D = %x", in, priv.D)
				}
				for _, k := range []*btcec.PublicKey{pub, priv.PubKey()} {
					if k.X.Cmp(want.X) != 0 || k.Y.Cmp(want.Y) != 0 || k.Curve != btcec.S256() {
						c.Fail("public key of %x = (%x, %x)", in, k.X, k.Y)
					}
				}
				if s := priv.Serialize(); !bytes.Equal(s, b32(d)) {
					c.Fail("Serialize of private key %x = %x", d, s)
				}
				priv2, _ := btcec.PrivKeyFromBytes(btcec.S256(), priv.Serialize())
				if priv2.D.Cmp(d) != 0 || !priv2.PubKey().IsEqual(pub) {
					c.Fail("private key %x does not survive Serialize", d)
				}
				if e := priv.ToECDSA(); e.D.Cmp(d) != 0 || e.X.Cmp(want.X) != 0 || e.Y.Cmp(want.Y) != 0 {
					c.Fail("ToECDSA changes private key %x", d)
				}
				c.Add(1, 6, 8)
				c.Outcome("private key")
			}
		})
		if c.Stop() {
			return
		}
	}
	// generated keys: whatever the random source delivers, the key is in range and fits
	l := append(scalarAlphabet(false), outsideScalars()...)
	for _, d := range l {
		if d.Sign() < 0 || !c.Case("generated key, random source delivers %x", d) {
			continue
		}
		for rep := 1; rep <= 2; rep++ {
			var k *btcec.PrivateKey
			var err error
			r := &bigReader{}
			for i := 0; i < rep; i++ {
				r.vals = append(r.vals, d)
			}
			if c.Guard("NewPrivateKey", func() { withRand(r, func() { k, err = btcec.NewPrivateKey(btcec.S256()) }) }) {
				if err != nil {
					c.Fail("NewPrivateKey: %v", err)
				} else if w := mk(k.D, new(big.Int)).P; k.D.Sign() <= 0 || k.D.Cmp(sN) >= 0 || k.X.Cmp(w.X) != 0 || k.Y.Cmp(w.Y) != 0 || k.Curve != btcec.S256() {
					c.Fail("NewPrivateKey: D = %x, key (%x, %x)", k.D, k.X, k.Y)
				} else if s := k.Serialize(); !bytes.Equal(s, b32(k.D)) {
					c.Fail("Serialize of generated key %x = %x", k.D, s)
				}
			}
			c.Add(1, 1, 2)
			c.Outcome("generated key")
		}
		if c.Stop() {
			return
		}
	}
}

func init() {
	ck := &Check{ID: "C20", Level: "model_checking",
		Rule: "state = one byte string or key; parsing is compared with a reference parser on big integers, encodings with reference encodings",
		Assumptions: []string{
			"coordinates outside the alphabet behave like those in it (the code looks at lengths, the first byte, comparisons with the prime, parity and the curve equation only)",
		}}
	add := func(name, bound string, run func(*Ctx)) {
		ck.Units = append(ck.Units, Unit{Name: name, Bound: bound, Run: run})
	}
	add("round trip", "points with x or y of every length, within 300 (thorough: 5000) of 0 and the prime, near the order, small multiples of G, all three encodings", c20RoundTrip)
	add("formats", "all lengths 0 to 133, all 256 first bytes, 42 (thorough: 402) bodies", c20Formats)
	add("coordinates", "all pairs of altered coordinates around each point, first bytes 0 to 8; every x of six runs of 4000 (thorough: 40000)", c20Coords)
	add("alterations", "keys with one byte altered: all positions, all values, 30 points (thorough: 300)", c20Alter)
	add("private keys", "all scalars 2^i and 2^i-1, 2^i+1 and boundary scalars; generated keys for boundary deliveries of the random source", c20Priv)
	register(ck)
}
