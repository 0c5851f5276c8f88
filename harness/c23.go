package zkmc

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha512"
	"fmt"
	"math/big"

	"github.com/mit-dci/zksigma/btcec"
)

// Reference ECIES: IV, 02ca 0020 X 0020 Y, AES-256-CBC data, HMAC-SHA-256 over all of that.

// eciesKeys derives the two keys from the shared x coordinate; the secret goes in without
// leading zeros, or (padded) with them.
func eciesKeys(x *big.Int, padded bool) (ke, km []byte) {
	b := x.Bytes()
	if padded {
		b = b32(x)
	}
	h := sha512.Sum512(b)
	return h[:32], h[32:]
}

// eciesSeal builds a ciphertext from already padded plaintext and the bytes of a public key.
func eciesSeal(iv, pubX, pubY, padded []byte, ke, km []byte) []byte {
	out := append([]byte{}, iv...)
	out = append(out, 2, 0xca, 0, 32)
	out = append(out, pubX...)
	out = append(out, 0, 32)
	out = append(out, pubY...)
	blk, err := aes.NewCipher(ke)
	if err != nil {
		panic(err)
	}
	data := make([]byte, len(padded))
	cipher.NewCBCEncrypter(blk, iv).CryptBlocks(data, padded)
	out = append(out, data...)
	return append(out, hm256(km, out)...)
}

func pkcs(m []byte) []byte {
	n := 16 - len(m)%16
	return append(append([]byte{}, m...), bytes.Repeat([]byte{byte(n)}, n)...)
}

// eciesOpen decrypts with the private key d; the message or why not.
func eciesOpen(d *big.Int, ct []byte) ([]byte, string) {
	if len(ct) < 134 || (len(ct)-118)%16 != 0 {
		return nil, "length"
	}
	if !bytes.Equal(ct[16:20], []byte{2, 0xca, 0, 32}) || !bytes.Equal(ct[52:54], []byte{0, 32}) {
		return nil, "header"
	}
	x, y := new(big.Int).SetBytes(ct[20:52]), new(big.Int).SetBytes(ct[54:86])
	if x.Cmp(sP) >= 0 || y.Cmp(sP) >= 0 || !onCurve(x, y) {
		return nil, "point"
	}
	sh := apt{x, y}.mul(d)
	body, mac := ct[:len(ct)-32], ct[len(ct)-32:]
	for _, padded := range []bool{false, true} {
		ke, km := eciesKeys(sh.x, padded)
		if !bytes.Equal(hm256(km, body), mac) {
			continue
		}
		blk, _ := aes.NewCipher(ke)
		pt := make([]byte, len(body)-86)
		cipher.NewCBCDecrypter(blk, ct[:16]).CryptBlocks(pt, body[86:])
		n := int(pt[len(pt)-1])
		if n < 1 || n > 16 {
			return nil, "padding"
		}
		for _, b := range pt[len(pt)-n:] {
			if int(b) != n {
				return nil, "padding"
			}
		}
		return pt[:len(pt)-n], ""
	}
	return nil, "mac"
}

// eciesKeyList: boundary keys, and keys whose public x has leading zeros.
func eciesKeyList(full bool) []*big.Int {
	l := ecdsaKeys(false)
	if !full {
		var r []*big.Int
		for i, d := range l {
			if i < 6 || i%6 == 0 {
				r = append(r, d)
			}
		}
		l = r
	}
	return append(l, shortX(31)...)
}

var shortXs = map[int][]*big.Int{}

// shortX: small multiples of G whose x needs at most n bytes.
func shortX(n int) []*big.Int {
	if shortXs[n] == nil {
		j := refG.jac()
		for k := int64(2); k < 3000 && len(shortXs[n]) < 3; k++ {
			j = j.addA(refG)
			if a := j.affine(); a.x.BitLen() <= 8*n {
				shortXs[n] = append(shortXs[n], big.NewInt(k))
			}
		}
	}
	return shortXs[n]
}

func messages(max int) [][]byte {
	var l [][]byte
	for n := 0; n <= max; n++ {
		b := make([]byte, n)
		newStream(fmt.Sprint("message ", n)).Read(b)
		l = append(l, b)
	}
	// around the sizes of pages and of 16-bit lengths
	for _, k := range []uint{10, 11, 12, 13, 14, 15, 16, 17, 18, 20} {
		for _, d := range []int{-17, -16, -15, -1, 0, 1, 16, 118, 1 << (k - 1)} {
			b := make([]byte, 1<<k+d)
			newStream(fmt.Sprint("message ", k, d)).Read(b)
			l = append(l, b)
		}
	}
	for n := 0; n <= 48; n++ {
		l = append(l, make([]byte, n))
		// messages that end like padding
		for _, p := range []int{1, 2, 15, 16, 17, 255} {
			l = append(l, append(make([]byte, n), bytes.Repeat([]byte{byte(p)}, p%32)...))
		}
		l = append(l, bytes.Repeat([]byte{byte(n)}, n), bytes.Repeat([]byte{byte(16 - n%16)}, n))
	}
	return l
}

func c23RoundTrip(c *Ctx) {
	initComb()
	max := 700
	if c.Thorough {
		max = 1500
	}
	msgs := messages(max)
	for ki, d := range eciesKeyList(c.Thorough) {
		var key keyPair
		for mi, m := range msgs {
			if ki > 0 && !c.Thorough && (mi+ki)%4 != 0 {
				continue
			}
			if c.Stop() {
				return
			}
			if !c.Case("key %x, message of %d bytes: %x", d, len(m), clipb(m)) {
				continue
			}
			if key.d == nil {
				key = mkKey(d)
			}
			in := spare(m)
			c.Guard("Encrypt and Decrypt", func() {
				var ct []byte
				var err error
				withRand(newStream(fmt.Sprint("c23 ", ki, mi)), func() { ct, err = btcec.Encrypt(key.pub, in) })
				c.Add(1, 2, 4)
				if err != nil {
					c.Fail("Encrypt: %v", err)
					return
				}
				if !bytes.Equal(in, m) {
					c.Fail("Encrypt changed the message")
				}
				if len(ct) != 118+16*(len(m)/16+1) {
					c.Fail("a ciphertext of %d bytes for %d bytes", len(ct), len(m))
					return
				}
				if got, why := eciesOpen(d, ct); why != "" || !bytes.Equal(got, m) {
					c.Fail("the ciphertext %x of %x is not as documented (%s), or holds %x", ct, m, why, got)
					return
				}
				ct2 := spare(ct)
				got, err := btcec.Decrypt(key.priv, ct2)
				if err != nil || !bytes.Equal(got, m) {
					c.Fail("Decrypt gives %x, %v for a message %x", got, err, m)
				}
				if !bytes.Equal(ct, ct2) {
					c.Fail("Decrypt changed the ciphertext")
				}
				c.Outcome("round trip")
			})
		}
	}
}

func clipb(b []byte) []byte {
	if len(b) > 60 {
		return b[:60]
	}
	return b
}

// c23Shared: both sides get the same secret, the x of the common point.
func c23Shared(c *Ctx) {
	initComb()
	keys := append(ecdsaKeys(c.Thorough), shortX(31)...)
	short := shortX(31)
	// pairs whose product is one of the short ones
	for _, k := range short {
		inv := new(big.Int).ModInverse(big.NewInt(7), sN)
		keys = append(keys, mN(new(big.Int).Mul(k, inv)))
	}
	keys = append(keys, big.NewInt(7))
	cache := make([]*keyPair, len(keys))
	get := func(i int) keyPair {
		if cache[i] == nil {
			k := mkKey(keys[i])
			cache[i] = &k
		}
		return *cache[i]
	}
	for i := range keys {
		if !c.Case("key %x with all keys", keys[i]) {
			continue
		}
		for j := 0; j < len(keys); j++ {
			a, b := get(i), get(j)
			x := mk(new(big.Int).Mul(a.d, b.d), new(big.Int)).P.X
			c.Guard("GenerateSharedSecret", func() {
				s1 := btcec.GenerateSharedSecret(a.priv, b.pub)
				s2 := btcec.GenerateSharedSecret(b.priv, a.pub)
				c.Add(1, 2, 2)
				if !bytes.Equal(s1, s2) {
					c.Fail("keys %x and %x: secrets %x and %x", a.d, b.d, s1, s2)
				}
				if new(big.Int).SetBytes(s1).Cmp(x) != 0 {
					c.Fail("keys %x and %x: secret %x, the common point has x = %x", a.d, b.d, s1, x)
				}
				c.Outcome("shared secret")
			})
		}
		if c.Stop() {
			return
		}
	}
}

// c23Alter: every alteration of a ciphertext and every other key is refused.
func c23Alter(c *Ctx) {
	initComb()
	keys := eciesKeyList(true)
	lens := []int{0, 1, 7, 14, 15, 16, 17, 31, 32, 33, 64, 100, 200}
	nk := 3
	if c.Thorough {
		nk = 6
	}
	for ki := 0; ki < nk; ki++ {
		d := keys[(ki*7+2)%len(keys)]
		for _, n := range lens {
			if c.Stop() {
				return
			}
			m := make([]byte, n)
			newStream("altered").Read(m)
			var key keyPair
			var ct []byte
			get := func() bool {
				if ct == nil {
					key = mkKey(d)
					e := mkKey(new(big.Int).Add(big.NewInt(1000), d))
					iv := make([]byte, 16)
					newStream("iv").Read(iv)
					x := mk(new(big.Int).Mul(d, e.d), new(big.Int)).P.X
					ke, km := eciesKeys(x, false)
					ct = eciesSeal(iv, b32(e.pub.X), b32(e.pub.Y), pkcs(m), ke, km)
				}
				return true
			}
			refuse := func(what string, k keyPair, b []byte) {
				if bytes.Equal(b, ct) && k.d.Cmp(d) == 0 {
					return
				}
				c.Guard("Decrypt", func() {
					in := append([]byte{}, b...)
					got, err := btcec.Decrypt(k.priv, in)
					c.Add(1, 1, 1)
					if err == nil {
						c.Fail("key %x: %s: Decrypt accepts %x (made from %x for key %x) and gives %x", k.d, what, b, ct, d, got)
					} else if got != nil {
						c.Fail("key %x: %s: Decrypt gives %x together with an error", k.d, what, got)
					}
					if !bytes.Equal(in, b) {
						c.Fail("Decrypt changed the ciphertext")
					}
					c.Outcome("refused: " + what)
				})
			}
			if c.Case("key %x, %d bytes: unaltered", d, n) {
				get()
				c.Guard("Decrypt", func() {
					got, err := btcec.Decrypt(key.priv, ct)
					c.Add(1, 1, 1)
					if err != nil || !bytes.Equal(got, m) {
						c.Fail("Decrypt(%x) = %x, %v; the message is %x", ct, got, err, m)
					}
					c.Outcome("accepted")
				})
			}
			total := 118 + 16*(n/16+1)
			for pos := 0; pos < total; pos++ {
				if !c.Case("key %x, %d bytes: byte %d altered", d, n, pos) {
					continue
				}
				get()
				for v := 0; v < 256; v++ {
					x := byte(v) ^ ct[pos]
					header := pos >= 16 && pos < 20 || pos >= 52 && pos < 54
					if !header && !c.Thorough && x&(x-1) != 0 && v != 0 && v != 255 {
						continue
					}
					b := append([]byte{}, ct...)
					b[pos] = byte(v)
					refuse("one byte", key, b)
				}
			}
			for l := 0; l < total+64; l++ {
				if !c.Case("key %x, %d bytes: cut or extended to %d", d, n, l) {
					continue
				}
				get()
				if l <= total {
					refuse("cut at the end", key, ct[:l])
					refuse("cut at the start", key, ct[total-l:])
					if l > 118 {
						// cut inside the data, keeping the last 32 bytes
						refuse("cut in the middle", key, append(append([]byte{}, ct[:l-32]...), ct[total-32:]...))
					}
				} else {
					refuse("extended", key, append(append([]byte{}, ct...), make([]byte, l-total)...))
					refuse("extended", key, append(append([]byte{}, ct...), bytes.Repeat([]byte{byte(l - total)}, l-total)...))
					refuse("extended", key, append(make([]byte, l-total), ct...))
				}
			}
			if c.Case("key %x, %d bytes: parts exchanged", d, n) {
				get()
				// the other point with this x has the same shared secret
				b := append([]byte{}, ct...)
				y := new(big.Int).SetBytes(ct[54:86])
				copy(b[54:86], b32(new(big.Int).Sub(sP, y)))
				refuse("negated point", key, b)
				b = append([]byte{}, ct...)
				copy(b[20:52], ct[54:86])
				copy(b[54:86], ct[20:52])
				refuse("exchanged coordinates", key, b)
				b = append([]byte{}, ct...)
				copy(b[20:52], make([]byte, 32))
				copy(b[54:86], make([]byte, 32))
				refuse("zero point", key, b)
				for i := 86; i+16 <= total-32; i += 16 {
					for j := 86; j+16 <= total-32; j += 16 {
						b = append([]byte{}, ct...)
						copy(b[i:i+16], ct[j:j+16])
						copy(b[j:j+16], ct[i:i+16])
						refuse("exchanged blocks", key, b)
					}
					b = append([]byte{}, ct...)
					copy(b[i:i+16], ct[:16])
					refuse("IV as block", key, b)
					b = append(append([]byte{}, ct[:i]...), ct[i+16:]...)
					refuse("block left out", key, b)
					b = append(append(append([]byte{}, ct[:i+16]...), ct[i:i+16]...), ct[i+16:]...)
					refuse("block repeated", key, b)
				}
				for _, mac := range [][]byte{make([]byte, 32), hm256(nil, ct[:total-32]), hm256(make([]byte, 32), ct[:total-32]), bytes.Repeat([]byte{0xff}, 32)} {
					refuse("other MAC", key, append(append([]byte{}, ct[:total-32]...), mac...))
				}
			}
			if c.Case("key %x, %d bytes: other keys", d, n) {
				get()
				for _, o := range keys {
					// d and N-d share the secret's x coordinate
					if o.Cmp(d) != 0 && o.Cmp(new(big.Int).Sub(sN, d)) != 0 {
						refuse("other key", mkKey(o), ct)
					}
				}
			}
		}
	}
}

// c23Crafted: ciphertexts with a good MAC that nobody encrypts: bad padding, points off the curve.
func c23Crafted(c *Ctx) {
	initComb()
	d := big.NewInt(0x1234567)
	e := big.NewInt(0x7654321)
	x := mk(new(big.Int).Mul(d, e), new(big.Int)).P.X
	iv := bytes.Repeat([]byte{7}, 16)
	for blocks := 0; blocks <= 3; blocks++ {
		for last := 0; last < 256; last++ {
			if !c.Case("%d blocks, last byte %d", blocks, last) {
				continue
			}
			key, ek := mkKey(d), mkKey(e)
			ke, km := eciesKeys(x, false)
			for _, fill := range []byte{0, byte(last), 0xaa} {
				pt := bytes.Repeat([]byte{fill}, 16*blocks)
				if len(pt) > 0 {
					pt[len(pt)-1] = byte(last)
				}
				ct := eciesSeal(iv, b32(ek.pub.X), b32(ek.pub.Y), pt, ke, km)
				c.Guard("Decrypt", func() {
					got, err := btcec.Decrypt(key.priv, ct)
					c.Add(1, 1, 1)
					switch {
					case blocks == 0 || last > 16:
						if err == nil {
							c.Fail("Decrypt(%x) accepts a padding of %d bytes in %d blocks and gives %x", ct, last, blocks, got)
						}
						c.Outcome("bad padding refused")
					case last >= 1 && fill == byte(last):
						if err != nil || !bytes.Equal(got, pt[:len(pt)-last]) {
							c.Fail("Decrypt(%x) = %x, %v; the message is %x", ct, got, err, pt[:len(pt)-last])
						}
						c.Outcome("padding removed")
					default:
						c.Outcome("odd padding, no panic")
					}
				})
			}
			if c.Stop() {
				return
			}
		}
	}
	// points that are not keys, with the MAC that a careless decryption would compute
	type pt struct{ x, y *big.Int }
	var pts []pt
	for i := int64(0); i < 12; i++ {
		for j := int64(0); j < 12; j++ {
			if !onCurve(big.NewInt(i), big.NewInt(j)) {
				pts = append(pts, pt{big.NewInt(i), big.NewInt(j)})
			}
		}
		pts = append(pts, pt{new(big.Int).Add(sP, big.NewInt(i)), big.NewInt(i)}, pt{sGx, addP(sGy, big.NewInt(i+1))}, pt{big.NewInt(i), new(big.Int).Add(sP, big.NewInt(i))})
	}
	for _, p := range pts {
		if !c.Case("point (%x, %x) off the curve", p.x, p.y) {
			continue
		}
		for _, d := range []*big.Int{one, two, big.NewInt(3), big.NewInt(0x1234567)} {
			key := mkKey(d)
			var sec []*big.Int
			c.Guard("curve", func() {
				sx, _ := btcec.S256().ScalarMult(p.x, p.y, d.Bytes())
				sec = append(sec, sx)
			})
			sec = append(sec, new(big.Int), p.x)
			for _, s := range sec {
				if s.BitLen() > 256 {
					continue
				}
				ke, km := eciesKeys(s, false)
				ct := eciesSeal(iv, b32(p.x), b32(p.y), pkcs([]byte("x")), ke, km)
				c.Guard("Decrypt", func() {
					got, err := btcec.Decrypt(key.priv, ct)
					c.Add(1, 1, 1)
					if err == nil {
						c.Fail("key %x: Decrypt accepts the point (%x, %x) and gives %x", d, p.x, p.y, got)
					}
					c.Outcome("point off the curve refused")
				})
			}
		}
		if c.Stop() {
			return
		}
	}
}

// constReader delivers one byte value for ever, so that the keys drawn from it are always the same.
type constReader byte

func (r constReader) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(r)
	}
	return len(b), nil
}

// c23Short: round trips whose shared secret has leading zero bytes. The ephemeral key is the same
// for every encryption from a constant source, so private keys can be looked for that lead to
// such a secret.
func c23Short(c *Ctx) {
	initComb()
	sources, keys, reach := 6, 4, 3000
	if c.Thorough {
		sources, keys, reach = 40, 12, 9000
	}
	for b := 1; b <= sources; b++ {
		if !c.Case("random source of bytes %02x: keys leading to a secret of at most 31 bytes", b*6+1) {
			continue
		}
		seal := func(key keyPair, m []byte) (ct []byte) {
			c.Guard("Encrypt", func() {
				var err error
				withRand(constReader(b*6+1), func() { ct, err = btcec.Encrypt(key.pub, m) })
				if err != nil || len(ct) < 134 {
					c.Fail("Encrypt: %v", err)
					ct = nil
				}
			})
			return
		}
		first := seal(mkKey(big.NewInt(5)), []byte("x"))
		if first == nil {
			return
		}
		E := apt{new(big.Int).SetBytes(first[20:52]), new(big.Int).SetBytes(first[54:86])}
		if !onCurve(E.x, E.y) {
			c.Fail("the ephemeral key is not on the curve: %x", first)
			return
		}
		j := E.jac()
		found := 0
		for k := int64(2); k < int64(reach) && found < keys; k++ {
			j = j.addA(E)
			if j.affine().x.BitLen() > 248 {
				continue
			}
			found++
			key := mkKey(big.NewInt(k))
			for _, n := range []int{0, 1, 15, 16, 40} {
				m := make([]byte, n)
				newStream(fmt.Sprint("short", n)).Read(m)
				ct := seal(key, m)
				if ct == nil {
					return
				}
				if !bytes.Equal(ct[20:52], first[20:52]) {
					c.Outcome("ephemeral key not repeated")
					continue
				}
				c.Add(1, 2, 2)
				if got, why := eciesOpen(key.d, ct); why != "" || !bytes.Equal(got, m) {
					c.Fail("the ciphertext %x of %x for key %d is not as documented (%s), or holds %x", ct, m, k, why, got)
				}
				c.Guard("Decrypt", func() {
					if got, err := btcec.Decrypt(key.priv, ct); err != nil || !bytes.Equal(got, m) {
						c.Fail("key %d, shared secret with leading zeros: Decrypt gives %x, %v for %x", k, got, err, m)
					}
				})
				c.Outcome("short secret")
			}
		}
		if c.Stop() {
			return
		}
	}
}

// c23Fresh: no two encryptions share the ephemeral key or the IV, also for equal messages.
func c23Fresh(c *Ctx) {
	initComb()
	runs := 40
	if c.Thorough {
		runs = 400
	}
	for _, n := range []int{0, 1, 16, 33} {
		for _, d := range eciesKeyList(false) {
			if !c.Case("key %x, %d bytes, %d encryptions", d, n, runs) {
				continue
			}
			key := mkKey(d)
			m := make([]byte, n)
			seen := map[string]string{}
			src := newStream("fresh")
			var first []byte
			var varies [86]bool
			note := func(what string, b []byte, i int) {
				if o, dup := seen[what+string(b)]; dup {
					c.Fail("encryptions %s and %d share the %s %x", o, i, what, b)
				}
				seen[what+string(b)] = fmt.Sprint(i)
			}
			c.Guard("Encrypt", func() {
				for i := 0; i < runs && !c.Failed(); i++ {
					var ct []byte
					var err error
					withRand(src, func() { ct, err = btcec.Encrypt(key.pub, m) })
					c.Add(1, 1, 1)
					if err != nil || len(ct) < 134 {
						c.Fail("Encrypt: %v", err)
						return
					}
					if first == nil {
						first = ct
					}
					for j := 0; j < 86; j++ {
						varies[j] = varies[j] || ct[j] != first[j]
					}
					note("IV", ct[:16], i)
					note("ephemeral key", ct[20:52], i)
					note("data", ct[86:len(ct)-32], i)
					c.Outcome("fresh")
				}
			})
			// every byte of the IV and of the ephemeral key varies
			if len(first) > 86 && !c.Failed() {
				for i := 0; i < 86; i++ {
					if !varies[i] && !(i >= 16 && i < 20 || i == 52 || i == 53) {
						c.Fail("byte %d of the ciphertext is %02x in all %d encryptions", i, first[i], runs)
					}
				}
			}
			if c.Stop() {
				return
			}
		}
	}
}

func init() {
	ck := &Check{ID: "C23", Level: "model_checking",
		Rule: "state = key, message and ciphertext; ciphertexts are opened and made by an independent implementation of the documented layout, every altered one has to be refused",
		Assumptions: []string{
			"a shared x coordinate with leading zeros may enter the key derivation with or without them",
			"private keys d and N-d share all secrets: each opens the other's ciphertexts",
			"padding bytes other than the last are not looked at",
		}}
	add := func(name, bound string, run func(*Ctx)) {
		ck.Units = append(ck.Units, Unit{Name: name, Bound: bound, Run: run})
	}
	add("round trip", "all lengths 0 to 700 (thorough: 1500), messages that look like padding, boundary keys and keys with short x", c23RoundTrip)
	add("shared secret", "all pairs of boundary keys (thorough: all 2^i, 2^i-1, 2^i+1), products with a short x", c23Shared)
	add("short secrets", "6 (thorough: 40) constant random sources, 4 (thorough: 12) keys each whose shared secret has a leading zero byte, 5 message lengths", c23Short)
	add("alterations", "39 ciphertexts (thorough: 78): every bit of every byte (thorough: every value), every truncation and extension, exchanged parts, other keys", c23Alter)
	add("crafted", "authenticated ciphertexts with every last byte, and with points off the curve", c23Crafted)
	add("fresh randomness", "series of 40 (thorough: 400) encryptions for each of the keys", c23Fresh)
	register(ck)
}
