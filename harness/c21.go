package zkmc

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
	"fmt"
	"math/big"

	"github.com/mit-dci/zksigma/btcec"
)

// Reference ECDSA on secp256k1 with RFC 6979 nonces, from the documents.

func hm256(k []byte, parts ...[]byte) []byte {
	h := hmac.New(sha256.New, k)
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

// refHashInt: the leftmost 256 bits.
func refHashInt(hash []byte) *big.Int {
	if len(hash) > 32 {
		hash = hash[:32]
	}
	return new(big.Int).SetBytes(hash)
}

func refNonce(d *big.Int, hash []byte) *big.Int {
	h1 := b32(new(big.Int).Mod(refHashInt(hash), sN))
	x := b32(d)
	K, V := make([]byte, 32), bytes.Repeat([]byte{1}, 32)
	K = hm256(K, V, []byte{0}, x, h1)
	V = hm256(K, V)
	K = hm256(K, V, []byte{1}, x, h1)
	V = hm256(K, V)
	for {
		V = hm256(K, V)
		k := new(big.Int).SetBytes(V)
		if k.Sign() > 0 && k.Cmp(sN) < 0 {
			return k
		}
		K = hm256(K, V, []byte{0})
		V = hm256(K, V)
	}
}

// refSign gives the pair with low S and the recovery number.
func refSign(d *big.Int, hash []byte) (r, s *big.Int, rec int) {
	k := refNonce(d, hash)
	R := mk(k, new(big.Int)).P
	r = new(big.Int).Mod(R.X, sN)
	s = new(big.Int).Mul(d, r)
	s.Add(s, refHashInt(hash))
	s.Mul(s, new(big.Int).ModInverse(k, sN))
	s.Mod(s, sN)
	rec = int(R.Y.Bit(0))
	if R.X.Cmp(sN) >= 0 {
		rec |= 2
	}
	if s.Cmp(new(big.Int).Rsh(sN, 1)) > 0 {
		s.Sub(sN, s)
		rec ^= 1
	}
	return
}

// refEcdsa for the key d*G.
func refEcdsa(d *big.Int, hash []byte, r, s *big.Int) bool {
	if r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(sN) >= 0 || s.Cmp(sN) >= 0 {
		return false
	}
	w := new(big.Int).ModInverse(s, sN)
	u := new(big.Int).Mul(r, d)
	u.Add(u, refHashInt(hash))
	u.Mul(u, w)
	u.Mod(u, sN)
	if u.Sign() == 0 {
		return false
	}
	return new(big.Int).Mod(mk(u, new(big.Int)).P.X, sN).Cmp(r) == 0
}

func hashAlphabet(full bool) [][]byte {
	var l [][]byte
	seen := map[string]bool{}
	add := func(b []byte) {
		if !seen[string(b)] {
			seen[string(b)] = true
			l = append(l, b)
		}
	}
	max := 72
	if full {
		max = 300
	}
	for n := 1; n <= max; n++ { // crypto/ecdsa verifies no empty hash
		add(bytes.Repeat([]byte{0}, n))
		add(bytes.Repeat([]byte{0xff}, n))
		b := make([]byte, n)
		newStream(fmt.Sprint("hash ", n)).Read(b)
		add(b)
	}
	top := pow2(256)
	for _, v := range []*big.Int{one, sN, new(big.Int).Sub(sN, one), new(big.Int).Add(sN, one), new(big.Int).Sub(top, sN), new(big.Int).Sub(top, one), new(big.Int).Rsh(sN, 1), sP, new(big.Int).Sub(sP, one)} {
		add(b32(v))
		add(append(b32(v), 0))
		add(append(b32(v), 0xff, 1))
		add(append([]byte{0}, b32(v)...))
		add(append([]byte{1}, b32(v)...))
	}
	for _, v := range scalarAlphabet(full) {
		add(b32(v))
		if len(v.Bytes()) < 32 {
			if v.Sign() > 0 {
				add(v.Bytes())
			}
		}
	}
	for i := uint(0); i < 256; i += 8 {
		add(b32(pow2(i)))
		add(b32(pow2(i + 7)))
	}
	return l
}

func ecdsaKeys(full bool) []*big.Int {
	var l []*big.Int
	for _, d := range scalarAlphabet(full) {
		if d.Sign() > 0 && d.Cmp(sN) < 0 {
			l = append(l, d)
		}
	}
	return l
}

type keyPair struct {
	d    *big.Int
	priv *btcec.PrivateKey
	pub  *btcec.PublicKey
}

// mkKey builds the key from the reference arithmetic.
func mkKey(d *big.Int) keyPair {
	p := mk(d, new(big.Int)).P
	priv := &btcec.PrivateKey{D: new(big.Int).Set(d)}
	priv.Curve, priv.X, priv.Y = btcec.S256(), p.X, p.Y
	return keyPair{d, priv, &btcec.PublicKey{Curve: btcec.S256(), X: new(big.Int).Set(p.X), Y: new(big.Int).Set(p.Y)}}
}

func c21Sign(c *Ctx) {
	initComb()
	hashes := hashAlphabet(c.Thorough)
	few := map[string]bool{}
	for _, d := range ecdsaKeys(false) {
		few[d.String()] = true
	}
	for di, d := range ecdsaKeys(true) {
		if c.Stop() {
			return
		}
		hashes := hashes
		if !c.Thorough && !few[d.String()] {
			// every 13th hash, not the same ones for every key
			var l [][]byte
			for i := di % 13; i < len(hashes); i += 13 {
				l = append(l, hashes[i])
			}
			hashes = l
		}
		var key keyPair
		for b := 0; b < len(hashes); b += 16 {
			if !c.Case("key %x, hashes %d to %d", d, b, b+15) {
				continue
			}
			if key.d == nil {
				key = mkKey(d)
			}
			for i := b; i < b+16 && i < len(hashes); i++ {
				h := spare(hashes[i])
				r, s, _ := refSign(d, h)
				c.Guard("Sign", func() {
					sig, err := key.priv.Sign(h)
					c.Add(1, 2, 2)
					if err != nil {
						c.Fail("key %x: Sign(%x): %v", d, h, err)
						return
					}
					if sig.R.Cmp(r) != 0 || sig.S.Cmp(s) != 0 {
						c.Fail("key %x: Sign(%x) = (%x, %x), the RFC 6979 signature is (%x, %x)", d, h, sig.R, sig.S, r, s)
						return
					}
					if !sig.Verify(h, key.pub) {
						c.Fail("key %x: the signature of %x does not verify", d, h)
					}
					if key.priv.D.Cmp(d) != 0 || !bytes.Equal(h, hashes[i]) {
						c.Fail("signing changes the key or the hash")
					}
					c.Outcome("signed and verified")
				})
			}
			if c.Stop() {
				return
			}
		}
	}
}

// c21Reject: for one signature, every alteration of hash, pair and key, against the reference.
func c21Reject(c *Ctx) {
	initComb()
	nk, nh := 7, 10
	if c.Thorough {
		nk, nh = 30, 50
	}
	all, hashes := ecdsaKeys(false), hashAlphabet(false)
	// the keys that a signature is tried under
	var others []keyPair
	for i, d := range all {
		if !c.Thorough && i%2 == 1 && i > 10 {
			continue
		}
		others = append(others, mkKey(d))
	}
	half := new(big.Int).Rsh(sN, 1)
	for ki := 0; ki < nk; ki++ {
		d := all[ki*len(all)/nk]
		for hi := 0; hi < nh; hi++ {
			h := hashes[(hi*len(hashes)/nh+ki)%len(hashes)]
			if c.Stop() {
				return
			}
			key := mkKey(d)
			var r, s *big.Int
			lazy := func() {
				if r == nil {
					r, s, _ = refSign(d, h)
				}
			}
			check := func(what string, h []byte, r, s *big.Int, k keyPair) {
				want := refEcdsa(k.d, h, r, s)
				c.Guard("Verify", func() {
					sig := &btcec.Signature{R: new(big.Int).Set(r), S: new(big.Int).Set(s)}
					got := sig.Verify(h, k.pub)
					c.Add(1, 1, 3)
					if sig.R.Cmp(r) != 0 || sig.S.Cmp(s) != 0 {
						c.Fail("%s: Verify changes the signature (%x, %x)", what, r, s)
					}
					if got != want {
						c.Fail("%s: signature (%x, %x) of %x under key %x*G: verdict %v, should be %v", what, r, s, h, k.d, got, want)
					}
					if want {
						c.Outcome("accepted: " + what)
					} else {
						c.Outcome("rejected: " + what)
					}
				})
			}
			if c.Case("key %x, hash %x, altered pairs", d, h) {
				lazy()
				var rs, ss []*big.Int
				for _, v := range []*big.Int{r, s} {
					l := []*big.Int{v, new(big.Int).Sub(sN, v), new(big.Int), one, sN, new(big.Int).Sub(sN, one), new(big.Int).Add(v, sN), new(big.Int).Neg(v), new(big.Int).Sub(v, sN),
						new(big.Int).Add(v, one), new(big.Int).Sub(v, one), half, sP, new(big.Int).Add(sN, one), new(big.Int).Lsh(v, 1), new(big.Int).Add(v, pow2(256))}
					if rs == nil {
						rs = append(l, s)
					} else {
						ss = append(l, r)
					}
				}
				for _, r1 := range rs {
					for _, s1 := range ss {
						check("altered pair", h, r1, s1, key)
					}
				}
				for i := uint(0); i < 256; i++ {
					check("one bit of R", h, new(big.Int).Xor(r, pow2(i)), s, key)
					check("one bit of S", h, r, new(big.Int).Xor(s, pow2(i)), key)
				}
			}
			if c.Case("key %x, hash %x, altered hashes", d, h) {
				lazy()
				for i := 0; i < 8*len(h) && i < 8*48; i++ {
					g := append([]byte{}, h...)
					g[i/8] ^= 1 << uint(i%8)
					check("one bit of the hash", g, r, s, key)
				}
				for i := 1; i < len(h); i++ {
					check("shorter hash", h[:i], r, s, key)
				}
				check("longer hash", append(append([]byte{}, h...), 0), r, s, key)
				check("longer hash", append(append([]byte{}, h...), 7), r, s, key)
				check("longer hash", append([]byte{0}, h...), r, s, key)
				v := refHashInt(h)
				for _, w := range []*big.Int{new(big.Int).Add(v, sN), new(big.Int).Sub(v, sN), new(big.Int).Sub(sN, v)} {
					if w.Sign() >= 0 && w.BitLen() <= 256 {
						check("hash moved by the order", b32(w), r, s, key)
					}
				}
				for _, g := range hashes {
					check("another hash", g, r, s, key)
				}
			}
			if c.Case("key %x, hash %x, other keys", d, h) {
				lazy()
				for _, o := range others {
					check("another key", h, r, s, o)
					check("another key", h, r, new(big.Int).Sub(sN, s), o)
				}
				check("negated key", h, r, s, mkKey(new(big.Int).Sub(sN, d)))
				for _, e := range []int64{1, -1} {
					if d2 := mN(new(big.Int).Add(d, big.NewInt(e))); d2.Sign() != 0 {
						check("another key", h, r, s, mkKey(d2))
					}
				}
				// the other key that the pair recovers to is a key for which it is valid
				if d2, ok := otherSigner(h, r, s, d); ok {
					check("the second key of the pair", h, r, s, mkKey(d2))
				}
			}
		}
	}
}

// otherSigner: with R = k*G, the keys for which (r, s) is valid are (s*k - e)/r and (-s*k - e)/r.
func otherSigner(h []byte, r, s, d *big.Int) (*big.Int, bool) {
	ri := new(big.Int).ModInverse(r, sN)
	e := refHashInt(h)
	// s*k = e + d*r
	sk := mN(new(big.Int).Add(e, new(big.Int).Mul(d, r)))
	d2 := mN(new(big.Int).Mul(new(big.Int).Sub(new(big.Int).Neg(sk), e), ri))
	return d2, d2.Sign() != 0
}

// c21Random: the random source has no influence; equal hash bits give equal signatures.
func c21Random(c *Ctx) {
	initComb()
	keys, hashes := ecdsaKeys(false), hashAlphabet(false)
	for ki, d := range keys {
		for hi := ki % 5; hi < len(hashes); hi += 5 {
			h := hashes[hi]
			if c.Stop() {
				return
			}
			if !c.Case("key %x, hash %x, random sources", d, h) {
				continue
			}
			key := mkKey(d)
			r, s, _ := refSign(d, h)
			sign := func(what string, k *btcec.PrivateKey, h []byte) {
				sig, err := k.Sign(h)
				c.Add(1, 1, 1)
				if err != nil {
					c.Fail("key %x: Sign(%x) with %s: %v", d, h, what, err)
				} else if sig.R.Cmp(r) != 0 || sig.S.Cmp(s) != 0 {
					c.Fail("key %x: Sign(%x) with %s = (%x, %x), should be (%x, %x)", d, h, what, sig.R, sig.S, r, s)
				}
				c.Outcome("the same signature with " + what)
			}
			c.Guard("Sign", func() {
				withRand(newStream("a"), func() { sign("one random source", key.priv, h) })
				withRand(newStream("b"), func() { sign("another random source", key.priv, h) })
				withRand(&faultReader{src: newStream("c"), k: 0, count: -1, err: errRand}, func() { sign("a failing random source", key.priv, h) })
				withRand(&bigReader{vals: []*big.Int{new(big.Int), new(big.Int), new(big.Int)}}, func() { sign("a random source of zeros", key.priv, h) })
				if len(h) > 32 {
					sign("the hash cut to 32 bytes", key.priv, h[:32])
				}
				if len(h) >= 32 {
					sign("bytes behind 32", key.priv, append(append([]byte{}, h...), 9, 9, 9))
				} else {
					sign("zeros before a short hash", key.priv, append(make([]byte, 32-len(h)), h...))
				}
				k2, _ := btcec.PrivKeyFromBytes(btcec.S256(), b32(d))
				sign("the key from bytes", k2, h)
				sign("the same key again", key.priv, h)
			})
		}
	}
}

func init() {
	ck := &Check{ID: "C21", Level: "model_checking",
		Rule: "state = key, hash and pair; signatures are compared with an independent RFC 6979 / ECDSA implementation, verdicts with the verification equation on the discrete logarithm",
		Assumptions: []string{
			"the retry of the nonce and zero R or S need a coincidence of 2^-128 and are not reached",
			"crypto/ecdsa verifies no signature of an empty hash, so the empty hash is left out",
			"the order's 256 bits: hashes are cut to 32 bytes and never shifted",
		}}
	add := func(name, bound string, run func(*Ctx)) {
		ck.Units = append(ck.Units, Unit{Name: name, Bound: bound, Run: run})
	}
	add("sign", "boundary keys (thorough: also all 2^i, 2^i-1, 2^i+1; quick: these with every 13th hash) with all hashes of lengths 1 to 72 (thorough: 300; zeros, ones, fixed bytes) and boundary values", c21Sign)
	add("reject", "70 signatures (thorough: 1500): all single-bit alterations of hash, R and S, 289 altered pairs, all other hashes and keys of the alphabet", c21Reject)
	add("random sources", "all keys of the alphabet, a fifth of the hashes, four random sources, equal hash bits", c21Random)
	register(ck)
}
