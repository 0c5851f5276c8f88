package zkmc

import (
	"crypto/sha256"
	"math/big"

	zk "github.com/mit-dci/zksigma"
)

// An independent secp256k1 (big.Int, Jacobian coordinates, no shortcuts), used as oracle.

func hexInt(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return v
}

var (
	sP  = hexInt("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F")
	sN  = hexInt("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141")
	sGx = hexInt("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798")
	sGy = hexInt("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8")
	sB  = big.NewInt(7)
	one = big.NewInt(1)
	two = big.NewInt(2)
)

// apt is an affine point; inf has x == nil.
type apt struct{ x, y *big.Int }

func (p apt) inf() bool { return p.x == nil }

func (p apt) ec() zk.ECPoint {
	if p.inf() {
		return zk.ECPoint{X: new(big.Int), Y: new(big.Int)}
	}
	return zk.ECPoint{X: new(big.Int).Set(p.x), Y: new(big.Int).Set(p.y)}
}

func (p apt) eq(x, y *big.Int) bool {
	if p.inf() {
		return x.Sign() == 0 && y.Sign() == 0
	}
	return p.x.Cmp(x) == 0 && p.y.Cmp(y) == 0
}

type jpt struct{ x, y, z *big.Int } // z == 0: infinity

func mulP(a, b *big.Int) *big.Int { r := new(big.Int).Mul(a, b); return r.Mod(r, sP) }
func subP(a, b *big.Int) *big.Int { r := new(big.Int).Sub(a, b); return r.Mod(r, sP) }
func addP(a, b *big.Int) *big.Int { r := new(big.Int).Add(a, b); return r.Mod(r, sP) }

func jInf() jpt { return jpt{new(big.Int), big.NewInt(1), new(big.Int)} }

func (p jpt) dbl() jpt {
	if p.z.Sign() == 0 || p.y.Sign() == 0 {
		return jInf()
	}
	y2 := mulP(p.y, p.y)
	s := mulP(big.NewInt(4), mulP(p.x, y2))
	m := mulP(big.NewInt(3), mulP(p.x, p.x))
	x := subP(mulP(m, m), addP(s, s))
	y := subP(mulP(m, subP(s, x)), mulP(big.NewInt(8), mulP(y2, y2)))
	z := mulP(two, mulP(p.y, p.z))
	return jpt{x, y, z}
}

func (p jpt) addA(q apt) jpt {
	if q.inf() {
		return p
	}
	if p.z.Sign() == 0 {
		return jpt{new(big.Int).Set(q.x), new(big.Int).Set(q.y), big.NewInt(1)}
	}
	z2 := mulP(p.z, p.z)
	u := mulP(q.x, z2)
	s := mulP(q.y, mulP(z2, p.z))
	h := subP(u, p.x)
	r := subP(s, p.y)
	if h.Sign() == 0 {
		if r.Sign() == 0 {
			return p.dbl()
		}
		return jInf()
	}
	h2 := mulP(h, h)
	h3 := mulP(h2, h)
	v := mulP(p.x, h2)
	x := subP(subP(mulP(r, r), h3), addP(v, v))
	y := subP(mulP(r, subP(v, x)), mulP(p.y, h3))
	z := mulP(p.z, h)
	return jpt{x, y, z}
}

func (p jpt) affine() apt {
	if p.z.Sign() == 0 {
		return apt{}
	}
	zi := new(big.Int).ModInverse(p.z, sP)
	z2 := mulP(zi, zi)
	return apt{mulP(p.x, z2), mulP(p.y, mulP(z2, zi))}
}

func (p apt) jac() jpt {
	if p.inf() {
		return jInf()
	}
	return jpt{p.x, p.y, one}
}

func (p apt) add(q apt) apt { return p.jac().addA(q).affine() }

func (p apt) neg() apt {
	if p.inf() {
		return p
	}
	return apt{p.x, new(big.Int).Sub(sP, p.y)}
}

// mul is plain double-and-add (k >= 0 of any size).
func (p apt) mul(k *big.Int) apt {
	k = new(big.Int).Mod(k, sN)
	r := jInf()
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.dbl()
		if k.Bit(i) == 1 {
			r = r.addA(p)
		}
	}
	return r.affine()
}

func onCurve(x, y *big.Int) bool {
	l := mulP(y, y)
	r := addP(mulP(x, mulP(x, x)), sB)
	return l.Cmp(r) == 0
}

func sqrtP(a *big.Int) *big.Int {
	e := new(big.Int).Rsh(new(big.Int).Add(sP, one), 2)
	y := new(big.Int).Exp(a, e, sP)
	if mulP(y, y).Cmp(new(big.Int).Mod(a, sP)) != 0 {
		return nil
	}
	return y
}

// liftX gives the point with this x and parity of y, or infinity if there is none.
func liftX(x *big.Int, odd bool) apt {
	y := sqrtP(addP(mulP(x, mulP(x, x)), sB))
	if y == nil {
		return apt{}
	}
	if (y.Bit(0) == 1) != odd {
		y = new(big.Int).Sub(sP, y)
	}
	return apt{new(big.Int).Set(x), y}
}

var refG = apt{sGx, sGy}
var refH = func() apt {
	// the second generator: x = SHA-256(Gx + 2), even y
	h := sha256.Sum256(new(big.Int).Add(sGx, two).Bytes())
	return liftX(new(big.Int).SetBytes(h[:]), false)
}()

// comb is a table of all d * 16^i * base, built from base by additions only.
type comb [64][16]apt

func newComb(base apt) *comb {
	c := new(comb)
	b := base
	for i := range c {
		p := apt{}
		for d := 1; d < 16; d++ {
			p = p.add(b)
			c[i][d] = p
		}
		b = p.add(b)
	}
	return c
}

func (c *comb) mulJ(k *big.Int, r jpt) jpt {
	k = new(big.Int).Mod(k, sN)
	b := k.Bytes()
	for i := 0; i < len(b); i++ {
		pos := len(b) - 1 - i
		lo, hi := b[pos]&15, b[pos]>>4
		r = r.addA(c[2*i][lo]).addA(c[2*i+1][hi])
	}
	return r
}

var combG, combH *comb
var noComb bool // a short-lived process does without the tables

func initComb() {
	if combG == nil {
		combG, combH = newComb(refG), newComb(refH)
	}
}

// T is a point of known representation a*G + b*H on secp256k1; equations between such points
// are checked on (a, b) modulo N, without any curve arithmetic.
type T struct {
	a, b *big.Int
	P    zk.ECPoint
}

func mN(x *big.Int) *big.Int { return new(big.Int).Mod(x, sN) }

// mk computes the tracked point with the reference arithmetic.
func mk(a, b *big.Int) T {
	if noComb {
		return T{mN(a), mN(b), refG.mul(a).add(refH.mul(b)).ec()}
	}
	initComb()
	a, b = mN(a), mN(b)
	j := combG.mulJ(a, jInf())
	j = combH.mulJ(b, j)
	return T{a, b, j.affine().ec()}
}

func mki(a, b int64) T { return mk(big.NewInt(a), big.NewInt(b)) }

func (t T) eq(u T) bool { return t.a.Cmp(u.a) == 0 && t.b.Cmp(u.b) == 0 }

func (t T) mul(k *big.Int) T {
	return mk(new(big.Int).Mul(t.a, k), new(big.Int).Mul(t.b, k))
}
func (t T) add(u T) T { return mk(new(big.Int).Add(t.a, u.a), new(big.Int).Add(t.b, u.b)) }
func (t T) sub(u T) T { return mk(new(big.Int).Sub(t.a, u.a), new(big.Int).Sub(t.b, u.b)) }

// rep is a representation (a,b) without the point.
type rep struct{ a, b *big.Int }

func (t T) rep() rep { return rep{t.a, t.b} }
func (r rep) mul(k *big.Int) rep {
	return rep{mN(new(big.Int).Mul(r.a, k)), mN(new(big.Int).Mul(r.b, k))}
}
func (r rep) add(s rep) rep {
	return rep{mN(new(big.Int).Add(r.a, s.a)), mN(new(big.Int).Add(r.b, s.b))}
}
func (r rep) eq(s rep) bool { return r.a.Cmp(s.a) == 0 && r.b.Cmp(s.b) == 0 }

// chal is the reference challenge on secp256k1.
func chal(pts ...zk.ECPoint) *big.Int {
	h := sha256.New()
	for _, p := range pts {
		h.Write(p.X.Bytes())
		h.Write(p.Y.Bytes())
	}
	c := new(big.Int).SetBytes(h.Sum(nil))
	return c.Mod(c, sN)
}

func sameEC(p, q zk.ECPoint) bool {
	if p.X == nil || p.Y == nil || q.X == nil || q.Y == nil {
		return false
	}
	return p.X.Cmp(q.X) == 0 && p.Y.Cmp(q.Y) == 0
}

func ecs(p zk.ECPoint) string {
	if p.X == nil || p.Y == nil {
		return "(nil)"
	}
	return "(" + p.X.Text(16) + "," + p.Y.Text(16) + ")"
}

func pow2(i uint) *big.Int { return new(big.Int).Lsh(one, i) }

// scalarAlphabet: boundary scalars in [0,N) and around, without repetition.
func scalarAlphabet(full bool) []*big.Int {
	var l []*big.Int
	seen := map[string]bool{}
	add := func(v *big.Int) {
		if !seen[v.String()] {
			seen[v.String()] = true
			l = append(l, new(big.Int).Set(v))
		}
	}
	for _, v := range []int64{0, 1, 2, 3, 4, 5, 7, 8, 10, 16, 127, 128, 255, 256, 257} {
		add(big.NewInt(v))
	}
	for i := int64(1); i <= 3; i++ {
		add(new(big.Int).Sub(sN, big.NewInt(i)))
	}
	half := new(big.Int).Rsh(sN, 1)
	add(half)
	add(new(big.Int).Add(half, one))
	step := uint(16)
	if full {
		step = 1
	}
	for i := uint(8); i < 256; i += step {
		add(pow2(i))
		if full || i%64 == 8 {
			add(new(big.Int).Sub(pow2(i), one))
			add(new(big.Int).Add(pow2(i), one))
		}
	}
	add(pow2(255))
	add(new(big.Int).Sub(pow2(255), one))
	add(hexInt("5363AD4CC05C30E0A5261C028812645A122E22EA20816678DF02967C1B23BD72")) // lambda
	add(hexInt("3086D221A7D46BCDE86C90E49284EB15"))
	add(hexInt("E4437ED6010E88286F547FA90ABFE4C3"))
	add(hexInt("114CA50F7A8E2F3F657C1108D9D44CFD8"))
	add(hexInt("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"))
	add(hexInt("5555555555555555555555555555555555555555555555555555555555555555"))
	add(hexInt("ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00"))
	add(hexInt("00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff00ff"))
	return l
}

// outside: integers outside [0,N) congruent to interesting residues.
func outsideScalars() []*big.Int {
	return []*big.Int{
		big.NewInt(-1), big.NewInt(-2), big.NewInt(-5), new(big.Int).Neg(sN), new(big.Int).Set(sN),
		new(big.Int).Add(sN, one), new(big.Int).Add(sN, big.NewInt(5)), new(big.Int).Sub(new(big.Int).Neg(sN), one),
		new(big.Int).Sub(new(big.Int).Lsh(sN, 1), one), new(big.Int).Sub(pow2(256), one), pow2(256), pow2(300), new(big.Int).Neg(pow2(300)),
		new(big.Int).Mul(sN, sN),
	}
}
