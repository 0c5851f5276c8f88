package btcec

// In-package harness for the Jacobian formulas, put in by an overlay. The public operations
// reach only some of them (one of the operands always has z = 1).

import (
	"fmt"
	"math/big"
	"os"
	"strconv"
	"strings"
	"testing"
)

var jP, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16)
var jN, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)
var jLam, _ = new(big.Int).SetString("5363ad4cc05c30e0a5261c028812645a122e22ea20816678df02967c1b23bd72", 16)

type jpt struct{ x, y *big.Int } // affine, x nil: infinity

func jm(x *big.Int) *big.Int { return x.Mod(x, jP) }

func (p jpt) add(q jpt) jpt {
	if p.x == nil {
		return q
	}
	if q.x == nil {
		return p
	}
	var l *big.Int
	if p.x.Cmp(q.x) == 0 {
		if p.y.Cmp(q.y) != 0 {
			return jpt{}
		}
		l = new(big.Int).Mul(p.x, p.x)
		l.Mul(l, big.NewInt(3))
		l.Mul(l, new(big.Int).ModInverse(new(big.Int).Lsh(p.y, 1), jP))
	} else {
		d := jm(new(big.Int).Sub(q.x, p.x))
		l = new(big.Int).Sub(q.y, p.y)
		l.Mul(l, d.ModInverse(d, jP))
	}
	jm(l)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, p.x)
	x.Sub(x, q.x)
	jm(x)
	y := new(big.Int).Sub(p.x, x)
	y.Mul(y, l)
	y.Sub(y, p.y)
	return jpt{x, jm(y)}
}

func (p jpt) neg() jpt {
	if p.x == nil {
		return p
	}
	return jpt{p.x, new(big.Int).Sub(jP, p.y)}
}

func (p jpt) mul(k *big.Int) jpt {
	k = new(big.Int).Mod(k, jN)
	r := jpt{}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.add(r)
		if k.Bit(i) == 1 {
			r = r.add(p)
		}
	}
	return r
}

func (p jpt) String() string {
	if p.x == nil {
		return "infinity"
	}
	return fmt.Sprintf("(%x,%x)", p.x, p.y)
}

func jf(v *big.Int) fieldVal {
	var f fieldVal
	var b [32]byte
	v.FillBytes(b[:])
	f.SetBytes(&b)
	return f
}

func ji(f fieldVal) *big.Int {
	f.Normalize()
	return new(big.Int).SetBytes(f.Bytes()[:])
}

type jac struct{ x, y, z fieldVal }

// at gives the Jacobian coordinates of p with the given z.
func (p jpt) at(z *big.Int) jac {
	if p.x == nil {
		return jac{}
	}
	zz := jm(new(big.Int).Mul(z, z))
	zzz := jm(new(big.Int).Mul(zz, z))
	return jac{jf(jm(new(big.Int).Mul(p.x, zz))), jf(jm(new(big.Int).Mul(p.y, zzz))), jf(z)}
}

func (a jac) affine() jpt {
	z := ji(a.z)
	x, y := ji(a.x), ji(a.y)
	if z.Sign() == 0 || x.Sign() == 0 && y.Sign() == 0 {
		return jpt{}
	}
	i := new(big.Int).ModInverse(z, jP)
	ii := jm(new(big.Int).Mul(i, i))
	iii := jm(new(big.Int).Mul(ii, i))
	return jpt{jm(x.Mul(x, ii)), jm(y.Mul(y, iii))}
}

func (p jpt) same(q jpt) bool {
	if p.x == nil || q.x == nil {
		return p.x == nil && q.x == nil
	}
	return p.x.Cmp(q.x) == 0 && p.y.Cmp(q.y) == 0
}

var jStates, jOps int64
var jFailed string

func jfail(format string, a ...interface{}) {
	if jFailed == "" {
		jFailed = fmt.Sprintf(format, a...)
	}
}

func jG() jpt {
	gx, _ := new(big.Int).SetString("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", 16)
	gy, _ := new(big.Int).SetString("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8", 16)
	return jpt{gx, gy}
}

func jPoints(n int64) []jpt {
	g := jG()
	l := []jpt{{}}
	for i := int64(1); i <= n; i++ {
		p := g.mul(big.NewInt(i))
		l = append(l, p, p.neg())
		if i <= 2 {
			for _, k := range []*big.Int{jLam, new(big.Int).Mul(jLam, jLam)} {
				q := p.mul(k) // same y, another x
				l = append(l, q, q.neg())
			}
		}
	}
	return l
}

func jZs(full bool) []*big.Int {
	l := []*big.Int{big.NewInt(1), big.NewInt(2), big.NewInt(7), new(big.Int).Sub(jP, big.NewInt(1)), new(big.Int).Sub(jP, big.NewInt(2)),
		new(big.Int).Lsh(big.NewInt(1), 26), new(big.Int).Lsh(big.NewInt(1), 234), new(big.Int).Rsh(jP, 1)}
	if full {
		for _, s := range []uint{25, 52, 78, 104, 130, 156, 182, 208, 255} {
			v := new(big.Int).Lsh(big.NewInt(1), s)
			l = append(l, v, new(big.Int).Sub(v, big.NewInt(1)))
		}
	}
	return l
}

// jAdd: all pairs of points in all pairs of representations, into fresh words and in place.
func jAdd(mine func(int) bool, full bool) {
	S := S256()
	n := int64(4)
	if full {
		n = 8
	}
	ps, zs := jPoints(n), jZs(full)
	k := 0
	for _, p := range ps {
		for _, q := range ps {
			k++
			if !mine(k) {
				continue
			}
			want := p.add(q)
			for _, z1 := range zs {
				for _, z2 := range zs {
					for mode := 0; mode < 3; mode++ {
						a, b := p.at(z1), q.at(z2)
						var r jac
						switch mode {
						case 0:
							S.addJacobian(&a.x, &a.y, &a.z, &b.x, &b.y, &b.z, &r.x, &r.y, &r.z)
						case 1: // the way the multiplications use it
							S.addJacobian(&a.x, &a.y, &a.z, &b.x, &b.y, &b.z, &a.x, &a.y, &a.z)
							r = a
						case 2: // and one step on
							S.addJacobian(&a.x, &a.y, &a.z, &b.x, &b.y, &b.z, &r.x, &r.y, &r.z)
							d := r
							S.doubleJacobian(&d.x, &d.y, &d.z, &d.x, &d.y, &d.z)
							jOps++
							if got, w := d.affine(), want.add(want); !got.same(w) {
								jfail("twice (%v at z=%x plus %v at z=%x) is %v, not %v", p, z1, q, z2, got, w)
								return
							}
							S.addJacobian(&r.x, &r.y, &r.z, &d.x, &d.y, &d.z, &r.x, &r.y, &r.z)
							jOps++
							if got, w := r.affine(), want.add(want).add(want); !got.same(w) {
								jfail("three times (%v at z=%x plus %v at z=%x) is %v, not %v", p, z1, q, z2, got, w)
								return
							}
							continue
						}
						jStates++
						jOps++
						if got := r.affine(); !got.same(want) {
							jfail("addJacobian(%v at z=%x, %v at z=%x) mode %d is %v, not %v", p, z1, q, z2, mode, got, want)
							return
						}
						if want.x != nil {
							if x, y := S.fieldJacobianToBigAffine(&r.x, &r.y, &r.z); !(jpt{x, y}).same(want) {
								jfail("fieldJacobianToBigAffine gives (%x,%x) for %v", x, y, want)
								return
							}
						}
					}
				}
			}
		}
	}
}

// jDouble: all points in all representations.
func jDouble(mine func(int) bool, full bool) {
	S := S256()
	for k, p := range jPoints(60) {
		if !mine(k) {
			continue
		}
		want := p.add(p)
		for _, z := range jZs(true) {
			a := p.at(z)
			var r jac
			S.doubleJacobian(&a.x, &a.y, &a.z, &r.x, &r.y, &r.z)
			S.doubleJacobian(&a.x, &a.y, &a.z, &a.x, &a.y, &a.z)
			jStates += 2
			jOps += 2
			if !r.affine().same(want) || !a.affine().same(want) {
				jfail("doubleJacobian(%v at z=%x) is %v and in place %v, not %v", p, z, r.affine(), a.affine(), want)
				return
			}
		}
	}
}

// jSplit: k = k1 + k2*lambda.
func jSplit(mine func(int) bool, full bool) {
	S := S256()
	lim := int64(20)
	if full {
		lim = 60
	}
	i := 0
	one := func(k *big.Int) bool {
		i++
		if !mine(i) {
			return true
		}
		k = new(big.Int).Mod(k, jN)
		b1, b2, s1, s2 := S.splitK(S.moduloReduce(k.Bytes()))
		k1, k2 := new(big.Int).SetBytes(b1), new(big.Int).SetBytes(b2)
		k1.Mul(k1, big.NewInt(int64(s1)))
		k2.Mul(k2, big.NewInt(int64(s2)))
		jStates++
		jOps++
		v := new(big.Int).Mul(k2, S.lambda) // either of the two roots will do
		v.Add(v, k1)
		if v.Mod(v, jN).Cmp(k) != 0 {
			jfail("splitK(%x) is %x, %x: %x", k, k1, k2, v)
			return false
		}
		return true
	}
	for a := -lim; a <= lim; a++ {
		for b := -lim; b <= lim; b++ {
			for _, sh := range []uint{0, 60, 120, 126} {
				k := new(big.Int).Lsh(big.NewInt(b), sh)
				k.Mul(k, jLam)
				k.Add(k, new(big.Int).Lsh(big.NewInt(a), sh))
				if !one(k) {
					return
				}
			}
		}
	}
	for s := uint(0); s < 256; s++ {
		for d := int64(-3); d <= 3; d++ {
			if !one(new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), s), big.NewInt(d))) {
				return
			}
		}
	}
	// scalars of more than 32 bytes, with leading zeros, above the order
	for n := 0; n < 80; n++ {
		for _, fill := range []byte{0, 1, 0x80, 0xff} {
			i++
			if !mine(i) {
				continue
			}
			b := make([]byte, n)
			for j := range b {
				b[j] = fill
			}
			r := S.moduloReduce(append([]byte{}, b...))
			x, y := new(big.Int).SetBytes(b), new(big.Int).SetBytes(r)
			jStates++
			if len(r) > 32 || x.Mod(x, jN).Cmp(y.Mod(y, jN)) != 0 {
				jfail("moduloReduce(%x) is %x", b, r)
				return
			}
		}
	}
}

var jjobs = map[string]func(func(int) bool, bool){"add": jAdd, "double": jDouble, "split": jSplit}

// TestZkmcJac runs one part of one job: ZKF_JOB=name:part:parts:tier
func TestZkmcJac(t *testing.T) {
	spec := strings.Split(os.Getenv("ZKF_JOB"), ":")
	if len(spec) != 4 {
		t.Skip()
	}
	part, _ := strconv.Atoi(spec[1])
	parts, _ := strconv.Atoi(spec[2])
	func() {
		defer func() {
			if r := recover(); r != nil {
				jfail("panic: %v", r)
			}
		}()
		jjobs[spec[0]](func(i int) bool { return uint32(i)*2654435761>>8%uint32(parts) == uint32(part) }, spec[3] == "thorough")
	}()
	if jFailed != "" {
		fmt.Printf("ZKF-FAIL %s\n", strings.ReplaceAll(jFailed, "\n", " "))
		return
	}
	fmt.Printf("ZKF-OK %d %d\n", jStates, jOps)
}
