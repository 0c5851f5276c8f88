package zkmc

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"unsafe"

	zk "github.com/mit-dci/zksigma"
	"github.com/mit-dci/zksigma/btcec"
)

// A caller may keep its big integers, points, slices, proofs and tables and put other values into
// them between calls. What a call returns then has to depend on the values, not on where they are.

var curveType = reflect.TypeOf((*elliptic.Curve)(nil)).Elem()
var bigType = reflect.TypeOf((*big.Int)(nil))

// isCurve: keys are curves too, by embedding one.
func isCurve(t reflect.Type) bool {
	return t.Implements(curveType) && t != reflect.TypeOf((*btcec.PrivateKey)(nil)) && t != reflect.TypeOf((*btcec.PublicKey)(nil)) &&
		t != reflect.TypeOf(btcec.PrivateKey{}) && t != reflect.TypeOf(btcec.PublicKey{}) &&
		t != reflect.TypeOf(ecdsa.PublicKey{}) && t != reflect.TypeOf(ecdsa.PrivateKey{}) &&
		t != reflect.TypeOf(&ecdsa.PublicKey{}) && t != reflect.TypeOf(&ecdsa.PrivateKey{})
}

// morph gives everything reachable from dst the values src has, in place. Curves are left alone.
func morph(dst, src reflect.Value) error {
	if !dst.IsValid() || !src.IsValid() || dst.Type() != src.Type() {
		return fmt.Errorf("different shapes")
	}
	switch dst.Kind() {
	case reflect.Ptr:
		if dst.IsNil() != src.IsNil() {
			return fmt.Errorf("nil on one side")
		}
		if dst.IsNil() || isCurve(dst.Type()) {
			return nil
		}
		if dst.Type() == bigType {
			d, s := (*big.Int)(dst.UnsafePointer()), (*big.Int)(src.UnsafePointer())
			if d.Cmp(s) != 0 {
				d.Set(s)
			}
			return nil
		}
		return morph(dst.Elem(), src.Elem())
	case reflect.Interface:
		if dst.IsNil() || isCurve(dst.Type()) || isCurve(dst.Elem().Type()) {
			return nil
		}
		return morph(dst.Elem(), src.Elem())
	case reflect.Struct:
		for i := 0; i < dst.NumField(); i++ {
			if err := morph(open(dst.Field(i)), open(src.Field(i))); err != nil {
				return fmt.Errorf("%s.%s: %v", dst.Type(), dst.Type().Field(i).Name, err)
			}
		}
		return nil
	case reflect.Slice:
		if dst.Len() != src.Len() && dst.Type().Elem().Kind() == reflect.Uint8 && dst.CanSet() && dst.Cap() >= src.Len() {
			dst.Set(dst.Slice(0, src.Len()))
		}
		if dst.Len() != src.Len() {
			return fmt.Errorf("lengths %d and %d", dst.Len(), src.Len())
		}
		for i := 0; i < dst.Len(); i++ {
			if err := morph(dst.Index(i), src.Index(i)); err != nil {
				return fmt.Errorf("[%d] %v", i, err)
			}
		}
		return nil
	case reflect.Array:
		for i := 0; i < dst.Len(); i++ {
			if err := morph(open(dst.Index(i)), open(src.Index(i))); err != nil {
				return err
			}
		}
		return nil
	case reflect.Func, reflect.Map, reflect.Chan:
		return nil
	}
	if dst.CanSet() {
		dst.Set(src)
	}
	return nil
}

// open makes an unexported field accessible.
func open(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

// parts are what calls are made with, as pointers, so that everything is addressable.
func (e *cenv) parts() []interface{} {
	return []interface{}{&e.cp, &e.P, &e.S, &e.B, &e.stmts, &e.prf, &e.vp, &e.enc, &e.priv, &e.pub, &e.sig, &e.ct, &e.der, &e.comp, &e.keys, &e.alt, &e.sig2}
}

// apart gives every big integer a place of its own: which ones a call shares with its arguments can
// depend on the values. The parameters stay one set.
func (e *cenv) apart() *cenv {
	for _, p := range e.parts() {
		spread(reflect.ValueOf(p))
	}
	for i := range e.stmts {
		e.stmts[i].cp = e.cp
	}
	e.P[2], e.P[3] = e.cp.G, e.cp.H
	return e
}

func spread(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || isCurve(v.Type()) {
			return
		}
		if v.Type() == bigType {
			if v.CanSet() {
				v.Set(reflect.ValueOf(new(big.Int).Set((*big.Int)(v.UnsafePointer()))))
			}
			return
		}
		spread(v.Elem())
	case reflect.Interface:
		if !v.IsNil() && !isCurve(v.Type()) && !isCurve(v.Elem().Type()) {
			spread(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			spread(open(v.Field(i)))
		}
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			if v.Kind() == reflect.Slice && v.CanSet() && !v.IsNil() { // room for longer encodings
				b := reflect.MakeSlice(v.Type(), v.Len(), v.Len()+200)
				reflect.Copy(b, v)
				v.Set(b)
			}
			return
		}
		for i := 0; i < v.Len(); i++ {
			spread(open(v.Index(i)))
		}
	}
}

func become(a, b []interface{}) error {
	for i := range a {
		if err := morph(reflect.ValueOf(a[i]), reflect.ValueOf(b[i])); err != nil {
			return fmt.Errorf("part %d: %v", i, err)
		}
	}
	return nil
}

// views are the sets of values that are exchanged together.
var views = []struct {
	name  string
	parts func(e *cenv) []interface{}
}{
	{"all values", func(e *cenv) []interface{} { return e.parts() }},
	{"the generator G", func(e *cenv) []interface{} { return []interface{}{e.cp.G} }},
	{"the generator H", func(e *cenv) []interface{} { return []interface{}{e.cp.H} }},
	{"the table of powers", func(e *cenv) []interface{} { return []interface{}{&e.cp.HPoints} }},
	{"the statements' points", func(e *cenv) []interface{} {
		r := []interface{}{&e.vp}
		for i := range e.stmts {
			r = append(r, &e.stmts[i].pts)
		}
		return r
	}},
	{"the witnesses", func(e *cenv) (r []interface{}) {
		for i := range e.stmts {
			r = append(r, &e.stmts[i].wit)
		}
		return
	}},
	{"the proofs and encodings", func(e *cenv) []interface{} { return []interface{}{&e.prf, &e.enc, &e.alt} }},
	{"the points", func(e *cenv) []interface{} { return []interface{}{&e.P} }},
	{"the scalars", func(e *cenv) []interface{} { return []interface{}{&e.S} }},
	{"the byte strings", func(e *cenv) []interface{} { return []interface{}{&e.B, &e.der, &e.comp, &e.keys, &e.ct} }},
	{"the keys", func(e *cenv) []interface{} { return []interface{}{&e.priv, &e.pub} }},
	{"the signatures", func(e *cenv) []interface{} { return []interface{}{&e.sig, &e.sig2} }},
}

// inPlace: each call (whose name has one of the prefixes) is made, some of the values are exchanged in
// place for others, it is made again, they are put back, and again; then all calls, the exchange, all
// calls. The results must be those for arguments made afresh. mk(0) and mk(1) are two environments of
// the same shape.
func inPlace(c *Ctx, mk func(int) *cenv, ops func(*cenv) []cop, prefixes ...string) {
	orig, other := mk(0).apart(), mk(1).apart()
	fresh := func() *cenv { // range proofs are not the same each time
		e := mk(0).apart()
		if err := become(e.parts(), orig.parts()); err != nil {
			panic("harness: " + err.Error())
		}
		return e
	}
	e := fresh()
	sel := func(e *cenv) []cop { return pick(ops(e), prefixes) }
	l, lo := sel(e), sel(orig)
	if len(l) == 0 || len(l) != len(sel(other)) || len(l) != len(lo) {
		c.Fail("harness: environments differ in shape: %d, %d, %d calls", len(l), len(sel(other)), len(lo))
		return
	}
	for vi, v := range views {
		turn := func(to *cenv) {
			if err := become(v.parts(e), v.parts(to)); err != nil {
				panic("harness: " + err.Error())
			}
		}
		mixed := other
		if vi > 0 {
			mixed = fresh()
			if err := become(v.parts(mixed), v.parts(other)); err != nil {
				panic("harness: " + err.Error())
			}
		}
		lx := sel(mixed)
		for i := range l {
			if vi > 0 && !l[i].rep && !strings.HasPrefix(l[i].name, "verify wrong") {
				continue
			}
			if !c.Case("%s: %s, %s exchanged in place, once more", e.name, l[i].name, v.name) {
				continue
			}
			c.Guard(l[i].name, func() {
				want := [2][]interface{}{runCop(orig, lo[i]), runCop(mixed, lx[i])}
				if vi > 0 && sameResults(want[0], want[1]) {
					c.Add(0, 2, 1) // does not depend on them
					return
				}
				for step := 0; step < 4; step++ { // nothing comes between the calls
					if got := runCop(e, l[i]); !sameResults(got, want[step%2]) {
						c.Fail("%s: %s gives another result than for fresh arguments after %s were changed in place %d times", e.name, l[i].name, v.name, step)
						return
					}
					turn([]*cenv{other, orig}[step%2])
				}
			})
			c.Add(1, 6, 4)
			c.Outcome("call after a change in place")
			if c.Failed() {
				e = fresh()
				l = sel(e)
			}
			if c.Stop() {
				return
			}
		}
	}
	for _, back := range []bool{false, true} {
		if !c.Case("%s: all %d calls, the values exchanged in place, all calls again, backwards=%v", e.name, len(l), back) {
			continue
		}
		c.Guard("all calls", func() {
			n := len(l)
			want := make([][]interface{}, n)
			for i := 0; i < n; i++ {
				runCop(e, l[i])
			}
			if err := become(e.parts(), other.parts()); err != nil {
				panic("harness: " + err.Error())
			}
			lx := sel(other)
			for i := 0; i < n; i++ {
				want[i] = runCop(other, lx[i])
			}
			for i := 0; i < n; i++ {
				j := i
				if back {
					j = n - 1 - i
				}
				if !sameResults(runCop(e, l[j]), want[j]) {
					c.Fail("%s: %s gives another result than for fresh arguments after all calls and a change of all values in place", e.name, l[j].name)
					break
				}
			}
			if err := become(e.parts(), orig.parts()); err != nil {
				panic("harness: " + err.Error())
			}
		})
		c.Add(1, int64(3*len(l)), int64(len(l)))
		if c.Stop() {
			return
		}
	}
}

// together gives all big integers of the same value, in all arguments and parameters, one place, that of
// the curve's own or the package's number if it has that value, and all equal byte strings too.
func (e *cenv) together() *cenv {
	ints := map[string]*big.Int{}
	cpar := e.cp.C.Params()
	for _, x := range []*big.Int{cpar.N, cpar.P, cpar.B, cpar.Gx, cpar.Gy, zk.BigZero, zk.TestCurve.G.X, zk.TestCurve.G.Y, zk.TestCurve.H.X, zk.TestCurve.H.Y} {
		if ints[x.String()] == nil {
			ints[x.String()] = x
		}
	}
	strs := map[string][]byte{}
	for _, p := range e.parts() {
		gather(reflect.ValueOf(p), ints, strs)
	}
	for i := range e.stmts {
		e.stmts[i].cp = e.cp
	}
	return e
}

func gather(v reflect.Value, ints map[string]*big.Int, strs map[string][]byte) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || isCurve(v.Type()) {
			return
		}
		if v.Type() == bigType {
			x := (*big.Int)(v.UnsafePointer())
			if y := ints[x.String()]; y == nil {
				ints[x.String()] = x
			} else if v.CanSet() {
				v.Set(reflect.ValueOf(y))
			}
			return
		}
		gather(v.Elem(), ints, strs)
	case reflect.Interface:
		if !v.IsNil() && !isCurve(v.Type()) && !isCurve(v.Elem().Type()) {
			gather(v.Elem(), ints, strs)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			gather(open(v.Field(i)), ints, strs)
		}
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			if v.Kind() == reflect.Slice && v.CanSet() && v.Len() > 0 {
				b := v.Bytes()
				if y, ok := strs[string(b)]; !ok {
					strs[string(b)] = b
				} else {
					v.SetBytes(y)
				}
			}
			return
		}
		for i := 0; i < v.Len(); i++ {
			gather(open(v.Index(i)), ints, strs)
		}
	}
}

// oneMemory: each call with arguments that share their memory wherever the values are the same gives
// what it gives with arguments that share nothing, and changes none of them.
func oneMemory(c *Ctx, mks []func() *cenv, ops func(*cenv) []cop, prefixes ...string) {
	for vi, mk := range mks {
		a, e := mk().apart(), mk().apart()
		if err := become(e.parts(), a.parts()); err != nil { // range proofs are not the same each time
			panic("harness: " + err.Error())
		}
		e.together()
		la, le := pick(ops(a), prefixes), pick(ops(e), prefixes)
		if len(la) == 0 || len(la) != len(le) {
			c.Fail("harness: environments differ in shape: %d, %d calls", len(la), len(le))
			return
		}
		for i := range la {
			if !c.Case("%s (%d): %s with equal arguments in one place", e.name, vi, la[i].name) {
				continue
			}
			c.Guard(la[i].name, func() {
				before := e.hash()
				for k := 0; k < 2; k++ {
					if !sameResults(runCop(a, la[i]), runCop(e, le[i])) {
						c.Fail("%s: %s gives another result when equal arguments are in one place (call %d)", e.name, la[i].name, k)
						return
					}
					if e.hash() != before {
						c.Fail("%s: %s changes its arguments, the parameters or a package-level value when they are in one place", e.name, la[i].name)
						return
					}
				}
			})
			c.Add(1, 4, 4)
			c.Outcome("call with arguments in one place")
			if c.Stop() {
				return
			}
		}
	}
}

func pick(ops []cop, prefixes []string) (l []cop) {
	for _, o := range ops {
		if !o.det {
			continue
		}
		for _, p := range prefixes {
			if strings.HasPrefix(o.name, p) || p[:min(1, len(p))] == "(" && strings.Contains(o.name, p) {
				l = append(l, o)
				break
			}
		}
	}
	return
}

// Environments with different scalars, and with equal ones.
func oneZn() (r []func() *cenv) {
	z := newZn(znN)
	for _, x := range []int64{0, 5} {
		x := x
		r = append(r, func() *cenv {
			if x == 0 {
				return c15ZnEnvOn(z, 31, 0)
			}
			return newCenv("model group, equal scalars", z.CP(31, 64), znGroup{z}, func(k int, side zk.Side) Stmt {
				s := znStmt(z, k, 31, big.NewInt(x), big.NewInt(x), big.NewInt(x), side)
				return s
			})
		})
	}
	return
}

func oneSecp() (r []func() *cenv) {
	r = append(r, c15SecpEnv)
	cp := zk.TestCurve
	return append(r, func() *cenv {
		return newCenv("secp256k1, equal scalars", cp, secp, func(k int, side zk.Side) Stmt {
			x := big.NewInt(5)
			return realStmt(k, 0, cp, x, x, x, side)
		})
	})
}

// c15ZnPair and c15SecpPair make environments of one shape with different values.
func c15ZnPair() func(int) *cenv {
	z := newZn(znN)
	return func(i int) *cenv { return c15ZnEnvOn(z, []uint64{31, 1009}[i], int64(i)) }
}

func c15SecpPair(i int) *cenv {
	cp := realParams()[3*i]
	cp = CP{C: cp.C, G: cpyEC(cp.G), H: cpyEC(cp.H), HPoints: append([]EC(nil), cp.HPoints...)}
	for j := range cp.HPoints {
		cp.HPoints[j] = cpyEC(cp.HPoints[j])
	}
	return c15SecpEnvOn([]int{0, 3}[i], cp, int64(i))
}

func cpyEC(p EC) EC { return EC{X: new(big.Int).Set(p.X), Y: new(big.Int).Set(p.Y)} }

// c05InPlace: the caller keeps one big integer for the value and one parameter set, and changes both.
func c05InPlace(c *Ctx) {
	z := newZn(znN)
	g := znGroup{z}
	src := []CP{z.CP(31, 64), z.CP(0x1234567890abcd, 64)}
	vals := []BI{big.NewInt(0), big.NewInt(5), new(big.Int).Sub(pow2(40), one), pow2(39), pow2(40), big.NewInt(-1)}
	type st struct{ p, v int }
	var all []st
	for p := range src {
		for v := range vals {
			all = append(all, st{p, v})
		}
	}
	for _, s1 := range all {
		for _, s2 := range all {
			if !c.Case("proving %v on parameters %d, then, in the same memory, %v on parameters %d", vals[s1.v], s1.p, vals[s2.v], s2.p) {
				continue
			}
			cp := CP{C: src[0].C, G: cpyEC(src[0].G), H: cpyEC(src[0].H), HPoints: append([]EC(nil), src[0].HPoints...)}
			for j := range cp.HPoints {
				cp.HPoints[j] = cpyEC(cp.HPoints[j])
			}
			x := new(big.Int)
			for _, s := range []st{s1, s2} {
				if err := morph(reflect.ValueOf(&cp), reflect.ValueOf(&src[s.p])); err != nil {
					panic("harness: " + err.Error())
				}
				x.Set(vals[s.v])
				rangeInMemory(c, cp, g, x)
			}
			if c.Stop() {
				return
			}
		}
	}
}

func rangeInMemory(c *Ctx, cp CP, g Group, x BI) {
	if x.Sign() < 0 || x.BitLen() > 40 {
		c.Guard("range prover", func() {
			if p, _, err := zk.NewRangeProof(cp, x); err == nil || p != nil {
				c.Fail("value %v outside [0,2^40): proof %v, err %v", x, p != nil, err)
			}
		})
		c.Add(1, 1, 1)
		return
	}
	c.Guard("range prover/verifier", func() {
		p, r, err := zk.NewRangeProof(cp, x)
		if err != nil || p == nil || r == nil {
			c.Fail("no proof for %v: proof %v blinding %v err %v", x, p != nil, r, err)
			return
		}
		comm := g.Add(g.Mul(cp.G, x), g.Mul(cp.H, r))
		if !sameEC(p.ProofAggregate, comm) {
			c.Fail("value %v: the aggregate is not the commitment with the returned blinding factor", x)
			return
		}
		if ok, err := p.Verify(cp, comm); !ok || err != nil {
			c.Fail("value %v: honest proof rejected: %v %v", x, ok, err)
			return
		}
		if ok, _ := p.Verify(cp, g.Add(comm, cp.G)); ok {
			c.Fail("value %v: the proof is accepted for another commitment", x)
		}
	})
	c.Add(1, 3, 2)
}

// c23InPlace: one key, one message buffer and one ciphertext buffer, changed between the calls.
func c23InPlace(c *Ctx) {
	keys := [][]byte{{1}, {0x12, 0x34, 0x56}, new(big.Int).Sub(sN, big.NewInt(2)).Bytes()}
	msgs := [][]byte{{}, []byte("a"), []byte("sixteen bytes !!"), bytes.Repeat([]byte{0x5a}, 33)}
	type st struct{ k, m int }
	var all []st
	for k := range keys {
		for m := range msgs {
			all = append(all, st{k, m})
		}
	}
	for _, s1 := range all {
		for _, s2 := range all {
			if !c.Case("key %d message %d, then, in the same memory, key %d message %d", s1.k, s1.m, s2.k, s2.m) {
				continue
			}
			c.Guard("Encrypt/Decrypt", func() {
				priv, pub := btcec.PrivKeyFromBytes(btcec.S256(), keys[0])
				msg, ct := make([]byte, 0, 64), make([]byte, 0, 400)
				for i, s := range []st{s1, s2} {
					kp, kq := btcec.PrivKeyFromBytes(btcec.S256(), keys[s.k])
					priv.D.Set(kp.D)
					priv.X.Set(kp.X)
					priv.Y.Set(kp.Y)
					pub.X.Set(kq.X)
					pub.Y.Set(kq.Y)
					msg = append(msg[:0], msgs[s.m]...)
					t, err := btcec.Encrypt(pub, msg)
					if err != nil {
						c.Fail("step %d: Encrypt: %v", i, err)
						return
					}
					ct = append(ct[:0], t...)
					for j, k := range []*btcec.PrivateKey{priv, kp} {
						if got, err := btcec.Decrypt(k, ct); err != nil || !bytes.Equal(got, msgs[s.m]) {
							c.Fail("step %d: Decrypt with %s: %x, %v instead of %x", i, []string{"the key in use", "the same key elsewhere"}[j], got, err, msgs[s.m])
							return
						}
					}
					ct[len(ct)-1] ^= 1
					if got, err := btcec.Decrypt(priv, ct); err == nil {
						c.Fail("step %d: an altered ciphertext decrypts to %x", i, got)
						return
					}
				}
			})
			c.Add(2, 8, 6)
			if c.Stop() {
				return
			}
		}
	}
}

func init() {
	unit := func(id, name, bound string, run func(*Ctx)) {
		ck := checks[id]
		if ck == nil {
			panic("harness: no check " + id)
		}
		ck.Units = append(ck.Units, Unit{Name: name, Bound: bound, Run: run})
	}
	const b = "each call, the values of its arguments (all, or one group of them) changed in the caller's own memory, the call again, changed back, again; all calls, the change, all calls; "
	const d = "each call with all equal numbers and byte strings of its arguments in one place, and in places of their own; "
	zkU := func(id string, prefixes ...string) {
		unit(id, "one-memory-model-group", d+"model group", func(c *Ctx) { oneMemory(c, oneZn(), zkOps, prefixes...) })
		unit(id, "one-memory-secp", d+"secp256k1", func(c *Ctx) { oneMemory(c, oneSecp(), zkOps, prefixes...) })
		unit(id, "in-place-model-group", b+"model group", func(c *Ctx) { inPlace(c, c15ZnPair(), zkOps, prefixes...) })
		unit(id, "in-place-secp", b+"secp256k1", func(c *Ctx) { inPlace(c, c15SecpPair, zkOps, prefixes...) })
	}
	btU := func(id string, prefixes ...string) {
		unit(id, "one-memory", d+"secp256k1", func(c *Ctx) { oneMemory(c, oneSecp(), btcOps, prefixes...) })
		unit(id, "in-place", b+"secp256k1", func(c *Ctx) { inPlace(c, c15SecpPair, btcOps, prefixes...) })
	}
	kinds := func(ks ...int) (r []string) {
		for _, k := range ks {
			r = append(r, "verify "+kindName[k], "verify wrong "+kindName[k], "verify and encode "+kindName[k])
		}
		return
	}
	zkU("C01", "prove")
	zkU("C02", "prove")
	zkU("C03", kinds(kGSPFS, kEquiv, kCons)...)
	zkU("C04", kinds(kDisj, kABC, kIneq)...)
	unit("C05", "in-place", "all ordered pairs of 12 (parameters, value) put one after the other into the same memory, model group", c05InPlace)
	zkU("C06", kinds(kRange)...)
	zkU("C07", "GenerateChallenge", "prove")
	zkU("C10", "encode", "verify and encode", "P", "WriteECPoint", "WriteBigInt")
	zkU("C11", "decode")
	btU("C12", "WriteVarBytes")
	zkU("C13", "Add(", "Sub(", "Neg(", "Mult(", "Equal(")
	zkU("C14", "PedCommit", "Open(", "CommitR(", "VerifyR(", "KeyGen(")
	btU("C18", "curve.", "IsOnCurve", "Scalar", "NAF", "QPlus")
	btU("C20", "ParsePubKey", "PrivKeyFromBytes", "IsCompressedPubKey", "pub ", "key ")
	btU("C21", "Sign(", "Verify(")
	btU("C22", "SignCompact(", "RecoverCompact(", "ParseSignature", "ParseDERSignature", "sig ")
	btU("C23", "Decrypt(", "shared secret")
	unit("C23", "in-place-encryption", "all ordered pairs of 12 (key, message) put one after the other into the same memory", c23InPlace)
	zkU("C24", "verify")
	zkU("C25", "(abc)")
}
