package zkmc

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash"
	"hash/fnv"
	"math/big"
	"reflect"

	zk "github.com/mit-dci/zksigma"
	"github.com/mit-dci/zksigma/btcec"
	"github.com/mit-dci/zksigma/wire"
)

// deepHash walks a value through pointers, interfaces, slices (byte slices up to their capacity)
// and unexported fields. Arrays of more than 2000 elements and functions are left out.
func deepHash(vs ...interface{}) uint64 {
	h := fnv.New64a()
	seen := map[uintptr]bool{}
	for _, v := range vs {
		walkValue(h, reflect.ValueOf(v), seen, 0)
	}
	return h.Sum64()
}

func walkValue(h hash.Hash64, v reflect.Value, seen map[uintptr]bool, depth int) {
	var b [8]byte
	put := func(x uint64) {
		binary.LittleEndian.PutUint64(b[:], x)
		h.Write(b[:])
	}
	if !v.IsValid() {
		put(0xdead)
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			put(1)
			return
		}
		if v.Elem().Kind() == reflect.Array && v.Elem().Len() >= 32 && v.Elem().Type().Elem().Kind() == reflect.Array {
			return // pre-computed tables: C18 looks at those
		}
		if v.Elem().Kind() == reflect.Struct && v.Type() != bigType {
			if seen[v.Pointer()] {
				put(2)
				return
			}
			seen[v.Pointer()] = true
		}
		walkValue(h, v.Elem(), seen, depth+1)
	case reflect.Interface:
		walkValue(h, v.Elem(), seen, depth+1)
	case reflect.Struct:
		put(uint64(v.NumField()))
		for i := 0; i < v.NumField(); i++ {
			walkValue(h, v.Field(i), seen, depth+1)
		}
	case reflect.Slice:
		if v.IsNil() {
			put(3)
			return
		}
		put(uint64(v.Len()))
		n := v.Len()
		if v.Type().Elem().Kind() == reflect.Uint8 {
			n = v.Cap()
			v = v.Slice(0, n)
		}
		for i := 0; i < n; i++ {
			walkValue(h, v.Index(i), seen, depth+1)
		}
	case reflect.Array:
		if v.Len() > 2000 {
			return
		}
		for i := 0; i < v.Len(); i++ {
			walkValue(h, v.Index(i), seen, depth+1)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		put(v.Uint())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		put(uint64(v.Int()))
	case reflect.Bool:
		if v.Bool() {
			put(5)
		} else {
			put(6)
		}
	case reflect.String:
		h.Write([]byte(v.String()))
	case reflect.Map:
		put(uint64(v.Len()))
	}
}

// cenv holds everything calls are made with. Slot 0 of P, S and B can take an earlier result.
type cenv struct {
	name  string
	cp    CP
	g     Group
	P     []EC
	S     []BI
	B     [][]byte
	stmts []Stmt
	prf   [nKinds]Proof
	vp    [nKinds][]EC
	enc   [nKinds][]byte
	priv  []*btcec.PrivateKey
	pub   []*btcec.PublicKey
	sig   []*btcec.Signature
	ct    []byte
	der   []byte
	comp  []byte
	keys  [][]byte
	alt   []altProof         // proofs with unusual scalars
	sig2  []*btcec.Signature // signatures with unusual numbers
}

type altProof struct {
	what string
	p    Proof
	v    []EC
}

// spare gives a byte slice room behind it that must stay as it is.
func spare(b []byte) []byte {
	n := len(b)
	r := make([]byte, n, n+40)
	copy(r, b)
	full := r[:cap(r)]
	for i := n; i < len(full); i++ {
		full[i] = byte(0xa0 + i)
	}
	return r
}

func (e *cenv) globals() []interface{} {
	return []interface{}{zk.Zero, zk.BigZero, zk.TestCurve.G, zk.TestCurve.H, zk.TestCurve.HPoints, zk.TestCurve.C.Params(), btcec.S256()}
}

// hash covers arguments, parameters and package-level values.
func (e *cenv) hash() uint64 {
	return deepHash(append(e.globals(), e.cp, e.P, e.S, e.B, e.stmts, e.prf[:], e.vp[:], e.enc[:], e.priv, e.pub, e.sig, e.ct, e.der, e.comp, e.keys, e.alt, e.sig2)...)
}

// cop is one call. det: the same arguments and random draws give the same result.
type cop struct {
	name string
	det  bool
	rep  bool // used in sequences of two
	run  func(e *cenv) []interface{}
}

func newCenv(name string, cp CP, g Group, mkStmt func(kind int, side zk.Side) Stmt) *cenv {
	return newCenvV(name, cp, g, 0, mkStmt)
}

// newCenvV: v makes environments of the same shape with other values.
func newCenvV(name string, cp CP, g Group, v int64, mkStmt func(kind int, side zk.Side) Stmt) *cenv {
	in := func(x int64) BI { return big.NewInt(x + v) }
	tr := func(b []byte) []byte {
		for i := range b {
			b[i] ^= byte(17 * v)
		}
		return b
	}
	e := &cenv{name: name, cp: cp, g: g}
	N := g.Order()
	cpy := func(p EC) EC { return EC{X: new(big.Int).Set(p.X), Y: new(big.Int).Set(p.Y)} }
	e.P = []EC{cpy(g.Mul(cp.G, in(5))), zk.Zero, cp.G, cp.H, cpy(g.Neg(cp.G)), cpy(g.Add(g.Mul(cp.G, in(5)), g.Mul(cp.H, in(9)))), cpy(g.Mul(cp.H, in(7)))}
	e.S = []BI{in(5), zk.BigZero, in(-3), new(big.Int).Add(N, in(2)), new(big.Int).Sub(N, in(1)), in(9)}
	e.B = [][]byte{spare(tr([]byte("zero one two three four five six"))), spare(nil), spare(tr([]byte{7})), spare(tr(bytes.Repeat([]byte{0xee}, 64)))}
	for k := kGSPFS; k <= kRange; k++ {
		s := mkStmt(k, zk.Left)
		e.stmts = append(e.stmts, s)
		var r BI
		var err error
		withRand(newStream("c15 env"), func() { e.prf[k], r, err = prove(s) })
		if err != nil {
			panic(err)
		}
		if k == kRange {
			e.vp[k] = []EC{g.Add(g.Mul(cp.G, s.wit[0]), g.Mul(cp.H, r))}
		} else {
			e.vp[k] = s.vpts(func(a, b EC) EC { return g.Add(a, g.Neg(b)) })
		}
		e.enc[k] = spare(refEncode(k, fieldsOf(e.prf[k])))
	}
	e.stmts = append(e.stmts, mkStmt(kDisj, zk.Right))
	// a prover that has to refuse
	bad := e.stmts[kCons]
	bad.wit = []BI{in(1), in(77)}
	e.stmts = append(e.stmts, bad)
	e.stmts = append(e.stmts, Stmt{kRange, cp, nil, []BI{big.NewInt(-1)}, 0})
	// the same witnesses unreduced
	for _, s := range append([]Stmt(nil), e.stmts[:kRange+2]...) {
		if s.kind == kRange {
			continue
		}
		for i := range s.wit {
			for _, d := range []BI{N, new(big.Int).Neg(N)} {
				u := s
				u.wit = append([]BI(nil), s.wit...)
				u.wit[i] = new(big.Int).Add(s.wit[i], d)
				e.stmts = append(e.stmts, u)
			}
		}
	}
	// proofs with one scalar or one public coordinate outside its range
	for k := kGSPFS; k <= kRange; k++ {
		f := fieldsOf(e.prf[k])
		for i := range f.S {
			if k == kRange && i > 2 {
				break
			}
			for _, d := range []BI{N, new(big.Int).Neg(N), new(big.Int).Neg(f.S[i])} {
				h := f.clone()
				h.S[i] = new(big.Int).Add(f.S[i], d)
				if p, err := build(k, h); err == nil {
					e.alt = append(e.alt, altProof{fmt.Sprintf("%s, scalar %d %+d", kindName[k], i, d), p, e.vp[k]})
				}
			}
		}
		P := cp.C.Params().P
		for i := range e.vp[k] {
			for j := 0; j < 2; j++ {
				v := append([]EC(nil), e.vp[k]...)
				v[i] = cpy(v[i])
				if j == 0 {
					v[i].X.Add(v[i].X, P)
				} else {
					v[i].Y.Sub(v[i].Y, P)
				}
				e.alt = append(e.alt, altProof{fmt.Sprintf("%s, statement point %d coordinate %d shifted", kindName[k], i, j), e.prf[k], v})
			}
		}
		for i := range f.P {
			if k == kRange && i > 2 {
				break
			}
			h := f.clone()
			h.P[i].X.Add(h.P[i].X, P)
			if p, err := build(k, h); err == nil {
				e.alt = append(e.alt, altProof{fmt.Sprintf("%s, proof point %d shifted", kindName[k], i), p, e.vp[k]})
			}
		}
	}
	for _, d := range [][]byte{{byte(1 + v)}, tr([]byte{0x12, 0x34, 0x56}), new(big.Int).Sub(sN, in(1)).Bytes()} {
		priv, pub := btcec.PrivKeyFromBytes(btcec.S256(), d)
		e.priv, e.pub = append(e.priv, priv), append(e.pub, pub)
		e.keys = append(e.keys, spare(d))
	}
	for i, p := range e.priv {
		s, err := p.Sign(e.B[i])
		if err != nil {
			panic(err)
		}
		e.sig = append(e.sig, s)
	}
	hi := &btcec.Signature{R: new(big.Int).Set(e.sig[0].R), S: new(big.Int).Sub(sN, e.sig[0].S)}
	e.sig = append(e.sig, hi)
	for _, d := range []BI{sN, new(big.Int).Neg(sN), new(big.Int).Neg(e.sig[0].S), sP} {
		e.sig2 = append(e.sig2, &btcec.Signature{R: new(big.Int).Add(e.sig[0].R, d), S: new(big.Int).Set(e.sig[0].S)}, &btcec.Signature{R: new(big.Int).Set(e.sig[0].R), S: new(big.Int).Add(e.sig[0].S, d)})
	}
	withRand(newStream("c15 ct"), func() {
		ct, err := btcec.Encrypt(e.pub[1], e.B[0])
		if err != nil {
			panic(err)
		}
		e.ct = spare(ct)
	})
	e.der = spare(e.sig[0].Serialize())
	comp, err := btcec.SignCompact(btcec.S256(), e.priv[1], e.B[0], true)
	if err != nil {
		panic(err)
	}
	e.comp = spare(comp)
	e.keys = append(e.keys, spare(e.pub[1].SerializeCompressed()), spare(e.pub[1].SerializeUncompressed()), spare(e.pub[2].SerializeHybrid()))
	return e
}

func zkOps(e *cenv) []cop {
	var l []cop
	add := func(rep bool, name string, run func(e *cenv) []interface{}) {
		l = append(l, cop{name: name, det: true, rep: rep, run: run})
	}
	R := func(x ...interface{}) []interface{} { return x }
	for i := range e.P {
		i := i
		for j := range e.P {
			j := j
			add(i == 0 && j <= 3 || j == 0, fmt.Sprintf("Add(P%d,P%d)", i, j), func(e *cenv) []interface{} { return R(e.cp.Add(e.P[i], e.P[j])) })
			add(i == 0 && j < 3 || i == 1 && j == 0, fmt.Sprintf("Sub(P%d,P%d)", i, j), func(e *cenv) []interface{} { return R(e.cp.Sub(e.P[i], e.P[j])) })
			add(false, fmt.Sprintf("Equal(P%d,P%d)", i, j), func(e *cenv) []interface{} { return R(e.P[i].Equal(e.P[j])) })
		}
		add(i < 3, fmt.Sprintf("Neg(P%d)", i), func(e *cenv) []interface{} { return R(e.cp.Neg(e.P[i])) })
		add(i == 0, fmt.Sprintf("P%d.Bytes", i), func(e *cenv) []interface{} { return R(e.P[i].Bytes()) })
		add(i == 0, fmt.Sprintf("WriteECPoint(P%d)", i), func(e *cenv) []interface{} {
			var b bytes.Buffer
			err := zk.WriteECPoint(&b, e.P[i])
			p, err2 := zk.ReadECPoint(bytes.NewReader(b.Bytes()))
			return R(b.Bytes(), err == nil, p, err2 == nil)
		})
		for j := range e.S {
			j := j
			add(i == 0 && j <= 2 || (i == 2 || i == 3) && j == 0, fmt.Sprintf("Mult(P%d,S%d)", i, j), func(e *cenv) []interface{} { return R(e.cp.Mult(e.P[i], e.S[j])) })
			add(i == 0 && j == 0, fmt.Sprintf("CommitR(P%d,S%d)", i, j), func(e *cenv) []interface{} { return R(zk.CommitR(e.cp, e.P[i], e.S[j])) })
			add(i == 0 && j == 0, fmt.Sprintf("VerifyR(P%d,S%d)", i, j), func(e *cenv) []interface{} { return R(zk.VerifyR(e.cp, e.P[0], e.P[i], e.S[j])) })
			add(i == 0 && j == 0, fmt.Sprintf("Open(S%d,P%d)", j, i), func(e *cenv) []interface{} { return R(zk.Open(e.cp, e.S[j], e.S[0], e.P[i])) })
		}
		add(i == 0, fmt.Sprintf("KeyGen(P%d)", i), func(e *cenv) []interface{} { p, s := zk.KeyGen(e.cp.C, e.P[i]); return R(p, s) })
	}
	for i := range e.S {
		i := i
		for j := range e.S {
			j := j
			add(i == 0 && j < 2, fmt.Sprintf("PedCommitR(S%d,S%d)", i, j), func(e *cenv) []interface{} { return R(zk.PedCommitR(e.cp, e.S[i], e.S[j])) })
		}
		add(i == 0, fmt.Sprintf("PedCommit(S%d)", i), func(e *cenv) []interface{} { p, r, err := zk.PedCommit(e.cp, e.S[i]); return R(p, r, err == nil) })
		add(i == 0, fmt.Sprintf("WriteBigInt(S%d)", i), func(e *cenv) []interface{} {
			var b bytes.Buffer
			err := zk.WriteBigInt(&b, e.S[i])
			p, err2 := zk.ReadBigInt(bytes.NewReader(b.Bytes()))
			return R(b.Bytes(), err == nil, p, err2 == nil)
		})
	}
	add(true, "GenerateChallenge", func(e *cenv) []interface{} { return R(zk.GenerateChallenge(e.cp, e.B...)) })
	for i := range e.stmts {
		i := i
		det := e.stmts[i].kind != kRange
		l = append(l, cop{fmt.Sprintf("prove %d (%s)", i, kindName[e.stmts[i].kind]), det, true, func(e *cenv) []interface{} {
			p, r, err := prove(e.stmts[i])
			if err != nil { // what comes with an error is not a result
				return R(false)
			}
			return R(p, r, true)
		}})
	}
	for k := kGSPFS; k <= kRange; k++ {
		k := k
		add(true, "verify "+kindName[k], func(e *cenv) []interface{} { ok, err := verify(e.prf[k], e.cp, e.vp[k]); return R(ok, err == nil) })
		add(false, "verify wrong "+kindName[k], func(e *cenv) []interface{} {
			v := append([]EC{}, e.vp[k]...)
			v[0] = e.P[0]
			ok, err := verify(e.prf[k], e.cp, v)
			return R(ok, err == nil)
		})
		add(true, "encode "+kindName[k], func(e *cenv) []interface{} { return R(e.prf[k].bytes()) })
		add(true, "decode "+kindName[k], func(e *cenv) []interface{} { p, err := fromBytes(k, e.enc[k]); return R(p, err == nil) })
		add(false, "decode truncated "+kindName[k], func(e *cenv) []interface{} {
			p, err := fromBytes(k, e.enc[k][:len(e.enc[k])-3])
			return R(p.isNil(), err == nil)
		})
		for i := range e.alt { // another proof of the same kind
			i := i
			if e.alt[i].p.kind == k {
				add(true, "encode other "+kindName[k], func(e *cenv) []interface{} { return R(e.alt[i].p.bytes()) })
				break
			}
		}
		for i := range e.alt {
			i := i
			if e.alt[i].p.kind == k {
				add(false, "verify and encode "+e.alt[i].what, func(e *cenv) []interface{} {
					ok, err := verify(e.alt[i].p, e.cp, e.alt[i].v)
					return R(ok, err == nil, e.alt[i].p.bytes())
				})
			}
		}
		add(false, "decode other bytes "+kindName[k], func(e *cenv) []interface{} { p, err := fromBytes(k, e.B[0]); return R(p.isNil(), err == nil) })
	}
	return l
}

func btcOps(e *cenv) []cop {
	var l []cop
	add := func(rep bool, name string, run func(e *cenv) []interface{}) {
		l = append(l, cop{name: name, det: true, rep: rep, run: run})
	}
	R := func(x ...interface{}) []interface{} { return x }
	S := btcec.S256()
	for i := range e.P {
		i := i
		for j := range e.P {
			j := j
			add(i == 0 && j < 3, fmt.Sprintf("curve.Add(P%d,P%d)", i, j), func(e *cenv) []interface{} {
				x, y := S.Add(e.P[i].X, e.P[i].Y, e.P[j].X, e.P[j].Y)
				return R(EC{X: x, Y: y})
			})
		}
		add(i == 0, fmt.Sprintf("curve.Double(P%d)", i), func(e *cenv) []interface{} { x, y := S.Double(e.P[i].X, e.P[i].Y); return R(EC{X: x, Y: y}) })
		add(i == 0, fmt.Sprintf("IsOnCurve(P%d)", i), func(e *cenv) []interface{} { return R(S.IsOnCurve(e.P[i].X, e.P[i].Y)) })
		for j := range e.B {
			j := j
			add(i == 0 && j == 0, fmt.Sprintf("ScalarMult(P%d,B%d)", i, j), func(e *cenv) []interface{} {
				x, y := S.ScalarMult(e.P[i].X, e.P[i].Y, e.B[j])
				return R(EC{X: x, Y: y})
			})
		}
	}
	for j := range e.B {
		j := j
		add(j == 0, fmt.Sprintf("ScalarBaseMult(B%d)", j), func(e *cenv) []interface{} { x, y := S.ScalarBaseMult(e.B[j]); return R(EC{X: x, Y: y}) })
		add(j == 0, fmt.Sprintf("ScalarBaseMultH(B%d)", j), func(e *cenv) []interface{} { x, y := S.ScalarBaseMultH(e.B[j]); return R(EC{X: x, Y: y}) })
		add(j == 0, fmt.Sprintf("NAF(B%d)", j), func(e *cenv) []interface{} { a, b := btcec.NAF(e.B[j]); return R(a, b) })
		add(j == 0, fmt.Sprintf("PrivKeyFromBytes(B%d)", j), func(e *cenv) []interface{} { a, b := btcec.PrivKeyFromBytes(S, e.B[j]); return R(a.D, b.X, b.Y) })
		add(j == 0, fmt.Sprintf("WriteVarBytes(B%d)", j), func(e *cenv) []interface{} {
			var b bytes.Buffer
			err := wire.WriteVarBytes(&b, e.B[j])
			x, err2 := wire.ReadVarBytes(bytes.NewReader(b.Bytes()), 1000, "x")
			return R(b.Bytes(), x, err == nil, err2 == nil)
		})
		for i := range e.priv {
			i := i
			add(i == 0 && j == 0, fmt.Sprintf("Sign(key %d,B%d)", i, j), func(e *cenv) []interface{} { s, err := e.priv[i].Sign(e.B[j]); return R(s, err == nil) })
			for k := range e.sig {
				k := k
				add(i == 0 && j == 0 && k == 0, fmt.Sprintf("Verify(key %d,B%d,sig %d)", i, j, k), func(e *cenv) []interface{} { return R(e.sig[k].Verify(e.B[j], e.pub[i])) })
			}
			add(i == 0 && j == 0, fmt.Sprintf("SignCompact(key %d,B%d)", i, j), func(e *cenv) []interface{} {
				s, err := btcec.SignCompact(S, e.priv[i], e.B[j], i == 1)
				return R(s, err == nil)
			})
			l = append(l, cop{fmt.Sprintf("Encrypt(key %d,B%d)", i, j), false, i == 0 && j == 0, func(e *cenv) []interface{} {
				ct, err := btcec.Encrypt(e.pub[i], e.B[j])
				return R(ct, err == nil)
			}})
		}
		add(j == 0, fmt.Sprintf("RecoverCompact(B%d)", j), func(e *cenv) []interface{} {
			k, c, err := btcec.RecoverCompact(S, e.comp, e.B[j])
			if err != nil {
				return R(c, false)
			}
			return R(k.X, k.Y, c)
		})
		add(false, fmt.Sprintf("Decrypt(B%d)", j), func(e *cenv) []interface{} { p, err := btcec.Decrypt(e.priv[0], e.B[j]); return R(p, err == nil) })
	}
	for i := range e.priv {
		i := i
		add(i == 1, fmt.Sprintf("Decrypt(key %d)", i), func(e *cenv) []interface{} { p, err := btcec.Decrypt(e.priv[i], e.ct); return R(p, err == nil) })
		add(i <= 1, fmt.Sprintf("key %d Serialize", i), func(e *cenv) []interface{} {
			return R(e.priv[i].Serialize(), e.priv[i].PubKey().X, e.priv[i].ToECDSA().D)
		})
		add(i <= 1, fmt.Sprintf("pub %d serialize", i), func(e *cenv) []interface{} {
			return R(e.pub[i].SerializeCompressed(), e.pub[i].SerializeUncompressed(), e.pub[i].SerializeHybrid())
		})
		for j := range e.pub {
			j := j
			add(i == 0 && j == 1, fmt.Sprintf("shared secret %d,%d", i, j), func(e *cenv) []interface{} { return R(btcec.GenerateSharedSecret(e.priv[i], e.pub[j])) })
			add(false, fmt.Sprintf("pub IsEqual %d,%d", i, j), func(e *cenv) []interface{} { return R(e.pub[i].IsEqual(e.pub[j])) })
		}
	}
	for k := range e.sig {
		k := k
		add(k != 2, fmt.Sprintf("sig %d Serialize", k), func(e *cenv) []interface{} { return R(e.sig[k].Serialize()) })
		add(false, fmt.Sprintf("sig IsEqual 0,%d", k), func(e *cenv) []interface{} { return R(e.sig[0].IsEqual(e.sig[k])) })
	}
	for k := range e.sig2 {
		k := k
		add(false, fmt.Sprintf("Verify(unusual sig %d)", k), func(e *cenv) []interface{} {
			return R(e.sig2[k].Verify(e.B[0], e.pub[0]), e.sig2[k].IsEqual(e.sig[0]))
		})
	}
	for k := range e.keys {
		k := k
		add(k >= 3, fmt.Sprintf("ParsePubKey %d", k), func(e *cenv) []interface{} {
			p, err := btcec.ParsePubKey(e.keys[k], S)
			if err != nil {
				return R(false)
			}
			return R(p.X, p.Y)
		})
		add(false, fmt.Sprintf("IsCompressedPubKey %d", k), func(e *cenv) []interface{} { return R(btcec.IsCompressedPubKey(e.keys[k])) })
	}
	add(true, "ParseDERSignature", func(e *cenv) []interface{} { s, err := btcec.ParseDERSignature(e.der, S); return R(s, err == nil) })
	add(true, "ParseSignature", func(e *cenv) []interface{} { s, err := btcec.ParseSignature(e.der, S); return R(s, err == nil) })
	add(false, "QPlus1Div4", func(e *cenv) []interface{} { return R(new(big.Int).Set(S.QPlus1Div4())) })
	l = append(l, cop{"NewPrivateKey", false, true, func(e *cenv) []interface{} { k, err := btcec.NewPrivateKey(S); return R(k.D, k.X, k.Y, err == nil) }})
	return l
}

func runCop(e *cenv, o cop) (r []interface{}) {
	withRand(newStream("c15 run"), func() { r = o.run(e) })
	return
}

// c15Single: every call alone, twice.
func c15Single(c *Ctx, mk func() *cenv, ops func(*cenv) []cop) {
	e := mk()
	for _, o := range ops(e) {
		if !c.Case("%s: %s, twice", e.name, o.name) {
			continue
		}
		c.Guard(o.name, func() {
			before := e.hash()
			r1 := runCop(e, o)
			h1 := deepHash(r1...)
			if e.hash() != before {
				c.Fail("%s: %s changes its arguments, the parameters or a package-level value", e.name, o.name)
				return
			}
			r2 := runCop(e, o)
			if e.hash() != before {
				c.Fail("%s: the second %s changes its arguments, the parameters or a package-level value", e.name, o.name)
				return
			}
			if deepHash(r1...) != h1 {
				c.Fail("%s: calling %s again changes the first call's result", e.name, o.name)
				return
			}
			if o.det && !sameResults(r1, r2) {
				c.Fail("%s: %s gives another result the second time", e.name, o.name)
			}
		})
		c.Add(1, 2, 4)
		c.Outcome("call: nothing changed")
		if c.Stop() {
			return
		}
		if c.Failed() {
			e = mk()
		}
	}
}

// sameResults compares results by content, ignoring spare capacity.
func sameResults(a, b []interface{}) bool {
	if len(a) != len(b) {
		return false
	}
	trim := func(x interface{}) interface{} {
		if p, ok := x.([]byte); ok {
			return p[:len(p):len(p)]
		}
		return x
	}
	for i := range a {
		if deepHash(trim(a[i])) != deepHash(trim(b[i])) {
			return false
		}
	}
	return true
}

// feed puts results of a call where later calls take their arguments.
func (e *cenv) feed(r []interface{}) {
	for _, x := range r {
		switch v := x.(type) {
		case EC:
			if v.X != nil && v.Y != nil {
				e.P[0] = v
			}
		case BI:
			if v != nil {
				e.S[0] = v
			}
		case []byte:
			e.B[0] = v
		case Proof:
			if !v.isNil() {
				e.prf[v.kind] = v
			}
		case *btcec.Signature:
			if v != nil {
				e.sig[0] = v
			}
		}
	}
}

// c15Kept: all calls one after the other with every result kept; a call must leave the results of
// all earlier calls as they were. step orders the list: call i*step mod n, for a step prime to n.
func c15Kept(c *Ctx, mk func() *cenv, ops func(*cenv) []cop, window int) {
	e := mk()
	l := ops(e)
	gcd := func(a, b int) int {
		for b != 0 {
			a, b = b, a%b
		}
		return a
	}
	n := len(l)
	var steps []int
	for _, s := range []int{1, n - 1, 7, 31, 101, n/2 + 1, n/3 + 1} {
		for gcd(s, n) != 1 {
			s++
		}
		steps = append(steps, s)
	}
	for _, step := range steps {
		if !c.Case("%s: all %d calls in a row in steps of %d, all results kept", e.name, n, step) {
			continue
		}
		type held struct {
			name string
			r    []interface{}
			h    uint64
		}
		var kept []held
		c.Guard("kept", func() {
			before := e.hash()
			look := func(from int, name string) bool {
				for _, k := range kept[from:] {
					if deepHash(k.r...) != k.h {
						c.Fail("%s: %s or a call shortly before it changes what the earlier %s returned", e.name, name, k.name)
						return false
					}
				}
				return true
			}
			for i := 0; i < n; i++ {
				o := l[i*step%n]
				r := runCop(e, o)
				from := len(kept) - window
				if from < 0 || i%50 == 0 || i == n-1 {
					from = 0
				}
				if !look(from, o.name) {
					return
				}
				kept = append(kept, held{o.name, r, deepHash(r...)})
				c.Add(0, 1, int64(len(kept)-from))
				if i%50 == 0 && c.Stop() {
					return
				}
			}
			if e.hash() != before {
				c.Fail("%s: the calls change their arguments, the parameters or a package-level value", e.name)
			}
		})
		c.Add(1, 0, 0)
		c.Outcome("run over all calls: nothing changed")
		if c.Failed() {
			e = mk()
			l = ops(e)
		}
		if c.Stop() {
			return
		}
	}
}

// c15Pairs: every two calls in a row, the second one on the first one's results, then the
// first one again.
func c15Pairs(c *Ctx, mk func() *cenv, ops func(*cenv) []cop, depth int) {
	e := mk()
	var reps []cop
	for _, o := range ops(e) {
		if o.rep {
			reps = append(reps, o)
		}
	}
	for _, a := range reps {
		for _, b := range reps {
			if !c.Case("%s: %s, then %s on its result, then %s again", e.name, a.name, b.name, a.name) {
				continue
			}
			saveP, saveS, saveB, saveSig, savePrf := e.P[0], e.S[0], e.B[0], e.sig[0], e.prf
			c.Guard(a.name+" / "+b.name, func() {
				before := e.hash()
				ra := runCop(e, a)
				ha := deepHash(ra...)
				e.feed(ra)
				mid := e.hash()
				rb := runCop(e, b)
				hb := deepHash(rb...)
				if deepHash(ra...) != ha {
					c.Fail("%s: %s changes the result of the earlier %s", e.name, b.name, a.name)
					return
				}
				if e.hash() != mid {
					c.Fail("%s: %s changes its arguments, the parameters or a package-level value (after %s)", e.name, b.name, a.name)
					return
				}
				e.P[0], e.S[0], e.B[0], e.sig[0], e.prf = saveP, saveS, saveB, saveSig, savePrf
				if e.hash() != before {
					c.Fail("%s: %s then %s change their arguments", e.name, a.name, b.name)
					return
				}
				rc := runCop(e, a)
				if a.det && !sameResults(ra, rc) {
					c.Fail("%s: %s gives another result after %s", e.name, a.name, b.name)
					return
				}
				if deepHash(ra...) != ha || deepHash(rb...) != hb {
					c.Fail("%s: the second %s changes an earlier result (%s between)", e.name, a.name, b.name)
				}
			})
			c.Add(1, 3, 6)
			c.Outcome("sequence: nothing changed")
			if c.Failed() {
				e = mk()
			}
			e.P[0], e.S[0], e.B[0], e.sig[0], e.prf = saveP, saveS, saveB, saveSig, savePrf
			if c.Stop() {
				return
			}
		}
	}
}

func init() {
	ck := &Check{ID: "C15", Level: "model_checking",
		Rule:        "state = everything reachable from arguments (spare capacity of byte slices included), parameters, package-level values and earlier results, as a deep hash; it must be the same after every call of every sequence",
		Assumptions: []string{"the pre-computed tables are compared by C18"}}
	add := func(name, tier, bound string, run func(*Ctx)) {
		ck.Units = append(ck.Units, Unit{Name: name, Tier: tier, Bound: bound, Run: run})
	}
	both := func(e *cenv) []cop { return append(zkOps(e), btcOps(e)...) }
	add("single-secp", "", "about 1000 calls of every public function, each twice, on secp256k1", func(c *Ctx) { c15Single(c, c15SecpEnv, both) })
	add("single-model-group", "", "the zksigma calls on the model group", func(c *Ctx) { c15Single(c, c15ZnEnv, zkOps) })
	add("kept-secp", "", "all calls one after the other in 7 orders, every result kept: no call changes what an earlier one returned", func(c *Ctx) { c15Kept(c, c15SecpEnv, both, 12) })
	add("kept-model-group", "", "the same for the zksigma calls on the model group", func(c *Ctx) { c15Kept(c, c15ZnEnv, zkOps, 12) })
	add("in-place-secp", "", "every call, all values changed in place, the call again; all calls, the change, all calls; secp256k1", func(c *Ctx) { inPlace(c, c15SecpPair, both, "") })
	add("in-place-model-group", "", "the same for the zksigma calls on the model group", func(c *Ctx) { inPlace(c, c15ZnPair(), zkOps, "") })
	add("one-memory-secp", "", "every call with all equal numbers and byte strings of its arguments in one place, and in places of their own; secp256k1", func(c *Ctx) { oneMemory(c, oneSecp(), both, "") })
	add("one-memory-model-group", "", "the same for the zksigma calls on the model group", func(c *Ctx) { oneMemory(c, oneZn(), zkOps, "") })
	add("pairs-model-group", "", "all ordered pairs of representative zksigma calls, the second working on the first one's results, the first repeated", func(c *Ctx) { c15Pairs(c, c15ZnEnv, zkOps, 2) })
	add("pairs-secp", "", "all ordered pairs of representative btcec and wire calls", func(c *Ctx) { c15Pairs(c, c15SecpEnv, btcOps, 2) })
	add("pairs-all", "thorough", "all ordered pairs of representative calls of all packages on secp256k1", func(c *Ctx) { c15Pairs(c, c15SecpEnv, both, 2) })
	register(ck)
}

func c15SecpEnv() *cenv        { return c15SecpEnvP(0) }
func c15SecpEnv2() *cenv       { return c15SecpEnvP(3) }
func c15SecpEnvP(pi int) *cenv { return c15SecpEnvOn(pi, realParams()[pi], 0) }
func c15SecpEnvOn(pi int, cp CP, v int64) *cenv {
	return newCenvV([]string{"secp256k1", "", "", "secp256k1, swapped generators"}[pi], cp, secp, v, func(k int, side zk.Side) Stmt {
		return realStmt(k, pi, cp, big.NewInt(5+v), big.NewInt(9+v), big.NewInt(7+3*v), side)
	})
}
func c15ZnEnv() *cenv  { return c15ZnEnvOn(newZn(znN), 31, 0) }
func c15ZnEnv2() *cenv { return c15ZnEnvOn(newZn(znN), 1009, 0) }
func c15ZnEnvOn(z *Zn, h uint64, v int64) *cenv {
	name := "model group"
	if h != 31 {
		name += ", another H"
	}
	e := newCenvV(name, z.CP(h, 64), znGroup{z}, v, func(k int, side zk.Side) Stmt {
		return znStmt(z, k, h, big.NewInt(5+v), big.NewInt(9+v), big.NewInt(7+3*v), side)
	})
	for i := range e.stmts { // one parameter set for all
		e.stmts[i].cp = e.cp
	}
	return e
}
