package zkmc

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"

	zk "github.com/mit-dci/zksigma"
)

type EC = zk.ECPoint
type CP = zk.ZKPCurveParams
type BI = *big.Int

// The proof systems, by what the verifier is called with.
const (
	kGSPFS = iota
	kEquiv
	kDisj
	kCons
	kABC
	kIneq
	kRange
	nKinds
)

var kindName = []string{"gspfs", "equivalence", "disjunctive", "consistency", "abc", "inequality", "range"}

// Proof is any proof of the library.
type Proof struct {
	kind int
	g    *zk.GSPFSProof
	e    *zk.EquivalenceProof
	d    *zk.DisjunctiveProof
	c    *zk.ConsistencyProof
	a    *zk.ABCProof
	i    *zk.InequalityProof
	r    *zk.RangeProof
}

func (p Proof) isNil() bool {
	return p.g == nil && p.e == nil && p.d == nil && p.c == nil && p.a == nil && p.i == nil && p.r == nil
}

// Stmt is what a prover is called with.
type Stmt struct {
	kind int
	cp   CP
	pts  []EC // gspfs: base, A; equivalence, disjunctive: B1, R1, B2, R2; consistency: CM, CMTok, PK; abc: CM, CMTok; inequality: A, B, TokA, TokB; range: none
	wit  []BI // gspfs, equivalence, disjunctive: x; consistency: v, r; abc: v, sk; inequality: a, b, sk; range: v
	side zk.Side
}

func (s Stmt) String() string {
	t := kindName[s.kind] + " " + s.cp.C.Params().Name + " H=" + ecs(s.cp.H)
	for _, p := range s.pts {
		t += " " + ecs(p)
	}
	t += " wit"
	for _, w := range s.wit {
		t += " " + w.Text(16)
	}
	return t + fmt.Sprintf(" side=%d", s.side)
}

// prove calls the library's prover. extra is the range prover's blinding factor.
func prove(s Stmt) (p Proof, extra BI, err error) {
	p.kind = s.kind
	switch s.kind {
	case kGSPFS:
		if sameEC(s.pts[0], s.cp.G) && s.side == 0 {
			p.g, err = zk.NewGSPFSProof(s.cp, s.pts[1], s.wit[0])
		} else {
			p.g, err = zk.NewGSPFSProofBase(s.cp, s.pts[0], s.pts[1], s.wit[0])
		}
	case kEquiv:
		p.e, err = zk.NewEquivalenceProof(s.cp, s.pts[0], s.pts[1], s.pts[2], s.pts[3], s.wit[0])
	case kDisj:
		p.d, err = zk.NewDisjunctiveProof(s.cp, s.pts[0], s.pts[1], s.pts[2], s.pts[3], s.wit[0], s.side)
	case kCons:
		p.c, err = zk.NewConsistencyProof(s.cp, s.pts[0], s.pts[1], s.pts[2], s.wit[0], s.wit[1])
	case kABC:
		p.a, err = zk.NewABCProof(s.cp, s.pts[0], s.pts[1], s.wit[0], s.wit[1], s.side)
	case kIneq:
		p.i, err = zk.NewInequalityProof(s.cp, s.pts[0], s.pts[1], s.pts[2], s.pts[3], s.wit[0], s.wit[1], s.wit[2])
	case kRange:
		p.r, extra, err = zk.NewRangeProof(s.cp, s.wit[0])
	}
	return
}

// vpts gives the verifier's view of the statement (computed without the library).
func (s Stmt) vpts(sub func(a, b EC) EC) []EC {
	switch s.kind {
	case kGSPFS:
		return s.pts[1:2]
	case kIneq:
		return []EC{sub(s.pts[0], s.pts[1]), sub(s.pts[2], s.pts[3])}
	}
	return s.pts
}

// verify calls the library's verifier with the public points v.
func verify(p Proof, cp CP, v []EC) (bool, error) {
	switch p.kind {
	case kGSPFS:
		return p.g.Verify(cp, v[0])
	case kEquiv:
		return p.e.Verify(cp, v[0], v[1], v[2], v[3])
	case kDisj:
		return p.d.Verify(cp, v[0], v[1], v[2], v[3])
	case kCons:
		return p.c.Verify(cp, v[0], v[1], v[2])
	case kABC:
		return p.a.Verify(cp, v[0], v[1])
	case kIneq:
		return p.i.Verify(cp, v[0], v[1])
	}
	return p.r.Verify(cp, v[0])
}

func (p Proof) bytes() []byte {
	switch p.kind {
	case kGSPFS:
		return p.g.Bytes()
	case kEquiv:
		return p.e.Bytes()
	case kDisj:
		return p.d.Bytes()
	case kCons:
		return p.c.Bytes()
	case kABC:
		return p.a.Bytes()
	case kIneq:
		return (*zk.ABCProof)(p.i).Bytes()
	}
	return p.r.Bytes()
}

func fromBytes(kind int, b []byte) (p Proof, err error) {
	p.kind = kind
	switch kind {
	case kGSPFS:
		p.g, err = zk.NewGSPFSProofFromBytes(b)
	case kEquiv:
		p.e, err = zk.NewEquivalenceProofFromBytes(b)
	case kDisj:
		p.d, err = zk.NewDisjunctiveProofFromBytes(b)
	case kCons:
		p.c, err = zk.NewConsistencyProofFromBytes(b)
	case kABC:
		p.a, err = zk.NewABCProofFromBytes(b)
	case kIneq:
		var a *zk.ABCProof
		a, err = zk.NewABCProofFromBytes(b)
		p.i = (*zk.InequalityProof)(a)
	case kRange:
		p.r, err = zk.NewRangeProofFromBytes(b)
	}
	return
}

// ---- independent codec ----

// Fields are a proof's contents in wire order. For abc the embedded disjunctive proof's
// fields follow at the end; for range the entries do.
type Fields struct {
	P []EC
	S []BI
}

func (f Fields) clone() Fields {
	g := Fields{}
	for _, p := range f.P {
		g.P = append(g.P, EC{X: new(big.Int).Set(p.X), Y: new(big.Int).Set(p.Y)})
	}
	for _, s := range f.S {
		g.S = append(g.S, new(big.Int).Set(s))
	}
	return g
}

func (f Fields) eq(g Fields) bool {
	if len(f.P) != len(g.P) || len(f.S) != len(g.S) {
		return false
	}
	for i := range f.P {
		if !sameEC(f.P[i], g.P[i]) {
			return false
		}
	}
	for i := range f.S {
		if f.S[i].Cmp(g.S[i]) != 0 {
			return false
		}
	}
	return true
}

func (f Fields) String() string {
	s := ""
	for _, p := range f.P {
		s += ecs(p) + " "
	}
	for _, v := range f.S {
		s += v.Text(16) + " "
	}
	return s
}

func refVarInt(n uint64) []byte {
	switch {
	case n < 0xfd:
		return []byte{byte(n)}
	case n <= 0xffff:
		return []byte{0xfd, byte(n), byte(n >> 8)}
	case n <= 0xffffffff:
		return []byte{0xfe, byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}
	}
	b := []byte{0xff}
	for i := 0; i < 8; i++ {
		b = append(b, byte(n>>(8*i)))
	}
	return b
}

func refVarBytes(b []byte) []byte { return append(refVarInt(uint64(len(b))), b...) }

func refPoint(p EC) []byte {
	return append(refVarBytes(p.X.Bytes()), refVarBytes(p.Y.Bytes())...)
}

func refScalar(s BI) []byte {
	sign := byte(0)
	if s.Sign() < 0 {
		sign = 1
	}
	return refVarBytes(append([]byte{sign}, s.Bytes()...))
}

// layout of each kind: P point, S scalar
var layout = map[int]string{kGSPFS: "PPSS", kEquiv: "PPSS", kDisj: "PPSSSSS", kCons: "PPSSS", kABC: "PPPPSSSSP"}

// refEncode writes the documented wire format.
func refEncode(kind int, f Fields) []byte {
	var b bytes.Buffer
	pi, si := 0, 0
	put := func(lay string) {
		for _, ch := range lay {
			if ch == 'P' {
				b.Write(refPoint(f.P[pi]))
				pi++
			} else {
				b.Write(refScalar(f.S[si]))
				si++
			}
		}
	}
	switch kind {
	case kABC, kIneq:
		put(layout[kABC])
		sub := refEncode(kDisj, Fields{f.P[5:7], f.S[4:9]})
		b.Write(refVarBytes(sub))
	case kRange:
		put("PS")
		n := len(f.P) - 1
		b.Write(refVarInt(uint64(n)))
		for i := 0; i < n; i++ {
			put("PS")
		}
	default:
		put(layout[kind])
	}
	return b.Bytes()
}

var errRef = errors.New("reference decoder: malformed")

type refReader struct {
	b   []byte
	bad bool
}

func (r *refReader) take(n uint64) []byte {
	if r.bad || n > uint64(len(r.b)) {
		r.bad = true
		return nil
	}
	x := r.b[:n]
	r.b = r.b[n:]
	return x
}

func (r *refReader) varInt() uint64 {
	d := r.take(1)
	if r.bad {
		return 0
	}
	n := 0
	var min uint64
	switch d[0] {
	case 0xfd:
		n, min = 2, 0xfd
	case 0xfe:
		n, min = 4, 0x10000
	case 0xff:
		n, min = 8, 0x100000000
	default:
		return uint64(d[0])
	}
	x := r.take(uint64(n))
	if r.bad {
		return 0
	}
	v := uint64(0)
	for i := n - 1; i >= 0; i-- {
		v = v<<8 | uint64(x[i])
	}
	if v < min {
		r.bad = true
	}
	return v
}

func (r *refReader) varBytes(max uint64) []byte {
	n := r.varInt()
	if r.bad || n > max {
		r.bad = true
		return nil
	}
	return r.take(n)
}

func (r *refReader) point() EC {
	x := r.varBytes(128) // P-521 needs 66; a decoder may refuse more than a curve needs (see sane)
	y := r.varBytes(128)
	return EC{X: new(big.Int).SetBytes(x), Y: new(big.Int).SetBytes(y)}
}

func (r *refReader) scalar(max uint64) BI {
	x := r.varBytes(max)
	if r.bad || len(x) == 0 {
		r.bad = true
		return new(big.Int)
	}
	v := new(big.Int).SetBytes(x[1:])
	if x[0] == 1 {
		v.Neg(v)
	}
	return v
}

// refDecode reads the documented wire format; rest is what follows the proof.
func refDecode(kind int, b []byte) (f Fields, rest []byte, err error) {
	r := &refReader{b: b}
	const max = 1 << 20
	get := func(lay string) {
		for _, ch := range lay {
			if r.bad {
				return
			}
			if ch == 'P' {
				f.P = append(f.P, r.point())
			} else {
				f.S = append(f.S, r.scalar(max))
			}
		}
	}
	switch kind {
	case kABC, kIneq:
		get(layout[kABC])
		sub := r.varBytes(100000)
		if !r.bad {
			g, _, e := refDecode(kDisj, sub)
			if e != nil {
				r.bad = true
			}
			f.P = append(f.P, g.P...)
			f.S = append(f.S, g.S...)
		}
	case kRange:
		get("PS")
		n := r.varInt()
		for i := uint64(0); i < n && !r.bad; i++ {
			get("PS")
		}
	default:
		get(layout[kind])
	}
	if r.bad {
		return Fields{}, nil, errRef
	}
	return f, r.b, nil
}

// fieldsOf reads a proof's contents: through its exported fields where it has them, else through its bytes.
func fieldsOf(p Proof) Fields {
	switch p.kind {
	case kGSPFS:
		return Fields{[]EC{p.g.Base, p.g.RandCommit}, []BI{p.g.HiddenValue, p.g.Challenge}}
	case kEquiv:
		return Fields{[]EC{p.e.UG, p.e.UH}, []BI{p.e.Challenge, p.e.HiddenValue}}
	case kDisj:
		return Fields{[]EC{p.d.T1, p.d.T2}, []BI{p.d.C, p.d.C1, p.d.C2, p.d.S1, p.d.S2}}
	case kCons:
		return Fields{[]EC{p.c.T1, p.c.T2}, []BI{p.c.Challenge, p.c.S1, p.c.S2}}
	case kRange:
		f := Fields{[]EC{p.r.ProofAggregate}, []BI{p.r.ProofE}}
		for _, t := range p.r.ProofTuples {
			f.P = append(f.P, t.C)
			f.S = append(f.S, t.S)
		}
		return f
	}
	f, _, err := refDecode(p.kind, p.bytes())
	if err != nil {
		return Fields{}
	}
	return f
}

// build makes a proof with given contents (through exported fields or, for abc, the decoder).
func build(kind int, f Fields) (Proof, error) {
	p := Proof{kind: kind}
	switch kind {
	case kGSPFS:
		p.g = &zk.GSPFSProof{Base: f.P[0], RandCommit: f.P[1], HiddenValue: f.S[0], Challenge: f.S[1]}
	case kEquiv:
		p.e = &zk.EquivalenceProof{UG: f.P[0], UH: f.P[1], Challenge: f.S[0], HiddenValue: f.S[1]}
	case kDisj:
		p.d = &zk.DisjunctiveProof{T1: f.P[0], T2: f.P[1], C: f.S[0], C1: f.S[1], C2: f.S[2], S1: f.S[3], S2: f.S[4]}
	case kCons:
		p.c = &zk.ConsistencyProof{T1: f.P[0], T2: f.P[1], Challenge: f.S[0], S1: f.S[1], S2: f.S[2]}
	default:
		return fromBytes(kind, refEncode(kind, f))
	}
	return p, nil
}
