package zkmc

import (
	"bytes"
	"fmt"
	"math/big"
	"runtime"

	zk "github.com/mit-dci/zksigma"
)

var secp = secpGroup{}

// complete reports whether every field of a decoded proof is there.
func complete(p Proof) bool {
	pt := func(q EC) bool { return q.X != nil && q.Y != nil }
	switch p.kind {
	case kGSPFS:
		return pt(p.g.Base) && pt(p.g.RandCommit) && p.g.HiddenValue != nil && p.g.Challenge != nil
	case kEquiv:
		return pt(p.e.UG) && pt(p.e.UH) && p.e.Challenge != nil && p.e.HiddenValue != nil
	case kDisj:
		return pt(p.d.T1) && pt(p.d.T2) && p.d.C != nil && p.d.C1 != nil && p.d.C2 != nil && p.d.S1 != nil && p.d.S2 != nil
	case kCons:
		return pt(p.c.T1) && pt(p.c.T2) && p.c.Challenge != nil && p.c.S1 != nil && p.c.S2 != nil
	case kABC:
		return pt(p.a.B) && pt(p.a.C) && pt(p.a.T1) && pt(p.a.T2) && pt(p.a.CToken) && p.a.Challenge != nil
	case kIneq:
		a := (*zk.ABCProof)(p.i)
		return complete(Proof{kind: kABC, a: a})
	}
	if !pt(p.r.ProofAggregate) || p.r.ProofE == nil {
		return false
	}
	for _, t := range p.r.ProofTuples {
		if !pt(t.C) || t.S == nil {
			return false
		}
	}
	return true
}

// hostileCtx is a proof whose bytes are altered, and where it is verified.
type hostileCtx struct {
	kind  int
	g     Group
	cp    CP
	v     []EC
	bytes []byte
	f     Fields
}

// inField reports whether all points have coordinates below the field prime.
func inField(cp CP, f Fields) bool {
	P := cp.C.Params().P
	for _, p := range f.P {
		if p.X.Cmp(P) >= 0 || p.Y.Cmp(P) >= 0 {
			return false
		}
	}
	return true
}

// hostile decodes one byte string and checks what comes out.
func hostile(c *Ctx, h *hostileCtx, b []byte, doVerify bool, what func() string) {
	in := append(make([]byte, 0, len(b)), b...)
	c.Guard("decoder", func() {
		p, err := fromBytes(h.kind, in)
		ref, _, rerr := refDecode(h.kind, b)
		if err != nil {
			c.Outcome("refused")
			if rerr == nil && sane(ref) && bytes.Equal(refEncode(h.kind, ref), b) {
				c.Fail("a well-formed encoding is refused: %v (%s) %x", err, what(), b)
			}
			if !p.isNil() {
				c.Fail("an error together with a proof (%s) %x", what(), b)
			}
			return
		}
		if p.isNil() || !complete(p) {
			c.Fail("no error, but a proof with missing fields (%s) %x", what(), b)
			return
		}
		if rerr != nil {
			c.Fail("malformed input is decoded without error (%s) %x", what(), b)
			return
		}
		got := fieldsOf(p)
		if g := got; !g.eq(ref) && (bytes.Equal(refEncode(h.kind, ref), b) || !g.eqAbs(ref)) {
			c.Fail("decoded to %s, the bytes say %s (%s) %x", g, ref, what(), b)
			return
		}
		c.Outcome("decoded")
		if !doVerify {
			return
		}
		ok, err := verify(p, h.cp, h.v)
		c.Add(0, 1, 1)
		if ok != (err == nil) {
			c.Fail("verdict (%v, %v) (%s)", ok, err, what())
			return
		}
		if !ok {
			c.Outcome("decoded, rejected")
		} else {
			c.Outcome("decoded, accepted")
			if !inField(h.cp, got) {
				c.Outcome("accepted with unreduced coordinates (not judged)")
				return
			}
			if !refVerify(h.g, h.cp, h.kind, h.v, got) {
				c.Fail("accepted, but it is no valid proof (%s) %x", what(), b)
			}
		}
	})
	c.Add(1, 1, 1)
}

// eqAbs compares up to the sign of scalars (sign bytes other than 0 and 1 have no documented meaning).
func (f Fields) eqAbs(g Fields) bool {
	if len(f.S) != len(g.S) {
		return false
	}
	a, b := f.clone(), g.clone()
	for i := range a.S {
		a.S[i].Abs(a.S[i])
		b.S[i].Abs(b.S[i])
	}
	return a.eq(b)
}

// sane: within all limits a decoder may reasonably set (a scalar of at most 33 bytes, a coordinate
// of at most 32, at most 64 entries).
func sane(f Fields) bool {
	for _, s := range f.S {
		if s.BitLen() > 256 {
			return false
		}
	}
	for _, p := range f.P {
		if p.X.BitLen() > 256 || p.Y.BitLen() > 256 {
			return false
		}
	}
	return len(f.P) <= 65
}

// lenFields lists the offsets of the length prefixes in the documented encoding.
func lenFields(kind int, b []byte) []int {
	var offs []int
	pos := 0
	skip := func() {
		offs = append(offs, pos)
		pos += 1 + int(b[pos])
	}
	walk := func(lay string) {
		for _, ch := range lay {
			skip()
			if ch == 'P' {
				skip()
			}
		}
	}
	switch kind {
	case kRange:
		walk("PS")
		offs = append(offs, pos)
		n := int(b[pos])
		pos++
		for i := 0; i < n; i++ {
			walk("PS")
		}
	case kABC, kIneq:
		walk(layout[kABC])
		offs = append(offs, pos)
		n := 1
		if b[pos] == 0xfd {
			n = 3
		}
		pos += n
		walk(layout[kDisj])
	default:
		walk(layout[kind])
	}
	return offs
}

func hostileSecp(kind int, entries int) *hostileCtx {
	h := &hostileCtx{kind: kind, g: secp}
	if kind == kRange {
		h.cp = zk.TestCurve
		digits := make([]int, entries)
		pos := make([]int, entries)
		for i := range digits {
			digits[i], pos[i] = i%2, i
		}
		f, _, _ := refRange(h.g, h.cp, digits, pos, newStream("c11"))
		h.f, h.v = f, []EC{f.P[0]}
	} else {
		s := realStmt(kind, 0, zk.TestCurve, big.NewInt(7), big.NewInt(1), big.NewInt(5), zk.Left)
		h.cp = s.cp
		h.f = refProve(h.g, s, newStream("c11"))
		h.v = s.vpts(func(a, b EC) EC { return secp.Add(a, secp.Neg(b)) })
	}
	h.bytes = refEncode(kind, h.f)
	return h
}

func hostileZn(kind int, entries int) *hostileCtx {
	z := newZn(znN)
	h := &hostileCtx{kind: kind, g: znGroup{z}}
	if kind == kRange {
		h.cp = z.CP(9, 64)
		digits := make([]int, entries)
		pos := make([]int, entries)
		for i := range digits {
			digits[i], pos[i] = i%2, i
		}
		f, _, _ := refRange(h.g, h.cp, digits, pos, newStream("c11z"))
		h.f, h.v = f, []EC{f.P[0]}
	} else {
		s := znStmt(z, kind, 9, big.NewInt(7), big.NewInt(1), big.NewInt(5), zk.Left)
		h.cp = s.cp
		h.f = refProve(h.g, s, newStream("c11z"))
		h.v = s.vpts(func(a, b EC) EC { return h.g.Add(a, h.g.Neg(b)) })
	}
	h.bytes = refEncode(kind, h.f)
	return h
}

func cat(bs ...[]byte) []byte {
	var r []byte
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

func mustBuild(h *hostileCtx) Proof {
	p, err := build(h.kind, h.f)
	if err != nil {
		panic(err)
	}
	return p
}

// c11Mutate enumerates the altered encodings of one proof.
func c11Mutate(c *Ctx, name string, h *hostileCtx, doVerify bool) {
	b := h.bytes
	if !c.Case("%s: the proof itself, and with bytes behind it", name) {
	} else {
		hostile(c, h, b, true, func() string { return "unaltered" })
		verdict(c, mustBuild(h), h.cp, h.v, true, func() string { return "the unaltered proof" })
		hostile(c, h, cat(b, []byte{0}), true, func() string { return "a byte behind the proof" })
	}
	for n := 0; n < len(b); n++ {
		if !c.Case("%s truncated to %d of %d bytes", name, n, len(b)) {
			continue
		}
		hostile(c, h, b[:n], false, func() string { return fmt.Sprintf("truncated to %d", n) })
		c.Guard("decoder", func() {
			if _, err := fromBytes(h.kind, b[:n:n]); err == nil {
				c.Fail("input truncated to %d of %d bytes gives no error", n, len(b))
			}
		})
		if c.Stop() {
			return
		}
	}
	for i := range b {
		if !c.Case("%s: byte %d takes all values; deleted; doubled; inserted before", name, i) {
			continue
		}
		m := append([]byte{}, b...)
		for v := 0; v < 256; v++ {
			m[i] = byte(v)
			dv := doVerify || byte(v)^b[i] == 1 || v == 0 || v == 0xff || byte(v) == b[i]
			hostile(c, h, m, dv, func() string { return fmt.Sprintf("byte %d set to %02x", i, v) })
			if c.Failed() || c.Tick() {
				return
			}
		}
		hostile(c, h, cat(b[:i], b[i+1:]), doVerify, func() string { return fmt.Sprintf("byte %d deleted", i) })
		for _, v := range []byte{0, 1, 0x20, 0x21, 0x7f, 0x80, 0xfc, 0xfd, 0xfe, 0xff} {
			hostile(c, h, cat(b[:i], []byte{v}, b[i:]), doVerify, func() string { return fmt.Sprintf("%02x inserted before byte %d", v, i) })
		}
		if c.Stop() {
			return
		}
	}
	// length fields
	offs := lenFields(h.kind, b)
	var lens [][]byte
	for v := 0; v < 0xfd; v++ {
		lens = append(lens, []byte{byte(v)})
	}
	for _, v := range []uint64{0, 1, 32, 33, 252, 253, 254, 255, 256, 1023, 1024, 1025, 65535, 65536, 100000, 1 << 20, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 32, 1 << 40, 1<<63 - 1, 1 << 63, 1<<64 - 1} {
		for n := 2; n <= 8; n *= 2 {
			if n < 8 && v>>(8*uint(n)) != 0 {
				continue
			}
			e := []byte{map[int]byte{2: 0xfd, 4: 0xfe, 8: 0xff}[n]}
			for k := 0; k < n; k++ {
				e = append(e, byte(v>>(8*uint(k))))
			}
			lens = append(lens, e)
		}
	}
	for oi, off := range offs {
		if oi >= 24 && !c.Thorough {
			break
		}
		if !c.Case("%s: length field at byte %d takes every short and every boundary value, in all encodings", name, off) {
			continue
		}
		w := 1
		if b[off] == 0xfd {
			w = 3
		}
		for li, e := range lens {
			m := cat(b[:off], e, b[off+w:])
			hostile(c, h, m, li < 40, func() string { return fmt.Sprintf("length at %d set to %x", off, e) })
			c11Alloc(c, h, m, fmt.Sprintf("length at %d set to %x", off, e))
			if c.Failed() || c.Tick() {
				return
			}
		}
		if c.Stop() {
			return
		}
	}
	// one item replaced by another item, and swaps of items
	items := make([][2]int, 0, len(offs))
	for i, off := range offs {
		end := len(b)
		if i+1 < len(offs) {
			end = offs[i+1]
		}
		items = append(items, [2]int{off, end})
	}
	for i := range items {
		if i >= 24 && !c.Thorough {
			break
		}
		if !c.Case("%s: item %d dropped, repeated, swapped with and replaced by every other", name, i) {
			continue
		}
		it := func(k int) []byte { return b[items[k][0]:items[k][1]] }
		hostile(c, h, cat(b[:items[i][0]], b[items[i][1]:]), true, func() string { return fmt.Sprintf("item %d dropped", i) })
		hostile(c, h, cat(b[:items[i][1]], it(i), b[items[i][1]:]), true, func() string { return fmt.Sprintf("item %d repeated", i) })
		for j := range items {
			if j >= 24 && !c.Thorough {
				break
			}
			if i == j {
				continue
			}
			hostile(c, h, cat(b[:items[i][0]], it(j), b[items[i][1]:]), true, func() string { return fmt.Sprintf("item %d replaced by item %d", i, j) })
			if i < j {
				hostile(c, h, cat(b[:items[i][0]], it(j), b[items[i][1]:items[j][0]], it(i), b[items[j][1]:]), true, func() string { return fmt.Sprintf("items %d and %d swapped", i, j) })
			}
			if c.Failed() || c.Tick() {
				return
			}
		}
		if c.Stop() {
			return
		}
	}
}

// c11Alloc bounds what a decoder allocates by the size of its input.
func c11Alloc(c *Ctx, h *hostileCtx, b []byte, what string) {
	measure := func() uint64 {
		var m1, m2 runtime.MemStats
		runtime.ReadMemStats(&m1)
		func() {
			defer func() { recover() }()
			fromBytes(h.kind, b)
		}()
		runtime.ReadMemStats(&m2)
		return m2.TotalAlloc - m1.TotalAlloc
	}
	limit := uint64(1<<20) + 200*uint64(len(b))
	if a := measure(); a > limit {
		// something else may have allocated meanwhile
		for i := 0; i < 3; i++ {
			if x := measure(); x < a {
				a = x
			}
		}
		if a > limit {
			c.Fail("decoding %d bytes allocates %d bytes (%s)", len(b), a, what)
		}
	}
}

// c11Short: all byte strings up to a length, and longer ones over an alphabet of length bytes.
func c11Short(c *Ctx, kind int) {
	h := hostileZn(kind, 2)
	for i := 0; i < 256; i++ {
		if !c.Case("%s: all strings of at most 2 bytes starting with %02x", kindName[kind], i) {
			continue
		}
		if i == 0 {
			hostile(c, h, nil, true, func() string { return "empty input" })
		}
		hostile(c, h, []byte{byte(i)}, true, func() string { return "1 byte" })
		for j := 0; j < 256; j++ {
			hostile(c, h, []byte{byte(i), byte(j)}, true, func() string { return "2 bytes" })
		}
		if c.Stop() {
			return
		}
	}
	// structured strings: every sequence of tokens
	tokens := [][]byte{{0}, {1, 0}, {1, 1}, {1, 5}, {2, 0, 9}, {2, 1, 9}, {0x21}, {0xfd, 0, 1}, {0xff}, {3}}
	depth := 6
	if c.Thorough {
		depth = 7
	}
	tuple(len(tokens), depth, func(x []int) bool {
		if !c.Case("%s: token string %v and its prefixes", kindName[kind], x) {
			return !c.stopped
		}
		var b []byte
		for _, t := range x {
			b = append(b, tokens[t]...)
		}
		hostile(c, h, b, true, func() string { return fmt.Sprintf("tokens %v", x) })
		// padded so that longer layouts can be completed as well
		pad := append(append([]byte{}, b...), 0, 0, 1, 0, 1, 0, 1, 0, 1, 0, 1, 0, 0, 0, 0, 0, 1, 0, 1, 0)
		hostile(c, h, pad, true, func() string { return fmt.Sprintf("tokens %v with zeros", x) })
		return !c.Stop() && !c.Failed()
	})
}

func init() {
	ck := &Check{ID: "C11", Level: "model_checking",
		Rule:        "state = one byte string fed to one decoder (and, if it decodes, to the verifier); the result must be the reference decoder's, acceptance must mean a valid proof, allocation stays below 1 MB + 200 bytes per input byte",
		Assumptions: []string{"scalars above 256 bits and more than 64 entries may be refused or decoded", "acceptance of points with coordinates at or above the field prime is not judged"}}
	add := func(name, tier, bound string, run func(*Ctx)) {
		ck.Units = append(ck.Units, Unit{Name: name, Tier: tier, Bound: bound, Run: run})
	}
	for k := kGSPFS; k <= kRange; k++ {
		k := k
		if k != kIneq {
			add("short-"+kindName[k], "", "all strings of at most 2 bytes, all strings of 6 (thorough 7) length-field tokens with and without zeros behind", func(c *Ctx) { c11Short(c, k) })
		}
		add("model-group-"+kindName[k], "", "an encoded proof on the model group: every truncation, every byte takes all 256 values, is deleted, and has 10 bytes inserted before it, every length field takes 277 encodings, every item is dropped, repeated, swapped and replaced; all verified", func(c *Ctx) {
			c11Mutate(c, "model group "+kindName[k], hostileZn(k, 4), true)
		})
		add("secp-"+kindName[k], "", "the same on secp256k1 (verified for four values of each byte)", func(c *Ctx) {
			c11Mutate(c, "secp256k1 "+kindName[k], hostileSecp(k, 3), c.Thorough)
		})
	}
	add("model-group-range-40", "", "the same for a range proof with 40 entries", func(c *Ctx) {
		c11Mutate(c, "model group, 40 entries", hostileZn(kRange, 40), c.Thorough)
	})
	add("secp-range-40", "thorough", "the same on secp256k1 with 40 entries", func(c *Ctx) {
		c11Mutate(c, "secp256k1, 40 entries", hostileSecp(kRange, 40), false)
	})
	for _, u := range []struct {
		name string
		f    func(*Ctx)
	}{
		{"gspfs", func(c *Ctx) { planeGSPFS(c, 3, true) }},
		{"equivalence", func(c *Ctx) { planeEquiv(c, 3, true) }},
		{"consistency", func(c *Ctx) { planeCons(c, 3, true) }},
		{"disjunctive", func(c *Ctx) { planeDisj(c, 3, true) }},
		{"abc", func(c *Ctx) { planeABC(c, 3, true) }},
		{"range", func(c *Ctx) { planeRange(c, 3, 2, true) }},
	} {
		add("off-curve-"+u.name, "", "proofs with right challenges and points off the curve, on a curve of order 3 that panics on such points as crypto/elliptic's do", u.f)
	}
	register(ck)
}
