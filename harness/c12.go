package zkmc

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/big"

	zk "github.com/mit-dci/zksigma"
	"github.com/mit-dci/zksigma/wire"
)

// seqReader delivers data in chunks and fails at offset at (-1: plain EOF at the end).
type seqReader struct {
	data  []byte
	off   int
	chunk int
	at    int
	err   error
	late  bool // error together with the bytes before it
	asked int  // most bytes asked for in one read
	hook  func()
}

func (r *seqReader) Read(b []byte) (int, error) {
	if r.hook != nil {
		h := r.hook
		r.hook = nil
		h()
		r.hook = h
	}
	if len(b) == 0 {
		return 0, nil
	}
	if len(b) > r.asked {
		r.asked = len(b)
	}
	n := len(b)
	if r.chunk > 0 && n > r.chunk {
		n = r.chunk
	}
	if r.at >= 0 && r.off+n > r.at {
		n = r.at - r.off
		if n == 0 {
			return 0, r.err
		}
		copy(b[:n], r.data[r.off:])
		r.off += n
		if r.late {
			return n, r.err
		}
		return n, nil
	}
	if r.off >= len(r.data) {
		return 0, io.EOF
	}
	n = copy(b[:n], r.data[r.off:])
	r.off += n
	return n, nil
}

// seqWriter takes at most at bytes, then fails.
type seqWriter struct {
	data []byte
	at   int
	err  error
	hits int
	hook func()
}

func (w *seqWriter) Write(b []byte) (int, error) {
	if w.hook != nil {
		h := w.hook
		w.hook = nil
		h()
		w.hook = h
	}
	if w.at >= 0 && len(w.data)+len(b) > w.at {
		n := w.at - len(w.data)
		if n < 0 {
			n = 0
		}
		w.data = append(w.data, b[:n]...)
		w.hits++
		return n, w.err
	}
	w.data = append(w.data, b...)
	return len(b), nil
}

var errIO = errors.New("injected stream fault")

// codecValue checks everything about one value.
func codecValue(c *Ctx, v uint64, deep bool) {
	want := refVarInt(v)
	var w seqWriter
	w.at = -1
	if err := wire.WriteVarInt(&w, v); err != nil || !bytes.Equal(w.data, want) {
		c.Fail("WriteVarInt(%#x) wrote %x (%v), shortest encoding is %x", v, w.data, err, want)
		return
	}
	if n := wire.VarIntSerializeSize(v); n != len(want) {
		c.Fail("VarIntSerializeSize(%#x) = %d, encoded in %d bytes", v, n, len(want))
		return
	}
	r := &seqReader{data: append(append([]byte{}, want...), 0xaa, 0xfd), at: -1}
	if got, err := wire.ReadVarInt(r); err != nil || got != v || r.off != len(want) {
		c.Fail("ReadVarInt(%x) = %#x, %v, having consumed %d bytes", want, got, err, r.off)
		return
	}
	c.Add(1, 3, 3)
	if !deep {
		return
	}
	for at := 0; at < len(want); at++ {
		for _, e := range []error{errIO, io.EOF, io.ErrUnexpectedEOF, io.ErrNoProgress} {
			for _, late := range []bool{false, true} {
				r := &seqReader{data: want, at: at, err: e, late: late}
				if got, err := wire.ReadVarInt(r); err == nil || got != 0 {
					c.Fail("ReadVarInt(%x) with %v at byte %d = %#x, %v", want, e, at, got, err)
					return
				}
			}
		}
		w := &seqWriter{at: at, err: errIO}
		if err := wire.WriteVarInt(w, v); err == nil {
			c.Fail("WriteVarInt(%#x) reports success although writing failed at byte %d", v, at)
			return
		}
		if !bytes.HasPrefix(want, w.data) {
			c.Fail("WriteVarInt(%#x) failing at byte %d wrote %x", v, at, w.data)
			return
		}
		c.Add(1, 9, 9)
		c.Outcome("stream fault: error")
	}
	for chunk := 1; chunk <= 4; chunk++ {
		r := &seqReader{data: want, at: -1, chunk: chunk}
		if got, err := wire.ReadVarInt(r); err != nil || got != v || r.off != len(want) {
			c.Fail("ReadVarInt(%x) in reads of %d bytes = %#x, %v", want, chunk, got, err)
			return
		}
		c.Add(1, 1, 1)
	}
}

func c12Values(c *Ctx) {
	for blk := uint64(0); blk < 70; blk++ {
		if !c.Case("values %d to %d", blk*1000, blk*1000+999) {
			continue
		}
		for v := blk * 1000; v < blk*1000+1000; v++ {
			c.Guard("codec", func() { codecValue(c, v, v < 300 || v%97 == 0 || v > 65500 && v < 65600) })
			if c.Failed() {
				return
			}
		}
		c.OutcomeN("value", 1000)
		if c.Stop() {
			return
		}
	}
	for k := uint(0); k < 64; k++ {
		if !c.Case("values around 2^%d", k) {
			continue
		}
		for d := uint64(0); d < 300; d++ {
			c.Guard("codec", func() {
				codecValue(c, 1<<k+d, d < 4)
				codecValue(c, 1<<k-1-d, d < 4)
				codecValue(c, ^(1<<k + d), d < 4)
				codecValue(c, (1<<k)*(d|1), d < 4)
			})
			if c.Failed() {
				return
			}
		}
		c.OutcomeN("value", 1200)
		if c.Stop() {
			return
		}
	}
}

// codecBytes compares the reader with the reference on any bytes.
func codecBytes(c *Ctx, b []byte) {
	r := &seqReader{data: b, at: -1}
	got, err := wire.ReadVarInt(r)
	ref := &refReader{b: b}
	want := ref.varInt()
	if ref.bad {
		if err == nil || got != 0 {
			c.Fail("ReadVarInt(%x) = %#x, %v: not a canonical encoding", b, got, err)
		}
		c.Outcome("not canonical: error")
	} else {
		if err != nil || got != want || r.off != len(b)-len(ref.b) {
			c.Fail("ReadVarInt(%x) = %#x, %v (consumed %d), want %#x", b, got, err, r.off, want)
		}
		c.Outcome("read")
	}
	c.Add(1, 1, 1)
}

func c12Bytes(c *Ctx) {
	for i := 0; i < 256; i++ {
		if !c.Case("all encodings %02x xx (xx) and boundary bytes behind", i) {
			continue
		}
		c.Guard("ReadVarInt", func() {
			codecBytes(c, []byte{byte(i)})
			for j := 0; j < 256; j++ {
				codecBytes(c, []byte{byte(i), byte(j)})
				if i >= 0xfc || j == 0 {
					for k := 0; k < 256; k++ {
						codecBytes(c, []byte{byte(i), byte(j), byte(k)})
						codecBytes(c, []byte{byte(i), byte(j), byte(k), 0, 0})
						codecBytes(c, []byte{byte(i), byte(j), byte(k), 1, 0, 0, 0, 0, 0})
					}
				}
			}
		})
		if c.Failed() || c.Stop() {
			return
		}
	}
	alpha := []byte{0, 1, 0x7f, 0x80, 0xfd, 0xff}
	tuple(len(alpha), 4, func(x []int) bool {
		if !c.Case("fe and ff encodings over the bytes %x starting with %v", alpha, x) {
			return !c.stopped
		}
		b := make([]byte, 9)
		c.Guard("ReadVarInt", func() {
			for i := range x {
				b[1+i] = alpha[x[i]]
			}
			b[0] = 0xfe
			codecBytes(c, b[:5])
			codecBytes(c, b)
			b[0] = 0xff
			tuple(len(alpha), 4, func(y []int) bool {
				for i := range y {
					b[5+i] = alpha[y[i]]
				}
				codecBytes(c, b)
				return !c.Failed()
			})
		})
		return !c.Stop() && !c.Failed()
	})
}

// c12VarBytes: byte strings of every length under every limit, with faults.
func c12VarBytes(c *Ctx) {
	lens := []int{}
	for i := 0; i <= 300; i++ {
		lens = append(lens, i)
	}
	lens = append(lens, 1000, 1023, 1024, 1025, 65534, 65535, 65536, 65537, 100000)
	for _, n := range lens {
		if !c.Case("byte string of %d bytes: all limits around it, faults at every byte", n) {
			continue
		}
		data := make([]byte, n)
		for i := range data {
			data[i] = byte(i*7 + n + i>>8)
		}
		keep := append([]byte{}, data...)
		enc := refVarBytes(data)
		pre := len(enc) - n
		c.Guard("byte string codec", func() {
			w := &seqWriter{at: -1}
			if err := wire.WriteVarBytes(w, data); err != nil || !bytes.Equal(w.data, enc) {
				c.Fail("WriteVarBytes of %d bytes wrote %s (%v)", n, clip(fmt.Sprintf("%x", w.data), 100), err)
				return
			}
			limits := []uint32{0, 1, 32, 252, 253, 1024, 65535, 65536, 1<<32 - 1}
			for d := -2; d <= 2; d++ {
				if n+d >= 0 {
					limits = append(limits, uint32(n+d))
				}
			}
			for _, lim := range limits {
				for _, chunk := range []int{0, 1, 5, 300} {
					if n > 2000 && chunk == 1 {
						continue
					}
					r := &seqReader{data: append(append([]byte{}, enc...), 9, 9, 9), at: -1, chunk: chunk}
					got, err := wire.ReadVarBytes(r, lim, "field")
					c.Add(1, 1, 1)
					if uint64(n) > uint64(lim) {
						if err == nil || got != nil {
							c.Fail("ReadVarBytes of %d bytes with limit %d: %d bytes, %v", n, lim, len(got), err)
							return
						}
						if r.off != pre {
							c.Fail("ReadVarBytes of %d bytes with limit %d consumed %d bytes behind the length", n, lim, r.off-pre)
							return
						}
						c.Outcome("above limit: error")
						continue
					}
					if err != nil || !bytes.Equal(got, data) || r.off != len(enc) {
						c.Fail("ReadVarBytes of %d bytes with limit %d: %d bytes, %v, consumed %d of %d", n, lim, len(got), err, r.off, len(enc))
						return
					}
					c.Outcome("read")
				}
			}
			for at := 0; at < len(enc); at++ {
				if n > 300 && at > pre+2 && at < len(enc)-3 && at%997 != 0 {
					continue
				}
				for _, e := range []error{errIO, io.EOF, io.ErrUnexpectedEOF} {
					for _, late := range []bool{false, true} {
						r := &seqReader{data: enc, at: at, err: e, late: late}
						got, err := wire.ReadVarBytes(r, 200000, "field")
						c.Add(1, 1, 1)
						if err == nil || got != nil {
							c.Fail("ReadVarBytes of %d bytes with %v at byte %d: %d bytes, error %v", n, e, at, len(got), err)
							return
						}
					}
				}
				w := &seqWriter{at: at, err: errIO}
				if err := wire.WriteVarBytes(w, data); err == nil || !bytes.Equal(w.data, enc[:len(w.data)]) {
					c.Fail("WriteVarBytes of %d bytes, write fails at byte %d: %v, wrote %x", n, at, err, clip(string(w.data), 60))
					return
				}
				c.Add(1, 1, 1)
				c.OutcomeN("stream fault: error", 7)
			}
			if !bytes.Equal(data, keep) {
				c.Fail("the byte string was modified")
			}
		})
		if c.Stop() {
			return
		}
	}
}

// c12Lengths: byte strings whose stated length is far above every limit, with data behind it.
func c12Lengths(c *Ctx) {
	var ns []uint64
	for b := uint(8); b < 64; b++ {
		for _, d := range []uint64{0, 1, 2, 3, 32, 255, 300} {
			ns = append(ns, 1<<b+d, 3<<(b-1)+d, -(uint64(1)<<b)+d, 1<<b-1-d)
		}
	}
	for _, n := range ns {
		if !c.Case("length %d with 600 bytes behind it", n) {
			continue
		}
		enc := refVarInt(n)
		data := append(append([]byte{}, enc...), bytes.Repeat([]byte{7}, 600)...)
		for _, lim := range []uint32{0, 1, 3, 32, 255, 256, 300, 1024, 65535, 65536, 65537, 100000} {
			r := &seqReader{data: data, at: -1}
			got, err := wire.ReadVarBytes(r, lim, "field")
			c.Add(1, 1, 1)
			if ok := n <= uint64(lim) && n <= 600; (err == nil) != ok || ok != (got != nil && uint64(len(got)) == n) {
				c.Fail("ReadVarBytes of a length of %d with limit %d and 600 bytes: %d bytes, %v", n, lim, len(got), err)
				break
			}
			if n > uint64(lim) && r.off != len(enc) {
				c.Fail("ReadVarBytes of a length of %d with limit %d consumed %d bytes behind the length", n, lim, r.off-len(enc))
				break
			}
		}
		c.Outcome("stated length far from the limit")
		if c.Stop() {
			return
		}
	}
}

// c12Items: points and integers on failing streams.
func c12Items(c *Ctx) {
	xs := []BI{big.NewInt(0), big.NewInt(1), big.NewInt(255), big.NewInt(256), pow2(128), new(big.Int).Sub(pow2(256), one)}
	for _, x := range xs {
		for _, y := range xs {
			if !c.Case("point (%s,%s) and integer on streams that fail at every byte", x.Text(16), y.Text(16)) {
				continue
			}
			p := EC{X: x, Y: y}
			enc := refPoint(p)
			neg := new(big.Int).Neg(x)
			enc2 := refScalar(neg)
			c.Guard("item codec", func() {
				for at := 0; at < len(enc); at++ {
					for _, e := range []error{errIO, io.EOF} {
						for _, late := range []bool{false, true} {
							if _, err := zk.ReadECPoint(&seqReader{data: enc, at: at, err: e, late: late}); err == nil {
								c.Fail("ReadECPoint reports success although reading failed with %v at byte %d of %x", e, at, enc)
								return
							}
						}
					}
					w := &seqWriter{at: at, err: errIO}
					if err := zk.WriteECPoint(w, p); err == nil {
						c.Fail("WriteECPoint reports success although writing failed at byte %d of %x", at, enc)
						return
					}
					c.Add(1, 5, 5)
				}
				for at := 0; at < len(enc2); at++ {
					for _, e := range []error{errIO, io.EOF} {
						for _, late := range []bool{false, true} {
							if v, err := zk.ReadBigInt(&seqReader{data: enc2, at: at, err: e, late: late}); err == nil || v != nil {
								c.Fail("ReadBigInt gives %v, %v although reading failed with %v at byte %d of %x", v, err, e, at, enc2)
								return
							}
						}
					}
					w := &seqWriter{at: at, err: errIO}
					if err := zk.WriteBigInt(w, neg); err == nil {
						c.Fail("WriteBigInt reports success although writing failed at byte %d of %x", at, enc2)
						return
					}
					c.Add(1, 5, 5)
				}
				for chunk := 1; chunk < 5; chunk++ {
					q, err := zk.ReadECPoint(&seqReader{data: enc, at: -1, chunk: chunk})
					if err != nil || !sameEC(p, q) {
						c.Fail("ReadECPoint in reads of %d bytes: %v", chunk, err)
					}
					v, err := zk.ReadBigInt(&seqReader{data: enc2, at: -1, chunk: chunk})
					if err != nil || v.Cmp(neg) != 0 {
						c.Fail("ReadBigInt in reads of %d bytes: %v %v", chunk, v, err)
					}
					c.Add(1, 2, 2)
				}
			})
			c.Outcome("items")
			if c.Stop() {
				return
			}
		}
	}
}

// codecOps are codec calls with their expected results; nested is called in the middle of the
// operation, when the stream is being read or written.
type codecOp struct {
	name string
	run  func(nested func()) string // "" if right
}

func codecOps() []codecOp {
	var ops []codecOp
	for _, v := range []uint64{5, 0xfd, 0x12345, 0x1122334455667788} {
		v := v
		enc := refVarInt(v)
		for at := -1; at < len(enc); at++ {
			at := at
			if at > 0 && at != len(enc)-1 {
				continue
			}
			ops = append(ops, codecOp{fmt.Sprintf("write %#x failing at %d", v, at), func(nested func()) string {
				w := &seqWriter{at: at, err: errIO, hook: nested}
				err := wire.WriteVarInt(w, v)
				if (err == nil) != (at < 0) || !bytes.Equal(w.data, enc[:len(w.data)]) || at < 0 && len(w.data) != len(enc) {
					return fmt.Sprintf("wrote %x, error %v", w.data, err)
				}
				return ""
			}})
			ops = append(ops, codecOp{fmt.Sprintf("read %#x failing at %d", v, at), func(nested func()) string {
				r := &seqReader{data: enc, at: at, err: errIO, hook: nested, chunk: 1}
				got, err := wire.ReadVarInt(r)
				if (err == nil) != (at < 0) || at < 0 && got != v || at >= 0 && got != 0 {
					return fmt.Sprintf("read %#x, error %v", got, err)
				}
				return ""
			}})
		}
	}
	data := []byte{1, 2, 3, 4, 5, 6, 7, 8, 9}
	ops = append(ops, codecOp{"byte string", func(nested func()) string {
		w := &seqWriter{at: -1, hook: nested}
		err := wire.WriteVarBytes(w, data)
		r := &seqReader{data: w.data, at: -1, chunk: 2, hook: nested}
		got, err2 := wire.ReadVarBytes(r, 9, "f")
		if err != nil || err2 != nil || !bytes.Equal(got, data) {
			return fmt.Sprintf("%v %v %x", err, err2, got)
		}
		return ""
	}}, codecOp{"random number", func(nested func()) string {
		a, e1 := wire.RandomUint64()
		b, e2 := wire.RandomUint64()
		if e1 != nil || e2 != nil || a == b {
			return fmt.Sprintf("%v %v %v %v", a, b, e1, e2)
		}
		return ""
	}})
	return ops
}

// c12Histories: all sequences of codec calls, each in addition interrupted by another one.
func c12Histories(c *Ctx) {
	ops := codecOps()
	depth := 4
	if c.Thorough {
		depth = 5
	}
	tuple(len(ops), depth, func(x []int) bool {
		if !c.Case("history %v", x) {
			return !c.stopped
		}
		c.Guard("codec", func() {
			for i, k := range x {
				if m := ops[k].run(nil); m != "" {
					c.Fail("step %d of history %v (%s): %s", i, x, ops[k].name, m)
					return
				}
			}
		})
		c.Add(1, int64(depth), int64(depth))
		return !c.Stop() && !c.Failed()
	})
	c.Outcome("histories")
	tuple(len(ops), 2, func(x []int) bool {
		if !c.Case("%s interrupted at every stream access by %s", ops[x[0]].name, ops[x[1]].name) {
			return !c.stopped
		}
		c.Guard("codec", func() {
			inner := ""
			m := ops[x[0]].run(func() {
				for i := 0; i < 2; i++ {
					if e := ops[x[1]].run(nil); e != "" {
						inner = e
					}
				}
			})
			if m != "" || inner != "" {
				c.Fail("%s interrupted by %s: %s %s", ops[x[0]].name, ops[x[1]].name, m, inner)
			}
		})
		c.Add(1, 2, 2)
		c.Outcome("interrupted")
		return !c.Stop() && !c.Failed()
	})
}

// c12All32: every value of up to 32 bits, in every encoding it could have.
func c12All32(c *Ctx, bits uint) {
	for blk := uint64(0); blk < 1<<bits>>14; blk++ {
		if !c.Case("all values with the upper bits %#x, written and read back, and all their longer encodings", blk) {
			continue
		}
		w := &seqWriter{at: -1}
		r := &seqReader{at: -1}
		long := make([]byte, 9)
		c.Guard("codec", func() {
			for v := blk << 14; v < (blk+1)<<14; v++ {
				w.data = w.data[:0]
				want := 1
				if v >= 0x10000 {
					want = 5
				} else if v >= 0xfd {
					want = 3
				}
				err := wire.WriteVarInt(w, v)
				r.data, r.off = w.data, 0
				got, err2 := wire.ReadVarInt(r)
				if err != nil || err2 != nil || got != v || len(w.data) != want || r.off != want || wire.VarIntSerializeSize(v) != want {
					c.Fail("value %#x: wrote %x (%v), read %#x (%v)", v, w.data, err, got, err2)
					return
				}
				for n := 2; n <= 8; n *= 2 {
					if n+1 <= want || n == 2 && v > 0xffff {
						continue
					}
					long[0] = map[int]byte{2: 0xfd, 4: 0xfe, 8: 0xff}[n]
					for i := 0; i < n; i++ {
						long[1+i] = byte(v >> (8 * uint(i)))
					}
					r.data, r.off = long[:n+1], 0
					if got, err := wire.ReadVarInt(r); err == nil || got != 0 {
						c.Fail("non-canonical %x read as %#x, %v", long[:n+1], got, err)
						return
					}
				}
				c.tick++
			}
		})
		c.Add(1<<14, 4<<14, 4<<14)
		c.OutcomeN("value", 1<<14)
		c.Alive()
		if c.Failed() || c.Stop() {
			return
		}
	}
}

func init() {
	ck := &Check{ID: "C12", Level: "model_checking",
		Rule:        "state = one value, byte string or history of codec calls together with the stream's chunking and fault; every call's result and the bytes consumed or written are compared with an independent codec",
		Assumptions: []string{"writers keep io.Writer's contract: a short write comes with an error"}}
	add := func(name, tier, bound string, run func(*Ctx)) {
		ck.Units = append(ck.Units, Unit{Name: name, Tier: tier, Bound: bound, Run: run})
	}
	add("values", "", "0..69999, 300 values on either side of every power of two and of its complement, odd multiples; faults at every byte for the boundary ones", c12Values)
	add("all-22-bit", "", "every value below 2^22: written, read back, and refused in every longer encoding", func(c *Ctx) { c12All32(c, 22) })
	add("all-32-bit", "thorough", "every value below 2^32: written, read back, and refused in every longer encoding", func(c *Ctx) { c12All32(c, 32) })
	add("bytes", "", "all 1- and 2-byte inputs, all fc..ff inputs with 3 free bytes, fe and ff inputs over 6 byte values in every position", c12Bytes)
	add("byte-strings", "", "lengths 0..300 and around 1024, 65536, 100000; 14 limits; 4 chunkings; read and write faults at every byte (long strings: near the ends)", c12VarBytes)
	add("lengths", "", "stated lengths around all powers of two and their complements up to 2^64 with 600 bytes behind them, 12 limits", c12Lengths)
	add("items", "", "36 points and integers; read and write faults at every byte", c12Items)
	add("one-failing-call", "", "12 integers, 8 strings, 12 points, 8 scalars; every single call of the stream fails, the calls after it succeed; 3 partial writes, 3 chunkings, 3 errors", c12Glitch)
	add("histories", "", "all histories of 4 (thorough 5) of 24 codec calls, faulty ones included; every call interrupted by every other inside its stream accesses", c12Histories)
	register(ck)
}

// glitch is a stream on which the call number k fails, once; all other calls succeed.
type glitch struct {
	data  []byte
	off   int
	k, n  int
	part  int // bytes that the failing write takes all the same
	chunk int
	err   error
}

func (s *glitch) Write(b []byte) (int, error) {
	i := s.n
	s.n++
	if i == s.k {
		n := s.part
		if n >= len(b) {
			n = 0
		}
		s.data = append(s.data, b[:n]...)
		return n, s.err
	}
	s.data = append(s.data, b...)
	return len(b), nil
}

func (s *glitch) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	i := s.n
	s.n++
	if i == s.k {
		return 0, s.err
	}
	if s.off >= len(s.data) {
		return 0, io.EOF
	}
	n := len(b)
	if s.chunk > 0 && n > s.chunk {
		n = s.chunk
	}
	n = copy(b[:n], s.data[s.off:])
	s.off += n
	return n, nil
}

// c12Glitch: a single call of the stream fails and the calls after it would succeed; for every
// codec operation and every call it makes.
func c12Glitch(c *Ctx) {
	type gop struct {
		name  string
		write func(w io.Writer) error
		read  func(r io.Reader) error
		enc   []byte
	}
	var ops []gop
	vals := []uint64{0, 1, 0xfc, 0xfd, 0x1234, 0xffff, 0x10000, 0x12345678, 0xffffffff, 1 << 32, 0x1122334455667788, ^uint64(0)}
	for _, v := range vals {
		v := v
		ops = append(ops, gop{fmt.Sprintf("VarInt %#x", v), func(w io.Writer) error { return wire.WriteVarInt(w, v) },
			func(r io.Reader) error { _, err := wire.ReadVarInt(r); return err }, refVarInt(v)})
	}
	for _, n := range []int{0, 1, 2, 252, 253, 1000, 65535, 65536} {
		b := bytes.Repeat([]byte{0xa5}, n)
		ops = append(ops, gop{fmt.Sprintf("VarBytes of %d", n), func(w io.Writer) error { return wire.WriteVarBytes(w, b) },
			func(r io.Reader) error { _, err := wire.ReadVarBytes(r, 1<<20, "f"); return err }, refVarBytes(b)})
	}
	for _, x := range []BI{big.NewInt(0), big.NewInt(1), big.NewInt(256), new(big.Int).Sub(pow2(256), one)} {
		for _, y := range []BI{big.NewInt(0), big.NewInt(7), pow2(255)} {
			p := EC{X: x, Y: y}
			ops = append(ops, gop{fmt.Sprintf("point (%s,%s)", x.Text(16), y.Text(16)), func(w io.Writer) error { return zk.WriteECPoint(w, p) },
				func(r io.Reader) error { _, err := zk.ReadECPoint(r); return err }, refPoint(p)})
		}
		for _, v := range []BI{x, new(big.Int).Neg(x)} {
			v := v
			ops = append(ops, gop{"integer " + v.Text(16), func(w io.Writer) error { return zk.WriteBigInt(w, v) },
				func(r io.Reader) error { _, err := zk.ReadBigInt(r); return err }, refScalar(v)})
		}
	}
	for _, o := range ops {
		if !c.Case("%s: one call of the stream fails, at every call", o.name) {
			continue
		}
		c.Guard("codec", func() {
			s := &glitch{k: -1}
			if err := o.write(s); err != nil || !bytes.Equal(s.data, o.enc) {
				c.Fail("writing %s gives %s (%v)", o.name, clip(fmt.Sprintf("%x", s.data), 100), err)
				return
			}
			for k := 0; k < s.n; k++ {
				for part := 0; part < 3; part++ {
					for _, e := range []error{errIO, io.ErrShortWrite, io.EOF} {
						w := &glitch{k: k, err: e, part: part}
						if err := o.write(w); err == nil {
							c.Fail("writing %s reports success although write call %d failed with %v (written: %s)", o.name, k, e, clip(fmt.Sprintf("%x", w.data), 100))
							return
						}
						c.Add(1, 1, 1)
					}
				}
			}
			for _, chunk := range []int{0, 1, 3} {
				if len(o.enc) > 2000 && chunk > 0 {
					continue
				}
				s := &glitch{k: -1, data: o.enc, chunk: chunk}
				if err := o.read(s); err != nil {
					c.Fail("reading %s in chunks of %d: %v", o.name, chunk, err)
					return
				}
				for k := 0; k < s.n; k++ {
					for _, e := range []error{errIO, io.EOF, io.ErrUnexpectedEOF} {
						if err := o.read(&glitch{k: k, data: o.enc, chunk: chunk, err: e}); err == nil {
							c.Fail("reading %s in chunks of %d reports success although read call %d failed with %v", o.name, chunk, k, e)
							return
						}
						c.Add(1, 1, 1)
					}
				}
			}
			c.Outcome("one failing call: error")
		})
		if c.Stop() || c.Failed() {
			return
		}
	}
}
