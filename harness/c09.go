package zkmc

import (
	"errors"
	"fmt"
	"io"
	"math/big"
	"runtime"
	"time"

	zk "github.com/mit-dci/zksigma"
	"github.com/mit-dci/zksigma/btcec"
	"github.com/mit-dci/zksigma/wire"
)

// chunkReader is the random source under fault injection. It hands out at most chunk bytes per
// read (0: as many as asked for), fails at byte number at (-1: never), once, twice or for ever,
// and can deliver empty reads in between. Reads of a single byte are neither counted nor failed
// if skip1 is set (crypto/ecdsa reads such a byte at random and ignores what comes back).
type chunkReader struct {
	src    *stream
	chunk  int
	at     int // byte offset of the fault
	count  int // how many times it fails (-1: for ever)
	err    error
	late   bool // deliver the bytes before the fault together with the error
	empty  bool // every other read returns (0, nil)
	skip1  bool
	off    int
	hits   int
	reads  int
	starts []int // offsets at which reads began
}

func (r *chunkReader) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if r.skip1 && len(b) == 1 && r.chunk == 0 {
		return r.src.Read(b)
	}
	r.reads++
	if r.empty && r.reads%2 == 1 {
		return 0, nil
	}
	r.starts = append(r.starts, r.off)
	n := len(b)
	if r.chunk > 0 && n > r.chunk {
		n = r.chunk
	}
	if r.at >= 0 && r.off+n > r.at && (r.count < 0 || r.hits < r.count) {
		if r.at > r.off && !r.late {
			n = r.at - r.off // a short read first, the error at the next one
		} else {
			r.hits++
			k := r.at - r.off
			if k < 0 {
				k = 0
			}
			r.src.Read(b[:k])
			r.off += k
			return k, r.err
		}
	}
	r.src.Read(b[:n])
	r.off += n
	return n, nil
}

// randOp is one randomized operation; run returns whether it handed out something usable, and
// its error. usable is called only after an error.
type randOp struct {
	name  string
	skip1 bool
	run   func() (good func() bool, leak func() bool, err error)
}

func proofOp(name string, s Stmt, g Group) randOp {
	return randOp{name: name, run: func() (func() bool, func() bool, error) {
		p, extra, err := prove(s)
		good := func() bool {
			if p.isNil() {
				return false
			}
			v := s.vpts(func(a, b EC) EC { return g.Add(a, g.Neg(b)) })
			if s.kind == kRange {
				if extra == nil {
					return false
				}
				v = []EC{g.Add(g.Mul(s.cp.G, s.wit[0]), g.Mul(s.cp.H, extra))}
			}
			ok, e := verify(p, s.cp, v)
			return ok && e == nil
		}
		leak := func() bool {
			if p.isNil() {
				return false
			}
			if s.kind == kRange {
				return true
			}
			// an empty shell is not a proof
			ok := false
			func() {
				defer func() { recover() }()
				ok = good()
			}()
			return ok
		}
		return good, leak, err
	}}
}

func commitOp(name string, cp CP, g Group, v BI) randOp {
	return randOp{name: name, run: func() (func() bool, func() bool, error) {
		p, r, err := zk.PedCommit(cp, v)
		good := func() bool {
			return r != nil && p.X != nil && sameEC(p, g.Add(g.Mul(cp.G, v), g.Mul(cp.H, r)))
		}
		return good, good, err
	}}
}

func btcecOps() []randOp {
	priv, _ := btcec.PrivKeyFromBytes(btcec.S256(), []byte{7, 1, 2})
	l := []randOp{{name: "NewPrivateKey", skip1: true, run: func() (func() bool, func() bool, error) {
		k, err := btcec.NewPrivateKey(btcec.S256())
		good := func() bool {
			return k != nil && k.D != nil && k.D.Sign() > 0 && k.D.Cmp(sN) < 0 && toAptMul(k.D).eq(k.X, k.Y)
		}
		return good, func() bool { return k != nil }, err
	}}, {name: "RandomUint64", run: func() (func() bool, func() bool, error) {
		v, err := wire.RandomUint64()
		return func() bool { return true }, func() bool { return v != 0 }, err
	}}}
	for _, n := range []int{0, 1, 15, 16, 33} {
		msg := make([]byte, n)
		for i := range msg {
			msg[i] = byte(i + n)
		}
		l = append(l, randOp{name: fmt.Sprintf("Encrypt %d bytes", n), skip1: true, run: func() (func() bool, func() bool, error) {
			ct, err := btcec.Encrypt(priv.PubKey(), msg)
			good := func() bool {
				pt, e := btcec.Decrypt(priv, ct)
				return e == nil && string(pt) == string(msg)
			}
			return good, func() bool { return ct != nil }, err
		}})
	}
	return l
}

func toAptMul(k BI) apt { return toApt(mk(k, new(big.Int)).P) }

// settled waits until no more goroutines run than before.
func settled(base int) bool {
	for i := 0; i < 4000; i++ {
		if runtime.NumGoroutine() <= base {
			return true
		}
		runtime.Gosched()
		if i > 50 {
			time.Sleep(5 * time.Millisecond)
		}
	}
	return false
}

// c09Op enumerates all faults of one operation.
func c09Op(c *Ctx, op randOp, step int) {
	// what the operation reads when nothing fails
	probe := func(chunk int) *chunkReader {
		r := &chunkReader{src: newStream("c09"), chunk: chunk, at: -1, skip1: op.skip1}
		withRand(r, func() {
			if good, _, err := op.run(); err != nil || !good() {
				c.Fail("%s with a healthy random source: err %v", op.name, err)
			}
		})
		return r
	}
	// short and empty reads are no faults
	for _, chunk := range []int{0, 1, 2, 3, 7, 31, 33} {
		for _, empty := range []bool{false, true} {
			if op.skip1 && chunk != 0 {
				continue
			}
			if !c.Case("%s, at most %d bytes per read (0: no limit), empty reads %v", op.name, chunk, empty) {
				continue
			}
			base := runtime.NumGoroutine()
			r := &chunkReader{src: newStream("c09s"), chunk: chunk, empty: empty, at: -1, skip1: op.skip1}
			c.Guard(op.name, func() {
				withRand(r, func() {
					good, _, err := op.run()
					if err != nil || !good() {
						c.Fail("%s with short reads (%d bytes, empty reads %v): err %v or an unusable result", op.name, chunk, empty, err)
					}
				})
			})
			if !settled(base) {
				c.Fail("%s leaves goroutines behind", op.name)
			}
			c.Add(1, 1, 1)
			c.Outcome("short reads: succeeded")
			if c.Stop() {
				return
			}
		}
	}
	var total int
	var starts map[int]bool
	if !c.Guard(op.name, func() {
		r := probe(0)
		total = r.off
		starts = map[int]bool{}
		for _, s := range r.starts {
			starts[s] = true
		}
	}) || c.Failed() {
		return
	}
	if total == 0 {
		c.Note("%s read nothing from the random source", op.name)
		return
	}
	errs := []error{errRand, io.EOF, io.ErrUnexpectedEOF, errors.New("")}
	for at := 0; at < total; at++ {
		if !starts[at] && at%step != 0 {
			continue
		}
		for ei, e := range errs {
			for _, count := range []int{-1, 1, 2} {
				for _, late := range []bool{false, true} {
					if late && starts[at] || ei > 1 && count != -1 {
						continue
					}
					if !c.Case("%s: random source fails at byte %d of %d (%v, %d times, with the bytes before it: %v), then recovers", op.name, at, total, e, count, late) {
						continue
					}
					base := runtime.NumGoroutine()
					r := &chunkReader{src: newStream("c09"), at: at, count: count, err: e, late: late, skip1: op.skip1}
					c.Guard(op.name, func() {
						withRand(r, func() {
							good, leak, err := op.run()
							if !settled(base) {
								c.Fail("%s leaves goroutines behind after a fault at byte %d", op.name, at)
								return
							}
							if r.hits == 0 {
								if err != nil || !good() {
									c.Fail("%s failed although no fault was reached: %v", op.name, err)
								}
								c.Outcome("fault not reached: succeeded")
								return
							}
							if err == nil {
								c.Fail("%s reports success although the random source failed at byte %d (%v, %d times)", op.name, at, e, count)
								return
							}
							if leak() {
								c.Fail("%s hands out a result together with the error %v (fault at byte %d)", op.name, err, at)
								return
							}
							c.Outcome("fault: error")
						})
						if c.Failed() {
							return
						}
						// recovered
						withRand(newStream(fmt.Sprint("c09r", at)), func() {
							good, _, err := op.run()
							if err != nil || !good() {
								c.Fail("%s does not work again after a fault at byte %d: %v", op.name, at, err)
							}
						})
						c.Add(1, 2, 2)
					})
					if c.Stop() {
						return
					}
				}
			}
		}
	}
}

func init() {
	ck := &Check{ID: "C09", Level: "fault_enumeration",
		Rule:        "evaluation = one (operation, byte at which the random source fails, kind and duration of the fault); distinct_nontrivial counts the faults the operation reached",
		Assumptions: []string{"KeyGen is left out: it has no error result and panics by design", "crypto/ecdsa's own one-byte read, whose result it ignores, is not failed", "reads that deliver all bytes together with an error count as successful, as io.ReadFull has it"}}
	add := func(name, tier, bound string, run func(*Ctx)) {
		ck.Units = append(ck.Units, Unit{Name: name, Tier: tier, Bound: bound, Run: run})
	}
	five := hexInt("123456789abcdef05")
	add("model-group", "", "commitments and all provers on the model group: a fault at every byte the operation reads, 4 errors, 1, 2 or all later reads, before or after partial delivery", func(c *Ctx) {
		z := newZn(znN)
		g := znGroup{z}
		cp := z.CP(5, 64)
		for _, v := range []int64{0, 1, -3, 77} {
			c09Op(c, commitOp(fmt.Sprintf("PedCommit(%d)", v), cp, g, big.NewInt(v)), 1)
		}
		for k := kGSPFS; k < kRange; k++ {
			for _, x := range []int64{0, 1, 12345} {
				for side := zk.Left; side <= zk.Right; side++ {
					if side == zk.Right && k != kGSPFS && k != kDisj {
						continue
					}
					s := znStmt(z, k, 5, big.NewInt(x), five, big.NewInt(11), side)
					c09Op(c, proofOp(fmt.Sprintf("%s proof x=%d side=%d", kindName[k], x, side), s, g), 1)
				}
			}
		}
	})
	add("model-group-range", "", "the range prover on the model group: values with different bits, a fault at every byte read", func(c *Ctx) {
		z := newZn(znN)
		g := znGroup{z}
		cp := z.CP(5, 64)
		vals := []int64{0, 1, 1<<40 - 1, 0x5555555555, 0xaaaaaaaaaa, 1 << 39}
		if c.Thorough {
			vals = append(vals, 2, 3, 0xff, 0xfffff00000, 0x123456789a, 1<<40-2)
		}
		for _, v := range vals {
			c09Op(c, proofOp(fmt.Sprintf("range proof of %d", v), Stmt{kRange, cp, nil, []BI{big.NewInt(v)}, 0}, g), 1)
		}
	})
	add("secp", "", "commitments and all provers on secp256k1, key generation, encryption, random 64-bit numbers: a fault at every byte", func(c *Ctx) {
		tc := zk.TestCurve
		c09Op(c, commitOp("PedCommit(42)", tc, secpGroup{}, big.NewInt(42)), 1)
		for _, op := range btcecOps() {
			c09Op(c, op, 1)
		}
		for k := kGSPFS; k < kRange; k++ {
			for _, x := range []BI{big.NewInt(0), five} {
				for side := zk.Left; side <= zk.Right; side++ {
					if side == zk.Right && k != kDisj {
						continue
					}
					step := 8
					if c.Thorough {
						step = 1
					}
					s := realStmt(k, 0, tc, x, five, big.NewInt(12), side)
					c09Op(c, proofOp(fmt.Sprintf("%s proof on secp256k1 x=%d side=%d", kindName[k], x, side), s, secpGroup{}), step)
				}
			}
		}
	})
	add("secp-range", "thorough", "the range prover on secp256k1: a fault at every read", func(c *Ctx) {
		for _, v := range []int64{0, 1<<40 - 1, 0x123456789a} {
			c09Op(c, proofOp(fmt.Sprintf("range proof of %d on secp256k1", v), Stmt{kRange, zk.TestCurve, nil, []BI{big.NewInt(v)}, 0}, secpGroup{}), 1<<30)
		}
	})
	register(ck)
}
