package zkmc

import (
	"crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"io"
	"math/big"
	"sync"
)

var sysRand = rand.Reader

// withRand runs f with the process's random source replaced.
func withRand(r io.Reader, f func()) {
	rand.Reader = &lockedReader{r: r}
	defer func() { rand.Reader = sysRand }()
	f()
}

// lockedReader: like the system's, the random source may be read by several goroutines at once.
type lockedReader struct {
	mu sync.Mutex
	r  io.Reader
}

func (l *lockedReader) Read(b []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.r.Read(b)
}

// choiceReader is the random source as a choice point: the k-th read delivers the k-th choice
// as a big-endian number, whatever the length of the read.
type choiceReader struct {
	choices []int
	n       int // reads so far
	over    bool
	rest    int64 // delivered after the choices
}

func (c *choiceReader) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	v := c.rest
	if c.n < len(c.choices) {
		v = int64(c.choices[c.n])
	} else {
		c.over = true
	}
	c.n++
	for i := range b {
		b[i] = 0
	}
	for i := len(b) - 1; i >= 0 && v > 0; i-- {
		b[i] = byte(v)
		v >>= 8
	}
	return len(b), nil
}

// forDraws runs f for every sequence of draws below n (depth-first over the choice points that
// the run actually reaches). f's run is repeated from the start for every sequence.
// It returns the number of runs; stop ends it early.
func forDraws(n int, maxDepth int, run func(r *choiceReader), stop func() bool) int64 {
	var count int64
	prefix := []int{}
	for {
		r := &choiceReader{choices: append([]int(nil), prefix...)}
		withRand(r, func() { run(r) })
		count++
		if stop != nil && stop() {
			return count
		}
		// extend the prefix to what was consumed, then advance like an odometer
		for len(prefix) < r.n && len(prefix) < maxDepth {
			prefix = append(prefix, 0)
		}
		i := len(prefix) - 1
		for i >= 0 {
			prefix[i]++
			if prefix[i] < n {
				break
			}
			i--
		}
		if i < 0 {
			return count
		}
		prefix = prefix[:i+1]
	}
}

// bigReader delivers listed big integers, one per read, left-padded; after the list it
// continues with a deterministic stream.
type bigReader struct {
	vals []*big.Int
	n    int
	tail *stream
	lens []int
}

func (r *bigReader) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	r.lens = append(r.lens, len(b))
	if r.n < len(r.vals) && r.vals[r.n] != nil {
		v := r.vals[r.n]
		for i := range b {
			b[i] = 0
		}
		vb := v.Bytes()
		if len(vb) > len(b) {
			vb = vb[len(vb)-len(b):]
		}
		copy(b[len(b)-len(vb):], vb)
	} else {
		if r.tail == nil {
			r.tail = newStream("tail")
		}
		r.tail.Read(b)
	}
	r.n++
	return len(b), nil
}

// stream is a deterministic byte stream named by a label (never ends, never fails).
type stream struct {
	key [32]byte
	ctr uint64
	buf []byte
	n   int // reads
}

func newStream(label string) *stream { return &stream{key: sha256.Sum256([]byte(label))} }

func (s *stream) Read(b []byte) (int, error) {
	s.n++
	for i := range b {
		if len(s.buf) == 0 {
			var x [40]byte
			copy(x[:], s.key[:])
			binary.BigEndian.PutUint64(x[32:], s.ctr)
			s.ctr++
			h := sha256.Sum256(x[:])
			s.buf = h[:]
		}
		b[i] = s.buf[0]
		s.buf = s.buf[1:]
	}
	return len(b), nil
}

var errRand = errors.New("random source: injected fault")

// faultReader passes reads to src but fails from the k-th read on (0-based), for count reads
// (count < 0: for ever). partial: the failing read still delivers that many bytes.
type faultReader struct {
	src     io.Reader
	k       int
	count   int
	partial int
	err     error
	n       int
	hits    int
}

func (f *faultReader) Read(b []byte) (int, error) {
	i := f.n
	f.n++
	if i >= f.k && (f.count < 0 || i < f.k+f.count) {
		f.hits++
		n := f.partial
		if n > len(b) {
			n = len(b)
		}
		if n > 0 {
			f.src.Read(b[:n])
		}
		return n, f.err
	}
	return f.src.Read(b)
}
