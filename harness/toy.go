package zkmc

import (
	"crypto/elliptic"
	"crypto/sha256"
	"fmt"
	"math/big"
	"sync"
	"sync/atomic"

	zk "github.com/mit-dci/zksigma"
)

// Toy is a small elliptic curve y^2 = x^3 + ax + b over F_p with prime order N, so without points
// with y = 0; (0,0) is the point at infinity as in zksigma. The library
// reaches it through the elliptic.Curve interface. Discrete logarithms are tabulated, which
// makes the reference model integer arithmetic modulo N.
type Toy struct {
	p, a, b int64
	N       int
	params  *elliptic.CurveParams
	xs, ys  []int64         // dlog -> coordinates; index 0 is infinity
	dlog    map[int64]int   // x*p+y -> dlog
	Pts     []zk.ECPoint    // dlog -> point (shared, read-only)
	enc     [][]byte        // dlog -> bytes in a transcript
	yield   func(op string) // schedule exploration: called at every curve operation
}

// curveOps counts the operations that the library performs on the harness's curves.
var curveOps atomic.Int64

func modp(x, p int64) int64 {
	x %= p
	if x < 0 {
		x += p
	}
	return x
}

func invp(x, p int64) int64 {
	// p is tiny: extended Euclid
	a, b := modp(x, p), p
	u, v := int64(1), int64(0)
	for a != 0 {
		q := b / a
		b, a = a, b-q*a
		v, u = u, v-q*u
	}
	return modp(v, p)
}

func (t *Toy) addAffine(x1, y1, x2, y2 int64) (int64, int64) {
	if x1 == 0 && y1 == 0 {
		return x2, y2
	}
	if x2 == 0 && y2 == 0 {
		return x1, y1
	}
	var l int64
	if x1 == x2 {
		if y1 != y2 || y1 == 0 {
			return 0, 0
		}
		l = modp((3*x1*x1+t.a)*invp(2*y1, t.p), t.p)
	} else {
		l = modp((y2-y1)*invp(x2-x1, t.p), t.p)
	}
	x3 := modp(l*l-x1-x2, t.p)
	y3 := modp(l*(x1-x3)-y1, t.p)
	return x3, y3
}

// findToy looks for a curve of order n; x0: one that has points with x = 0, which must not be
// taken for the point at infinity.
func findToy(n int, x0 bool) *Toy {
	for p := int64(5); p < 4000; p++ {
		if !big.NewInt(p).ProbablyPrime(10) {
			continue
		}
		// Hasse
		d := int64(n) - p - 1
		if d*d > 4*p {
			continue
		}
		sq := map[int64][]int64{}
		for y := int64(0); y < p; y++ {
			sq[y*y%p] = append(sq[y*y%p], y)
		}
		for a := int64(0); a < p; a++ {
			for b := int64(1); b < p; b++ {
				if (len(sq[b]) > 0) != x0 { // a point with x = 0
					continue
				}
				cnt := 1
				var gx, gy int64
				bad := false
				for x := int64(0); x < p; x++ {
					r := modp(x*x*x+a*x+b, p)
					if r == 0 {
						bad = true
						break
					}
					for _, y := range sq[r] {
						if cnt == 1 {
							gx, gy = x, y
						}
						cnt++
					}
				}
				if bad || cnt != n || modp(4*a*a*a+27*b*b, p) == 0 {
					continue
				}
				t := &Toy{p: p, a: a, b: b, N: n}
				t.build(gx, gy)
				return t
			}
		}
	}
	panic(fmt.Sprintf("no toy curve of order %d", n))
}

func (t *Toy) build(gx, gy int64) {
	t.params = &elliptic.CurveParams{P: big.NewInt(t.p), N: big.NewInt(int64(t.N)), B: big.NewInt(t.b), Gx: big.NewInt(gx), Gy: big.NewInt(gy), BitSize: big.NewInt(t.p).BitLen(), Name: fmt.Sprintf("toy%d", t.N)}
	t.xs = make([]int64, t.N)
	t.ys = make([]int64, t.N)
	t.dlog = map[int64]int{}
	t.Pts = make([]zk.ECPoint, t.N)
	t.enc = make([][]byte, t.N)
	x, y := int64(0), int64(0)
	for i := 0; i < t.N; i++ {
		t.xs[i], t.ys[i] = x, y
		if _, dup := t.dlog[x*t.p+y]; dup {
			panic("toy curve: bad order")
		}
		t.dlog[x*t.p+y] = i
		t.Pts[i] = zk.ECPoint{X: big.NewInt(x), Y: big.NewInt(y)}
		t.enc[i] = append(big.NewInt(x).Bytes(), big.NewInt(y).Bytes()...)
		x, y = t.addAffine(x, y, gx, gy)
	}
	if x != 0 || y != 0 {
		panic("toy curve: order")
	}
}

var toyMu sync.Mutex
var toys = map[int]*Toy{}

// toyName labels a group for a unit's name.
func toyName(n int) string {
	if n < 0 {
		return fmt.Sprintf("x0-%d", -n)
	}
	return fmt.Sprint(n)
}

// toyDesc describes a group for a unit's bound.
func toyDesc(n int) string {
	if n < 0 {
		return fmt.Sprintf("order %d (a curve that has points with x = 0)", -n)
	}
	return fmt.Sprintf("order %d", n)
}

// GetToy returns the toy curve of prime order n; for negative n a curve of order -n that has
// points with x = 0.
func GetToy(n int) *Toy {
	toyMu.Lock()
	defer toyMu.Unlock()
	if toys[n] == nil {
		if n < 0 {
			toys[n] = findToy(-n, true)
		} else {
			toys[n] = findToy(n, false)
		}
	}
	return toys[n]
}

func (t *Toy) Params() *elliptic.CurveParams { return t.params }

func (t *Toy) small(x *big.Int) (int64, bool) {
	if x == nil || x.Sign() < 0 || !x.IsInt64() {
		return 0, false
	}
	v := x.Int64()
	return v, v < t.p
}

func (t *Toy) red(x *big.Int) int64 {
	return new(big.Int).Mod(x, t.params.P).Int64()
}

// Log returns the discrete log of a point, -1 if it is not in the group.
func (t *Toy) Log(p zk.ECPoint) int {
	x, ok1 := t.small(p.X)
	y, ok2 := t.small(p.Y)
	if !ok1 || !ok2 {
		return -1
	}
	if i, ok := t.dlog[x*t.p+y]; ok {
		return i
	}
	return -1
}

func (t *Toy) IsOnCurve(x, y *big.Int) bool {
	i := t.Log(zk.ECPoint{X: x, Y: y})
	return i > 0
}

func (t *Toy) ret(i int) (*big.Int, *big.Int) {
	return big.NewInt(t.xs[i]), big.NewInt(t.ys[i])
}

func (t *Toy) Add(x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
	curveOps.Add(1)
	if t.yield != nil {
		t.yield("Add")
	}
	i := t.Log(zk.ECPoint{X: x1, Y: y1})
	j := t.Log(zk.ECPoint{X: x2, Y: y2})
	if i >= 0 && j >= 0 {
		return t.ret((i + j) % t.N)
	}
	x, y := t.addAffine(t.red(x1), t.red(y1), t.red(x2), t.red(y2))
	return big.NewInt(x), big.NewInt(y)
}

func (t *Toy) Double(x1, y1 *big.Int) (*big.Int, *big.Int) { return t.Add(x1, y1, x1, y1) }

func (t *Toy) modN(k []byte) int {
	v := 0
	for _, b := range k {
		v = (v*256 + int(b)) % t.N
	}
	return v
}

func (t *Toy) ScalarMult(x1, y1 *big.Int, k []byte) (*big.Int, *big.Int) {
	curveOps.Add(1)
	if t.yield != nil {
		t.yield("ScalarMult")
	}
	s := t.modN(k)
	i := t.Log(zk.ECPoint{X: x1, Y: y1})
	if i >= 0 {
		return t.ret(i * s % t.N)
	}
	var rx, ry int64
	ax, ay := t.red(x1), t.red(y1)
	for ; s > 0; s >>= 1 {
		if s&1 == 1 {
			rx, ry = t.addAffine(rx, ry, ax, ay)
		}
		ax, ay = t.addAffine(ax, ay, ax, ay)
	}
	return big.NewInt(rx), big.NewInt(ry)
}

func (t *Toy) ScalarBaseMult(k []byte) (*big.Int, *big.Int) {
	curveOps.Add(1)
	if t.yield != nil {
		t.yield("ScalarBaseMult")
	}
	return t.ret(t.modN(k))
}

// CP returns curve parameters with H = hG and a table of np powers of two.
func (t *Toy) CP(h, np int) zk.ZKPCurveParams {
	cp := zk.ZKPCurveParams{C: t, G: t.Pts[1], H: t.Pts[h]}
	m := 1
	for i := 0; i < np; i++ {
		cp.HPoints = append(cp.HPoints, t.Pts[m])
		m = m * 2 % t.N
	}
	return cp
}

// CPG returns parameters with any two generators.
func (t *Toy) CPG(g, h, np int) zk.ZKPCurveParams {
	cp := zk.ZKPCurveParams{C: t, G: t.Pts[g], H: t.Pts[h]}
	m := g
	for i := 0; i < np; i++ {
		cp.HPoints = append(cp.HPoints, t.Pts[m])
		m = m * 2 % t.N
	}
	return cp
}

// Chal is the reference challenge: SHA-256 of the points' coordinates, modulo N.
func (t *Toy) Chal(pts ...int) int {
	h := sha256.New()
	for _, i := range pts {
		h.Write(t.enc[i])
	}
	return t.modN(h.Sum(nil))
}

func (t *Toy) inv(x int) int {
	x = ((x % t.N) + t.N) % t.N
	if x == 0 {
		return 0
	}
	r, b, e := 1, x, t.N-2
	for ; e > 0; e >>= 1 {
		if e&1 == 1 {
			r = r * b % t.N
		}
		b = b * b % t.N
	}
	return r
}

func md(x, n int) int {
	x %= n
	if x < 0 {
		x += n
	}
	return x
}

var smallInts [8192]*big.Int

func init() {
	for i := range smallInts {
		smallInts[i] = big.NewInt(int64(i))
	}
}

// bi returns a shared big integer for a small number.
func bi(i int) *big.Int {
	if i >= 0 && i < len(smallInts) {
		return smallInts[i]
	}
	return big.NewInt(int64(i))
}
