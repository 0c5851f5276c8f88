package zkmc

import (
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"

	"github.com/mit-dci/zksigma/btcec"
)

// c19Field runs the in-package harness of the field type, one part per case.
func c19Field(job string, quick, thorough int) func(*Ctx) {
	return inPackage("field", "TestZkmcField", job, quick, thorough)
}

// inPackage runs a job of an in-package harness, one part per case.
func inPackage(what, test, job string, quick, thorough int) func(*Ctx) {
	return func(c *Ctx) {
		bin := os.Getenv("ZK_FIELDBIN")
		parts, tier := quick, "quick"
		if c.Thorough {
			parts, tier = thorough, "thorough"
		}
		for i := 0; i < parts; i++ {
			if !c.Case("%s, %s, part %d of %d", what, job, i, parts) {
				if c.Stop() {
					return
				}
				continue
			}
			if bin == "" {
				c.Truncate("the in-package harness does not compile with this tree")
				continue
			}
			cmd := exec.Command(bin, "-test.run=^"+test+"$", "-test.timeout=0")
			cmd.Env = append(os.Environ(), fmt.Sprintf("ZKF_JOB=%s:%d:%d:%s", job, i, parts, tier))
			done := make(chan struct{})
			go func() {
				for {
					select {
					case <-done:
						return
					case <-time.After(5 * time.Second):
						c.Alive()
					}
				}
			}()
			timer := time.AfterFunc(6*time.Minute, func() {
				if cmd.Process != nil {
					cmd.Process.Kill()
				}
			})
			out, err := cmd.CombinedOutput()
			timer.Stop()
			close(done)
			res := ""
			for _, l := range strings.Split(string(out), "\n") {
				if strings.HasPrefix(l, "ZKF-") {
					res = l
				}
			}
			f := strings.Fields(res)
			switch {
			case strings.HasPrefix(res, "ZKF-FAIL"):
				c.Fail("%s, %s: %s", what, job, strings.TrimPrefix(res, "ZKF-FAIL "))
			case strings.HasPrefix(res, "ZKF-OK") && len(f) == 3:
				s, _ := strconv.ParseInt(f[1], 10, 64)
				o, _ := strconv.ParseInt(f[2], 10, 64)
				c.Add(s, o, s)
				c.OutcomeN(what+" values compared ("+job+")", s)
			default:
				c.Truncate(fmt.Sprintf("%s part %d: no result (%v)", job, i, err))
				c.Note("in-package harness: %s", clip(string(out), 300))
			}
			if c.Stop() {
				return
			}
		}
	}
}

// c19Public: field operations seen from outside: the on-curve test squares, multiplies and
// compares; the conversion of k*G to coordinates inverts.
func c19Public(c *Ctx) {
	S := btcec.S256()
	n := 64
	if c.Thorough {
		n = 1024
	}
	for m := 0; m < n; m++ {
		if !c.Case("coordinates of word pattern %x", m) {
			continue
		}
		v := new(big.Int)
		for i := 9; i >= 0; i-- {
			v.Lsh(v, 26)
			if (m*0x2b5)>>uint(i)&1 == 1 {
				w := int64(1<<26 - 1)
				if i == 9 {
					w = 1<<22 - 1
				}
				v.Add(v, big.NewInt(w))
			}
		}
		v.Mod(v, sP)
		for i := 0; i < 8; i++ {
			x := addP(v, big.NewInt(int64(i)))
			for _, odd := range []bool{false, true} {
				p := liftX(x, odd)
				if p.inf() {
					continue
				}
				c.Guard("curve operation", func() {
					if !S.IsOnCurve(p.x, p.y) {
						c.Fail("IsOnCurve(%x, %x) is false", p.x, p.y)
					}
					if q := addP(p.y, one); S.IsOnCurve(p.x, q) {
						c.Fail("IsOnCurve(%x, %x) is true", p.x, q)
					}
					x, y := S.Double(p.x, p.y)
					if !p.add(p).eq(x, y) {
						c.Fail("Double(%x, %x) = (%x, %x)", p.x, p.y, x, y)
					}
				})
				c.Add(1, 3, 3)
				c.Outcome("point")
			}
		}
		if c.Stop() {
			return
		}
	}
}

func init() {
	ck := &Check{ID: "C19", Level: "model_checking",
		Rule: "state = words of one or two field elements with their magnitudes; after every operation the normalized value equals the big-integer value modulo the prime, is canonical, and arguments are unchanged",
		Assumptions: []string{
			"operands stay within the documented magnitudes (at most 8 for products and inverses, 32 for sums)",
			"the field type is internal: the harness is compiled into the package by an overlay and uses the names that the package's own tests use; if it does not compile, only the public part runs and the evidence says so",
		}}
	add := func(name, bound string, run func(*Ctx)) {
		ck.Units = append(ck.Units, Unit{Name: name, Bound: bound, Run: run})
	}
	add("set and text", "boundary values below 2^256, all lengths of text and bytes", c19Field("set", 8, 16))
	add("normalize", "all combinations of 5 word patterns up to magnitude 32; all values within 3000 of the prime and of 2^256; carries around the prime", c19Field("normalize", 32, 64))
	add("pairs", "all pairs of boundary values at magnitudes 1, 2 and 8, all ways to share operands", c19Field("pairs", 96, 256))
	add("words", "products of elements with words all zeros or all ones at magnitudes 1 and 8: all 2^20", c19Field("words", 32, 64))
	add("inverse", "boundary values, small and near the prime, magnitudes 1, 2, 8", c19Field("inverse", 32, 64))
	add("small operands", "MulInt, AddInt, Negate at magnitudes 1 to 31", c19Field("small", 16, 32))
	add("chains", "two-register machine with 16 operations: all chains of length 3 from all pairs of boundary values and of length 4 from 144 pairs (thorough: length 4 from a third of the pairs and 5 from the 144)", c19Field("chain", 128, 512))
	add("through the curve", "on-curve test and doubling at points of word patterns", c19Public)
	register(ck)
}
