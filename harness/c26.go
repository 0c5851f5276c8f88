package zkmc

import (
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

// run.sh has copied the packages to a scratch directory, run go generate in btcec there, and built
// this harness against the copy; generate.txt and generate.rc are what the generator said.
func genResult() (out, rc string) {
	d := os.Getenv("ZK_SCRATCH")
	a, _ := os.ReadFile(filepath.Join(d, "generate.txt"))
	b, _ := os.ReadFile(filepath.Join(d, "generate.rc"))
	return string(a), strings.TrimSpace(string(b))
}

func c26Run(c *Ctx) {
	if !c.Case("go generate in btcec writes both tables") {
		return
	}
	out, rc := genResult()
	c.Add(1, 1, 1)
	switch {
	case rc == "124" || rc == "137" || rc == "":
		c.Outcome("the generator did not finish in time")
	case rc != "0":
		c.Fail("the generator fails (%s): %s", rc, clip(out, 400))
	default:
		c.Outcome("generated")
	}
}

func c26Tables(c *Ctx) {
	if _, rc := genResult(); rc != "0" {
		return // judged by the first unit
	}
	c18Tables(c)
}

// c26Vectors: the printed vectors are a short basis of the lattice of (a, b) with a + b*lambda = 0.
func c26Vectors(c *Ctx) {
	out, rc := genResult()
	if rc != "0" || !c.Case("the printed endomorphism vectors") {
		return
	}
	v := map[string]BI{}
	for _, m := range regexp.MustCompile(`\b([ab][12])\s*[:=]\s*(-?)(?:0x)?([0-9a-fA-F]+)`).FindAllStringSubmatch(out, -1) {
		x := hexInt(strings.ToLower(m[3]))
		if m[2] == "-" {
			x = x.Neg(x)
		}
		v[m[1]] = x
	}
	if len(v) != 4 {
		c.Outcome("vectors printed in another form (not judged)")
		return
	}
	lam := hexInt("5363ad4cc05c30e0a5261c028812645a122e22ea20816678df02967c1b23bd72")
	for i := 0; i < 2; i++ {
		a, b := v[[]string{"a1", "a2"}[i]], v[[]string{"b1", "b2"}[i]]
		if new(big.Int).Mod(new(big.Int).Add(a, new(big.Int).Mul(b, lam)), sN).Sign() != 0 {
			c.Fail("vector %d (%x, %x): a + b*lambda is no multiple of N", i+1, a, b)
		}
		if a.BitLen() > 129 || b.BitLen() > 129 {
			c.Fail("vector %d (%x, %x) is not short", i+1, a, b)
		}
	}
	det := new(big.Int).Sub(new(big.Int).Mul(v["a1"], v["b2"]), new(big.Int).Mul(v["a2"], v["b1"]))
	if new(big.Int).Abs(det).Cmp(sN) != 0 {
		c.Fail("the vectors (%x, %x), (%x, %x) are no basis", v["a1"], v["b1"], v["a2"], v["b2"])
	}
	// the vectors that the library is built with
	for k, w := range map[string]string{"a1": "3086d221a7d46bcde86c90e49284eb15", "b1": "e4437ed6010e88286f547fa90abfe4c3", "a2": "114ca50f7a8e2f3f657c1108d9d44cfd8", "b2": "3086d221a7d46bcde86c90e49284eb15"} {
		x := hexInt(w)
		if k == "b1" {
			x.Neg(x)
		}
		if v[k].Cmp(x) != 0 {
			c.Fail("%s is printed as %x, the library uses %x", k, v[k], x)
		}
	}
	c.Add(1, 4, 4)
	c.Outcome("vectors")
}

func init() {
	ck := &Check{ID: "C26", Level: "model_checking",
		Rule: "state = one entry of the tables that go generate writes, read through the library built with them; each must be the multiple of its base that its place names"}
	add := func(name, bound string, run func(*Ctx)) {
		ck.Units = append(ck.Units, Unit{Name: name, Bound: bound, Run: run})
	}
	add("generator", "one run of go generate in a copy of the repository", c26Run)
	add("generated tables", "all 32 x 256 entries of both regenerated tables, minimal and 32-byte scalars", c26Tables)
	add("vectors", "the four numbers", c26Vectors)
	add("use of the tables", "all powers of two and neighbours, byte patterns, on the regenerated tables", func(c *Ctx) {
		if _, rc := genResult(); rc == "0" {
			c18Boundary(c)
		}
	})
	register(ck)
}
