From a8cb570d112cb48626b357a7c90aeb3c65115829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:30 +0000
Subject: [PATCH 01/26] fix: ECPoint.Equal compares both coordinates

The Y comparison compared the argument with itself, so P and -P were
reported equal and Mult(-G, s) returned s*G.
---
 crypto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto.go b/crypto.go
index 26e8d07..a06b3e7 100644
--- a/crypto.go
+++ b/crypto.go
@@ -76,7 +76,7 @@ var Zero ECPoint // initialized in init()
 
 // Equal returns true if points p (self) and p2 (arg) are the same.
 func (p ECPoint) Equal(p2 ECPoint) bool {
-	if p.X.Cmp(p2.X) == 0 && p2.Y.Cmp(p2.Y) == 0 {
+	if p.X.Cmp(p2.X) == 0 && p.Y.Cmp(p2.Y) == 0 {
 		return true
 	}
 	return false
-- 
2.43.0


From 818e1d6c55041df7800db1a11afc411ad584e251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:50 +0000
Subject: [PATCH 02/26] fix: TestCurve.H is the H of the pre-computed table

H was set to k*G for a public k, while Mult(H, s) and PedCommitR used
the table of a different point: Mult(H, 1) was not H, CommitR(H, r) was
not Mult(H, r), and the discrete log of TestCurve.H was known to
everybody. Use the point the table was generated for.
---
 zksigma.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/zksigma.go b/zksigma.go
index 77ec75e..e05e7ca 100644
--- a/zksigma.go
+++ b/zksigma.go
@@ -16,7 +16,6 @@ More info on Github
 package zksigma
 
 import (
-	"crypto/sha256"
 	"math/big"
 
 	"github.com/mit-dci/zksigma/btcec"
@@ -47,9 +46,8 @@ func generateH2tothe() []ECPoint {
 }
 
 func init() {
-	s256 := sha256.New()
-	hashedString := s256.Sum([]byte("This is the new random point in zksigma"))
-	HX, HY := btcec.S256().ScalarMult(btcec.S256().Gx, btcec.S256().Gy, hashedString)
+	// H is the point the pre-computed table of H holds the multiples of
+	HX, HY := btcec.S256().ScalarBaseMultH([]byte{1})
 	TestCurve = ZKPCurveParams{
 		C: btcec.S256(),
 		G: ECPoint{btcec.S256().Gx, btcec.S256().Gy},
-- 
2.43.0


From f06cc603720db26f04999570988fa86b66603008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:51 +0000
Subject: [PATCH 03/26] fix: Mult works for curve parameters with their own H

Multiples of zkpcp.H were always taken from btcec's table, which holds
multiples of one fixed point: parameters with another H got wrong
results and parameters with another curve a failed type assertion.
---
 crypto.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crypto.go b/crypto.go
index a06b3e7..cfcc55a 100644
--- a/crypto.go
+++ b/crypto.go
@@ -65,6 +65,9 @@ func KeyGen(curve elliptic.Curve, base ECPoint) (ECPoint, *big.Int) {
 // BigZero contains a cached instance of big.Int with value 0
 var BigZero *big.Int
 
+// tableH is the point whose multiples btcec's pre-computed table of H holds
+var tableH ECPoint // initialized in init()
+
 // ============ ECPoint OPERATIONS ==================
 
 type ECPoint struct {
@@ -100,8 +103,9 @@ func (zkpcp ZKPCurveParams) Mult(p ECPoint, s *big.Int) ECPoint {
 		return ECPoint{X, Y}
 	}
 
-	if p.Equal(zkpcp.H) {
-		X, Y := zkpcp.C.(*btcec.KoblitzCurve).ScalarBaseMultH(modS.Bytes())
+	// The pre-computed table only holds multiples of btcec's own H
+	if kc, ok := zkpcp.C.(*btcec.KoblitzCurve); ok && p.Equal(zkpcp.H) && p.Equal(tableH) {
+		X, Y := kc.ScalarBaseMultH(modS.Bytes())
 		return ECPoint{X, Y}
 	}
 
@@ -267,5 +271,6 @@ func init() {
 
 	BigZero = big.NewInt(0)
 	Zero = ECPoint{BigZero, BigZero}
+	tableH.X, tableH.Y = btcec.S256().ScalarBaseMultH([]byte{1})
 
 }
-- 
2.43.0


From 383ced6fcf5fa7e54996afd0eb93190f806b6545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:27 +0000
Subject: [PATCH 04/26] fix: reduce the disjunctive proof's response modulo the
 group order

Over the integers s = u1 + deltaC*x, with deltaC public and u1 < N,
reveals x by a division, and its size reveals which side was proved.
---
 disjunctive.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/disjunctive.go b/disjunctive.go
index a9e1a87..c695f77 100644
--- a/disjunctive.go
+++ b/disjunctive.go
@@ -128,6 +128,7 @@ func NewDisjunctiveProof(
 	deltaC.Mod(deltaC, zkpcp.C.Params().N)
 
 	s := new(big.Int).Add(u1, new(big.Int).Mul(deltaC, modValue))
+	s.Mod(s, zkpcp.C.Params().N)
 
 	// Look at mapping given in block comment above
 	if option == Left {
-- 
2.43.0


From 316cdf6a490f58a7c7b0fdec422e341d7225e7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:29 +0000
Subject: [PATCH 05/26] fix: reduce the ABC proof's response l modulo the group
 order

Over the integers l = u3 + (uc - v*ub)*chal reveals uc - v*ub.
---
 abc.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/abc.go b/abc.go
index f39f5b5..4f14f19 100644
--- a/abc.go
+++ b/abc.go
@@ -157,6 +157,7 @@ func NewABCProof(zkpcp ZKPCurveParams, CM, CMTok ECPoint, value, sk *big.Int, op
 	// l = u3 + (uc - v * ub) * chal
 	temp1 := new(big.Int).Sub(uc, new(big.Int).Mul(value, ub))
 	l := new(big.Int).Add(u3, new(big.Int).Mul(temp1, Challenge))
+	l.Mod(l, zkpcp.C.Params().N)
 
 	return &ABCProof{
 		B,
-- 
2.43.0


From e009e9ff1a2cee3e03e87f4693ba425e179d6f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:30 +0000
Subject: [PATCH 06/26] fix: NewABCProof and ABCProof.Verify return errors
 instead of panicking

A value that is zero modulo the group order without being zero (so also
an inequality proof of a and a+N), a secret key that is zero modulo the
group order and a nil proof all dereferenced a nil pointer.
---
 abc.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/abc.go b/abc.go
index 4f14f19..f996795 100644
--- a/abc.go
+++ b/abc.go
@@ -62,6 +62,8 @@ func NewABCProof(zkpcp ZKPCurveParams, CM, CMTok ECPoint, value, sk *big.Int, op
 
 	// We cannot check that CM log is actually the value, but the verification should catch that
 
+	value = new(big.Int).Mod(value, zkpcp.C.Params().N)
+
 	u1, err := rand.Int(rand.Reader, zkpcp.C.Params().N)
 	if err != nil {
 		return nil, err
@@ -151,6 +153,9 @@ func NewABCProof(zkpcp ZKPCurveParams, CM, CMTok ECPoint, value, sk *big.Int, op
 	// k = u2 + inv(sk) * chal
 	// inv(sk)
 	isk := new(big.Int).ModInverse(sk, zkpcp.C.Params().N)
+	if isk == nil {
+		return &ABCProof{}, &errorProof{"ABCProof", "sk has no inverse"}
+	}
 	k := new(big.Int).Add(u2, new(big.Int).Mul(isk, Challenge))
 	k = new(big.Int).Mod(k, zkpcp.C.Params().N)
 
@@ -173,6 +178,10 @@ func NewABCProof(zkpcp ZKPCurveParams, CM, CMTok ECPoint, value, sk *big.Int, op
 // Verify checks if ABCProof aProof with appropriate commits CM and CMTok is correct
 func (aProof *ABCProof) Verify(zkpcp ZKPCurveParams, CM, CMTok ECPoint) (bool, error) {
 
+	if aProof == nil {
+		return false, &errorProof{"ABCProof.Verify", "passed proof is nil"}
+	}
+
 	// Notes in ABCProof talk about why the Disjunc takes in this specific input even though it looks non-intuitive
 	// Here it is important that you subtract exactly 1 G from the aProof.C because that only allows for you to prove c = 1!
 	_, status := aProof.disjuncAC.Verify(zkpcp, CM, CMTok, zkpcp.H, zkpcp.Sub(aProof.C, zkpcp.G))
-- 
2.43.0


From a1124fa8b44a430c9dadfbc10854b30f042b4409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:31 +0000
Subject: [PATCH 07/26] fix: reduce the range proof's responses modulo the
 group order

Over the integers the response of a 1 bit is k + e0*v, which reveals the
blinding v, and the response of a 0 bit is longer: the sizes of the
responses spelled out the value.
---
 rangeproof.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rangeproof.go b/rangeproof.go
index 4d7da9c..0a68ccf 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -139,12 +139,14 @@ func proofGenB(zkpcp ZKPCurveParams,
 		// s = k + (kValues[i] * e0) * inverse ei
 		data.kScalars[idx] = j.Add(
 			j, new(big.Int).Mul(data.kScalars[idx], new(big.Int).Mul(e0, inverseEI)))
+		data.kScalars[idx].Mod(data.kScalars[idx], zkpcp.C.Params().N)
 
 	} else { // bit is 1, don't do anything
 		// s is k + e0*v
 
 		data.kScalars[idx] = new(big.Int).Add(
 			data.kScalars[idx], new(big.Int).Mul(e0, data.vScalars[idx]))
+		data.kScalars[idx].Mod(data.kScalars[idx], zkpcp.C.Params().N)
 	}
 
 	return nil
-- 
2.43.0


From 602baff74b572662a8b91f1c02b543deb9732793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:32 +0000
Subject: [PATCH 08/26] fix: NewRangeProof refuses 2^40

The 40 bits cover 0 to 2^40-1; for 2^40 itself it returned a proof of 0,
which does not verify against the commitment of the value.
---
 rangeproof.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rangeproof.go b/rangeproof.go
index 0a68ccf..a755728 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -160,8 +160,8 @@ func NewRangeProof(zkpcp ZKPCurveParams, value *big.Int) (*RangeProof, *big.Int,
 	// If our value is in range, then sum of commitments would equal original commitment
 	// else, because of truncation, it will be deemed out of range not be equal
 
-	if value.Cmp(big.NewInt(1099511627776)) == 1 {
-		return nil, nil, fmt.Errorf("val %s too big, can only prove up to 1099511627776\n", value.String())
+	if value.Cmp(big.NewInt(1099511627776)) != -1 {
+		return nil, nil, fmt.Errorf("val %s too big, can only prove values below 1099511627776\n", value.String())
 	}
 
 	proofSize := 40
-- 
2.43.0


From 781af72175fdd3fa94b56fd08e813e6efa877673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:33 +0000
Subject: [PATCH 09/26] fix: NewRangeProof returns the errors of its random
 source

The goroutines' errors were dropped and the missing scalars then
dereferenced as nil pointers.
---
 rangeproof.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/rangeproof.go b/rangeproof.go
index a755728..73bd3c4 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -44,6 +44,7 @@ type proverInternalData struct {
 	Bpoints  []ECPoint
 	kScalars []*big.Int
 	vScalars []*big.Int
+	errs     []error
 }
 
 // proofGenA takes in a waitgroup, index and bit
@@ -62,6 +63,7 @@ func proofGenA(zkpcp ZKPCurveParams,
 	if !bit { // If bit is 0, just make a random R = k*H
 		s.kScalars[idx], err = rand.Int(rand.Reader, zkpcp.C.Params().N) // random k
 		if err != nil {
+			s.errs[idx] = err
 			return err
 		}
 		s.Rpoints[idx] = zkpcp.Mult(zkpcp.H, s.kScalars[idx]) // R is k * H
@@ -70,6 +72,7 @@ func proofGenA(zkpcp ZKPCurveParams,
 		// get a random ri
 		s.vScalars[idx], err = rand.Int(rand.Reader, zkpcp.C.Params().N)
 		if err != nil {
+			s.errs[idx] = err
 			return err
 		}
 		// get R as H*ri... what is KC..?
@@ -83,6 +86,7 @@ func proofGenA(zkpcp ZKPCurveParams,
 			// random k
 		s.kScalars[idx], err = rand.Int(rand.Reader, zkpcp.C.Params().N)
 		if err != nil {
+			s.errs[idx] = err
 			return err
 		}
 
@@ -111,6 +115,7 @@ func proofGenB(zkpcp ZKPCurveParams,
 		// choose a random value from the integers mod prime
 		j, err := rand.Int(rand.Reader, zkpcp.C.Params().N)
 		if err != nil {
+			data.errs[idx] = err
 			return err
 		}
 
@@ -177,6 +182,7 @@ func NewRangeProof(zkpcp ZKPCurveParams, value *big.Int) (*RangeProof, *big.Int,
 	stuff.Rpoints = make([]ECPoint, proofSize)
 	stuff.Bpoints = make([]ECPoint, proofSize)
 	stuff.vScalars = make([]*big.Int, proofSize)
+	stuff.errs = make([]error, proofSize)
 
 	vTotal := big.NewInt(0)
 	proof.ProofTuples = make([]rangeProofTuple, proofSize)
@@ -185,10 +191,14 @@ func NewRangeProof(zkpcp ZKPCurveParams, value *big.Int) (*RangeProof, *big.Int,
 	var wg sync.WaitGroup
 	wg.Add(proofSize)
 	for i := 0; i < proofSize; i++ {
-		// TODO: Check errors
 		go proofGenA(zkpcp, &wg, i, value.Bit(i) == 1, stuff)
 	}
 	wg.Wait()
+	for _, err := range stuff.errs {
+		if err != nil {
+			return nil, nil, err
+		}
+	}
 
 	// hash concat of all R values
 	rHash := sha256.New()
@@ -208,11 +218,15 @@ func NewRangeProof(zkpcp ZKPCurveParams, value *big.Int) (*RangeProof, *big.Int,
 	// go through all 64 part B
 	wg.Add(proofSize)
 	for i := 0; i < proofSize; i++ {
-		// TODO: Check errors
 		go proofGenB(zkpcp,
 			&wg, i, value.Bit(i) == 1, e0, stuff)
 	}
 	wg.Wait()
+	for _, err := range stuff.errs {
+		if err != nil {
+			return nil, nil, err
+		}
+	}
 
 	for i := 0; i < proofSize; i++ {
 		//		add up to get vTotal scalar
-- 
2.43.0


From a97c6ad0f3f8a92a5f10ec765c5eb1355cf9e5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:35 +0000
Subject: [PATCH 10/26] fix: RangeProof.Verify rejects proofs with too many
 entries

An entry beyond HPoints made a goroutine index out of range, which ended
the process; a proof without a challenge did the same. Returning early
because of a nil entry left the senders that were already running
blocked for good.
---
 rangeproof.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rangeproof.go b/rangeproof.go
index 73bd3c4..8693e4f 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -284,11 +284,15 @@ func (proof *RangeProof) Verify(zkpcp ZKPCurveParams, comm ECPoint) (bool, error
 
 	proofLength := len(proofs)
 
+	if proof.ProofE == nil || proofLength > len(zkpcp.HPoints) {
+		return false, &errorProof{"RangeProof.Verify", fmt.Sprintf("proof has no challenge or too many entries")}
+	}
+
 	Rpoints := make([]ECPoint, len(proofs))
 
 	totalPoint := ECPoint{big.NewInt(0), big.NewInt(0)}
 
-	resultBox := make(chan verifyTuple, 10) // doubt we'll use even 1
+	resultBox := make(chan verifyTuple, proofLength) // no sender blocks, even if we return early
 
 	for i := 0; i < proofLength; i++ {
 		// check that proofs are non-nil
-- 
2.43.0


From 678ff28ccd384628a53ddefcb68b87681e9d5b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:36 +0000
Subject: [PATCH 11/26] fix: RangeProof.Verify reduces the challenge as the
 prover does

The prover's e0 is the hash modulo the group order, the verifier's was
the hash itself: honest proofs failed whenever the two differ, which for
curves of smaller order is always.
---
 rangeproof.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rangeproof.go b/rangeproof.go
index 8693e4f..1b4b1c3 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -326,7 +326,10 @@ func (proof *RangeProof) Verify(zkpcp ZKPCurveParams, comm ECPoint) (bool, error
 	}
 	calculatedE0 := rHash.Sum(nil)
 
-	if proof.ProofE.Cmp(new(big.Int).SetBytes(calculatedE0[:])) != 0 {
+	expectedE0 := new(big.Int).SetBytes(calculatedE0[:])
+	expectedE0.Mod(expectedE0, zkpcp.C.Params().N)
+
+	if proof.ProofE.Cmp(expectedE0) != 0 {
 		return false, &errorProof{"RangeProof.Verify", fmt.Sprintf("calculatedE0 does not match")}
 	}
 
-- 
2.43.0


From 1c95cc76f6444b8172e8ac825378cbbba9d2d6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:14 +0000
Subject: [PATCH 12/26] fix: ReadVarBytes enforces maxAllowed, ReadBigInt wants
 a sign byte

The documented limit was ignored, so a length prefix could ask for any
amount of memory (or panic), a coordinate of more than 32 bytes reached
the curve arithmetic, which indexes out of range on it, and an empty
big.Int panicked. ReadBigInt's own limit of 32 never fitted what
WriteBigInt writes (a sign byte and 32 bytes), so it is raised.
---
 crypto.go      | 8 +++++++-
 wire/common.go | 6 ++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/crypto.go b/crypto.go
index cfcc55a..badea5f 100644
--- a/crypto.go
+++ b/crypto.go
@@ -189,12 +189,18 @@ func WriteBigInt(w io.Writer, b *big.Int) error {
 	return err
 }
 
+// maxBigIntBytes is the most bytes ReadBigInt accepts for one big.Int, sign byte included
+const maxBigIntBytes = 1024
+
 // ReadBigInt reads a big.Int from io.Reader r
 func ReadBigInt(r io.Reader) (*big.Int, error) {
-	bBytes, err := wire.ReadVarBytes(r, 32, "")
+	bBytes, err := wire.ReadVarBytes(r, maxBigIntBytes, "")
 	if err != nil {
 		return nil, err
 	}
+	if len(bBytes) == 0 {
+		return nil, fmt.Errorf("ReadBigInt: the sign byte is missing")
+	}
 	newInt := big.NewInt(0).SetBytes(bBytes[1:])
 	if bBytes[0] == 0x01 {
 		newInt.Neg(newInt)
diff --git a/wire/common.go b/wire/common.go
index 94db5cb..5208821 100644
--- a/wire/common.go
+++ b/wire/common.go
@@ -294,6 +294,12 @@ func ReadVarBytes(r io.Reader, maxAllowed uint32,
 		return nil, err
 	}
 
+	// Prevent byte array larger than the max message size.
+	if count > uint64(maxAllowed) {
+		return nil, fmt.Errorf("%s: %s is larger than the max allowed size [count %d, max %d]",
+			"ReadVarBytes", fieldName, count, maxAllowed)
+	}
+
 	b := make([]byte, count)
 	_, err = io.ReadFull(r, b)
 	if err != nil {
-- 
2.43.0


From 1044c9c08dd9034775f90ca1e46be2270ccbe22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:15 +0000
Subject: [PATCH 13/26] fix: proof deserializers report malformed input

The New*ProofFromBytes functions dropped the read errors and returned a
proof with nil fields and no error, on which Verify panicked; the number
of entries of a range proof was allocated before looking whether the
input can hold them.
---
 consistency.go | 21 ++++++++++++++++-----
 disjunctive.go | 29 ++++++++++++++++++++++-------
 equivalence.go | 17 +++++++++++++----
 gspfs.go       | 17 +++++++++++++----
 rangeproof.go  | 25 ++++++++++++++++++++-----
 5 files changed, 84 insertions(+), 25 deletions(-)

diff --git a/consistency.go b/consistency.go
index f7a5b08..64e8f90 100644
--- a/consistency.go
+++ b/consistency.go
@@ -150,10 +150,21 @@ func (proof *ConsistencyProof) Bytes() []byte {
 func NewConsistencyProofFromBytes(b []byte) (*ConsistencyProof, error) {
 	proof := new(ConsistencyProof)
 	buf := bytes.NewBuffer(b)
-	proof.T1, _ = ReadECPoint(buf)
-	proof.T2, _ = ReadECPoint(buf)
-	proof.Challenge, _ = ReadBigInt(buf)
-	proof.S1, _ = ReadBigInt(buf)
-	proof.S2, _ = ReadBigInt(buf)
+	var err error
+	if proof.T1, err = ReadECPoint(buf); err != nil {
+		return nil, err
+	}
+	if proof.T2, err = ReadECPoint(buf); err != nil {
+		return nil, err
+	}
+	if proof.Challenge, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
+	if proof.S1, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
+	if proof.S2, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
 	return proof, nil
 }
diff --git a/disjunctive.go b/disjunctive.go
index c695f77..0432434 100644
--- a/disjunctive.go
+++ b/disjunctive.go
@@ -224,12 +224,27 @@ func (djProof *DisjunctiveProof) Bytes() []byte {
 func NewDisjunctiveProofFromBytes(b []byte) (*DisjunctiveProof, error) {
 	proof := new(DisjunctiveProof)
 	buf := bytes.NewBuffer(b)
-	proof.T1, _ = ReadECPoint(buf)
-	proof.T2, _ = ReadECPoint(buf)
-	proof.C, _ = ReadBigInt(buf)
-	proof.C1, _ = ReadBigInt(buf)
-	proof.C2, _ = ReadBigInt(buf)
-	proof.S1, _ = ReadBigInt(buf)
-	proof.S2, _ = ReadBigInt(buf)
+	var err error
+	if proof.T1, err = ReadECPoint(buf); err != nil {
+		return nil, err
+	}
+	if proof.T2, err = ReadECPoint(buf); err != nil {
+		return nil, err
+	}
+	if proof.C, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
+	if proof.C1, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
+	if proof.C2, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
+	if proof.S1, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
+	if proof.S2, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
 	return proof, nil
 }
diff --git a/equivalence.go b/equivalence.go
index d56fdef..c7786e0 100644
--- a/equivalence.go
+++ b/equivalence.go
@@ -138,9 +138,18 @@ func (proof *EquivalenceProof) Bytes() []byte {
 func NewEquivalenceProofFromBytes(b []byte) (*EquivalenceProof, error) {
 	proof := new(EquivalenceProof)
 	buf := bytes.NewBuffer(b)
-	proof.UG, _ = ReadECPoint(buf)
-	proof.UH, _ = ReadECPoint(buf)
-	proof.Challenge, _ = ReadBigInt(buf)
-	proof.HiddenValue, _ = ReadBigInt(buf)
+	var err error
+	if proof.UG, err = ReadECPoint(buf); err != nil {
+		return nil, err
+	}
+	if proof.UH, err = ReadECPoint(buf); err != nil {
+		return nil, err
+	}
+	if proof.Challenge, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
+	if proof.HiddenValue, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
 	return proof, nil
 }
diff --git a/gspfs.go b/gspfs.go
index a0d27a3..245cf02 100644
--- a/gspfs.go
+++ b/gspfs.go
@@ -114,9 +114,18 @@ func (proof *GSPFSProof) Bytes() []byte {
 func NewGSPFSProofFromBytes(b []byte) (*GSPFSProof, error) {
 	proof := new(GSPFSProof)
 	buf := bytes.NewBuffer(b)
-	proof.Base, _ = ReadECPoint(buf)
-	proof.RandCommit, _ = ReadECPoint(buf)
-	proof.HiddenValue, _ = ReadBigInt(buf)
-	proof.Challenge, _ = ReadBigInt(buf)
+	var err error
+	if proof.Base, err = ReadECPoint(buf); err != nil {
+		return nil, err
+	}
+	if proof.RandCommit, err = ReadECPoint(buf); err != nil {
+		return nil, err
+	}
+	if proof.HiddenValue, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
+	if proof.Challenge, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
 	return proof, nil
 }
diff --git a/rangeproof.go b/rangeproof.go
index 1b4b1c3..f4e02b7 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -364,15 +364,30 @@ func (proof *RangeProof) Bytes() []byte {
 func NewRangeProofFromBytes(b []byte) (*RangeProof, error) {
 	proof := new(RangeProof)
 	buf := bytes.NewBuffer(b)
+	var err error
 
-	proof.ProofAggregate, _ = ReadECPoint(buf)
-	proof.ProofE, _ = ReadBigInt(buf)
-	numTuples, _ := wire.ReadVarInt(buf)
+	if proof.ProofAggregate, err = ReadECPoint(buf); err != nil {
+		return nil, err
+	}
+	if proof.ProofE, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
+	numTuples, err := wire.ReadVarInt(buf)
+	if err != nil {
+		return nil, err
+	}
+	if numTuples > uint64(buf.Len()) { // every tuple takes at least one byte
+		return nil, fmt.Errorf("NewRangeProofFromBytes: %d tuples in %d bytes", numTuples, buf.Len())
+	}
 	proof.ProofTuples = make([]rangeProofTuple, numTuples)
 	for i := uint64(0); i < numTuples; i++ {
 		proof.ProofTuples[i] = rangeProofTuple{}
-		proof.ProofTuples[i].C, _ = ReadECPoint(buf)
-		proof.ProofTuples[i].S, _ = ReadBigInt(buf)
+		if proof.ProofTuples[i].C, err = ReadECPoint(buf); err != nil {
+			return nil, err
+		}
+		if proof.ProofTuples[i].S, err = ReadBigInt(buf); err != nil {
+			return nil, err
+		}
 	}
 
 	return proof, nil
-- 
2.43.0


From d34b192d46517e7fd63c1376b6d2bb993943cd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:16 +0000
Subject: [PATCH 14/26] fix: the GSPFS challenge covers the base point

The protocol description hashes (G, xG, uG) but the base was left out.
As the proof itself carries the base, anybody could choose RandCommit
and HiddenValue freely and solve for a base that makes the proof verify
for any A.
---
 gspfs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gspfs.go b/gspfs.go
index 245cf02..1c1834e 100644
--- a/gspfs.go
+++ b/gspfs.go
@@ -59,7 +59,7 @@ func NewGSPFSProofBase(zkpcp ZKPCurveParams, base, A ECPoint, x *big.Int) (*GSPF
 	uG := zkpcp.Mult(base, u)
 
 	// generate hashed string challenge
-	c := GenerateChallenge(zkpcp, A.Bytes(), uG.Bytes())
+	c := GenerateChallenge(zkpcp, base.Bytes(), A.Bytes(), uG.Bytes())
 
 	// v = u - c * x
 	v := new(big.Int).Sub(u, new(big.Int).Mul(c, modValue))
@@ -76,7 +76,7 @@ func (proof *GSPFSProof) Verify(zkpcp ZKPCurveParams, A ECPoint) (bool, error) {
 	}
 
 	// A = xG and RandCommit = uG
-	testC := GenerateChallenge(zkpcp, A.Bytes(), proof.RandCommit.Bytes())
+	testC := GenerateChallenge(zkpcp, proof.Base.Bytes(), A.Bytes(), proof.RandCommit.Bytes())
 
 	if testC.Cmp(proof.Challenge) != 0 {
 		return false, &errorProof{"GSPFSProof.Verify", "calculated challenge and proof's challenge do not agree!"}
-- 
2.43.0


From 799ce087063b4f998dd96d99da680226cb2397de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:18 +0000
Subject: [PATCH 15/26] fix: signature parsing checks the lower bound of the
 length byte

A length byte below 6, or of 0xfe or 0xff (where adding 2 wraps around),
made parseSig index out of range.
---
 btcec/signature.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/btcec/signature.go b/btcec/signature.go
index 6026c42..4e7f92f 100644
--- a/btcec/signature.go
+++ b/btcec/signature.go
@@ -112,7 +112,8 @@ func parseSig(sigStr []byte, curve elliptic.Curve, der bool) (*Signature, error)
 	// length of remaining message
 	siglen := sigStr[index]
 	index++
-	if int(siglen+2) > len(sigStr) {
+	// A total below 8 includes the lengths that wrap around a byte.
+	if int(siglen+2) > len(sigStr) || int(siglen+2) < 8 {
 		return nil, errors.New("malformed signature: bad length")
 	}
 	// trim the slice we're working on so we only look at what matters.
-- 
2.43.0


From d096702a56eaa48c751dde75c3595a3bdc6b32cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:19 +0000
Subject: [PATCH 16/26] fix: RecoverCompact rejects signatures no key can have
 made

R = 0 dereferenced a nil inverse; an R that is no x coordinate of the
curve gave a key off the curve; S = 0, values from N upwards and a key
at infinity were accepted though no signature verifies with them.
---
 btcec/pubkey.go    | 6 ++++++
 btcec/signature.go | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/btcec/pubkey.go b/btcec/pubkey.go
index b749177..a7b7573 100644
--- a/btcec/pubkey.go
+++ b/btcec/pubkey.go
@@ -39,6 +39,12 @@ func decompressPoint(curve *KoblitzCurve, x *big.Int, ybit bool) (*big.Int, erro
 	// https://bitcointalk.org/index.php?topic=162805.msg1712294#msg1712294
 	y := new(big.Int).Exp(x3, curve.QPlus1Div4(), curve.Params().P)
 
+	// x^3 + B may have no square root at all
+	y2 := new(big.Int).Mul(y, y)
+	if y2.Sub(y2, x3).Mod(y2, curve.Params().P).Sign() != 0 {
+		return nil, fmt.Errorf("x is not the coordinate of a point on the curve")
+	}
+
 	if ybit != isOdd(y) {
 		y.Sub(curve.Params().P, y)
 	}
diff --git a/btcec/signature.go b/btcec/signature.go
index 4e7f92f..6bcd383 100644
--- a/btcec/signature.go
+++ b/btcec/signature.go
@@ -404,11 +404,18 @@ func RecoverCompact(curve *KoblitzCurve, signature,
 		R: new(big.Int).SetBytes(signature[1 : bitlen+1]),
 		S: new(big.Int).SetBytes(signature[bitlen+1:]),
 	}
+	if sig.R.Sign() == 0 || sig.S.Sign() == 0 ||
+		sig.R.Cmp(curve.N) >= 0 || sig.S.Cmp(curve.N) >= 0 {
+		return nil, false, errors.New("signature R and S must be between 1 and curve.N-1")
+	}
 	// The iteration used here was encoded
 	key, err := recoverKeyFromSignature(curve, sig, hash, iteration, false)
 	if err != nil {
 		return nil, false, err
 	}
+	if key.X.Sign() == 0 && key.Y.Sign() == 0 {
+		return nil, false, errors.New("recovered key is the point at infinity")
+	}
 
 	return key, ((signature[0] - 27) & 4) == 4, nil
 }
-- 
2.43.0


From 674471c2ad4de68d9faf0cf3dc379f76a1257f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:21 +0000
Subject: [PATCH 17/26] fix: Encrypt leaves the memory behind its input alone

The padding was appended in place when the input slice had spare
capacity, which overwrote the caller's bytes after it.
---
 btcec/ciphering.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/btcec/ciphering.go b/btcec/ciphering.go
index b18c9b7..d63ff27 100644
--- a/btcec/ciphering.go
+++ b/btcec/ciphering.go
@@ -201,7 +201,8 @@ func Decrypt(priv *PrivateKey, in []byte) ([]byte, error) {
 func addPKCSPadding(src []byte) []byte {
 	padding := aes.BlockSize - len(src)%aes.BlockSize
 	padtext := bytes.Repeat([]byte{byte(padding)}, padding)
-	return append(src, padtext...)
+	// append must not write behind src in the caller's array
+	return append(src[:len(src):len(src)], padtext...)
 }
 
 // removePKCSPadding removes padding from data that was added with addPKCSPadding
-- 
2.43.0


From 7bb7ecce202536343c2400102ea84147b50c0d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:18 +0000
Subject: [PATCH 18/26] fix: Mult works for curve parameters with their own G

Multiples of zkpcp.G were always computed as multiples of the curve's base
point, so parameters with another G got wrong results.
---
 crypto.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crypto.go b/crypto.go
index badea5f..484d012 100644
--- a/crypto.go
+++ b/crypto.go
@@ -98,7 +98,9 @@ func (zkpcp ZKPCurveParams) Mult(p ECPoint, s *big.Int) ECPoint {
 	// 	logStuff("Mult: Trying to multiple with zero-point!\n")
 	// 	return p
 	// } else
-	if p.Equal(zkpcp.G) {
+	// ScalarBaseMult multiplies the curve's own base point, which need not be G
+	base := ECPoint{zkpcp.C.Params().Gx, zkpcp.C.Params().Gy}
+	if p.Equal(zkpcp.G) && p.Equal(base) {
 		X, Y := zkpcp.C.ScalarBaseMult(modS.Bytes())
 		return ECPoint{X, Y}
 	}
-- 
2.43.0


From c6c41621c41bdbd3b090a39721d7ec4ced298231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:20 +0000
Subject: [PATCH 19/26] fix: range prover works for curve parameters with their
 own G

The digits' ring members were computed with the curve's base point instead
of zkpcp.G, so the proof of a value with a zero bit did not verify when the
two differ.
---
 rangeproof.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rangeproof.go b/rangeproof.go
index f4e02b7..b73371a 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -124,11 +124,11 @@ func proofGenB(zkpcp ZKPCurveParams,
 		em2 := new(big.Int).Mul(e0, m2)
 		em2.Mod(em2, zkpcp.C.Params().N)
 
-		rhsX, rhsY := zkpcp.C.ScalarBaseMult(em2.Bytes())
+		rhs := zkpcp.Mult(zkpcp.G, em2)
 
 		lhs := zkpcp.Mult(zkpcp.H, j)
 
-		totX, totY := zkpcp.C.Add(lhs.X, lhs.Y, rhsX, rhsY)
+		totX, totY := zkpcp.C.Add(lhs.X, lhs.Y, rhs.X, rhs.Y)
 
 		hash := sha256.Sum256(append(totX.Bytes(), totY.Bytes()...))
 		ei := new(big.Int).SetBytes(hash[:]) // get ei
-- 
2.43.0


From 9a3ab8a9b3fb253987b2cc3aabea8197316e7eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:28 +0000
Subject: [PATCH 20/26] fix: ParsePubKey refuses the format byte 0x05

---
 btcec/pubkey.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/btcec/pubkey.go b/btcec/pubkey.go
index a7b7573..01c25f1 100644
--- a/btcec/pubkey.go
+++ b/btcec/pubkey.go
@@ -91,6 +91,12 @@ func ParsePubKey(pubKeyStr []byte, curve *KoblitzCurve) (key *PublicKey, err err
 				"%d", pubKeyStr[0])
 		}
 
+		// 0x05 is not a format: uncompressed keys state no oddness.
+		if format == pubkeyUncompressed && ybit {
+			return nil, fmt.Errorf("invalid magic in pubkey str: "+
+				"%d", pubKeyStr[0])
+		}
+
 		pubkey.X = new(big.Int).SetBytes(pubKeyStr[1:33])
 		pubkey.Y = new(big.Int).SetBytes(pubKeyStr[33:])
 		// hybrid keys have extra information, make use of it.
-- 
2.43.0


From aed7de728f399f3d344d0958bef588e91a413b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:42 +0000
Subject: [PATCH 21/26] fix: the range verifier refuses entries that are not on
 the curve

The addition formulas do not use the curve's constant, so two entries off the
curve with orders 2 and 3 could be chosen to add up to any commitment, and a
proof for a commitment to -1 was accepted. On curves of crypto/elliptic such an
entry crashed the process.
---
 crypto.go     | 13 +++++++++++++
 rangeproof.go |  4 ++++
 2 files changed, 17 insertions(+)

diff --git a/crypto.go b/crypto.go
index 484d012..90374d7 100644
--- a/crypto.go
+++ b/crypto.go
@@ -85,6 +85,19 @@ func (p ECPoint) Equal(p2 ECPoint) bool {
 	return false
 }
 
+// arePoints returns true if each of the passed points is the point at infinity or lies on the curve
+func (zkpcp ZKPCurveParams) arePoints(points ...ECPoint) bool {
+	for _, p := range points {
+		if p.X == nil || p.Y == nil {
+			return false
+		}
+		if !p.Equal(Zero) && !zkpcp.C.IsOnCurve(p.X, p.Y) {
+			return false
+		}
+	}
+	return true
+}
+
 // Mult multiplies point p by scalar s and returns the resulting point
 func (zkpcp ZKPCurveParams) Mult(p ECPoint, s *big.Int) ECPoint {
 
diff --git a/rangeproof.go b/rangeproof.go
index b73371a..38da352 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -303,6 +303,10 @@ func (proof *RangeProof) Verify(zkpcp ZKPCurveParams, comm ECPoint) (bool, error
 			return false, &errorProof{"RangeProof.Verify", fmt.Sprintf("entry %d has nil scalar", i)}
 
 		}
+		// additions with a point off the curve have no meaning
+		if !zkpcp.arePoints(proof.ProofTuples[i].C) {
+			return false, &errorProof{"RangeProof.Verify", fmt.Sprintf("entry %d is not on the curve", i)}
+		}
 
 		// give proof to the verify gorouting
 		go verifyGen(zkpcp, i, proof.ProofE, proof.ProofTuples[i], resultBox)
-- 
2.43.0


From 5919a34e3c49ced944667ff8d36cfd15e16fd93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:43 +0000
Subject: [PATCH 22/26] fix: the other verifiers refuse points that are not on
 the curve

Proofs with a point off the curve were accepted where the addition formulas
happened to fit, and panicked on curves of crypto/elliptic.
---
 abc.go         | 4 ++++
 consistency.go | 4 ++++
 disjunctive.go | 4 ++++
 equivalence.go | 4 ++++
 gspfs.go       | 4 ++++
 5 files changed, 20 insertions(+)

diff --git a/abc.go b/abc.go
index f996795..9cbd095 100644
--- a/abc.go
+++ b/abc.go
@@ -182,6 +182,10 @@ func (aProof *ABCProof) Verify(zkpcp ZKPCurveParams, CM, CMTok ECPoint) (bool, e
 		return false, &errorProof{"ABCProof.Verify", "passed proof is nil"}
 	}
 
+	if !zkpcp.arePoints(CM, CMTok, aProof.B, aProof.C, aProof.T1, aProof.T2) {
+		return false, &errorProof{"ABCVerify", "not all points are on the curve"}
+	}
+
 	// Notes in ABCProof talk about why the Disjunc takes in this specific input even though it looks non-intuitive
 	// Here it is important that you subtract exactly 1 G from the aProof.C because that only allows for you to prove c = 1!
 	_, status := aProof.disjuncAC.Verify(zkpcp, CM, CMTok, zkpcp.H, zkpcp.Sub(aProof.C, zkpcp.G))
diff --git a/consistency.go b/consistency.go
index 64e8f90..2a64aa5 100644
--- a/consistency.go
+++ b/consistency.go
@@ -95,6 +95,10 @@ func (conProof *ConsistencyProof) Verify(
 		return false, &errorProof{"ConsistencyProof.Verify", fmt.Sprintf("passed proof is nil")}
 	}
 
+	if !zkpcp.arePoints(CM, CMTok, PubKey, conProof.T1, conProof.T2) {
+		return false, &errorProof{"ConsistencyVerify", "not all points are on the curve"}
+	}
+
 	// Regenerate challenge string
 	Challenge := GenerateChallenge(zkpcp, zkpcp.G.Bytes(), zkpcp.H.Bytes(),
 		CM.Bytes(), CMTok.Bytes(),
diff --git a/disjunctive.go b/disjunctive.go
index 0432434..74ec2b4 100644
--- a/disjunctive.go
+++ b/disjunctive.go
@@ -160,6 +160,10 @@ func (djProof *DisjunctiveProof) Verify(
 		return false, &errorProof{"DisjunctiveProof.Verify", fmt.Sprintf("passed proof is nil")}
 	}
 
+	if !zkpcp.arePoints(Base1, Result1, Base2, Result2, djProof.T1, djProof.T2) {
+		return false, &errorProof{"DisjunctiveVerify", "not all points are on the curve"}
+	}
+
 	T1 := djProof.T1
 	T2 := djProof.T2
 	C := djProof.C
diff --git a/equivalence.go b/equivalence.go
index c7786e0..69b7023 100644
--- a/equivalence.go
+++ b/equivalence.go
@@ -88,6 +88,10 @@ func (eqProof *EquivalenceProof) Verify(
 		return false, &errorProof{"EquivalenceVerify", fmt.Sprintf("passed proof is nil")}
 	}
 
+	if !zkpcp.arePoints(Base1, Result1, Base2, Result2, eqProof.UG, eqProof.UH) {
+		return false, &errorProof{"EquivalenceVerify", "not all points are on the curve"}
+	}
+
 	// Regenerate challenge string
 	c := GenerateChallenge(zkpcp, Base1.Bytes(), Result1.Bytes(),
 		Base2.Bytes(), Result2.Bytes(),
diff --git a/gspfs.go b/gspfs.go
index 1c1834e..f236b51 100644
--- a/gspfs.go
+++ b/gspfs.go
@@ -75,6 +75,10 @@ func (proof *GSPFSProof) Verify(zkpcp ZKPCurveParams, A ECPoint) (bool, error) {
 		return false, &errorProof{"GSPFSProof.Verify", fmt.Sprintf("passed proof is nil")}
 	}
 
+	if !zkpcp.arePoints(proof.Base, A, proof.RandCommit) {
+		return false, &errorProof{"GSPFSProof.Verify", "not all points are on the curve"}
+	}
+
 	// A = xG and RandCommit = uG
 	testC := GenerateChallenge(zkpcp, proof.Base.Bytes(), A.Bytes(), proof.RandCommit.Bytes())
 
-- 
2.43.0


From 0d4e4d90bbb1920283c94a119988b476910a77fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:40 +0000
Subject: [PATCH 23/26] fix: IsOnCurve refuses coordinates outside the field

Negative coordinates were taken by their magnitude, so the verifiers
accepted proofs with a coordinate negated, and coordinates of more than
32 bytes made them panic.
---
 btcec/btcec.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/btcec/btcec.go b/btcec/btcec.go
index 6212b1d..911b6db 100644
--- a/btcec/btcec.go
+++ b/btcec/btcec.go
@@ -112,6 +112,11 @@ func (curve *KoblitzCurve) fieldJacobianToBigAffine(x, y, z *fieldVal) (*big.Int
 // Part of the elliptic.Curve interface. This function differs from the
 // crypto/elliptic algorithm since a = 0 not -3.
 func (curve *KoblitzCurve) IsOnCurve(x, y *big.Int) bool {
+	// Coordinates outside the field do not name a point.
+	if x.Sign() < 0 || x.Cmp(curve.P) >= 0 || y.Sign() < 0 || y.Cmp(curve.P) >= 0 {
+		return false
+	}
+
 	// Convert big ints to field values for faster arithmetic.
 	fx, fy := curve.bigAffineToField(x, y)
 
-- 
2.43.0


From ff440d54dbce875efd2690de9c679aced1bc5b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:41 +0000
Subject: [PATCH 24/26] fix: SetByteSlice truncates long values as documented

It panicked on more than 32 bytes.
---
 btcec/field.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/btcec/field.go b/btcec/field.go
index 0f2be74..c8761a6 100644
--- a/btcec/field.go
+++ b/btcec/field.go
@@ -221,10 +221,11 @@ func (f *fieldVal) SetBytes(b *[32]byte) *fieldVal {
 // f := new(fieldVal).SetByteSlice(byteSlice)
 func (f *fieldVal) SetByteSlice(b []byte) *fieldVal {
 	var b32 [32]byte
+	if len(b) > 32 {
+		b = b[:32]
+	}
 	for i := 0; i < len(b); i++ {
-		if i < 32 {
-			b32[i+(32-len(b))] = b[i]
-		}
+		b32[i+(32-len(b))] = b[i]
 	}
 	return f.SetBytes(&b32)
 }
-- 
2.43.0


From 4aa1dd53bae12bacbae4ff88945576969373d855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:04 +0000
Subject: [PATCH 25/26] fix: go generate works while the generated tables are
 present

---
 btcec/genprecomps.go | 4 ++++
 btcec/secp256k1.go   | 2 ++
 btcec/secp256k1H.go  | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/btcec/genprecomps.go b/btcec/genprecomps.go
index efb1a6b..10ee722 100644
--- a/btcec/genprecomps.go
+++ b/btcec/genprecomps.go
@@ -63,6 +63,8 @@ func main() {
 	fmt.Fprintln(fi, "// Use of this source code is governed by an ISC")
 	fmt.Fprintln(fi, "// license that can be found in the LICENSE file.")
 	fmt.Fprintln(fi)
+	fmt.Fprintln(fi, "// +build !gensecp256k1")
+	fmt.Fprintln(fi)
 	fmt.Fprintln(fi, "package btcec")
 	fmt.Fprintln(fi)
 	fmt.Fprintln(fi, "// Auto-generated file (see genprecomps.go)")
@@ -84,6 +86,8 @@ func main() {
 	fmt.Fprintln(fi2, "// Use of this source code is governed by an ISC")
 	fmt.Fprintln(fi2, "// license that can be found in the LICENSE file.")
 	fmt.Fprintln(fi2)
+	fmt.Fprintln(fi2, "// +build !gensecp256k1")
+	fmt.Fprintln(fi2)
 	fmt.Fprintln(fi2, "package btcec")
 	fmt.Fprintln(fi2)
 	fmt.Fprintln(fi2, "// Auto-generated file (see genprecomps.go)")
diff --git a/btcec/secp256k1.go b/btcec/secp256k1.go
index 1b1b817..98a4877 100644
--- a/btcec/secp256k1.go
+++ b/btcec/secp256k1.go
@@ -2,6 +2,8 @@
 // Use of this source code is governed by an ISC
 // license that can be found in the LICENSE file.
 
+// +build !gensecp256k1
+
 package btcec
 
 // Auto-generated file (see genprecomps.go)
diff --git a/btcec/secp256k1H.go b/btcec/secp256k1H.go
index 372e4e6..7f8f2ee 100644
--- a/btcec/secp256k1H.go
+++ b/btcec/secp256k1H.go
@@ -2,6 +2,8 @@
 // Use of this source code is governed by an ISC
 // license that can be found in the LICENSE file.
 
+// +build !gensecp256k1
+
 package btcec
 
 // Auto-generated file (see genprecomps.go)
-- 
2.43.0


From 3ec5e3c1ce213dbd4fa7ed89b62e407e995fda64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:55 +0000
Subject: [PATCH 26/26] fix: points on curves with coordinates of more than 32
 bytes decode again

The coordinate limit of ReadECPoint is enforced since 1c95cc7; at 32 bytes it refused
every proof on P-384 and P-521.
---
 crypto.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crypto.go b/crypto.go
index 90374d7..9e9476c 100644
--- a/crypto.go
+++ b/crypto.go
@@ -181,13 +181,17 @@ func WriteECPoint(w io.Writer, p ECPoint) error {
 	return err
 }
 
+// maxCoordinateBytes is the most bytes ReadECPoint accepts for one coordinate: the
+// standard curves go up to P-521, whose coordinates take 66
+const maxCoordinateBytes = 128
+
 // ReadECPoint reads an ECPoint from io.Reader r
 func ReadECPoint(r io.Reader) (ECPoint, error) {
-	xBytes, err := wire.ReadVarBytes(r, 32, "x")
+	xBytes, err := wire.ReadVarBytes(r, maxCoordinateBytes, "x")
 	if err != nil {
 		return Zero, err
 	}
-	yBytes, err := wire.ReadVarBytes(r, 32, "y")
+	yBytes, err := wire.ReadVarBytes(r, maxCoordinateBytes, "y")
 	if err != nil {
 		return Zero, err
 	}
-- 
2.43.0

