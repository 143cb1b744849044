From eb5b211c1a34e9a8ec0bdf18fa2ee8e097339c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:02 +0000
Subject: [PATCH 01/17] fix: compare the other point's Y coordinate in
 ECPoint.Equal

---
 crypto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto.go b/crypto.go
index 26e8d07..a06b3e7 100644
--- a/crypto.go
+++ b/crypto.go
@@ -76,7 +76,7 @@ var Zero ECPoint // initialized in init()
 
 // Equal returns true if points p (self) and p2 (arg) are the same.
 func (p ECPoint) Equal(p2 ECPoint) bool {
-	if p.X.Cmp(p2.X) == 0 && p2.Y.Cmp(p2.Y) == 0 {
+	if p.X.Cmp(p2.X) == 0 && p.Y.Cmp(p2.Y) == 0 {
 		return true
 	}
 	return false
-- 
2.43.0


From 4d68a0ca2e9113606d8319f3e2c7e8a0834fe072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:27 +0000
Subject: [PATCH 02/17] fix: ABC prover panics on values that are zero modulo N
 and on keys without inverse

---
 abc.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/abc.go b/abc.go
index f39f5b5..bdd8641 100644
--- a/abc.go
+++ b/abc.go
@@ -62,6 +62,13 @@ func NewABCProof(zkpcp ZKPCurveParams, CM, CMTok ECPoint, value, sk *big.Int, op
 
 	// We cannot check that CM log is actually the value, but the verification should catch that
 
+	// the value only matters modulo the group order, and sk must be invertible
+	value = new(big.Int).Mod(value, zkpcp.C.Params().N)
+	isk := new(big.Int).ModInverse(sk, zkpcp.C.Params().N)
+	if isk == nil {
+		return &ABCProof{}, &errorProof{"ABCProof", "secret key has no inverse"}
+	}
+
 	u1, err := rand.Int(rand.Reader, zkpcp.C.Params().N)
 	if err != nil {
 		return nil, err
@@ -150,7 +157,6 @@ func NewABCProof(zkpcp ZKPCurveParams, CM, CMTok ECPoint, value, sk *big.Int, op
 
 	// k = u2 + inv(sk) * chal
 	// inv(sk)
-	isk := new(big.Int).ModInverse(sk, zkpcp.C.Params().N)
 	k := new(big.Int).Add(u2, new(big.Int).Mul(isk, Challenge))
 	k = new(big.Int).Mod(k, zkpcp.C.Params().N)
 
-- 
2.43.0


From 43ae410c035005a34110953f4cc8ec5542d3c11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:49 +0000
Subject: [PATCH 03/17] fix: bind the Schnorr challenge to the proof's base
 point

---
 gspfs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gspfs.go b/gspfs.go
index a0d27a3..3e93952 100644
--- a/gspfs.go
+++ b/gspfs.go
@@ -59,7 +59,7 @@ func NewGSPFSProofBase(zkpcp ZKPCurveParams, base, A ECPoint, x *big.Int) (*GSPF
 	uG := zkpcp.Mult(base, u)
 
 	// generate hashed string challenge
-	c := GenerateChallenge(zkpcp, A.Bytes(), uG.Bytes())
+	c := GenerateChallenge(zkpcp, base.Bytes(), A.Bytes(), uG.Bytes())
 
 	// v = u - c * x
 	v := new(big.Int).Sub(u, new(big.Int).Mul(c, modValue))
@@ -76,7 +76,7 @@ func (proof *GSPFSProof) Verify(zkpcp ZKPCurveParams, A ECPoint) (bool, error) {
 	}
 
 	// A = xG and RandCommit = uG
-	testC := GenerateChallenge(zkpcp, A.Bytes(), proof.RandCommit.Bytes())
+	testC := GenerateChallenge(zkpcp, proof.Base.Bytes(), A.Bytes(), proof.RandCommit.Bytes())
 
 	if testC.Cmp(proof.Challenge) != 0 {
 		return false, &errorProof{"GSPFSProof.Verify", "calculated challenge and proof's challenge do not agree!"}
-- 
2.43.0


From 5c8dbdeca80feeb790e893ed288ed87837219d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:23 +0000
Subject: [PATCH 04/17] fix: separate the hashed items of a challenge by their
 lengths

---
 crypto.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crypto.go b/crypto.go
index a06b3e7..a865f51 100644
--- a/crypto.go
+++ b/crypto.go
@@ -4,6 +4,7 @@ import (
 	"crypto/elliptic"
 	"crypto/rand"
 	"crypto/sha256"
+	"encoding/binary"
 	"flag"
 	"fmt"
 	"io"
@@ -250,10 +251,15 @@ func Open(zkpcp ZKPCurveParams, value, randomValue *big.Int, pcomm ECPoint) bool
 // ====== Generalized Hash Function =========
 
 // GenerateChallenge hashes the passed byte arrays using SHA-256, and then returns
-// the resulting hash as a big.Int modulo the order of the curve base point
+// the resulting hash as a big.Int modulo the order of the curve base point. Each
+// array is preceded by its length, so that different lists of arrays (such as one
+// point moved past an empty encoding of the identity) never hash the same bytes.
 func GenerateChallenge(zkpcp ZKPCurveParams, arr ...[]byte) *big.Int {
 	hasher := sha256.New()
 	for _, v := range arr {
+		var size [4]byte
+		binary.BigEndian.PutUint32(size[:], uint32(len(v)))
+		hasher.Write(size[:])
 		hasher.Write(v)
 	}
 	c := new(big.Int).SetBytes(hasher.Sum(nil))
-- 
2.43.0


From ca3e60b166583508ecd4e7ad7695dac43c9589b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:58 +0000
Subject: [PATCH 05/17] fix: reduce every proof scalar modulo the group order

---
 abc.go         | 1 +
 disjunctive.go | 1 +
 rangeproof.go  | 3 +++
 3 files changed, 5 insertions(+)

diff --git a/abc.go b/abc.go
index bdd8641..bbf5c28 100644
--- a/abc.go
+++ b/abc.go
@@ -163,6 +163,7 @@ func NewABCProof(zkpcp ZKPCurveParams, CM, CMTok ECPoint, value, sk *big.Int, op
 	// l = u3 + (uc - v * ub) * chal
 	temp1 := new(big.Int).Sub(uc, new(big.Int).Mul(value, ub))
 	l := new(big.Int).Add(u3, new(big.Int).Mul(temp1, Challenge))
+	l = new(big.Int).Mod(l, zkpcp.C.Params().N)
 
 	return &ABCProof{
 		B,
diff --git a/disjunctive.go b/disjunctive.go
index a9e1a87..c695f77 100644
--- a/disjunctive.go
+++ b/disjunctive.go
@@ -128,6 +128,7 @@ func NewDisjunctiveProof(
 	deltaC.Mod(deltaC, zkpcp.C.Params().N)
 
 	s := new(big.Int).Add(u1, new(big.Int).Mul(deltaC, modValue))
+	s.Mod(s, zkpcp.C.Params().N)
 
 	// Look at mapping given in block comment above
 	if option == Left {
diff --git a/rangeproof.go b/rangeproof.go
index 4d7da9c..bb57da9 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -132,6 +132,7 @@ func proofGenB(zkpcp ZKPCurveParams,
 		inverseEI := new(big.Int).ModInverse(ei, zkpcp.C.Params().N)
 
 		data.vScalars[idx] = new(big.Int).Mul(inverseEI, data.kScalars[idx])
+		data.vScalars[idx].Mod(data.vScalars[idx], zkpcp.C.Params().N)
 
 		// set the C point for this index to R* inv ei
 		data.Bpoints[idx] = zkpcp.Mult(data.Rpoints[idx], inverseEI)
@@ -146,6 +147,7 @@ func proofGenB(zkpcp ZKPCurveParams,
 		data.kScalars[idx] = new(big.Int).Add(
 			data.kScalars[idx], new(big.Int).Mul(e0, data.vScalars[idx]))
 	}
+	data.kScalars[idx].Mod(data.kScalars[idx], zkpcp.C.Params().N)
 
 	return nil
 }
@@ -215,6 +217,7 @@ func NewRangeProof(zkpcp ZKPCurveParams, value *big.Int) (*RangeProof, *big.Int,
 	for i := 0; i < proofSize; i++ {
 		//		add up to get vTotal scalar
 		vTotal.Add(vTotal, stuff.vScalars[i])
+		vTotal.Mod(vTotal, zkpcp.C.Params().N)
 
 		// add points to get AggregatePoint
 		AggregatePoint = zkpcp.Add(AggregatePoint, stuff.Bpoints[i])
-- 
2.43.0


From 90e04b1793ae725ed53db6cf329cebc4c40f2123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:59 +0000
Subject: [PATCH 06/17] fix: refuse a range proof for 2^40, which the proof's
 40 bits cannot represent

---
 rangeproof.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rangeproof.go b/rangeproof.go
index bb57da9..2c0ef43 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -160,8 +160,8 @@ func NewRangeProof(zkpcp ZKPCurveParams, value *big.Int) (*RangeProof, *big.Int,
 	// If our value is in range, then sum of commitments would equal original commitment
 	// else, because of truncation, it will be deemed out of range not be equal
 
-	if value.Cmp(big.NewInt(1099511627776)) == 1 {
-		return nil, nil, fmt.Errorf("val %s too big, can only prove up to 1099511627776\n", value.String())
+	if value.Cmp(big.NewInt(1099511627776)) != -1 {
+		return nil, nil, fmt.Errorf("val %s too big, can only prove values below 1099511627776\n", value.String())
 	}
 
 	proofSize := 40
-- 
2.43.0


From 5975cc05a4ef0469fef93bea31a8a58ed92cefde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:00 +0000
Subject: [PATCH 07/17] fix: report errors of the range prover's goroutines

---
 rangeproof.go | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/rangeproof.go b/rangeproof.go
index 2c0ef43..830cd3f 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -46,12 +46,11 @@ type proverInternalData struct {
 	vScalars []*big.Int
 }
 
-// proofGenA takes in a waitgroup, index and bit
+// proofGenA takes in an index and bit
 // returns an Rpoint and Cpoint, and the k value bigint
 func proofGenA(zkpcp ZKPCurveParams,
-	wg *sync.WaitGroup, idx int, bit bool, s *proverInternalData) error {
+	idx int, bit bool, s *proverInternalData) error {
 
-	defer wg.Done()
 	var err error
 
 	//	R := s.Rpoints[idx]
@@ -101,11 +100,9 @@ func proofGenA(zkpcp ZKPCurveParams,
 	return nil
 }
 
-// proofGenB takes waitgroup, index, bit, along with the data to operate on
+// proofGenB takes index, bit, along with the data to operate on
 func proofGenB(zkpcp ZKPCurveParams,
-	wg *sync.WaitGroup, idx int, bit bool, e0 *big.Int, data *proverInternalData) error {
-
-	defer wg.Done()
+	idx int, bit bool, e0 *big.Int, data *proverInternalData) error {
 
 	if !bit {
 		// choose a random value from the integers mod prime
@@ -130,6 +127,9 @@ func proofGenB(zkpcp ZKPCurveParams,
 		ei.Mod(ei, zkpcp.C.Params().N)
 
 		inverseEI := new(big.Int).ModInverse(ei, zkpcp.C.Params().N)
+		if inverseEI == nil {
+			return &errorProof{"NewRangeProof", "hash has no inverse"}
+		}
 
 		data.vScalars[idx] = new(big.Int).Mul(inverseEI, data.kScalars[idx])
 		data.vScalars[idx].Mod(data.vScalars[idx], zkpcp.C.Params().N)
@@ -183,12 +183,20 @@ func NewRangeProof(zkpcp ZKPCurveParams, value *big.Int) (*RangeProof, *big.Int,
 
 	//	 do the loop bValue times
 	var wg sync.WaitGroup
+	errs := make([]error, proofSize)
 	wg.Add(proofSize)
 	for i := 0; i < proofSize; i++ {
-		// TODO: Check errors
-		go proofGenA(zkpcp, &wg, i, value.Bit(i) == 1, stuff)
+		go func(i int) {
+			defer wg.Done()
+			errs[i] = proofGenA(zkpcp, i, value.Bit(i) == 1, stuff)
+		}(i)
 	}
 	wg.Wait()
+	for _, err := range errs {
+		if err != nil {
+			return nil, nil, err
+		}
+	}
 
 	// hash concat of all R values
 	rHash := sha256.New()
@@ -208,11 +216,17 @@ func NewRangeProof(zkpcp ZKPCurveParams, value *big.Int) (*RangeProof, *big.Int,
 	// go through all 64 part B
 	wg.Add(proofSize)
 	for i := 0; i < proofSize; i++ {
-		// TODO: Check errors
-		go proofGenB(zkpcp,
-			&wg, i, value.Bit(i) == 1, e0, stuff)
+		go func(i int) {
+			defer wg.Done()
+			errs[i] = proofGenB(zkpcp, i, value.Bit(i) == 1, e0, stuff)
+		}(i)
 	}
 	wg.Wait()
+	for _, err := range errs {
+		if err != nil {
+			return nil, nil, err
+		}
+	}
 
 	for i := 0; i < proofSize; i++ {
 		//		add up to get vTotal scalar
-- 
2.43.0


From 6e5ad84b3b90bfcf577de9fe6939db830febe5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:01 +0000
Subject: [PATCH 08/17] fix: reduce the recomputed range proof challenge like
 the prover does

---
 rangeproof.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rangeproof.go b/rangeproof.go
index 830cd3f..3349d9a 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -321,9 +321,10 @@ func (proof *RangeProof) Verify(zkpcp ZKPCurveParams, comm ECPoint) (bool, error
 		rHash.Write(rpoint.X.Bytes())
 		rHash.Write(rpoint.Y.Bytes())
 	}
-	calculatedE0 := rHash.Sum(nil)
+	calculatedE0 := new(big.Int).SetBytes(rHash.Sum(nil))
+	calculatedE0.Mod(calculatedE0, zkpcp.C.Params().N)
 
-	if proof.ProofE.Cmp(new(big.Int).SetBytes(calculatedE0[:])) != 0 {
+	if proof.ProofE.Cmp(calculatedE0) != 0 {
 		return false, &errorProof{"RangeProof.Verify", fmt.Sprintf("calculatedE0 does not match")}
 	}
 
-- 
2.43.0


From db8f0f781cb4f8bbbf2bc49b80017538da93d389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:58 +0000
Subject: [PATCH 09/17] fix: verifiers reject incomplete proofs instead of
 crashing

---
 abc.go         |  9 +++++++++
 consistency.go |  4 ++++
 crypto.go      | 15 +++++++++++++++
 disjunctive.go |  4 ++++
 equivalence.go |  4 ++++
 gspfs.go       |  4 ++++
 rangeproof.go  | 24 +++++++++++++++---------
 7 files changed, 55 insertions(+), 9 deletions(-)

diff --git a/abc.go b/abc.go
index bbf5c28..f13d1f4 100644
--- a/abc.go
+++ b/abc.go
@@ -179,6 +179,15 @@ func NewABCProof(zkpcp ZKPCurveParams, CM, CMTok ECPoint, value, sk *big.Int, op
 // Verify checks if ABCProof aProof with appropriate commits CM and CMTok is correct
 func (aProof *ABCProof) Verify(zkpcp ZKPCurveParams, CM, CMTok ECPoint) (bool, error) {
 
+	if aProof == nil {
+		return false, &errorProof{"ABCVerify", "passed proof is nil"}
+	}
+
+	if !complete([]ECPoint{aProof.B, aProof.C, aProof.T1, aProof.T2, aProof.CToken},
+		aProof.Challenge, aProof.j, aProof.k, aProof.l) {
+		return false, &errorProof{"ABCVerify", "passed proof is incomplete"}
+	}
+
 	// Notes in ABCProof talk about why the Disjunc takes in this specific input even though it looks non-intuitive
 	// Here it is important that you subtract exactly 1 G from the aProof.C because that only allows for you to prove c = 1!
 	_, status := aProof.disjuncAC.Verify(zkpcp, CM, CMTok, zkpcp.H, zkpcp.Sub(aProof.C, zkpcp.G))
diff --git a/consistency.go b/consistency.go
index f7a5b08..54d1862 100644
--- a/consistency.go
+++ b/consistency.go
@@ -95,6 +95,10 @@ func (conProof *ConsistencyProof) Verify(
 		return false, &errorProof{"ConsistencyProof.Verify", fmt.Sprintf("passed proof is nil")}
 	}
 
+	if !complete([]ECPoint{conProof.T1, conProof.T2}, conProof.Challenge, conProof.S1, conProof.S2) {
+		return false, &errorProof{"ConsistencyProof.Verify", "passed proof is incomplete"}
+	}
+
 	// Regenerate challenge string
 	Challenge := GenerateChallenge(zkpcp, zkpcp.G.Bytes(), zkpcp.H.Bytes(),
 		CM.Bytes(), CMTok.Bytes(),
diff --git a/crypto.go b/crypto.go
index a865f51..e72a854 100644
--- a/crypto.go
+++ b/crypto.go
@@ -83,6 +83,21 @@ func (p ECPoint) Equal(p2 ECPoint) bool {
 	return false
 }
 
+// complete returns true if no coordinate of the points and no scalar is missing.
+func complete(points []ECPoint, scalars ...*big.Int) bool {
+	for _, p := range points {
+		if p.X == nil || p.Y == nil {
+			return false
+		}
+	}
+	for _, s := range scalars {
+		if s == nil {
+			return false
+		}
+	}
+	return true
+}
+
 // Mult multiplies point p by scalar s and returns the resulting point
 func (zkpcp ZKPCurveParams) Mult(p ECPoint, s *big.Int) ECPoint {
 
diff --git a/disjunctive.go b/disjunctive.go
index c695f77..4f4ea64 100644
--- a/disjunctive.go
+++ b/disjunctive.go
@@ -168,6 +168,10 @@ func (djProof *DisjunctiveProof) Verify(
 	S1 := djProof.S1
 	S2 := djProof.S2
 
+	if !complete([]ECPoint{T1, T2}, C, C1, C2, S1, S2) {
+		return false, &errorProof{"DisjunctiveProof.Verify", "passed proof is incomplete"}
+	}
+
 	checkC := GenerateChallenge(zkpcp, Base1.Bytes(), Result1.Bytes(),
 		Base2.Bytes(), Result2.Bytes(),
 		T1.Bytes(), T2.Bytes())
diff --git a/equivalence.go b/equivalence.go
index d56fdef..f2a8607 100644
--- a/equivalence.go
+++ b/equivalence.go
@@ -88,6 +88,10 @@ func (eqProof *EquivalenceProof) Verify(
 		return false, &errorProof{"EquivalenceVerify", fmt.Sprintf("passed proof is nil")}
 	}
 
+	if !complete([]ECPoint{eqProof.UG, eqProof.UH}, eqProof.Challenge, eqProof.HiddenValue) {
+		return false, &errorProof{"EquivalenceVerify", "passed proof is incomplete"}
+	}
+
 	// Regenerate challenge string
 	c := GenerateChallenge(zkpcp, Base1.Bytes(), Result1.Bytes(),
 		Base2.Bytes(), Result2.Bytes(),
diff --git a/gspfs.go b/gspfs.go
index 3e93952..198ecdb 100644
--- a/gspfs.go
+++ b/gspfs.go
@@ -75,6 +75,10 @@ func (proof *GSPFSProof) Verify(zkpcp ZKPCurveParams, A ECPoint) (bool, error) {
 		return false, &errorProof{"GSPFSProof.Verify", fmt.Sprintf("passed proof is nil")}
 	}
 
+	if !complete([]ECPoint{proof.Base, proof.RandCommit}, proof.HiddenValue, proof.Challenge) {
+		return false, &errorProof{"GSPFSProof.Verify", "passed proof is incomplete"}
+	}
+
 	// A = xG and RandCommit = uG
 	testC := GenerateChallenge(zkpcp, proof.Base.Bytes(), A.Bytes(), proof.RandCommit.Bytes())
 
diff --git a/rangeproof.go b/rangeproof.go
index 3349d9a..a631d7f 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -285,6 +285,21 @@ func (proof *RangeProof) Verify(zkpcp ZKPCurveParams, comm ECPoint) (bool, error
 
 	proofLength := len(proofs)
 
+	if !complete([]ECPoint{proof.ProofAggregate}, proof.ProofE) {
+		return false, &errorProof{"RangeProof.Verify", "passed proof is incomplete"}
+	}
+
+	if proofLength > len(zkpcp.HPoints) {
+		return false, &errorProof{"RangeProof.Verify", "passed proof has too many entries"}
+	}
+
+	// check that proofs are non-nil before any of them is verified
+	for i, t := range proofs {
+		if !complete([]ECPoint{t.C}, t.S) {
+			return false, &errorProof{"RangeProof.Verify", fmt.Sprintf("entry %d is incomplete", i)}
+		}
+	}
+
 	Rpoints := make([]ECPoint, len(proofs))
 
 	totalPoint := ECPoint{big.NewInt(0), big.NewInt(0)}
@@ -292,15 +307,6 @@ func (proof *RangeProof) Verify(zkpcp ZKPCurveParams, comm ECPoint) (bool, error
 	resultBox := make(chan verifyTuple, 10) // doubt we'll use even 1
 
 	for i := 0; i < proofLength; i++ {
-		// check that proofs are non-nil
-		if proof.ProofTuples[i].C.X == nil {
-			return false, &errorProof{"RangeProof.Verify", fmt.Sprintf("entry %d has nil point", i)}
-		}
-		if proof.ProofTuples[i].S == nil {
-			return false, &errorProof{"RangeProof.Verify", fmt.Sprintf("entry %d has nil scalar", i)}
-
-		}
-
 		// give proof to the verify gorouting
 		go verifyGen(zkpcp, i, proof.ProofE, proof.ProofTuples[i], resultBox)
 	}
-- 
2.43.0


From 00c8f831df6b7291f43156c024e49f9b8195e355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:17 +0000
Subject: [PATCH 10/17] fix: ReadVarBytes honours its limit; ReadBigInt rejects
 an empty payload and reads what WriteBigInt writes

---
 crypto.go      | 12 +++++++++++-
 wire/common.go |  6 ++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/crypto.go b/crypto.go
index e72a854..3b95f0b 100644
--- a/crypto.go
+++ b/crypto.go
@@ -191,8 +191,15 @@ func ReadECPoint(r io.Reader) (ECPoint, error) {
 	return ECPoint{X: big.NewInt(0).SetBytes(xBytes), Y: big.NewInt(0).SetBytes(yBytes)}, nil
 }
 
+// maxBigIntSize is the largest number of bytes, including the sign byte, a
+// serialized big.Int can take
+const maxBigIntSize = 4096
+
 // WriteBigInt write a big.Int to io.Writer w
 func WriteBigInt(w io.Writer, b *big.Int) error {
+	if (b.BitLen()+7)/8 >= maxBigIntSize {
+		return fmt.Errorf("WriteBigInt: number of %d bits is too large", b.BitLen())
+	}
 	neg := []byte{0x00}
 	if b.Sign() < 0 {
 		neg = []byte{0x01}
@@ -203,10 +210,13 @@ func WriteBigInt(w io.Writer, b *big.Int) error {
 
 // ReadBigInt reads a big.Int from io.Reader r
 func ReadBigInt(r io.Reader) (*big.Int, error) {
-	bBytes, err := wire.ReadVarBytes(r, 32, "")
+	bBytes, err := wire.ReadVarBytes(r, maxBigIntSize, "big int")
 	if err != nil {
 		return nil, err
 	}
+	if len(bBytes) == 0 {
+		return nil, fmt.Errorf("ReadBigInt: sign byte is missing")
+	}
 	newInt := big.NewInt(0).SetBytes(bBytes[1:])
 	if bBytes[0] == 0x01 {
 		newInt.Neg(newInt)
diff --git a/wire/common.go b/wire/common.go
index 94db5cb..81819c3 100644
--- a/wire/common.go
+++ b/wire/common.go
@@ -294,6 +294,12 @@ func ReadVarBytes(r io.Reader, maxAllowed uint32,
 		return nil, err
 	}
 
+	// Prevent byte array larger than the max allowed.
+	if count > uint64(maxAllowed) {
+		return nil, fmt.Errorf("%s: %s is larger than the max allowed size [count %d, max %d]",
+			"ReadVarBytes", fieldName, count, maxAllowed)
+	}
+
 	b := make([]byte, count)
 	_, err = io.ReadFull(r, b)
 	if err != nil {
-- 
2.43.0


From 2d2148b933f8f338fc8ac67bd293a2012f83f27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:17 +0000
Subject: [PATCH 11/17] fix: report errors when decoding proofs instead of
 returning incomplete ones

---
 consistency.go | 21 ++++++++++++++++-----
 disjunctive.go | 29 ++++++++++++++++++++++-------
 equivalence.go | 17 +++++++++++++----
 gspfs.go       | 17 +++++++++++++----
 rangeproof.go  | 26 +++++++++++++++++++++-----
 5 files changed, 85 insertions(+), 25 deletions(-)

diff --git a/consistency.go b/consistency.go
index 54d1862..a8a749c 100644
--- a/consistency.go
+++ b/consistency.go
@@ -154,10 +154,21 @@ func (proof *ConsistencyProof) Bytes() []byte {
 func NewConsistencyProofFromBytes(b []byte) (*ConsistencyProof, error) {
 	proof := new(ConsistencyProof)
 	buf := bytes.NewBuffer(b)
-	proof.T1, _ = ReadECPoint(buf)
-	proof.T2, _ = ReadECPoint(buf)
-	proof.Challenge, _ = ReadBigInt(buf)
-	proof.S1, _ = ReadBigInt(buf)
-	proof.S2, _ = ReadBigInt(buf)
+	var err error
+	if proof.T1, err = ReadECPoint(buf); err != nil {
+		return nil, err
+	}
+	if proof.T2, err = ReadECPoint(buf); err != nil {
+		return nil, err
+	}
+	if proof.Challenge, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
+	if proof.S1, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
+	if proof.S2, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
 	return proof, nil
 }
diff --git a/disjunctive.go b/disjunctive.go
index 4f4ea64..4da06ef 100644
--- a/disjunctive.go
+++ b/disjunctive.go
@@ -228,12 +228,27 @@ func (djProof *DisjunctiveProof) Bytes() []byte {
 func NewDisjunctiveProofFromBytes(b []byte) (*DisjunctiveProof, error) {
 	proof := new(DisjunctiveProof)
 	buf := bytes.NewBuffer(b)
-	proof.T1, _ = ReadECPoint(buf)
-	proof.T2, _ = ReadECPoint(buf)
-	proof.C, _ = ReadBigInt(buf)
-	proof.C1, _ = ReadBigInt(buf)
-	proof.C2, _ = ReadBigInt(buf)
-	proof.S1, _ = ReadBigInt(buf)
-	proof.S2, _ = ReadBigInt(buf)
+	var err error
+	if proof.T1, err = ReadECPoint(buf); err != nil {
+		return nil, err
+	}
+	if proof.T2, err = ReadECPoint(buf); err != nil {
+		return nil, err
+	}
+	if proof.C, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
+	if proof.C1, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
+	if proof.C2, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
+	if proof.S1, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
+	if proof.S2, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
 	return proof, nil
 }
diff --git a/equivalence.go b/equivalence.go
index f2a8607..8e4ea98 100644
--- a/equivalence.go
+++ b/equivalence.go
@@ -142,9 +142,18 @@ func (proof *EquivalenceProof) Bytes() []byte {
 func NewEquivalenceProofFromBytes(b []byte) (*EquivalenceProof, error) {
 	proof := new(EquivalenceProof)
 	buf := bytes.NewBuffer(b)
-	proof.UG, _ = ReadECPoint(buf)
-	proof.UH, _ = ReadECPoint(buf)
-	proof.Challenge, _ = ReadBigInt(buf)
-	proof.HiddenValue, _ = ReadBigInt(buf)
+	var err error
+	if proof.UG, err = ReadECPoint(buf); err != nil {
+		return nil, err
+	}
+	if proof.UH, err = ReadECPoint(buf); err != nil {
+		return nil, err
+	}
+	if proof.Challenge, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
+	if proof.HiddenValue, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
 	return proof, nil
 }
diff --git a/gspfs.go b/gspfs.go
index 198ecdb..31160e8 100644
--- a/gspfs.go
+++ b/gspfs.go
@@ -118,9 +118,18 @@ func (proof *GSPFSProof) Bytes() []byte {
 func NewGSPFSProofFromBytes(b []byte) (*GSPFSProof, error) {
 	proof := new(GSPFSProof)
 	buf := bytes.NewBuffer(b)
-	proof.Base, _ = ReadECPoint(buf)
-	proof.RandCommit, _ = ReadECPoint(buf)
-	proof.HiddenValue, _ = ReadBigInt(buf)
-	proof.Challenge, _ = ReadBigInt(buf)
+	var err error
+	if proof.Base, err = ReadECPoint(buf); err != nil {
+		return nil, err
+	}
+	if proof.RandCommit, err = ReadECPoint(buf); err != nil {
+		return nil, err
+	}
+	if proof.HiddenValue, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
+	if proof.Challenge, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
 	return proof, nil
 }
diff --git a/rangeproof.go b/rangeproof.go
index a631d7f..205e594 100644
--- a/rangeproof.go
+++ b/rangeproof.go
@@ -366,14 +366,30 @@ func NewRangeProofFromBytes(b []byte) (*RangeProof, error) {
 	proof := new(RangeProof)
 	buf := bytes.NewBuffer(b)
 
-	proof.ProofAggregate, _ = ReadECPoint(buf)
-	proof.ProofE, _ = ReadBigInt(buf)
-	numTuples, _ := wire.ReadVarInt(buf)
+	var err error
+	if proof.ProofAggregate, err = ReadECPoint(buf); err != nil {
+		return nil, err
+	}
+	if proof.ProofE, err = ReadBigInt(buf); err != nil {
+		return nil, err
+	}
+	numTuples, err := wire.ReadVarInt(buf)
+	if err != nil {
+		return nil, err
+	}
+	// every tuple takes at least four bytes
+	if numTuples > uint64(buf.Len()/4) {
+		return nil, &errorProof{"NewRangeProofFromBytes", "number of entries exceeds the input"}
+	}
 	proof.ProofTuples = make([]rangeProofTuple, numTuples)
 	for i := uint64(0); i < numTuples; i++ {
 		proof.ProofTuples[i] = rangeProofTuple{}
-		proof.ProofTuples[i].C, _ = ReadECPoint(buf)
-		proof.ProofTuples[i].S, _ = ReadBigInt(buf)
+		if proof.ProofTuples[i].C, err = ReadECPoint(buf); err != nil {
+			return nil, err
+		}
+		if proof.ProofTuples[i].S, err = ReadBigInt(buf); err != nil {
+			return nil, err
+		}
 	}
 
 	return proof, nil
-- 
2.43.0


From a11eed1bd9b8eccb2c7159346a7e1b2790316921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:30 +0000
Subject: [PATCH 12/17] fix: field values load the first 32 bytes of a longer
 slice instead of panicking

---
 btcec/field.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/btcec/field.go b/btcec/field.go
index 0f2be74..6c6ec7f 100644
--- a/btcec/field.go
+++ b/btcec/field.go
@@ -220,6 +220,9 @@ func (f *fieldVal) SetBytes(b *[32]byte) *fieldVal {
 // The field value is returned to support chaining.  This enables syntax like:
 // f := new(fieldVal).SetByteSlice(byteSlice)
 func (f *fieldVal) SetByteSlice(b []byte) *fieldVal {
+	if len(b) > 32 {
+		b = b[:32]
+	}
 	var b32 [32]byte
 	for i := 0; i < len(b); i++ {
 		if i < 32 {
-- 
2.43.0


From f565091cc1f8e7d0aaf7472e62009eed43d291a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:17 +0000
Subject: [PATCH 13/17] fix: reject signatures whose length byte is too small
 or wraps around

parseSig computed siglen+2 in a byte, so 254 and 255 wrapped to 0 and 1, and
any length below 6 left too little to parse: both ended in an index out of
range panic.
---
 btcec/signature.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/btcec/signature.go b/btcec/signature.go
index 6026c42..0c745a3 100644
--- a/btcec/signature.go
+++ b/btcec/signature.go
@@ -112,11 +112,11 @@ func parseSig(sigStr []byte, curve elliptic.Curve, der bool) (*Signature, error)
 	// length of remaining message
 	siglen := sigStr[index]
 	index++
-	if int(siglen+2) > len(sigStr) {
+	if int(siglen)+2 > len(sigStr) || int(siglen)+2 < 8 {
 		return nil, errors.New("malformed signature: bad length")
 	}
 	// trim the slice we're working on so we only look at what matters.
-	sigStr = sigStr[:siglen+2]
+	sigStr = sigStr[:int(siglen)+2]
 
 	// 0x02
 	if sigStr[index] != 0x02 {
-- 
2.43.0


From f16cbd15748ff1efd7079cc63d1b655b57cf2e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:22 +0000
Subject: [PATCH 14/17] fix: reject uncompressed public keys with the format
 byte 0x05

ParsePubKey dropped the lowest bit of the format byte and then ignored it for
the uncompressed format, so a 65-byte key starting with 5 was accepted.
---
 btcec/pubkey.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/btcec/pubkey.go b/btcec/pubkey.go
index b749177..8709fac 100644
--- a/btcec/pubkey.go
+++ b/btcec/pubkey.go
@@ -84,6 +84,11 @@ func ParsePubKey(pubKeyStr []byte, curve *KoblitzCurve) (key *PublicKey, err err
 			return nil, fmt.Errorf("invalid magic in pubkey str: "+
 				"%d", pubKeyStr[0])
 		}
+		// only the hybrid format has a y bit.
+		if format == pubkeyUncompressed && ybit {
+			return nil, fmt.Errorf("invalid magic in pubkey str: "+
+				"%d", pubKeyStr[0])
+		}
 
 		pubkey.X = new(big.Int).SetBytes(pubKeyStr[1:33])
 		pubkey.Y = new(big.Int).SetBytes(pubKeyStr[33:])
-- 
2.43.0


From 87b2ade4dffc21284105da050f75fb8eda52f7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:34 +0000
Subject: [PATCH 15/17] fix: recovering a key refuses r, s out of range, x off
 the curve and the infinite key

---
 btcec/pubkey.go    | 6 ++++++
 btcec/signature.go | 9 +++++++++
 2 files changed, 15 insertions(+)

diff --git a/btcec/pubkey.go b/btcec/pubkey.go
index 8709fac..d22b282 100644
--- a/btcec/pubkey.go
+++ b/btcec/pubkey.go
@@ -39,6 +39,12 @@ func decompressPoint(curve *KoblitzCurve, x *big.Int, ybit bool) (*big.Int, erro
 	// https://bitcointalk.org/index.php?topic=162805.msg1712294#msg1712294
 	y := new(big.Int).Exp(x3, curve.QPlus1Div4(), curve.Params().P)
 
+	// The result is a square root only if x3 has one.
+	y2 := new(big.Int).Mul(y, y)
+	if y2.Sub(y2, x3).Mod(y2, curve.Params().P).Sign() != 0 {
+		return nil, errors.New("x is not the coordinate of a point on the curve")
+	}
+
 	if ybit != isOdd(y) {
 		y.Sub(curve.Params().P, y)
 	}
diff --git a/btcec/signature.go b/btcec/signature.go
index 0c745a3..abf12ac 100644
--- a/btcec/signature.go
+++ b/btcec/signature.go
@@ -278,6 +278,12 @@ func hashToInt(hash []byte, c elliptic.Curve) *big.Int {
 // format and thus we match bitcoind's behaviour here.
 func recoverKeyFromSignature(curve *KoblitzCurve, sig *Signature, msg []byte,
 	iter int, doChecks bool) (*PublicKey, error) {
+	// r and s of a valid signature are in [1, N-1].
+	if sig.R.Sign() != 1 || sig.R.Cmp(curve.Params().N) >= 0 ||
+		sig.S.Sign() != 1 || sig.S.Cmp(curve.Params().N) >= 0 {
+		return nil, errors.New("signature R or S is out of range")
+	}
+
 	// 1.1 x = (n * i) + r
 	Rx := new(big.Int).Mul(curve.Params().N,
 		new(big.Int).SetInt64(int64(iter/2)))
@@ -327,6 +333,9 @@ func recoverKeyFromSignature(curve *KoblitzCurve, sig *Signature, msg []byte,
 	// TODO: this would be faster if we did a mult and add in one
 	// step to prevent the jacobian conversion back and forth.
 	Qx, Qy := curve.Add(sRx, sRy, minuseGx, minuseGy)
+	if Qx.Sign() == 0 && Qy.Sign() == 0 {
+		return nil, errors.New("recovered key is the point at infinity")
+	}
 
 	return &PublicKey{
 		Curve: curve,
-- 
2.43.0


From cf666bca73eae7978c147b4563654a3f202dcbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:07 +0000
Subject: [PATCH 16/17] fix: encrypting does not write into the caller's buffer

---
 btcec/ciphering.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/btcec/ciphering.go b/btcec/ciphering.go
index b18c9b7..a23d74a 100644
--- a/btcec/ciphering.go
+++ b/btcec/ciphering.go
@@ -201,7 +201,7 @@ func Decrypt(priv *PrivateKey, in []byte) ([]byte, error) {
 func addPKCSPadding(src []byte) []byte {
 	padding := aes.BlockSize - len(src)%aes.BlockSize
 	padtext := bytes.Repeat([]byte{byte(padding)}, padding)
-	return append(src, padtext...)
+	return append(src[:len(src):len(src)], padtext...)
 }
 
 // removePKCSPadding removes padding from data that was added with addPKCSPadding
-- 
2.43.0


From fbacf0a6eb02c2fb22fef4639c263ab4db300008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:09 +0000
Subject: [PATCH 17/17] fix: multiples of H are those of the point named H

Mult looked up multiples of a point that is not TestCurve.H whenever it was
given H, so that 1*H was not H, and did so for parameters with any other H.
H is now the point of the table, and the table is used for that point only.
---
 crypto.go  |  5 +++--
 zksigma.go | 11 ++++++-----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/crypto.go b/crypto.go
index 3b95f0b..f6b5cbc 100644
--- a/crypto.go
+++ b/crypto.go
@@ -116,8 +116,9 @@ func (zkpcp ZKPCurveParams) Mult(p ECPoint, s *big.Int) ECPoint {
 		return ECPoint{X, Y}
 	}
 
-	if p.Equal(zkpcp.H) {
-		X, Y := zkpcp.C.(*btcec.KoblitzCurve).ScalarBaseMultH(modS.Bytes())
+	// The table belongs to one H, parameters may have another.
+	if curve, ok := zkpcp.C.(*btcec.KoblitzCurve); ok && p.Equal(tableH) {
+		X, Y := curve.ScalarBaseMultH(modS.Bytes())
 		return ECPoint{X, Y}
 	}
 
diff --git a/zksigma.go b/zksigma.go
index 77ec75e..2466e34 100644
--- a/zksigma.go
+++ b/zksigma.go
@@ -16,7 +16,6 @@ More info on Github
 package zksigma
 
 import (
-	"crypto/sha256"
 	"math/big"
 
 	"github.com/mit-dci/zksigma/btcec"
@@ -37,6 +36,9 @@ const (
 // passed into the proof functions. We just test with the same params that ZKLedger uses.
 var TestCurve ZKPCurveParams
 
+// tableH is the point whose multiples ScalarBaseMultH looks up.
+var tableH ECPoint
+
 func generateH2tothe() []ECPoint {
 	Hslice := make([]ECPoint, 64)
 	for i := range Hslice {
@@ -47,13 +49,12 @@ func generateH2tothe() []ECPoint {
 }
 
 func init() {
-	s256 := sha256.New()
-	hashedString := s256.Sum([]byte("This is the new random point in zksigma"))
-	HX, HY := btcec.S256().ScalarMult(btcec.S256().Gx, btcec.S256().Gy, hashedString)
+	HX, HY := btcec.S256().ScalarBaseMultH([]byte{1})
+	tableH = ECPoint{HX, HY}
 	TestCurve = ZKPCurveParams{
 		C: btcec.S256(),
 		G: ECPoint{btcec.S256().Gx, btcec.S256().Gy},
-		H: ECPoint{HX, HY},
+		H: ECPoint{new(big.Int).Set(HX), new(big.Int).Set(HY)},
 	}
 	TestCurve.HPoints = generateH2tothe()
 }
-- 
2.43.0

