From 48da321e6a11ba8f76a339b02ef1140dd0a08ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:13 +0000
Subject: [PATCH 01/16] verif: make the processing batch size overridable under
 the verif build tag

---
 phase1/batch.go       |  6 ++++++
 phase1/batch_verif.go | 10 ++++++++++
 phase1/utils.go       |  2 --
 phase2/batch.go       |  6 ++++++
 phase2/batch_verif.go | 10 ++++++++++
 phase2/utils.go       |  2 --
 6 files changed, 32 insertions(+), 4 deletions(-)
 create mode 100644 phase1/batch.go
 create mode 100644 phase1/batch_verif.go
 create mode 100644 phase2/batch.go
 create mode 100644 phase2/batch_verif.go

diff --git a/phase1/batch.go b/phase1/batch.go
new file mode 100644
index 0000000..f089be6
--- /dev/null
+++ b/phase1/batch.go
@@ -0,0 +1,6 @@
+//go:build !verif
+
+package phase1
+
+// batchSize is the number of points processed at once
+const batchSize = 1048576 // 2^20
diff --git a/phase1/batch_verif.go b/phase1/batch_verif.go
new file mode 100644
index 0000000..8b694be
--- /dev/null
+++ b/phase1/batch_verif.go
@@ -0,0 +1,10 @@
+//go:build verif
+
+package phase1
+
+// batchSize is the number of points processed at once; verification builds
+// shrink it so that small files go through several batches
+var batchSize = 1048576 // 2^20
+
+// SetBatchSize is only available in verification builds
+func SetBatchSize(n int) { batchSize = n }
diff --git a/phase1/utils.go b/phase1/utils.go
index f575206..7aac088 100644
--- a/phase1/utils.go
+++ b/phase1/utils.go
@@ -15,8 +15,6 @@ import (
 	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
 )
 
-const batchSize = 1048576 // 2^20
-
 // Returns powers of b starting from a as [a, ba, ..., abⁿ⁻¹ ]
 func powers(a, b *fr.Element, n int) []fr.Element {
 	result := make([]fr.Element, n)
diff --git a/phase2/batch.go b/phase2/batch.go
new file mode 100644
index 0000000..ec63e72
--- /dev/null
+++ b/phase2/batch.go
@@ -0,0 +1,6 @@
+//go:build !verif
+
+package phase2
+
+// batchSize is the number of points processed at once
+const batchSize = 1048576 // 2^20
diff --git a/phase2/batch_verif.go b/phase2/batch_verif.go
new file mode 100644
index 0000000..c9383ac
--- /dev/null
+++ b/phase2/batch_verif.go
@@ -0,0 +1,10 @@
+//go:build verif
+
+package phase2
+
+// batchSize is the number of points processed at once; verification builds
+// shrink it so that small files go through several batches
+var batchSize = 1048576 // 2^20
+
+// SetBatchSize is only available in verification builds
+func SetBatchSize(n int) { batchSize = n }
diff --git a/phase2/utils.go b/phase2/utils.go
index 3e3a312..e587992 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -414,7 +414,6 @@ func accumulateG2(r1cs *cs_bn254.R1CS, res *bn254.G2Affine, t constraint.Term, v
 
 func scale(dec *bn254.Decoder, enc *bn254.Encoder, N int, delta *big.Int) error {
 	// Allocate batch with smallest of (N, batchSize)
-	const batchSize = 1048576 // 2^20
 	var initialSize = int(math.Min(float64(N), float64(batchSize)))
 	buff := make([]bn254.G1Affine, initialSize)
 
@@ -486,7 +485,6 @@ func verifyParameter(delta, g *bn254.G2Affine, inputDecoder, originDecoder *bn25
 func aggregate(inputDecoder, originDecoder *bn254.Decoder, size int) (*bn254.G1Affine, *bn254.G1Affine, error) {
 	var inG, orG, tmp bn254.G1Affine
 	// Allocate batch with smallest of (N, batchSize)
-	const batchSize = 1048576 // 2^20
 	var initialSize = int(math.Min(float64(size), float64(batchSize)))
 	buff := make([]bn254.G1Affine, initialSize)
 	r := make([]fr.Element, size)
-- 
2.43.0


From b95f85027a12cd01a2485db4e7d0bba8e8503e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 02/16] fix: read contribution hashes and headers completely

A bufio.Reader may return fewer bytes than asked for: phase 2 contributions
whose hash straddles the 4096 byte buffer were read with a partial hash, so
that honest files failed to verify, and a truncated phase 1 hash was accepted.
---
 phase1/contribution.go | 2 +-
 phase1/header.go       | 4 ++--
 phase1/phase1.go       | 4 +++-
 phase2/contribution.go | 2 +-
 4 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/phase1/contribution.go b/phase1/contribution.go
index bcc7d7c..ffaabe3 100644
--- a/phase1/contribution.go
+++ b/phase1/contribution.go
@@ -78,7 +78,7 @@ func (c *Contribution) ReadFrom(reader io.Reader) (int64, error) {
 		}
 	}
 	c.Hash = make([]byte, 32)
-	nBytes, err := reader.Read(c.Hash)
+	nBytes, err := io.ReadFull(reader, c.Hash)
 	return int64(nBytes), err
 }
 
diff --git a/phase1/header.go b/phase1/header.go
index 88eb1b3..7fe661a 100644
--- a/phase1/header.go
+++ b/phase1/header.go
@@ -13,14 +13,14 @@ type Header struct {
 func (p *Header) ReadFrom(reader io.Reader) error {
 	buffPower := make([]byte, 1)
 	// Read NConstraints
-	if _, err := reader.Read(buffPower); err != nil {
+	if _, err := io.ReadFull(reader, buffPower); err != nil {
 		return err
 	}
 	p.Power = buffPower[0]
 
 	// Read NContribution
 	buffContributions := make([]byte, 2)
-	if _, err := reader.Read(buffContributions); err != nil {
+	if _, err := io.ReadFull(reader, buffContributions); err != nil {
 		return err
 	}
 	p.Contributions = binary.BigEndian.Uint16(buffContributions)
diff --git a/phase1/phase1.go b/phase1/phase1.go
index 09fcb70..0faa3e3 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -330,7 +330,9 @@ func Verify(inputPath, transformedPath string) error {
 		return err
 	}
 	for i := 0; i < int(header.Contributions); i++ {
-		current.ReadFrom(reader)
+		if _, err := current.ReadFrom(reader); err != nil {
+			return err
+		}
 		fmt.Printf("Verifying contribution %d with Hash := %s\n", i+1, hex.EncodeToString(current.Hash))
 		if err := verifyContribution(current, prev); err != nil {
 			return err
diff --git a/phase2/contribution.go b/phase2/contribution.go
index 0ca5d89..c54bbd3 100644
--- a/phase2/contribution.go
+++ b/phase2/contribution.go
@@ -47,7 +47,7 @@ func (c *Contribution) readFrom(reader io.Reader) (int64, error) {
 		}
 	}
 	c.Hash = make([]byte, 32)
-	nBytes, err := reader.Read(c.Hash)
+	nBytes, err := io.ReadFull(reader, c.Hash)
 	return int64(nBytes), err
 }
 
-- 
2.43.0


From 4c14fa4f81d1f8c16557b236749353647ab98c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:32 +0000
Subject: [PATCH 03/16] fix: make phase 1 verification check the parameters

MultiExp failed on mismatched lengths and its error was ignored, so that the
linear combinations were always at infinity and any parameters were accepted.
Fix the lengths, the direction of the TauG2 check and the pairs across batches,
tie the first elements to the last contribution, and reject degenerate
public keys and files without contributions.
---
 phase1/phase1.go | 27 ++++++++++++++----
 phase1/utils.go  | 71 +++++++++++++++++++++++++++++++++++++-----------
 2 files changed, 77 insertions(+), 21 deletions(-)

diff --git a/phase1/phase1.go b/phase1/phase1.go
index 0faa3e3..eac6895 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -294,25 +294,25 @@ func Verify(inputPath, transformedPath string) error {
 	dec := bn254.NewDecoder(reader)
 
 	fmt.Println("Processing TauG1")
-	tau1L1, tau1L2, err := linearCombinationG1(dec, 2*N-1)
+	tau1, tau1L1, tau1L2, err := linearCombinationG1(dec, 2*N-1)
 	if err != nil {
 		return err
 	}
 
 	fmt.Println("Processing AlphaTauG1")
-	alphaTau1L1, alphaTau1L2, err := linearCombinationG1(dec, N)
+	alphaTau1, alphaTau1L1, alphaTau1L2, err := linearCombinationG1(dec, N)
 	if err != nil {
 		return err
 	}
 
 	fmt.Println("Processing BetaTauG1")
-	betaTau1L1, betaTau1L2, err := linearCombinationG1(dec, N)
+	betaTau1, betaTau1L1, betaTau1L2, err := linearCombinationG1(dec, N)
 	if err != nil {
 		return err
 	}
 
 	fmt.Println("Processing TauG2")
-	tau2L1, tau2L2, err := linearCombinationG2(dec, N)
+	tau2, tau2L1, tau2L2, err := linearCombinationG2(dec, N)
 	if err != nil {
 		return err
 	}
@@ -324,6 +324,9 @@ func Verify(inputPath, transformedPath string) error {
 	}
 
 	// Verify contributions
+	if header.Contributions == 0 {
+		return errors.New("there are no contributions to verify")
+	}
 	var current Contribution
 	prev, err := defaultContribution(transformedPath)
 	if err!=nil {
@@ -342,6 +345,20 @@ func Verify(inputPath, transformedPath string) error {
 
 	// Verify consistency of parameters update
 	_, _, g1, g2 := bn254.Generators()
+	// Verify that parameters start with the values of the last contribution
+	if !tau1[0].Equal(&g1) || !tau1[1].Equal(&current.G1.Tau) {
+		return errors.New("failed verifying first elements of TauG1")
+	}
+	if !alphaTau1[0].Equal(&current.G1.Alpha) {
+		return errors.New("failed verifying first element of AlphaTauG1")
+	}
+	if !betaTau1[0].Equal(&current.G1.Beta) {
+		return errors.New("failed verifying first element of BetaTauG1")
+	}
+	if !tau2[0].Equal(&g2) || !tau2[1].Equal(&current.G2.Tau) {
+		return errors.New("failed verifying first elements of TauG2")
+	}
+
 	// Read and verify TauG1
 	fmt.Println("Verifying powers of TauG1")
 	if !common.SameRatio(tau1L1, tau1L2, current.G2.Tau, g2) {
@@ -362,7 +379,7 @@ func Verify(inputPath, transformedPath string) error {
 
 	// Read and verify TauG2
 	fmt.Println("Verifying powers of TauG2")
-	if !common.SameRatio(g1, current.G1.Tau, tau2L1, tau2L2) {
+	if !common.SameRatio(current.G1.Tau, g1, tau2L1, tau2L2) {
 		return errors.New("failed pairing check")
 	}
 
diff --git a/phase1/utils.go b/phase1/utils.go
index 7aac088..a7eebb9 100644
--- a/phase1/utils.go
+++ b/phase1/utils.go
@@ -159,71 +159,110 @@ func randomize(r []fr.Element) {
 	})
 }
 
-func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Affine, error) {
+// Returns the first two points, and random linear combinations of all points but the last and all points but the first
+func linearCombinationG1(dec *bn254.Decoder, N int) ([2]bn254.G1Affine, bn254.G1Affine, bn254.G1Affine, error) {
 	// Allocate batch with smallest of (N, batchSize)
 	var initialSize = int(math.Min(float64(N), float64(batchSize)))
 	buff := make([]bn254.G1Affine, initialSize)
 	r := make([]fr.Element, initialSize)
+	var first [2]bn254.G1Affine
 	var L1, L2, tmpL1, tmpL2 bn254.G1Affine
 
+	// Number of points in the batch that were already read
+	overlap := 0
 	remaining := N
 	for remaining > 0 {
 		// Read batch
-		readCount := int(math.Min(float64(remaining), float64(batchSize)))
-		for i := 0; i < readCount; i++ {
+		readCount := int(math.Min(float64(remaining+overlap), float64(batchSize)))
+		for i := overlap; i < readCount; i++ {
 			if err := dec.Decode(&buff[i]); err != nil {
-				return L1, L2, err
+				return first, L1, L2, err
 			}
 		}
 
+		if remaining == N {
+			copy(first[:], buff)
+		}
+
 		// Generate randomness
 		randomize(r)
 
 		// Process the batch
-		tmpL1.MultiExp(buff[:readCount-1], r, ecc.MultiExpConfig{})
-		tmpL2.MultiExp(buff[1:readCount], r, ecc.MultiExpConfig{})
+		if _, err := tmpL1.MultiExp(buff[:readCount-1], r[:readCount-1], ecc.MultiExpConfig{}); err != nil {
+			return first, L1, L2, err
+		}
+		if _, err := tmpL2.MultiExp(buff[1:readCount], r[:readCount-1], ecc.MultiExpConfig{}); err != nil {
+			return first, L1, L2, err
+		}
 		L1.Add(&L1, &tmpL1)
 		L2.Add(&L2, &tmpL2)
 
 		// Update remaining
-		remaining -= readCount
+		remaining -= readCount - overlap
+
+		// The last point is paired with the first one of next batch
+		buff[0].Set(&buff[readCount-1])
+		overlap = 1
 	}
-	return L1, L2, nil
+	return first, L1, L2, nil
 }
 
-func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Affine, error) {
+// Returns the first two points, and random linear combinations of all points but the last and all points but the first
+func linearCombinationG2(dec *bn254.Decoder, N int) ([2]bn254.G2Affine, bn254.G2Affine, bn254.G2Affine, error) {
 	// Allocate batch with smallest of (N, batchSize)
 	var initialSize = int(math.Min(float64(N), float64(batchSize)))
 	buff := make([]bn254.G2Affine, initialSize)
 	r := make([]fr.Element, initialSize)
+	var first [2]bn254.G2Affine
 	var L1, L2, tmpL1, tmpL2 bn254.G2Affine
 
+	// Number of points in the batch that were already read
+	overlap := 0
 	remaining := N
 	for remaining > 0 {
 		// Read batch
-		readCount := int(math.Min(float64(remaining), float64(batchSize)))
-		for i := 0; i < readCount; i++ {
+		readCount := int(math.Min(float64(remaining+overlap), float64(batchSize)))
+		for i := overlap; i < readCount; i++ {
 			if err := dec.Decode(&buff[i]); err != nil {
-				return L1, L2, err
+				return first, L1, L2, err
 			}
 		}
 
+		if remaining == N {
+			copy(first[:], buff)
+		}
+
 		// Generate randomness
 		randomize(r)
 
 		// Process the batch
-		tmpL1.MultiExp(buff[:readCount-1], r, ecc.MultiExpConfig{})
-		tmpL2.MultiExp(buff[1:readCount], r, ecc.MultiExpConfig{})
+		if _, err := tmpL1.MultiExp(buff[:readCount-1], r[:readCount-1], ecc.MultiExpConfig{}); err != nil {
+			return first, L1, L2, err
+		}
+		if _, err := tmpL2.MultiExp(buff[1:readCount], r[:readCount-1], ecc.MultiExpConfig{}); err != nil {
+			return first, L1, L2, err
+		}
 		L1.Add(&L1, &tmpL1)
 		L2.Add(&L2, &tmpL2)
 
 		// Update remaining
-		remaining -= readCount
+		remaining -= readCount - overlap
+
+		// The last point is paired with the first one of next batch
+		buff[0].Set(&buff[readCount-1])
+		overlap = 1
 	}
-	return L1, L2, nil
+	return first, L1, L2, nil
 }
 
 func verifyContribution(current, prev Contribution) error {
+	// Points at infinity satisfy any pairing equation, so toxic parameters can't be zero
+	if current.PublicKeys.Tau.S.IsInfinity() || current.PublicKeys.Tau.SX.IsInfinity() || current.PublicKeys.Tau.SPX.IsInfinity() ||
+		current.PublicKeys.Alpha.S.IsInfinity() || current.PublicKeys.Alpha.SX.IsInfinity() || current.PublicKeys.Alpha.SPX.IsInfinity() ||
+		current.PublicKeys.Beta.S.IsInfinity() || current.PublicKeys.Beta.SX.IsInfinity() || current.PublicKeys.Beta.SPX.IsInfinity() {
+		return errors.New("contribution has public keys at infinity")
+	}
+
 	// Compute SP for τ, α, β
 	tauSP := common.GenSP(current.PublicKeys.Tau.S, current.PublicKeys.Tau.SX, prev.Hash[:], 1)
 	alphaSP := common.GenSP(current.PublicKeys.Alpha.S, current.PublicKeys.Alpha.SX, prev.Hash[:], 2)
-- 
2.43.0


From 05ff864239658b7753d1d49b12bf2deee3ef7b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:32 +0000
Subject: [PATCH 04/16] fix: make phase 2 verification reject unreadable
 parameters

An error while reading Z or PKK was taken for a successful check. Also reject
degenerate public keys, which satisfy the pairing equations without proving
knowledge of delta.
---
 phase2/utils.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/phase2/utils.go b/phase2/utils.go
index e587992..e9830f2 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -449,6 +449,11 @@ func scale(dec *bn254.Decoder, enc *bn254.Encoder, N int, delta *big.Int) error
 }
 
 func verifyContribution(c *Contribution, prevDelta bn254.G1Affine, prevHash []byte) error {
+	// Points at infinity satisfy any pairing equation, so toxic δ can't be zero
+	if c.PublicKey.S.IsInfinity() || c.PublicKey.SX.IsInfinity() || c.PublicKey.SPX.IsInfinity() {
+		return errors.New("contribution has public keys at infinity")
+	}
+
 	// Compute SP for δ
 	deltaSP := common.GenSP(c.PublicKey.S, c.PublicKey.SX, prevHash, 1)
 
@@ -473,7 +478,7 @@ func verifyContribution(c *Contribution, prevDelta bn254.G1Affine, prevHash []by
 func verifyParameter(delta, g *bn254.G2Affine, inputDecoder, originDecoder *bn254.Decoder, size int, field string) error {
 	// aggregate points
 	if in, or, err := aggregate(inputDecoder, originDecoder, size); err != nil {
-		return nil
+		return err
 	} else {
 		if !common.SameRatio(*in, *or, *delta, *g) {
 			return fmt.Errorf("inconsistent update to %s", field)
-- 
2.43.0


From 4e1397b3ddca462b625ad2174d97e41edad63779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:33 +0000
Subject: [PATCH 05/16] fix: evaluate all the constraints of a lazified R1CS in
 phase 2 initialization

Constraints only holds those which aren't lazy, so that the keys of a lazified
circuit missed the others without any error.
---
 phase2/utils.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/phase2/utils.go b/phase2/utils.go
index e9830f2..9fd9556 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -176,7 +176,8 @@ func processEvaluations(header1 *phase1.Header, header2 *Header, r1csPath string
 
 	// Accumlate {[A]₁}
 	buff := make([]bn254.G1Affine, header2.Wires)
-	for i, c := range r1cs.Constraints {
+	for i := 0; i < r1cs.GetNbConstraints(); i++ {
+		c := r1cs.GetConstraintToSolve(i)
 		for _, t := range c.L {
 			accumulateG1(&r1cs, &buff[t.WireID()], t, &tauG1[i])
 		}
@@ -189,7 +190,8 @@ func processEvaluations(header1 *phase1.Header, header2 *Header, r1csPath string
 	// Reset buff
 	buff = make([]bn254.G1Affine, header2.Wires)
 	// Accumlate {[B]₁}
-	for i, c := range r1cs.Constraints {
+	for i := 0; i < r1cs.GetNbConstraints(); i++ {
+		c := r1cs.GetConstraintToSolve(i)
 		for _, t := range c.R {
 			accumulateG1(&r1cs, &buff[t.WireID()], t, &tauG1[i])
 		}
@@ -213,7 +215,8 @@ func processEvaluations(header1 *phase1.Header, header2 *Header, r1csPath string
 		return err
 	}
 	// Accumlate {[B]₂}
-	for i, c := range r1cs.Constraints {
+	for i := 0; i < r1cs.GetNbConstraints(); i++ {
+		c := r1cs.GetConstraintToSolve(i)
 		for _, t := range c.R {
 			accumulateG2(&r1cs, &buff2[t.WireID()], t, &tauG2[i])
 		}
@@ -308,7 +311,8 @@ func processPVCKK(header1 *phase1.Header, header2 *Header, r1csPath string, phas
 		return err
 	}
 
-	for i, c := range r1cs.Constraints {
+	for i := 0; i < r1cs.GetNbConstraints(); i++ {
+		c := r1cs.GetConstraintToSolve(i)
 		// Output(Tau)
 		for _, t := range c.O {
 			accumulateG1(&r1cs, &L[t.WireID()], t, &buffSRS[i])
@@ -319,7 +323,8 @@ func processPVCKK(header1 *phase1.Header, header2 *Header, r1csPath string, phas
 	if err := dec.Decode(&buffSRS); err != nil {
 		return err
 	}
-	for i, c := range r1cs.Constraints {
+	for i := 0; i < r1cs.GetNbConstraints(); i++ {
+		c := r1cs.GetConstraintToSolve(i)
 		// Right(AlphaTauG1)
 		for _, t := range c.R {
 			accumulateG1(&r1cs, &L[t.WireID()], t, &buffSRS[i])
@@ -330,7 +335,8 @@ func processPVCKK(header1 *phase1.Header, header2 *Header, r1csPath string, phas
 	if err := dec.Decode(&buffSRS); err != nil {
 		return err
 	}
-	for i, c := range r1cs.Constraints {
+	for i := 0; i < r1cs.GetNbConstraints(); i++ {
+		c := r1cs.GetConstraintToSolve(i)
 		// Left(BetaTauG1)
 		for _, t := range c.L {
 			accumulateG1(&r1cs, &L[t.WireID()], t, &buffSRS[i])
-- 
2.43.0


From 11045ec62897c4781865ced689de5bc4799b74bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:17 +0000
Subject: [PATCH 06/16] fix: support circuits with commitments in phase 2
 initialization and keys

Wires were classified with the wrong index and with the number of public
wires that includes the commitment, and the commitment info was left out of
the verifying key.
---
 keys/keys.go    | 10 ++++++++++
 phase2/utils.go |  8 ++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/keys/keys.go b/keys/keys.go
index 47bdb44..ea44f37 100644
--- a/keys/keys.go
+++ b/keys/keys.go
@@ -545,6 +545,11 @@ func extractVK(phase2Path string) error {
 	if err != nil {
 		return err
 	}
+
+	// 9. Read commitment info
+	if err := gob.NewDecoder(evalsReader).Decode(&vk.CommitmentInfo); err != nil {
+		return err
+	}
 	if _, err := vk.writeTo(vkWriter); err != nil {
 		return err
 	}
@@ -636,6 +641,11 @@ func extractSplitVK(phase2Path, session string) error {
 	if err != nil {
 		return err
 	}
+
+	// 9. Read commitment info
+	if err := gob.NewDecoder(evalsReader).Decode(&vk.CommitmentInfo); err != nil {
+		return err
+	}
 	if _, err := vk.writeTo(vkWriter); err != nil {
 		return err
 	}
diff --git a/phase2/utils.go b/phase2/utils.go
index 9fd9556..73315f1 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -548,11 +548,15 @@ func filterL(L []bn254.G1Affine, header2 *Header, cmtInfo *constraint.Commitment
 	pkk := make([]bn254.G1Affine, header2.Witness)
 	vkk := make([]bn254.G1Affine, header2.Public)
 	ckk := make([]bn254.G1Affine, header2.PrivateCommitted)
+	nbPublic := header2.Public
+	if cmtInfo.Is() {
+		nbPublic-- // the commitment is counted as public, but its wire is internal
+	}
 	vI, cI := 0, 0
 	for i := range L {
-		isCommittedPrivate := cI < cmtInfo.NbPrivateCommitted && i == cmtInfo.PrivateCommitted()[i]
+		isCommittedPrivate := cI < cmtInfo.NbPrivateCommitted && i == cmtInfo.PrivateCommitted()[cI]
 		isCommitment := cmtInfo.Is() && i == cmtInfo.CommitmentIndex
-		isPublic := i < header2.Public
+		isPublic := i < nbPublic
 		if isCommittedPrivate {
 			ckk[cI].Set(&L[i])
 			cI++
-- 
2.43.0


From 03fcee5236aa4832a5b3f1a47d72d9ed9c4bbfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:40 +0000
Subject: [PATCH 07/16] fix: report failed writes instead of success

Buffered data was flushed by defer, and some writes had their errors ignored,
so that a full disk left truncated files behind a successful exit.
---
 keys/keys.go       | 26 +++++++++++++-------------
 phase1/phase1.go   | 20 +++++++++++++++-----
 phase1/utils.go    |  6 ++----
 phase2/lagrange.go |  6 ++----
 phase2/parted.go   |  7 ++++---
 phase2/phase2.go   |  8 ++++++--
 phase2/utils.go    | 10 +++++-----
 7 files changed, 47 insertions(+), 36 deletions(-)

diff --git a/keys/keys.go b/keys/keys.go
index ea44f37..434c1f2 100644
--- a/keys/keys.go
+++ b/keys/keys.go
@@ -103,7 +103,6 @@ func extractPK(phase2Path string) error {
 	}
 	defer pkFile.Close()
 	pkWriter := bufio.NewWriter(pkFile)
-	defer pkWriter.Flush()
 	encPk := bn254.NewEncoder((pkWriter))
 
 	var alphaG1, betaG1, deltaG1 bn254.G1Affine
@@ -111,7 +110,9 @@ func extractPK(phase2Path string) error {
 
 	// 0. Write domain
 	domain := fft.NewDomain(uint64(header.Domain))
-	domain.WriteTo(pkWriter)
+	if _, err := domain.WriteTo(pkWriter); err != nil {
+		return err
+	}
 
 	// 1. Read/Write [α]₁
 	if err := decEvals.Decode(&alphaG1); err != nil {
@@ -234,7 +235,7 @@ func extractPK(phase2Path string) error {
 		return err
 	}
 
-	return nil
+	return pkWriter.Flush()
 }
 
 func extractSplitPK(phase2Path, session string) error {
@@ -271,7 +272,6 @@ func extractSplitPK(phase2Path, session string) error {
 	}
 	defer pkEFile.Close()
 	pkEWriter := bufio.NewWriter(pkEFile)
-	defer pkEWriter.Flush()
 	encPkE := bn254.NewEncoder(pkEWriter, bn254.RawEncoding())
 
 	name = fmt.Sprintf("%s.pk.A.save", session)
@@ -281,7 +281,6 @@ func extractSplitPK(phase2Path, session string) error {
 	}
 	defer pkAFile.Close()
 	pkAWriter := bufio.NewWriter(pkAFile)
-	defer pkAWriter.Flush()
 	encPkA := bn254.NewEncoder(pkAWriter, bn254.RawEncoding())
 
 	name = fmt.Sprintf("%s.pk.B1.save", session)
@@ -291,7 +290,6 @@ func extractSplitPK(phase2Path, session string) error {
 	}
 	defer pkB1File.Close()
 	pkB1Writer := bufio.NewWriter(pkB1File)
-	defer pkB1Writer.Flush()
 	encPkB1 := bn254.NewEncoder(pkB1Writer, bn254.RawEncoding())
 
 	name = fmt.Sprintf("%s.pk.Z.save", session)
@@ -301,7 +299,6 @@ func extractSplitPK(phase2Path, session string) error {
 	}
 	defer pkZFile.Close()
 	pkZWriter := bufio.NewWriter(pkZFile)
-	defer pkZWriter.Flush()
 	encPkZ := bn254.NewEncoder(pkZWriter, bn254.RawEncoding())
 
 	name = fmt.Sprintf("%s.pk.K.save", session)
@@ -311,7 +308,6 @@ func extractSplitPK(phase2Path, session string) error {
 	}
 	defer pkKFile.Close()
 	pkKWriter := bufio.NewWriter(pkKFile)
-	defer pkKWriter.Flush()
 	encPkK := bn254.NewEncoder(pkKWriter, bn254.RawEncoding())
 
 	name = fmt.Sprintf("%s.pk.B2.save", session)
@@ -321,7 +317,6 @@ func extractSplitPK(phase2Path, session string) error {
 	}
 	defer pkB2File.Close()
 	pkB2Writer := bufio.NewWriter(pkB2File)
-	defer pkB2Writer.Flush()
 	encPkB2 := bn254.NewEncoder(pkB2Writer, bn254.RawEncoding())
 
 	var alphaG1, betaG1, deltaG1 bn254.G1Affine
@@ -458,6 +453,11 @@ func extractSplitPK(phase2Path, session string) error {
 		return err
 	}
 
+	for _, writer := range []*bufio.Writer{pkEWriter, pkAWriter, pkB1Writer, pkZWriter, pkKWriter, pkB2Writer} {
+		if err := writer.Flush(); err != nil {
+			return err
+		}
+	}
 	return nil
 }
 
@@ -495,7 +495,6 @@ func extractVK(phase2Path string) error {
 	}
 	defer vkFile.Close()
 	vkWriter := bufio.NewWriter(vkFile)
-	defer vkWriter.Flush()
 
 	// 1. Read [α]₁
 	if err := decEvals.Decode(&vk.G1.Alpha); err != nil {
@@ -553,7 +552,7 @@ func extractVK(phase2Path string) error {
 	if _, err := vk.writeTo(vkWriter); err != nil {
 		return err
 	}
-	return nil
+	return vkWriter.Flush()
 }
 
 func extractSplitVK(phase2Path, session string) error {
@@ -591,7 +590,6 @@ func extractSplitVK(phase2Path, session string) error {
 	}
 	defer vkFile.Close()
 	vkWriter := bufio.NewWriter(vkFile)
-	defer vkWriter.Flush()
 
 	// 1. Read [α]₁
 	if err := decEvals.Decode(&vk.G1.Alpha); err != nil {
@@ -649,6 +647,9 @@ func extractSplitVK(phase2Path, session string) error {
 	if _, err := vk.writeTo(vkWriter); err != nil {
 		return err
 	}
+	if err := vkWriter.Flush(); err != nil {
+		return err
+	}
 
 	// Write the commitment key so that it can be read in pk separately
 	name = fmt.Sprintf("%s.pk.CommitmentKey.save", session)
@@ -657,7 +658,6 @@ func extractSplitVK(phase2Path, session string) error {
 		return err
 	}
 	defer commitmentKeyFile.Close()
-	vk.CommitmentKey.WriteTo(commitmentKeyFile)
 	_, err = vk.CommitmentKey.WriteTo(commitmentKeyFile)
 	if err != nil {
 		return err
diff --git a/phase1/phase1.go b/phase1/phase1.go
index eac6895..4b56ec3 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -97,12 +97,13 @@ func Initialize(power byte, outputPath string) error {
 	fmt.Printf("Power %d supports up to %d constraints\n", power, N)
 
 	// Write the header
-	header.writeTo(outputFile)
+	if err := header.writeTo(outputFile); err != nil {
+		return err
+	}
 
 	// Use buffered IO to write parameters efficiently
 	buffSize := int(math.Pow(2, 20))
 	writer := bufio.NewWriterSize(outputFile, buffSize)
-	defer writer.Flush()
 
 	// BN254 encoder using compressed representation of points to save storage space
 	enc := bn254.NewEncoder(writer)
@@ -142,7 +143,12 @@ func Initialize(power byte, outputPath string) error {
 
 	// Write [β]₂
 	fmt.Println("5. Writing BetaG2")
-	enc.Encode(&g2)
+	if err := enc.Encode(&g2); err != nil {
+		return err
+	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
 
 	fmt.Println("Initialization has been completed successfully")
 	return nil
@@ -178,7 +184,6 @@ func Contribute(inputPath, outputPath string) error {
 	// Use buffered IO to write parameters efficiently
 	reader := bufio.NewReader(inputFile)
 	writer := bufio.NewWriter(outputFile)
-	defer writer.Flush()
 
 	dec := bn254.NewDecoder(reader)
 	enc := bn254.NewEncoder(writer)
@@ -264,7 +269,12 @@ func Contribute(inputPath, outputPath string) error {
 	contribution.Hash = computeHash(&contribution)
 
 	// Write the contribution
-	contribution.writeTo(writer)
+	if _, err := contribution.writeTo(writer); err != nil {
+		return err
+	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
 
 	fmt.Println("Contirbution has been successful!")
 	fmt.Println("Contribution Hash := ", hex.EncodeToString(contribution.Hash))
diff --git a/phase1/utils.go b/phase1/utils.go
index a7eebb9..c978105 100644
--- a/phase1/utils.go
+++ b/phase1/utils.go
@@ -312,7 +312,6 @@ func transformG1(inputFile, outputFile *os.File, position int64, size int) error
 	}
 	reader := bufio.NewReader(inputFile)
 	writer := bufio.NewWriter(outputFile)
-	defer writer.Flush()
 
 	dec := bn254.NewDecoder(reader)
 	enc := bn254.NewEncoder(writer)
@@ -325,7 +324,7 @@ func transformG1(inputFile, outputFile *os.File, position int64, size int) error
 			return err
 		}
 	}
-	return nil
+	return writer.Flush()
 }
 
 func transformG2(inputFile, outputFile *os.File, position int64, size int) error {
@@ -335,7 +334,6 @@ func transformG2(inputFile, outputFile *os.File, position int64, size int) error
 	}
 	reader := bufio.NewReader(inputFile)
 	writer := bufio.NewWriter(outputFile)
-	defer writer.Flush()
 
 	dec := bn254.NewDecoder(reader)
 	enc := bn254.NewEncoder(writer)
@@ -348,5 +346,5 @@ func transformG2(inputFile, outputFile *os.File, position int64, size int) error
 			return err
 		}
 	}
-	return nil
+	return writer.Flush()
 }
diff --git a/phase2/lagrange.go b/phase2/lagrange.go
index ea5dd0a..b956cd7 100644
--- a/phase2/lagrange.go
+++ b/phase2/lagrange.go
@@ -17,7 +17,6 @@ func lagrangeG1(phase1File, lagFile *os.File, position int64, domain *fft.Domain
 
 	reader := bufio.NewReader(phase1File)
 	writer := bufio.NewWriter(lagFile)
-	defer writer.Flush()
 	dec := bn254.NewDecoder(reader)
 	enc := bn254.NewEncoder(writer)
 
@@ -34,7 +33,7 @@ func lagrangeG1(phase1File, lagFile *os.File, position int64, domain *fft.Domain
 	if err := enc.Encode(buff); err != nil {
 		return err
 	}
-	return nil
+	return writer.Flush()
 }
 
 func lagrangeG2(phase1File, lagFile *os.File, position int64, domain *fft.Domain) error {
@@ -45,7 +44,6 @@ func lagrangeG2(phase1File, lagFile *os.File, position int64, domain *fft.Domain
 
 	reader := bufio.NewReader(phase1File)
 	writer := bufio.NewWriter(lagFile)
-	defer writer.Flush()
 	dec := bn254.NewDecoder(reader)
 	enc := bn254.NewEncoder(writer)
 
@@ -62,5 +60,5 @@ func lagrangeG2(phase1File, lagFile *os.File, position int64, domain *fft.Domain
 	if err := enc.Encode(buff); err != nil {
 		return err
 	}
-	return nil
+	return writer.Flush()
 }
diff --git a/phase2/parted.go b/phase2/parted.go
index a19446e..e9dbb70 100644
--- a/phase2/parted.go
+++ b/phase2/parted.go
@@ -210,7 +210,6 @@ func processPVCKKParted(r1cs *cs_bn254.R1CS, r1csPrefix string, nbCons, batchSiz
 	var buffSRS []bn254.G1Affine
 	reader := bufio.NewReader(lagFile)
 	writer := bufio.NewWriter(phase2File)
-	defer writer.Flush()
 	dec := bn254.NewDecoder(reader)
 	enc := bn254.NewEncoder(writer)
 
@@ -269,7 +268,6 @@ func processPVCKKParted(r1cs *cs_bn254.R1CS, r1csPrefix string, nbCons, batchSiz
 	}
 	defer evalFile.Close()
 	evalWriter := bufio.NewWriter(evalFile)
-	defer evalWriter.Flush()
 	evalEnc := bn254.NewEncoder(evalWriter)
 	if err := evalEnc.Encode(vkk); err != nil {
 		return err
@@ -286,5 +284,8 @@ func processPVCKKParted(r1cs *cs_bn254.R1CS, r1csPrefix string, nbCons, batchSiz
 		return err
 	}
 
-	return nil
+	if err := evalWriter.Flush(); err != nil {
+		return err
+	}
+	return writer.Flush()
 }
diff --git a/phase2/phase2.go b/phase2/phase2.go
index af219a7..963e515 100644
--- a/phase2/phase2.go
+++ b/phase2/phase2.go
@@ -72,7 +72,6 @@ func Contribute(inputPath, outputPath string) error {
 	}
 	defer outputFile.Close()
 	writer := bufio.NewWriter(outputFile)
-	defer writer.Flush()
 	enc := bn254.NewEncoder(writer)
 
 	// Read/Write header with extra contribution
@@ -154,7 +153,12 @@ func Contribute(inputPath, outputPath string) error {
 	contribution.Hash = computeHash(&contribution)
 
 	// Write the contribution
-	contribution.writeTo(writer)
+	if _, err := contribution.writeTo(writer); err != nil {
+		return err
+	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
 
 	fmt.Println("Contirbution has been successful!")
 	fmt.Println("Contribution Hash := ", hex.EncodeToString(contribution.Hash))
diff --git a/phase2/utils.go b/phase2/utils.go
index 73315f1..e71efd6 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -232,7 +232,6 @@ func processEvaluations(header1 *phase1.Header, header2 *Header, r1csPath string
 func processDeltaAndZ(header1 *phase1.Header, header2 *Header, phase1File, phase2File *os.File) error {
 	fmt.Println("Processing Delta and Z")
 	writer := bufio.NewWriter(phase2File)
-	defer writer.Flush()
 	enc := bn254.NewEncoder(writer)
 
 	// Write [δ]₁ and [δ]₂
@@ -274,7 +273,7 @@ func processDeltaAndZ(header1 *phase1.Header, header2 *Header, phase1File, phase
 			return err
 		}
 	}
-	return nil
+	return writer.Flush()
 }
 
 func processPVCKK(header1 *phase1.Header, header2 *Header, r1csPath string, phase2File *os.File) error {
@@ -299,7 +298,6 @@ func processPVCKK(header1 *phase1.Header, header2 *Header, r1csPath string, phas
 	var buffSRS []bn254.G1Affine
 	reader := bufio.NewReader(lagFile)
 	writer := bufio.NewWriter(phase2File)
-	defer writer.Flush()
 	dec := bn254.NewDecoder(reader)
 	enc := bn254.NewEncoder(writer)
 
@@ -358,7 +356,6 @@ func processPVCKK(header1 *phase1.Header, header2 *Header, r1csPath string, phas
 	}
 	defer evalFile.Close()
 	evalWriter := bufio.NewWriter(evalFile)
-	defer evalWriter.Flush()
 	evalEnc := bn254.NewEncoder(evalWriter)
 	if err := evalEnc.Encode(vkk); err != nil {
 		return err
@@ -375,7 +372,10 @@ func processPVCKK(header1 *phase1.Header, header2 *Header, r1csPath string, phas
 		return err
 	}
 
-	return nil
+	if err := evalWriter.Flush(); err != nil {
+		return err
+	}
+	return writer.Flush()
 }
 
 func accumulateG1(r1cs *cs_bn254.R1CS, res *bn254.G1Affine, t constraint.Term, value *bn254.G1Affine) {
-- 
2.43.0


From 77109ff0fbc36c3c7261845ffa2b756a8afa1e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 08/16] fix: stop when the random source fails

Errors of SetRandom were ignored, leaving toxic parameters or verification
coefficients at zero.
---
 common/keypair.go |  8 +++++---
 common/utils.go   | 17 +++++++++++++++++
 phase1/phase1.go  | 24 ++++++++++++++++++------
 phase1/utils.go   | 16 ++++++----------
 phase2/phase2.go  |  8 ++++++--
 phase2/utils.go   |  8 +++-----
 6 files changed, 55 insertions(+), 26 deletions(-)

diff --git a/common/keypair.go b/common/keypair.go
index a3aa375..c417af5 100644
--- a/common/keypair.go
+++ b/common/keypair.go
@@ -13,13 +13,15 @@ type PublicKey struct {
 	SPX bn254.G2Affine
 }
 
-func GenPublicKey(x fr.Element, challenge []byte, dst byte) PublicKey {
+func GenPublicKey(x fr.Element, challenge []byte, dst byte) (PublicKey, error) {
 	var pk PublicKey
 	_, _, g1, _ := bn254.Generators()
 
 	var s fr.Element
 	var sBi big.Int
-	s.SetRandom()
+	if _, err := s.SetRandom(); err != nil {
+		return pk, err
+	}
 	s.BigInt(&sBi)
 	pk.S.ScalarMultiplication(&g1, &sBi)
 
@@ -33,7 +35,7 @@ func GenPublicKey(x fr.Element, challenge []byte, dst byte) PublicKey {
 
 	// compute x*spG2
 	pk.SPX.ScalarMultiplication(&SP, &xBi)
-	return pk
+	return pk, nil
 }
 
 // Generate SP in G₂ as Hash(gˢ, gˢˣ, challenge, dst)
diff --git a/common/utils.go b/common/utils.go
index e88726a..4dab3ba 100644
--- a/common/utils.go
+++ b/common/utils.go
@@ -2,10 +2,27 @@ package common
 
 import (
 	"math/bits"
+	"sync"
 
 	"github.com/consensys/gnark-crypto/ecc/bn254"
+	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
 )
 
+// Randomize sets all the elements to random values
+func Randomize(r []fr.Element) error {
+	var failure error
+	var once sync.Once
+	Parallelize(len(r), func(start, end int) {
+		for i := start; i < end; i++ {
+			if _, err := r[i].SetRandom(); err != nil {
+				once.Do(func() { failure = err })
+				return
+			}
+		}
+	})
+	return failure
+}
+
 func BitReverseG1(a []bn254.G1Affine) {
 	n := uint64(len(a))
 	nn := uint64(64 - bits.TrailingZeros64(n))
diff --git a/phase1/phase1.go b/phase1/phase1.go
index 4b56ec3..86a3770 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -191,9 +191,15 @@ func Contribute(inputPath, outputPath string) error {
 	// Sample toxic parameters
 	fmt.Println("Sampling toxic parameters Tau, Alpha, and Beta")
 	var tau, alpha, beta, one fr.Element
-	tau.SetRandom()
-	alpha.SetRandom()
-	beta.SetRandom()
+	if _, err := tau.SetRandom(); err != nil {
+		return err
+	}
+	if _, err := alpha.SetRandom(); err != nil {
+		return err
+	}
+	if _, err := beta.SetRandom(); err != nil {
+		return err
+	}
 	one.SetOne()
 
 	var contribution Contribution
@@ -263,9 +269,15 @@ func Contribute(inputPath, outputPath string) error {
 	}
 
 	// Generate public keys
-	contribution.PublicKeys.Tau = common.GenPublicKey(tau, prevHash, 1)
-	contribution.PublicKeys.Alpha = common.GenPublicKey(alpha, prevHash, 2)
-	contribution.PublicKeys.Beta = common.GenPublicKey(beta, prevHash, 3)
+	if contribution.PublicKeys.Tau, err = common.GenPublicKey(tau, prevHash, 1); err != nil {
+		return err
+	}
+	if contribution.PublicKeys.Alpha, err = common.GenPublicKey(alpha, prevHash, 2); err != nil {
+		return err
+	}
+	if contribution.PublicKeys.Beta, err = common.GenPublicKey(beta, prevHash, 3); err != nil {
+		return err
+	}
 	contribution.Hash = computeHash(&contribution)
 
 	// Write the contribution
diff --git a/phase1/utils.go b/phase1/utils.go
index c978105..8235a1e 100644
--- a/phase1/utils.go
+++ b/phase1/utils.go
@@ -151,14 +151,6 @@ func scaleG2(dec *bn254.Decoder, enc *bn254.Encoder, N int, tau *fr.Element) (*b
 	return &firstPoint, nil
 }
 
-func randomize(r []fr.Element) {
-	common.Parallelize(len(r), func(start, end int) {
-		for i := start; i < end; i++ {
-			r[i].SetRandom()
-		}
-	})
-}
-
 // Returns the first two points, and random linear combinations of all points but the last and all points but the first
 func linearCombinationG1(dec *bn254.Decoder, N int) ([2]bn254.G1Affine, bn254.G1Affine, bn254.G1Affine, error) {
 	// Allocate batch with smallest of (N, batchSize)
@@ -185,7 +177,9 @@ func linearCombinationG1(dec *bn254.Decoder, N int) ([2]bn254.G1Affine, bn254.G1
 		}
 
 		// Generate randomness
-		randomize(r)
+		if err := common.Randomize(r); err != nil {
+			return first, L1, L2, err
+		}
 
 		// Process the batch
 		if _, err := tmpL1.MultiExp(buff[:readCount-1], r[:readCount-1], ecc.MultiExpConfig{}); err != nil {
@@ -233,7 +227,9 @@ func linearCombinationG2(dec *bn254.Decoder, N int) ([2]bn254.G2Affine, bn254.G2
 		}
 
 		// Generate randomness
-		randomize(r)
+		if err := common.Randomize(r); err != nil {
+			return first, L1, L2, err
+		}
 
 		// Process the batch
 		if _, err := tmpL1.MultiExp(buff[:readCount-1], r[:readCount-1], ecc.MultiExpConfig{}); err != nil {
diff --git a/phase2/phase2.go b/phase2/phase2.go
index 963e515..bbd10cb 100644
--- a/phase2/phase2.go
+++ b/phase2/phase2.go
@@ -90,7 +90,9 @@ func Contribute(inputPath, outputPath string) error {
 	// Sample toxic δ
 	var delta, deltaInv fr.Element
 	var deltaBI, deltaInvBI big.Int
-	delta.SetRandom()
+	if _, err := delta.SetRandom(); err != nil {
+		return err
+	}
 	deltaInv.Inverse(&delta)
 
 	delta.BigInt(&deltaBI)
@@ -149,7 +151,9 @@ func Contribute(inputPath, outputPath string) error {
 
 	var contribution Contribution
 	contribution.Delta.Set(&delta1)
-	contribution.PublicKey = common.GenPublicKey(delta, prevHash, 1)
+	if contribution.PublicKey, err = common.GenPublicKey(delta, prevHash, 1); err != nil {
+		return err
+	}
 	contribution.Hash = computeHash(&contribution)
 
 	// Write the contribution
diff --git a/phase2/utils.go b/phase2/utils.go
index e71efd6..50f3caa 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -504,11 +504,9 @@ func aggregate(inputDecoder, originDecoder *bn254.Decoder, size int) (*bn254.G1A
 	for remaining > 0 {
 
 		// generate randomness
-		common.Parallelize(len(r), func(start, end int) {
-			for i := start; i < end; i++ {
-				r[i].SetRandom()
-			}
-		})
+		if err := common.Randomize(r); err != nil {
+			return nil, nil, err
+		}
 
 		// Read from input
 		readCount := int(math.Min(float64(remaining), float64(batchSize)))
-- 
2.43.0


From 1dd73dd37e92ac061a84765e87413f54ec62526d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 09/16] fix: reject powers out of range instead of wrapping
 them around

A negative power was converted to a byte (-240 created a power 16 file), and
a power 0 file can't hold contributions.
---
 actions.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/actions.go b/actions.go
index 52eb39c..1c09a8f 100644
--- a/actions.go
+++ b/actions.go
@@ -26,6 +26,9 @@ func p1t(cCtx *cli.Context) error {
 	if err != nil {
 		return err
 	}
+	if outPower < 1 || inPower > 28 {
+		return errors.New("powers should be between 1 and 28")
+	}
 	if inPower < outPower {
 		return errors.New("cannot transform to a higher power")
 	}
@@ -43,6 +46,9 @@ func p1n(cCtx *cli.Context) error {
 	if err != nil {
 		return err
 	}
+	if power < 1 {
+		return errors.New("can't support powers smaller than 1")
+	}
 	if power > 26 {
 		return errors.New("can't support powers larger than 26")
 	}
-- 
2.43.0


From 96a666d7ee7ae1ef526016d6ad8ded0e747800c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:54 +0000
Subject: [PATCH 10/16] fix: refuse to write the output over the input

Contributing or transforming in place truncated the input file before it was
read, destroying the ceremony so far.
---
 common/output.go | 18 ++++++++++++++++++
 phase1/phase1.go |  4 ++--
 phase2/parted.go |  3 ++-
 phase2/phase2.go |  4 ++--
 4 files changed, 24 insertions(+), 5 deletions(-)
 create mode 100644 common/output.go

diff --git a/common/output.go b/common/output.go
new file mode 100644
index 0000000..613a206
--- /dev/null
+++ b/common/output.go
@@ -0,0 +1,18 @@
+package common
+
+import (
+	"fmt"
+	"os"
+)
+
+// CreateOutput creates the output file unless it's one of the inputs, which would be destroyed
+func CreateOutput(outputPath string, inputPaths ...string) (*os.File, error) {
+	if output, err := os.Stat(outputPath); err == nil {
+		for _, inputPath := range inputPaths {
+			if input, err := os.Stat(inputPath); err == nil && os.SameFile(input, output) {
+				return nil, fmt.Errorf("output %s is the same file as input %s", outputPath, inputPath)
+			}
+		}
+	}
+	return os.Create(outputPath)
+}
diff --git a/phase1/phase1.go b/phase1/phase1.go
index 86a3770..046ce17 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -28,7 +28,7 @@ func Transform(inputPath, outputPath string, inPower, outPower byte) error {
 	defer inputFile.Close()
 
 	// Output file is in compressed representation
-	outputFile, err := os.Create(outputPath)
+	outputFile, err := common.CreateOutput(outputPath, inputPath)
 	if err != nil {
 		return err
 	}
@@ -163,7 +163,7 @@ func Contribute(inputPath, outputPath string) error {
 	defer inputFile.Close()
 
 	// Output file
-	outputFile, err := os.Create(outputPath)
+	outputFile, err := common.CreateOutput(outputPath, inputPath)
 	if err != nil {
 		return err
 	}
diff --git a/phase2/parted.go b/phase2/parted.go
index e9dbb70..aa49661 100644
--- a/phase2/parted.go
+++ b/phase2/parted.go
@@ -9,6 +9,7 @@ import (
 	"os"
 	"runtime"
 
+	"github.com/bnb-chain/zkbnb-setup/common"
 	"github.com/bnb-chain/zkbnb-setup/phase1"
 	"github.com/consensys/gnark-crypto/ecc/bn254"
 	cs_bn254 "github.com/consensys/gnark/constraint/bn254"
@@ -21,7 +22,7 @@ func InitializeFromPartedR1CS(phase1Path, session, phase2Path string, nbCons, nb
 	}
 	defer phase1File.Close()
 
-	phase2File, err := os.Create(phase2Path)
+	phase2File, err := common.CreateOutput(phase2Path, phase1Path)
 	if err != nil {
 		return err
 	}
diff --git a/phase2/phase2.go b/phase2/phase2.go
index bbd10cb..9adfde3 100644
--- a/phase2/phase2.go
+++ b/phase2/phase2.go
@@ -19,7 +19,7 @@ func Initialize(phase1Path, r1csPath, phase2Path string) error {
 	}
 	defer phase1File.Close()
 
-	phase2File, err := os.Create(phase2Path)
+	phase2File, err := common.CreateOutput(phase2Path, phase1Path, r1csPath)
 	if err != nil {
 		return err
 	}
@@ -66,7 +66,7 @@ func Contribute(inputPath, outputPath string) error {
 	dec := bn254.NewDecoder(reader)
 
 	// Output file
-	outputFile, err := os.Create(outputPath)
+	outputFile, err := common.CreateOutput(outputPath, inputPath)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 67df6af3f1b59def4ec31f2505e2a696638234ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:16 +0000
Subject: [PATCH 11/16] fix: return the errors of the Solidity export instead
 of panicking

---
 keys/keys.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/keys/keys.go b/keys/keys.go
index 434c1f2..5868d55 100644
--- a/keys/keys.go
+++ b/keys/keys.go
@@ -694,20 +694,24 @@ func ExtractSplitKeys(phase2Path, session string) error {
 func ExportSol(session string) error {
 	filename := session + ".sol"
 	fmt.Printf("Exporting %s\n", filename)
-	f, _ := os.Open(session + ".vk.save")
+	f, err := os.Open(session + ".vk.save")
+	if err != nil {
+		return err
+	}
+	defer f.Close()
 	verifyingKey := groth16.NewVerifyingKey(ecc.BN254)
-	_, err := verifyingKey.ReadFrom(f)
+	_, err = verifyingKey.ReadFrom(f)
 	if err != nil {
-		panic(fmt.Errorf("read file error"))
+		return fmt.Errorf("read file error: %w", err)
 	}
-	err = f.Close()
-	f, err = os.Create(filename)
+	solFile, err := os.Create(filename)
 	if err != nil {
-		panic(err)
+		return err
 	}
-	err = verifyingKey.ExportSolidity(f)
+	defer solFile.Close()
+	err = verifyingKey.ExportSolidity(solFile)
 	if err != nil {
-		panic(err)
+		return err
 	}
 	fmt.Printf("%s has been extracted successfully\n", filename)
 	return nil
-- 
2.43.0


From 9e0128f0712c7b64ebe14f5240e19c6fdded8e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 12/16] fix: reject headers with values out of range

Corrupted headers made the commands panic on impossible sizes.
---
 phase1/header.go |  4 ++++
 phase2/header.go | 13 +++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/phase1/header.go b/phase1/header.go
index 7fe661a..552a2be 100644
--- a/phase1/header.go
+++ b/phase1/header.go
@@ -2,6 +2,7 @@ package phase1
 
 import (
 	"encoding/binary"
+	"fmt"
 	"io"
 )
 
@@ -17,6 +18,9 @@ func (p *Header) ReadFrom(reader io.Reader) error {
 		return err
 	}
 	p.Power = buffPower[0]
+	if p.Power < 1 || p.Power > 28 { // max power is 28
+		return fmt.Errorf("power %d is out of range", p.Power)
+	}
 
 	// Read NContribution
 	buffContributions := make([]byte, 2)
diff --git a/phase2/header.go b/phase2/header.go
index 9485872..83f2cc5 100644
--- a/phase2/header.go
+++ b/phase2/header.go
@@ -2,7 +2,9 @@ package phase2
 
 import (
 	"encoding/gob"
+	"errors"
 	"io"
+	"math"
 )
 
 type Header struct {
@@ -20,6 +22,17 @@ func (h *Header) Read(reader io.Reader) error {
 	if err := dec.Decode(h); err != nil {
 		return err
 	}
+	const maxDomain = 1 << 28 // max power is 28
+	const maxWires = math.MaxInt32
+	if h.Domain < 2 || h.Domain > maxDomain || h.Domain&(h.Domain-1) != 0 ||
+		h.Constraints < 0 || h.Constraints > h.Domain ||
+		h.Wires < 0 || h.Wires > maxWires ||
+		h.Witness < 0 || h.Witness > h.Wires ||
+		h.Public < 0 || h.Public > h.Wires ||
+		h.PrivateCommitted < 0 || h.PrivateCommitted > h.Wires ||
+		h.Contributions < 0 {
+		return errors.New("invalid phase 2 header")
+	}
 	return nil
 }
 
-- 
2.43.0


From 42fce4a6768047f7ba206279c908c957ffff9386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 13/16] fix: refuse contributions that the phase 1 header can't
 count

The counter wrapped around to zero after 65535 contributions.
---
 phase1/phase1.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phase1/phase1.go b/phase1/phase1.go
index 046ce17..ebed6f7 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -176,6 +176,9 @@ func Contribute(inputPath, outputPath string) error {
 	}
 	fmt.Printf("Power := %d and  #Contributions := %d\n", header.Power, header.Contributions)
 	N := int(math.Pow(2, float64(header.Power)))
+	if header.Contributions == math.MaxUint16 {
+		return errors.New("no more contributions can be added")
+	}
 	header.Contributions++
 	if err := header.writeTo(outputFile); err != nil {
 		return err
-- 
2.43.0


From 1df193faa252ca8049a0aea5dca7ccaf533e2e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 14/16] fix: refuse parted circuits with a different number of
 constraints

With a smaller number, the remaining constraints were left out of the keys
without any error.
---
 phase2/parted.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phase2/parted.go b/phase2/parted.go
index aa49661..4c8a507 100644
--- a/phase2/parted.go
+++ b/phase2/parted.go
@@ -71,6 +71,9 @@ func processHeaderParted(r1cs *cs_bn254.R1CS, nbCons int, phase1File, phase2File
 	var header2 Header
 	var header1 phase1.Header
 
+	if nbCons != r1cs.GetNbConstraints() {
+		return nil, nil, fmt.Errorf("the circuit #Constraints are %d, not %d", r1cs.GetNbConstraints(), nbCons)
+	}
 	header2.Constraints = nbCons
 	header2.Domain = nextPowerofTwo(header2.Constraints)
 
-- 
2.43.0


From fd0053f1cb37c06141bdc63cb4cd77efc6492812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:48 +0000
Subject: [PATCH 15/16] fix: refuse to write the side files over an input

Phase 2 initialization (srs.lag, evals), key extraction (pk, vk and the split
files) and the parts of a circuit weren't covered by the check of the outputs:
an input with one of these names was destroyed, and an initialization into
evals or srs.lag reported success with a mangled file.
---
 common/output.go | 14 +++++++++++---
 keys/keys.go     | 13 ++++++++++++-
 phase2/parted.go | 33 ++++++++++++++++++++++++++++++++-
 phase2/phase2.go |  5 +++++
 4 files changed, 60 insertions(+), 5 deletions(-)

diff --git a/common/output.go b/common/output.go
index 613a206..ffcb858 100644
--- a/common/output.go
+++ b/common/output.go
@@ -5,14 +5,22 @@ import (
 	"os"
 )
 
-// CreateOutput creates the output file unless it's one of the inputs, which would be destroyed
-func CreateOutput(outputPath string, inputPaths ...string) (*os.File, error) {
+// CheckOutput returns an error if the output file is one of the inputs, which would be destroyed
+func CheckOutput(outputPath string, inputPaths ...string) error {
 	if output, err := os.Stat(outputPath); err == nil {
 		for _, inputPath := range inputPaths {
 			if input, err := os.Stat(inputPath); err == nil && os.SameFile(input, output) {
-				return nil, fmt.Errorf("output %s is the same file as input %s", outputPath, inputPath)
+				return fmt.Errorf("output %s is the same file as input %s", outputPath, inputPath)
 			}
 		}
 	}
+	return nil
+}
+
+// CreateOutput creates the output file unless it's one of the inputs
+func CreateOutput(outputPath string, inputPaths ...string) (*os.File, error) {
+	if err := CheckOutput(outputPath, inputPaths...); err != nil {
+		return nil, err
+	}
 	return os.Create(outputPath)
 }
diff --git a/keys/keys.go b/keys/keys.go
index 5868d55..394a999 100644
--- a/keys/keys.go
+++ b/keys/keys.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"os"
 
+	"github.com/bnb-chain/zkbnb-setup/common"
 	"github.com/bnb-chain/zkbnb-setup/phase2"
 	"github.com/consensys/gnark-crypto/ecc"
 	"github.com/consensys/gnark-crypto/ecc/bn254"
@@ -666,6 +667,11 @@ func extractSplitVK(phase2Path, session string) error {
 }
 
 func ExtractKeys(phase2Path string) error {
+	for _, output := range []string{"pk", "vk"} {
+		if err := common.CheckOutput(output, phase2Path, "evals"); err != nil {
+			return err
+		}
+	}
 	fmt.Println("Extracting proving key")
 	if err := extractPK(phase2Path); err != nil {
 		return err
@@ -679,6 +685,11 @@ func ExtractKeys(phase2Path string) error {
 }
 
 func ExtractSplitKeys(phase2Path, session string) error {
+	for _, part := range []string{"pk.E", "pk.A", "pk.B1", "pk.Z", "pk.K", "pk.B2", "pk.CommitmentKey", "vk"} {
+		if err := common.CheckOutput(fmt.Sprintf("%s.%s.save", session, part), phase2Path, "evals"); err != nil {
+			return err
+		}
+	}
 	fmt.Println("Extracting proving key")
 	if err := extractSplitPK(phase2Path, session); err != nil {
 		return err
@@ -704,7 +715,7 @@ func ExportSol(session string) error {
 	if err != nil {
 		return fmt.Errorf("read file error: %w", err)
 	}
-	solFile, err := os.Create(filename)
+	solFile, err := common.CreateOutput(filename, session+".vk.save")
 	if err != nil {
 		return err
 	}
diff --git a/phase2/parted.go b/phase2/parted.go
index 4c8a507..22af2bc 100644
--- a/phase2/parted.go
+++ b/phase2/parted.go
@@ -7,7 +7,9 @@ import (
 	"io"
 	"math"
 	"os"
+	"path/filepath"
 	"runtime"
+	"strings"
 
 	"github.com/bnb-chain/zkbnb-setup/common"
 	"github.com/bnb-chain/zkbnb-setup/phase1"
@@ -22,11 +24,21 @@ func InitializeFromPartedR1CS(phase1Path, session, phase2Path string, nbCons, nb
 	}
 	defer phase1File.Close()
 
-	phase2File, err := common.CreateOutput(phase2Path, phase1Path)
+	inputs, err := partPaths(session)
+	if err != nil {
+		return err
+	}
+	inputs = append(inputs, phase1Path)
+	phase2File, err := common.CreateOutput(phase2Path, inputs...)
 	if err != nil {
 		return err
 	}
 	defer phase2File.Close()
+	for _, output := range []string{"srs.lag", "evals"} {
+		if err := common.CheckOutput(output, append(inputs, phase2Path)...); err != nil {
+			return err
+		}
+	}
 
 	// Read R1CS
 	fmt.Println("Reading R1CS...")
@@ -64,6 +76,25 @@ func InitializeFromPartedR1CS(phase1Path, session, phase2Path string, nbCons, nb
 	return nil
 }
 
+// partPaths returns the paths of the files of a parted R1CS
+func partPaths(session string) ([]string, error) {
+	dir, prefix := filepath.Split(session + ".r1cs.")
+	if dir == "" {
+		dir = "."
+	}
+	entries, err := os.ReadDir(dir)
+	if err != nil {
+		return nil, err
+	}
+	var paths []string
+	for _, entry := range entries {
+		if strings.HasPrefix(entry.Name(), prefix) {
+			paths = append(paths, filepath.Join(dir, entry.Name()))
+		}
+	}
+	return paths, nil
+}
+
 // processHeaderParted r1cs has no R1CCore.Constraints included
 func processHeaderParted(r1cs *cs_bn254.R1CS, nbCons int, phase1File, phase2File *os.File) (*phase1.Header, *Header, error) {
 	fmt.Println("Processing the headers ...")
diff --git a/phase2/phase2.go b/phase2/phase2.go
index 9adfde3..c45e7e5 100644
--- a/phase2/phase2.go
+++ b/phase2/phase2.go
@@ -24,6 +24,11 @@ func Initialize(phase1Path, r1csPath, phase2Path string) error {
 		return err
 	}
 	defer phase2File.Close()
+	for _, output := range []string{"srs.lag", "evals"} {
+		if err := common.CheckOutput(output, phase1Path, r1csPath, phase2Path); err != nil {
+			return err
+		}
+	}
 
 	// 1. Process Headers
 	header1, header2, err := processHeader(r1csPath, phase1File, phase2File)
-- 
2.43.0


From 695e586cc21387494c8c31ee1049ad0c9c2eb61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 16/16] fix: refuse to extract keys from the evaluations of
 another circuit

---
 keys/keys.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/keys/keys.go b/keys/keys.go
index 394a999..cff3b5b 100644
--- a/keys/keys.go
+++ b/keys/keys.go
@@ -3,6 +3,7 @@ package keys
 import (
 	"bufio"
 	"encoding/gob"
+	"errors"
 	"fmt"
 	"io"
 	"os"
@@ -17,6 +18,8 @@ import (
 	"github.com/consensys/gnark/constraint"
 )
 
+var errMismatch = errors.New("the evaluations are of another circuit than the phase 2 file")
+
 type VerifyingKey struct {
 	G1 struct {
 		Alpha       bn254.G1Affine
@@ -153,6 +156,9 @@ func extractPK(phase2Path string) error {
 	if err := decEvals.Decode(&buffG1); err != nil {
 		return err
 	}
+	if len(buffG1) != header.Wires {
+		return errMismatch
+	}
 	buffG1, infinityA, nbInfinityA := filterInfinityG1(buffG1)
 	if err := encPk.Encode(buffG1); err != nil {
 		return err
@@ -162,6 +168,9 @@ func extractPK(phase2Path string) error {
 	if err := decEvals.Decode(&buffG1); err != nil {
 		return err
 	}
+	if len(buffG1) != header.Wires {
+		return errMismatch
+	}
 	buffG1, infinityB, nbInfinityB := filterInfinityG1(buffG1)
 	if err := encPk.Encode(buffG1); err != nil {
 		return err
@@ -204,6 +213,9 @@ func extractPK(phase2Path string) error {
 	if err := decEvals.Decode(&buffG2); err != nil {
 		return err
 	}
+	if len(buffG2) != header.Wires {
+		return errMismatch
+	}
 	buffG2, _, _ = filterInfinityG2(buffG2)
 	if err := encPk.Encode(buffG2); err != nil {
 		return err
@@ -371,6 +383,9 @@ func extractSplitPK(phase2Path, session string) error {
 	if err := decEvals.Decode(&buffG1); err != nil {
 		return err
 	}
+	if len(buffG1) != header.Wires {
+		return errMismatch
+	}
 	buffG1, infinityA, nbInfinityA := filterInfinityG1(buffG1)
 	if err := encPkA.Encode(buffG1); err != nil {
 		return err
@@ -380,6 +395,9 @@ func extractSplitPK(phase2Path, session string) error {
 	if err := decEvals.Decode(&buffG1); err != nil {
 		return err
 	}
+	if len(buffG1) != header.Wires {
+		return errMismatch
+	}
 	buffG1, infinityB, nbInfinityB := filterInfinityG1(buffG1)
 	if err := encPkB1.Encode(buffG1); err != nil {
 		return err
@@ -422,6 +440,9 @@ func extractSplitPK(phase2Path, session string) error {
 	if err := decEvals.Decode(&buffG2); err != nil {
 		return err
 	}
+	if len(buffG2) != header.Wires {
+		return errMismatch
+	}
 	buffG2, _, _ = filterInfinityG2(buffG2)
 	if err := encPkB2.Encode(buffG2); err != nil {
 		return err
@@ -535,12 +556,18 @@ func extractVK(phase2Path string) error {
 	if err := decEvals.Decode(&vk.G1.K); err != nil {
 		return err
 	}
+	if len(vk.G1.K) != header.Public {
+		return errMismatch
+	}
 
 	// 8. Setup commitment key
 	var ckk []bn254.G1Affine
 	if err := decEvals.Decode(&ckk); err != nil {
 		return err
 	}
+	if len(ckk) != header.PrivateCommitted {
+		return errMismatch
+	}
 	vk.CommitmentKey, err = pedersen.Setup(ckk)
 	if err != nil {
 		return err
@@ -630,12 +657,18 @@ func extractSplitVK(phase2Path, session string) error {
 	if err := decEvals.Decode(&vk.G1.K); err != nil {
 		return err
 	}
+	if len(vk.G1.K) != header.Public {
+		return errMismatch
+	}
 
 	// 8. Setup commitment key
 	var ckk []bn254.G1Affine
 	if err := decEvals.Decode(&ckk); err != nil {
 		return err
 	}
+	if len(ckk) != header.PrivateCommitted {
+		return errMismatch
+	}
 	vk.CommitmentKey, err = pedersen.Setup(ckk)
 	if err != nil {
 		return err
-- 
2.43.0

