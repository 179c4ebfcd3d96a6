From 69be68e03f8ef50949b15011fbf06531696739ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:57 +0000
Subject: [PATCH 01/24] fix: phase 1 verification really checks the powers of
 tau

The scalars passed to MultiExp were one longer than the points, MultiExp
returned an error that was dropped, and both linear combinations stayed at
infinity, so every pairing check of the parameters held trivially.
---
 phase1/phase1.go |  2 +-
 phase1/utils.go  | 16 ++++++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/phase1/phase1.go b/phase1/phase1.go
index 09fcb70..9f534cd 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -360,7 +360,7 @@ func Verify(inputPath, transformedPath string) error {
 
 	// Read and verify TauG2
 	fmt.Println("Verifying powers of TauG2")
-	if !common.SameRatio(g1, current.G1.Tau, tau2L1, tau2L2) {
+	if !common.SameRatio(g1, current.G1.Tau, tau2L2, tau2L1) {
 		return errors.New("failed pairing check")
 	}
 
diff --git a/phase1/utils.go b/phase1/utils.go
index f575206..701fa79 100644
--- a/phase1/utils.go
+++ b/phase1/utils.go
@@ -182,8 +182,12 @@ func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Aff
 		randomize(r)
 
 		// Process the batch
-		tmpL1.MultiExp(buff[:readCount-1], r, ecc.MultiExpConfig{})
-		tmpL2.MultiExp(buff[1:readCount], r, ecc.MultiExpConfig{})
+		if _, err := tmpL1.MultiExp(buff[:readCount-1], r[:readCount-1], ecc.MultiExpConfig{}); err != nil {
+			return L1, L2, err
+		}
+		if _, err := tmpL2.MultiExp(buff[1:readCount], r[:readCount-1], ecc.MultiExpConfig{}); err != nil {
+			return L1, L2, err
+		}
 		L1.Add(&L1, &tmpL1)
 		L2.Add(&L2, &tmpL2)
 
@@ -214,8 +218,12 @@ func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Aff
 		randomize(r)
 
 		// Process the batch
-		tmpL1.MultiExp(buff[:readCount-1], r, ecc.MultiExpConfig{})
-		tmpL2.MultiExp(buff[1:readCount], r, ecc.MultiExpConfig{})
+		if _, err := tmpL1.MultiExp(buff[:readCount-1], r[:readCount-1], ecc.MultiExpConfig{}); err != nil {
+			return L1, L2, err
+		}
+		if _, err := tmpL2.MultiExp(buff[1:readCount], r[:readCount-1], ecc.MultiExpConfig{}); err != nil {
+			return L1, L2, err
+		}
 		L1.Add(&L1, &tmpL1)
 		L2.Add(&L2, &tmpL2)
 
-- 
2.43.0


From 12fd6fa0d0c0167884b2f0f069ca9c6c84cd1402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:58 +0000
Subject: [PATCH 02/24] fix: phase 1 verification relates the points on both
 sides of a batch boundary

The ratio of the last point of a batch to the first one of the next batch was
never part of the random linear combination, so each batch of 2^20 points could
start at any multiple.
---
 phase1/utils.go | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/phase1/utils.go b/phase1/utils.go
index 701fa79..be10c89 100644
--- a/phase1/utils.go
+++ b/phase1/utils.go
@@ -162,35 +162,41 @@ func randomize(r []fr.Element) {
 }
 
 func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Affine, error) {
-	// Allocate batch with smallest of (N, batchSize)
+	// Allocate batch with smallest of (N, batchSize), preceded by the last point of the previous batch
 	var initialSize = int(math.Min(float64(N), float64(batchSize)))
-	buff := make([]bn254.G1Affine, initialSize)
+	buff := make([]bn254.G1Affine, initialSize+1)
 	r := make([]fr.Element, initialSize)
 	var L1, L2, tmpL1, tmpL2 bn254.G1Affine
 
+	carried := 0
 	remaining := N
 	for remaining > 0 {
 		// Read batch
 		readCount := int(math.Min(float64(remaining), float64(batchSize)))
 		for i := 0; i < readCount; i++ {
-			if err := dec.Decode(&buff[i]); err != nil {
+			if err := dec.Decode(&buff[carried+i]); err != nil {
 				return L1, L2, err
 			}
 		}
+		count := carried + readCount
 
 		// Generate randomness
 		randomize(r)
 
 		// Process the batch
-		if _, err := tmpL1.MultiExp(buff[:readCount-1], r[:readCount-1], ecc.MultiExpConfig{}); err != nil {
+		if _, err := tmpL1.MultiExp(buff[:count-1], r[:count-1], ecc.MultiExpConfig{}); err != nil {
 			return L1, L2, err
 		}
-		if _, err := tmpL2.MultiExp(buff[1:readCount], r[:readCount-1], ecc.MultiExpConfig{}); err != nil {
+		if _, err := tmpL2.MultiExp(buff[1:count], r[:count-1], ecc.MultiExpConfig{}); err != nil {
 			return L1, L2, err
 		}
 		L1.Add(&L1, &tmpL1)
 		L2.Add(&L2, &tmpL2)
 
+		// The next batch starts at the last point of this one
+		buff[0].Set(&buff[count-1])
+		carried = 1
+
 		// Update remaining
 		remaining -= readCount
 	}
@@ -198,35 +204,41 @@ func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Aff
 }
 
 func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Affine, error) {
-	// Allocate batch with smallest of (N, batchSize)
+	// Allocate batch with smallest of (N, batchSize), preceded by the last point of the previous batch
 	var initialSize = int(math.Min(float64(N), float64(batchSize)))
-	buff := make([]bn254.G2Affine, initialSize)
+	buff := make([]bn254.G2Affine, initialSize+1)
 	r := make([]fr.Element, initialSize)
 	var L1, L2, tmpL1, tmpL2 bn254.G2Affine
 
+	carried := 0
 	remaining := N
 	for remaining > 0 {
 		// Read batch
 		readCount := int(math.Min(float64(remaining), float64(batchSize)))
 		for i := 0; i < readCount; i++ {
-			if err := dec.Decode(&buff[i]); err != nil {
+			if err := dec.Decode(&buff[carried+i]); err != nil {
 				return L1, L2, err
 			}
 		}
+		count := carried + readCount
 
 		// Generate randomness
 		randomize(r)
 
 		// Process the batch
-		if _, err := tmpL1.MultiExp(buff[:readCount-1], r[:readCount-1], ecc.MultiExpConfig{}); err != nil {
+		if _, err := tmpL1.MultiExp(buff[:count-1], r[:count-1], ecc.MultiExpConfig{}); err != nil {
 			return L1, L2, err
 		}
-		if _, err := tmpL2.MultiExp(buff[1:readCount], r[:readCount-1], ecc.MultiExpConfig{}); err != nil {
+		if _, err := tmpL2.MultiExp(buff[1:count], r[:count-1], ecc.MultiExpConfig{}); err != nil {
 			return L1, L2, err
 		}
 		L1.Add(&L1, &tmpL1)
 		L2.Add(&L2, &tmpL2)
 
+		// The next batch starts at the last point of this one
+		buff[0].Set(&buff[count-1])
+		carried = 1
+
 		// Update remaining
 		remaining -= readCount
 	}
-- 
2.43.0


From fd1eaa909e905b8eb9cc431daf8b18a2ce8190bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:16 +0000
Subject: [PATCH 03/24] fix: phase 1 verification anchors the first point of
 every section

Only ratios were verified, so TauG1, AlphaTauG1, BetaTauG1 and TauG2 could be
arbitrary multiples of what the contributions produced. Tie them to the
generators and to the last contribution.
---
 phase1/phase1.go | 20 ++++++++++++++++----
 phase1/utils.go  | 32 ++++++++++++++++++++------------
 2 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/phase1/phase1.go b/phase1/phase1.go
index 9f534cd..ebd3c6a 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -294,25 +294,25 @@ func Verify(inputPath, transformedPath string) error {
 	dec := bn254.NewDecoder(reader)
 
 	fmt.Println("Processing TauG1")
-	tau1L1, tau1L2, err := linearCombinationG1(dec, 2*N-1)
+	tau1First, tau1L1, tau1L2, err := linearCombinationG1(dec, 2*N-1)
 	if err != nil {
 		return err
 	}
 
 	fmt.Println("Processing AlphaTauG1")
-	alphaTau1L1, alphaTau1L2, err := linearCombinationG1(dec, N)
+	alphaTau1First, alphaTau1L1, alphaTau1L2, err := linearCombinationG1(dec, N)
 	if err != nil {
 		return err
 	}
 
 	fmt.Println("Processing BetaTauG1")
-	betaTau1L1, betaTau1L2, err := linearCombinationG1(dec, N)
+	betaTau1First, betaTau1L1, betaTau1L2, err := linearCombinationG1(dec, N)
 	if err != nil {
 		return err
 	}
 
 	fmt.Println("Processing TauG2")
-	tau2L1, tau2L2, err := linearCombinationG2(dec, N)
+	tau2First, tau2L1, tau2L2, err := linearCombinationG2(dec, N)
 	if err != nil {
 		return err
 	}
@@ -342,24 +342,36 @@ func Verify(inputPath, transformedPath string) error {
 	_, _, g1, g2 := bn254.Generators()
 	// Read and verify TauG1
 	fmt.Println("Verifying powers of TauG1")
+	if !tau1First.Equal(&g1) {
+		return errors.New("the first power in TauG1 isn't the generator")
+	}
 	if !common.SameRatio(tau1L1, tau1L2, current.G2.Tau, g2) {
 		return errors.New("failed pairing check")
 	}
 
 	// Read and verify AlphaTauG1
 	fmt.Println("Verifying powers of AlphaTauG1")
+	if !alphaTau1First.Equal(&current.G1.Alpha) {
+		return errors.New("failed verifying update of Alpha")
+	}
 	if !common.SameRatio(alphaTau1L1, alphaTau1L2, current.G2.Tau, g2) {
 		return errors.New("failed pairing check")
 	}
 
 	// Read and verify BetaTauG1
 	fmt.Println("Verifying powers of BetaTauG1")
+	if !betaTau1First.Equal(&current.G1.Beta) {
+		return errors.New("failed verifying update of Beta")
+	}
 	if !common.SameRatio(betaTau1L1, betaTau1L2, current.G2.Tau, g2) {
 		return errors.New("failed pairing check")
 	}
 
 	// Read and verify TauG2
 	fmt.Println("Verifying powers of TauG2")
+	if !tau2First.Equal(&g2) {
+		return errors.New("the first power in TauG2 isn't the generator")
+	}
 	if !common.SameRatio(g1, current.G1.Tau, tau2L2, tau2L1) {
 		return errors.New("failed pairing check")
 	}
diff --git a/phase1/utils.go b/phase1/utils.go
index be10c89..6eedede 100644
--- a/phase1/utils.go
+++ b/phase1/utils.go
@@ -161,12 +161,13 @@ func randomize(r []fr.Element) {
 	})
 }
 
-func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Affine, error) {
+// Returns the first of the N points and two linear combinations of them, shifted by one point
+func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Affine, bn254.G1Affine, error) {
 	// Allocate batch with smallest of (N, batchSize), preceded by the last point of the previous batch
 	var initialSize = int(math.Min(float64(N), float64(batchSize)))
 	buff := make([]bn254.G1Affine, initialSize+1)
 	r := make([]fr.Element, initialSize)
-	var L1, L2, tmpL1, tmpL2 bn254.G1Affine
+	var first, L1, L2, tmpL1, tmpL2 bn254.G1Affine
 
 	carried := 0
 	remaining := N
@@ -175,9 +176,12 @@ func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Aff
 		readCount := int(math.Min(float64(remaining), float64(batchSize)))
 		for i := 0; i < readCount; i++ {
 			if err := dec.Decode(&buff[carried+i]); err != nil {
-				return L1, L2, err
+				return first, L1, L2, err
 			}
 		}
+		if carried == 0 {
+			first.Set(&buff[0])
+		}
 		count := carried + readCount
 
 		// Generate randomness
@@ -185,10 +189,10 @@ func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Aff
 
 		// Process the batch
 		if _, err := tmpL1.MultiExp(buff[:count-1], r[:count-1], ecc.MultiExpConfig{}); err != nil {
-			return L1, L2, err
+			return first, L1, L2, err
 		}
 		if _, err := tmpL2.MultiExp(buff[1:count], r[:count-1], ecc.MultiExpConfig{}); err != nil {
-			return L1, L2, err
+			return first, L1, L2, err
 		}
 		L1.Add(&L1, &tmpL1)
 		L2.Add(&L2, &tmpL2)
@@ -200,15 +204,16 @@ func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Aff
 		// Update remaining
 		remaining -= readCount
 	}
-	return L1, L2, nil
+	return first, L1, L2, nil
 }
 
-func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Affine, error) {
+// Returns the first of the N points and two linear combinations of them, shifted by one point
+func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Affine, bn254.G2Affine, error) {
 	// Allocate batch with smallest of (N, batchSize), preceded by the last point of the previous batch
 	var initialSize = int(math.Min(float64(N), float64(batchSize)))
 	buff := make([]bn254.G2Affine, initialSize+1)
 	r := make([]fr.Element, initialSize)
-	var L1, L2, tmpL1, tmpL2 bn254.G2Affine
+	var first, L1, L2, tmpL1, tmpL2 bn254.G2Affine
 
 	carried := 0
 	remaining := N
@@ -217,9 +222,12 @@ func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Aff
 		readCount := int(math.Min(float64(remaining), float64(batchSize)))
 		for i := 0; i < readCount; i++ {
 			if err := dec.Decode(&buff[carried+i]); err != nil {
-				return L1, L2, err
+				return first, L1, L2, err
 			}
 		}
+		if carried == 0 {
+			first.Set(&buff[0])
+		}
 		count := carried + readCount
 
 		// Generate randomness
@@ -227,10 +235,10 @@ func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Aff
 
 		// Process the batch
 		if _, err := tmpL1.MultiExp(buff[:count-1], r[:count-1], ecc.MultiExpConfig{}); err != nil {
-			return L1, L2, err
+			return first, L1, L2, err
 		}
 		if _, err := tmpL2.MultiExp(buff[1:count], r[:count-1], ecc.MultiExpConfig{}); err != nil {
-			return L1, L2, err
+			return first, L1, L2, err
 		}
 		L1.Add(&L1, &tmpL1)
 		L2.Add(&L2, &tmpL2)
@@ -242,7 +250,7 @@ func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Aff
 		// Update remaining
 		remaining -= readCount
 	}
-	return L1, L2, nil
+	return first, L1, L2, nil
 }
 
 func verifyContribution(current, prev Contribution) error {
-- 
2.43.0


From db71679eb49daf35bc64032256fdf280d718a15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:16 +0000
Subject: [PATCH 04/24] fix: phase 1 verification fails on contributions it
 cannot read

---
 phase1/phase1.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/phase1/phase1.go b/phase1/phase1.go
index ebd3c6a..abbffa8 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -330,7 +330,9 @@ func Verify(inputPath, transformedPath string) error {
 		return err
 	}
 	for i := 0; i < int(header.Contributions); i++ {
-		current.ReadFrom(reader)
+		if _, err := current.ReadFrom(reader); err != nil {
+			return err
+		}
 		fmt.Printf("Verifying contribution %d with Hash := %s\n", i+1, hex.EncodeToString(current.Hash))
 		if err := verifyContribution(current, prev); err != nil {
 			return err
-- 
2.43.0


From 61896c08e4edcf9855cd12eaf815e5de8514887b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:16 +0000
Subject: [PATCH 05/24] fix: phase 2 verification fails on parameters it cannot
 read

verifyParameter dropped the error and skipped the check of the field.
---
 phase2/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phase2/utils.go b/phase2/utils.go
index 3e3a312..9aee4bf 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -474,7 +474,7 @@ func verifyContribution(c *Contribution, prevDelta bn254.G1Affine, prevHash []by
 func verifyParameter(delta, g *bn254.G2Affine, inputDecoder, originDecoder *bn254.Decoder, size int, field string) error {
 	// aggregate points
 	if in, or, err := aggregate(inputDecoder, originDecoder, size); err != nil {
-		return nil
+		return err
 	} else {
 		if !common.SameRatio(*in, *or, *delta, *g) {
 			return fmt.Errorf("inconsistent update to %s", field)
-- 
2.43.0


From 674ff9199712097c07b6be283bea78161b5bbf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:17 +0000
Subject: [PATCH 06/24] fix: read whole contribution hashes and headers

A hash that straddles the end of the reader's buffer was read short, which
corrupted the chain of a valid phase 2 file on Contribute and rejected it on
Verify; a truncated header or last hash was accepted as zero padded.
---
 phase1/contribution.go | 2 +-
 phase1/header.go       | 4 ++--
 phase2/contribution.go | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/phase1/contribution.go b/phase1/contribution.go
index bcc7d7c..ffaabe3 100644
--- a/phase1/contribution.go
+++ b/phase1/contribution.go
@@ -78,7 +78,7 @@ func (c *Contribution) ReadFrom(reader io.Reader) (int64, error) {
 		}
 	}
 	c.Hash = make([]byte, 32)
-	nBytes, err := reader.Read(c.Hash)
+	nBytes, err := io.ReadFull(reader, c.Hash)
 	return int64(nBytes), err
 }
 
diff --git a/phase1/header.go b/phase1/header.go
index 88eb1b3..7fe661a 100644
--- a/phase1/header.go
+++ b/phase1/header.go
@@ -13,14 +13,14 @@ type Header struct {
 func (p *Header) ReadFrom(reader io.Reader) error {
 	buffPower := make([]byte, 1)
 	// Read NConstraints
-	if _, err := reader.Read(buffPower); err != nil {
+	if _, err := io.ReadFull(reader, buffPower); err != nil {
 		return err
 	}
 	p.Power = buffPower[0]
 
 	// Read NContribution
 	buffContributions := make([]byte, 2)
-	if _, err := reader.Read(buffContributions); err != nil {
+	if _, err := io.ReadFull(reader, buffContributions); err != nil {
 		return err
 	}
 	p.Contributions = binary.BigEndian.Uint16(buffContributions)
diff --git a/phase2/contribution.go b/phase2/contribution.go
index 0ca5d89..c54bbd3 100644
--- a/phase2/contribution.go
+++ b/phase2/contribution.go
@@ -47,7 +47,7 @@ func (c *Contribution) readFrom(reader io.Reader) (int64, error) {
 		}
 	}
 	c.Hash = make([]byte, 32)
-	nBytes, err := reader.Read(c.Hash)
+	nBytes, err := io.ReadFull(reader, c.Hash)
 	return int64(nBytes), err
 }
 
-- 
2.43.0


From 8625f8688f626009249c7a52fff9132ab790e596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:18 +0000
Subject: [PATCH 07/24] fix: reject contributions whose public key is at
 infinity

They pass every pairing check without knowledge of the toxic parameter; in
phase 1 they also leave tau and beta in G2 unrelated to the previous ones.
---
 common/keypair.go | 6 ++++++
 phase1/utils.go   | 5 +++++
 phase2/utils.go   | 5 +++++
 3 files changed, 16 insertions(+)

diff --git a/common/keypair.go b/common/keypair.go
index a3aa375..3ada786 100644
--- a/common/keypair.go
+++ b/common/keypair.go
@@ -36,6 +36,12 @@ func GenPublicKey(x fr.Element, challenge []byte, dst byte) PublicKey {
 	return pk
 }
 
+// IsDegenerate tells whether the key proves no knowledge: with S or SX at infinity
+// the pairing checks between them hold for any update
+func (pk *PublicKey) IsDegenerate() bool {
+	return pk.S.IsInfinity() || pk.SX.IsInfinity()
+}
+
 // Generate SP in G₂ as Hash(gˢ, gˢˣ, challenge, dst)
 func GenSP(sG1, sxG1 bn254.G1Affine, challenge []byte, dst byte) bn254.G2Affine {
 	buffer := append(sG1.Marshal()[:], sxG1.Marshal()...)
diff --git a/phase1/utils.go b/phase1/utils.go
index 6eedede..9be2738 100644
--- a/phase1/utils.go
+++ b/phase1/utils.go
@@ -254,6 +254,11 @@ func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Aff
 }
 
 func verifyContribution(current, prev Contribution) error {
+	// Reject public keys which prove no knowledge
+	if current.PublicKeys.Tau.IsDegenerate() || current.PublicKeys.Alpha.IsDegenerate() || current.PublicKeys.Beta.IsDegenerate() {
+		return errors.New("the contribution has a public key at infinity")
+	}
+
 	// Compute SP for τ, α, β
 	tauSP := common.GenSP(current.PublicKeys.Tau.S, current.PublicKeys.Tau.SX, prev.Hash[:], 1)
 	alphaSP := common.GenSP(current.PublicKeys.Alpha.S, current.PublicKeys.Alpha.SX, prev.Hash[:], 2)
diff --git a/phase2/utils.go b/phase2/utils.go
index 9aee4bf..729592e 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -450,6 +450,11 @@ func scale(dec *bn254.Decoder, enc *bn254.Encoder, N int, delta *big.Int) error
 }
 
 func verifyContribution(c *Contribution, prevDelta bn254.G1Affine, prevHash []byte) error {
+	// Reject public keys which prove no knowledge
+	if c.PublicKey.IsDegenerate() {
+		return errors.New("the contribution has a public key at infinity")
+	}
+
 	// Compute SP for δ
 	deltaSP := common.GenSP(c.PublicKey.S, c.PublicKey.SX, prevHash, 1)
 
-- 
2.43.0


From 5a31ce798865b6bd98e680931b4bf291dd49b228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:30 +0000
Subject: [PATCH 08/24] fix: report output that couldn't be written

Buffered output was flushed by a deferred call whose error was lost, and a few
writes weren't checked, so a full disk ended in a success message, exit status
0 and a truncated file.
---
 keys/keys.go       | 25 +++++++++++++------------
 phase1/phase1.go   | 20 +++++++++++++++-----
 phase1/utils.go    |  6 ++----
 phase2/lagrange.go |  6 ++----
 phase2/parted.go   |  7 ++++---
 phase2/phase2.go   |  8 ++++++--
 phase2/utils.go    | 10 +++++-----
 7 files changed, 47 insertions(+), 35 deletions(-)

diff --git a/keys/keys.go b/keys/keys.go
index 47bdb44..42281e1 100644
--- a/keys/keys.go
+++ b/keys/keys.go
@@ -103,7 +103,6 @@ func extractPK(phase2Path string) error {
 	}
 	defer pkFile.Close()
 	pkWriter := bufio.NewWriter(pkFile)
-	defer pkWriter.Flush()
 	encPk := bn254.NewEncoder((pkWriter))
 
 	var alphaG1, betaG1, deltaG1 bn254.G1Affine
@@ -111,7 +110,9 @@ func extractPK(phase2Path string) error {
 
 	// 0. Write domain
 	domain := fft.NewDomain(uint64(header.Domain))
-	domain.WriteTo(pkWriter)
+	if _, err := domain.WriteTo(pkWriter); err != nil {
+		return err
+	}
 
 	// 1. Read/Write [α]₁
 	if err := decEvals.Decode(&alphaG1); err != nil {
@@ -234,7 +235,7 @@ func extractPK(phase2Path string) error {
 		return err
 	}
 
-	return nil
+	return pkWriter.Flush()
 }
 
 func extractSplitPK(phase2Path, session string) error {
@@ -271,7 +272,6 @@ func extractSplitPK(phase2Path, session string) error {
 	}
 	defer pkEFile.Close()
 	pkEWriter := bufio.NewWriter(pkEFile)
-	defer pkEWriter.Flush()
 	encPkE := bn254.NewEncoder(pkEWriter, bn254.RawEncoding())
 
 	name = fmt.Sprintf("%s.pk.A.save", session)
@@ -281,7 +281,6 @@ func extractSplitPK(phase2Path, session string) error {
 	}
 	defer pkAFile.Close()
 	pkAWriter := bufio.NewWriter(pkAFile)
-	defer pkAWriter.Flush()
 	encPkA := bn254.NewEncoder(pkAWriter, bn254.RawEncoding())
 
 	name = fmt.Sprintf("%s.pk.B1.save", session)
@@ -291,7 +290,6 @@ func extractSplitPK(phase2Path, session string) error {
 	}
 	defer pkB1File.Close()
 	pkB1Writer := bufio.NewWriter(pkB1File)
-	defer pkB1Writer.Flush()
 	encPkB1 := bn254.NewEncoder(pkB1Writer, bn254.RawEncoding())
 
 	name = fmt.Sprintf("%s.pk.Z.save", session)
@@ -301,7 +299,6 @@ func extractSplitPK(phase2Path, session string) error {
 	}
 	defer pkZFile.Close()
 	pkZWriter := bufio.NewWriter(pkZFile)
-	defer pkZWriter.Flush()
 	encPkZ := bn254.NewEncoder(pkZWriter, bn254.RawEncoding())
 
 	name = fmt.Sprintf("%s.pk.K.save", session)
@@ -311,7 +308,6 @@ func extractSplitPK(phase2Path, session string) error {
 	}
 	defer pkKFile.Close()
 	pkKWriter := bufio.NewWriter(pkKFile)
-	defer pkKWriter.Flush()
 	encPkK := bn254.NewEncoder(pkKWriter, bn254.RawEncoding())
 
 	name = fmt.Sprintf("%s.pk.B2.save", session)
@@ -321,7 +317,6 @@ func extractSplitPK(phase2Path, session string) error {
 	}
 	defer pkB2File.Close()
 	pkB2Writer := bufio.NewWriter(pkB2File)
-	defer pkB2Writer.Flush()
 	encPkB2 := bn254.NewEncoder(pkB2Writer, bn254.RawEncoding())
 
 	var alphaG1, betaG1, deltaG1 bn254.G1Affine
@@ -458,6 +453,11 @@ func extractSplitPK(phase2Path, session string) error {
 		return err
 	}
 
+	for _, w := range []*bufio.Writer{pkEWriter, pkAWriter, pkB1Writer, pkZWriter, pkKWriter, pkB2Writer} {
+		if err := w.Flush(); err != nil {
+			return err
+		}
+	}
 	return nil
 }
 
@@ -495,7 +495,6 @@ func extractVK(phase2Path string) error {
 	}
 	defer vkFile.Close()
 	vkWriter := bufio.NewWriter(vkFile)
-	defer vkWriter.Flush()
 
 	// 1. Read [α]₁
 	if err := decEvals.Decode(&vk.G1.Alpha); err != nil {
@@ -548,7 +547,7 @@ func extractVK(phase2Path string) error {
 	if _, err := vk.writeTo(vkWriter); err != nil {
 		return err
 	}
-	return nil
+	return vkWriter.Flush()
 }
 
 func extractSplitVK(phase2Path, session string) error {
@@ -586,7 +585,6 @@ func extractSplitVK(phase2Path, session string) error {
 	}
 	defer vkFile.Close()
 	vkWriter := bufio.NewWriter(vkFile)
-	defer vkWriter.Flush()
 
 	// 1. Read [α]₁
 	if err := decEvals.Decode(&vk.G1.Alpha); err != nil {
@@ -639,6 +637,9 @@ func extractSplitVK(phase2Path, session string) error {
 	if _, err := vk.writeTo(vkWriter); err != nil {
 		return err
 	}
+	if err := vkWriter.Flush(); err != nil {
+		return err
+	}
 
 	// Write the commitment key so that it can be read in pk separately
 	name = fmt.Sprintf("%s.pk.CommitmentKey.save", session)
diff --git a/phase1/phase1.go b/phase1/phase1.go
index abbffa8..4105e3d 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -97,12 +97,13 @@ func Initialize(power byte, outputPath string) error {
 	fmt.Printf("Power %d supports up to %d constraints\n", power, N)
 
 	// Write the header
-	header.writeTo(outputFile)
+	if err := header.writeTo(outputFile); err != nil {
+		return err
+	}
 
 	// Use buffered IO to write parameters efficiently
 	buffSize := int(math.Pow(2, 20))
 	writer := bufio.NewWriterSize(outputFile, buffSize)
-	defer writer.Flush()
 
 	// BN254 encoder using compressed representation of points to save storage space
 	enc := bn254.NewEncoder(writer)
@@ -142,7 +143,12 @@ func Initialize(power byte, outputPath string) error {
 
 	// Write [β]₂
 	fmt.Println("5. Writing BetaG2")
-	enc.Encode(&g2)
+	if err := enc.Encode(&g2); err != nil {
+		return err
+	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
 
 	fmt.Println("Initialization has been completed successfully")
 	return nil
@@ -178,7 +184,6 @@ func Contribute(inputPath, outputPath string) error {
 	// Use buffered IO to write parameters efficiently
 	reader := bufio.NewReader(inputFile)
 	writer := bufio.NewWriter(outputFile)
-	defer writer.Flush()
 
 	dec := bn254.NewDecoder(reader)
 	enc := bn254.NewEncoder(writer)
@@ -264,7 +269,12 @@ func Contribute(inputPath, outputPath string) error {
 	contribution.Hash = computeHash(&contribution)
 
 	// Write the contribution
-	contribution.writeTo(writer)
+	if _, err := contribution.writeTo(writer); err != nil {
+		return err
+	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
 
 	fmt.Println("Contirbution has been successful!")
 	fmt.Println("Contribution Hash := ", hex.EncodeToString(contribution.Hash))
diff --git a/phase1/utils.go b/phase1/utils.go
index 9be2738..c603c8f 100644
--- a/phase1/utils.go
+++ b/phase1/utils.go
@@ -308,7 +308,6 @@ func transformG1(inputFile, outputFile *os.File, position int64, size int) error
 	}
 	reader := bufio.NewReader(inputFile)
 	writer := bufio.NewWriter(outputFile)
-	defer writer.Flush()
 
 	dec := bn254.NewDecoder(reader)
 	enc := bn254.NewEncoder(writer)
@@ -321,7 +320,7 @@ func transformG1(inputFile, outputFile *os.File, position int64, size int) error
 			return err
 		}
 	}
-	return nil
+	return writer.Flush()
 }
 
 func transformG2(inputFile, outputFile *os.File, position int64, size int) error {
@@ -331,7 +330,6 @@ func transformG2(inputFile, outputFile *os.File, position int64, size int) error
 	}
 	reader := bufio.NewReader(inputFile)
 	writer := bufio.NewWriter(outputFile)
-	defer writer.Flush()
 
 	dec := bn254.NewDecoder(reader)
 	enc := bn254.NewEncoder(writer)
@@ -344,5 +342,5 @@ func transformG2(inputFile, outputFile *os.File, position int64, size int) error
 			return err
 		}
 	}
-	return nil
+	return writer.Flush()
 }
diff --git a/phase2/lagrange.go b/phase2/lagrange.go
index ea5dd0a..b956cd7 100644
--- a/phase2/lagrange.go
+++ b/phase2/lagrange.go
@@ -17,7 +17,6 @@ func lagrangeG1(phase1File, lagFile *os.File, position int64, domain *fft.Domain
 
 	reader := bufio.NewReader(phase1File)
 	writer := bufio.NewWriter(lagFile)
-	defer writer.Flush()
 	dec := bn254.NewDecoder(reader)
 	enc := bn254.NewEncoder(writer)
 
@@ -34,7 +33,7 @@ func lagrangeG1(phase1File, lagFile *os.File, position int64, domain *fft.Domain
 	if err := enc.Encode(buff); err != nil {
 		return err
 	}
-	return nil
+	return writer.Flush()
 }
 
 func lagrangeG2(phase1File, lagFile *os.File, position int64, domain *fft.Domain) error {
@@ -45,7 +44,6 @@ func lagrangeG2(phase1File, lagFile *os.File, position int64, domain *fft.Domain
 
 	reader := bufio.NewReader(phase1File)
 	writer := bufio.NewWriter(lagFile)
-	defer writer.Flush()
 	dec := bn254.NewDecoder(reader)
 	enc := bn254.NewEncoder(writer)
 
@@ -62,5 +60,5 @@ func lagrangeG2(phase1File, lagFile *os.File, position int64, domain *fft.Domain
 	if err := enc.Encode(buff); err != nil {
 		return err
 	}
-	return nil
+	return writer.Flush()
 }
diff --git a/phase2/parted.go b/phase2/parted.go
index a19446e..e9dbb70 100644
--- a/phase2/parted.go
+++ b/phase2/parted.go
@@ -210,7 +210,6 @@ func processPVCKKParted(r1cs *cs_bn254.R1CS, r1csPrefix string, nbCons, batchSiz
 	var buffSRS []bn254.G1Affine
 	reader := bufio.NewReader(lagFile)
 	writer := bufio.NewWriter(phase2File)
-	defer writer.Flush()
 	dec := bn254.NewDecoder(reader)
 	enc := bn254.NewEncoder(writer)
 
@@ -269,7 +268,6 @@ func processPVCKKParted(r1cs *cs_bn254.R1CS, r1csPrefix string, nbCons, batchSiz
 	}
 	defer evalFile.Close()
 	evalWriter := bufio.NewWriter(evalFile)
-	defer evalWriter.Flush()
 	evalEnc := bn254.NewEncoder(evalWriter)
 	if err := evalEnc.Encode(vkk); err != nil {
 		return err
@@ -286,5 +284,8 @@ func processPVCKKParted(r1cs *cs_bn254.R1CS, r1csPrefix string, nbCons, batchSiz
 		return err
 	}
 
-	return nil
+	if err := evalWriter.Flush(); err != nil {
+		return err
+	}
+	return writer.Flush()
 }
diff --git a/phase2/phase2.go b/phase2/phase2.go
index af219a7..963e515 100644
--- a/phase2/phase2.go
+++ b/phase2/phase2.go
@@ -72,7 +72,6 @@ func Contribute(inputPath, outputPath string) error {
 	}
 	defer outputFile.Close()
 	writer := bufio.NewWriter(outputFile)
-	defer writer.Flush()
 	enc := bn254.NewEncoder(writer)
 
 	// Read/Write header with extra contribution
@@ -154,7 +153,12 @@ func Contribute(inputPath, outputPath string) error {
 	contribution.Hash = computeHash(&contribution)
 
 	// Write the contribution
-	contribution.writeTo(writer)
+	if _, err := contribution.writeTo(writer); err != nil {
+		return err
+	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
 
 	fmt.Println("Contirbution has been successful!")
 	fmt.Println("Contribution Hash := ", hex.EncodeToString(contribution.Hash))
diff --git a/phase2/utils.go b/phase2/utils.go
index 729592e..f8fbee1 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -229,7 +229,6 @@ func processEvaluations(header1 *phase1.Header, header2 *Header, r1csPath string
 func processDeltaAndZ(header1 *phase1.Header, header2 *Header, phase1File, phase2File *os.File) error {
 	fmt.Println("Processing Delta and Z")
 	writer := bufio.NewWriter(phase2File)
-	defer writer.Flush()
 	enc := bn254.NewEncoder(writer)
 
 	// Write [δ]₁ and [δ]₂
@@ -271,7 +270,7 @@ func processDeltaAndZ(header1 *phase1.Header, header2 *Header, phase1File, phase
 			return err
 		}
 	}
-	return nil
+	return writer.Flush()
 }
 
 func processPVCKK(header1 *phase1.Header, header2 *Header, r1csPath string, phase2File *os.File) error {
@@ -296,7 +295,6 @@ func processPVCKK(header1 *phase1.Header, header2 *Header, r1csPath string, phas
 	var buffSRS []bn254.G1Affine
 	reader := bufio.NewReader(lagFile)
 	writer := bufio.NewWriter(phase2File)
-	defer writer.Flush()
 	dec := bn254.NewDecoder(reader)
 	enc := bn254.NewEncoder(writer)
 
@@ -352,7 +350,6 @@ func processPVCKK(header1 *phase1.Header, header2 *Header, r1csPath string, phas
 	}
 	defer evalFile.Close()
 	evalWriter := bufio.NewWriter(evalFile)
-	defer evalWriter.Flush()
 	evalEnc := bn254.NewEncoder(evalWriter)
 	if err := evalEnc.Encode(vkk); err != nil {
 		return err
@@ -369,7 +366,10 @@ func processPVCKK(header1 *phase1.Header, header2 *Header, r1csPath string, phas
 		return err
 	}
 
-	return nil
+	if err := evalWriter.Flush(); err != nil {
+		return err
+	}
+	return writer.Flush()
 }
 
 func accumulateG1(r1cs *cs_bn254.R1CS, res *bn254.G1Affine, t constraint.Term, value *bn254.G1Affine) {
-- 
2.43.0


From a7b08eb422f4226d662df995a85c631c86682dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:30 +0000
Subject: [PATCH 09/24] fix: write the split commitment key once

---
 keys/keys.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/keys/keys.go b/keys/keys.go
index 42281e1..e63687a 100644
--- a/keys/keys.go
+++ b/keys/keys.go
@@ -648,7 +648,6 @@ func extractSplitVK(phase2Path, session string) error {
 		return err
 	}
 	defer commitmentKeyFile.Close()
-	vk.CommitmentKey.WriteTo(commitmentKeyFile)
 	_, err = vk.CommitmentKey.WriteTo(commitmentKeyFile)
 	if err != nil {
 		return err
-- 
2.43.0


From e24d9638ec9b4ad1460020c18ae11c29170f2208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:31 +0000
Subject: [PATCH 10/24] fix: return the errors of the Solidity export instead
 of panicking

---
 keys/keys.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/keys/keys.go b/keys/keys.go
index e63687a..90cdf01 100644
--- a/keys/keys.go
+++ b/keys/keys.go
@@ -684,20 +684,22 @@ func ExtractSplitKeys(phase2Path, session string) error {
 func ExportSol(session string) error {
 	filename := session + ".sol"
 	fmt.Printf("Exporting %s\n", filename)
-	f, _ := os.Open(session + ".vk.save")
-	verifyingKey := groth16.NewVerifyingKey(ecc.BN254)
-	_, err := verifyingKey.ReadFrom(f)
+	f, err := os.Open(session + ".vk.save")
 	if err != nil {
-		panic(fmt.Errorf("read file error"))
+		return err
 	}
-	err = f.Close()
-	f, err = os.Create(filename)
-	if err != nil {
-		panic(err)
+	defer f.Close()
+	verifyingKey := groth16.NewVerifyingKey(ecc.BN254)
+	if _, err := verifyingKey.ReadFrom(f); err != nil {
+		return err
 	}
-	err = verifyingKey.ExportSolidity(f)
+	solFile, err := os.Create(filename)
 	if err != nil {
-		panic(err)
+		return err
+	}
+	defer solFile.Close()
+	if err := verifyingKey.ExportSolidity(solFile); err != nil {
+		return err
 	}
 	fmt.Printf("%s has been extracted successfully\n", filename)
 	return nil
-- 
2.43.0


From a0e8145bc3f744504540a8f60a12c3a50a832fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:32 +0000
Subject: [PATCH 11/24] fix: refuse a phase 1 contribution when the header's
 counter is full

---
 phase1/phase1.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phase1/phase1.go b/phase1/phase1.go
index 4105e3d..15d38f2 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -176,6 +176,9 @@ func Contribute(inputPath, outputPath string) error {
 	}
 	fmt.Printf("Power := %d and  #Contributions := %d\n", header.Power, header.Contributions)
 	N := int(math.Pow(2, float64(header.Power)))
+	if header.Contributions == math.MaxUint16 {
+		return errors.New("the file can't record more contributions")
+	}
 	header.Contributions++
 	if err := header.writeTo(outputFile); err != nil {
 		return err
-- 
2.43.0


From 4128e52f49a78596c9450bf066273b5e4a51118b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:57 +0000
Subject: [PATCH 12/24] fix: reject powers of tau out of range on the command
 line

Zero and negative powers, and values which wrap around in a byte, were passed
on; power 0 gives a file that no one can contribute to.
---
 actions.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/actions.go b/actions.go
index 52eb39c..214d21e 100644
--- a/actions.go
+++ b/actions.go
@@ -29,6 +29,12 @@ func p1t(cCtx *cli.Context) error {
 	if inPower < outPower {
 		return errors.New("cannot transform to a higher power")
 	}
+	if outPower < 1 {
+		return errors.New("can't support powers smaller than 1")
+	}
+	if inPower > 28 {
+		return errors.New("can't support powers larger than 28")
+	}
 	err = phase1.Transform(inputPath, outputPath, byte(inPower), byte(outPower))
 	return err
 }
@@ -43,6 +49,9 @@ func p1n(cCtx *cli.Context) error {
 	if err != nil {
 		return err
 	}
+	if power < 1 {
+		return errors.New("can't support powers smaller than 1")
+	}
 	if power > 26 {
 		return errors.New("can't support powers larger than 26")
 	}
-- 
2.43.0


From ed2787b04b775fb265cfeb4d144f57393bde3be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:55 +0000
Subject: [PATCH 13/24] fix: refuse to overwrite an input file with the output

The output was created, and truncated, before the input was read: contributing
in place destroyed the file.
---
 common/output.go | 33 +++++++++++++++++++++++++++++++++
 keys/keys.go     | 23 ++++++++++++-----------
 phase1/phase1.go |  4 ++--
 phase2/parted.go |  6 +++++-
 phase2/phase2.go | 13 +++++++++++--
 phase2/utils.go  | 10 ++++++++++
 6 files changed, 73 insertions(+), 16 deletions(-)
 create mode 100644 common/output.go

diff --git a/common/output.go b/common/output.go
new file mode 100644
index 0000000..92bbc7e
--- /dev/null
+++ b/common/output.go
@@ -0,0 +1,33 @@
+package common
+
+import (
+	"fmt"
+	"os"
+)
+
+// CheckOverwrite fails if path is one of the given files
+func CheckOverwrite(path string, files ...*os.File) error {
+	info, err := os.Stat(path)
+	if err != nil {
+		return nil
+	}
+	for _, file := range files {
+		fileInfo, err := file.Stat()
+		if err != nil {
+			return err
+		}
+		if os.SameFile(info, fileInfo) {
+			return fmt.Errorf("writing %s would overwrite %s", path, file.Name())
+		}
+	}
+	return nil
+}
+
+// CreateOutput creates the file at path unless it is one of the input files, which
+// would be truncated before it is read
+func CreateOutput(path string, inputs ...*os.File) (*os.File, error) {
+	if err := CheckOverwrite(path, inputs...); err != nil {
+		return nil, err
+	}
+	return os.Create(path)
+}
diff --git a/keys/keys.go b/keys/keys.go
index 90cdf01..d2a7ae7 100644
--- a/keys/keys.go
+++ b/keys/keys.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"os"
 
+	"github.com/bnb-chain/zkbnb-setup/common"
 	"github.com/bnb-chain/zkbnb-setup/phase2"
 	"github.com/consensys/gnark-crypto/ecc"
 	"github.com/consensys/gnark-crypto/ecc/bn254"
@@ -97,7 +98,7 @@ func extractPK(phase2Path string) error {
 	decPh2 := bn254.NewDecoder(ph2Reader)
 	decEvals := bn254.NewDecoder(evalsReader)
 
-	pkFile, err := os.Create("pk")
+	pkFile, err := common.CreateOutput("pk", phase2File, evalsFile)
 	if err != nil {
 		return err
 	}
@@ -266,7 +267,7 @@ func extractSplitPK(phase2Path, session string) error {
 	decEvals := bn254.NewDecoder(evalsReader)
 
 	name := fmt.Sprintf("%s.pk.E.save", session)
-	pkEFile, err := os.Create(name)
+	pkEFile, err := common.CreateOutput(name, phase2File, evalsFile)
 	if err != nil {
 		return err
 	}
@@ -275,7 +276,7 @@ func extractSplitPK(phase2Path, session string) error {
 	encPkE := bn254.NewEncoder(pkEWriter, bn254.RawEncoding())
 
 	name = fmt.Sprintf("%s.pk.A.save", session)
-	pkAFile, err := os.Create(name)
+	pkAFile, err := common.CreateOutput(name, phase2File, evalsFile)
 	if err != nil {
 		return err
 	}
@@ -284,7 +285,7 @@ func extractSplitPK(phase2Path, session string) error {
 	encPkA := bn254.NewEncoder(pkAWriter, bn254.RawEncoding())
 
 	name = fmt.Sprintf("%s.pk.B1.save", session)
-	pkB1File, err := os.Create(name)
+	pkB1File, err := common.CreateOutput(name, phase2File, evalsFile)
 	if err != nil {
 		return err
 	}
@@ -293,7 +294,7 @@ func extractSplitPK(phase2Path, session string) error {
 	encPkB1 := bn254.NewEncoder(pkB1Writer, bn254.RawEncoding())
 
 	name = fmt.Sprintf("%s.pk.Z.save", session)
-	pkZFile, err := os.Create(name)
+	pkZFile, err := common.CreateOutput(name, phase2File, evalsFile)
 	if err != nil {
 		return err
 	}
@@ -302,7 +303,7 @@ func extractSplitPK(phase2Path, session string) error {
 	encPkZ := bn254.NewEncoder(pkZWriter, bn254.RawEncoding())
 
 	name = fmt.Sprintf("%s.pk.K.save", session)
-	pkKFile, err := os.Create(name)
+	pkKFile, err := common.CreateOutput(name, phase2File, evalsFile)
 	if err != nil {
 		return err
 	}
@@ -311,7 +312,7 @@ func extractSplitPK(phase2Path, session string) error {
 	encPkK := bn254.NewEncoder(pkKWriter, bn254.RawEncoding())
 
 	name = fmt.Sprintf("%s.pk.B2.save", session)
-	pkB2File, err := os.Create(name)
+	pkB2File, err := common.CreateOutput(name, phase2File, evalsFile)
 	if err != nil {
 		return err
 	}
@@ -489,7 +490,7 @@ func extractVK(phase2Path string) error {
 	decPh2 := bn254.NewDecoder(ph2Reader)
 	decEvals := bn254.NewDecoder(evalsReader)
 
-	vkFile, err := os.Create("vk")
+	vkFile, err := common.CreateOutput("vk", phase2File, evalsFile)
 	if err != nil {
 		return err
 	}
@@ -579,7 +580,7 @@ func extractSplitVK(phase2Path, session string) error {
 	decEvals := bn254.NewDecoder(evalsReader)
 
 	name := fmt.Sprintf("%s.vk.save", session)
-	vkFile, err := os.Create(name)
+	vkFile, err := common.CreateOutput(name, phase2File, evalsFile)
 	if err != nil {
 		return err
 	}
@@ -643,7 +644,7 @@ func extractSplitVK(phase2Path, session string) error {
 
 	// Write the commitment key so that it can be read in pk separately
 	name = fmt.Sprintf("%s.pk.CommitmentKey.save", session)
-	commitmentKeyFile, err := os.Create(name)
+	commitmentKeyFile, err := common.CreateOutput(name, phase2File, evalsFile)
 	if err != nil {
 		return err
 	}
@@ -693,7 +694,7 @@ func ExportSol(session string) error {
 	if _, err := verifyingKey.ReadFrom(f); err != nil {
 		return err
 	}
-	solFile, err := os.Create(filename)
+	solFile, err := common.CreateOutput(filename, f)
 	if err != nil {
 		return err
 	}
diff --git a/phase1/phase1.go b/phase1/phase1.go
index 15d38f2..cb82f4b 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -28,7 +28,7 @@ func Transform(inputPath, outputPath string, inPower, outPower byte) error {
 	defer inputFile.Close()
 
 	// Output file is in compressed representation
-	outputFile, err := os.Create(outputPath)
+	outputFile, err := common.CreateOutput(outputPath, inputFile)
 	if err != nil {
 		return err
 	}
@@ -163,7 +163,7 @@ func Contribute(inputPath, outputPath string) error {
 	defer inputFile.Close()
 
 	// Output file
-	outputFile, err := os.Create(outputPath)
+	outputFile, err := common.CreateOutput(outputPath, inputFile)
 	if err != nil {
 		return err
 	}
diff --git a/phase2/parted.go b/phase2/parted.go
index e9dbb70..2397d6f 100644
--- a/phase2/parted.go
+++ b/phase2/parted.go
@@ -9,6 +9,7 @@ import (
 	"os"
 	"runtime"
 
+	"github.com/bnb-chain/zkbnb-setup/common"
 	"github.com/bnb-chain/zkbnb-setup/phase1"
 	"github.com/consensys/gnark-crypto/ecc/bn254"
 	cs_bn254 "github.com/consensys/gnark/constraint/bn254"
@@ -21,11 +22,14 @@ func InitializeFromPartedR1CS(phase1Path, session, phase2Path string, nbCons, nb
 	}
 	defer phase1File.Close()
 
-	phase2File, err := os.Create(phase2Path)
+	phase2File, err := common.CreateOutput(phase2Path, phase1File)
 	if err != nil {
 		return err
 	}
 	defer phase2File.Close()
+	if err := checkWorkspace(phase1File, phase2File); err != nil {
+		return err
+	}
 
 	// Read R1CS
 	fmt.Println("Reading R1CS...")
diff --git a/phase2/phase2.go b/phase2/phase2.go
index 963e515..b6818d1 100644
--- a/phase2/phase2.go
+++ b/phase2/phase2.go
@@ -19,11 +19,20 @@ func Initialize(phase1Path, r1csPath, phase2Path string) error {
 	}
 	defer phase1File.Close()
 
-	phase2File, err := os.Create(phase2Path)
+	r1csFile, err := os.Open(r1csPath)
+	if err != nil {
+		return err
+	}
+	defer r1csFile.Close()
+
+	phase2File, err := common.CreateOutput(phase2Path, phase1File, r1csFile)
 	if err != nil {
 		return err
 	}
 	defer phase2File.Close()
+	if err := checkWorkspace(phase1File, r1csFile, phase2File); err != nil {
+		return err
+	}
 
 	// 1. Process Headers
 	header1, header2, err := processHeader(r1csPath, phase1File, phase2File)
@@ -66,7 +75,7 @@ func Contribute(inputPath, outputPath string) error {
 	dec := bn254.NewDecoder(reader)
 
 	// Output file
-	outputFile, err := os.Create(outputPath)
+	outputFile, err := common.CreateOutput(outputPath, inputFile)
 	if err != nil {
 		return err
 	}
diff --git a/phase2/utils.go b/phase2/utils.go
index f8fbee1..28acf02 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -34,6 +34,16 @@ func nextPowerofTwo(number int) int {
 	panic("the power is beyond 28")
 }
 
+// checkWorkspace fails if the files of the workspace would overwrite any of the given files
+func checkWorkspace(files ...*os.File) error {
+	for _, name := range []string{"srs.lag", "evals"} {
+		if err := common.CheckOverwrite(name, files...); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func processHeader(r1csPath string, phase1File, phase2File *os.File) (*phase1.Header, *Header, error) {
 	fmt.Println("Processing the headers ...")
 
-- 
2.43.0


From 91b2181e3397ce3ce284962cda867ef51a78ba47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:11 +0000
Subject: [PATCH 14/24] fix: split the wires of circuits with a commitment like
 gnark does

The committed wires were looked up at the wire's own index, out of range for
all but trivial circuits, and the first private wire was taken for a public one
because the public count includes the commitment.
---
 phase2/utils.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/phase2/utils.go b/phase2/utils.go
index 28acf02..e146291 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -555,10 +555,15 @@ func filterL(L []bn254.G1Affine, header2 *Header, cmtInfo *constraint.Commitment
 	vkk := make([]bn254.G1Affine, header2.Public)
 	ckk := make([]bn254.G1Affine, header2.PrivateCommitted)
 	vI, cI := 0, 0
+	// header2.Public counts the commitment, whose wire doesn't follow the public ones
+	nbPublic := header2.Public
+	if cmtInfo.Is() {
+		nbPublic--
+	}
 	for i := range L {
-		isCommittedPrivate := cI < cmtInfo.NbPrivateCommitted && i == cmtInfo.PrivateCommitted()[i]
+		isCommittedPrivate := cI < cmtInfo.NbPrivateCommitted && i == cmtInfo.PrivateCommitted()[cI]
 		isCommitment := cmtInfo.Is() && i == cmtInfo.CommitmentIndex
-		isPublic := i < header2.Public
+		isPublic := i < nbPublic
 		if isCommittedPrivate {
 			ckk[cI].Set(&L[i])
 			cI++
-- 
2.43.0


From 76bc69552c3ce28997a1bb6a0bb71e026b03e810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:11 +0000
Subject: [PATCH 15/24] fix: extract the commitment info into the verifying key

It was stored in evals but never read back, so verifiers ignored the commitment
and rejected every proof of such a circuit.
---
 keys/keys.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/keys/keys.go b/keys/keys.go
index d2a7ae7..6615ee0 100644
--- a/keys/keys.go
+++ b/keys/keys.go
@@ -545,6 +545,11 @@ func extractVK(phase2Path string) error {
 	if err != nil {
 		return err
 	}
+
+	// 9. Read commitment info
+	if err := gob.NewDecoder(evalsReader).Decode(&vk.CommitmentInfo); err != nil {
+		return err
+	}
 	if _, err := vk.writeTo(vkWriter); err != nil {
 		return err
 	}
@@ -635,6 +640,11 @@ func extractSplitVK(phase2Path, session string) error {
 	if err != nil {
 		return err
 	}
+
+	// 9. Read commitment info
+	if err := gob.NewDecoder(evalsReader).Decode(&vk.CommitmentInfo); err != nil {
+		return err
+	}
 	if _, err := vk.writeTo(vkWriter); err != nil {
 		return err
 	}
-- 
2.43.0


From fa64ca65b807f463a11aa68a57af6cc00c457e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:54 +0000
Subject: [PATCH 16/24] fix: phase 2 initialization encodes the lazy
 constraints of the circuit

For a lazified R1CS only the constraints that are kept in full were evaluated,
so the keys didn't enforce the others, although they are counted.
---
 phase2/utils.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/phase2/utils.go b/phase2/utils.go
index e146291..7f7dc00 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -186,7 +186,8 @@ func processEvaluations(header1 *phase1.Header, header2 *Header, r1csPath string
 
 	// Accumlate {[A]₁}
 	buff := make([]bn254.G1Affine, header2.Wires)
-	for i, c := range r1cs.Constraints {
+	for i := 0; i < header2.Constraints; i++ {
+		c := r1cs.GetConstraintToSolve(i)
 		for _, t := range c.L {
 			accumulateG1(&r1cs, &buff[t.WireID()], t, &tauG1[i])
 		}
@@ -199,7 +200,8 @@ func processEvaluations(header1 *phase1.Header, header2 *Header, r1csPath string
 	// Reset buff
 	buff = make([]bn254.G1Affine, header2.Wires)
 	// Accumlate {[B]₁}
-	for i, c := range r1cs.Constraints {
+	for i := 0; i < header2.Constraints; i++ {
+		c := r1cs.GetConstraintToSolve(i)
 		for _, t := range c.R {
 			accumulateG1(&r1cs, &buff[t.WireID()], t, &tauG1[i])
 		}
@@ -223,7 +225,8 @@ func processEvaluations(header1 *phase1.Header, header2 *Header, r1csPath string
 		return err
 	}
 	// Accumlate {[B]₂}
-	for i, c := range r1cs.Constraints {
+	for i := 0; i < header2.Constraints; i++ {
+		c := r1cs.GetConstraintToSolve(i)
 		for _, t := range c.R {
 			accumulateG2(&r1cs, &buff2[t.WireID()], t, &tauG2[i])
 		}
@@ -316,7 +319,8 @@ func processPVCKK(header1 *phase1.Header, header2 *Header, r1csPath string, phas
 		return err
 	}
 
-	for i, c := range r1cs.Constraints {
+	for i := 0; i < header2.Constraints; i++ {
+		c := r1cs.GetConstraintToSolve(i)
 		// Output(Tau)
 		for _, t := range c.O {
 			accumulateG1(&r1cs, &L[t.WireID()], t, &buffSRS[i])
@@ -327,7 +331,8 @@ func processPVCKK(header1 *phase1.Header, header2 *Header, r1csPath string, phas
 	if err := dec.Decode(&buffSRS); err != nil {
 		return err
 	}
-	for i, c := range r1cs.Constraints {
+	for i := 0; i < header2.Constraints; i++ {
+		c := r1cs.GetConstraintToSolve(i)
 		// Right(AlphaTauG1)
 		for _, t := range c.R {
 			accumulateG1(&r1cs, &L[t.WireID()], t, &buffSRS[i])
@@ -338,7 +343,8 @@ func processPVCKK(header1 *phase1.Header, header2 *Header, r1csPath string, phas
 	if err := dec.Decode(&buffSRS); err != nil {
 		return err
 	}
-	for i, c := range r1cs.Constraints {
+	for i := 0; i < header2.Constraints; i++ {
+		c := r1cs.GetConstraintToSolve(i)
 		// Left(BetaTauG1)
 		for _, t := range c.L {
 			accumulateG1(&r1cs, &L[t.WireID()], t, &buffSRS[i])
-- 
2.43.0


From e7ad9b5c9546dd082b9d4236cfaa25ab8c8eb26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:55 +0000
Subject: [PATCH 17/24] fix: refuse a wrong number of constraints for a parted
 R1CS

With a smaller number the remaining constraints were silently left out of the
keys.
---
 phase2/parted.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phase2/parted.go b/phase2/parted.go
index 2397d6f..4e32da7 100644
--- a/phase2/parted.go
+++ b/phase2/parted.go
@@ -36,6 +36,9 @@ func InitializeFromPartedR1CS(phase1Path, session, phase2Path string, nbCons, nb
 	cs := &cs_bn254.R1CS{}
 	// support nbR1C is small
 	cs.LoadFromSplitBinaryConcurrent(session, nbR1C, batchSize, runtime.NumCPU())
+	if nbCons != cs.GetNbConstraints() {
+		return fmt.Errorf("the circuit has %d constraints instead of %d", cs.GetNbConstraints(), nbCons)
+	}
 
 	// 1. Process Headers
 	header1, header2, err := processHeaderParted(cs, nbCons, phase1File, phase2File)
-- 
2.43.0


From a0c1efd5ec479c04f0024619058da674302e5485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:38 +0000
Subject: [PATCH 18/24] verif: make the batch size adjustable under the build
 tag verif

---
 phase1/batch.go       |  5 +++++
 phase1/batch_verif.go | 11 +++++++++++
 phase1/utils.go       |  2 --
 phase2/batch.go       |  5 +++++
 phase2/batch_verif.go | 11 +++++++++++
 phase2/utils.go       |  2 --
 6 files changed, 32 insertions(+), 4 deletions(-)
 create mode 100644 phase1/batch.go
 create mode 100644 phase1/batch_verif.go
 create mode 100644 phase2/batch.go
 create mode 100644 phase2/batch_verif.go

diff --git a/phase1/batch.go b/phase1/batch.go
new file mode 100644
index 0000000..df12151
--- /dev/null
+++ b/phase1/batch.go
@@ -0,0 +1,5 @@
+//go:build !verif
+
+package phase1
+
+const batchSize = 1048576 // 2^20
diff --git a/phase1/batch_verif.go b/phase1/batch_verif.go
new file mode 100644
index 0000000..ae5c192
--- /dev/null
+++ b/phase1/batch_verif.go
@@ -0,0 +1,11 @@
+//go:build verif
+
+package phase1
+
+// Number of points processed at a time, adjustable so that files with few points span several batches
+var batchSize = 1048576 // 2^20
+
+// SetBatchSize sets the number of points processed at a time, at least 2
+func SetBatchSize(n int) {
+	batchSize = n
+}
diff --git a/phase1/utils.go b/phase1/utils.go
index c603c8f..40dccae 100644
--- a/phase1/utils.go
+++ b/phase1/utils.go
@@ -15,8 +15,6 @@ import (
 	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
 )
 
-const batchSize = 1048576 // 2^20
-
 // Returns powers of b starting from a as [a, ba, ..., abⁿ⁻¹ ]
 func powers(a, b *fr.Element, n int) []fr.Element {
 	result := make([]fr.Element, n)
diff --git a/phase2/batch.go b/phase2/batch.go
new file mode 100644
index 0000000..ad876db
--- /dev/null
+++ b/phase2/batch.go
@@ -0,0 +1,5 @@
+//go:build !verif
+
+package phase2
+
+const batchSize = 1048576 // 2^20
diff --git a/phase2/batch_verif.go b/phase2/batch_verif.go
new file mode 100644
index 0000000..c30cf2b
--- /dev/null
+++ b/phase2/batch_verif.go
@@ -0,0 +1,11 @@
+//go:build verif
+
+package phase2
+
+// Number of points processed at a time, adjustable so that files with few points span several batches
+var batchSize = 1048576 // 2^20
+
+// SetBatchSize sets the number of points processed at a time, at least 2
+func SetBatchSize(n int) {
+	batchSize = n
+}
diff --git a/phase2/utils.go b/phase2/utils.go
index 7f7dc00..f6c8acd 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -430,7 +430,6 @@ func accumulateG2(r1cs *cs_bn254.R1CS, res *bn254.G2Affine, t constraint.Term, v
 
 func scale(dec *bn254.Decoder, enc *bn254.Encoder, N int, delta *big.Int) error {
 	// Allocate batch with smallest of (N, batchSize)
-	const batchSize = 1048576 // 2^20
 	var initialSize = int(math.Min(float64(N), float64(batchSize)))
 	buff := make([]bn254.G1Affine, initialSize)
 
@@ -507,7 +506,6 @@ func verifyParameter(delta, g *bn254.G2Affine, inputDecoder, originDecoder *bn25
 func aggregate(inputDecoder, originDecoder *bn254.Decoder, size int) (*bn254.G1Affine, *bn254.G1Affine, error) {
 	var inG, orG, tmp bn254.G1Affine
 	// Allocate batch with smallest of (N, batchSize)
-	const batchSize = 1048576 // 2^20
 	var initialSize = int(math.Min(float64(size), float64(batchSize)))
 	buff := make([]bn254.G1Affine, initialSize)
 	r := make([]fr.Element, size)
-- 
2.43.0


From 668ed76978e9840779365c82217e414374ca0498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:15 +0000
Subject: [PATCH 19/24] fix: phase 1 verification rejects uncompressed points
 in the parameters

The decoder accepts both representations, but phase 2 seeks to fixed offsets:
one uncompressed point made it read other parameters than the verified ones.
---
 phase1/phase1.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/phase1/phase1.go b/phase1/phase1.go
index cb82f4b..4af4919 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -336,6 +336,11 @@ func Verify(inputPath, transformedPath string) error {
 		return err
 	}
 
+	// Phase 2 seeks to the parameters assuming that all points are compressed
+	if dec.BytesRead() != int64(32*(4*N-1)+64*(N+1)) {
+		return errors.New("the parameters aren't in compressed representation")
+	}
+
 	// Verify contributions
 	var current Contribution
 	prev, err := defaultContribution(transformedPath)
-- 
2.43.0


From 4d1b6cd73c4874fd98476eb0af0d8f64c931f565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 20/24] fix: phase 1 verification rejects a file without
 contributions

With no contribution record the sections were compared with points at
infinity, so the powers of tau = alpha = beta = 0 were accepted.
---
 phase1/phase1.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phase1/phase1.go b/phase1/phase1.go
index 4af4919..83a93b8 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -299,6 +299,9 @@ func Verify(inputPath, transformedPath string) error {
 		return err
 	}
 	fmt.Printf("Power := %d and  #Contributions := %d\n", header.Power, header.Contributions)
+	if header.Contributions == 0 {
+		return errors.New("there are no contributions to verify")
+	}
 	N := int(math.Pow(2, float64(header.Power)))
 
 	// Use buffered IO to write parameters efficiently
-- 
2.43.0


From 19c8b27bb08430330af63f4a73a08be0039e6832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:13 +0000
Subject: [PATCH 21/24] fix: reject a negative number of phase 2 contributions

A file with a negative count skipped the contribution loop, so with all
elements at infinity it verified without any contribution against an
origin whose Z and PKK are at infinity.
---
 phase2/phase2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phase2/phase2.go b/phase2/phase2.go
index b6818d1..a994e25 100644
--- a/phase2/phase2.go
+++ b/phase2/phase2.go
@@ -204,7 +204,7 @@ func Verify(inputPath, originPath string) error {
 	if err := orgHeader.Read(originReader); err != nil {
 		return err
 	}
-	if curHeader.Contributions == 0 {
+	if curHeader.Contributions < 1 {
 		return fmt.Errorf("there are no contributions to verify")
 	}
 	if !curHeader.Equal(&orgHeader) {
-- 
2.43.0


From f4971392b40c8e429369c65b5758c3d82c6f5c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:00 +0000
Subject: [PATCH 22/24] fix: refuse overwriting the parts of a circuit

Initialization from a parted circuit truncated a part when the output path
(or srs.lag or evals) named it.
---
 phase2/parted.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/phase2/parted.go b/phase2/parted.go
index 4e32da7..c70773e 100644
--- a/phase2/parted.go
+++ b/phase2/parted.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"math"
 	"os"
+	"path/filepath"
 	"runtime"
 
 	"github.com/bnb-chain/zkbnb-setup/common"
@@ -22,6 +23,9 @@ func InitializeFromPartedR1CS(phase1Path, session, phase2Path string, nbCons, nb
 	}
 	defer phase1File.Close()
 
+	if err := checkParts(session, phase2Path, "srs.lag", "evals"); err != nil {
+		return err
+	}
 	phase2File, err := common.CreateOutput(phase2Path, phase1File)
 	if err != nil {
 		return err
@@ -70,6 +74,26 @@ func InitializeFromPartedR1CS(phase1Path, session, phase2Path string, nbCons, nb
 	return nil
 }
 
+// checkParts fails if writing one of the outputs would overwrite a part of the circuit
+func checkParts(session string, outputs ...string) error {
+	parts, err := filepath.Glob(session + ".r1cs.*.save")
+	if err != nil {
+		return err
+	}
+	for _, name := range parts {
+		part, err := os.Stat(name)
+		if err != nil {
+			return err
+		}
+		for _, output := range outputs {
+			if info, err := os.Stat(output); err == nil && os.SameFile(info, part) {
+				return fmt.Errorf("writing %s would overwrite %s", output, name)
+			}
+		}
+	}
+	return nil
+}
+
 // processHeaderParted r1cs has no R1CCore.Constraints included
 func processHeaderParted(r1cs *cs_bn254.R1CS, nbCons int, phase1File, phase2File *os.File) (*phase1.Header, *Header, error) {
 	fmt.Println("Processing the headers ...")
-- 
2.43.0


From 18b5486c73d0f60644a7bdf1a2c73ab40f39d1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:25 +0000
Subject: [PATCH 23/24] fix: fail when the random generator fails

The result of SetRandom was ignored everywhere: with a failing generator, contributions
used secrets of zero and verification used weights of zero, and both succeeded.
---
 common/keypair.go | 10 +++++++++-
 phase1/phase1.go  |  6 +++---
 phase1/utils.go   |  2 +-
 phase2/phase2.go  |  2 +-
 phase2/utils.go   |  2 +-
 5 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/common/keypair.go b/common/keypair.go
index 3ada786..4af39a3 100644
--- a/common/keypair.go
+++ b/common/keypair.go
@@ -13,13 +13,21 @@ type PublicKey struct {
 	SPX bn254.G2Affine
 }
 
+// SetRandom draws z from the system's random generator. It panics if the generator fails:
+// neither secrets nor the weights of a verification may be predictable
+func SetRandom(z *fr.Element) {
+	if _, err := z.SetRandom(); err != nil {
+		panic(err)
+	}
+}
+
 func GenPublicKey(x fr.Element, challenge []byte, dst byte) PublicKey {
 	var pk PublicKey
 	_, _, g1, _ := bn254.Generators()
 
 	var s fr.Element
 	var sBi big.Int
-	s.SetRandom()
+	SetRandom(&s)
 	s.BigInt(&sBi)
 	pk.S.ScalarMultiplication(&g1, &sBi)
 
diff --git a/phase1/phase1.go b/phase1/phase1.go
index 83a93b8..143f8ac 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -194,9 +194,9 @@ func Contribute(inputPath, outputPath string) error {
 	// Sample toxic parameters
 	fmt.Println("Sampling toxic parameters Tau, Alpha, and Beta")
 	var tau, alpha, beta, one fr.Element
-	tau.SetRandom()
-	alpha.SetRandom()
-	beta.SetRandom()
+	common.SetRandom(&tau)
+	common.SetRandom(&alpha)
+	common.SetRandom(&beta)
 	one.SetOne()
 
 	var contribution Contribution
diff --git a/phase1/utils.go b/phase1/utils.go
index 40dccae..1a5172d 100644
--- a/phase1/utils.go
+++ b/phase1/utils.go
@@ -154,7 +154,7 @@ func scaleG2(dec *bn254.Decoder, enc *bn254.Encoder, N int, tau *fr.Element) (*b
 func randomize(r []fr.Element) {
 	common.Parallelize(len(r), func(start, end int) {
 		for i := start; i < end; i++ {
-			r[i].SetRandom()
+			common.SetRandom(&r[i])
 		}
 	})
 }
diff --git a/phase2/phase2.go b/phase2/phase2.go
index a994e25..030eee9 100644
--- a/phase2/phase2.go
+++ b/phase2/phase2.go
@@ -99,7 +99,7 @@ func Contribute(inputPath, outputPath string) error {
 	// Sample toxic δ
 	var delta, deltaInv fr.Element
 	var deltaBI, deltaInvBI big.Int
-	delta.SetRandom()
+	common.SetRandom(&delta)
 	deltaInv.Inverse(&delta)
 
 	delta.BigInt(&deltaBI)
diff --git a/phase2/utils.go b/phase2/utils.go
index f6c8acd..e1e8f6b 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -516,7 +516,7 @@ func aggregate(inputDecoder, originDecoder *bn254.Decoder, size int) (*bn254.G1A
 		// generate randomness
 		common.Parallelize(len(r), func(start, end int) {
 			for i := start; i < end; i++ {
-				r[i].SetRandom()
+				common.SetRandom(&r[i])
 			}
 		})
 
-- 
2.43.0


From 213c7f7b004eca7443270a40f1cc24c3c9bd6c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:10 +0000
Subject: [PATCH 24/24] fix: refuse a stated number of constraints that leaves
 parts of the circuit unread

If the number of constraints and the number of stored constraints were both stated as the
same multiple of the part size below the circuit's, only the first parts were read, the
count agreed with what was read, and the other constraints were dropped without an error.
---
 phase2/parted.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/phase2/parted.go b/phase2/parted.go
index c70773e..e29b9d0 100644
--- a/phase2/parted.go
+++ b/phase2/parted.go
@@ -43,6 +43,14 @@ func InitializeFromPartedR1CS(phase1Path, session, phase2Path string, nbCons, nb
 	if nbCons != cs.GetNbConstraints() {
 		return fmt.Errorf("the circuit has %d constraints instead of %d", cs.GetNbConstraints(), nbCons)
 	}
+	// Only the parts of the first nbR1C constraints have been read, while the levels number all constraints
+	total := 0
+	for _, level := range cs.Levels {
+		total += len(level)
+	}
+	if nbCons != total {
+		return fmt.Errorf("the circuit has %d constraints instead of %d", total, nbCons)
+	}
 
 	// 1. Process Headers
 	header1, header2, err := processHeaderParted(cs, nbCons, phase1File, phase2File)
-- 
2.43.0

