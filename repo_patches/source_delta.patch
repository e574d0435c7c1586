From 7bbb58da90d6c23749c484fbdaeb5360830ecd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:59 +0000
Subject: [PATCH 1/8] fix: BatchBlindRotate results no longer alias pooled
 evaluator buffers

---
 trgsw/trgsw.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/trgsw/trgsw.go b/trgsw/trgsw.go
index 5f5a2a9..9a82a2e 100644
--- a/trgsw/trgsw.go
+++ b/trgsw/trgsw.go
@@ -243,7 +243,13 @@ func BatchBlindRotate(srcs []*tlwe.TLWELv0, blindRotateTestvec *trlwe.TRLWELv1,
 			polyEval := evaluatorPool.Get().(*poly.Evaluator)
 			defer evaluatorPool.Put(polyEval)
 
-			results[idx] = BlindRotate(s, blindRotateTestvec, bootstrappingKey, decompositionOffset, polyEval)
+			// BlindRotate returns a view of polyEval's buffers; copy it out before
+			// the evaluator goes back to the pool and is reused by another rotation.
+			rotated := BlindRotate(s, blindRotateTestvec, bootstrappingKey, decompositionOffset, polyEval)
+			result := trlwe.NewTRLWELv1()
+			copy(result.A, rotated.A)
+			copy(result.B, rotated.B)
+			results[idx] = result
 		}(i, src)
 	}
 
-- 
2.43.0


From 73de3be8dbc51f287ae628a265aab3d28520ffd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:59 +0000
Subject: [PATCH 2/8] fix: BatchBlindRotate does not reuse evaluators of
 another ring dimension

---
 trgsw/trgsw.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trgsw/trgsw.go b/trgsw/trgsw.go
index 9a82a2e..77059da 100644
--- a/trgsw/trgsw.go
+++ b/trgsw/trgsw.go
@@ -241,6 +241,10 @@ func BatchBlindRotate(srcs []*tlwe.TLWELv0, blindRotateTestvec *trlwe.TRLWELv1,
 			defer wg.Done()
 			// Get evaluator from pool (reuse instead of allocate)
 			polyEval := evaluatorPool.Get().(*poly.Evaluator)
+			if n := params.GetTRGSWLv1().N; polyEval.Degree() != n {
+				// left over from a security level with another ring dimension
+				polyEval = poly.NewEvaluator(n)
+			}
 			defer evaluatorPool.Put(polyEval)
 
 			// BlindRotate returns a view of polyEval's buffers; copy it out before
-- 
2.43.0


From 9a4a59e5682c6d4fc8637ed24957d4726df7a8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:59 +0000
Subject: [PATCH 3/8] fix: BatchXNOR computes XNOR like the single gate, not
 XOR

---
 gates/gates.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gates/gates.go b/gates/gates.go
index 0ebd29f..5a34629 100644
--- a/gates/gates.go
+++ b/gates/gates.go
@@ -290,7 +290,7 @@ func BatchXNOR(inputs [][2]*Ciphertext, ck *cloudkey.CloudKey) []*Ciphertext {
 	prepared := make([]*Ciphertext, len(inputs))
 	for i, pair := range inputs {
 		tlweXNOR := pair[0].SubMul(pair[1], 2)
-		tlweXNOR.SetB(tlweXNOR.B() + utils.F64ToTorus(-0.25))
+		tlweXNOR.SetB(tlweXNOR.B() + utils.F64ToTorus(0.25))
 		prepared[i] = tlweXNOR
 	}
 
-- 
2.43.0


From b6e7b136a35d2306c30da3ccbc53767aa0dab8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:59 +0000
Subject: [PATCH 4/8] fix: Evaluator.ShallowCopy allocates decomposition
 buffers for all levels

---
 evaluator/evaluator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index bce7796..e6f7fb4 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -40,7 +40,7 @@ func NewEvaluator(n int) *Evaluator {
 func (e *Evaluator) ShallowCopy() *Evaluator {
 	return &Evaluator{
 		PolyEvaluator: e.PolyEvaluator.ShallowCopy(),
-		Decomposer:    poly.NewDecomposer(e.PolyEvaluator.Degree(), len(e.Decomposer.GetPolyDecomposedBuffer(1))),
+		Decomposer:    poly.NewDecomposer(e.PolyEvaluator.Degree(), params.GetTRGSWLv1().L*2),
 		Buffers:       NewBufferPool(e.PolyEvaluator.Degree()),
 	}
 }
-- 
2.43.0


From 13fed2c4934b99c9fdcfa4426cad8e878acacef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:59 +0000
Subject: [PATCH 5/8] fix: GenLookUpTableCustom does not swap the shared
 generator's encoder

---
 lut/generator.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lut/generator.go b/lut/generator.go
index e215b66..fe74af0 100644
--- a/lut/generator.go
+++ b/lut/generator.go
@@ -144,12 +144,10 @@ func (g *Generator) GenLookUpTableFullAssign(f func(int) params.Torus, lutOut *L
 func (g *Generator) GenLookUpTableCustom(f func(int) int, messageModulus int, scale float64) *LookUpTable {
 	lut := NewLookUpTable()
 
-	oldEncoder := g.Encoder
-	g.Encoder = NewEncoderWithScale(messageModulus, scale)
-
-	g.GenLookUpTableAssign(f, lut)
-
-	g.Encoder = oldEncoder
+	// Work on a copy: g may be shared, and f may panic.
+	custom := *g
+	custom.Encoder = NewEncoderWithScale(messageModulus, scale)
+	custom.GenLookUpTableAssign(f, lut)
 
 	return lut
 }
-- 
2.43.0


From e7d1cb10666156c198ce1b804be3292cc689c2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:59 +0000
Subject: [PATCH 6/8] fix: gates use a private evaluator per call, sized for
 the current security level

---
 gates/gates.go | 61 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 37 insertions(+), 24 deletions(-)

diff --git a/gates/gates.go b/gates/gates.go
index 5a34629..946450c 100644
--- a/gates/gates.go
+++ b/gates/gates.go
@@ -15,37 +15,48 @@ import (
 // Ciphertext is an alias for TLWELv0
 type Ciphertext = tlwe.TLWELv0
 
-// Global evaluator for single-threaded operations (zero-allocation)
-var globalEval *evaluator.Evaluator
+// gateEvaluator is an evaluator together with the security level its buffers
+// were sized for.
+type gateEvaluator struct {
+	*evaluator.Evaluator
+	level params.SecurityLevel
+}
+
+// evalPool holds idle evaluators. Evaluators are not safe for concurrent use,
+// so every gate call takes one of its own.
+var evalPool sync.Pool
 
-func init() {
-	globalEval = evaluator.NewEvaluator(params.GetTRGSWLv1().N)
+// getEvaluator returns an evaluator for the current security level.
+func getEvaluator() *gateEvaluator {
+	level := params.CurrentSecurityLevel
+	if e, ok := evalPool.Get().(*gateEvaluator); ok && e.level == level {
+		return e
+	}
+	return &gateEvaluator{evaluator.NewEvaluator(params.GetTRGSWLv1().N), level}
 }
 
 // NAND performs homomorphic NAND operation (zero-allocation)
 func NAND(tlweA, tlweB *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
-	prepared := globalEval.PrepareNAND(tlweA, tlweB)
-	result := bootstrap(prepared, ck)
-
-	return result
+	e := getEvaluator()
+	return bootstrapWith(e, e.PrepareNAND(tlweA, tlweB), ck)
 }
 
 // OR performs homomorphic OR operation (zero-allocation)
 func OR(tlweA, tlweB *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
-	prepared := globalEval.PrepareOR(tlweA, tlweB)
-	return bootstrap(prepared, ck)
+	e := getEvaluator()
+	return bootstrapWith(e, e.PrepareOR(tlweA, tlweB), ck)
 }
 
 // AND performs homomorphic AND operation (zero-allocation)
 func AND(tlweA, tlweB *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
-	prepared := globalEval.PrepareAND(tlweA, tlweB)
-	return bootstrap(prepared, ck)
+	e := getEvaluator()
+	return bootstrapWith(e, e.PrepareAND(tlweA, tlweB), ck)
 }
 
 // XOR performs homomorphic XOR operation (zero-allocation)
 func XOR(tlweA, tlweB *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
-	prepared := globalEval.PrepareXOR(tlweA, tlweB)
-	return bootstrap(prepared, ck)
+	e := getEvaluator()
+	return bootstrapWith(e, e.PrepareXOR(tlweA, tlweB), ck)
 }
 
 // XNOR performs homomorphic XNOR operation
@@ -125,26 +136,28 @@ func Copy(tlweA *Ciphertext) *Ciphertext {
 	return result
 }
 
-// bootstrap performs full bootstrapping with key switching (TRUE zero-allocation)
-// Returns pointer to internal buffer - result is only valid until next bootstrap call
-func bootstrapTemp(ctxt *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
-	return globalEval.Bootstrap(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
+// bootstrap performs full bootstrapping with key switching
+func bootstrap(ctxt *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
+	return bootstrapWith(getEvaluator(), ctxt, ck)
 }
 
-// bootstrap2 performs full bootstrapping with key switching (zero-allocation)
-// copies the prepared buffer to the result
-func bootstrap(ctxt *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
+// bootstrapWith bootstraps on e, copies the result out of e's buffers and
+// hands e back to the pool.
+func bootstrapWith(e *gateEvaluator, ctxt *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
 	result := tlwe.NewTLWELv0()
-	bootstrapped := globalEval.Bootstrap(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
+	bootstrapped := e.Bootstrap(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
 	copy(result.P, bootstrapped.P)
 	result.SetB(bootstrapped.B())
+	evalPool.Put(e)
 	return result
 }
 
-// bootstrapWithoutKeySwitch performs bootstrapping without key switching (uses global eval)
+// bootstrapWithoutKeySwitch performs bootstrapping without key switching
 func bootstrapWithoutKeySwitch(ctxt *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
 	trlweResult := trlwe.NewTRLWELv1()
-	globalEval.BlindRotateAssign(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.DecompositionOffset, trlweResult)
+	e := getEvaluator()
+	e.BlindRotateAssign(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.DecompositionOffset, trlweResult)
+	evalPool.Put(e)
 	return trlwe.SampleExtractIndex2(trlweResult, 0)
 }
 
-- 
2.43.0


From 59a7e4e6e000f1968b1317bd0cee93dc63aa5100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:07 +0000
Subject: [PATCH 7/8] fix: keys, masks and noise are drawn from a generator
 with full entropy

math/rand sources keep 31 bits of their seed; seeding one per encryption
made masks repeat after some 50000 encryptions (one cloud key).
---
 key/key.go               |  5 ++---
 proxyreenc/proxyreenc.go |  4 +---
 tlwe/tlwe.go             |  6 ++----
 trlwe/trlwe.go           |  4 +---
 utils/utils.go           | 39 +++++++++++++++++++++++++++++++++++++++
 5 files changed, 45 insertions(+), 13 deletions(-)

diff --git a/key/key.go b/key/key.go
index 7606bcd..6a23cfe 100644
--- a/key/key.go
+++ b/key/key.go
@@ -1,9 +1,8 @@
 package key
 
 import (
-	"math/rand"
-
 	"github.com/thedonutfactory/go-tfhe/params"
+	"github.com/thedonutfactory/go-tfhe/utils"
 )
 
 // SecretKey contains the secret keys for both levels
@@ -14,7 +13,7 @@ type SecretKey struct {
 
 // NewSecretKey generates a new secret key
 func NewSecretKey() *SecretKey {
-	rng := rand.New(rand.NewSource(rand.Int63()))
+	rng := utils.NewRand()
 
 	lv0N := params.GetTLWELv0().N
 	lv1N := params.GetTLWELv1().N
diff --git a/proxyreenc/proxyreenc.go b/proxyreenc/proxyreenc.go
index 79c7e59..c48c69c 100644
--- a/proxyreenc/proxyreenc.go
+++ b/proxyreenc/proxyreenc.go
@@ -39,8 +39,6 @@
 package proxyreenc
 
 import (
-	"math/rand"
-
 	"github.com/thedonutfactory/go-tfhe/params"
 	"github.com/thedonutfactory/go-tfhe/tlwe"
 	"github.com/thedonutfactory/go-tfhe/utils"
@@ -102,7 +100,7 @@ func NewPublicKeyLv0WithParams(secretKey []params.Torus, size int, alpha float64
 //
 // Returns a TLWELv0 ciphertext encrypting the plaintext.
 func (pk *PublicKeyLv0) EncryptF64(plaintext float64, alpha float64) *tlwe.TLWELv0 {
-	rng := rand.New(rand.NewSource(rand.Int63()))
+	rng := utils.NewRand()
 	result := tlwe.NewTLWELv0()
 
 	// Add the plaintext to b
diff --git a/tlwe/tlwe.go b/tlwe/tlwe.go
index 41e534b..fa0eab4 100644
--- a/tlwe/tlwe.go
+++ b/tlwe/tlwe.go
@@ -1,8 +1,6 @@
 package tlwe
 
 import (
-	"math/rand"
-
 	"github.com/thedonutfactory/go-tfhe/params"
 	"github.com/thedonutfactory/go-tfhe/utils"
 )
@@ -34,7 +32,7 @@ func (t *TLWELv0) SetB(val params.Torus) {
 
 // EncryptF64 encrypts a float64 value with TLWE Level 0
 func (t *TLWELv0) EncryptF64(p float64, alpha float64, key []params.Torus) *TLWELv0 {
-	rng := rand.New(rand.NewSource(rand.Int63()))
+	rng := utils.NewRand()
 	n := params.GetTLWELv0().N
 
 	var innerProduct params.Torus
@@ -154,7 +152,7 @@ func (t *TLWELv1) SetB(val params.Torus) {
 
 // EncryptF64 encrypts a float64 value with TLWE Level 1
 func (t *TLWELv1) EncryptF64(p float64, alpha float64, key []params.Torus) *TLWELv1 {
-	rng := rand.New(rand.NewSource(rand.Int63()))
+	rng := utils.NewRand()
 	n := params.GetTLWELv1().N
 
 	var innerProduct params.Torus
diff --git a/trlwe/trlwe.go b/trlwe/trlwe.go
index 0dcae51..8d0f9ea 100644
--- a/trlwe/trlwe.go
+++ b/trlwe/trlwe.go
@@ -1,8 +1,6 @@
 package trlwe
 
 import (
-	"math/rand"
-
 	"github.com/thedonutfactory/go-tfhe/params"
 	"github.com/thedonutfactory/go-tfhe/poly"
 	"github.com/thedonutfactory/go-tfhe/tlwe"
@@ -26,7 +24,7 @@ func NewTRLWELv1() *TRLWELv1 {
 
 // EncryptF64 encrypts a vector of float64 values with TRLWE Level 1
 func (t *TRLWELv1) EncryptF64(p []float64, alpha float64, key []params.Torus, polyEval *poly.Evaluator) *TRLWELv1 {
-	rng := rand.New(rand.NewSource(rand.Int63()))
+	rng := utils.NewRand()
 	n := params.GetTRLWELv1().N
 
 	// Generate random a
diff --git a/utils/utils.go b/utils/utils.go
index f3f7351..3300a92 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -1,12 +1,51 @@
 package utils
 
 import (
+	crand "crypto/rand"
+	"encoding/binary"
 	"math"
 	"math/rand"
 
 	"github.com/thedonutfactory/go-tfhe/params"
 )
 
+// cryptoSource is a rand.Source64 that draws from crypto/rand.
+type cryptoSource struct {
+	buf  [512]byte
+	next int
+}
+
+// Uint64 returns the next 64 random bits
+func (s *cryptoSource) Uint64() uint64 {
+	if s.next == len(s.buf) {
+		if _, err := crand.Read(s.buf[:]); err != nil {
+			panic("utils: no randomness available: " + err.Error())
+		}
+		s.next = 0
+	}
+	v := binary.LittleEndian.Uint64(s.buf[s.next:])
+	s.next += 8
+	return v
+}
+
+// Int63 returns the next 63 random bits
+func (s *cryptoSource) Int63() int64 {
+	return int64(s.Uint64() >> 1)
+}
+
+// Seed does nothing: the source cannot be seeded
+func (s *cryptoSource) Seed(int64) {}
+
+// NewRand returns a generator for keys, masks and noise. math/rand's own
+// sources keep only 31 bits of their seed, so that two of them agree on their
+// whole output long before the masks of a single cloud key have been drawn.
+// The generator must not be shared between goroutines.
+func NewRand() *rand.Rand {
+	s := &cryptoSource{}
+	s.next = len(s.buf)
+	return rand.New(s)
+}
+
 // F64ToTorus converts a float64 to a Torus value
 func F64ToTorus(d float64) params.Torus {
 	torus := math.Mod(d, 1.0) * float64(uint64(1)<<32)
-- 
2.43.0


From 0a05617e34127fecf1bec4b3935d89a31f572dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:50 +0000
Subject: [PATCH 8/8] fix: re-encryption keys whose digits cover all 32 bits of
 the torus

With basebit*t == 32 key generation divided by uint32(1)<<32 == 0 and
ReencryptTLWELv0 panicked on a negative shift.
---
 proxyreenc/proxyreenc.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/proxyreenc/proxyreenc.go b/proxyreenc/proxyreenc.go
index c48c69c..d0deb4f 100644
--- a/proxyreenc/proxyreenc.go
+++ b/proxyreenc/proxyreenc.go
@@ -213,7 +213,7 @@ func NewProxyReencryptionKeyAsymmetricWithParams(
 
 				// Encrypt k * keyFrom[i] / 2^((j+1)*basebit) using Bob's PUBLIC key
 				shiftAmount := (j + 1) * basebit
-				p := (float64(k) * float64(keyFrom[i])) / float64(uint32(1)<<shiftAmount)
+				p := (float64(k) * float64(keyFrom[i])) / float64(uint64(1)<<shiftAmount)
 				idx := (base * t * i) + (base * j) + k
 
 				// Use public key encryption instead of secret key
@@ -282,7 +282,7 @@ func NewProxyReencryptionKeySymmetricWithParams(
 
 				// Encrypt k * keyFrom[i] / 2^((j+1)*basebit)
 				shiftAmount := (j + 1) * basebit
-				p := (float64(k) * float64(keyFrom[i])) / float64(uint32(1)<<shiftAmount)
+				p := (float64(k) * float64(keyFrom[i])) / float64(uint64(1)<<shiftAmount)
 				idx := (base * t * i) + (base * j) + k
 
 				keyEncryptions[idx].EncryptF64(p, alpha, keyTo)
@@ -333,8 +333,12 @@ func ReencryptTLWELv0(ctFrom *tlwe.TLWELv0, reencKey *ProxyReencryptionKey) *tlw
 	// Start with the b value from the source ciphertext
 	result.SetB(ctFrom.B())
 
-	// Precision offset for rounding (similar to identity key switching)
-	precOffset := params.Torus(1) << (32 - (1 + basebit*t))
+	// Precision offset for rounding (similar to identity key switching).
+	// A decomposition that covers all 32 bits leaves nothing to round.
+	var precOffset params.Torus
+	if basebit*t < 32 {
+		precOffset = params.Torus(1) << (32 - (1 + basebit*t))
+	}
 
 	// Process each coefficient of the source ciphertext
 	for i := 0; i < n; i++ {
-- 
2.43.0

