From eeb40e271b6f75ac0e5dc243aa94725aa85fdb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:13 +0000
Subject: [PATCH 01/19] fix: recommit to the values of a leaf-layer vertex when
 one of its entries changes

The update path added the sum at index len(v.values) instead of at the sum
slot (and with a vector one element too long), so that the second identifier
recorded under the same vertex, or a re-recorded one, corrupted V.
---
 verkle/tree.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/verkle/tree.go b/verkle/tree.go
index 6af97ec..5fa4ab1 100644
--- a/verkle/tree.go
+++ b/verkle/tree.go
@@ -403,25 +403,25 @@ func (t *Tree) updateLayerAboveLeaves(key string, node interface{}, descendants
 
 	v.sum = updateSum(v.sum, oldVal, newVal)
 
-	// Update index with new value
+	v.values[uint16(index)] = newVal
+
+	// Commit to the updated values
 	m := make(common.Vec, t.PP.N)
 	for i := 0; i < len(m); i++ {
 		if val, exists := v.values[uint16(i)]; exists {
-			m[uint16(i)] = val
+			m[i] = val
 		} else {
-			m[uint16(i)] = c.NewZrFromInt(0)
+			m[i] = c.NewZrFromInt(0)
 		}
 	}
 
-	// Artificially append the sum
-	m = append(m, v.sum)
+	// Artificially put the sum
+	m[len(m)-2] = v.sum
 
-	// Update index with new value
-	pp.Update(t.PP, v.V, m, newVal, index)
-	v.values[uint16(index)] = newVal
+	// Artificially put the blinding factor
+	m[len(m)-1] = v.BlindingFactor
 
-	// Update last entry with sum
-	pp.Update(t.PP, v.V, m, v.sum, len(v.values))
+	v.V = pp.Commit(t.PP, m)
 
 	return key
 }
-- 
2.43.0


From 36e00953dd4823f418fcdb5fc424ea8172ffdfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:36 +0000
Subject: [PATCH 02/19] fix: do not serve a stale root after an update

The liabilities were written to the raw database, behind the back of the
wrapper that memorizes the root: Root(), Set(), Root() returned the old root.
Memorize the root only once it was stored.
---
 pol/pol.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pol/pol.go b/pol/pol.go
index 159748e..2e54e14 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -51,11 +51,14 @@ func (pp *PublicParams) Size() int {
 // NewLiabilitySet creates a liability set with the given fanout and tree type.
 // Only a fan-out of the form 2^k - 1 for some natural k is permitted.
 func NewLiabilitySet(pp *PublicParams, db verkle.DB, id2Path func(string) []uint16) *LiabilitySet {
-	tree := verkle.NewVerkleTree(uint16(pp.Fanout), id2Path, db)
+	// The tree has to write through the database that memorizes the root,
+	// otherwise a memorized root outlives the updates that follow it.
+	rootMemorizingDB := &DBMemorizeRoot{DB: db}
+	tree := verkle.NewVerkleTree(uint16(pp.Fanout), id2Path, rootMemorizingDB)
 	tree.PP = pp.PPPP
 
 	return &LiabilitySet{
-		DB:   &DBMemorizeRoot{DB: db},
+		DB:   rootMemorizingDB,
 		pp:   pp,
 		tree: tree,
 	}
@@ -491,8 +494,8 @@ func (db *DBMemorizeRoot) Get(key []byte) []byte {
 }
 
 func (db *DBMemorizeRoot) Put(key []byte, val []byte) {
+	db.DB.Put(key, val)
 	if len(key) == 0 {
 		db.root = val
 	}
-	db.DB.Put(key, val)
 }
-- 
2.43.0


From e826bfc4440c97f5d2ffb2e0f7f952e389186396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 03/19] fix: bind the inner product challenge to the commitment
 and the claimed product

The challenge of protocol 1 hashed only the digest of the public parameters
(append(pp.Digest) dropped the commitment), so that a prover knew it before
choosing the commitment and could prove any inner product.
---
 bp/innerprod.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bp/innerprod.go b/bp/innerprod.go
index a0b44a1..ccf840a 100644
--- a/bp/innerprod.go
+++ b/bp/innerprod.go
@@ -104,7 +104,10 @@ func computeInstanceSpecificParams(pp *PP, P *math.G1, c *math.Zr) (*PP, *math.G
 	newPP = *pp
 	var hashPreImage []byte
 	hashPreImage = append(hashPreImage, P.Bytes()...)
-	hashPreImage = append(pp.Digest)
+	claim := c.Copy()
+	claim.Mod(common.GroupOrder)
+	hashPreImage = append(hashPreImage, claim.Bytes()...)
+	hashPreImage = append(hashPreImage, pp.Digest...)
 
 	x := common.FieldElementFromBytes(common.SHA256Digest(string(hashPreImage)))
 
-- 
2.43.0


From 45b4cd0d397977a73e8078491524cd27b6348743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:06 +0000
Subject: [PATCH 04/19] fix: give every position of an aggregation its own
 weight

Only the low byte of the position was hashed, hence positions i and i+256 had
equal weights and their claimed values could be exchanged.
---
 pp/pointproofs.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pp/pointproofs.go b/pp/pointproofs.go
index 71658dd..a5b091f 100644
--- a/pp/pointproofs.go
+++ b/pp/pointproofs.go
@@ -3,6 +3,7 @@ package pp
 import (
 	"crypto/rand"
 	"crypto/sha256"
+	"encoding/binary"
 	"fmt"
 	"pol/common"
 
@@ -170,7 +171,9 @@ func VerifyAggregation(pp *PP, indices []int, commitments common.G1v, π *math.G
 func RO(pp *PP, cs []*math.G1, i int) *math.Zr {
 	h := sha256.New()
 	h.Write(pp.Digest)
-	h.Write([]byte{byte(i)})
+	index := make([]byte, 8)
+	binary.BigEndian.PutUint64(index, uint64(i))
+	h.Write(index)
 	for j := 0; j < len(cs); j++ {
 		h.Write(cs[j].Bytes())
 	}
-- 
2.43.0


From 595a0c78a15456a57e791c7d290e0312b897b4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:11 +0000
Subject: [PATCH 05/19] fix: do not verify the opening of x as an opening of -x

Gt.Exp ignores the sign of the exponent, so that a proof for a total or
liability of 100 was accepted as a proof for -100 too.
---
 pp/pointproofs.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pp/pointproofs.go b/pp/pointproofs.go
index a5b091f..d293ae5 100644
--- a/pp/pointproofs.go
+++ b/pp/pointproofs.go
@@ -117,7 +117,7 @@ func Open(pp *PP, i int, m common.Vec) (mi *math.Zr, π *math.G1) {
 func Verify(pp *PP, mi *math.Zr, π *math.G1, C *math.G1, i int) error {
 	left := common.G1v{C}.InnerProd(common.G2v{pp.G2s[pp.N-i-1]})
 	right := common.G1v{π}.InnerProd(common.G2v{c.GenG2})
-	right.Mul(pp.Gt.Exp(mi))
+	right.Mul(pp.Gt.Exp(reduce(mi)))
 
 	if left.Equals(right) {
 		return nil
@@ -158,7 +158,7 @@ func VerifyAggregation(pp *PP, indices []int, commitments common.G1v, π *math.G
 	left := commitments.InnerProd(g2s.Mulv(exponents))
 
 	πg2 := common.G1v{π}.InnerProd(common.G2v{c.GenG2})
-	right := pp.Gt.Exp(Σ)
+	right := pp.Gt.Exp(reduce(Σ))
 	right.Mul(πg2)
 
 	if right.Equals(left) {
@@ -168,6 +168,14 @@ func VerifyAggregation(pp *PP, indices []int, commitments common.G1v, π *math.G
 	return fmt.Errorf("invalid aggregation")
 }
 
+// reduce returns the representative of x in [0, GroupOrder).
+// Gt.Exp disregards the sign of its exponent.
+func reduce(x *math.Zr) *math.Zr {
+	res := x.Copy()
+	res.Mod(GroupOrder)
+	return res
+}
+
 func RO(pp *PP, cs []*math.G1, i int) *math.Zr {
 	h := sha256.New()
 	h.Write(pp.Digest)
-- 
2.43.0


From 3db80a140020d54b521b559c229538e857b161dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:32 +0000
Subject: [PATCH 06/19] fix: refuse degenerate fan-outs instead of looping
 forever

IsPowerOfTwo(0) and DigitPathLen(0 or 1) did not terminate, so neither did
GeneratePublicParams or DigitPath for fan-outs 0, 1 and 65535.
---
 common/math.go | 2 +-
 sparse/tree.go | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/common/math.go b/common/math.go
index f1c29e8..13f3724 100644
--- a/common/math.go
+++ b/common/math.go
@@ -496,7 +496,7 @@ func feFrom256Bits(bytes []byte) *fr.Element {
 }
 
 func IsPowerOfTwo(n uint16) bool {
-	if n == 1 {
+	if n <= 1 {
 		return false
 	}
 
diff --git a/sparse/tree.go b/sparse/tree.go
index bf984f7..820e619 100644
--- a/sparse/tree.go
+++ b/sparse/tree.go
@@ -133,6 +133,10 @@ func DigitPath(fanout uint16) func(string) []uint16 {
 		panic(fmt.Sprintf("fanout %d+1 is not a power of two", fanout))
 	}
 
+	if fanout < 2 {
+		panic(fmt.Sprintf("a fanout of %d is not supported!", fanout))
+	}
+
 	return func(s string) []uint16 {
 		if len(s) != 9 {
 			panic(fmt.Sprintf("%s is not a 9 digit decimal number", s))
@@ -159,6 +163,10 @@ func DigitPath(fanout uint16) func(string) []uint16 {
 }
 
 func DigitPathLen(fanout uint16) int {
+	if fanout < 2 {
+		panic(fmt.Sprintf("a fanout of %d is not supported!", fanout))
+	}
+
 	fo := big.NewInt(0).SetInt64(int64(fanout))
 
 	space := big.NewInt(0).Exp(big.NewInt(10), big.NewInt(9), nil)
-- 
2.43.0


From cfc9558b0915559352cf0968ac5b2884dfff1b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:35 +0000
Subject: [PATCH 07/19] fix: map every nine digit identifier to a path of the
 same length

At most a single zero was appended, so identifiers with leading zeros (and with
a fan-out of 3 everything below 129140163) got shorter paths, which end at an
inner vertex. Identifiers like +12345678 and -12345678 were taken for numbers.
---
 sparse/tree.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sparse/tree.go b/sparse/tree.go
index 820e619..5239a07 100644
--- a/sparse/tree.go
+++ b/sparse/tree.go
@@ -141,7 +141,8 @@ func DigitPath(fanout uint16) func(string) []uint16 {
 		if len(s) != 9 {
 			panic(fmt.Sprintf("%s is not a 9 digit decimal number", s))
 		}
-		num, err := strconv.ParseInt(s, 10, 32)
+		// Unlike ParseInt, ParseUint refuses signs
+		num, err := strconv.ParseUint(s, 10, 32)
 		if err != nil {
 			panic(fmt.Sprintf("%s is not a valid decimal number", s))
 		}
@@ -149,12 +150,13 @@ func DigitPath(fanout uint16) func(string) []uint16 {
 		var res []uint16
 
 		for num > 0 {
-			res = append(res, uint16(num%int64(fanout)))
-			num /= int64(fanout)
+			res = append(res, uint16(num%uint64(fanout)))
+			num /= uint64(fanout)
 		}
 
+		// Numbers with less digits than others are padded
 		pathLen := DigitPathLen(fanout)
-		if len(res) != pathLen {
+		for len(res) < pathLen {
 			res = append(res, 0)
 		}
 
-- 
2.43.0


From f9af072341dce2679bbbd7cc7dd061665f782107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:11 +0000
Subject: [PATCH 08/19] fix: map distinct hexadecimal identifiers to distinct
 paths

An identifier whose path came out in another length than expected was replaced
by its hash, which is an identifier as well and shared its path (and thereby
its liability) with the one it was computed from, as did numbers written with
fewer digits. Always derive the path from the hash of the whole identifier, and
refuse anything which is not 64 hexadecimal digits: a negative number made the
conversion loop forever.
---
 sparse/tree.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/sparse/tree.go b/sparse/tree.go
index 5239a07..ad85e72 100644
--- a/sparse/tree.go
+++ b/sparse/tree.go
@@ -212,15 +212,14 @@ func HexId2PathForFanOut(fanout uint16) func(string) []uint16 {
 	}
 
 	return func(s string) []uint16 {
-		expectedPathLen := ExpectedHexPathLengthByFanOut[fanout]
-
-		for {
-			path := convertPathWithFanout(s, fanout)
-			if len(path) == expectedPathLen {
-				return path
-			}
-			s = hash(s)
+		id, err := hex.DecodeString(s)
+		if err != nil || len(id) != sha256.Size {
+			panic(fmt.Sprintf("%s is not a hexadecimal number of 64 digits", s))
 		}
+
+		// Identifiers outnumber the paths of the expected length, so it is the collision resistance
+		// of the hash which ensures that no two identifiers known to anyone have the same path.
+		return convertPathWithFanout(hash(hex.EncodeToString(id)), fanout)
 	}
 }
 
@@ -230,19 +229,21 @@ func hash(s string) string {
 	return hex.EncodeToString(h.Sum(nil))
 }
 
+// convertPathWithFanout returns the digits of 's' in base 'fanOut', least significant first,
+// as many of them as there are in a path.
 func convertPathWithFanout(s string, fanOut uint16) []uint16 {
 	n, ok := big.NewInt(0).SetString(s, 16)
 	if !ok {
 		panic(fmt.Sprintf("failed parsing %s as a hexadecimal number", s))
 	}
 
-	var res []uint16
-
 	fo := big.NewInt(int64(fanOut))
+	digit := big.NewInt(0)
 
-	for n.Cmp(big.NewInt(0)) != 0 {
-		res = append(res, uint16(big.NewInt(0).Mod(n, fo).Int64()))
-		n.Div(n, fo)
+	res := make([]uint16, ExpectedHexPathLengthByFanOut[fanOut])
+	for i := range res {
+		n.DivMod(n, fo, digit)
+		res[i] = uint16(digit.Int64())
 	}
 
 	return res
-- 
2.43.0


From bc25735b33cae3ce273ac9477b840c04570d1319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:27 +0000
Subject: [PATCH 09/19] fix: serialize the vertices of the tree

The data of a tree position is the key of its vertex and never a *Vertex, so
every vertex was serialized as empty, and an empty tree crashed.
---
 verkle/tree.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/verkle/tree.go b/verkle/tree.go
index 5fa4ab1..e05a641 100644
--- a/verkle/tree.go
+++ b/verkle/tree.go
@@ -188,12 +188,17 @@ func NewVerkleTree(fanOut uint16, id2Path func(string) []uint16, db DB) *Tree {
 }
 
 func (t *Tree) Serialize(out io.Writer) {
+	if t.Tree.Root == nil {
+		return
+	}
+
 	t.Tree.Root.Serialize(out, "", func(data interface{}) []byte {
-		_, isVertex := data.(*Vertex)
+		// The sparse tree holds the keys of the vertices, which reside in the DB
+		key, isVertex := data.(string)
 		if !isVertex {
 			return nil
 		}
-		return data.(*Vertex).Bytes()
+		return t.DB.Get([]byte(key))
 	})
 }
 
-- 
2.43.0


From d9c2a1a880890e775d4c6876fe262ac9b939a5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:42 +0000
Subject: [PATCH 10/19] fix: bind range proofs to the public parameters they
 are made with

GeneratePublicParams replaces Gs and F after the digest was computed and
cached, so that the challenges stood for parameters which nobody uses.
---
 bp/range.go | 6 ++++++
 pol/pol.go  | 1 +
 2 files changed, 7 insertions(+)

diff --git a/bp/range.go b/bp/range.go
index 7e0f9a9..e026994 100644
--- a/bp/range.go
+++ b/bp/range.go
@@ -52,6 +52,12 @@ func (rppp *RangeProofPublicParams) Digest() []byte {
 	return digest
 }
 
+// RecomputeDigest has to be called after parameters were replaced.
+func (rppp *RangeProofPublicParams) RecomputeDigest() {
+	rppp.digest = nil
+	rppp.Digest()
+}
+
 type RangeProof struct {
 	Δ            [][3]*math.G1
 	u            *math.Zr // Γ = (Δ, u)
diff --git a/pol/pol.go b/pol/pol.go
index 2e54e14..677a41d 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -100,6 +100,7 @@ func GeneratePublicParams(fanOut uint16, treeType TreeType) (func(string) []uint
 
 	pp.RPPP.Gs = pp.SAPP.Gs
 	pp.RPPP.F = pp.SAPP.F
+	pp.RPPP.RecomputeDigest()
 	return id2Path, pp
 }
 
-- 
2.43.0


From 22fcd3528ce1c43749f5643fce770317abb43f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:06 +0000
Subject: [PATCH 11/19] fix: do not write to proofs while verifying them

Verification stored the commitment and product of the statement into the proof,
a data race when a proof is verified by several callers at once, each of which
may then judge the statement of another.
---
 bp/range.go | 8 +++++---
 poe/poe.go  | 9 +++++----
 sum/sa.go   | 8 +++++---
 3 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/bp/range.go b/bp/range.go
index e026994..9543c16 100644
--- a/bp/range.go
+++ b/bp/range.go
@@ -139,9 +139,11 @@ func VerifyRange(pp *RangeProofPublicParams, rp *RangeProof, V *math.G1) error {
 	ipaPP.H = Fprime
 	ipaPP.RecomputeDigest()
 
-	rp.Π.C = rp.c
-	rp.Π.P = computeP(pp, rp.ρ, rp.Q, rp.R, z, y1v, n, m, Fprime, d, y1)
-	if err := rp.Π.Verify(ipaPP); err != nil {
+	// The proof may be verified concurrently, so leave it as it is
+	ipp := *rp.Π
+	ipp.C = rp.c
+	ipp.P = computeP(pp, rp.ρ, rp.Q, rp.R, z, y1v, n, m, Fprime, d, y1)
+	if err := ipp.Verify(ipaPP); err != nil {
 		return fmt.Errorf("inner product proof invalid: %v", err)
 	}
 
diff --git a/poe/poe.go b/poe/poe.go
index 86f151e..f31e706 100644
--- a/poe/poe.go
+++ b/poe/poe.go
@@ -119,11 +119,12 @@ func (e *Equalities) Verify(proof *AggregatedProof) error {
 
 	bpPP.RecomputeDigest()
 
-	proof.IPP.C = proof.c
-	proof.IPP.P = P
-
-	return proof.IPP.Verify(bpPP)
+	// The proof may be verified concurrently, so leave it as it is
+	ipp := *proof.IPP
+	ipp.C = proof.c
+	ipp.P = P
 
+	return ipp.Verify(bpPP)
 }
 
 // Prove proves equality of 'v[i]' and 'w[j]' for all indices in I,J.
diff --git a/sum/sa.go b/sum/sa.go
index a341649..72cf892 100644
--- a/sum/sa.go
+++ b/sum/sa.go
@@ -198,9 +198,11 @@ func (proof *Proof) Verify(pp *PP, a *Argument) error {
 
 	ipaPP.RecomputeDigest()
 
-	proof.π.C = proof.c.Mul(x)
-	proof.π.P = P
-	return proof.π.Verify(ipaPP)
+	// The proof may be verified concurrently, so leave it as it is
+	π := *proof.π
+	π.C = proof.c.Mul(x)
+	π.P = P
+	return π.Verify(ipaPP)
 }
 
 func negZr(x *math.Zr) *math.Zr {
-- 
2.43.0


From ce4d0688517e4286b5a0c674ab0a10c402f930ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:43 +0000
Subject: [PATCH 12/19] fix: blind the commitments to the digests of
 descendants

Without blinding, whoever is given W and a digest (every client is) can tell
whether the position has siblings, and the aggregated opening of a path without
siblings is the neutral element.
---
 verkle/tree.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/verkle/tree.go b/verkle/tree.go
index e05a641..030a363 100644
--- a/verkle/tree.go
+++ b/verkle/tree.go
@@ -279,9 +279,10 @@ func (t *Tree) updateInnerLayer(key string, node interface{}, descendants []inte
 		// Commit to values
 		v.V = pp.Commit(t.PP, m)
 
-		// Artificially append two empty values
-		d = append(d, c.NewZrFromInt(0))
+		// Artificially append an empty value and the blinding factor of the Digests
+		v.Digests[uint16(len(d)+1)] = c.NewRandomZr(rand.Reader)
 		d = append(d, c.NewZrFromInt(0))
+		d = append(d, v.Digests[uint16(len(d))])
 
 		// Commit to Digests
 		v.W = pp.Commit(t.PP, d)
@@ -329,6 +330,9 @@ func (t *Tree) updateInnerLayer(key string, node interface{}, descendants []inte
 	// Artificially append the blinding factor
 	m[len(m)-1] = v.BlindingFactor
 
+	// Artificially put the blinding factor of the Digests
+	d[len(d)-1] = v.Digests[uint16(len(d)-1)]
+
 	//pp.Update(t.PP, v.V, m, newVal, index)
 
 	v.V = pp.Commit(t.PP, m)
-- 
2.43.0


From d1fd8835cc9074c13a3c4f95dc940a284b81a164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:48 +0000
Subject: [PATCH 13/19] fix: blind updated commitments afresh

The difference of the commitments before and after an update, both of which are
public for the root, was an unblinded commitment to the change of the amount, of
which guesses can be tested.
---
 verkle/tree.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/verkle/tree.go b/verkle/tree.go
index 030a363..b95c10b 100644
--- a/verkle/tree.go
+++ b/verkle/tree.go
@@ -310,6 +310,10 @@ func (t *Tree) updateInnerLayer(key string, node interface{}, descendants []inte
 
 	v.values[uint16(index)] = newVal
 
+	// With the previous blinding factors the commitments would reveal what was changed
+	v.BlindingFactor = c.NewRandomZr(rand.Reader)
+	v.Digests[uint16(t.PP.N-1)] = c.NewRandomZr(rand.Reader)
+
 	// Update index with new value and digest
 	m := make(common.Vec, t.PP.N)
 	d := make(common.Vec, t.PP.N)
@@ -414,6 +418,9 @@ func (t *Tree) updateLayerAboveLeaves(key string, node interface{}, descendants
 
 	v.values[uint16(index)] = newVal
 
+	// With the previous blinding factor the commitment would reveal what was changed
+	v.BlindingFactor = c.NewRandomZr(rand.Reader)
+
 	// Commit to the updated values
 	m := make(common.Vec, t.PP.N)
 	for i := 0; i < len(m); i++ {
-- 
2.43.0


From 7b7ad44675994b774abff95ca3f648c24f847972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:29 +0000
Subject: [PATCH 14/19] fix: verify proofs which have exactly the parts they
 should have

The number of value commitments was not verified, and it is the last of them the
client's liability is opened from: with one more appended, any amount verified.
Surplus reduction steps and aggregated commitments were ignored likewise.
---
 bp/innerprod.go | 6 ++++++
 bp/ir.go        | 6 ++++++
 poe/poe.go      | 4 ++++
 pol/pol.go      | 3 +++
 4 files changed, 19 insertions(+)

diff --git a/bp/innerprod.go b/bp/innerprod.go
index ccf840a..606066a 100644
--- a/bp/innerprod.go
+++ b/bp/innerprod.go
@@ -3,6 +3,7 @@ package bp
 import (
 	"crypto/sha256"
 	"fmt"
+	"math/bits"
 	"pol/common"
 
 	math "github.com/IBM/mathlib"
@@ -135,6 +136,11 @@ func (ipa *InnerProdArgument) Prove() *InnerProductProof {
 }
 
 func (ipp *InnerProductProof) Verify(pp *PP) error {
+	// Every round halves the length
+	if rounds := bits.Len(uint(len(pp.G))) - 1; len(ipp.LRs) != 2*rounds {
+		return fmt.Errorf("expected %d (L,R) elements but got %d", 2*rounds, len(ipp.LRs))
+	}
+
 	pp, P := computeInstanceSpecificParams(pp, ipp.P, ipp.C)
 	return verify(pp, P, pp.G, pp.H, ipp.LRs, ipp.a, ipp.b)
 }
diff --git a/bp/ir.go b/bp/ir.go
index fa956cb..e3da061 100644
--- a/bp/ir.go
+++ b/bp/ir.go
@@ -3,6 +3,7 @@ package bp
 import (
 	"crypto/sha256"
 	"fmt"
+	"math/bits"
 	"pol/common"
 
 	math "github.com/IBM/mathlib"
@@ -14,6 +15,11 @@ func IterativeVerify(pp *PP, prevV *math.G1, Δ [][3]*math.G1, vFinal *math.Zr)
 		panic(fmt.Sprintf("G Public Parameter should be a group vector of length that is power of two but its length is %d", n))
 	}
 
+	// Every round halves the length
+	if rounds := bits.Len(uint(n)) - 1; len(Δ) != rounds {
+		return nil, nil, fmt.Errorf("expected %d reduction steps but got %d", rounds, len(Δ))
+	}
+
 	n /= 2
 
 	G := common.G1v(pp.G)
diff --git a/poe/poe.go b/poe/poe.go
index f31e706..bec8bb6 100644
--- a/poe/poe.go
+++ b/poe/poe.go
@@ -69,6 +69,10 @@ func (ap *AggregatedProof) Size() int {
 }
 
 func (e *Equalities) Verify(proof *AggregatedProof) error {
+	if len(proof.Vaggr) != len(e.V) || len(proof.Waggr) != len(e.W) {
+		return fmt.Errorf("expected %d, %d aggregated commitments but got %d, %d", len(e.V), len(e.W), len(proof.Vaggr), len(proof.Waggr))
+	}
+
 	var groupElements common.G1v
 	groupElements = append(groupElements, proof.Vaggr...)
 	groupElements = append(groupElements, proof.Waggr...)
diff --git a/pol/pol.go b/pol/pol.go
index 677a41d..5145514 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -131,6 +131,9 @@ func (lp LiabilityProof) Verify(publicParams *PublicParams, id string, V, W *mat
 	if len(lp.W) != expectedDigestNum-1 || len(lp.Digests) != expectedDigestNum {
 		return nil, fmt.Errorf("expected digest proofs of size %d but got %d", expectedDigestNum, len(lp.W))
 	}
+	if len(lp.V) != len(path) || len(lp.RangeProofs) != len(path) {
+		return nil, fmt.Errorf("expected %d value commitments and range proofs but got %d and %d", len(path), len(lp.V), len(lp.RangeProofs))
+	}
 
 	// Check that the root is what is advertised.
 	if !lp.V[0].Equals(V) {
-- 
2.43.0


From 0f665de553bd87bed818bcd4631223236af2a423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:29 +0000
Subject: [PATCH 15/19] fix: answer malformed proofs with an error instead of
 crashing

A proof which lacks parts crashed the verifying process, unrecoverably so when
the part is used in a goroutine. Wait for these goroutines also when the proof
is rejected, since they read the proof and it is the caller's again.
---
 pol/pol.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/pol/pol.go b/pol/pol.go
index 5145514..fa17e03 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -125,7 +125,10 @@ func (lp LiabilityProof) Size() int {
 	return size
 }
 
-func (lp LiabilityProof) Verify(publicParams *PublicParams, id string, V, W *math.G1, id2path func(string) []uint16) ([]time.Duration, error) {
+func (lp LiabilityProof) Verify(publicParams *PublicParams, id string, V, W *math.G1, id2path func(string) []uint16) (_ []time.Duration, err error) {
+	// Parts of a proof may be absent
+	defer recoverFromMalformedProof(&err)
+
 	path := id2path(id)
 	expectedDigestNum := len(path)
 	if len(lp.W) != expectedDigestNum-1 || len(lp.Digests) != expectedDigestNum {
@@ -144,7 +147,8 @@ func (lp LiabilityProof) Verify(publicParams *PublicParams, id string, V, W *mat
 	}
 
 	var rangeProofsVerification sync.WaitGroup
-	rangeProofsVerification.Add(len(path))
+	// The proof is the caller's once this function returns
+	defer rangeProofsVerification.Wait()
 
 	var detectedRangeProofErr atomic.Value
 
@@ -168,11 +172,13 @@ func (lp LiabilityProof) Verify(publicParams *PublicParams, id string, V, W *mat
 
 		verifyRangeProof := func(rp *bp.RangeProof, V *math.G1) {
 			defer rangeProofsVerification.Done()
-			if err := bp.VerifyRange(publicParams.RPPP, rp, V); err != nil {
+			if err := verifyRange(publicParams.RPPP, rp, V); err != nil {
 				detectedRangeProofErr.Store(err)
 			}
 		}
 
+		rangeProofsVerification.Add(1)
+
 		if ParallelismEnabled {
 			go verifyRangeProof(lp.RangeProofs[i], lp.V[i])
 		} else {
@@ -239,6 +245,17 @@ func (lp LiabilityProof) Verify(publicParams *PublicParams, id string, V, W *mat
 	return []time.Duration{saElapsed, eqElapsed}, nil
 }
 
+func verifyRange(rppp *bp.RangeProofPublicParams, rp *bp.RangeProof, V *math.G1) (err error) {
+	defer recoverFromMalformedProof(&err)
+	return bp.VerifyRange(rppp, rp, V)
+}
+
+func recoverFromMalformedProof(err *error) {
+	if r := recover(); r != nil {
+		*err = fmt.Errorf("malformed proof: %v", r)
+	}
+}
+
 func (lp LiabilityProof) checkCommitmentToInnerVertex(i int) error {
 	h := sha256.New()
 	h.Write(lp.V[i].Bytes())
@@ -278,7 +295,9 @@ type TotalProof struct {
 	Sum            int
 }
 
-func (tp TotalProof) Verify(publicParams *PublicParams, V *math.G1) error {
+func (tp TotalProof) Verify(publicParams *PublicParams, V *math.G1) (err error) {
+	defer recoverFromMalformedProof(&err)
+
 	mi := common.IntToZr(tp.Sum)
 	return pp.Verify(publicParams.PPPP, mi, tp.LiabilityProof, V, publicParams.Fanout)
 }
-- 
2.43.0


From 9be3fdddc3657d5b60f97ee50878132e765ad6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:56 +0000
Subject: [PATCH 16/19] fix: verify that the aggregated opening is the one of
 the digests along the path

The digests were compared with the hashes of the commitments below, and the
aggregated opening was verified against an aggregate supplied by the prover, but
nothing tied the two: any subtree could be shown below any root. Derive the
weights from the digests too, or else these can be chosen to fit the weights.
---
 pol/pol.go | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/pol/pol.go b/pol/pol.go
index fa17e03..6448516 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -205,7 +205,18 @@ func (lp LiabilityProof) Verify(publicParams *PublicParams, id string, V, W *mat
 		}
 	}
 
-	if err := pp.VerifyAggregation(publicParams.PPPP, uint16VecToIntVec(path)[:len(path)-1], lp.W, lp.PointProofπ, lp.PointProofΣ, pp.RO); err != nil {
+	ro := digestAggregationRO(path, lp.Digests)
+
+	// The aggregated opening has to be the one of the digests verified above
+	var weights common.Vec
+	for i := 0; i < len(path)-1; i++ {
+		weights = append(weights, ro(publicParams.PPPP, lp.W, i))
+	}
+	if !lp.PointProofΣ.Equals(lp.Digests[:len(weights)].InnerProd(weights)) {
+		return nil, fmt.Errorf("hash chain aggregation is not of the digests")
+	}
+
+	if err := pp.VerifyAggregation(publicParams.PPPP, uint16VecToIntVec(path)[:len(path)-1], lp.W, lp.PointProofπ, lp.PointProofΣ, ro); err != nil {
 		return nil, fmt.Errorf("hash chain aggregation proof invalid: %v", err)
 	}
 
@@ -452,14 +463,16 @@ func (ls *LiabilitySet) ProveLiability(id string) (int64, LiabilityProof, []time
 		Sum:            int(liability),
 	}
 
+	ro := digestAggregationRO(path, proof.Digests)
+
 	var tPP common.Vec
 	for i := 0; i < len(path)-1; i++ {
-		tPP = append(tPP, pp.RO(ls.tree.PP, proof.W, i))
+		tPP = append(tPP, ro(ls.tree.PP, proof.W, i))
 	}
 
 	saStart := time.Now()
 	proof.PointProofΣ = proof.Digests[:len(tPP)].InnerProd(tPP)
-	proof.PointProofπ = pp.Aggregate(ls.tree.PP, proof.W, digestProofs, pp.RO)
+	proof.PointProofπ = pp.Aggregate(ls.tree.PP, proof.W, digestProofs, ro)
 	proof.SumArgumentProof = vertices.SumArgument(ls.pp.SAPP)
 	saElapsed := time.Since(saStart)
 
@@ -489,6 +502,20 @@ func (ls *LiabilitySet) ProveLiability(id string) (int64, LiabilityProof, []time
 	return liability, proof, []time.Duration{saElapsed, eqProofElapsed, time.Since(start)}, true
 }
 
+// digestAggregationRO returns the weights of the digests in the aggregation of their openings.
+// The weights depend on the digests, or else these could be chosen to fit the weights.
+func digestAggregationRO(path []uint16, digests common.Vec) func(*pp.PP, []*math.G1, int) *math.Zr {
+	return func(publicParams *pp.PP, commitments []*math.G1, i int) *math.Zr {
+		h := sha256.New()
+		h.Write(pp.RO(publicParams, commitments, i).Bytes())
+		for j := 0; j < len(path)-1; j++ {
+			h.Write([]byte{byte(path[j] >> 8), byte(path[j])})
+			h.Write(digests[j].Bytes())
+		}
+		return common.FieldElementFromBytes(h.Sum(nil))
+	}
+}
+
 func uint16VecToIntVec(in []uint16) []int {
 	res := make([]int, len(in))
 	for i, n := range in {
-- 
2.43.0


From 7aa9c0c745a2bfc2355ea405ca447322fe42fa51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:58 +0000
Subject: [PATCH 17/19] fix: compare sums modulo the group order in the sanity
 check of sum commitments

A vector ending in its own sum was refused when the sum exceeds the group order,
unless its last entry was left unreduced.
---
 sum/sa.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sum/sa.go b/sum/sa.go
index 72cf892..a8e543f 100644
--- a/sum/sa.go
+++ b/sum/sa.go
@@ -127,7 +127,11 @@ func NewCommitment(pp *PP, v common.Vec, r *math.Zr) *Argument {
 		sum = sum.Plus(v[i])
 	}
 
-	if !v[n-1].Equals(sum) {
+	sum.Mod(GroupOrder)
+	expectedSum := v[n-1].Copy()
+	expectedSum.Mod(GroupOrder)
+
+	if !expectedSum.Equals(sum) {
 		panic("v[n-1] != Σv[j] j: 0->n-2")
 	}
 
-- 
2.43.0


From 3a36b2036be6bf036583b8c0fcc0444ac7451baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:58 +0000
Subject: [PATCH 18/19] fix: refuse negative totals

---
 pol/pol.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pol/pol.go b/pol/pol.go
index 6448516..95592ad 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -309,6 +309,11 @@ type TotalProof struct {
 func (tp TotalProof) Verify(publicParams *PublicParams, V *math.G1) (err error) {
 	defer recoverFromMalformedProof(&err)
 
+	// The root opens to a negative total if it commits to a sum close to the group order
+	if tp.Sum < 0 {
+		return fmt.Errorf("total is negative: %d", tp.Sum)
+	}
+
 	mi := common.IntToZr(tp.Sum)
 	return pp.Verify(publicParams.PPPP, mi, tp.LiabilityProof, V, publicParams.Fanout)
 }
-- 
2.43.0


From 018a23fd77a88db1564701ae0dbfe2b7ef7bdcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:28 +0000
Subject: [PATCH 19/19] fix: inner product challenges depended on their own
 round only

Rounds with the same L and R had the same challenge, so that products of vectors
(0,x,x,0) and (0,y,y,0) could be proven to be xy instead of 2xy.
---
 bp/innerprod.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bp/innerprod.go b/bp/innerprod.go
index 606066a..65c50e2 100644
--- a/bp/innerprod.go
+++ b/bp/innerprod.go
@@ -225,7 +225,8 @@ type nextParams struct {
 func computeNextParams(L *math.G1, R *math.G1, pp *PP, g common.G1v, h common.G1v, P *math.G1) nextParams {
 	n := len(g) / 2
 
-	digest := randomOracle(L, R, pp.Digest)
+	// P accounts for the rounds so far, so that the challenges differ if the rounds are alike
+	digest := appendVToChallenge(randomOracle(L, R, pp.Digest), P)
 	x := common.FieldElementFromBytes(digest)
 	xInverse := x.Copy()
 	xInverse.InvModP(common.GroupOrder)
-- 
2.43.0

