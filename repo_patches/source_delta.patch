From 33b6a015455118bf836eac0b913e5175af0056db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:02 +0000
Subject: [PATCH 01/37] fix: range-constrain the limbs returned by limbs.Split

Split only asserted that the hinted limbs recompose to the input, which has
many solutions; a dishonest prover could choose any of them.
---
 circuits/gadgets/limbs/limbapi.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/circuits/gadgets/limbs/limbapi.go b/circuits/gadgets/limbs/limbapi.go
index 5dd8357..0119d3a 100644
--- a/circuits/gadgets/limbs/limbapi.go
+++ b/circuits/gadgets/limbs/limbapi.go
@@ -57,7 +57,7 @@ func NewAPI(api frontend.API) *API {
 }
 
 // Split splits the word into parts of `limbSize` except the last element.
-// this function uses a hint function to compute the Split results, then constrains the sum.
+// this function uses a hint function to compute the Split results, then constrains the sum and the range of each part.
 // nbLimbs is the number of equal sized parts of `limbSize`. optional, if not specified, the word is Split into as many
 // `limbSize` chunks as possible.
 // e.g. for word 1010 if `limbSize = 1` and `nbLimbsOpt = 2` then the result is [1, 0, 10]
@@ -97,6 +97,10 @@ func (wa *API) Split(l Limb, newLimbSize int, nbLimbsOpt ...int) Limbs {
 		ret = append(ret, Limb{Val: out[len(out)-1], Size: remSize})
 	}
 	wa.api.AssertIsEqual(acc, l.Val)
+	// the recomposition alone has many solutions: every limb must also be in range
+	for _, r := range ret {
+		wa.api.ToBinary(r.Val, r.Size)
+	}
 	return ret
 }
 
-- 
2.43.0


From 72258f85f6c9990c2e264486f72d5dc3a0220abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:02 +0000
Subject: [PATCH 02/37] fix: limbs.Resplit of single limbs, field-sized totals
 and remainders

A single limb was returned unsplit, a total of exactly the field's bit length
was merged into one (wrapping) field element, and a total that is not a
multiple of the new limb size sliced past the end of the bits.
---
 circuits/gadgets/limbs/limbapi.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/circuits/gadgets/limbs/limbapi.go b/circuits/gadgets/limbs/limbapi.go
index 0119d3a..4ef1ae7 100644
--- a/circuits/gadgets/limbs/limbapi.go
+++ b/circuits/gadgets/limbs/limbapi.go
@@ -129,15 +129,16 @@ func (wa *API) Merge(ws Limbs) Limb {
 
 // Resplit resplits limbs into new limb sizes
 func (wa *API) Resplit(ws Limbs, newLimbSize int) Limbs {
-	if len(ws) == 1 {
+	if len(ws) == 1 && ws[0].Size <= newLimbSize {
 		return ws
 	}
 	totalSize := ws.TotalSize()
 	f := wa.api.Compiler().FieldBitLen()
-	if totalSize <= f {
+	// a value of exactly the field's bit length may exceed the modulus and wrap around
+	if totalSize < f {
 		return wa.Split(wa.Merge(ws), newLimbSize)
 	}
-	// if the total limb size is greater than the field size, we cannot merge all the limbs together then
+	// if the total limb size is not smaller than the field size, we cannot merge all the limbs together then
 	// split. in this case, we split all limbs into 1-bit limbs then merge them to `newLimbSize` limbs
 	var bits Limbs
 	for _, w := range ws {
@@ -145,7 +146,11 @@ func (wa *API) Resplit(ws Limbs, newLimbSize int) Limbs {
 	}
 	var ret Limbs
 	for i := 0; i < totalSize; i += newLimbSize {
-		ret = append(ret, wa.Merge(bits[i:i+newLimbSize]))
+		end := i + newLimbSize
+		if end > totalSize {
+			end = totalSize
+		}
+		ret = append(ret, wa.Merge(bits[i:end]))
 	}
 	return ret
 }
-- 
2.43.0


From f088403ea30bff975dcd9d7c95682e67f1fe5b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:47 +0000
Subject: [PATCH 03/37] fix: count an empty list item once in the RLP list
 checkers

---
 circuits/gadgets/rlp/rlp.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/circuits/gadgets/rlp/rlp.go b/circuits/gadgets/rlp/rlp.go
index afa2884..76ad45c 100644
--- a/circuits/gadgets/rlp/rlp.go
+++ b/circuits/gadgets/rlp/rlp.go
@@ -265,7 +265,8 @@ func RlpFieldPrefix(api frontend.API, in [2]frontend.Variable) (frontend.Variabl
 	isValid = api.Sub(isValid, api.Mul(lt1, isEmptyList))
 
 	prefixOrTotalHexLen = api.Add(api.Mul(isValid, prefixOrTotalHexLen), api.Mul(isArray, arrayHexLen))
-	isValid = api.Add(isValid, isArray)
+	// every prefix below 'c' and every array prefix is valid; 'c0' is an array prefix and must not be counted twice
+	isValid = api.Add(lt1, isArray)
 
 	isBig = api.Add(isBig, isArrayBig)
 
@@ -474,7 +475,7 @@ func (a *ArrayCheck) RlpNestArrayCheck(api frontend.API, in []frontend.Variable)
 			shiftToFieldIn = append(shiftToFieldIn, shiftToFieldRlpsOuts[idx][j])
 		}
 
-		fieldPrefixIsBig, fieldPrefixIsLiteral, fieldPrefixPrefixOrTotalHexLen, fieldPrefixIsValid, isArrayField, isEmptyList, isZero := RlpFieldPrefix(api, [2]frontend.Variable{shiftToFieldRlpsOuts[idx][0], shiftToFieldRlpsOuts[idx][1]})
+		fieldPrefixIsBig, fieldPrefixIsLiteral, fieldPrefixPrefixOrTotalHexLen, fieldPrefixIsValid, isArrayField, _, isZero := RlpFieldPrefix(api, [2]frontend.Variable{shiftToFieldRlpsOuts[idx][0], shiftToFieldRlpsOuts[idx][1]})
 
 		fieldRlpPrefix1HexLen := api.Mul(fieldPrefixIsBig, fieldPrefixPrefixOrTotalHexLen)
 
@@ -517,7 +518,6 @@ func (a *ArrayCheck) RlpNestArrayCheck(api frontend.API, in []frontend.Variable)
 
 		//  lenSum = lenSum + 2 - 2 * fieldPrefix[idx].isLiteral + fieldRlpPrefix1HexLen[idx] + fieldHexLen[idx];
 		lenSum = api.Sub(api.Add(lenSum, 2), api.Mul(2, fieldPrefixIsLiteral))
-		lenSum = api.Sub(lenSum, api.Mul(1, isEmptyList))
 		lenSum = api.Add(lenSum, fieldRlpPrefix1HexLen, fieldHexLen)
 
 		fieldHexLen = api.Add(fieldHexLen, keptArrayPrefixLen)
-- 
2.43.0


From 0974cd452c6d6ae6929d95025261173cd59b1c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:49 +0000
Subject: [PATCH 04/37] fix: BlkHeaderRlpCheck counts only the announced number
 of fields

---
 circuits/gadgets/rlp/rlp.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/rlp/rlp.go b/circuits/gadgets/rlp/rlp.go
index 76ad45c..aa9780a 100644
--- a/circuits/gadgets/rlp/rlp.go
+++ b/circuits/gadgets/rlp/rlp.go
@@ -773,8 +773,10 @@ func (a *ArrayCheck) BlkHeaderRlpCheck(api frontend.API, in []frontend.Variable,
 		check = api.Add(check, fieldPrefixIsValid)
 
 		//  lenSum = lenSum + 2 - 2 * fieldPrefix[idx].isLiteral + fieldRlpPrefix1HexLen[idx] + fieldHexLen[idx];
-		lenSum = api.Sub(api.Add(lenSum, 2), api.Mul(2, fieldPrefixIsLiteral))
-		lenSum = api.Add(lenSum, fieldRlpPrefix1HexLen, fieldHexLen)
+		// fields beyond FieldsNum are not part of the header
+		fieldTotalHexLen := api.Sub(2, api.Mul(2, fieldPrefixIsLiteral))
+		fieldTotalHexLen = api.Add(fieldTotalHexLen, fieldRlpPrefix1HexLen, fieldHexLen)
+		lenSum = api.Add(lenSum, api.Mul(idxLessThanMaxFields, fieldTotalHexLen))
 	}
 
 	lenCheck := api.IsZero(api.Sub(totalArrayHexLen, lenSum))
-- 
2.43.0


From a38eb7eda7e373c9d698a721fa7fa331b458f09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:00 +0000
Subject: [PATCH 05/37] fix: conv.Bits2Nibbles recomposes every group of four
 bits

---
 circuits/gadgets/conv/bits.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/circuits/gadgets/conv/bits.go b/circuits/gadgets/conv/bits.go
index 4e232ca..4f1cfe8 100644
--- a/circuits/gadgets/conv/bits.go
+++ b/circuits/gadgets/conv/bits.go
@@ -48,9 +48,9 @@ func Bits2Uint128s(api frontend.API, bits [256]frontend.Variable) [2]frontend.Va
 }
 
 func Bits2Nibbles(api frontend.API, bits []frontend.Variable) []frontend.Variable {
-	bytes := []frontend.Variable{}
-	for i := 0; i < len(bits); i += 8 {
-		bytes = append(bytes, api.FromBinary(bits[i:i+4]))
+	nibbles := []frontend.Variable{}
+	for i := 0; i < len(bits); i += 4 {
+		nibbles = append(nibbles, api.FromBinary(bits[i:i+4]...))
 	}
-	return bytes
+	return nibbles
 }
-- 
2.43.0


From 14506f1b27c2ee5cb0b2dad05fa95d082ff6de9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:01 +0000
Subject: [PATCH 06/37] fix: BitsToFrBigInt reduces a value equal to the
 modulus

---
 common/utils/binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/utils/binary.go b/common/utils/binary.go
index ba021f6..0b6ee43 100644
--- a/common/utils/binary.go
+++ b/common/utils/binary.go
@@ -59,7 +59,7 @@ func BitsToFrBigInt(b []uint, frModulus *big.Int) *big.Int {
 			var decimal = big.NewInt(1)
 			decimal.Lsh(decimal, uint(lens-i-1))
 			res.Add(res, decimal)
-			if res.Cmp(frModulus) > 0 {
+			if res.Cmp(frModulus) >= 0 {
 				res.Mod(res, frModulus)
 			}
 		}
-- 
2.43.0


From 92cda1cb74526bb38c1bcb6e84fecd472dfa78c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:30 +0000
Subject: [PATCH 07/37] fix: keccak padding of messages one byte short of a
 block

Pad101Bits and GetRoundIndex added a whole block when the data ends one
byte before a block boundary; pad10*1 puts both ends in that last byte.
---
 circuits/gadgets/keccak/pad.go       | 19 +++++--------------
 circuits/gadgets/keccak/periphery.go |  2 +-
 2 files changed, 6 insertions(+), 15 deletions(-)

diff --git a/circuits/gadgets/keccak/pad.go b/circuits/gadgets/keccak/pad.go
index 57156e8..7020503 100644
--- a/circuits/gadgets/keccak/pad.go
+++ b/circuits/gadgets/keccak/pad.go
@@ -75,24 +75,15 @@ func Pad101Bits(
 		}
 
 		actualLen := j
-		rounds := (actualLen+8)/1088 + 1
+		rounds := actualLen/1088 + 1
 
-		// insert the padding part
-		for ; j < actualLen+7; j++ {
-			padded[i][j] = 0
-		}
-		padded[i][j] = 1
-		j++
-		for ; j < rounds*1088-8; j++ {
-			padded[i][j] = 0
-		}
-		padded[i][j] = 1
-		j++
-
-		// populate the rest with dummy zeros
+		// insert the padding part and populate the rest with dummy zeros
 		for ; j < outBitsLen; j++ {
 			padded[i][j] = 0
 		}
+		// the first and the last padding byte are the same one if there is only room for one
+		padded[i][actualLen+7] = 1
+		padded[i][rounds*1088-8] = 1
 	}
 	sel := api.Div(api.Sub(inLen, inLenMin), 8/inBits)
 	out := mux.Multiplex(api, sel, outBitsLen, rows, transpose(padded))
diff --git a/circuits/gadgets/keccak/periphery.go b/circuits/gadgets/keccak/periphery.go
index 65f53f5..0670a46 100644
--- a/circuits/gadgets/keccak/periphery.go
+++ b/circuits/gadgets/keccak/periphery.go
@@ -37,7 +37,7 @@ func GetKeccakRoundForPaddedBytes(data []byte) int {
 }
 
 func GetRoundIndex(bitsLen int) int {
-	return (bitsLen + 8) / 1088
+	return bitsLen / 1088
 }
 
 func Bytes2BlockBits(bytes []byte) (bits []uint8) {
-- 
2.43.0


From d23946ceeeecaed17d038ec3ceba20f421ee94c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:17 +0000
Subject: [PATCH 08/37] fix: PadBits101 when fewer than 16 bits are missing

The fixed leading and trailing padding bytes made the result longer than
the block; append the two single bits instead.
---
 circuits/gadgets/keccak/periphery.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/circuits/gadgets/keccak/periphery.go b/circuits/gadgets/keccak/periphery.go
index 0670a46..461cead 100644
--- a/circuits/gadgets/keccak/periphery.go
+++ b/circuits/gadgets/keccak/periphery.go
@@ -244,13 +244,15 @@ func PadBits101(api frontend.API, data []frontend.Variable, maxRound int) []fron
 	var padBits []frontend.Variable
 	padBits = append(padBits, data...)
 	var missedLen = 1088 - len(data)%1088
-	var zeroBitLen = missedLen - 8*2
+	if missedLen < 2 {
+		missedLen += 1088 // no room for both ends of the padding
+	}
 
-	padBits = append(padBits, api.ToBinary(1, 8)...) // 1000, 0000
-	for i := 0; i < zeroBitLen; i++ {
+	padBits = append(padBits, 1)
+	for i := 0; i < missedLen-2; i++ {
 		padBits = append(padBits, 0) //00...0000
 	}
-	padBits = append(padBits, api.ToBinary(128, 8)...) // 0000 0001
+	padBits = append(padBits, 1)
 
 	padZeroLen := maxRound*1088 - len(padBits)
 
-- 
2.43.0


From 2a359b5c0d7312d25da5ece378868339583b0e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:59 +0000
Subject: [PATCH 09/37] fix: Pad101Bytes no longer writes into the caller's
 backing array

---
 circuits/gadgets/keccak/periphery.go | 3 ++-
 common/circuits/keccak.go            | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/keccak/periphery.go b/circuits/gadgets/keccak/periphery.go
index 461cead..9797ab3 100644
--- a/circuits/gadgets/keccak/periphery.go
+++ b/circuits/gadgets/keccak/periphery.go
@@ -24,7 +24,8 @@ func Pad101Bytes(data []byte) []byte {
 	if len(data)%136 == 0 {
 		miss = 136
 	}
-	data = append(data, 1)
+	// never write into the caller's backing array
+	data = append(data[:len(data):len(data)], 1)
 	for i := 0; i < miss-1; i++ {
 		data = append(data, 0)
 	}
diff --git a/common/circuits/keccak.go b/common/circuits/keccak.go
index 5ebb751..5c73c82 100644
--- a/common/circuits/keccak.go
+++ b/common/circuits/keccak.go
@@ -9,7 +9,8 @@ func Pad101Bytes(data []byte) []byte {
 	if len(data)%136 == 0 {
 		miss = 136
 	}
-	data = append(data, 1)
+	// never write into the caller's backing array
+	data = append(data[:len(data):len(data)], 1)
 	for i := 0; i < miss-1; i++ {
 		data = append(data, 0)
 	}
-- 
2.43.0


From 98aa172013c2dee5af8aab5cd0deba0ed058286b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:19 +0000
Subject: [PATCH 10/37] fix: emulated MiMC Sum flushes the data already hashed

A second Sum (or Write after Sum) absorbed the same elements again, unlike
gnark's own MiMC.
---
 circuits/gadgets/emulated/mimc/mimc.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/circuits/gadgets/emulated/mimc/mimc.go b/circuits/gadgets/emulated/mimc/mimc.go
index 470222c..6be4f5a 100644
--- a/circuits/gadgets/emulated/mimc/mimc.go
+++ b/circuits/gadgets/emulated/mimc/mimc.go
@@ -82,5 +82,6 @@ func (h *MiMC[Base]) Sum() *emulated.Element[Base] {
 		temp := h.fp.Add(h.h, r)
 		h.h = h.fp.Add(temp, stream)
 	}
+	h.data = nil // flush the data already hashed
 	return h.fp.Reduce(h.h)
 }
-- 
2.43.0


From 37f17a6a0ae20831593d4e63ea4e76a2d267a23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:16 +0000
Subject: [PATCH 11/37] fix: bind the last node to the root in MPT proofs of
 depth 1

---
 circuits/gadgets/mpt/mpt.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index 5663ed5..8868878 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -223,7 +223,12 @@ func CheckMPTInclusionFixedKeyLength(
 		nodeHashes[layer] = *rlp.Keccak256AsNibbles(api, nodeHashInputLengthAtCurrentLayer, nodeRlpBlock, nodeRoundIndexes[layer])
 	}
 
-	rootHashCheck := rlp.ArrayEqual(api, rootHash[:], nodeHashes[0].Output[:], 64, 64)
+	// a proof of depth 1 consists of the last node only
+	rootNodeHash := nodeHashes[0].Output
+	for i := range rootNodeHash {
+		rootNodeHash[i] = api.Select(depthEqual[0], leafHash.Output[i], rootNodeHash[i])
+	}
+	rootHashCheck := rlp.ArrayEqual(api, rootHash[:], rootNodeHash[:], 64, 64)
 	log.Debug(rootHashCheck, lastNodeCheckResult.result.output, allFragmentsValid, extensionCheckResults, branchCheckResults)
 
 	var allCheckMultiplexerInput [][]frontend.Variable
-- 
2.43.0


From 4f7d55d6e9087df55b4310dba43df962a8e96b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:16 +0000
Subject: [PATCH 12/37] fix: MPT key fragments must start at the first nibble
 of the key

---
 circuits/gadgets/mpt/mpt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index 8868878..add720b 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -71,6 +71,8 @@ func CheckMPTInclusionFixedKeyLength(
 
 	allFragmentsValidMultiplexer := rlp.Multiplexer(api, api.Sub(depth, 1), 1, maxDepth, allFragmentsInput)
 	allFragmentsValid := rlp.Equal(api, allFragmentsValidMultiplexer[0], api.Mul(3, depth))
+	// the first fragment starts at the first nibble of the key
+	allFragmentsValid = api.And(allFragmentsValid, api.IsZero(keyFragmentStarts[0]))
 
 	var leafStartInput [][]frontend.Variable
 	for i := 0; i < maxDepth; i++ {
@@ -310,6 +312,8 @@ func CheckMPTInclusionNoBranchTermination(
 
 	allFragmentsValidMultiplexer := rlp.Multiplexer(api, api.Sub(depth, 1), 1, maxDepth, allFragmentsInput)
 	allFragmentsValid := rlp.Equal(api, allFragmentsValidMultiplexer[0], api.Mul(3, depth))
+	// the first fragment starts at the first nibble of the key
+	allFragmentsValid = api.And(allFragmentsValid, api.IsZero(keyFragmentStarts[0]))
 
 	var leafStartInput [][]frontend.Variable
 	for i := 0; i < maxDepth; i++ {
-- 
2.43.0


From 5590a3c447932a230c91c94d3e28c5ebd1a88d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:16 +0000
Subject: [PATCH 13/37] fix: prove non-existence at the nibble where the last
 node starts

---
 circuits/gadgets/mpt/mpt.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index add720b..3889767 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -100,10 +100,9 @@ func CheckMPTInclusionFixedKeyLength(
 	// 1. the node is last node
 	// 2. in case of the node is branch node or an extension node, but the key path is not matched
 	if isStorageProof {
-		lastNodeLayer := api.Sub(depth, 1)
-		lastNodeKeySelector := selector.Mux(api, lastNodeLayer, key[:]...)
+		// the nibble at which the last node starts, 0 if the path above it consumes the whole key
+		lastNodeKeySelector := selector.Mux(api, leafStartMultiplexer[0], append(key[:keyLength:keyLength], 0)...)
 
-		// layer index start at 0, last node layer = depth -1
 		lastNodeBranchCheck := NewMPTBranchCheck(64)
 		lastNodeBranchNonExistence := lastNodeBranchCheck.CheckBranchForNonExistence(api, lastNodeKeySelector, lastNodeRlp)
 		log.Infoln("lastNodeBranchNonExistence:", lastNodeBranchNonExistence)
-- 
2.43.0


From 508fa1db2e1d78af7da58cd60f4cbd28e7209905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:16 +0000
Subject: [PATCH 14/37] fix: extension non-existence requires a well-formed
 extension whose path differs from the key

---
 circuits/gadgets/mpt/mpt_util.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/circuits/gadgets/mpt/mpt_util.go b/circuits/gadgets/mpt/mpt_util.go
index a3d3328..ff83864 100644
--- a/circuits/gadgets/mpt/mpt_util.go
+++ b/circuits/gadgets/mpt/mpt_util.go
@@ -230,13 +230,12 @@ func (ec *MPTExtensionCheck) checkExtensionNodeNonExistence(
 	// shift node type (node prefix), max type len = 2
 	keyPathsArr := rlp.ShiftLeft(api, ec.maxRLPLength, 0, 2, fields[0], nodeTypePrefixLength)
 
-	// check key path part
+	// the key leaves the trie here only if it differs from the path of a well-formed extension
 	keyNibblesMatched := rlp.ArrayEqual(api, keyNibbles, keyPathsArr, ec.maxKeyLength, api.Sub(fieldsLength[0], nodeTypePrefixLength))
-	keyNibblesLengthMatched := rlp.Equal(api, keyNibbleLen, api.Sub(fieldsLength[0], nodeTypePrefixLength))
 
-	keyNotExistInPath := api.Sub(1, api.And(keyNibblesMatched, keyNibblesLengthMatched))
+	keyNotExistInPath := api.Sub(1, keyNibblesMatched)
 
-	isNotExist := rlp.Equal(api, api.Add(prefixCheck, keyNotExistInPath), 2)
+	isNotExist := rlp.Equal(api, api.Add(rlpout, prefixCheck, keyNotExistInPath), 3)
 	return isNotExist
 
 }
-- 
2.43.0


From 8e34ea8324202f5a92cac2e1381e75a9b79df7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:16 +0000
Subject: [PATCH 15/37] fix: a slot proven absent must be claimed to hold zero

---
 circuits/gadgets/mpt/mpt.go      | 3 ++-
 circuits/gadgets/mpt/mpt_util.go | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index 3889767..65ab1d4 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -111,7 +111,8 @@ func CheckMPTInclusionFixedKeyLength(
 		lastNodeExtensionNonExistence := lastNodeExtensionCheck.checkExtensionNodeNonExistence(api, leafSelector, leafSelectorLength, lastNodeRlp, leafPathPrefixLength)
 		log.Infoln("lastNodeExtensionNonExistence:", lastNodeExtensionNonExistence)
 
-		isNotExist := api.Or(lastNodeBranchNonExistence, lastNodeExtensionNonExistence)
+		// an absent slot holds zero and nothing else
+		isNotExist := api.And(api.Or(lastNodeBranchNonExistence, lastNodeExtensionNonExistence), lastNodeCheckResult.isZeroValue)
 		lastNodeCheckResult.result.output = api.Select(isNotExist, 4, lastNodeCheckResult.result.output)
 
 	}
diff --git a/circuits/gadgets/mpt/mpt_util.go b/circuits/gadgets/mpt/mpt_util.go
index ff83864..9632d9d 100644
--- a/circuits/gadgets/mpt/mpt_util.go
+++ b/circuits/gadgets/mpt/mpt_util.go
@@ -35,6 +35,7 @@ type MPTLeafCheck struct {
 type MPTLeafCheckResult struct {
 	result      MPTCheckResult
 	valueLength frontend.Variable
+	isZeroValue frontend.Variable
 }
 
 func (m *MPTLeafCheckResult) GetResult() MPTCheckResult {
@@ -109,6 +110,7 @@ func (leafCheck *MPTLeafCheck) CheckLeaf(
 			rlpTotalLength: totalRlpLength,
 		},
 		valueLength: fieldsLength[1],
+		isZeroValue: isZeroValue,
 	}
 }
 
-- 
2.43.0


From 97cadf0a4be29477b8f079d4228f8dc1e77fba38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:16 +0000
Subject: [PATCH 16/37] fix: the no-branch-termination MPT verdict requires
 every check

---
 circuits/gadgets/mpt/mpt.go | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index 65ab1d4..7ade316 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -291,27 +291,24 @@ func CheckMPTInclusionNoBranchTermination(
 	for index := 0; index < maxDepth-1; index++ {
 		isSingleKeyFragment = append(isSingleKeyFragment, rlp.Equal(api, api.Add(keyFragmentStarts[index], 1), keyFragmentStarts[index+1]))
 		isMonotoneStart = append(isMonotoneStart, rlp.LessThan(api, keyFragmentStarts[index], keyFragmentStarts[index+1]))
-		keyFragmentValidBranch = append(keyFragmentValidBranch, api.Or(isSingleKeyFragment[index], api.Sub(1, nodeTypes[index])))
+		keyFragmentValidBranch = append(keyFragmentValidBranch, api.Or(isSingleKeyFragment[index], nodeTypes[index]))
 		isStartRange = append(isStartRange, rlp.LessThan(api, keyFragmentStarts[index], keyLength))
 	}
 
-	isStartRange = append(isStartRange, rlp.LessThan(api, keyFragmentStarts[maxDepth-1], keyLength))
-
 	var allFragmentsInput [][]frontend.Variable
 	var tmp frontend.Variable = 0
-	for i := 0; i < maxDepth-1; i++ {
-		if len(allFragmentsInput) == 0 {
-			allFragmentsInput = append(allFragmentsInput, []frontend.Variable{})
+	allFragmentsInput = append(allFragmentsInput, []frontend.Variable{})
+	for i := 0; i < maxDepth; i++ {
+		// the leaf of a proof of depth i+1 may start at the very end of the key
+		isLeafStartRange := rlp.LessThan(api, keyFragmentStarts[i], api.Add(keyLength, 1))
+		allFragmentsInput[0] = append(allFragmentsInput[0], api.Add(tmp, isLeafStartRange))
+		if i < maxDepth-1 {
+			tmp = api.Add(tmp, keyFragmentValidBranch[i], isMonotoneStart[i], isStartRange[i])
 		}
-		tmp = api.Add(tmp, keyFragmentValidBranch[i], isMonotoneStart[i], isStartRange[i])
-		allFragmentsInput[0] = append(allFragmentsInput[0], tmp)
 	}
 
-	tmp = api.Add(tmp, 2, isStartRange[maxDepth-1])
-	allFragmentsInput[0] = append(allFragmentsInput[0], tmp)
-
 	allFragmentsValidMultiplexer := rlp.Multiplexer(api, api.Sub(depth, 1), 1, maxDepth, allFragmentsInput)
-	allFragmentsValid := rlp.Equal(api, allFragmentsValidMultiplexer[0], api.Mul(3, depth))
+	allFragmentsValid := rlp.Equal(api, allFragmentsValidMultiplexer[0], api.Sub(api.Mul(3, depth), 2))
 	// the first fragment starts at the first nibble of the key
 	allFragmentsValid = api.And(allFragmentsValid, api.IsZero(keyFragmentStarts[0]))
 
@@ -442,7 +439,12 @@ func CheckMPTInclusionNoBranchTermination(
 		nodeHashes[layer] = *rlp.Keccak256AsNibbles(api, nodeHashInputLengthAtCurrentLayer, nodeRlpBlock, nodeRoundIndexes[layer])
 	}
 
-	rootHashCheck := rlp.ArrayEqual(api, rootHash[:], nodeHashes[0].Output[:], 64, 64)
+	// a proof of depth 1 consists of the leaf only
+	rootNodeHash := nodeHashes[0].Output
+	for i := range rootNodeHash {
+		rootNodeHash[i] = api.Select(depthEqual[0], leafHash[i], rootNodeHash[i])
+	}
+	rootHashCheck := rlp.ArrayEqual(api, rootHash[:], rootNodeHash[:], 64, 64)
 	log.Debug("Inclusion Check:", rootHashCheck, allFragmentsValid, extensionCheckResults, branchCheckResults)
 
 	var allCheckMultiplexerInput [][]frontend.Variable
@@ -470,7 +472,7 @@ func CheckMPTInclusionNoBranchTermination(
 	allCheckMultiplexer := rlp.Multiplexer(api, api.Sub(depth, 1), 1, maxDepth, allCheckMultiplexerInput)
 
 	return CheckMPTInclusionFixedKeyLengthResult{
-		Output:      rlp.Equal(api, allCheckMultiplexer[0], api.Add(api.Mul(depth, 4), 1)),
+		Output:      rlp.Equal(api, allCheckMultiplexer[0], api.Add(api.Mul(depth, 4), 2)),
 		ValueLength: 0,
 	}
 }
-- 
2.43.0


From ba37d2a0d05803abce694e5fc8882d20a98a4e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:39 +0000
Subject: [PATCH 17/37] fix: write helpers close the file on every path and
 report open, write and close failures

---
 common/utils/pk-vk-utils.go | 56 ++++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 17 deletions(-)

diff --git a/common/utils/pk-vk-utils.go b/common/utils/pk-vk-utils.go
index 9968f8e..f0fd242 100644
--- a/common/utils/pk-vk-utils.go
+++ b/common/utils/pk-vk-utils.go
@@ -22,6 +22,14 @@ func ReadFileAndReturnByteArray(extractedFilePath string) ([]byte, error) {
 	return io.ReadAll(file)
 }
 
+// closeWritten closes a written file and reports the close error unless an
+// earlier step already failed.
+func closeWritten(f *os.File, err *error) {
+	if closeErr := f.Close(); *err == nil {
+		*err = closeErr
+	}
+}
+
 func ReadPlonkProvingKey(filename string, pk plonk.ProvingKey) error {
 	f, err := os.Open(filename)
 	if err != nil {
@@ -33,15 +41,20 @@ func ReadPlonkProvingKey(filename string, pk plonk.ProvingKey) error {
 	return err
 }
 
-func WritePlonkProvingKey(filename string, pk plonk.ProvingKey) {
+func WritePlonkProvingKey(filename string, pk plonk.ProvingKey) (err error) {
 	f, err := os.Create(filename)
 	if err != nil {
 		log.Error("pk writing open failed... ", err)
+		return err
 	}
+	defer closeWritten(f, &err)
+
 	_, err = pk.WriteTo(f)
 	if err != nil {
 		log.Error("pk writing failed... ", err)
+		return err
 	}
+	return nil
 }
 
 func ReadPlonkVerifyingKey(filename string, vk plonk.VerifyingKey) error {
@@ -55,11 +68,12 @@ func ReadPlonkVerifyingKey(filename string, vk plonk.VerifyingKey) error {
 	return err
 }
 
-func WritePlonkVerifyingKey(filename string, vk plonk.VerifyingKey) error {
+func WritePlonkVerifyingKey(filename string, vk plonk.VerifyingKey) (err error) {
 	f, err := os.Create(filename)
 	if err != nil {
 		return err
 	}
+	defer closeWritten(f, &err)
 
 	_, err = vk.WriteTo(f)
 	if err != nil {
@@ -79,12 +93,13 @@ func ReadWitness(filename string, witness witness.Witness) error {
 	return err
 }
 
-func WriteWitness(filename string, witness witness.Witness) error {
+func WriteWitness(filename string, witness witness.Witness) (err error) {
 	f, err := os.Create(filename)
 	if err != nil {
 		log.Error("witness writing failed... ", err)
 		return err
 	}
+	defer closeWritten(f, &err)
 
 	_, err = witness.WriteTo(f)
 	if err != nil {
@@ -105,11 +120,13 @@ func ReadPlonkCcs(filename string, ccs constraint.ConstraintSystem) error {
 	return err
 }
 
-func WritePlonkCcs(filename string, css constraint.ConstraintSystem) error {
+func WritePlonkCcs(filename string, css constraint.ConstraintSystem) (err error) {
 	f, err := os.Create(filename)
 	if err != nil {
 		return err
 	}
+	defer closeWritten(f, &err)
+
 	_, err = css.WriteTo(f)
 	if err != nil {
 		return err
@@ -117,13 +134,13 @@ func WritePlonkCcs(filename string, css constraint.ConstraintSystem) error {
 	return nil
 }
 
-func WritePlonkVKSolidity(filename string, vk plonk.VerifyingKey) error {
+func WritePlonkVKSolidity(filename string, vk plonk.VerifyingKey) (err error) {
 	f, err := os.Create(filename)
 	if err != nil {
 		return err
 	}
 
-	defer f.Close()
+	defer closeWritten(f, &err)
 
 	err = vk.ExportSolidity(f)
 
@@ -144,14 +161,14 @@ func ReadPlonkProofFromLocalFile(filename string, proof plonk.Proof) error {
 	return err
 }
 
-func WritePlonkProofIntoLocalFile(proof plonk.Proof, filename string) error {
+func WritePlonkProofIntoLocalFile(proof plonk.Proof, filename string) (err error) {
 	f, err := os.Create(filename)
 	if err != nil {
 		log.Error(err)
 		return err
 	}
 
-	defer f.Close()
+	defer closeWritten(f, &err)
 
 	_, err = proof.WriteRawTo(f)
 
@@ -173,11 +190,13 @@ func ReadProvingKey(filename string, pk groth16.ProvingKey) error {
 	return err
 }
 
-func WriteProvingKey(filename string, pk groth16.ProvingKey) error {
+func WriteProvingKey(filename string, pk groth16.ProvingKey) (err error) {
 	f, err := os.Create(filename)
 	if err != nil {
 		return err
 	}
+	defer closeWritten(f, &err)
+
 	_, err = pk.WriteTo(f)
 	if err != nil {
 		return err
@@ -196,12 +215,13 @@ func ReadVerifyingKey(filename string, vk groth16.VerifyingKey) error {
 	return err
 }
 
-func WriteVerifyingKey(filename string, vk groth16.VerifyingKey) error {
+func WriteVerifyingKey(filename string, vk groth16.VerifyingKey) (err error) {
 	f, err := os.Create(filename)
 	if err != nil {
 		log.Error("vk writing failed... ", err)
 		return err
 	}
+	defer closeWritten(f, &err)
 
 	_, err = vk.WriteTo(f)
 	if err != nil {
@@ -222,11 +242,13 @@ func ReadCcs(filename string, ccs constraint.ConstraintSystem) error {
 	return err
 }
 
-func WriteCcs(filename string, css constraint.ConstraintSystem) error {
+func WriteCcs(filename string, css constraint.ConstraintSystem) (err error) {
 	f, err := os.Create(filename)
 	if err != nil {
 		return err
 	}
+	defer closeWritten(f, &err)
+
 	_, err = css.WriteTo(f)
 	if err != nil {
 		return err
@@ -234,13 +256,13 @@ func WriteCcs(filename string, css constraint.ConstraintSystem) error {
 	return nil
 }
 
-func WriteVKSolidity(filename string, vk groth16.VerifyingKey) error {
+func WriteVKSolidity(filename string, vk groth16.VerifyingKey) (err error) {
 	f, err := os.Create(filename)
 	if err != nil {
 		return err
 	}
 
-	defer f.Close()
+	defer closeWritten(f, &err)
 
 	err = vk.ExportSolidity(f)
 
@@ -261,14 +283,14 @@ func ReadProofFromLocalFile(filename string, proof groth16.Proof) error {
 	return err
 }
 
-func WriteProofIntoLocalFile(filename string, proof groth16.Proof) error {
+func WriteProofIntoLocalFile(filename string, proof groth16.Proof) (err error) {
 	f, err := os.Create(filename)
 	if err != nil {
 		log.Error(err)
 		return err
 	}
 
-	defer f.Close()
+	defer closeWritten(f, &err)
 
 	_, err = proof.WriteRawTo(f)
 
@@ -283,14 +305,14 @@ func ReadPublicInputs(filename string) ([]byte, error) {
 	return os.ReadFile(filename)
 }
 
-func WritePublicInputs(filename string, publicInputs []byte) error {
+func WritePublicInputs(filename string, publicInputs []byte) (err error) {
 	f, err := os.Create(filename)
 	if err != nil {
 		log.Error(err)
 		return err
 	}
 
-	defer f.Close()
+	defer closeWritten(f, &err)
 
 	_, err = f.Write(publicInputs)
 
-- 
2.43.0


From a2a55b811ba5c5ba2ea939f82b1e3e6bc1906c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:42 +0000
Subject: [PATCH 18/37] fix: HeadObject sends one request and reports its
 outcome

---
 common/s3api/client.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/common/s3api/client.go b/common/s3api/client.go
index ae6b386..9c637e0 100644
--- a/common/s3api/client.go
+++ b/common/s3api/client.go
@@ -90,7 +90,6 @@ func (s *Client) HeadObject(filePath string) error {
 		Bucket: aws.String(s.bucket),
 		Key:    aws.String(filePath), // file path
 	}
-	s.s3.HeadObject(params)
 	_, err := s.s3.HeadObject(params)
 	return err
 }
-- 
2.43.0


From 5d687fe8ce0776bf31885d2ae0deb481e9f05ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:46 +0000
Subject: [PATCH 19/37] fix: query input hashes refuse malformed hex and
 negative or invalid slot values

---
 common/proof/query_id.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/common/proof/query_id.go b/common/proof/query_id.go
index 6016fd2..02c6164 100644
--- a/common/proof/query_id.go
+++ b/common/proof/query_id.go
@@ -1,6 +1,8 @@
 package proof
 
 import (
+	"encoding/hex"
+	"fmt"
 	"math/big"
 
 	"github.com/brevis-network/zk-utils/common/utils"
@@ -75,11 +77,17 @@ func MiMCHashStorageCustomInputs(
 
 	bits = append(bits, utils.DecomposeBits(utils.Var2BigInt(data.AccountAddress), 8*20)...)
 
-	var slot = utils.ParseBytes32(GetPaddedSlotBytes(data.Slot), 248)
+	slotBytes, err := decodeHex(data.Slot)
+	if err != nil {
+		return nil, err
+	}
+	var slot = utils.ParseBytes32(slotBytes, 248)
 	bits = append(bits, utils.Byte32ToFrBits(slot, 248)...)
 
-	storageValue, _ := new(big.Int).SetString(data.SlotValue, 10)
-
+	storageValue, ok := new(big.Int).SetString(data.SlotValue, 10)
+	if !ok || storageValue.Sign() < 0 {
+		return nil, fmt.Errorf("invalid slot value %s", data.SlotValue)
+	}
 	var value = utils.ParseBytes32(storageValue.Bytes(), 248)
 	bits = append(bits, utils.Byte32ToFrBits(value, 248)...)
 
@@ -122,7 +130,10 @@ func MiMCHashTxCustomInputs(
 	// var value32Byte = utils.ParseBytes32(value, 248)
 	// bits = append(bits, utils.Byte32ToFrBits(value32Byte, 248)...)
 
-	leafHash := utils.Hex2Bytes(tsInfo.LeafHash)
+	leafHash, err := decodeHex(tsInfo.LeafHash)
+	if err != nil {
+		return nil, err
+	}
 	var leafHashByte = utils.ParseBytes32(leafHash, 248)
 	bits = append(bits, utils.Byte32ToFrBits(leafHashByte, 248)...)
 
@@ -140,6 +151,17 @@ func MiMCHashTxCustomInputs(
 	return result.Bytes(), nil
 }
 
+// decodeHex decodes like utils.Hex2Bytes but reports malformed input
+func decodeHex(s string) ([]byte, error) {
+	if len(s) >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X') {
+		s = s[2:]
+	}
+	if len(s)%2 == 1 {
+		s = "0" + s
+	}
+	return hex.DecodeString(s)
+}
+
 // 0x01 ===> 0x0000000000000000000000000000000000000000000000000000000000000001
 func GetPaddedSlotBytes(slot string) []byte {
 	slotBytes := utils.Hex2Bytes(slot)
-- 
2.43.0


From 0f8e56ba44427503b4ad80cbf3621837d537e1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:46 +0000
Subject: [PATCH 20/37] fix: app vk hashing stops when the hasher refuses data
 or the 761 hash has another length

---
 common/utils/plonk_util.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/common/utils/plonk_util.go b/common/utils/plonk_util.go
index 6d44699..5e17c99 100644
--- a/common/utils/plonk_util.go
+++ b/common/utils/plonk_util.go
@@ -98,19 +98,22 @@ func CalculateAppVkHashFor761(vk replonk.VerifyingKey[sw_bls12377.ScalarField, s
 	elementData = element.Bytes()
 	hashData = append(hashData, elementData[:]...)
 
-	hasher.Write(hashData[:])
+	_, err := hasher.Write(hashData[:])
+	CheckErr(err, "hash app vk")
 
 	return hasher.Sum(nil)
 }
 
 func CalculateAppVkHashFrom761To254(appVkHash []byte) []byte {
 	if len(appVkHash) != 48 {
-		log.Warnf("App VK Hash length From 761 is not 48: 0x%x", appVkHash)
+		log.Panicf("App VK Hash length From 761 is not 48: 0x%x", appVkHash)
 	}
 	bn254Hash := bn254mimc.NewMiMC()
 
-	bn254Hash.Write(MiMCBlockPad0(appVkHash[0:24], bn254Hash.BlockSize()))
-	bn254Hash.Write(MiMCBlockPad0(appVkHash[24:], bn254Hash.BlockSize()))
+	_, err := bn254Hash.Write(MiMCBlockPad0(appVkHash[0:24], bn254Hash.BlockSize()))
+	CheckErr(err, "hash app vk hash")
+	_, err = bn254Hash.Write(MiMCBlockPad0(appVkHash[24:], bn254Hash.BlockSize()))
+	CheckErr(err, "hash app vk hash")
 
 	return bn254Hash.Sum(nil)
 }
-- 
2.43.0


From f8b9df031d9ec0aef9c0f6cf18bfae43fdc949a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:47 +0000
Subject: [PATCH 21/37] fix: GenerateBls12377Hash stops instead of dropping a
 block the hasher refuses

---
 common/utils/utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/utils/utils.go b/common/utils/utils.go
index 32a162b..2a813c8 100644
--- a/common/utils/utils.go
+++ b/common/utils/utils.go
@@ -191,7 +191,8 @@ func GenerateBls12377Hash(input []byte) []byte {
 	for _, frData := range frDataArray {
 		var frByteBlock = make([]byte, 32)
 		frData.FillBytes(frByteBlock)
-		hash.Write(frByteBlock)
+		_, err := hash.Write(frByteBlock)
+		CheckErr(err, "hash bls12-377 block")
 	}
 
 	return hash.Sum(nil)
-- 
2.43.0


From 760b1c96493dbf0e3924b62e06c9449cf6050448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:04 +0000
Subject: [PATCH 22/37] fix: GetSlot and GetBlock report every failed step
 instead of panicking or returning partial data

---
 common/eth/client.go | 82 +++++++++++++++++++++++++++++++-------------
 1 file changed, 58 insertions(+), 24 deletions(-)

diff --git a/common/eth/client.go b/common/eth/client.go
index f7b7159..9a0d3b1 100644
--- a/common/eth/client.go
+++ b/common/eth/client.go
@@ -46,32 +46,53 @@ func (ec *Client) GetSlot(block uint64) (uint64, bool) {
 	// get slot based on block, see: https://beaconcha.in/api/v1/docs/index.html#/Execution/get_api_v1_execution_block__blockNumber_
 	url := fmt.Sprintf("https://%sbeaconcha.in/api/v1/execution/block/%d", prefix, block)
 	client := &http.Client{}
-	req, _ := http.NewRequest("GET", url, nil)
+	req, err := http.NewRequest("GET", url, nil)
+	if err != nil {
+		log.Errorf("failed to build request: %s", err.Error())
+		return 0, false
+	}
 	res, err := client.Do(req)
 	if err != nil {
 		fmt.Println("Err is", err)
 		return 0, false
 	}
+	defer res.Body.Close()
 	if res.StatusCode != 200 {
 		log.Errorf("failed to curl slot by block: status code %d", res.StatusCode)
 		return 0, false
 	}
-	defer res.Body.Close()
-	resBody, _ := io.ReadAll(res.Body)
-	var jsonRes map[string]interface{}    // declaring a map for key names as string and values as interface
-	_ = json.Unmarshal(resBody, &jsonRes) // Unmarshalling
-	dataList := jsonRes["data"].([]interface{})
-	data := dataList[0].(map[string]interface{})
-	if data["posConsensus"] == nil {
+	resBody, err := io.ReadAll(res.Body)
+	if err != nil {
+		log.Errorf("failed to read response: %s", err.Error())
 		return 0, false
 	}
-	posConsensus := data["posConsensus"].(map[string]interface{})
-	slot := uint64(0)
-	finilized := false
-
-	slot = uint64(posConsensus["slot"].(float64))
-	finilized = posConsensus["finalized"].(bool)
-	return slot, finilized
+	var jsonRes map[string]interface{} // declaring a map for key names as string and values as interface
+	err = json.Unmarshal(resBody, &jsonRes)
+	if err != nil {
+		log.Errorf("failed to decode response: %s", err.Error())
+		return 0, false
+	}
+	dataList, ok := jsonRes["data"].([]interface{})
+	if !ok || len(dataList) == 0 {
+		return 0, false
+	}
+	data, ok := dataList[0].(map[string]interface{})
+	if !ok {
+		return 0, false
+	}
+	posConsensus, ok := data["posConsensus"].(map[string]interface{})
+	if !ok {
+		return 0, false
+	}
+	slot, ok := posConsensus["slot"].(float64)
+	if !ok {
+		return 0, false
+	}
+	finilized, ok := posConsensus["finalized"].(bool)
+	if !ok {
+		return 0, false
+	}
+	return uint64(slot), finilized
 }
 
 func (ec *Client) GetBlock(slot uint64) uint64 {
@@ -89,26 +110,39 @@ func (ec *Client) GetBlock(slot uint64) uint64 {
 	// get slot based on block, see: https://beaconcha.in/api/v1/docs/index.html#/Slot/get_api_v1_slot__slotOrHash_
 	url := fmt.Sprintf("https://%sbeaconcha.in/api/v1/slot/%d", prefix, slot)
 	client := &http.Client{}
-	req, _ := http.NewRequest("GET", url, nil)
+	req, err := http.NewRequest("GET", url, nil)
+	if err != nil {
+		log.Errorf("failed to build request: %s", err.Error())
+		return 0
+	}
 	res, err := client.Do(req)
 	if err != nil {
 		fmt.Println("Err is", err)
 		return 0
 	}
+	defer res.Body.Close()
 	if res.StatusCode != 200 {
 		log.Errorf("failed to curl block by slot: status code %d", res.StatusCode)
 		return 0
 	}
-	defer res.Body.Close()
-	resBody, _ := io.ReadAll(res.Body)
-	var jsonRes map[string]interface{}    // declaring a map for key names as string and values as interface
-	_ = json.Unmarshal(resBody, &jsonRes) // Unmarshalling
-	data := jsonRes["data"].(map[string]interface{})
-	if data == nil {
+	resBody, err := io.ReadAll(res.Body)
+	if err != nil {
+		log.Errorf("failed to read response: %s", err.Error())
+		return 0
+	}
+	var jsonRes map[string]interface{} // declaring a map for key names as string and values as interface
+	err = json.Unmarshal(resBody, &jsonRes)
+	if err != nil {
+		log.Errorf("failed to decode response: %s", err.Error())
+		return 0
+	}
+	data, ok := jsonRes["data"].(map[string]interface{})
+	if !ok {
 		return 0
 	}
-	if data["exec_block_number"] == nil {
+	blockNumber, ok := data["exec_block_number"].(float64)
+	if !ok {
 		return 0
 	}
-	return uint64(data["exec_block_number"].(float64))
+	return uint64(blockNumber)
 }
-- 
2.43.0


From b18f9e93a81dd0086c35a82d5deb9cd4d9de0f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:29 +0000
Subject: [PATCH 23/37] fix: no inclusion proof is returned for an index
 outside the block

---
 common/proof/tx_merkel_proof.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/common/proof/tx_merkel_proof.go b/common/proof/tx_merkel_proof.go
index be7a453..891be29 100644
--- a/common/proof/tx_merkel_proof.go
+++ b/common/proof/tx_merkel_proof.go
@@ -28,6 +28,10 @@ func (p *ProofWriter) Delete(key []byte) error {
 }
 
 func GetTransactionProof(bk *types.Block, index int) (nodes [][]byte, keyIndex, leafRlpPrefix []byte, err error) {
+	if index < 0 || index >= len(bk.Transactions()) {
+		err = fmt.Errorf("transaction index out of range, blk: %d, index: %d", bk.NumberU64(), index)
+		return
+	}
 	var indexBuf []byte
 	keyIndex = rlp.AppendUint64(indexBuf[:0], uint64(index))
 
@@ -61,6 +65,10 @@ func GetTransactionProof(bk *types.Block, index int) (nodes [][]byte, keyIndex,
 }
 
 func GetReceiptProof(bk *types.Block, receipts types.Receipts, index int) (nodes [][]byte, keyIndex, leafRlpPrefix []byte, err error) {
+	if index < 0 || index >= len(receipts) {
+		err = fmt.Errorf("receipt index out of range, blk: %d, index: %d", bk.NumberU64(), index)
+		return
+	}
 	var indexBuf []byte
 	keyIndex = rlp.AppendUint64(indexBuf[:0], uint64(index))
 
-- 
2.43.0


From 3d784570218742f2c6c26f61bbcb51486cc569c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:43 +0000
Subject: [PATCH 24/37] fix: signer recovery handles unprotected legacy
 transactions and rejects oversized signature values

---
 common/proof/util.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/common/proof/util.go b/common/proof/util.go
index 29f7146..5d685ce 100644
--- a/common/proof/util.go
+++ b/common/proof/util.go
@@ -25,7 +25,17 @@ type unsignedTransactionData struct {
 }
 
 func PrepareUnsignedTransactionRlp(transaction *ethtypes.Transaction) ([]byte, error) {
-	if transaction.Type() == types.LegacyTxType {
+	if transaction.Type() == types.LegacyTxType && !transaction.Protected() {
+		// before EIP-155 the signature covers the first six fields only
+		return rlp.EncodeToBytes([]interface{}{
+			transaction.Nonce(),
+			transaction.GasPrice(),
+			transaction.Gas(),
+			transaction.To(),
+			transaction.Value(),
+			transaction.Data(),
+		})
+	} else if transaction.Type() == types.LegacyTxType {
 		unsignedTransaction := &unsignedLegacyTransactionData{
 			Nonce:    transaction.Nonce(),
 			GasPrice: transaction.GasPrice(),
@@ -91,9 +101,16 @@ func RecoverTransactionSignerAddress(transaction *ethtypes.Transaction) ([]byte,
 
 	if transactionType == types.LegacyTxType {
 		actualV := v.Uint64() - 35 - transaction.ChainId().Uint64()*2
+		if !transaction.Protected() {
+			actualV = v.Uint64() - 27
+		}
 		v = new(big.Int).SetUint64(actualV)
 	}
 
+	if v.BitLen() > 8 || r.BitLen() > 256 || s.BitLen() > 256 {
+		return nil, fmt.Errorf("invalid signature values")
+	}
+
 	var rBuf [32]byte
 	var sBuf [32]byte
 	sigBytes = append(sigBytes, r.FillBytes(rBuf[:])...)
-- 
2.43.0


From 71121840e96f9a49d4e534603e848e0a3447dd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:44 +0000
Subject: [PATCH 25/37] fix: chunk proof block numbers are encoded unsigned

---
 common/proof/types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/proof/types.go b/common/proof/types.go
index 640f609..9bf473d 100644
--- a/common/proof/types.go
+++ b/common/proof/types.go
@@ -175,9 +175,9 @@ func (p *ChunkProof) EncodeABI() []byte {
 	args = append(args, prevHash[0:16], prevHash[16:])
 	endHash := utils.Hex2Hash(p.EndHash)
 	args = append(args, endHash[0:16], endHash[16:])
-	startBlockNum := big.NewInt(int64(p.StartBlockNum)).Bytes()
+	startBlockNum := new(big.Int).SetUint64(p.StartBlockNum).Bytes()
 	args = append(args, startBlockNum)
-	endBlockNum := big.NewInt(int64(p.EndBlockNum)).Bytes()
+	endBlockNum := new(big.Int).SetUint64(p.EndBlockNum).Bytes()
 	args = append(args, endBlockNum)
 
 	var ret []byte
-- 
2.43.0


From 4e5ef2694f385da22b755c27d2a5d7cb81b5ec53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:44 +0000
Subject: [PATCH 26/37] fix: decomposing a negative integer is refused instead
 of aliasing a positive one

---
 common/utils/compose.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/utils/compose.go b/common/utils/compose.go
index 585d162..d0fb687 100644
--- a/common/utils/compose.go
+++ b/common/utils/compose.go
@@ -23,6 +23,9 @@ func recompose[T uint | byte](data []T, bitSize int) *big.Int {
 }
 
 func decompose[T uint | byte](data *big.Int, bitSize uint, length int) []T {
+	if data.Sign() < 0 {
+		panic(fmt.Errorf("cannot decompose negative integer %s", data.String()))
+	}
 	if data.BitLen() > length*int(bitSize) {
 		panic(fmt.Errorf("decomposed integer (bit len %d) does not fit into output (bit len %d, length %d)",
 			data.BitLen(), bitSize, length))
-- 
2.43.0


From 291bf49a6b92f7e5ff1bfa3cd185ba9301d008dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:15 +0000
Subject: [PATCH 27/37] fix: DecodeCalldata decodes what EncodeCalldata returns

---
 common/utils/contract_codec.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/utils/contract_codec.go b/common/utils/contract_codec.go
index 90dc59c..c76e842 100644
--- a/common/utils/contract_codec.go
+++ b/common/utils/contract_codec.go
@@ -1,6 +1,7 @@
 package utils
 
 import (
+	"bytes"
 	"fmt"
 	"github.com/celer-network/goutils/log"
 	"github.com/ethereum/go-ethereum/accounts/abi"
@@ -45,6 +46,11 @@ func (c *ContractCodec) DecodeCalldata(methodName string, data []byte, ptrs ...i
 	if !ok {
 		return fmt.Errorf("method %s not fonud in abi", methodName)
 	}
+	// complete calldata, as EncodeCalldata returns it, starts with the selector;
+	// the encoded arguments alone are a whole number of words
+	if len(data)%32 == len(method.ID) && bytes.HasPrefix(data, method.ID) {
+		data = data[len(method.ID):]
+	}
 	return decodeArgs(method.Inputs, data, ptrs...)
 }
 
-- 
2.43.0


From 3ebaa3100b004e8e12af069bc94afa4cb162e516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:16 +0000
Subject: [PATCH 28/37] fix: decoding into a nil pointer or another type is an
 error, not a panic

---
 common/utils/contract_codec.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/common/utils/contract_codec.go b/common/utils/contract_codec.go
index c76e842..e2054bb 100644
--- a/common/utils/contract_codec.go
+++ b/common/utils/contract_codec.go
@@ -85,15 +85,20 @@ func decodeArgs(args abi.Arguments, data []byte, ptrs ...interface{}) error {
 		if val.Kind() != reflect.Ptr {
 			return fmt.Errorf("reference [%d] not pointer value", i)
 		}
+		if val.IsNil() {
+			return fmt.Errorf("reference [%d] is a nil pointer", i)
+		}
 		unpackedVal := reflect.ValueOf(unpacked[i])
 		if !unpackedVal.IsValid() {
 			continue
 		}
 		if unpackedVal.Kind() == reflect.Ptr {
-			val.Elem().Set(unpackedVal.Elem())
-		} else {
-			val.Elem().Set(unpackedVal)
+			unpackedVal = unpackedVal.Elem()
+		}
+		if !unpackedVal.Type().AssignableTo(val.Elem().Type()) {
+			return fmt.Errorf("reference [%d] is %s, cannot hold %s", i, val.Type(), unpackedVal.Type())
 		}
+		val.Elem().Set(unpackedVal)
 	}
 	return nil
 }
-- 
2.43.0


From 596424851ee7f7147cfd821643c323b438d2c100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:50 +0000
Subject: [PATCH 29/37] fix: FrobeniusCube raises to p^3 instead of reusing the
 power-1 constants

---
 circuits/gadgets/pairing_bls12381/tower.go | 25 +---------------------
 1 file changed, 1 insertion(+), 24 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/tower.go b/circuits/gadgets/pairing_bls12381/tower.go
index 8dd6802..3901786 100644
--- a/circuits/gadgets/pairing_bls12381/tower.go
+++ b/circuits/gadgets/pairing_bls12381/tower.go
@@ -687,30 +687,7 @@ func (e ext12) FrobeniusSquare(x *E12) *E12 {
 }
 
 func (e ext12) FrobeniusCube(x *E12) *E12 {
-	// var t [6]E2
-	t0 := e.ext2.Conjugate(&x.C0.B0)       // t[0].Conjugate(&x.C0.B0)
-	t1 := e.ext2.Conjugate(&x.C0.B1)       // t[1].Conjugate(&x.C0.B1)
-	t2 := e.ext2.Conjugate(&x.C0.B2)       // t[2].Conjugate(&x.C0.B2)
-	t3 := e.ext2.Conjugate(&x.C1.B0)       // t[3].Conjugate(&x.C1.B0)
-	t4 := e.ext2.Conjugate(&x.C1.B1)       // t[4].Conjugate(&x.C1.B1)
-	t5 := e.ext2.Conjugate(&x.C1.B2)       // t[5].Conjugate(&x.C1.B2)
-	t1 = e.ext2.MulByNonResidue1Power2(t1) // t[1].MulByNonResidue3Power2(&t[1])
-	t2 = e.ext2.MulByNonResidue1Power4(t2) // t[2].MulByNonResidue3Power4(&t[2])
-	t3 = e.ext2.MulByNonResidue1Power1(t3) // t[3].MulByNonResidue3Power1(&t[3])
-	t4 = e.ext2.MulByNonResidue1Power3(t4) // t[4].MulByNonResidue3Power3(&t[4])
-	t5 = e.ext2.MulByNonResidue1Power5(t5) // t[5].MulByNonResidue3Power5(&t[5])
-	return &E12{                           // return z
-		C0: E6{
-			B0: *t0, // z.C0.B0 = t[0]
-			B1: *t1, // z.C0.B1 = t[1]
-			B2: *t2, // z.C0.B2 = t[2]
-		},
-		C1: E6{
-			B0: *t3, // z.C1.B0 = t[3]
-			B1: *t4, // z.C1.B1 = t[4]
-			B2: *t5, // z.C1.B2 = t[5]
-		},
-	}
+	return e.Frobenius(e.FrobeniusSquare(x))
 }
 
 func (e ext12) DecompressKarabina(x E12) *E12 {
-- 
2.43.0


From 8172e7366683a6f4b631ff609b829cf63f538c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:18 +0000
Subject: [PATCH 30/37] fix: pairing gadget keeps operands of deferred
 multiplication checks intact

---
 circuits/gadgets/pairing_bls12381/g2.go       | 111 ++++++++----------
 .../gadgets/pairing_bls12381/hash2curve.go    |  29 +++--
 circuits/gadgets/pairing_bls12381/pairing.go  |  45 +++----
 3 files changed, 92 insertions(+), 93 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/g2.go b/circuits/gadgets/pairing_bls12381/g2.go
index 80cb580..485796c 100644
--- a/circuits/gadgets/pairing_bls12381/g2.go
+++ b/circuits/gadgets/pairing_bls12381/g2.go
@@ -69,22 +69,24 @@ func G2JacobianAddAssign(api frontend.API, p, a G2Jacobian) G2Jacobian {
 	r := et2.Sub(S2, S1)
 	r = et2.Double(r)
 	V := et2.Mul(U1, I)
-	p.X = *et2.Square(r)
-	p.X = *et2.Sub(&p.X, J)
-	p.X = *et2.Sub(&p.X, V)
-	p.X = *et2.Sub(&p.X, V)
-	p.Y = *et2.Sub(V, &p.X)
-	p.Y = *et2.Mul(&p.Y, r)
+	// multiplication checks are deferred and keep pointers to their operands, so
+	// the operands must not be overwritten
+	X3 := et2.Square(r)
+	X3 = et2.Sub(X3, J)
+	X3 = et2.Sub(X3, V)
+	X3 = et2.Sub(X3, V)
+	Y3 := et2.Sub(V, X3)
+	Y3 = et2.Mul(Y3, r)
 	S1 = et2.Mul(S1, J)
 	S1 = et2.Double(S1)
-	p.Y = *et2.Sub(&p.Y, S1)
-	p.Z = *et2.Add(&p.Z, &a.Z)
-	p.Z = *et2.Square(&p.Z)
-	p.Z = *et2.Sub(&p.Z, Z1Z1)
-	p.Z = *et2.Sub(&p.Z, Z2Z2)
-	p.Z = *et2.Mul(&p.Z, H)
+	Y3 = et2.Sub(Y3, S1)
+	Z3 := et2.Add(&p.Z, &a.Z)
+	Z3 = et2.Square(Z3)
+	Z3 = et2.Sub(Z3, Z1Z1)
+	Z3 = et2.Sub(Z3, Z2Z2)
+	Z3 = et2.Mul(Z3, H)
 
-	res := p
+	res := G2Jacobian{X: *X3, Y: *Y3, Z: *Z3}
 
 	res.X = *et2.Select(pNotEqualA, &res.X, &res3.X)
 	res.Y = *et2.Select(pNotEqualA, &res.Y, &res3.Y)
@@ -107,8 +109,7 @@ func G2JacobianNeg(api frontend.API, p G2Jacobian) G2Jacobian {
 		log.Fatal(err)
 	}
 	et2 := NewExt2(ba)
-	p.Y = *et2.Neg(&p.Y)
-	return p
+	return G2Jacobian{X: p.X, Y: *et2.Neg(&p.Y), Z: p.Z}
 }
 
 // p - p1
@@ -119,8 +120,8 @@ func G2JacobianSubAssign(api frontend.API, p, p1 G2Jacobian) G2Jacobian {
 	}
 	et2 := NewExt2(ba)
 
-	p1.Y = *et2.Neg(&p1.Y)
-	return G2JacobianAddAssign(api, p, p1)
+	negP1 := G2Jacobian{X: p1.X, Y: *et2.Neg(&p1.Y), Z: p1.Z}
+	return G2JacobianAddAssign(api, p, negP1)
 }
 
 func G2JacobianDouble(api frontend.API, p G2Jacobian) G2Jacobian {
@@ -140,22 +141,23 @@ func G2JacobianDouble(api frontend.API, p G2Jacobian) G2Jacobian {
 	S = et2.Double(S)
 	M := et2.Double(XX)
 	M = et2.Add(M, XX)
-	p.Z = *et2.Add(&p.Z, &p.Y)
-	p.Z = *et2.Square(&p.Z)
-	p.Z = *et2.Sub(&p.Z, YY)
-	p.Z = *et2.Sub(&p.Z, ZZ)
-	T := *et2.Square(M)
-	p.X = T
-	T = *et2.Double(S)
-	p.X = *et2.Sub(&p.X, &T)
-	p.Y = *et2.Sub(S, &p.X)
-	p.Y = *et2.Mul(&p.Y, M)
+	// multiplication checks are deferred and keep pointers to their operands, so
+	// the operands must not be overwritten
+	Z3 := et2.Add(&p.Z, &p.Y)
+	Z3 = et2.Square(Z3)
+	Z3 = et2.Sub(Z3, YY)
+	Z3 = et2.Sub(Z3, ZZ)
+	X3 := et2.Square(M)
+	T := et2.Double(S)
+	X3 = et2.Sub(X3, T)
+	Y3 := et2.Sub(S, X3)
+	Y3 = et2.Mul(Y3, M)
 	YYYY = et2.Double(YYYY)
 	YYYY = et2.Double(YYYY)
 	YYYY = et2.Double(YYYY)
-	p.Y = *et2.Sub(&p.Y, YYYY)
+	Y3 = et2.Sub(Y3, YYYY)
 
-	return p
+	return G2Jacobian{X: *X3, Y: *Y3, Z: *Z3}
 }
 
 func G2JacobianPsi(api frontend.API, a G2Jacobian) G2Jacobian {
@@ -180,16 +182,12 @@ func G2JacobianPsi(api frontend.API, a G2Jacobian) G2Jacobian {
 		A1: emulated.ValueOf[BLS12381Fp](vA1),
 	}
 
-	var p G2Jacobian
-	p.X = a.X
-	p.Y = a.Y
-	p.Z = a.Z
-	p.X = *et2.Conjugate(&p.X)
-	p.X = *et2.Mul(&p.X, &u)
-	p.Y = *et2.Conjugate(&p.Y)
-	p.Y = *et2.Mul(&p.Y, &v)
-	p.Z = *et2.Conjugate(&p.Z)
-	return p
+	x := et2.Conjugate(&a.X)
+	x = et2.Mul(x, &u)
+	y := et2.Conjugate(&a.Y)
+	y = et2.Mul(y, &v)
+	z := et2.Conjugate(&a.Z)
+	return G2Jacobian{X: *x, Y: *y, Z: *z}
 }
 
 func G2Psi(api frontend.API, a G2Affine) *G2Affine {
@@ -214,14 +212,11 @@ func G2Psi(api frontend.API, a G2Affine) *G2Affine {
 		A1: emulated.ValueOf[BLS12381Fp](vA1),
 	}
 
-	var p G2Affine
-	p.X = a.X
-	p.Y = a.Y
-	p.X = *et2.Conjugate(&p.X)
-	p.X = *et2.Mul(&p.X, &u)
-	p.Y = *et2.Conjugate(&p.Y)
-	p.Y = *et2.Mul(&p.Y, &v)
-	return &p
+	x := et2.Conjugate(&a.X)
+	x = et2.Mul(x, &u)
+	y := et2.Conjugate(&a.Y)
+	y = et2.Mul(y, &v)
+	return &G2Affine{X: *x, Y: *y}
 }
 
 func G2JacobianConstScalarMul(api frontend.API, a G2Jacobian) G2Jacobian {
@@ -285,8 +280,7 @@ func G2JacobianPhi(api frontend.API, p G2Jacobian) G2Jacobian {
 	thirdRootOneG1.SetString("4002409555221667392624310435006688643935503118305586438271171395842971157480381377015405980053539358417135540939436")
 	thirdRootOneG2.Square(&thirdRootOneG1)
 	t := emulated.ValueOf[BLS12381Fp](thirdRootOneG2)
-	p.X = *et2.MulByElement(&p.X, &t)
-	return p
+	return G2Jacobian{X: *et2.MulByElement(&p.X, &t), Y: p.Y, Z: p.Z}
 }
 
 // Affine
@@ -329,8 +323,7 @@ func G2Phi(api frontend.API, p G2Affine) G2Affine {
 	thirdRootOneG1.SetString("4002409555221667392624310435006688643935503118305586438271171395842971157480381377015405980053539358417135540939436")
 	thirdRootOneG2.Square(&thirdRootOneG1)
 	t := emulated.ValueOf[BLS12381Fp](thirdRootOneG2)
-	p.X = *et2.MulByElement(&p.X, &t)
-	return p
+	return G2Affine{X: *et2.MulByElement(&p.X, &t), Y: p.Y}
 }
 
 // Neg outputs -p
@@ -437,17 +430,17 @@ func G2ConstScalarMul(api frontend.API, Q G2Affine) *G2Affine {
 	table[1] = *G2AddAssign(api, Q, *negPhiQ)
 	table[2] = *G2AddAssign(api, *negQ, phiQ)
 	table[3] = *G2AddAssign(api, Q, phiQ)
-	Acc := table[3]
+	Acc := &table[3]
 	if k[0].Bit(nbits-1) == 1 && k[1].Bit(nbits-1) == 1 {
-		Acc = *G2Double(api, Acc)
-		Acc = *G2AddAssign(api, Acc, table[3])
+		Acc = G2Double(api, *Acc)
+		Acc = G2AddAssign(api, *Acc, table[3])
 		nbits = nbits - 1
 	}
 	for i := nbits - 1; i > 0; i-- {
-		Acc = *DoubleAndAdd(api, &Acc, &table[k[0].Bit(i)+2*k[1].Bit(i)])
+		Acc = DoubleAndAdd(api, Acc, &table[k[0].Bit(i)+2*k[1].Bit(i)])
 	}
 
-	negQ = G2AddAssign(api, *negQ, Acc)
+	negQ = G2AddAssign(api, *negQ, *Acc)
 	negPhiQ = G2AddAssign(api, *negPhiQ, *negQ)
 
 	return &G2Affine{
@@ -464,8 +457,8 @@ func G2SubAssign(api frontend.API, p, p1 G2Affine) *G2Affine {
 	}
 	et2 := NewExt2(ba)
 
-	p1.Y = *et2.Neg(&p1.Y)
-	return G2AddAssign(api, p, p1)
+	negP1 := G2Affine{X: p1.X, Y: *et2.Neg(&p1.Y)}
+	return G2AddAssign(api, p, negP1)
 }
 
 // ClearCofactor maps a point in curve to r-torsion
@@ -511,7 +504,7 @@ func G2ClearCofactor(api frontend.API, a G2Affine) *G2Affine {
 	var thirdRootOneG1 fp.Element
 	thirdRootOneG1.SetString("4002409555221667392624310435006688643935503118305586438271171395842971157480381377015405980053539358417135540939436")
 	trog1 := emulated.ValueOf[BLS12381Fp](thirdRootOneG1)
-	t.X = *et2.MulByElement(&t.X, &trog1)
+	t = &G2Affine{X: *et2.MulByElement(&t.X, &trog1), Y: t.Y}
 	res = G2SubAssign(api, *res, *t)
 
 	return res
diff --git a/circuits/gadgets/pairing_bls12381/hash2curve.go b/circuits/gadgets/pairing_bls12381/hash2curve.go
index aec5ad2..a2bed70 100644
--- a/circuits/gadgets/pairing_bls12381/hash2curve.go
+++ b/circuits/gadgets/pairing_bls12381/hash2curve.go
@@ -251,7 +251,9 @@ func g2SqrtRatio(api frontend.API, u *E2, v *E2) (z *E2, isQNr frontend.Variable
 	et2 := NewExt2(ba)
 	// https://www.ietf.org/archive/id/draft-irtf-cfrg-hash-to-curve-16.html#name-sqrt_ratio-for-any-field
 
-	tv1 := E2{
+	// multiplication checks are deferred and keep pointers to their operands, so
+	// tv1 must not be overwritten
+	tv1 := &E2{
 		A0: emulated.ValueOf[BLS12381Fp](fp.Element{8921533702591418330, 15859389534032789116, 3389114680249073393, 15116930867080254631, 3288288975085550621, 1021049300055853010}),
 		A1: emulated.ValueOf[BLS12381Fp](fp.Element{8921533702591418330, 15859389534032789116, 3389114680249073393, 15116930867080254631, 3288288975085550621, 1021049300055853010}),
 	}
@@ -287,7 +289,7 @@ func g2SqrtRatio(api frontend.API, u *E2, v *E2) (z *E2, isQNr frontend.Variable
 	}
 
 	tv2 = et2.Mul(tv3, &c7)           // 13. tv2 = tv3 * c7
-	tv5 = et2.Mul(tv4, &tv1)          // 14. tv5 = tv4 * tv1
+	tv5 = et2.Mul(tv4, tv1)           // 14. tv5 = tv4 * tv1
 	tv3 = et2.Select(isQNr, tv2, tv3) // tv3.Select(int(isQNr), &tv3, &tv2) // 15. tv3 = CMOV(tv2, tv3, isQR)
 	tv4 = et2.Select(isQNr, tv5, tv4) // tv4.Select(int(isQNr), &tv4, &tv5) // 16. tv4 = CMOV(tv5, tv4, isQR)
 
@@ -296,9 +298,9 @@ func g2SqrtRatio(api frontend.API, u *E2, v *E2) (z *E2, isQNr frontend.Variable
 	for i := 3; i >= 2; i-- { // 17. for i in (c1, c1 - 1, ..., 2):
 		tv5 = E2Exp(api, *tv4, &exp)
 		nE1 := E2NotOne(api, *tv5)
-		tv2 = et2.Mul(tv3, &tv1)
-		tv1 = *et2.Mul(&tv1, &tv1)
-		tv5 = et2.Mul(tv4, &tv1)
+		tv2 = et2.Mul(tv3, tv1)
+		tv1 = et2.Mul(tv1, tv1)
+		tv5 = et2.Mul(tv4, tv1)
 		tv3 = et2.Select(nE1, tv2, tv3)
 		tv4 = et2.Select(nE1, tv5, tv4)
 		if i > 2 {
@@ -324,10 +326,11 @@ func E2Exp(api frontend.API, x E2, k *big.Int) *E2 {
 	}
 
 	e := k
+	base := &x
 	if k.Sign() == -1 {
 		// negative k, we invert
 		// if k < 0: xᵏ (mod q²) == (x⁻¹)ᵏ (mod q²)
-		x = *et2.Inverse(&x)
+		base = et2.Inverse(base)
 
 		// we negate k in a temp big.Int since
 		// Int.Bit(_) of k and -k is different
@@ -340,7 +343,7 @@ func E2Exp(api frontend.API, x E2, k *big.Int) *E2 {
 		for j := 0; j < 8; j++ {
 			res = et2.Square(res)
 			if (w & (0b10000000 >> j)) != 0 {
-				res = et2.Mul(res, &x)
+				res = et2.Mul(res, base)
 			}
 		}
 	}
@@ -607,10 +610,10 @@ func GetG2AffineFromG2Jac(api frontend.API, Q *G2Jacobian) *G2Affine {
 	}
 	a := et2.Inverse(&Q.Z)
 	b := et2.Square(a)
-	res2 := &G2Affine{}
-	res2.X = *et2.Mul(&Q.X, b)
-	res2.Y = *et2.Mul(&Q.Y, b)
-	res2.Y = *et2.Mul(&res2.Y, a)
+	x := et2.Mul(&Q.X, b)
+	y := et2.Mul(&Q.Y, b)
+	y = et2.Mul(y, a)
+	res2 := &G2Affine{X: *x, Y: *y}
 	jacZNotZero := E2NotZero(api, Q.Z)
 
 	final := &G2Affine{}
@@ -649,9 +652,9 @@ func ClearCofactor(api frontend.API, a G2Jacobian) *G2Jacobian {
 	thirdRootOneG1.SetString("4002409555221667392624310435006688643935503118305586438271171395842971157480381377015405980053539358417135540939436")
 	trog1 := emulated.ValueOf[BLS12381Fp](thirdRootOneG1)
 
-	t.X = *et2.MulByElement(&t.X, &trog1)
+	phi := G2Jacobian{X: *et2.MulByElement(&t.X, &trog1), Y: t.Y, Z: t.Z}
 
-	res = G2JacobianSubAssign(api, res, t)
+	res = G2JacobianSubAssign(api, res, phi)
 
 	return &res
 
diff --git a/circuits/gadgets/pairing_bls12381/pairing.go b/circuits/gadgets/pairing_bls12381/pairing.go
index 8361dea..89a9ad4 100644
--- a/circuits/gadgets/pairing_bls12381/pairing.go
+++ b/circuits/gadgets/pairing_bls12381/pairing.go
@@ -143,19 +143,16 @@ func (pr *Pairing) MulBy014(z *E12, c0, c1, c4 *E2) *E12 {
 	//var a, b E6
 	//var d E2
 
-	a := z.C0                        //a.Set(&z.C0)
-	a = *pr.ext6.MulBy01(&a, c0, c1) //a.MulBy01(c0, c1)
+	a := pr.ext6.MulBy01(&z.C0, c0, c1) //a.MulBy01(c0, c1)
+	b := pr.ext6.MulBy1(&z.C1, c4)      //b.MulBy1(c4)
+	d := pr.ext2.Add(c1, c4)            //d.Add(c1, c4)
 
-	b := z.C1                   //b.Set(&z.C1)
-	b = *pr.ext6.MulBy1(&b, c4) //b.MulBy1(c4)
-	d := pr.ext2.Add(c1, c4)    //d.Add(c1, c4)
-
-	z1 := pr.ext6.Add(&z.C1, &z.C0)   //z.C1.Add(&z.C1, &z.C0)
-	z1 = pr.ext6.MulBy01(z1, c0, d)   //z.C1.MulBy01(c0, &d)
-	z1 = pr.ext6.Sub(z1, &a)          //z.C1.Sub(&z.C1, &a)
-	z1 = pr.ext6.Sub(z1, &b)          //z.C1.Sub(&z.C1, &b)
-	z0 := pr.ext6.MulByNonResidue(&b) //z.C0.MulByNonResidue(&b)
-	z0 = pr.ext6.Add(z0, &a)          //z.C0.Add(&z.C0, &a)
+	z1 := pr.ext6.Add(&z.C1, &z.C0)  //z.C1.Add(&z.C1, &z.C0)
+	z1 = pr.ext6.MulBy01(z1, c0, d)  //z.C1.MulBy01(c0, &d)
+	z1 = pr.ext6.Sub(z1, a)          //z.C1.Sub(&z.C1, &a)
+	z1 = pr.ext6.Sub(z1, b)          //z.C1.Sub(&z.C1, &b)
+	z0 := pr.ext6.MulByNonResidue(b) //z.C0.MulByNonResidue(&b)
+	z0 = pr.ext6.Add(z0, a)          //z.C0.Add(&z.C0, &a)
 
 	return &E12{
 		C0: *z0,
@@ -210,6 +207,16 @@ type LineEvaluation struct {
 
 var loopCounter = [64]int8{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 1, 0, 1, 1}
 
+// lineAt evaluates the line l at p. Multiplication checks are deferred and keep
+// pointers to their operands, so l must not be overwritten.
+func (pr Pairing) lineAt(l *LineEvaluation, p *G1Affine) *LineEvaluation {
+	return &LineEvaluation{
+		r0: l.r0,
+		r1: *pr.ext2.MulByElement(&l.r1, &p.X), // l.r1.MulByElement(&l.r1, &p.X)
+		r2: *pr.ext2.MulByElement(&l.r2, &p.Y), // l.r2.MulByElement(&l.r2, &p.Y)
+	}
+}
+
 func (pr Pairing) MillerLoop(p []*G1Affine, q []*G2Affine) (*GTEl, error) {
 	n := len(p)
 	if n == 0 || n != len(q) {
@@ -228,14 +235,12 @@ func (pr Pairing) MillerLoop(p []*G1Affine, q []*G2Affine) (*GTEl, error) {
 
 	// i == len(loopCounter) - 2
 	for k := 0; k < n; k++ {
-		qProj[k], l1 = pr.DoubleStep(qProj[k])               // qProj[k].DoubleStep(&l1)
-		l1.r1 = *pr.ext12.ext2.MulByElement(&l1.r1, &p[k].X) // l1.r1.MulByElement(&l1.r1, &p[k].X)
-		l1.r2 = *pr.ext12.ext2.MulByElement(&l1.r2, &p[k].Y) // l1.r2.MulByElement(&l1.r2, &p[k].Y)
+		qProj[k], l1 = pr.DoubleStep(qProj[k]) // qProj[k].DoubleStep(&l1)
+		l1 = pr.lineAt(l1, p[k])
 
 		qProj[k], l2 = pr.AddStep(qProj[k], q[k]) // qProj[k].AddMixedStep(&l2, &q[k])
 		// line eval
-		l2.r1 = *pr.ext12.ext2.MulByElement(&l2.r1, &p[k].X) //l2.r1.MulByElement(&l2.r1, &p[k].X)
-		l2.r2 = *pr.ext12.ext2.MulByElement(&l2.r2, &p[k].Y) //l2.r2.MulByElement(&l2.r2, &p[k].Y)
+		l2 = pr.lineAt(l2, p[k])
 
 		// ℓ × ℓ
 		lines := pr.ext12.Mul014By014(&l1.r0, &l1.r1, &l1.r2, &l2.r0, &l2.r1, &l2.r2)
@@ -250,16 +255,14 @@ func (pr Pairing) MillerLoop(p []*G1Affine, q []*G2Affine) (*GTEl, error) {
 			qProj[k], l1 = pr.DoubleStep(qProj[k])
 
 			// line eval
-			l1.r1 = *pr.ext2.MulByElement(&l1.r1, &p[k].X) //l1.r1.MulByElement(&l1.r1, &p[k].X)
-			l1.r2 = *pr.ext2.MulByElement(&l1.r2, &p[k].Y) //l1.r2.MulByElement(&l1.r2, &p[k].Y)
+			l1 = pr.lineAt(l1, p[k])
 
 			if loopCounter[i] == 0 {
 				result = pr.MulBy014(result, &l1.r0, &l1.r1, &l1.r2) //result.MulBy014(&l1.r0, &l1.r1, &l1.r2)
 			} else {
 				qProj[k], l2 = pr.AddStep(qProj[k], q[k]) //qProj[k].AddMixedStep(&l2, &q[k])
 				// line eval
-				l2.r1 = *pr.ext12.ext2.MulByElement(&l2.r1, &p[k].X) //l2.r1.MulByElement(&l2.r1, &p[k].X)
-				l2.r2 = *pr.ext12.ext2.MulByElement(&l2.r2, &p[k].Y) //	l2.r2.MulByElement(&l2.r2, &p[k].Y)
+				l2 = pr.lineAt(l2, p[k])
 				// ℓ × ℓ
 				lines := pr.Mul014By014(&l1.r0, &l1.r1, &l1.r2, &l2.r0, &l2.r1, &l2.r2) // lines.Mul014By014(&l1.r0, &l1.r1, &l1.r2, &l2.r0, &l2.r1, &l2.r2)
 				// (ℓ × ℓ) × result
-- 
2.43.0


From 93b60e34659be78787d6c8e5b32b763e7224fce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:34 +0000
Subject: [PATCH 31/37] fix: emulated (in)equality tests of the pairing gadget
 hold modulo p

---
 .../gadgets/pairing_bls12381/hash2curve.go    | 24 ++++---------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/hash2curve.go b/circuits/gadgets/pairing_bls12381/hash2curve.go
index a2bed70..0e75df7 100644
--- a/circuits/gadgets/pairing_bls12381/hash2curve.go
+++ b/circuits/gadgets/pairing_bls12381/hash2curve.go
@@ -527,14 +527,9 @@ func G1NotZero(api frontend.API, x baseEl) frontend.Variable {
 	if err != nil {
 		log.Fatal(err)
 	}
-	x = *ba.Reduce(&x)
-	bs := ba.ToBits(&x)
-	var isNotZero frontend.Variable
-	isNotZero = 0
-	for _, b := range bs {
-		isNotZero = api.Or(isNotZero, b)
-	}
-	return isNotZero
+	// the limbs of a reduced element may still represent x or x+p, so compare
+	// modulo p rather than bit by bit
+	return api.Sub(1, ba.IsZero(&x))
 }
 
 func G1NotEqualOne(api frontend.API, x baseEl) frontend.Variable {
@@ -550,18 +545,7 @@ func G1NotEqual(api frontend.API, x, y baseEl) frontend.Variable {
 	if err != nil {
 		log.Fatal(err)
 	}
-	x = *ba.Reduce(&x)
-	y = *ba.Reduce(&y)
-	xBits := ba.ToBits(&x)
-	yBits := ba.ToBits(&y)
-
-	var notEqual frontend.Variable
-	notEqual = 0
-	for i, b := range xBits {
-		notEqual = api.Or(notEqual, api.Xor(b, yBits[i]))
-	}
-
-	return notEqual
+	return api.Sub(1, ba.IsZero(ba.Sub(&x, &y)))
 }
 
 func E2NotEqual(api frontend.API, x, y E2) frontend.Variable {
-- 
2.43.0


From 94713456e61dda08c542f628ee67492e42583c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:31 +0000
Subject: [PATCH 32/37] fix: g2Sgn0 follows RFC 9380 sgn0 on canonical
 coordinates

---
 .../gadgets/pairing_bls12381/hash2curve.go    | 34 +++++--------------
 1 file changed, 9 insertions(+), 25 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/hash2curve.go b/circuits/gadgets/pairing_bls12381/hash2curve.go
index 0e75df7..ba2bbe0 100644
--- a/circuits/gadgets/pairing_bls12381/hash2curve.go
+++ b/circuits/gadgets/pairing_bls12381/hash2curve.go
@@ -215,31 +215,15 @@ func g2Sgn0(api frontend.API, u *E2) frontend.Variable {
 		A0: *ba.Reduce(&u.A0),
 		A1: *ba.Reduce(&u.A1),
 	}
-	var A0Bits [6][]frontend.Variable
-	A0Bits[0] = bits.ToBinary(api, uu.A0.Limbs[0], bits.WithNbDigits(64))
-	A0Bits[1] = bits.ToBinary(api, uu.A0.Limbs[1], bits.WithNbDigits(64))
-	A0Bits[2] = bits.ToBinary(api, uu.A0.Limbs[2], bits.WithNbDigits(64))
-	A0Bits[3] = bits.ToBinary(api, uu.A0.Limbs[3], bits.WithNbDigits(64))
-	A0Bits[4] = bits.ToBinary(api, uu.A0.Limbs[4], bits.WithNbDigits(64))
-	A0Bits[5] = bits.ToBinary(api, uu.A0.Limbs[5], bits.WithNbDigits(64))
-
-	var sign, zero, signI, zeroI frontend.Variable
-	sign = 0
-	zero = 1
-	signI = A0Bits[0][0]
-
-	zeroI = 0
-	for _, subBits := range A0Bits {
-		for _, b := range subBits {
-			zeroI = api.Or(signI, b)
-		}
-	}
-
-	sign = api.Or(sign, api.And(zero, signI))
-	zero = api.And(zero, zeroI)
-	signI = bits.ToBinary(api, uu.A1.Limbs[0], bits.WithNbDigits(64))[0]
-	sign = api.Or(sign, api.And(zero, signI))
-	return sign
+	// the limbs of a reduced element may still represent x or x+p, which differ
+	// in parity
+	ba.AssertIsInRange(&uu.A0)
+	ba.AssertIsInRange(&uu.A1)
+
+	sign := bits.ToBinary(api, uu.A0.Limbs[0], bits.WithNbDigits(64))[0]
+	zero := ba.IsZero(&uu.A0)
+	signI := bits.ToBinary(api, uu.A1.Limbs[0], bits.WithNbDigits(64))[0]
+	return api.Or(sign, api.And(zero, signI))
 }
 
 func g2SqrtRatio(api frontend.API, u *E2, v *E2) (z *E2, isQNr frontend.Variable) {
-- 
2.43.0


From 8ceaec4cdde7be7c3fd194cc5d2d0f6e4d9cc978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:15 +0000
Subject: [PATCH 33/37] fix: MapElementToCurve2 handles the exceptional case of
 the SSWU map

---
 circuits/gadgets/pairing_bls12381/hash2curve.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/circuits/gadgets/pairing_bls12381/hash2curve.go b/circuits/gadgets/pairing_bls12381/hash2curve.go
index ba2bbe0..12f8375 100644
--- a/circuits/gadgets/pairing_bls12381/hash2curve.go
+++ b/circuits/gadgets/pairing_bls12381/hash2curve.go
@@ -172,8 +172,10 @@ func MapElementToCurve2(api frontend.API, e2 E2) (x, y *E2) {
 	tv3 := et2.Add(tv2, et2.One())          // 5.  tv3 = tv2 + 1
 	tv3 = et2.Mul(tv3, &SswuIsoCurveCoeffB) // 6.  tv3 = B * tv3
 
+	tv2NotZero := E2NotZero(api, *tv2)
 	tv2 = et2.Neg(tv2)
-	tv4 := et2.Mul(tv2, &SswuIsoCurveCoeffA)
+	tv4 := et2.Select(tv2NotZero, tv2, &Tv4Z) // 7. tv4 = CMOV(Z, -tv2, tv2 != 0)
+	tv4 = et2.Mul(tv4, &SswuIsoCurveCoeffA)   // 8. tv4 = A * tv4
 
 	tv2 = et2.Square(tv3) // 9.  tv2 = tv3²
 
-- 
2.43.0


From 5a805a75832ef359b9eda229e02e84e2f2521027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:44 +0000
Subject: [PATCH 34/37] fix: ed25519 Verify reduces the 512-bit challenge with
 a reduction that reads all limbs

---
 circuits/gadgets/ed25519/ed25519.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuits/gadgets/ed25519/ed25519.go b/circuits/gadgets/ed25519/ed25519.go
index 10291b4..07e9090 100644
--- a/circuits/gadgets/ed25519/ed25519.go
+++ b/circuits/gadgets/ed25519/ed25519.go
@@ -150,7 +150,7 @@ func (e *Ed25519) Verify(
 	}
 
 	hRamScalar := e.fp.scalarField.FromBitsOverflow(bits...)
-	hRamScalar = e.fp.scalarField.Reduce(hRamScalar)
+	hRamScalar = e.fp.scalarField.ReduceWithoutConstantCheck(hRamScalar)
 
 	baseX := emulated.ValueOf[Ed25519Fp](curve.Params().Base[0])
 	baseY := emulated.ValueOf[Ed25519Fp](curve.Params().Base[1])
-- 
2.43.0


From 4b751d57f74ef2f6e46325418a5980960e64174b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:35 +0000
Subject: [PATCH 35/37] fix: ed25519 Verify requires A and R to be canonically
 encoded points of the curve

---
 circuits/gadgets/ed25519/ed25519.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/circuits/gadgets/ed25519/ed25519.go b/circuits/gadgets/ed25519/ed25519.go
index 07e9090..7d16d03 100644
--- a/circuits/gadgets/ed25519/ed25519.go
+++ b/circuits/gadgets/ed25519/ed25519.go
@@ -57,6 +57,8 @@ func (e *Ed25519) bytes(v *Point) [32]frontend.Variable {
 }
 
 func (e *Ed25519) copyFieldElement(v *emulated.Element[Ed25519Fp]) [32]frontend.Variable {
+	// the limbs may represent x or x+p, only the canonical one is encoded
+	e.fp.baseField.AssertIsInRange(v)
 	bits := e.fp.baseField.ToBits(v)
 
 	var buf [32]frontend.Variable
@@ -130,6 +132,9 @@ func (e *Ed25519) Verify(
 		panic("new twistededwards curve failed")
 	}
 
+	curve.AssertIsOnCurve(sig.R)
+	curve.AssertIsOnCurve(pubKey.A)
+
 	hash := sha512.New(e.api)
 	sigBytes := e.bytes(&sig.R)
 	pubKeyBytes := e.bytes(&pubKey.A)
-- 
2.43.0


From 0538f0e603837424b8dce9366b1250091c68d1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:44 +0000
Subject: [PATCH 36/37] fix: GenerateBls12377Hash reduces its blocks modulo the
 BLS12-377 scalar field

---
 common/utils/utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/utils/utils.go b/common/utils/utils.go
index 2a813c8..8e9b9e2 100644
--- a/common/utils/utils.go
+++ b/common/utils/utils.go
@@ -181,9 +181,9 @@ func GenerateBls12377Hash(input []byte) []byte {
 	var i int
 	for i < len(bits) {
 		if i+bitSize > len(bits) {
-			frDataArray = append(frDataArray, BitsToFrBigInt(bits[i:], ecc.BN254.ScalarField()))
+			frDataArray = append(frDataArray, BitsToFrBigInt(bits[i:], ecc.BLS12_377.ScalarField()))
 		} else {
-			frDataArray = append(frDataArray, BitsToFrBigInt(bits[i:i+bitSize], ecc.BN254.ScalarField()))
+			frDataArray = append(frDataArray, BitsToFrBigInt(bits[i:i+bitSize], ecc.BLS12_377.ScalarField()))
 		}
 		i += bitSize
 	}
-- 
2.43.0


From e5dacc51d13d107f6492016a95dc04b59890af39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:42 +0000
Subject: [PATCH 37/37] fix: Str2Uint64 reads the whole uint64 range instead of
 stopping at the largest int

---
 common/utils/string.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/utils/string.go b/common/utils/string.go
index 8fd7855..9f800cb 100644
--- a/common/utils/string.go
+++ b/common/utils/string.go
@@ -17,5 +17,6 @@ func Str2Int(str string) int {
 }
 
 func Str2Uint64(str string) uint64 {
-	return uint64(Str2Int(str))
+	ret, _ := strconv.ParseUint(str, 10, 64)
+	return ret
 }
-- 
2.43.0

