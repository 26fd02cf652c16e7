From cfc935c8d9cd980557a9370915f14fdd4468b60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:50 +0000
Subject: [PATCH 001/123] fix: stop the FSI first strong search at the matching
 PDI

---
 fribidi/bidi.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fribidi/bidi.go b/fribidi/bidi.go
index a0f605f..f6450f8 100644
--- a/fribidi/bidi.go
+++ b/fribidi/bidi.go
@@ -359,8 +359,8 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 				for fsiPp := pp.next; fsiPp.type_ != maskSentinel; fsiPp = fsiPp.next {
 					if fsiPp.type_ == PDI {
 						isolateCount--
-						if validIsolateCount < 0 {
-							break
+						if isolateCount < 0 {
+							break // matching PDI
 						}
 					} else if fsiPp.type_.IsIsolate() {
 						isolateCount++
-- 
2.43.0


From fdc5d2d479f5639c0a85287dc4ae42ec9c3c9a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:50 +0000
Subject: [PATCH 002/123] fix: count an isolate as overflowing when an
 embedding or isolate already overflows (X5a-X5c)

---
 fribidi/bidi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fribidi/bidi.go b/fribidi/bidi.go
index f6450f8..210192f 100644
--- a/fribidi/bidi.go
+++ b/fribidi/bidi.go
@@ -388,7 +388,7 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 				pp.type_ = override
 			}
 
-			if newLevel <= maxExplicitLevel {
+			if newLevel <= maxExplicitLevel && overPushed == 0 && isolateOverflow == 0 {
 				validIsolateCount++
 				statusStack.pushStatus(isolateOverflow, isolate, isolateLevel, newLevel, newOverride, vars)
 				level = newLevel
-- 
2.43.0


From 0fe8cd73a65bb0c1b9532a4432156236868bd70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:00 +0000
Subject: [PATCH 003/123] fix: a PDF does nothing inside an overflowing
 isolate, and closes an overflowing embedding first (X7)

---
 fribidi/bidi.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fribidi/bidi.go b/fribidi/bidi.go
index 210192f..28af744 100644
--- a/fribidi/bidi.go
+++ b/fribidi/bidi.go
@@ -303,7 +303,10 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 				/*   X7. With each PDF, determine the matching embedding or
 				     override code. */
 				for i := pp.len; i != 0; i-- {
-					if stackSize != 0 && statusStack[stackSize-1].isolate != 0 {
+					if isolateOverflow > 0 {
+						break
+					}
+					if overPushed == 0 && stackSize != 0 && statusStack[stackSize-1].isolate != 0 {
 						break
 					}
 					statusStack.popStatus(vars, &isolate, &isolateLevel)
-- 
2.43.0


From 38ad0c06881a750b28770076d3b21370d269d576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:45 +0000
Subject: [PATCH 004/123] fix: overflowing isolates do not start an isolating
 run sequence, and 125 nested ones do

---
 fribidi/bidi.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/fribidi/bidi.go b/fribidi/bidi.go
index 28af744..18ba337 100644
--- a/fribidi/bidi.go
+++ b/fribidi/bidi.go
@@ -323,7 +323,9 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 			/* X6a. pop the direction of the stack */
 			for i := pp.len; i != 0; i-- {
 				if isolateOverflow > 0 {
+					/* The matching isolate did not open a sequence */
 					isolateOverflow--
+					pp.type_ = ON
 					pp.level = level
 				} else if validIsolateCount > 0 {
 					/* Pop away all LRE,RLE,LRO, RLO levels
@@ -383,15 +385,12 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 
 			pp.level = level
 			pp.isolateLevel = isolateLevel
-			if isolateLevel < maxExplicitLevel-1 {
-				isolateLevel++
-			}
-
 			if !override.isNeutral() {
 				pp.type_ = override
 			}
 
 			if newLevel <= maxExplicitLevel && overPushed == 0 && isolateOverflow == 0 {
+				isolateLevel++
 				validIsolateCount++
 				statusStack.pushStatus(isolateOverflow, isolate, isolateLevel, newLevel, newOverride, vars)
 				level = newLevel
@@ -648,8 +647,8 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 		numIsoLevels      = int(maxIsoLevel + 1)
 		pairingNodes      *pairingNode
 		localBracketStack [localBracketSize][maxNestedBracketPairs]*oneRun
-		bracketStack      [maxExplicitLevel][]*oneRun
-		bracketStackSize  [maxExplicitLevel]int
+		bracketStack      [bidiMaxResolvedLevels][]*oneRun
+		bracketStackSize  [bidiMaxResolvedLevels]int
 		lastLevel         = mainRunList.level
 		lastIsoLevel      Level
 	)
-- 
2.43.0


From cef43840fcf228158a0ba3d2952cb8a94229735d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:45 +0000
Subject: [PATCH 005/123] fix: do not pair brackets of two different isolates

---
 fribidi/bidi.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fribidi/bidi.go b/fribidi/bidi.go
index 18ba337..b991272 100644
--- a/fribidi/bidi.go
+++ b/fribidi/bidi.go
@@ -677,6 +677,11 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 			bracketStackSize[lastIsoLevel] = 0
 		}
 
+		/* Entering an isolate always starts a new sequence. */
+		if isoLevel > lastIsoLevel {
+			bracketStackSize[isoLevel] = 0
+		}
+
 		if brackProp != NoBracket && pp.type_ == ON {
 			if brackProp.isOpen() {
 				if bracketStackSize[isoLevel] == maxNestedBracketPairs {
-- 
2.43.0


From c848a05f5dac96b0e9a9d86fb57e082b0c9e45e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:04 +0000
Subject: [PATCH 006/123] fix: do not lose a bracket following a non-spacing
 mark

---
 fribidi/bidi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fribidi/bidi.go b/fribidi/bidi.go
index b991272..f3d1dc2 100644
--- a/fribidi/bidi.go
+++ b/fribidi/bidi.go
@@ -522,7 +522,7 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 			}
 
 			if prevType == nextType && pp.level == pp.next.level {
-				if pppNext == pp.next {
+				if pppNext == pp.next && pppNext.bracketType == NoBracket /* Don't join brackets! */ {
 					pp = pp.next.mergeWithPrev()
 				}
 			}
-- 
2.43.0


From 4abe54756d4ec07da96c07f63ac6e8fd58453e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:52 +0000
Subject: [PATCH 007/123] fix: search the strong type before a bracket pair in
 its own isolating run sequence (N0c)

---
 fribidi/bidi.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fribidi/bidi.go b/fribidi/bidi.go
index f3d1dc2..b102aeb 100644
--- a/fribidi/bidi.go
+++ b/fribidi/bidi.go
@@ -751,6 +751,14 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 			precStrongLevel := embeddingLevel /* TBDov! Extract from Isolate level in effect */
 			isoLevel := ppairs.open.isolateLevel
 			for ppn = ppairs.open.prev; ppn.type_ != maskSentinel; ppn = ppn.prev {
+				if ppn.isolateLevel < isoLevel {
+					break /* start of the isolate */
+				}
+				if ppn.isolateLevel == isoLevel && ppn.level != embeddingLevel {
+					/* start of the sequence: use its sos */
+					precStrongLevel = maxL(ppn.level, embeddingLevel)
+					break
+				}
 				thisType := ppn.typeAnEnAsRTL()
 				if thisType.IsStrong() && ppn.isolateLevel == isoLevel {
 					precStrongLevel = ppn.level + (ppn.level.isRtl() ^ dirToLevel(thisType))
-- 
2.43.0


From 906a7befed8ea05cd529d9fd44c67e65c79f5cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:20 +0000
Subject: [PATCH 008/123] fix: do not extend a bracket to the neutrals
 following its non-spacing marks

---
 fribidi/bidi.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fribidi/bidi.go b/fribidi/bidi.go
index b102aeb..0ae0769 100644
--- a/fribidi/bidi.go
+++ b/fribidi/bidi.go
@@ -522,7 +522,8 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 			}
 
 			if prevType == nextType && pp.level == pp.next.level {
-				if pppNext == pp.next && pppNext.bracketType == NoBracket /* Don't join brackets! */ {
+				/* Don't join brackets! */
+				if pppNext == pp.next && pppNext.bracketType == NoBracket && pp.bracketType == NoBracket {
 					pp = pp.next.mergeWithPrev()
 				}
 			}
-- 
2.43.0


From 7eae26551b9b3a36d26892439d1c6cb5812c161f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:30 +0000
Subject: [PATCH 009/123] fix: apply the directional override to a PDI (X6a)

---
 fribidi/bidi.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fribidi/bidi.go b/fribidi/bidi.go
index 0ae0769..af6fb52 100644
--- a/fribidi/bidi.go
+++ b/fribidi/bidi.go
@@ -345,6 +345,9 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 					pp.type_ = ON
 					pp.level = level
 				}
+				if !override.isNeutral() {
+					pp.type_ = override
+				}
 			}
 		} else if thisType.IsIsolate() {
 			/* TBD support RL_LEN > 1 */
-- 
2.43.0


From 84c42483d670c4bfe2d2d455143be17cc9846fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:39 +0000
Subject: [PATCH 010/123] fix: an overflow of the bracket stack ends the
 pairing of its own sequence only (BD16)

---
 fribidi/bidi.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/fribidi/bidi.go b/fribidi/bidi.go
index af6fb52..ad47578 100644
--- a/fribidi/bidi.go
+++ b/fribidi/bidi.go
@@ -653,6 +653,7 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 		localBracketStack [localBracketSize][maxNestedBracketPairs]*oneRun
 		bracketStack      [bidiMaxResolvedLevels][]*oneRun
 		bracketStackSize  [bidiMaxResolvedLevels]int
+		bracketOverflow   [bidiMaxResolvedLevels]bool
 		lastLevel         = mainRunList.level
 		lastIsoLevel      Level
 	)
@@ -679,22 +680,25 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 		   raised. */
 		if level != lastLevel && lastIsoLevel == isoLevel {
 			bracketStackSize[lastIsoLevel] = 0
+			bracketOverflow[lastIsoLevel] = false
 		}
 
 		/* Entering an isolate always starts a new sequence. */
 		if isoLevel > lastIsoLevel {
 			bracketStackSize[isoLevel] = 0
+			bracketOverflow[isoLevel] = false
 		}
 
-		if brackProp != NoBracket && pp.type_ == ON {
+		if brackProp != NoBracket && pp.type_ == ON && !bracketOverflow[isoLevel] {
 			if brackProp.isOpen() {
 				if bracketStackSize[isoLevel] == maxNestedBracketPairs {
-					break
+					/* ignore the remainder of this sequence only */
+					bracketOverflow[isoLevel] = true
+				} else {
+					/* push onto the pair stack */
+					bracketStack[isoLevel][bracketStackSize[isoLevel]] = pp
+					bracketStackSize[isoLevel]++
 				}
-
-				/* push onto the pair stack */
-				bracketStack[isoLevel][bracketStackSize[isoLevel]] = pp
-				bracketStackSize[isoLevel]++
 			} else {
 				stackIdx := bracketStackSize[isoLevel] - 1
 				for stackIdx >= 0 {
-- 
2.43.0


From be7c477ab3125202559a6dde753d2fab20955534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:26 +0000
Subject: [PATCH 011/123] fix: pair only canonically equivalent brackets (BD16)

---
 fribidi/brackets_table.go | 40 +++++++++++++++++++--------------------
 fribidi/unidata/gen.go    |  6 ++++--
 2 files changed, 24 insertions(+), 22 deletions(-)

diff --git a/fribidi/brackets_table.go b/fribidi/brackets_table.go
index f9d66d8..c76e841 100644
--- a/fribidi/brackets_table.go
+++ b/fribidi/brackets_table.go
@@ -17,10 +17,10 @@ var bracketsTable = map[rune]rune{
 	0x169c: 5787,
 	0x2045: 8261,
 	0x2046: 8261,
-	0x207d: 40,
-	0x207e: 40,
-	0x208d: 40,
-	0x208e: 40,
+	0x207d: 8317,
+	0x207e: 8317,
+	0x208d: 8333,
+	0x208e: 8333,
 	0x2308: 8968,
 	0x2309: 8968,
 	0x230a: 8970,
@@ -107,20 +107,20 @@ var bracketsTable = map[rune]rune{
 	0x3019: 12312,
 	0x301a: 12314,
 	0x301b: 12314,
-	0xfe59: 40,
-	0xfe5a: 40,
-	0xfe5b: 123,
-	0xfe5c: 123,
-	0xfe5d: 12308,
-	0xfe5e: 12308,
-	0xff08: 40,
-	0xff09: 40,
-	0xff3b: 91,
-	0xff3d: 91,
-	0xff5b: 123,
-	0xff5d: 123,
-	0xff5f: 10629,
-	0xff60: 10629,
-	0xff62: 12300,
-	0xff63: 12300,
+	0xfe59: 65113,
+	0xfe5a: 65113,
+	0xfe5b: 65115,
+	0xfe5c: 65115,
+	0xfe5d: 65117,
+	0xfe5e: 65117,
+	0xff08: 65288,
+	0xff09: 65288,
+	0xff3b: 65339,
+	0xff3d: 65339,
+	0xff5b: 65371,
+	0xff5d: 65371,
+	0xff5f: 65375,
+	0xff60: 65375,
+	0xff62: 65378,
+	0xff63: 65378,
 }
diff --git a/fribidi/unidata/gen.go b/fribidi/unidata/gen.go
index 17d7ac7..44d4cf1 100644
--- a/fribidi/unidata/gen.go
+++ b/fribidi/unidata/gen.go
@@ -91,8 +91,10 @@ func parseUnicodeData() error {
 			}
 		}
 
-		// equiv table
-		equivTable[c] = unshaped
+		// equiv table: only canonical decompositions are considered
+		if tag == "" {
+			equivTable[c] = unshaped
+		}
 	}
 	shapingTable.min, shapingTable.max = min, max
 
-- 
2.43.0


From 19fb96fda42dcef66343ab78f6774e960f999637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:33 +0000
Subject: [PATCH 012/123] fix: RemoveBidiMarks maps the removed characters to
 -1

---
 fribidi/fridibi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fribidi/fridibi.go b/fribidi/fridibi.go
index 7090d51..301ab85 100644
--- a/fribidi/fridibi.go
+++ b/fribidi/fridibi.go
@@ -511,7 +511,7 @@ func RemoveBidiMarks(str []rune, positionsToThis, positionFromThis []int, embedd
 		for i := range positionsToThis {
 			positionsToThis[i] = -1
 		}
-		for i, from := range positionFromThis {
+		for i, from := range positionFromThis[:j] {
 			positionsToThis[from] = i
 		}
 	}
-- 
2.43.0


From 3cb34a0e91f2278cdb0aab7403ffb342938ffc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:33 +0000
Subject: [PATCH 013/123] fix: reset the level of the isolate marks ending a
 line (L1)

---
 fribidi/bidi.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fribidi/bidi.go b/fribidi/bidi.go
index ad47578..5371c25 100644
--- a/fribidi/bidi.go
+++ b/fribidi/bidi.go
@@ -1008,8 +1008,8 @@ func ReorderLine(
 	)
 
 	/* L1. Reset the embedding levels of some chars:
-	   4. any sequence of white space characters at the end of the line. */
-	for i := off + length - 1; i >= off && bidiTypes[i].isExplicitOrBnOrWs(); i-- {
+	   4. any sequence of white space and isolate formatting characters at the end of the line. */
+	for i := off + length - 1; i >= off && (bidiTypes[i].isExplicitOrBnOrWs() || bidiTypes[i].IsIsolate()); i-- {
 		embeddingLevels[i] = dirToLevel(baseDir)
 	}
 
-- 
2.43.0


From 255837921aa6043a8baadb3123adea4f916763e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:30 +0000
Subject: [PATCH 014/123] fix: charsets with the same characters are equal,
 whatever their empty pages

---
 fontconfig/charset.go | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/fontconfig/charset.go b/fontconfig/charset.go
index 70c5c1e..bb2a914 100644
--- a/fontconfig/charset.go
+++ b/fontconfig/charset.go
@@ -46,12 +46,17 @@ func (s Charset) String() string {
 
 func (s Charset) hash() []byte {
 	const size = 2 + 4*8
-	out := make([]byte, size*len(s.pageNumbers))
+	out := make([]byte, 0, size*len(s.pageNumbers))
+	var buf [size]byte
 	for i, p := range s.pageNumbers {
-		binary.BigEndian.PutUint16(out[size*i:], p)
+		if s.pages[i] == (charPage{}) { // see DelChar
+			continue
+		}
+		binary.BigEndian.PutUint16(buf[:], p)
 		for j, u := range s.pages[i] {
-			binary.BigEndian.PutUint32(out[size*i+2+4*j:], u)
+			binary.BigEndian.PutUint32(buf[2+4*j:], u)
 		}
+		out = append(out, buf[:]...)
 	}
 	return out
 }
@@ -160,18 +165,7 @@ func charsetSubtractCount(a, b Charset) uint32 {
 
 // Returns whether `a` and `b` contain the same set of Unicode chars.
 func charsetEqual(a, b Charset) bool {
-	ai, bi := newCharsetIter(a), newCharsetIter(b)
-	for ai.leaf != nil && bi.leaf != nil {
-		if ai.page() != bi.page() {
-			return false
-		}
-		if *ai.leaf != *bi.leaf {
-			return false
-		}
-		ai.next()
-		bi.next()
-	}
-	return ai.leaf == bi.leaf
+	return a.isSubset(b) && b.isSubset(a)
 }
 
 // return true iff a is a subset of b
@@ -180,6 +174,10 @@ func (a Charset) isSubset(b Charset) bool {
 	for ai < len(a.pageNumbers) && bi < len(b.pageNumbers) {
 		an := a.pageNumbers[ai]
 		bn := b.pageNumbers[bi]
+		if a.pages[ai] == (charPage{}) { // see DelChar
+			ai++
+			continue
+		}
 		// Check matching pages
 		if an == bn {
 			am := a.pages[ai]
@@ -205,6 +203,9 @@ func (a Charset) isSubset(b Charset) bool {
 		}
 	}
 	//  did we look at every page?
+	for ai < len(a.pageNumbers) && a.pages[ai] == (charPage{}) {
+		ai++
+	}
 	return ai >= len(a.pageNumbers)
 }
 
-- 
2.43.0


From 392f8ef5810d1fb74e76c019c1c7dbb1125644f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:30 +0000
Subject: [PATCH 015/123] fix: containment of languages which are not in the
 orthography table

---
 fontconfig/lang.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/fontconfig/lang.go b/fontconfig/lang.go
index a2adc44..15f825e 100644
--- a/fontconfig/lang.go
+++ b/fontconfig/lang.go
@@ -372,13 +372,12 @@ func (ls Langset) containsLang(lang string) bool {
 		}
 	}
 
-	var extra string
-	for extra = range ls.extra {
+	for extra := range ls.extra {
 		if langContains(extra, lang) {
-			break
+			return true
 		}
 	}
-	return extra != ""
+	return false
 }
 
 // return true if lsa contains every language in lsb
@@ -400,18 +399,14 @@ func (lsa Langset) includes(lsb Langset) bool {
 			}
 		}
 	}
-	var extra string
 	for extra := range lsb.extra {
 		if !lsa.containsLang(extra) {
 			if debugMode {
 				fmt.Printf("\tMissing string %s\n", extra)
 			}
-			break
+			return false
 		}
 	}
-	if extra != "" {
-		return false
-	}
 	return true
 }
 
-- 
2.43.0


From 1db2f29e40b2c41f6d52e99e20ec335ad64066de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:35 +0000
Subject: [PATCH 016/123] fix: Pattern.Hash separates the values of an object
 and their types

---
 fontconfig/lang.go   |  4 ++--
 fontconfig/values.go | 15 +++++++++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/fontconfig/lang.go b/fontconfig/lang.go
index 15f825e..c8fafa7 100644
--- a/fontconfig/lang.go
+++ b/fontconfig/lang.go
@@ -44,13 +44,13 @@ func (l Langset) hash() []byte {
 	for i, v := range l.page {
 		binary.BigEndian.PutUint32(out[4*i:], v)
 	}
-	extra := make([]string, len(l.extra))
+	extra := make([]string, 0, len(l.extra))
 	for ex := range l.extra {
 		extra = append(extra, ex)
 	}
 	sort.Strings(extra)
 	for _, s := range extra {
-		out = append(out, s...)
+		out = append(append(out, '|'), s...)
 	}
 	return out
 }
diff --git a/fontconfig/values.go b/fontconfig/values.go
index fe957ab..20da929 100644
--- a/fontconfig/values.go
+++ b/fontconfig/values.go
@@ -1,6 +1,7 @@
 package fontconfig
 
 import (
+	"encoding/binary"
 	"fmt"
 	"io"
 	"log"
@@ -313,9 +314,19 @@ func (b valueBinding) String() string {
 type valueList []valueElt
 
 func (vs valueList) Hash() []byte {
-	var hash []byte
+	var (
+		hash []byte
+		buf  [5]byte
+	)
 	for _, v := range vs {
-		hash = append(hash, v.hash()...)
+		// to make the hash unique, we add the type and the length of each value
+		tmp := v.hash()
+		buf[0] = v.dataType()
+		if buf[0] == tInt { // compared as numbers
+			buf[0] = tFloat
+		}
+		binary.BigEndian.PutUint32(buf[1:], uint32(len(tmp)))
+		hash = append(append(hash, buf[:]...), tmp...)
 	}
 	return hash
 }
-- 
2.43.0


From 6acb266aff0b3ed7539b1658bf3e65bd7a03f561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:35 +0000
Subject: [PATCH 017/123] fix: SubstituteDefault accepts an integer pixel size

---
 fontconfig/pattern.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fontconfig/pattern.go b/fontconfig/pattern.go
index 681ce09..316103a 100644
--- a/fontconfig/pattern.go
+++ b/fontconfig/pattern.go
@@ -480,8 +480,8 @@ func (pattern Pattern) SubstituteDefault() {
 		pixelsize *= dpi / 72.0
 		pattern.AddFloat(PIXEL_SIZE, pixelsize)
 	} else {
-		sizeF, _ := pixelSize[0].Value.(Float)
-		size = float32(sizeF) / dpi * 72.0 / scale
+		sizeF, _ := pattern.GetFloat(PIXEL_SIZE) // also accepts integers
+		size = sizeF / dpi * 72.0 / scale
 	}
 	pattern.Del(SIZE)
 	pattern.AddFloat(SIZE, size)
-- 
2.43.0


From daddbeb58ff350e5abd61f61534196049b8db93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:55 +0000
Subject: [PATCH 018/123] fix: the locale gives priority to LC_ALL and LC_CTYPE
 over LANG

---
 fontconfig/fontconfig.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fontconfig/fontconfig.go b/fontconfig/fontconfig.go
index 41a1ad0..6278008 100644
--- a/fontconfig/fontconfig.go
+++ b/fontconfig/fontconfig.go
@@ -270,7 +270,7 @@ func getDefaultLangs() strSet {
 
 	defaultLangs = make(strSet)
 
-	langs := os.Getenv("LANG")
+	langs := os.Getenv("FC_LANG")
 	if langs == "" {
 		langs = os.Getenv("LC_ALL")
 	}
-- 
2.43.0


From 20fea02b1e6c74b663c64e2ea0a50551c912938d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:55 +0000
Subject: [PATCH 019/123] fix: normalizeLang keeps the territory of the known
 languages

---
 fontconfig/lang.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/fontconfig/lang.go b/fontconfig/lang.go
index c8fafa7..98b0517 100644
--- a/fontconfig/lang.go
+++ b/fontconfig/lang.go
@@ -76,14 +76,11 @@ func newCharSetFromLang(lang string) *Charset {
 
 // normalizeLang returns a string to make `lang` suitable on to be used in fontconfig.
 func normalizeLang(lang string) string {
-	var (
-		result string
-		orig   = lang
-	)
+	var result string
 
 	lang = strings.ToLower(lang)
 	switch lang {
-	case "c", "c.utf-8, c.utf8", "posix":
+	case "c", "c.utf-8", "c.utf8", "posix":
 		return "en"
 	}
 
@@ -144,9 +141,9 @@ func normalizeLang(lang string) string {
 		tm += "@" + modifier
 	}
 	if territory != "" {
-		if findLangIndex(lang+"_"+tm) < 0 {
+		if findLangIndex(lang+"-"+tm) < 0 {
 		} else {
-			return lang + "_" + tm
+			return lang + "-" + tm
 		}
 	}
 	if modifier != "" {
@@ -157,7 +154,10 @@ func normalizeLang(lang string) string {
 	}
 	if findLangIndex(lang) < 0 {
 		// there seems no languages matched in orth. add the language as is for fallback.
-		result = orig
+		result = lang
+		if territory != "" {
+			result += "-" + territory
+		}
 	} else {
 		result = lang
 	}
-- 
2.43.0


From 5f34c12a2ce1b60173f9353e2b42d493b1d0274e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:17 +0000
Subject: [PATCH 020/123] fix: do not crash on empty family or postscript names

---
 fontconfig/match.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/fontconfig/match.go b/fontconfig/match.go
index 9ed2872..7971117 100644
--- a/fontconfig/match.go
+++ b/fontconfig/match.go
@@ -91,7 +91,7 @@ func compareFamily(v1, v2 Value) (Value, float32) {
 	bestValue := v2
 
 	if toLower(v1String) != toLower(v2String) &&
-		v1String[0] != ' ' && v2String[0] != ' ' {
+		toLower(v1String) != ' ' && toLower(v2String) != ' ' {
 		return bestValue, 1.0
 	}
 
@@ -125,8 +125,11 @@ func comparePostScript(v1, v2 Value) (Value, float32) {
 
 	bestValue := v2
 
-	if toLower(v1_string) != toLower(v2_string) &&
-		v1_string[0] != ' ' && v2_string[0] != ' ' {
+	if v1_string == v2_string {
+		return bestValue, 0
+	}
+	if v1_string == "" || toLower(v1_string) != toLower(v2_string) &&
+		toLower(v1_string) != ' ' && toLower(v2_string) != ' ' {
 		return bestValue, 1.0
 	}
 
-- 
2.43.0


From 01b485851e00b67a48d30a9d653d6ececd508170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:17 +0000
Subject: [PATCH 021/123] fix: file name patterns with stars or longer than the
 file name

---
 fontconfig/match.go | 53 ++++++++++++++++-----------------------------
 1 file changed, 19 insertions(+), 34 deletions(-)

diff --git a/fontconfig/match.go b/fontconfig/match.go
index 7971117..655d95f 100644
--- a/fontconfig/match.go
+++ b/fontconfig/match.go
@@ -311,44 +311,29 @@ func compareSize(v1, v2 Value) (Value, float32) {
 }
 
 func strGlobMatch(glob, st string) bool {
-	var str int // index in st
-	for i, c := range []byte(glob) {
-		switch c {
-		case '*':
-			// short circuit common case
-			if i == len(glob)-1 {
-				return true
-			}
-			// short circuit another common case
-			if i < len(glob)-1 && glob[i+1] == '*' {
-
-				l1 := len(st) - str
-				l2 := len(glob)
-				if l1 < l2 {
-					return false
-				}
-				str += (l1 - l2)
-			}
-			for str < len(st) {
-				if strGlobMatch(glob, st[str:]) {
-					return true
-				}
-				str++
-			}
-			return false
-		case '?':
-			if str == len(st) {
-				return false
-			}
+	var (
+		g, str       int      // current positions
+		star, strEnd = -1, -1 // last '*' seen, and the end of the text it matches
+	)
+	for str < len(st) {
+		switch {
+		case g < len(glob) && glob[g] == '*':
+			star, strEnd = g, str
+			g++
+		case g < len(glob) && (glob[g] == '?' || glob[g] == st[str]):
+			g++
 			str++
+		case star != -1: // extend the text matched by the last '*'
+			strEnd++
+			g, str = star+1, strEnd
 		default:
-			if st[str] != c {
-				return false
-			}
-			str++
+			return false
 		}
 	}
-	return str == len(st)
+	for g < len(glob) && glob[g] == '*' {
+		g++
+	}
+	return g == len(glob)
 }
 
 func compareFilename(v1, v2 Value) (Value, float32) {
-- 
2.43.0


From c1bac8f9c9c849b34316d3ac7144d062a87f261d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:38 +0000
Subject: [PATCH 022/123] fix: font scores keep the precision of the large
 integers (FONTVERSION)

---
 fontconfig/hash_tables.go |  4 +--
 fontconfig/match.go       | 72 +++++++++++++++++++--------------------
 2 files changed, 38 insertions(+), 38 deletions(-)

diff --git a/fontconfig/hash_tables.go b/fontconfig/hash_tables.go
index 2fbe726..326906e 100644
--- a/fontconfig/hash_tables.go
+++ b/fontconfig/hash_tables.go
@@ -22,8 +22,8 @@ func indexIgnoreCase(s, substr string) int {
 // walking long lists of family names. We speed this up with a
 // hash table.
 type familyEntry struct {
-	strongValue float32
-	weakValue   float32
+	strongValue float64
+	weakValue   float64
 }
 
 // map with strings key, ignoring blank and case
diff --git a/fontconfig/match.go b/fontconfig/match.go
index 655d95f..f054580 100644
--- a/fontconfig/match.go
+++ b/fontconfig/match.go
@@ -37,21 +37,21 @@ func (k matchKind) String() string {
 	}
 }
 
-func compareNumber(value1, value2 Value) (Value, float32) {
-	var v1, v2 float32
+func compareNumber(value1, value2 Value) (Value, float64) {
+	var v1, v2 float64 // float32 is not enough for integers such as FONTVERSION
 	switch value := value1.(type) {
 	case Int:
-		v1 = float32(value)
+		v1 = float64(value)
 	case Float:
-		v1 = float32(value)
+		v1 = float64(value)
 	default:
 		return nil, -1.0
 	}
 	switch value := value2.(type) {
 	case Int:
-		v2 = float32(value)
+		v2 = float64(value)
 	case Float:
-		v2 = float32(value)
+		v2 = float64(value)
 	default:
 		return nil, -1.0
 	}
@@ -63,7 +63,7 @@ func compareNumber(value1, value2 Value) (Value, float32) {
 	return value2, v
 }
 
-func compareString(v1, v2 Value) (Value, float32) {
+func compareString(v1, v2 Value) (Value, float64) {
 	bestValue := v2
 	if strings.EqualFold(string(v1.(String)), string(v2.(String))) {
 		return bestValue, 0
@@ -82,7 +82,7 @@ func toLower(s string) byte {
 	return s[0]
 }
 
-func compareFamily(v1, v2 Value) (Value, float32) {
+func compareFamily(v1, v2 Value) (Value, float64) {
 	// rely on the guarantee in PatternObjectAddWithBinding that
 	// families are always FcTypeString.
 	v1String := string(v1.(String))
@@ -119,7 +119,7 @@ func matchIgnoreCaseAndDelims(s1, s2 string) int {
 	return i
 }
 
-func comparePostScript(v1, v2 Value) (Value, float32) {
+func comparePostScript(v1, v2 Value) (Value, float64) {
 	v1_string := string(v1.(String))
 	v2_string := string(v2.(String))
 
@@ -136,10 +136,10 @@ func comparePostScript(v1, v2 Value) (Value, float32) {
 	n := matchIgnoreCaseAndDelims(v1_string, v2_string)
 	length := len(v1_string)
 
-	return bestValue, float32(length-n) / float32(length)
+	return bestValue, float64(length-n) / float64(length)
 }
 
-func compareLang(val1, val2 Value) (Value, float32) {
+func compareLang(val1, val2 Value) (Value, float64) {
 	var result langResult
 	switch v1 := val1.(type) {
 	case Langset:
@@ -175,7 +175,7 @@ func compareLang(val1, val2 Value) (Value, float32) {
 	}
 }
 
-func compareBool(val1, val2 Value) (Value, float32) {
+func compareBool(val1, val2 Value) (Value, float64) {
 	v1, ok1 := val1.(Bool)
 	v2, ok2 := val2.(Bool)
 	if !ok1 || !ok2 {
@@ -195,9 +195,9 @@ func compareBool(val1, val2 Value) (Value, float32) {
 	return bestValue, 1
 }
 
-func compareCharSet(v1, v2 Value) (Value, float32) {
+func compareCharSet(v1, v2 Value) (Value, float64) {
 	bestValue := v2
-	return bestValue, float32(charsetSubtractCount(v1.(Charset), v2.(Charset)))
+	return bestValue, float64(charsetSubtractCount(v1.(Charset), v2.(Charset)))
 }
 
 func maxF(v1, v2 float32) float32 {
@@ -221,7 +221,7 @@ func absF(v float32) float32 {
 	return v
 }
 
-func compareRange(v1, v2 Value) (Value, float32) {
+func compareRange(v1, v2 Value) (Value, float64) {
 	var b1, e1, b2, e2, d float32
 
 	switch value1 := v1.(type) {
@@ -263,12 +263,12 @@ func compareRange(v1, v2 Value) (Value, float32) {
 
 	/// if the ranges overlap, it's a match, otherwise return closest distance.
 	if e1 < b2 || e2 < b1 {
-		return bestValue, minF(absF(b2-e1), absF(b1-e2))
+		return bestValue, float64(minF(absF(b2-e1), absF(b1-e2)))
 	}
 	return bestValue, 0.0
 }
 
-func compareSize(v1, v2 Value) (Value, float32) {
+func compareSize(v1, v2 Value) (Value, float64) {
 	var b1, e1, b2, e2 float32
 
 	switch value1 := v1.(type) {
@@ -302,7 +302,7 @@ func compareSize(v1, v2 Value) (Value, float32) {
 
 	// if the ranges overlap, it's a match, otherwise return closest distance.
 	if e1 < b2 || e2 < b1 {
-		return bestValue, minF(absF(b2-e1), absF(b1-e2))
+		return bestValue, float64(minF(absF(b2-e1), absF(b1-e2)))
 	}
 	if b2 != e2 && b1 == e2 { /* Semi-closed interval. */
 		return bestValue, 1e-15
@@ -336,7 +336,7 @@ func strGlobMatch(glob, st string) bool {
 	return g == len(glob)
 }
 
-func compareFilename(v1, v2 Value) (Value, float32) {
+func compareFilename(v1, v2 Value) (Value, float64) {
 	s1, s2 := string(v1.(String)), string(v2.(String))
 	bestValue := String(s2)
 	if s1 == s2 {
@@ -433,7 +433,7 @@ const (
 )
 
 type matcher struct {
-	compare      func(v1, v2 Value) (Value, float32)
+	compare      func(v1, v2 Value) (Value, float64)
 	object       Object
 	strong, weak matcherPriority
 }
@@ -515,7 +515,7 @@ func (object Object) toMatcher(includeLang bool) *matcher {
 }
 
 func fdFromPatternList(object Object, match *matcher,
-	pattern, target valueList, value []float32) (Value, Result, int, bool) {
+	pattern, target valueList, value []float64) (Value, Result, int, bool) {
 	if match == nil {
 		return target[0].Value, 0, 0, true
 	}
@@ -527,9 +527,9 @@ func fdFromPatternList(object Object, match *matcher,
 	weak := match.weak
 	strong := match.strong
 
-	best := float32(math.MaxFloat32)
-	bestStrong := float32(math.MaxFloat32)
-	bestWeak := float32(math.MaxFloat32)
+	best := math.MaxFloat64
+	bestStrong := math.MaxFloat64
+	bestWeak := math.MaxFloat64
 	for j, v1 := range pattern {
 		for k, v2 := range target {
 			matchValue, v := match.compare(v1.Value, v2.Value)
@@ -537,7 +537,7 @@ func fdFromPatternList(object Object, match *matcher,
 				result = ResultTypeMismatch
 				return nil, result, 0, false
 			}
-			v = v*1000 + float32(j)
+			v = v*1000 + float64(j)
 			if v < best {
 				bestValue = matchValue
 				best = v
@@ -588,16 +588,16 @@ func (pat Pattern) newCompareData() compareData {
 		e, ok := table.lookup(key)
 		if !ok {
 			e = new(familyEntry)
-			e.strongValue = math.MaxFloat32
-			e.weakValue = math.MaxFloat32
+			e.strongValue = math.MaxFloat64
+			e.weakValue = math.MaxFloat64
 			table.add(key, e)
 		}
 		if l.Binding == vbWeak {
-			if i := float32(i); i < e.weakValue {
+			if i := float64(i); i < e.weakValue {
 				e.weakValue = i
 			}
 		} else {
-			if i := float32(i); i < e.strongValue {
+			if i := float64(i); i < e.strongValue {
 				e.strongValue = i
 			}
 		}
@@ -606,9 +606,9 @@ func (pat Pattern) newCompareData() compareData {
 	return table
 }
 
-func (table blankCaseMap) compareFamilies(v2orig valueList, value []float32) {
-	strongValue := float32(math.MaxFloat32)
-	weakValue := float32(math.MaxFloat32)
+func (table blankCaseMap) compareFamilies(v2orig valueList, value []float64) {
+	strongValue := math.MaxFloat64
+	weakValue := math.MaxFloat64
 
 	for _, v2 := range v2orig {
 		key, _ := v2.Value.(String) // should be string, but we are cautious
@@ -628,7 +628,7 @@ func (table blankCaseMap) compareFamilies(v2orig valueList, value []float32) {
 }
 
 // compare returns a value indicating the distance between the two lists of values
-func (data compareData) compare(pat, font Pattern, value []float32) (bool, Result) {
+func (data compareData) compare(pat, font Pattern, value []float64) (bool, Result) {
 	for i := range value {
 		value[i] = 0.0
 	}
@@ -782,7 +782,7 @@ func (config *Config) PrepareRender(pat, font Pattern) Pattern {
 
 func (set Fontset) matchInternal(p Pattern) Pattern {
 	var (
-		score, bestscore [priorityEnd]float32
+		score, bestscore [priorityEnd]float64
 		best             Pattern
 	)
 
@@ -916,11 +916,11 @@ func (set Fontset) Match(p Pattern, config *Config) Pattern {
 
 type sortNode struct {
 	pattern Pattern
-	score   [priorityEnd]float32
+	score   [priorityEnd]float64
 }
 
 func sortCompare(a, b *sortNode) bool {
-	var ad, bd float32
+	var ad, bd float64
 	for i := range a.score {
 		ad, bd = a.score[i], b.score[i]
 		if ad != bd {
-- 
2.43.0


From 47aad2a9ee320e15584f862fcae6f27b8fb807e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:39 +0000
Subject: [PATCH 023/123] fix: Sort returns the coverage of the fonts even when
 it does not trim them

---
 fontconfig/match.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/fontconfig/match.go b/fontconfig/match.go
index f054580..75fd4b0 100644
--- a/fontconfig/match.go
+++ b/fontconfig/match.go
@@ -939,13 +939,11 @@ func sortWalk(n []*sortNode, trim bool) (Fontset, Charset) {
 	for i, node := range n {
 		addsChars := false
 
-		// Only fetch node charset if we'd need it
-		if trim {
-			ncs, ok := node.pattern.GetCharset(CHARSET)
-			if !ok {
-				continue
-			}
+		ncs, ok := node.pattern.GetCharset(CHARSET)
+		if ok {
 			addsChars = csp.merge(ncs)
+		} else if trim {
+			continue
 		}
 
 		// If this font isn't a subset of the previous fonts, add it to the list
-- 
2.43.0


From c07d49487425c1100b9b1abd535aa8771dd56ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:19 +0000
Subject: [PATCH 024/123] fix: compare integers exactly, not as float32

---
 fontconfig/expr.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fontconfig/expr.go b/fontconfig/expr.go
index b623134..643152b 100644
--- a/fontconfig/expr.go
+++ b/fontconfig/expr.go
@@ -596,8 +596,12 @@ func compareValue(leftO Value, op opKind, rightO Value) bool {
 
 	// to avoid checking for type equality we begin by promoting
 	// and we will check later in the type switch
-	leftO = promote(leftO, rightO)
-	rightO = promote(rightO, leftO)
+	_, leftInt := leftO.(Int)
+	_, rightInt := rightO.(Int)
+	if !(leftInt && rightInt) { // compare the integers exactly
+		leftO = promote(leftO, rightO)
+		rightO = promote(rightO, leftO)
+	}
 
 	switch l := leftO.(type) {
 	case Int:
-- 
2.43.0


From 2a850f85b6c48817e8e257adf3c178cc110df6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:49 +0000
Subject: [PATCH 025/123] fix: LoadFontset refuses the damaged caches

---
 fontconfig/cache.go | 65 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 56 insertions(+), 9 deletions(-)

diff --git a/fontconfig/cache.go b/fontconfig/cache.go
index 8294d47..be091e1 100644
--- a/fontconfig/cache.go
+++ b/fontconfig/cache.go
@@ -9,6 +9,7 @@ import (
 	"io"
 	"math"
 	"os"
+	"unicode"
 )
 
 // encoded value type
@@ -187,7 +188,7 @@ func (v *String) deserializeBin(data []byte) (int, error) {
 		return 0, errors.New("invalid String (EOF)")
 	}
 	L := int(binary.BigEndian.Uint32(data))
-	if len(data) < 4+L {
+	if len(data)-4 < L {
 		return 0, errors.New("invalid String length (EOF)")
 	}
 	*v = String(data[4 : 4+L])
@@ -199,6 +200,9 @@ func (v *Bool) deserializeBin(data []byte) (int, error) {
 		return 0, errors.New("invalid Bool (EOF)")
 	}
 	*v = Bool(data[0])
+	if *v > DontCare {
+		return 0, fmt.Errorf("invalid Bool: %d", data[0])
+	}
 	return 1, nil
 }
 
@@ -217,6 +221,10 @@ func (v *Charset) deserializeBin(data []byte) (int, error) {
 
 	for i := range v.pageNumbers {
 		v.pageNumbers[i] = binary.BigEndian.Uint16(data[2+charsetRecordSize*i:])
+		// the pages are sorted
+		if v.pageNumbers[i] > unicode.MaxRune>>8 || (i != 0 && v.pageNumbers[i] <= v.pageNumbers[i-1]) {
+			return 0, fmt.Errorf("invalid Charset page: %x", v.pageNumbers[i])
+		}
 		slice := data[2+charsetRecordSize*i+2:]
 		for j := range v.pages[i] {
 			v.pages[i][j] = binary.BigEndian.Uint32(slice[4*j:])
@@ -235,6 +243,12 @@ func (v *Langset) deserializeBin(data []byte) (int, error) {
 	for j := range v.page {
 		v.page[j] = binary.BigEndian.Uint32(data[4*j:])
 	}
+	// no language is associated with the last bits
+	for id := len(fcLangCharSetIndicesInv); id < 32*langPageSize; id++ {
+		if v.page[id>>5]&(1<<(id&0x1f)) != 0 {
+			return 0, fmt.Errorf("invalid Langset bit: %d", id)
+		}
+	}
 	return 4 * langPageSize, nil
 }
 
@@ -263,6 +277,9 @@ func (v *valueElt) deserializeBin(data []byte) (int, error) {
 		return 0, errors.New("invalid value (EOF)")
 	}
 	v.Binding = valueBinding(data[0])
+	if v.Binding > vbSame {
+		return 0, fmt.Errorf("invalid value binding: %d", data[0])
+	}
 	type_ := data[1]
 	var (
 		valueSize int
@@ -301,6 +318,8 @@ func (v *valueElt) deserializeBin(data []byte) (int, error) {
 		var out Range
 		valueSize, err = out.deserializeBin(data[2:])
 		v.Value = out
+	default:
+		return 0, fmt.Errorf("invalid value type: %d", type_)
 	}
 
 	return 2 + valueSize, err
@@ -311,12 +330,12 @@ func deserializeValueListBin(data []byte) (valueList, int, error) {
 		return nil, 0, errors.New("invalid value list (EOF)")
 	}
 	L := int(binary.BigEndian.Uint16(data))
+	if len(data)-2 < 2*L { // each value uses at least two bytes
+		return nil, 0, errors.New("invalid value list size (EOF)")
+	}
 	list := make(valueList, L)
 	offset := 2
 	for i := range list {
-		if len(data) < offset {
-			return nil, 0, errors.New("invalid value list size (EOF)")
-		}
 		read, err := list[i].deserializeBin(data[offset:])
 		if err != nil {
 			return nil, 0, fmt.Errorf("invalid value list: %s", err)
@@ -332,6 +351,9 @@ func deserializePatternBin(data []byte) (Pattern, error) {
 		return nil, errors.New("invalid pattern (EOF)")
 	}
 	L := int(binary.BigEndian.Uint16(data))
+	if len(data)-2 < 4*L { // each entry uses at least four bytes
+		return nil, errors.New("invalid pattern entry (EOF)")
+	}
 	pat := make(Pattern, L)
 	offset := 2
 	for i := 0; i < L; i++ {
@@ -344,8 +366,22 @@ func deserializePatternBin(data []byte) (Pattern, error) {
 		if err != nil {
 			return nil, fmt.Errorf("invalid pattern: %s", err)
 		}
-		(pat)[obj] = &list
 		offset += read
+		if _, ok := pat[obj]; ok {
+			return nil, fmt.Errorf("invalid pattern: duplicate entry %s", obj)
+		}
+		for _, elt := range list {
+			if !obj.hasValidType(elt.Value) {
+				return nil, fmt.Errorf("invalid pattern: unexpected type %T for %s", elt.Value, obj)
+			}
+		}
+		if len(list) == 0 { // as if the object was missing
+			continue
+		}
+		pat[obj] = &list
+	}
+	if offset != len(data) {
+		return nil, fmt.Errorf("invalid pattern: unexpected length %d", len(data))
 	}
 	return pat, nil
 }
@@ -406,9 +442,12 @@ func LoadFontset(src io.Reader) (Fontset, error) {
 		return nil, fmt.Errorf("unsupported fontset length: %d", L)
 	}
 
-	fs := make(Fontset, L)
-	var buffer bytes.Buffer
-	for i := range fs {
+	// the actual number of patterns is only known after reading them
+	var (
+		fs     Fontset
+		buffer bytes.Buffer
+	)
+	for ; L > 0; L-- {
 		// size of the encoded pattern
 		if _, err := io.ReadFull(r, buf[:]); err != nil {
 			return nil, fmt.Errorf("invalid fontset: %s", err)
@@ -420,10 +459,18 @@ func LoadFontset(src io.Reader) (Fontset, error) {
 			return nil, fmt.Errorf("invalid fontset: %s", err)
 		}
 
-		fs[i], err = deserializePatternBin(buffer.Bytes())
+		pat, err := deserializePatternBin(buffer.Bytes())
 		if err != nil {
 			return nil, fmt.Errorf("invalid fontset: %s", err)
 		}
+		fs = append(fs, pat)
+	}
+
+	// reach the end of the file, so that its checksum is verified
+	if _, err := io.ReadFull(r, buf[:1]); err == nil {
+		return nil, errors.New("invalid fontset: unexpected content after the patterns")
+	} else if err != io.EOF {
+		return nil, fmt.Errorf("invalid fontset: %s", err)
 	}
 	return fs, nil
 }
-- 
2.43.0


From 7ceb1d3b7b4e961971557fb97a462e4a7ad06a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:49 +0000
Subject: [PATCH 026/123] fix: Serialize refuses the lists it can not encode

---
 fontconfig/cache.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fontconfig/cache.go b/fontconfig/cache.go
index be091e1..b29f7f1 100644
--- a/fontconfig/cache.go
+++ b/fontconfig/cache.go
@@ -73,6 +73,9 @@ func (p Pattern) serializeBin() ([]byte, error) {
 }
 
 func (l valueList) serializeBin(w io.Writer) error {
+	if len(l) > math.MaxUint16 {
+		return fmt.Errorf("unsupported number of values: %d", len(l))
+	}
 	var buf [2]byte
 	binary.BigEndian.PutUint16(buf[:], uint16(len(l)))
 	_, err := w.Write(buf[:])
-- 
2.43.0


From ba75876b158d2aac2c35a6618088c2f269dcc96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:28 +0000
Subject: [PATCH 027/123] fix: the edits of a rule follow the matched value

---
 fontconfig/substitutions.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/fontconfig/substitutions.go b/fontconfig/substitutions.go
index b44b32d..e0ba4cb 100644
--- a/fontconfig/substitutions.go
+++ b/fontconfig/substitutions.go
@@ -116,7 +116,7 @@ func (r ruleEdit) edit(selectedKind matchKind, p, pPat Pattern, table *familyTab
 			thisValue := valuePos[object]
 
 			// Append the newList list of values after the current value
-			targetList.insert(thisValue, true, l, object, table)
+			added := targetList.insert(thisValue, true, l, object, table)
 
 			//  Delete the marked value
 			if thisValue != -1 {
@@ -124,6 +124,9 @@ func (r ruleEdit) edit(selectedKind matchKind, p, pPat Pattern, table *familyTab
 			}
 
 			// Adjust a pointer into the value list to ensure future edits occur at the same place
+			if !added || len(l) == 0 {
+				valuePos[object] = -1
+			}
 			break
 		}
 		fallthrough
@@ -135,12 +138,18 @@ func (r ruleEdit) edit(selectedKind matchKind, p, pPat Pattern, table *familyTab
 		valuePos[object] = -1
 	case opPrepend:
 		if valuePos[object] != -1 {
-			targetList.insert(valuePos[object], false, l, object, table)
+			if targetList.insert(valuePos[object], false, l, object, table) {
+				valuePos[object] += len(l) // follow the matched value
+			}
 			break
 		}
 		fallthrough
 	case opPrependFirst:
+		size := len(p.getVals(object))
 		p.addWithTable(object, l, false, table)
+		if valuePos[object] != -1 { // follow the matched value
+			valuePos[object] += len(p.getVals(object)) - size
+		}
 	case opAppend:
 		if valuePos[object] != -1 {
 			targetList.insert(valuePos[object], true, l, object, table)
@@ -152,11 +161,13 @@ func (r ruleEdit) edit(selectedKind matchKind, p, pPat Pattern, table *familyTab
 	case opDelete:
 		if valuePos[object] != -1 {
 			targetList.del(valuePos[object], object, table)
+			valuePos[object] = -1
 			break
 		}
 		fallthrough
 	case opDeleteAll:
 		p.delWithTable(object, table)
+		valuePos[object] = -1
 	}
 	// Now go through the pattern and eliminate any properties without data
 	p.canon(object)
-- 
2.43.0


From 5ec5f11f6e319bb777be932631a4e8aed747bff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:28 +0000
Subject: [PATCH 028/123] fix: do not crash on a family test whose expression
 is not a string

---
 fontconfig/substitutions.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fontconfig/substitutions.go b/fontconfig/substitutions.go
index e0ba4cb..e9820c0 100644
--- a/fontconfig/substitutions.go
+++ b/fontconfig/substitutions.go
@@ -366,17 +366,17 @@ func matchValueList(p, pPat Pattern, kind matchKind,
 			e = nil
 		}
 
-		if t.object == FAMILY && table != nil {
+		if family, ok := value.(String); ok && t.object == FAMILY && table != nil {
 			op := t.op.getOp()
 			if op == opEqual || op == opListing {
-				if !table.lookup(t.op, value.(String)) {
+				if !table.lookup(t.op, family) {
 					ret = -1
 					continue
 				}
 			}
 			if op == opNotEqual && t.qual == qualAll {
 				ret = -1
-				if !table.lookup(t.op, value.(String)) {
+				if !table.lookup(t.op, family) {
 					ret = 0
 				}
 				continue
-- 
2.43.0


From 7fbf21280818fd37aae99db932126f469c59d09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:51 +0000
Subject: [PATCH 029/123] fix: the patterns do not share the charsets of the
 rules

---
 fontconfig/expr.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fontconfig/expr.go b/fontconfig/expr.go
index 643152b..b794717 100644
--- a/fontconfig/expr.go
+++ b/fontconfig/expr.go
@@ -768,6 +768,8 @@ func (e *expression) toValues(p, p_pat Pattern, kind matchKind, binding valueBin
 
 	if l[0].Value == nil {
 		l = l[1:]
+	} else {
+		l[0].Value = l[0].Value.copy() // do not share the values of the rules or of the query
 	}
 
 	return l
-- 
2.43.0


From 1f5b95bb82d0043bcaa9d7465e124947472cc920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:51 +0000
Subject: [PATCH 030/123] fix: logical operations on dontcare give a boolean

---
 fontconfig/expr.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/fontconfig/expr.go b/fontconfig/expr.go
index b794717..21c986d 100644
--- a/fontconfig/expr.go
+++ b/fontconfig/expr.go
@@ -278,6 +278,13 @@ func (expr expression) String() string {
 	}
 }
 
+func toBool(b bool) Bool {
+	if b {
+		return True
+	}
+	return False
+}
+
 func (e *expression) evaluate(result, query Pattern, kind matchKind) Value {
 	var v Value
 	op := e.op.getOp()
@@ -375,9 +382,9 @@ func (e *expression) evaluate(result, query Pattern, kind matchKind) Value {
 			}
 			switch op {
 			case opOr:
-				v = vle | vre
+				v = toBool(vle != 0 || vre != 0)
 			case opAnd:
-				v = vle & vre
+				v = toBool(vle != 0 && vre != 0)
 			}
 		case String:
 			vre, sameType := vre.(String)
@@ -424,7 +431,7 @@ func (e *expression) evaluate(result, query Pattern, kind matchKind) Value {
 		tree := e.u.(exprTree)
 		vl := tree.left.evaluate(result, query, kind)
 		if b, ok := vl.(Bool); ok {
-			v = 1 - b&1
+			v = toBool(b == 0)
 		}
 	case opFloor, opCeil, opRound, opTrunc:
 		tree := e.u.(exprTree)
-- 
2.43.0


From ae729a57891024d40c5d941cc41dea1590aaf758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:51 +0000
Subject: [PATCH 031/123] fix: keep the table of the families up to date in the
 rules testing the query

---
 fontconfig/substitutions.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fontconfig/substitutions.go b/fontconfig/substitutions.go
index e9820c0..0a62cd5 100644
--- a/fontconfig/substitutions.go
+++ b/fontconfig/substitutions.go
@@ -483,8 +483,7 @@ func (config *Config) Substitute(p, testPattern Pattern, kind matchKind) {
 				if debugMode {
 					fmt.Println("\t\ttest for substitute", test)
 				}
-				var keep bool
-				table, keep = test.match(kind, p, testPattern, data, valuePos, targets, tst)
+				_, keep := test.match(kind, p, testPattern, data, valuePos, targets, tst)
 				if !keep {
 					if debugMode {
 						fmt.Println("\t\t-> dont pass")
-- 
2.43.0


From 50209403268adea2dc02dd3bc201d9136f538e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:51 +0000
Subject: [PATCH 032/123] fix: operations on integers are exact, and do not
 overflow

---
 fontconfig/expr.go | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/fontconfig/expr.go b/fontconfig/expr.go
index 21c986d..37b8127 100644
--- a/fontconfig/expr.go
+++ b/fontconfig/expr.go
@@ -278,6 +278,28 @@ func (expr expression) String() string {
 	}
 }
 
+// returns an Int if `f` is one
+func floatAsValue(f float64) Value {
+	if f == math.Trunc(f) && math.MinInt32 <= f && f <= math.MaxInt32 {
+		return Int(f)
+	}
+	return Float(f)
+}
+
+func intOperation(op opKind, l, r Int) Value {
+	switch op {
+	case opPlus:
+		return floatAsValue(float64(l) + float64(r))
+	case opMinus:
+		return floatAsValue(float64(l) - float64(r))
+	case opTimes:
+		return floatAsValue(float64(l) * float64(r))
+	case opDivide:
+		return floatAsValue(float64(l) / float64(r))
+	}
+	return nil
+}
+
 func toBool(b bool) Bool {
 	if b {
 		return True
@@ -353,6 +375,12 @@ func (e *expression) evaluate(result, query Pattern, kind matchKind) Value {
 		tree := e.u.(exprTree)
 		vl := tree.left.evaluate(result, query, kind)
 		vr := tree.right.evaluate(result, query, kind)
+		if l, isInt := vl.(Int); isInt {
+			if r, isInt := vr.(Int); isInt { // compute exactly
+				v = intOperation(op, l, r)
+				break
+			}
+		}
 		vle := promote(vl, vr)
 		vre := promote(vr, vle)
 		v = nil
@@ -372,8 +400,8 @@ func (e *expression) evaluate(result, query Pattern, kind matchKind) Value {
 			case opDivide:
 				v = vle / vre
 			}
-			if vf, ok := v.(Float); ok && vf == Float(int(vf)) {
-				v = Int(vf)
+			if vf, ok := v.(Float); ok {
+				v = floatAsValue(float64(vf))
 			}
 		case Bool:
 			vre, sameType := vre.(Bool)
-- 
2.43.0


From 6533344af28cac8887ca8c88d428d2e1fea5e4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:21 +0000
Subject: [PATCH 033/123] fix: do not crash on a value element at the root of a
 configuration

---
 fontconfig/xml.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fontconfig/xml.go b/fontconfig/xml.go
index a18b6ab..910b915 100644
--- a/fontconfig/xml.go
+++ b/fontconfig/xml.go
@@ -299,7 +299,7 @@ func (parser *configParser) createVAndPush() *vstack {
 		ps.values = append(ps.values, vstack{})
 		return &ps.values[len(ps.values)-1]
 	}
-	return nil
+	return new(vstack) // discarded
 }
 
 func (parse *configParser) startElement(name xml.Name, attr []xml.Attr) error {
-- 
2.43.0


From 6cb7c99a35f7ada6913445231845ef490dd60371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:21 +0000
Subject: [PATCH 034/123] fix: do not crash on <family> and <test> elements
 used as expressions

---
 fontconfig/xml.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fontconfig/xml.go b/fontconfig/xml.go
index 910b915..7cc4cdd 100644
--- a/fontconfig/xml.go
+++ b/fontconfig/xml.go
@@ -666,13 +666,13 @@ func (parser *configParser) popExpr() *expression {
 		return nil
 	}
 	switch vstack.tag {
-	case vstackString, vstackFamily:
+	case vstackString:
 		expr = &expression{op: opString, u: vstack.u}
 	case vstackName:
 		expr = &expression{op: opField, u: vstack.u}
 	case vstackConstant:
 		expr = &expression{op: opConst, u: vstack.u}
-	case vstackPrefer, vstackAccept, vstackDefault:
+	case vstackFamily, vstackPrefer, vstackAccept, vstackDefault:
 		expr = vstack.u.(*expression)
 		vstack.tag = vstackNone
 	case vstackInt:
@@ -689,7 +689,7 @@ func (parser *configParser) popExpr() *expression {
 		expr = &expression{op: opCharSet, u: vstack.u}
 	case vstackLangSet:
 		expr = &expression{op: opLangSet, u: vstack.u}
-	case vstackTest, vstackExpr:
+	case vstackExpr:
 		expr = vstack.u.(*expression)
 		vstack.tag = vstackNone
 	}
-- 
2.43.0


From 819327291d04b2f8eb924fe02498d3822bd6be20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:21 +0000
Subject: [PATCH 035/123] fix: refuse the <if> elements without three
 expressions

---
 fontconfig/xml.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/fontconfig/xml.go b/fontconfig/xml.go
index 7cc4cdd..7d8dbf6 100644
--- a/fontconfig/xml.go
+++ b/fontconfig/xml.go
@@ -439,7 +439,7 @@ func (parser *configParser) endElement() error {
 	case elementDivide:
 		parser.parseBinary(opDivide)
 	case elementIf:
-		parser.parseBinary(opQuest)
+		err = parser.parseIf()
 	case elementNot:
 		parser.parseUnary(opNot)
 	case elementFloor:
@@ -730,6 +730,18 @@ func (parser *configParser) parseBinary(op opKind) {
 	}
 }
 
+// This builds a ternary operator
+func (parser *configParser) parseIf() error {
+	right := parser.popExpr()
+	left := parser.popExpr()
+	cond := parser.popExpr()
+	if cond == nil || len(parser.p().values) != 0 {
+		return parser.error("<if> requires three expressions")
+	}
+	parser.pushExpr(vstackExpr, newExprOp(cond, newExprOp(left, right, opQuest), opQuest))
+	return nil
+}
+
 // This builds a a unary operator, it consumes only a single operand
 func (parser *configParser) parseUnary(op opKind) {
 	operand := parser.popExpr()
-- 
2.43.0


From 81c12c76a94fd209e6d45600f6fc2ec339f3ea4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:21 +0000
Subject: [PATCH 036/123] fix: accept the hexadecimal integers and refuse the
 too large ones

---
 fontconfig/xml.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fontconfig/xml.go b/fontconfig/xml.go
index 7d8dbf6..f057f56 100644
--- a/fontconfig/xml.go
+++ b/fontconfig/xml.go
@@ -759,7 +759,7 @@ func (parser *configParser) parseInt() error {
 	s := last.str.String()
 	last.str.Reset()
 
-	d, err := strconv.Atoi(s)
+	d, err := strconv.ParseInt(s, 0, 32) // hexadecimal is common for characters
 	if err != nil {
 		return fmt.Errorf("\"%s\": not a valid Int", s)
 	}
-- 
2.43.0


From 675eb86d09bbe5d65e75f72781e02484156b9e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:21 +0000
Subject: [PATCH 037/123] fix: do not lose the integer bound of a range

---
 fontconfig/xml.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/fontconfig/xml.go b/fontconfig/xml.go
index f057f56..0679a51 100644
--- a/fontconfig/xml.go
+++ b/fontconfig/xml.go
@@ -878,15 +878,9 @@ func (parser *configParser) parseRange() error {
 	for i, vstack := range values {
 		switch vstack.tag {
 		case vstackInt:
-			if dflag {
-				d[i] = float32(vstack.u.(Int))
-			} else {
-				n[i] = int(vstack.u.(Int))
-			}
+			d[i] = float32(vstack.u.(Int))
+			n[i] = int(vstack.u.(Int))
 		case vstackDouble:
-			if i == 0 && !dflag {
-				d[1] = float32(n[1])
-			}
 			d[i] = float32(vstack.u.(Float))
 			dflag = true
 		default:
-- 
2.43.0


From 77e03a8226c9a3806fe9fc1b4807bd78d1c294ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:22 +0000
Subject: [PATCH 038/123] fix: refuse the characters out of range in a
 configuration

---
 fontconfig/xml.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fontconfig/xml.go b/fontconfig/xml.go
index 0679a51..bc0eff2 100644
--- a/fontconfig/xml.go
+++ b/fontconfig/xml.go
@@ -918,7 +918,7 @@ func (parser *configParser) parseCharSet() error {
 		switch vstack.tag {
 		case vstackInt:
 			r := rune(vstack.u.(Int))
-			if r > maxCharsetRune {
+			if r < 0 || r > maxCharsetRune {
 				return parser.error("invalid character: 0x%04x", r)
 			} else {
 				charset.AddChar(r)
@@ -926,6 +926,9 @@ func (parser *configParser) parseCharSet() error {
 			}
 		case vstackRange:
 			ra := vstack.u.(Range)
+			if ra.Begin < 0 || ra.End > maxCharsetRune {
+				return parser.error("invalid characters: %g-%g", ra.Begin, ra.End)
+			}
 			if ra.Begin <= ra.End {
 				for r := rune(ra.Begin); r <= rune(ra.End); r++ {
 					if r > maxCharsetRune {
-- 
2.43.0


From a246e70d52d22a4d65e0ece966a349eed64d369f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:58 +0000
Subject: [PATCH 039/123] fix: configurations can not put invalid characters in
 charsets

---
 fontconfig/charset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fontconfig/charset.go b/fontconfig/charset.go
index bb2a914..c6be6b5 100644
--- a/fontconfig/charset.go
+++ b/fontconfig/charset.go
@@ -19,7 +19,7 @@ type charPage [8]uint32
 // By construction, only the 3 last bytes of a rune are taken
 // into account meaning that only rune <= 0x00FFFFFF are valid,
 // which is large enough for all valid Unicode points.
-const maxCharsetRune = 0xFFFFFF
+const maxCharsetRune = 0x10FFFF
 
 // Charset is a compact rune set.
 //
-- 
2.43.0


From dd9fa83ba3a0120b53102960f4f627d3b12ac684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:44 +0000
Subject: [PATCH 040/123] fix: refuse the <if> elements whose branches are not
 expressions

---
 fontconfig/xml.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fontconfig/xml.go b/fontconfig/xml.go
index bc0eff2..672eaae 100644
--- a/fontconfig/xml.go
+++ b/fontconfig/xml.go
@@ -735,7 +735,7 @@ func (parser *configParser) parseIf() error {
 	right := parser.popExpr()
 	left := parser.popExpr()
 	cond := parser.popExpr()
-	if cond == nil || len(parser.p().values) != 0 {
+	if cond == nil || left == nil || right == nil || len(parser.p().values) != 0 {
 		return parser.error("<if> requires three expressions")
 	}
 	parser.pushExpr(vstackExpr, newExprOp(cond, newExprOp(left, right, opQuest), opQuest))
-- 
2.43.0


From ab781cce551c3c9aaf8a9d41ef9a2ea5e18f4164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:32 +0000
Subject: [PATCH 041/123] fix: do not crash on the styles ending with the word
 Ultra

---
 fontconfig/scan.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/fontconfig/scan.go b/fontconfig/scan.go
index cc8369a..7b92cf1 100644
--- a/fontconfig/scan.go
+++ b/fontconfig/scan.go
@@ -1079,12 +1079,10 @@ func isPunct(c byte) bool {
 // Does s1 contain an instance of s2 on a word boundary (ignoring case)?
 func containsWord(s1, s2 []byte) bool {
 	wordStart := true
-	s1len := len(s1)
-	s2len := len(s2)
 
 	for len(s1) >= len(s2) {
 		if wordStart && bytes.HasPrefix(bytes.ToLower(s1), bytes.ToLower(s2)) &&
-			(s1len == s2len || isPunct(s1[s2len])) {
+			(len(s1) == len(s2) || isPunct(s1[len(s2)])) {
 			return true
 		}
 		wordStart = false
-- 
2.43.0


From 791db0aeb615607505e82d2d43bb16a161f12917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:32 +0000
Subject: [PATCH 042/123] fix: do not crash on the directories with dots when
 the file name gives the family

---
 fontconfig/scan.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/fontconfig/scan.go b/fontconfig/scan.go
index 7b92cf1..70f9c0f 100644
--- a/fontconfig/scan.go
+++ b/fontconfig/scan.go
@@ -1593,12 +1593,10 @@ func queryFace(face fonts.Face, file string, id uint32, sets *sharedSets) (Patte
 	}
 
 	if nfamily == 0 && file != "" {
-		start := strings.IndexByte(file, '/')
-		end := strings.IndexByte(file, '.')
-		if end == -1 {
-			end = len(file)
+		family := file[strings.LastIndexByte(file, '/')+1:]
+		if end := strings.LastIndexByte(family, '.'); end != -1 {
+			family = family[:end]
 		}
-		family := file[start+1 : end]
 		if debugMode {
 			fmt.Printf("\tusing filename for family %s\n", family)
 		}
-- 
2.43.0


From 487f6a5b0f98be37e026040ac0c81e17c594daad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:32 +0000
Subject: [PATCH 043/123] fix: the style of a named instance is its subfamily
 name

---
 fontconfig/scan.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fontconfig/scan.go b/fontconfig/scan.go
index 70f9c0f..87eb2db 100644
--- a/fontconfig/scan.go
+++ b/fontconfig/scan.go
@@ -1472,7 +1472,7 @@ func queryFace(face fonts.Face, file string, id uint32, sets *sharedSets) (Patte
 				}
 
 				if nameid == truetype.NameFontSubfamily {
-					lookupid = instance.PSStringID
+					lookupid = instance.Subfamily
 				}
 			}
 
-- 
2.43.0


From 8f9a34d8ce277ebc269d1fd2f4e9af07ec5287c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:32 +0000
Subject: [PATCH 044/123] fix: use the names of a font in every language

---
 fontconfig/scan.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/fontconfig/scan.go b/fontconfig/scan.go
index 87eb2db..edf1c5d 100644
--- a/fontconfig/scan.go
+++ b/fontconfig/scan.go
@@ -1318,10 +1318,10 @@ func queryFace(face fonts.Face, file string, id uint32, sets *sharedSets) (Patte
 		varCoords             []float32 // in normalized coordinates
 		weightMult, widthMult float32   = 1., 1.
 
-		foundry                                                                       string
-		nameCount, nfamily, nfamilyLang, nstyle, nstyleLang, nfullname, nfullnameLang int
-		exclusiveLang                                                                 string
-		decorative                                                                    bool
+		foundry                                                            string
+		nfamily, nfamilyLang, nstyle, nstyleLang, nfullname, nfullnameLang int
+		exclusiveLang                                                      string
+		decorative                                                         bool
 	)
 
 	pat := NewPattern()
@@ -1486,10 +1486,11 @@ func queryFace(face fonts.Face, file string, id uint32, sets *sharedSets) (Patte
 				lang       string
 			)
 
-			for do := true; do; {
+			for ; nameidx < len(nameMappings); nameidx++ {
 				sname = names[nameMappings[nameidx].idx]
-				do = nameidx < nameCount && platform == sname.PlatformID && lookupid == sname.NameID
-				nameidx++
+				if platform != sname.PlatformID || lookupid != sname.NameID {
+					break
+				}
 
 				switch nameid {
 				case truetype.NameWWSFamily, truetype.NamePreferredFamily, truetype.NameFontFamily:
-- 
2.43.0


From 453303b88fa6e6c25bbb4ee68be186366ff7ed86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:32 +0000
Subject: [PATCH 045/123] fix: the characters without glyph or beyond Unicode
 are not covered by a font

---
 fontconfig/scan.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/fontconfig/scan.go b/fontconfig/scan.go
index edf1c5d..c196013 100644
--- a/fontconfig/scan.go
+++ b/fontconfig/scan.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"sort"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/benoitkugler/textlayout/fonts"
 	"github.com/benoitkugler/textlayout/fonts/bitmap"
@@ -1966,7 +1967,13 @@ func getSpacing(face fonts.Face) int32 {
 	advances := make([]int, 0, 3)
 	iter := cmap.Iter()
 	for iter.Next() && len(advances) < 3 {
-		_, glyph := iter.Char()
+		ucs4, glyph := iter.Char()
+		if ucs4 < 0 || ucs4 > utf8.MaxRune { // invalid table
+			break
+		}
+		if glyph == 0 { // missing glyph
+			continue
+		}
 		advance := int(face.HorizontalAdvance(glyph))
 		if advance != 0 {
 			// add if not already found
@@ -2007,7 +2014,13 @@ func getCharSet(face fonts.Face) (Charset, fonts.CmapEncoding) {
 	)
 	iter := cmap.Iter()
 	for iter.Next() {
-		ucs4, _ := iter.Char()
+		ucs4, glyph := iter.Char()
+		if ucs4 < 0 || ucs4 > utf8.MaxRune { // invalid table
+			break
+		}
+		if glyph == 0 { // missing glyph
+			continue
+		}
 
 		/* CID fonts built by Adobe used to make ASCII control chars to cid1
 		 * (space glyph). As such, always check contour for those characters. */
-- 
2.43.0


From a2281090ea22db3708c4ed4178560bed962db839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:50 +0000
Subject: [PATCH 046/123] fix: ScanFontRessource applies the font selectors

---
 fontconfig/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fontconfig/config.go b/fontconfig/config.go
index 2b36b1a..772fe6f 100644
--- a/fontconfig/config.go
+++ b/fontconfig/config.go
@@ -193,7 +193,7 @@ func (config *Config) ScanFontRessource(content fonts.Resource, contentID string
 			out = append(out, f)
 		}
 	}
-	return fonts, nil
+	return out, nil
 }
 
 // Recursively scan a directory and build the font patterns,
-- 
2.43.0


From 8347ac547cf1b202028ddd79eb14becc627f67e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:28 +0000
Subject: [PATCH 047/123] fix: the full name of a font uses its English style
 name

---
 fontconfig/pattern.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fontconfig/pattern.go b/fontconfig/pattern.go
index 316103a..6a4cc1a 100644
--- a/fontconfig/pattern.go
+++ b/fontconfig/pattern.go
@@ -336,7 +336,7 @@ func (pat Pattern) addFullname() bool {
 		return false
 	}
 	family = strings.TrimRightFunc(family, unicode.IsSpace)
-	lang = ""
+	lang, n = "", 0
 	lang, res = pat.getAtString(STYLELANG, n)
 	for ; res == ResultMatch; lang, res = pat.getAtString(STYLELANG, n) {
 		if lang == "en" {
-- 
2.43.0


From 4e0713a05437d86ca4435e4d74a3017eabc0a781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:40 +0000
Subject: [PATCH 048/123] fix: find the general category of the characters
 deterministically

unicode.Categories contains overlapping tables with recent versions of Go,
so that iterating over it returned a random one, breaking the words and
the sentences everywhere.
---
 pango/break.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/pango/break.go b/pango/break.go
index 2e6b18a..414bde2 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -11,6 +11,28 @@ import (
 
 const paragraphSeparator rune = 0x2029
 
+// generalCategories lists the (two letters) general categories of the
+// assigned characters, ordered by frequency.
+// Note that [unicode.Categories] can't be used to look for the category of a character,
+// since it contains overlapping tables (like "LC") and a table for the unassigned characters ("Cn").
+var generalCategories = [...]*unicode.RangeTable{
+	unicode.Ll, unicode.Zs, unicode.Lo, unicode.Lu, unicode.Po, unicode.Nd, unicode.Mn, unicode.Mc,
+	unicode.Pd, unicode.Ps, unicode.Pe, unicode.So, unicode.Sm, unicode.Sc, unicode.Sk, unicode.Lm,
+	unicode.Lt, unicode.Me, unicode.Nl, unicode.No, unicode.Pc, unicode.Pf, unicode.Pi, unicode.Cc,
+	unicode.Cf, unicode.Co, unicode.Cs, unicode.Zl, unicode.Zp,
+}
+
+// generalCategory returns the Unicode general category of `r`, or nil
+// for an unassigned character.
+func generalCategory(r rune) *unicode.RangeTable {
+	for _, table := range generalCategories {
+		if unicode.Is(table, r) {
+			return table
+		}
+	}
+	return nil
+}
+
 const (
 	LineBreak CharAttr = 1 << iota
 	MandatoryBreak
@@ -893,7 +915,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 			nextBreakType = ucd.LookupLineBreakClass(nextWc)
 		}
 
-		type_ := ucd.LookupType(wc)
+		type_ := generalCategory(wc)
 		jamo := ucd.Jamo(breakType)
 
 		/* Determine wheter this forms a Hangul syllable with prev. */
@@ -1452,7 +1474,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 				breakOp = break_PROHIBITED
 			}
 
-			if unicode.Is(ucd.Extended_Pictographic, prevWc) && unicodedata.LookupType(prevWc) == nil &&
+			if unicode.Is(ucd.Extended_Pictographic, prevWc) && generalCategory(prevWc) == nil &&
 				breakType == ucd.BreakEM {
 				breakOp = break_PROHIBITED
 			}
@@ -1759,7 +1781,6 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 				prevPrevBreakType = prevBreakType
 				prevBreakType = breakType
 			}
-			prevJamo = jamo
 		} else {
 			if prevBreakType != ucd.BreakSP {
 				prevPrevBreakType = prevBreakType
-- 
2.43.0


From bf4fd019d7f10d7aec252467877c22ce8a2947e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:40 +0000
Subject: [PATCH 049/123] fix: a space ends an Hangul syllable

---
 pango/break.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pango/break.go b/pango/break.go
index 414bde2..8b39cc1 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -1788,6 +1788,8 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 			}
 			/* else don't change the prevBreakType */
 		}
+		// a space ends an Hangul syllable
+		prevJamo = jamo
 
 		/* ---- Word breaks ---- */
 
-- 
2.43.0


From 2d5e5a7ed2c9f507c4df66be4e16bc51ed963ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:52 +0000
Subject: [PATCH 050/123] fix: the characters attached to CR LF start a word
 segment

---
 pango/break.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pango/break.go b/pango/break.go
index 8b39cc1..61de2a5 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -1262,6 +1262,8 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 					prevWbType = wbType
 					prevWbI = i
 				}
+			} else if wc == '\n' && prevWc == '\r' {
+				prevWbI = i // Rule WB3a applies after CR LF
 			}
 			attrs[i].setWordBoundary(isWordBoundary)
 		}
-- 
2.43.0


From 9e70c1fddfffe6f8efeda37af671ac1c85194a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:19 +0000
Subject: [PATCH 051/123] fix: the Japanese words start where the previous one
 ends

---
 pango/break.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pango/break.go b/pango/break.go
index 61de2a5..fa15eb2 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -1818,6 +1818,8 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 								!japanese(wc)) ||
 							(!japanese(lastWordLetter) &&
 								japanese(wc)) {
+							// the next word starts at once
+							attrs[i].setWordStart(true)
 							attrs[i].setWordEnd(true)
 						}
 					}
-- 
2.43.0


From bc46a4c2edd7a56b84f0d3ddaee428e5bdee1beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:33 +0000
Subject: [PATCH 052/123] fix: keep the marks of the previous sentence when two
 sentences are merged

---
 pango/break.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pango/break.go b/pango/break.go
index fa15eb2..09b091e 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -1324,11 +1324,16 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 					attrs[prevSbI].setSentenceEnd(false)
 					lastSentenceStart = -1
 					for j := prevSbI - 1; j >= 0; j-- {
-						attrs[j].setSentenceEnd(false)
 						if attrs[j].IsSentenceBoundary() {
+							// keep the end of the previous sentence,
+							// and the start of this one, after the spaces
 							lastSentenceStart = j
+							for lastSentenceStart < prevSbI && attrs[lastSentenceStart].IsWhite() {
+								lastSentenceStart++
+							}
 							break
 						}
+						attrs[j].setSentenceEnd(false)
 					}
 				case (prevSbType == sb_ATerm ||
 					prevSbType == sb_ATerm_Close_Sp ||
-- 
2.43.0


From 79af21980aa73d98e96d3d5c88a2842b28659648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 053/123] fix: look for the quote of the rules WB6, WB7 and
 WB11 through the combining marks

---
 pango/break.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pango/break.go b/pango/break.go
index 09b091e..f1b4884 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -1237,18 +1237,18 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 						wbType == wb_Hebrew_Letter)) &&
 					(prevWbType == wb_MidLetter ||
 						prevWbType == wb_MidNumLet ||
-						prevWc == 0x0027) {
+						text[prevWbI] == 0x0027) {
 					attrs[prevWbI].setWordBoundary(false) /* Rule WB6 */
 					isWordBoundary = false                /* Rule WB7 */
 				} else if prevWbType == wb_Hebrew_Letter && wc == 0x0027 {
 					isWordBoundary = false /* Rule WB7a */
-				} else if prevPrevWbType == wb_Hebrew_Letter && prevWc == 0x0022 &&
+				} else if prevPrevWbType == wb_Hebrew_Letter && text[prevWbI] == 0x0022 &&
 					wbType == wb_Hebrew_Letter {
 					attrs[prevWbI].setWordBoundary(false) /* Rule WB7b */
 					isWordBoundary = false                /* Rule WB7c */
 				} else if (prevPrevWbType == wb_Numeric && wbType == wb_Numeric) &&
 					(prevWbType == wb_MidNum || prevWbType == wb_MidNumLet ||
-						prevWc == 0x0027) {
+						text[prevWbI] == 0x0027) {
 					isWordBoundary = false                /* Rule WB11 */
 					attrs[prevWbI].setWordBoundary(false) /* Rule WB12 */
 				} else if prevWbType == wb_RI_Odd && wbType == wb_RI_Even {
-- 
2.43.0


From 614700b31ba68b05fc8c1e98d16a4d3966f79019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:47 +0000
Subject: [PATCH 054/123] fix: AttrList.Change replaces the attributes which
 start inside the new range

---
 pango/attributes.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/pango/attributes.go b/pango/attributes.go
index 3ea81b2..f53ae38 100644
--- a/pango/attributes.go
+++ b/pango/attributes.go
@@ -783,7 +783,7 @@ func (list *AttrList) Change(attr *Attribute) {
 
 	var i, p int
 	inserted := false
-	for i, p = 0, len(*list); i < p; i++ {
+	for i = 0; i < len(*list); i++ {
 		tmp_attr := (*list)[i]
 
 		if tmp_attr.StartIndex > startIndex {
@@ -821,8 +821,9 @@ func (list *AttrList) Change(attr *Attribute) {
 			}
 
 			if tmp_attr.StartIndex == startIndex {
+				// the attributes starting later may still overlap the new one
 				list.remove(i)
-				break
+				i--
 			} else {
 				tmp_attr.EndIndex = startIndex
 			}
@@ -850,11 +851,24 @@ func (list *AttrList) Change(attr *Attribute) {
 
 		if tmp_attr.EndIndex <= attr.EndIndex || tmp_attr.equals(*attr) {
 			/* We can merge the new attribute with this attribute. */
-			attr.EndIndex = max(endIndex, tmp_attr.EndIndex)
+			attr.EndIndex = max(attr.EndIndex, tmp_attr.EndIndex)
 			list.remove(i)
 			i--
 			p--
 			continue
+		} else {
+			// Trim the start of this attribute so that it begins at the end
+			// of the new attribute. This may involve moving it in the list
+			// to maintain the required non-decreasing order of start indices.
+			tmp_attr.StartIndex = attr.EndIndex
+			k := i + 1
+			for ; k < p && (*list)[k].StartIndex < tmp_attr.StartIndex; k++ {
+				(*list)[k-1] = (*list)[k]
+			}
+			(*list)[k-1] = tmp_attr
+			if k-1 > i {
+				i-- // another attribute took the place of this one
+			}
 		}
 	}
 }
-- 
2.43.0


From a1de712d7a44e51b1085944983b2070df71c6919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:50 +0000
Subject: [PATCH 055/123] fix: count once the characters of a cluster to find
 the position of one of them

---
 pango/glyphs.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pango/glyphs.go b/pango/glyphs.go
index 56b9f1f..f2dc49c 100644
--- a/pango/glyphs.go
+++ b/pango/glyphs.go
@@ -486,8 +486,7 @@ func (glyphs *GlyphString) indexToXFull(text []rune, analysis *Analysis, index i
 	// Calculate offset of character within cluster.
 	// To come up with accurate answers here, we need to know grapheme
 	// boundaries.
-	clusterChars := endIndex - startIndex
-	clusterOffset := index - startIndex
+	var clusterChars, clusterOffset int
 
 	for i := startIndex; i < endIndex; i++ {
 		if logAttrs != nil && !logAttrs[i].IsCursorPosition() {
-- 
2.43.0


From 5c8d91d99c9e7eb6c3ca406974368ab5c0aebff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:04 +0000
Subject: [PATCH 056/123] fix: measure the first run of a line from its own
 width when breaking it

---
 pango/layout.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pango/layout.go b/pango/layout.go
index a1bdae2..3ac55b0 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1471,7 +1471,6 @@ func (layout *Layout) tryAddItemToLine(line *LayoutLine, state *paraBreakState,
 
 	// From here on, we look for a way to break item
 
-	width = 0
 	var (
 		orig_width      = width
 		origExtraWidth  = extraWidth
@@ -1500,6 +1499,7 @@ retryBreak:
 	if noBreakAtEnd {
 		limit--
 	}
+	width = 0
 	for numChars = 0; numChars < limit; numChars++ {
 		extraWidth = layout.find_break_extraWidth(state, numChars)
 
@@ -1536,6 +1536,7 @@ retryBreak:
 				breakNumChars = numChars
 				breakWidth = width
 				breakExtraWidth = extraWidth
+				breakGlyphs = nil
 			} else {
 				newItem := item
 				if numChars < item.Length {
-- 
2.43.0


From 2cf6f79caeb244af251198031ed55655cfd895b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:51 +0000
Subject: [PATCH 057/123] fix: do not count on the collapse of the space at the
 very end of a paragraph

---
 pango/layout.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pango/layout.go b/pango/layout.go
index 3ac55b0..a60251e 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1440,6 +1440,9 @@ func (layout *Layout) tryAddItemToLine(line *LayoutLine, state *paraBreakState,
 			processingNewItem = false
 		}
 		extraWidth = layout.find_break_extraWidth(state, item.Length)
+		if isLastItem && extraWidth < 0 {
+			extraWidth = 0 // the space at the very end is not collapsed
+		}
 	}
 
 	if (width+extraWidth <= state.remainingWidth || (item.Length == 1 && line.Runs == nil) ||
-- 
2.43.0


From 36c691a1cc16eaecd22d3da846476815dfc5bed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:30 +0000
Subject: [PATCH 058/123] fix: move the cursor between the lines of right to
 left paragraphs in the right order

---
 pango/layout_cursors.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pango/layout_cursors.go b/pango/layout_cursors.go
index b89d9eb..121b7c1 100644
--- a/pango/layout_cursors.go
+++ b/pango/layout_cursors.go
@@ -154,7 +154,7 @@ func (line *LayoutLine) getCursors(strong bool) []CursorPos {
 		}
 	}
 
-	sort.Slice(cursors, func(i, j int) bool { return cursors[i].x < cursors[j].x })
+	sort.SliceStable(cursors, func(i, j int) bool { return cursors[i].x < cursors[j].x })
 
 	return cursors
 }
@@ -261,10 +261,10 @@ func (layout *Layout) MoveCursorVisually(strong bool,
 		}
 	} else {
 		if oldIndex == line.StartIndex+line.Length && direction < 0 {
-			offStart = true
+			offEnd = true
 		}
 		if oldIndex == line.StartIndex && direction > 0 {
-			offEnd = true
+			offStart = true
 		}
 	}
 
@@ -291,12 +291,12 @@ func (layout *Layout) MoveCursorVisually(strong bool,
 
 		nVis := len(cursors)
 
-		if offStart && direction < 0 {
+		if direction < 0 {
 			visPos = nVis
 			if paragraphBoundary {
 				visPos++
 			}
-		} else if offEnd && direction > 0 {
+		} else {
 			visPos = 0
 			if paragraphBoundary {
 				visPos--
-- 
2.43.0


From d08c9dc0e41662e67484325ea03637d0be71d067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:30 +0000
Subject: [PATCH 059/123] fix: itemize the paragraphs with their resolved
 direction

---
 pango/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/context.go b/pango/context.go
index 05a1feb..1967dcc 100644
--- a/pango/context.go
+++ b/pango/context.go
@@ -979,7 +979,7 @@ func (context *Context) itemizeWithFont(text []rune, startIndex int, desc *FontD
 		return nil
 	}
 
-	state := context.newItemizeState(text, context.baseDir, startIndex, attrs, cachedIter, desc)
+	state := context.newItemizeState(text, baseDir, startIndex, attrs, cachedIter, desc)
 
 	for do := true; do; do = state.next() {
 		state.processRun()
-- 
2.43.0


From bbc8aad8f50dcf3f2b64c1f10ffc7132426cd01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:54 +0000
Subject: [PATCH 060/123] fix: leave the lines of right to left or mixed text
 at the edges when moving the cursor

---
 pango/layout_cursors.go | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/pango/layout_cursors.go b/pango/layout_cursors.go
index 121b7c1..f45e066 100644
--- a/pango/layout_cursors.go
+++ b/pango/layout_cursors.go
@@ -242,12 +242,10 @@ func (layout *Layout) MoveCursorVisually(strong bool,
 	}
 
 	if visPos == -1 &&
-		oldIndex == line.StartIndex+line.Length {
-		if line.ResolvedDir == DIRECTION_LTR {
-			visPos = len(cursors)
-		} else {
-			visPos = 0
-		}
+		oldIndex == line.StartIndex+line.Length &&
+		line.ResolvedDir == DIRECTION_LTR {
+		// for the other direction, the end of the line is before all the cursors
+		visPos = len(cursors)
 	}
 
 	/* Handling movement between lines */
@@ -268,6 +266,12 @@ func (layout *Layout) MoveCursorVisually(strong bool,
 		}
 	}
 
+	// The position at the edge of the line may also be inside its text
+	if newPos := visPos + direction; newPos < 0 && line.ResolvedDir == DIRECTION_LTR ||
+		newPos >= len(cursors) && line.ResolvedDir != DIRECTION_LTR {
+		offStart = true
+	}
+
 	if offStart || offEnd {
 		// If we move over a paragraph boundary, count that as
 		// an extra position in the motion
@@ -277,30 +281,27 @@ func (layout *Layout) MoveCursorVisually(strong bool,
 			if prevLine == nil {
 				return -1, 0
 			}
+			paragraphBoundary = prevLine.StartIndex+prevLine.Length != line.StartIndex
 			line = prevLine
-			paragraphBoundary = (line.StartIndex+line.Length != oldIndex)
 		} else {
 			if nextLine == nil {
 				return MaxInt, 0
 			}
+			paragraphBoundary = nextLine.StartIndex != line.StartIndex+line.Length
 			line = nextLine
-			paragraphBoundary = (line.StartIndex != oldIndex)
 		}
 
 		cursors = line.getCursors(strong)
 
-		nVis := len(cursors)
-
+		// start from the position before the first cursor of the new line,
+		// or from this cursor if it is the end of the previous line
 		if direction < 0 {
-			visPos = nVis
-			if paragraphBoundary {
-				visPos++
-			}
+			visPos = len(cursors)
 		} else {
-			visPos = 0
-			if paragraphBoundary {
-				visPos--
-			}
+			visPos = -1
+		}
+		if offEnd && !paragraphBoundary && len(cursors) != 0 {
+			visPos += direction
 		}
 	}
 
@@ -312,7 +313,7 @@ func (layout *Layout) MoveCursorVisually(strong bool,
 
 	if 0 <= visPos && visPos < len(cursors) {
 		newIndex = cursors[visPos].pos
-	} else if visPos >= len(cursors)-1 {
+	} else {
 		newIndex = line.StartIndex + line.Length
 	}
 
-- 
2.43.0


From a51cc35b58a756c1928e4f4c5917e6c4152acdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:48 +0000
Subject: [PATCH 061/123] fix: use the grapheme boundaries to compute the
 ranges of a line

---
 pango/layout_line.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pango/layout_line.go b/pango/layout_line.go
index 13297c0..ddf2389 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -1296,12 +1296,12 @@ func (line *LayoutLine) GetXRanges(startIndex, endIndex int) []Unit {
 			// back the endIndex off one since we want to find the trailing edge of the preceding character
 			runEndIndex--
 
-			runStartX := run.Glyphs.IndexToX(line.layout.Text[run.Item.Offset:run.Item.Offset+run.Item.Length],
-				&run.Item.Analysis,
-				runStartIndex-run.Item.Offset, false)
-			runEndX := run.Glyphs.IndexToX(line.layout.Text[run.Item.Offset:run.Item.Offset+run.Item.Length],
-				&run.Item.Analysis,
-				runEndIndex-run.Item.Offset, true)
+			runText := line.layout.Text[run.Item.Offset : run.Item.Offset+run.Item.Length]
+			runAttrs := line.layout.logAttrs[run.Item.Offset:]
+			runStartX := run.Glyphs.indexToXFull(runText, &run.Item.Analysis,
+				runStartIndex-run.Item.Offset, false, runAttrs)
+			runEndX := run.Glyphs.indexToXFull(runText, &run.Item.Analysis,
+				runEndIndex-run.Item.Offset, true, runAttrs)
 
 			ranges = append(ranges,
 				xOffset+accumulatedWidth+minG(runStartX, runEndX),
-- 
2.43.0


From 611984701e81f54d9e1a19b6fb369ffcdc0a84fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:22 +0000
Subject: [PATCH 062/123] fix: the trailing edge of a character inside a
 grapheme is the one of the grapheme

---
 pango/glyphs.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pango/glyphs.go b/pango/glyphs.go
index f2dc49c..92218b1 100644
--- a/pango/glyphs.go
+++ b/pango/glyphs.go
@@ -499,7 +499,9 @@ func (glyphs *GlyphString) indexToXFull(text []rune, analysis *Analysis, index i
 		clusterChars++
 	}
 
-	if trailing {
+	// the trailing edge of a character inside a grapheme is the one of
+	// the grapheme, whose start has already been counted
+	if trailing && (logAttrs == nil || logAttrs[index].IsCursorPosition()) {
 		clusterOffset += 1
 	}
 
-- 
2.43.0


From f2c801b96b2a701ebd49c01d097d73326c48fdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:58 +0000
Subject: [PATCH 063/123] fix: move the cursor from the positions which are not
 cursors of their line

---
 pango/layout_cursors.go | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/pango/layout_cursors.go b/pango/layout_cursors.go
index f45e066..871c905 100644
--- a/pango/layout_cursors.go
+++ b/pango/layout_cursors.go
@@ -227,25 +227,20 @@ func (layout *Layout) MoveCursorVisually(strong bool,
 	}
 	layout.GetCursorPos(oldIndex, arg1, arg2)
 
-	visPos := -1
-	for j, cursor := range cursors {
-		if cursor.x == pos.X {
-			visPos = j
-
-			/* If moving left, we pick the leftmost match, otherwise
-			 * the rightmost one. Without this, we can get stuck
-			 */
-			if direction < 0 {
-				break
-			}
+	// If moving left, we pick the leftmost match, otherwise
+	// the rightmost one. Without this, we can get stuck.
+	// If the position is not one of the cursors (for instance inside a grapheme,
+	// or at the end of a wrapped line), we start from the side we come from.
+	var visPos int
+	if direction < 0 {
+		for visPos < len(cursors) && cursors[visPos].x < pos.X {
+			visPos++
+		}
+	} else {
+		visPos = len(cursors) - 1
+		for visPos >= 0 && cursors[visPos].x > pos.X {
+			visPos--
 		}
-	}
-
-	if visPos == -1 &&
-		oldIndex == line.StartIndex+line.Length &&
-		line.ResolvedDir == DIRECTION_LTR {
-		// for the other direction, the end of the line is before all the cursors
-		visPos = len(cursors)
 	}
 
 	/* Handling movement between lines */
-- 
2.43.0


From a0abebb457bc56b38566f48cc64f060546844238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:08 +0000
Subject: [PATCH 064/123] fix: advance in the clusters which are not expanded
 when justifying a line

---
 pango/layout_line.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pango/layout_line.go b/pango/layout_line.go
index ddf2389..1ff241b 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -843,7 +843,11 @@ func (line *LayoutLine) justify_clusters(state *paraBreakState) {
 			} else {
 				haveCluster = clusterIter.InitEnd(run, text)
 			}
-			for haveCluster {
+			nextCluster := clusterIter.NextCluster
+			if dir < 0 {
+				nextCluster = clusterIter.PrevCluster
+			}
+			for ; haveCluster; haveCluster = nextCluster() {
 				/* don't expand in the middle of graphemes */
 				if !logAttrs[offset+clusterIter.StartChar].IsCursorPosition() {
 					continue
@@ -900,12 +904,6 @@ func (line *LayoutLine) justify_clusters(state *paraBreakState) {
 						addedSoFar += spaceRight
 					}
 				}
-
-				if dir > 0 {
-					haveCluster = clusterIter.NextCluster()
-				} else {
-					haveCluster = clusterIter.PrevCluster()
-				}
 			}
 		}
 
-- 
2.43.0


From d5525d7d872ae6e06586c03f8aeb32a2d73cd1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:13 +0000
Subject: [PATCH 065/123] fix: undo the shifts and scales which are undone, and
 shrink the last visible glyph of justified lines

---
 pango/item.go        |  2 +-
 pango/layout_line.go | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pango/item.go b/pango/item.go
index db963aa..4b4e3f8 100644
--- a/pango/item.go
+++ b/pango/item.go
@@ -323,7 +323,7 @@ func (context *Context) collectFontScale(stack *list.List, item, prev *Item) (fl
 	for _, attr := range item.Analysis.ExtraAttrs {
 		if attr.Kind == ATTR_FONT_SCALE {
 			if attr.StartIndex == item.Offset {
-				entry := &scaleItem{attr: attr}
+				entry := &scaleItem{attr: attr, scale: 1}
 				stack.PushFront(entry)
 
 				var (
diff --git a/pango/layout_line.go b/pango/layout_line.go
index 1ff241b..ff26a68 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -802,8 +802,8 @@ func (line *LayoutLine) justify_clusters(state *paraBreakState) {
 		var (
 			residual        Unit
 			leftedge        = true
-			rightmostGlyphs *GlyphString
-			rightmostSpace  Unit
+			rightmostGlyph *GlyphInfo
+			rightmostSpace Unit
 		)
 		addedSoFar = 0
 		gapsSoFar = 0
@@ -897,7 +897,7 @@ func (line *LayoutLine) justify_clusters(state *paraBreakState) {
 					/* Don't add to right-side of right-most glyph of right-most non-zero run. */
 					{
 						/* Save so we can undo later. */
-						rightmostGlyphs = glyphs
+						rightmostGlyph = &glyphs.Glyphs[rightmost]
 						rightmostSpace = spaceRight
 
 						glyphs.Glyphs[rightmost].Geometry.Width += spaceRight
@@ -915,8 +915,8 @@ func (line *LayoutLine) justify_clusters(state *paraBreakState) {
 				return
 			}
 		} else /* mode == ADJUST */ {
-			if rightmostGlyphs != nil {
-				rightmostGlyphs.Glyphs[len(rightmostGlyphs.Glyphs)-1].Geometry.Width -= rightmostSpace
+			if rightmostGlyph != nil {
+				rightmostGlyph.Geometry.Width -= rightmostSpace
 				addedSoFar -= rightmostSpace
 			}
 		}
@@ -1335,7 +1335,7 @@ func (state *paraBreakState) collectBaselineShift(item, prev *Item) (startXOffse
 		} else if attr.Kind == ATTR_BASELINE_SHIFT {
 			if attr.StartIndex == item.Offset {
 
-				entry := baselineItem{attr: attr}
+				entry := &baselineItem{attr: attr}
 				state.baselineShifts.PushFront(entry)
 
 				value := Unit(attr.Data.(AttrInt))
@@ -1381,7 +1381,7 @@ func (state *paraBreakState) collectBaselineShift(item, prev *Item) (startXOffse
 				var t *list.Element
 
 				for t = state.baselineShifts.Front(); t != nil; t = t.Next() {
-					entry := t.Value.(baselineItem)
+					entry := t.Value.(*baselineItem)
 
 					if attr.StartIndex == entry.attr.StartIndex &&
 						attr.EndIndex == entry.attr.EndIndex &&
-- 
2.43.0


From 939fa93b52f38e60097f44042f42689a66cf99c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:19 +0000
Subject: [PATCH 066/123] fix: use the wrap mode to measure the break at the
 end of an item

---
 pango/layout.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/layout.go b/pango/layout.go
index a60251e..00a46ee 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1434,7 +1434,7 @@ func (layout *Layout) tryAddItemToLine(line *LayoutLine, state *paraBreakState,
 
 	var extraWidth Unit
 	if !noBreakAtEnd &&
-		layout.canBreakAt(state.startOffset+item.Length, WRAP_WORD) {
+		layout.canBreakAt(state.startOffset+item.Length, layout.wrap) {
 		if processingNewItem {
 			layout.computeLogWidths(state)
 			processingNewItem = false
-- 
2.43.0


From 989e90d488a35851df0b9c5123b8998a2f09cbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:03 +0000
Subject: [PATCH 067/123] fix: apply the attributes about breaks to the text
 they cover

---
 pango/break.go  | 78 +++++++++++++++++++++++++++++++++++--------------
 pango/layout.go |  2 +-
 2 files changed, 57 insertions(+), 23 deletions(-)

diff --git a/pango/break.go b/pango/break.go
index f1b4884..cc181f4 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -473,6 +473,13 @@ func removeBreaksFromRange(text []rune, logAttrs []CharAttr, startPos, endPos in
 			logAttrs[pos].setLineBreak(false)
 		}
 
+		if pos >= len(text) { // end of the text: there is no character after the break
+			if afterHyphen {
+				logAttrs[pos].setLineBreak(true)
+			}
+			break
+		}
+
 		ch := text[pos]
 		bt := unicodedata.LookupLineBreakClass(ch)
 
@@ -511,29 +518,60 @@ func posFromOffset(start, end, offset int, text []rune, logAttrs []CharAttr) (in
 	return startPos, endPos
 }
 
-func handleAllowBreaks(text []rune, list AttrList, offset int, logAttrs []CharAttr) bool {
-	tailored := false
+// disabledRanges calls `f` for each maximal range of the text (as offsets in `text`)
+// where the value of the boolean attribute `kind` is false.
+// It returns true if there is at least one such range.
+func disabledRanges(text []rune, list AttrList, kind AttrKind, offset int, logAttrs []CharAttr, f func(startPos, endPos int)) bool {
+	found := false
+	start, end := -1, -1
+	flush := func() {
+		if start != -1 {
+			startPos, endPos := posFromOffset(start, end, offset, text, logAttrs)
+			f(startPos, endPos)
+			found = true
+		}
+		start, end = -1, -1
+	}
 
 	iter := list.getIterator()
 	for do := true; do; do = iter.next() {
-		attr := iter.getByKind(ATTR_ALLOW_BREAKS)
-
+		attr := iter.getByKind(kind)
 		if attr == nil || attr.Data.(AttrInt) != 0 {
+			flush()
 			continue
 		}
-		start, end := iter.StartIndex, iter.EndIndex
-		startPos, endPos := posFromOffset(start, end, offset, text, logAttrs)
+		// an attribute may be split in several consecutive ranges, but two adjacent
+		// attributes are distinct ranges
+		if start != -1 {
+			split := false
+			for _, other := range list {
+				if other.Data.(AttrInt) == 0 && other.StartIndex < iter.StartIndex && iter.StartIndex < other.EndIndex {
+					split = true
+					break
+				}
+			}
+			if !split {
+				flush()
+			}
+		}
+		if start == -1 {
+			start = iter.StartIndex
+		}
+		end = iter.EndIndex
+	}
+	flush()
 
+	return found
+}
+
+func handleAllowBreaks(text []rune, list AttrList, offset int, logAttrs []CharAttr) bool {
+	return disabledRanges(text, list, ATTR_ALLOW_BREAKS, offset, logAttrs, func(startPos, endPos int) {
 		for pos := startPos + 1; pos < endPos; pos++ {
 			logAttrs[pos].setCharBreak(false)
 		}
 
 		removeBreaksFromRange(text, logAttrs, startPos, endPos)
-
-		tailored = true
-	}
-
-	return tailored
+	})
 }
 
 func handleWords(text []rune, attrs AttrList, offset int, logAttrs []CharAttr) bool {
@@ -647,7 +685,7 @@ func handleSentences(text []rune, attrs AttrList, offset int, logAttrs []CharAtt
 		}
 		if end < offset+len(text) {
 			inSentence := false
-			for pos := endPos + 1; endPos < len(logAttrs); pos++ {
+			for pos := endPos + 1; pos < len(logAttrs); pos++ {
 				if logAttrs[pos].IsSentenceStart() {
 					break
 				}
@@ -670,15 +708,7 @@ func handleSentences(text []rune, attrs AttrList, offset int, logAttrs []CharAtt
 func handleHyphens(text []rune, attrs AttrList, offset int, logAttrs []CharAttr) bool {
 	tailored := false
 
-	iter := attrs.getIterator()
-	for do := true; do; do = iter.next() {
-		attr := iter.getByKind(ATTR_INSERT_HYPHENS)
-		if attr == nil || attr.Data.(AttrInt) != 0 {
-			continue
-		}
-
-		startPos, endPos := posFromOffset(attr.StartIndex, attr.EndIndex, offset, text, logAttrs)
-
+	disabledRanges(text, attrs, ATTR_INSERT_HYPHENS, offset, logAttrs, func(startPos, endPos int) {
 		for pos := startPos + 1; pos < endPos; pos++ {
 			if !logAttrs[pos].IsBreakRemovesPreceding() {
 				logAttrs[pos].setBreakInsertsHyphen(false)
@@ -686,7 +716,7 @@ func handleHyphens(text []rune, attrs AttrList, offset int, logAttrs []CharAttr)
 				tailored = true
 			}
 		}
-	}
+	})
 
 	return tailored
 }
@@ -695,6 +725,10 @@ func breakAttrs(text []rune, attributes AttrList, offset int, logAttrs []CharAtt
 	var allowBreaks, words, sentences, hyphens AttrList
 
 	for _, attr := range attributes {
+		if attr.EndIndex <= offset || attr.StartIndex >= offset+len(text) {
+			continue // the attribute is for another part of the text
+		}
+
 		switch attr.Kind {
 		case ATTR_ALLOW_BREAKS:
 			allowBreaks.Insert(attr.copy())
diff --git a/pango/layout.go b/pango/layout.go
index 00a46ee..684e9fc 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1839,7 +1839,7 @@ func getItemsLogAttrs(text []rune, start, length int, items *ItemList, logAttrs
 	}
 
 	if items != nil {
-		pango_attr_break(text[start:], attrs, items.Data.Offset, logAttrs)
+		pango_attr_break(text[start:start+length], attrs, items.Data.Offset, logAttrs[:length+1])
 	}
 }
 
-- 
2.43.0


From ae14f8b9e3a9b19b413fc204056a64f30361d270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:48 +0000
Subject: [PATCH 068/123] fix: express the scales and the shifts of
 superscripts and subscripts in the units of the layout, and the clusters of
 transformed text in the text

---
 pango/item.go        | 16 ++++++++--------
 pango/layout_line.go | 21 +++++++++++++++------
 pango/shape.go       |  2 +-
 3 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/pango/item.go b/pango/item.go
index 4b4e3f8..2d12647 100644
--- a/pango/item.go
+++ b/pango/item.go
@@ -328,11 +328,11 @@ func (context *Context) collectFontScale(stack *list.List, item, prev *Item) (fl
 
 				var (
 					hbFont *harfbuzz.Font
-					yScale int32
+					upem   float32
 				)
-				if prev != nil {
+				if prev != nil && prev.Analysis.Font != nil {
 					hbFont = prev.Analysis.Font.GetHarfbuzzFont()
-					yScale = hbFont.YScale
+					upem = float32(hbFont.Face().Upem())
 				}
 
 				switch FontScale(attr.Data.(AttrInt)) {
@@ -341,15 +341,15 @@ func (context *Context) collectFontScale(stack *list.List, item, prev *Item) (fl
 				case FONT_SCALE_SUPERSCRIPT:
 					entry.scale = 1 / 1.2
 					if hbFont != nil {
-						if y_size, ok := hbFont.Face().LineMetric(fonts.SuperscriptEmYSize); ok {
-							entry.scale = y_size / float32(yScale)
+						if y_size, ok := hbFont.Face().LineMetric(fonts.SuperscriptEmYSize); ok && y_size > 0 {
+							entry.scale = y_size / upem
 						}
 					}
 				case FONT_SCALE_SUBSCRIPT:
 					entry.scale = 1 / 1.2
 					if hbFont != nil {
-						if y_size, ok := hbFont.Face().LineMetric(fonts.SubscriptEmYSize); ok {
-							entry.scale = y_size / float32(yScale)
+						if y_size, ok := hbFont.Face().LineMetric(fonts.SubscriptEmYSize); ok && y_size > 0 {
+							entry.scale = y_size / upem
 						}
 					}
 
@@ -358,7 +358,7 @@ func (context *Context) collectFontScale(stack *list.List, item, prev *Item) (fl
 					if hbFont != nil {
 						capHeight, ok1 := hbFont.Face().LineMetric(fonts.CapHeight)
 						xHeight, ok2 := hbFont.Face().LineMetric(fonts.XHeight)
-						if ok1 && ok2 {
+						if ok1 && ok2 && capHeight > 0 && xHeight > 0 {
 							entry.scale = xHeight / float32(capHeight)
 						}
 					}
diff --git a/pango/layout_line.go b/pango/layout_line.go
index ff26a68..0249de4 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -7,6 +7,7 @@ import (
 	"math"
 
 	"github.com/benoitkugler/textlayout/fonts"
+	"github.com/benoitkugler/textlayout/fonts/truetype"
 	"github.com/benoitkugler/textprocessing/fribidi"
 )
 
@@ -1345,12 +1346,20 @@ func (state *paraBreakState) collectBaselineShift(item, prev *Item) (startXOffse
 				} else {
 					var superscriptXOffset, superscriptYOffset, subscriptXOffset, subscriptYOffset float32
 
-					if prev != nil {
-						face := prev.Analysis.Font.GetHarfbuzzFont().Face()
-						superscriptYOffset, _ = face.LineMetric(fonts.SuperscriptEmYSize)
+					if prev != nil && prev.Analysis.Font != nil {
+						hbFont := prev.Analysis.Font.GetHarfbuzzFont()
+						face := hbFont.Face()
+						xScale := float32(hbFont.XScale) / float32(face.Upem())
+						yScale := float32(hbFont.YScale) / float32(face.Upem())
+						if font, ok := face.(*truetype.Font); ok && font.OS2 != nil {
+							superscriptYOffset = yScale * float32(font.OS2.YSuperscriptYOffset)
+						}
 						superscriptXOffset, _ = face.LineMetric(fonts.SuperscriptEmXOffset)
+						superscriptXOffset *= xScale
 						subscriptYOffset, _ = face.LineMetric(fonts.SubscriptEmYOffset)
+						subscriptYOffset *= yScale
 						subscriptXOffset, _ = face.LineMetric(fonts.SubscriptEmXOffset)
+						subscriptXOffset *= xScale
 					}
 
 					if superscriptYOffset == 0 {
@@ -1388,10 +1397,10 @@ func (state *paraBreakState) collectBaselineShift(item, prev *Item) (startXOffse
 						attr.Data.(AttrInt) == entry.attr.Data.(AttrInt) {
 						endXOffset -= entry.xOffset
 						endYOffset -= entry.yOffset
-					}
 
-					state.baselineShifts.Remove(t)
-					break
+						state.baselineShifts.Remove(t)
+						break
+					}
 				}
 				if t == nil && debugMode {
 					log.Println("Baseline attributes mismatch")
diff --git a/pango/shape.go b/pango/shape.go
index 3a06880..c4796bc 100644
--- a/pango/shape.go
+++ b/pango/shape.go
@@ -186,7 +186,7 @@ func (glyphs *GlyphString) harfbuzzShape(analysis *Analysis, paragraphText []run
 					ch = unicode.ToTitle(ch)
 				}
 			}
-			cachedBuffer.AddRune(ch, i)
+			cachedBuffer.AddRune(ch, itemOffset+i)
 		}
 	}
 
-- 
2.43.0


From be5b2c0903d0681845f278d393045b4aa2042588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:48 +0000
Subject: [PATCH 069/123] fix: do not modify the attributes nor cut the
 graphemes when ellipsizing, and measure the graphemes which cover several
 runs

---
 pango/ellipsize.go   |  3 ++-
 pango/layout_line.go | 24 +++++++++++++-----------
 pango/shape.go       |  2 +-
 3 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/pango/ellipsize.go b/pango/ellipsize.go
index aa62b6a..829ca0f 100644
--- a/pango/ellipsize.go
+++ b/pango/ellipsize.go
@@ -192,7 +192,7 @@ func (state ellipsizeState) endsAtEllipsizationBoundary(iter lineIter) bool {
 		return true
 	}
 
-	return state.layout.logAttrs[runInfo.startOffset+iter.runIter.EndChar+1].IsCursorPosition()
+	return state.layout.logAttrs[runInfo.startOffset+iter.runIter.EndChar].IsCursorPosition()
 }
 
 // helper function to re-itemize a string of text
@@ -222,6 +222,7 @@ func (state *ellipsizeState) shapeEllipsis() {
 	// Create an attribute list
 	runAttrs := state.gapStartAttr.getAttributes()
 	for _, attr := range runAttrs {
+		attr = attr.copy() // do not modify the attributes of the layout
 		attr.StartIndex = 0
 		attr.EndIndex = MaxInt
 		attrs.Insert(attr)
diff --git a/pango/layout_line.go b/pango/layout_line.go
index 0249de4..57becf1 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -1203,21 +1203,23 @@ func (line *LayoutLine) IndexToX(index int, trailing bool) Unit {
 	layout := line.layout
 	var width Unit
 
+	// use the edges of the grapheme, which may cover several runs
+	if lineEnd := line.StartIndex + line.Length; line.StartIndex <= index && index < lineEnd {
+		if trailing {
+			for index+1 < lineEnd && !layout.logAttrs[index+1].IsCursorPosition() {
+				index++
+			}
+		} else {
+			for index > line.StartIndex && !layout.logAttrs[index].IsCursorPosition() {
+				index--
+			}
+		}
+	}
+
 	for runList := line.Runs; runList != nil; runList = runList.Next {
 		run := runList.Data
 
 		if run.Item.Offset <= index && run.Item.Offset+run.Item.Length > index {
-			if trailing {
-				for index < line.StartIndex+line.Length && index+1 < len(layout.Text) &&
-					!layout.logAttrs[index+1].IsCursorPosition() {
-					index++
-				}
-			} else {
-				for index > line.StartIndex && !layout.logAttrs[index].IsCursorPosition() {
-					index--
-				}
-			}
-
 			attrOffset := run.Item.Offset
 			xPos := run.Glyphs.indexToXFull(layout.Text[attrOffset:attrOffset+run.Item.Length],
 				&run.Item.Analysis, index-attrOffset, trailing, layout.logAttrs[attrOffset:])
diff --git a/pango/shape.go b/pango/shape.go
index c4796bc..b8b177d 100644
--- a/pango/shape.go
+++ b/pango/shape.go
@@ -182,7 +182,7 @@ func (glyphs *GlyphString) harfbuzzShape(analysis *Analysis, paragraphText []run
 			case TEXT_TRANSFORM_UPPERCASE:
 				ch = unicode.ToUpper(ch)
 			case TEXT_TRANSFORM_CAPITALIZE:
-				if logAttrs[i].IsWordStart() {
+				if i < len(logAttrs) && logAttrs[i].IsWordStart() {
 					ch = unicode.ToTitle(ch)
 				}
 			}
-- 
2.43.0


From 3405e682fecf2951a0124eec5f7f6e14c9b65f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:17 +0000
Subject: [PATCH 070/123] fix: tab stops on lines which overflow

line_width relied on remainingWidth, which does not tell the width of a
line once it overflows: always sum the runs.
---
 pango/layout_line.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pango/layout_line.go b/pango/layout_line.go
index 57becf1..eeb8cdf 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -220,13 +220,10 @@ func (line *LayoutLine) setResolvedDir(direction Direction) {
 	}
 }
 
-func (line *LayoutLine) line_width(state *paraBreakState) Unit {
-	if state.remainingWidth > -1 {
-		return state.lineWidth - state.remainingWidth
-	}
-
+func (line *LayoutLine) line_width() Unit {
 	// Compute the width of the line currently - inefficient, but easier
 	// than keeping the current width of the line up to date everywhere
+	// (state.remainingWidth does not tell it when the line overflows)
 	var width Unit
 	for l := line.Runs; l != nil; l = l.Next {
 		width += l.Data.Glyphs.getWidth()
@@ -240,7 +237,7 @@ func (line *LayoutLine) shapeRun(state *paraBreakState, item *Item) *GlyphString
 	glyphs := &GlyphString{}
 
 	if layout.Text[item.Offset] == '\t' {
-		line.shapeTab(&state.lastTab, &state.properties, line.line_width(state), item, glyphs)
+		line.shapeTab(&state.lastTab, &state.properties, line.line_width(), item, glyphs)
 	} else {
 		shapeFlag := shapeNONE
 
-- 
2.43.0


From 8c3cac4ba9de0a5cdc738822dfa592b0fa78b4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:17 +0000
Subject: [PATCH 071/123] fix: width of the hyphen when breaking between items

hyphen_width was kept from an item to the next one, and the hyphen of a
break at the start of an item goes to the previous run.
---
 pango/layout.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pango/layout.go b/pango/layout.go
index 684e9fc..f3547af 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1268,12 +1268,16 @@ func (state *paraBreakState) ensure_hyphen_width() {
 	}
 }
 
-func (layout *Layout) find_break_extraWidth(state *paraBreakState, pos int) Unit {
+func (layout *Layout) find_break_extraWidth(line *LayoutLine, state *paraBreakState, pos int) Unit {
 	// Check whether to insert a hyphen
 	// or whether we are breaking after one of those
 	// characters that turn into a hyphen,
 	// or after a space.
 	if attr := layout.logAttrs[state.startOffset+pos]; attr.IsBreakInsertsHyphen() {
+		if pos == 0 && line.Runs != nil {
+			// the hyphen goes at the end of the previous run
+			return line.Runs.Data.Item.find_hyphen_width()
+		}
 		state.ensure_hyphen_width()
 
 		if attr.IsBreakRemovesPreceding() && pos > 0 {
@@ -1390,6 +1394,7 @@ func (layout *Layout) tryAddItemToLine(line *LayoutLine, state *paraBreakState,
 		state.glyphs = line.shapeRun(state, item)
 
 		state.logWidthsOffset = 0
+		state.hyphen_width = -1 // it depends on the font of the item
 
 		processingNewItem = true
 	}
@@ -1439,7 +1444,7 @@ func (layout *Layout) tryAddItemToLine(line *LayoutLine, state *paraBreakState,
 			layout.computeLogWidths(state)
 			processingNewItem = false
 		}
-		extraWidth = layout.find_break_extraWidth(state, item.Length)
+		extraWidth = layout.find_break_extraWidth(line, state, item.Length)
 		if isLastItem && extraWidth < 0 {
 			extraWidth = 0 // the space at the very end is not collapsed
 		}
@@ -1504,7 +1509,7 @@ retryBreak:
 	}
 	width = 0
 	for numChars = 0; numChars < limit; numChars++ {
-		extraWidth = layout.find_break_extraWidth(state, numChars)
+		extraWidth = layout.find_break_extraWidth(line, state, numChars)
 
 		// We don't want to walk the entire item if we can help it, but
 		// we need to keep going at least until we've found a breakpoint
-- 
2.43.0


From 19df6781faf30c00d4466f57e430a61c01474241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:17 +0000
Subject: [PATCH 072/123] fix: do not count the break extra width inside a line

When the whole item is put on the line, which may go on, there is no
hyphen or collapsed space after it.
---
 pango/layout.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pango/layout.go b/pango/layout.go
index f3547af..14943dd 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1627,7 +1627,10 @@ retryBreak:
 
 	if forceFit || breakWidth+breakExtraWidth <= state.remainingWidth /* Successfully broke the item */ {
 		if state.remainingWidth >= 0 {
-			state.remainingWidth -= breakWidth + breakExtraWidth
+			state.remainingWidth -= breakWidth
+			if breakNumChars != item.Length { // otherwise, the line may go on
+				state.remainingWidth -= breakExtraWidth
+			}
 			state.remainingWidth = maxG(state.remainingWidth, 0)
 		}
 
-- 
2.43.0


From 5451fe2689d5e13dd1e07ff0d5e7493599b55bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:17 +0000
Subject: [PATCH 073/123] fix: no hyphen inside a line after an item forced on
 it

The hyphen is added by addMissingHyphen if the line breaks there.
---
 pango/layout.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pango/layout.go b/pango/layout.go
index 14943dd..473d6d7 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1635,9 +1635,7 @@ retryBreak:
 		}
 
 		if breakNumChars == item.Length {
-			if layout.canBreakAt(state.startOffset+breakNumChars, wrap) && layout.breakNeedsHyphen(state, breakNumChars) {
-				item.Analysis.Flags |= AFNeedHyphen
-			}
+			// the hyphen, if needed, is added by postprocess: the line may go on after this item
 			line.insertRun(state, item, nil, true)
 
 			if debugMode {
-- 
2.43.0


From 1b8f3869f8a54b024e84471de0ea1c9e5a2c1d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 074/123] fix: justify the lines from their actual width

remainingWidth ignored the space collapsed or the hyphen added at the
end of the line, so that the justified lines fell short or overflowed.
---
 pango/layout_line.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pango/layout_line.go b/pango/layout_line.go
index eeb8cdf..91ac080 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -478,10 +478,9 @@ func (line *LayoutLine) postprocess(state *paraBreakState, wrapped bool) {
 
 	// Distribute extra space between words if justifying and line was wrapped
 	if line.layout.Justify && (wrapped || ellipsized || line.layout.JustifyLastLine) {
-		/* if we ellipsized, we don't have remaining_width set */
-		if state.remainingWidth < 0 {
-			state.remainingWidth = state.lineWidth - line.getWidth()
-		}
+		// remainingWidth is not set if we ellipsized, and ignores the collapsed space or the hyphen
+		// of the end of the line
+		state.remainingWidth = state.lineWidth - line.getWidth()
 
 		line.justifyWords(state)
 	}
-- 
2.43.0


From a8cf682c34aad290dd5db77f8ab940aa621cc870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 075/123] fix: trailing edge of the clusters inside a grapheme

The last cluster of a grapheme may have a width, for instance when a
hyphen follows it.
---
 pango/glyphs.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pango/glyphs.go b/pango/glyphs.go
index 92218b1..6787d22 100644
--- a/pango/glyphs.go
+++ b/pango/glyphs.go
@@ -505,7 +505,10 @@ func (glyphs *GlyphString) indexToXFull(text []rune, analysis *Analysis, index i
 		clusterOffset += 1
 	}
 
-	if clusterChars == 0 /* pedantic */ {
+	if clusterChars == 0 { // the cluster is inside a grapheme
+		if trailing {
+			return endXpos
+		}
 		return startXpos
 	}
 
-- 
2.43.0


From cb82cfb4cb80afcdcd61d501bc7de51b5aff05c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 076/123] fix: no range up to the width of the layouts without
 width

---
 pango/layout_line.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/layout_line.go b/pango/layout_line.go
index 91ac080..9de36e7 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -1311,7 +1311,7 @@ func (line *LayoutLine) GetXRanges(startIndex, endIndex int) []Unit {
 		}
 	}
 
-	if xOffset+lineWidth < line.layout.Width &&
+	if line.layout.Width >= 0 && xOffset+lineWidth < line.layout.Width &&
 		((line.ResolvedDir == DIRECTION_LTR && endIndex > lineStartIndex+line.Length) ||
 			(line.ResolvedDir == DIRECTION_RTL && startIndex < lineStartIndex)) {
 		ranges = append(ranges, xOffset+lineWidth, line.layout.Width)
-- 
2.43.0


From b5f3f6294ec66cbec8d46dedeea09aaa81740444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 077/123] fix: leave the layout when moving the weak cursor off
 the end of a line

---
 pango/layout_cursors.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pango/layout_cursors.go b/pango/layout_cursors.go
index 871c905..9091a03 100644
--- a/pango/layout_cursors.go
+++ b/pango/layout_cursors.go
@@ -262,9 +262,15 @@ func (layout *Layout) MoveCursorVisually(strong bool,
 	}
 
 	// The position at the edge of the line may also be inside its text
-	if newPos := visPos + direction; newPos < 0 && line.ResolvedDir == DIRECTION_LTR ||
-		newPos >= len(cursors) && line.ResolvedDir != DIRECTION_LTR {
-		offStart = true
+	if newPos := visPos + direction; newPos < 0 || newPos >= len(cursors) {
+		if (newPos < 0) == (line.ResolvedDir == DIRECTION_LTR) {
+			offStart = true
+		} else {
+			// the end of the wrapped lines, which is not in cursors, comes after the others
+			for _, c := range cursors {
+				offEnd = offEnd || c.pos == line.StartIndex+line.Length
+			}
+		}
 	}
 
 	if offStart || offEnd {
-- 
2.43.0


From e532f3853652a2dd166d35106348e7e67676a89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:13 +0000
Subject: [PATCH 078/123] fix: copy the tab array given to the layouts

---
 pango/tabs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pango/tabs.go b/pango/tabs.go
index ff14e27..a70b55f 100644
--- a/pango/tabs.go
+++ b/pango/tabs.go
@@ -40,10 +40,10 @@ func (tabs *TabArray) Copy() *TabArray {
 	if tabs == nil {
 		return nil
 	}
-	copy := tabs
+	copy := *tabs
 	copy.Tabs = append([]Tab(nil), tabs.Tabs...)
 
-	return copy
+	return &copy
 }
 
 // sort ensure that the tab stops are in increasing order.
-- 
2.43.0


From 2df2d06dd3054cb20a0ab25cbc6a003c25b748e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:13 +0000
Subject: [PATCH 079/123] fix: keep the font metrics computed while those of
 another language are

---
 pango/fcfonts/fonts.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pango/fcfonts/fonts.go b/pango/fcfonts/fonts.go
index d08df5c..8ab2131 100644
--- a/pango/fcfonts/fonts.go
+++ b/pango/fcfonts/fonts.go
@@ -475,13 +475,14 @@ func (font *Font) GetMetrics(lang pango.Language) pango.FontMetrics {
 	/* Note: we need to add info to the list before calling
 	* into PangoLayout below, to prevent recursion */
 	font.metricsByLang = append(font.metricsByLang, fcMetricsInfo{})
-	info := &font.metricsByLang[len(font.metricsByLang)-1]
-	info.sampleStr = sampleStr
+	index := len(font.metricsByLang) - 1
+	font.metricsByLang[index].sampleStr = sampleStr
 
 	context := pango.NewContext(fontmap)
 	context.SetLanguage(lang)
 
-	info.metrics = font.getFaceMetrics()
+	metrics := font.getFaceMetrics()
+	font.metricsByLang[index].metrics = metrics
 
 	// Compute derived metrics
 	desc := font.Describe(true)
@@ -493,12 +494,15 @@ func (font *Font) GetMetrics(lang pango.Language) pango.FontMetrics {
 	var extents pango.Rectangle
 	layout.GetExtents(nil, &extents)
 	sampleStrWidth := pango.Unit(len([]rune(sampleStr)))
-	info.metrics.ApproximateCharWidth = extents.Width / sampleStrWidth
+	metrics.ApproximateCharWidth = extents.Width / sampleStrWidth
 
 	layout.SetText("0123456789")
-	info.metrics.ApproximateDigitWidth = pango.Unit(maxGlyphWidth(layout))
+	metrics.ApproximateDigitWidth = pango.Unit(maxGlyphWidth(layout))
 
-	return info.metrics
+	// the slice may have been reallocated by the calls for the other languages
+	font.metricsByLang[index].metrics = metrics
+
+	return metrics
 }
 
 // The code in this function is partly based on code from Xft,
-- 
2.43.0


From a5bc35221396e5a5d0b8eedd541b561a2a773716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:13 +0000
Subject: [PATCH 080/123] fix: reset the reused log attributes

---
 pango/layout.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pango/layout.go b/pango/layout.go
index 473d6d7..4e94992 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1910,6 +1910,9 @@ func (layout *Layout) checkLines() {
 		L := len(layout.Text) + 1
 		if cap(layout.logAttrs) >= L {
 			layout.logAttrs = layout.logAttrs[:L]
+			for i := range layout.logAttrs {
+				layout.logAttrs[i] = 0
+			}
 		} else {
 			layout.logAttrs = make([]CharAttr, L)
 		}
-- 
2.43.0


From ebed8a09c3087083d4f6f40249d92e6316c448aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:13 +0000
Subject: [PATCH 081/123] fix: update the ellipsis of the lines which are too
 long without being wrapped

---
 pango/layout.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/layout.go b/pango/layout.go
index 4e94992..4d4671f 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -344,7 +344,7 @@ func (layout *Layout) SetEllipsize(ellipsize EllipsizeMode) {
 	if ellipsize != layout.ellipsize {
 		layout.ellipsize = ellipsize
 
-		if layout.isEllipsized || layout.isWrapped {
+		if layout.Width != -1 {
 			layout.layoutChanged()
 		}
 	}
-- 
2.43.0


From 542b5a73f85692e251f1d2b3fd5ebfc3f390b628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:14 +0000
Subject: [PATCH 082/123] fix: update the ellipsis of the last allowed line

---
 pango/layout.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/layout.go b/pango/layout.go
index 4d4671f..669e502 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -300,7 +300,7 @@ func (layout *Layout) SetHeight(height Unit) {
 		* Bug 549003
 		 */
 		if layout.ellipsize != ELLIPSIZE_NONE &&
-			!(layout.isEllipsized == false && height < 0 && len(layout.lines) <= -int(height)) {
+			!(layout.isEllipsized == false && height < 0 && len(layout.lines) < -int(height)) {
 			layout.layoutChanged()
 		}
 	}
-- 
2.43.0


From 8f24cf717cf380176a6f8a181f7a7bcba6cdccfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:14 +0000
Subject: [PATCH 083/123] fix: do not ignore the fields set in a new font
 description

---
 pango/context.go | 2 +-
 pango/layout.go  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pango/context.go b/pango/context.go
index 1967dcc..046ffc7 100644
--- a/pango/context.go
+++ b/pango/context.go
@@ -230,7 +230,7 @@ func (context *Context) GetLanguage() Language { return context.setLanguage }
 // SetFontDescription sets the default font description for the context,
 // which is used during itemization when no other font information is available.
 func (context *Context) SetFontDescription(desc FontDescription) {
-	if !desc.pango_font_description_equal(context.fontDesc) {
+	if !desc.pango_font_description_equal(context.fontDesc) || desc.mask != context.fontDesc.mask {
 		context.contextChanged()
 		context.fontDesc = desc
 	}
diff --git a/pango/layout.go b/pango/layout.go
index 669e502..2fa765d 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -134,7 +134,8 @@ func NewLayout(context *Context) *Layout {
 // SetFontDescription sets the default font description for the layout.
 // If `nil`, the font description from the layout's context is used.
 func (layout *Layout) SetFontDescription(desc *FontDescription) {
-	if desc != nil && layout.fontDesc != nil && desc.pango_font_description_equal(*layout.fontDesc) {
+	if desc != nil && layout.fontDesc != nil && desc.pango_font_description_equal(*layout.fontDesc) &&
+		desc.mask == layout.fontDesc.mask {
 		return
 	}
 
-- 
2.43.0


From 4c424e0322a40de03dfaa6394e3940c25db4f122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:49 +0000
Subject: [PATCH 084/123] fix: break the lines again when more lines are
 allowed

---
 pango/layout.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pango/layout.go b/pango/layout.go
index 2fa765d..3e7e8fa 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -294,14 +294,16 @@ func (layout *Layout) SetWidth(width Unit) {
 // future.
 func (layout *Layout) SetHeight(height Unit) {
 	if height != layout.Height {
+		oldHeight := layout.Height
 		layout.Height = height
 
-		/* Do not invalidate if the number of lines requested is
+		/* Do not invalidate if the number of lines requested, before and now, is
 		* larger than the total number of lines in layout.
 		* Bug 549003
 		 */
 		if layout.ellipsize != ELLIPSIZE_NONE &&
-			!(layout.isEllipsized == false && height < 0 && len(layout.lines) < -int(height)) {
+			!(layout.isEllipsized == false && height < 0 && len(layout.lines) < -int(height) &&
+				oldHeight < 0 && len(layout.lines) < -int(oldHeight)) {
 			layout.layoutChanged()
 		}
 	}
-- 
2.43.0


From 8327437125e18b5e6e952fde0e465ee2d73d50c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:13 +0000
Subject: [PATCH 085/123] fix: measure the lines again once the underlines are
 applied

---
 pango/layout.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pango/layout.go b/pango/layout.go
index 3e7e8fa..449521a 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1873,6 +1873,7 @@ func (layout *Layout) applyAttributesToRuns(attrs AttrList) {
 	for _, line := range layout.lines {
 		old_runs := line.Runs.reverse()
 		line.Runs = nil
+		line.cacheStatus = notCached // the ink may change
 		for rl := old_runs; rl != nil; rl = rl.Next {
 			glyph_item := rl.Data
 
-- 
2.43.0


From 0c92e5a492833bb820d76cc6b45239577f08db5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:59 +0000
Subject: [PATCH 086/123] fix: update the number of lines when the height of
 the layout is set or unset

---
 pango/layout.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pango/layout.go b/pango/layout.go
index 449521a..b70ac87 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -301,7 +301,7 @@ func (layout *Layout) SetHeight(height Unit) {
 		* larger than the total number of lines in layout.
 		* Bug 549003
 		 */
-		if layout.ellipsize != ELLIPSIZE_NONE &&
+		if (layout.ellipsize != ELLIPSIZE_NONE || height >= 0 || oldHeight >= 0) &&
 			!(layout.isEllipsized == false && height < 0 && len(layout.lines) < -int(height) &&
 				oldHeight < 0 && len(layout.lines) < -int(oldHeight)) {
 			layout.layoutChanged()
@@ -347,7 +347,7 @@ func (layout *Layout) SetEllipsize(ellipsize EllipsizeMode) {
 	if ellipsize != layout.ellipsize {
 		layout.ellipsize = ellipsize
 
-		if layout.Width != -1 {
+		if layout.Width != -1 || layout.Height >= 0 {
 			layout.layoutChanged()
 		}
 	}
-- 
2.43.0


From 957326bec868da1869dcbf9e8096c76c8df77fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:37 +0000
Subject: [PATCH 087/123] fix: visual order of the clusters of the
 right-to-left shapes

---
 pango/glyphs.go      | 6 +++++-
 pango/layout_line.go | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pango/glyphs.go b/pango/glyphs.go
index 6787d22..d8ee660 100644
--- a/pango/glyphs.go
+++ b/pango/glyphs.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/benoitkugler/textlayout/fonts"
 	"github.com/benoitkugler/textlayout/harfbuzz"
+	"github.com/benoitkugler/textprocessing/fribidi"
 )
 
 // Glyph represents a single glyph in the output form of a str.
@@ -254,7 +255,7 @@ func (glyphs *GlyphString) shapeWithFlags(paragraphText []rune, itemOffset, item
 	glyphs.shapeInternal(paragraphText, itemOffset, itemLength, analysis, nil, 0, flags)
 }
 
-func (glyphs *GlyphString) _pango_shape_shape(text []rune, shapeLogical Rectangle) {
+func (glyphs *GlyphString) _pango_shape_shape(text []rune, shapeLogical Rectangle, level fribidi.Level) {
 	glyphs.setSize(len(text))
 
 	for i := range text {
@@ -264,6 +265,9 @@ func (glyphs *GlyphString) _pango_shape_shape(text []rune, shapeLogical Rectangl
 		glyphs.Glyphs[i].Geometry.Width = Unit(shapeLogical.Width)
 		glyphs.Glyphs[i].attr.isClusterStart = true
 		glyphs.LogClusters[i] = i
+		if level%2 != 0 { // the glyphs are in visual order
+			glyphs.LogClusters[i] = len(text) - 1 - i
+		}
 	}
 }
 
diff --git a/pango/layout_line.go b/pango/layout_line.go
index 9de36e7..b52a8c0 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -245,7 +245,8 @@ func (line *LayoutLine) shapeRun(state *paraBreakState, item *Item) *GlyphString
 			shapeFlag |= shapeROUND_POSITIONS
 		}
 		if state.properties.shape != nil {
-			glyphs._pango_shape_shape(layout.Text[item.Offset:item.Offset+item.Length], state.properties.shape.logical)
+			glyphs._pango_shape_shape(layout.Text[item.Offset:item.Offset+item.Length], state.properties.shape.logical,
+				item.Analysis.Level)
 		} else {
 			item.Shape(layout.Text, layout.logAttrs[state.startOffset:], glyphs, shapeFlag)
 		}
-- 
2.43.0


From ab62ef85e896af45ba95f77aca1e3087c6b3ceef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:27 +0000
Subject: [PATCH 088/123] fix: do not ignore the order of the new attributes

---
 pango/layout.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pango/layout.go b/pango/layout.go
index b70ac87..b8597a4 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -662,12 +662,8 @@ func (layout *Layout) SetAttributes(attrs AttrList) {
 		return
 	}
 
-	if layout.Attributes.pango_attr_list_equal(attrs) {
-		return
-	}
-
 	// We always clear lines such that this function can be called
-	// whenever attrs changes.
+	// whenever attrs changes, including the order of overlapping attributes.
 	layout.Attributes = attrs
 	layout.layoutChanged()
 	layout.tabWidth = -1
-- 
2.43.0


From 75a4c6bd6fd9d288cde8fe13ac93e7689e1090de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:35 +0000
Subject: [PATCH 089/123] fix: keep the breaks between words when wrapping
 between characters

---
 pango/layout.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pango/layout.go b/pango/layout.go
index b8597a4..a6b38e5 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1529,7 +1529,9 @@ retryBreak:
 		}
 
 		// If there are no previous runs we have to take care to grab at least one char.
-		if layout.canBreakAt(state.startOffset+numChars, wrap) &&
+		// The breaks between words are kept when trying again with the breaks between characters:
+		// the attributes may forbid the later only.
+		if (layout.canBreakAt(state.startOffset+numChars, wrap) || layout.canBreakAt(state.startOffset+numChars, layout.wrap)) &&
 			(numChars > 0 || line.Runs != nil) {
 
 			if debugMode {
-- 
2.43.0


From 9a58d1c6cc59001f9d3aa7d5014698afb28e0ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:13 +0000
Subject: [PATCH 090/123] fix: write the gravity of the font descriptions

---
 pango/fonts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/fonts.go b/pango/fonts.go
index f205fd4..c44f895 100644
--- a/pango/fonts.go
+++ b/pango/fonts.go
@@ -525,7 +525,7 @@ func (desc FontDescription) String() string {
 	}
 	if desc.mask&FmGravity != 0 {
 		if s := GravityMap.ToString("gravity", int(desc.Gravity)); s != "" {
-			chunks = append(chunks)
+			chunks = append(chunks, s)
 		}
 	}
 
-- 
2.43.0


From 4a38e5b76a0c2f3cfd6c5a9af992f670e843c7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:13 +0000
Subject: [PATCH 091/123] fix: trim the trailing commas of the families of a
 font description

---
 pango/fonts.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pango/fonts.go b/pango/fonts.go
index c44f895..f04482d 100644
--- a/pango/fonts.go
+++ b/pango/fonts.go
@@ -414,8 +414,10 @@ func NewFontDescriptionFrom(str string) FontDescription {
 		for i, f := range families {
 			families[i] = strings.TrimSpace(f)
 		}
-		desc.FamilyName = strings.Join(families, ",")
-		desc.mask |= FmFamily
+		for len(families) != 0 && families[len(families)-1] == "" {
+			families = families[:len(families)-1]
+		}
+		desc.SetFamily(strings.Join(families, ","))
 	}
 
 	return desc
-- 
2.43.0


From 43b17c48a3e48725e99225bd212b660bd9023d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:13 +0000
Subject: [PATCH 092/123] fix: NaN is no font size

---
 pango/fonts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/fonts.go b/pango/fonts.go
index f04482d..802311a 100644
--- a/pango/fonts.go
+++ b/pango/fonts.go
@@ -385,7 +385,7 @@ func NewFontDescriptionFrom(str string) FontDescription {
 		size, err := strconv.ParseFloat(word, 64)
 		if err != nil {
 			// just ignore invalid floats: they maybe do not refers to a size
-		} else if size < 0 || size > 1000000 {
+		} else if !(size >= 0 && size <= 1000000) { // this includes NaN
 			log.Println("invalid size value:", size)
 		} else { // word is a valid float
 			desc.Size = int32(size*Scale + 0.5)
-- 
2.43.0


From 5fb2f196bbe77b34cdefad622b91430055ced843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:13 +0000
Subject: [PATCH 093/123] fix: hyphens are no style words

---
 pango/fonts.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pango/fonts.go b/pango/fonts.go
index 802311a..ee3f738 100644
--- a/pango/fonts.go
+++ b/pango/fonts.go
@@ -428,6 +428,9 @@ func (desc *FontDescription) find_field_any(str string) bool {
 		return true
 	}
 	// try each of the possible field
+	if strings.Trim(str, "-") == "" { // do not match the empty names
+		return false
+	}
 	if v, ok := weight_map.FromString(str); ok {
 		desc.SetWeight(Weight(v))
 		return true
-- 
2.43.0


From 95bb3434ccf6eff4c70333a165422a9b4035b742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:13 +0000
Subject: [PATCH 094/123] fix: read the documented gravity words of the font
 descriptions

---
 pango/fonts.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pango/fonts.go b/pango/fonts.go
index ee3f738..eb214a7 100644
--- a/pango/fonts.go
+++ b/pango/fonts.go
@@ -423,6 +423,18 @@ func NewFontDescriptionFrom(str string) FontDescription {
 	return desc
 }
 
+// words understood as gravity values in font descriptions
+var fontGravityMap = enumMap{
+	{value: int(GRAVITY_SOUTH), str: "Not-Rotated"},
+	{value: int(GRAVITY_SOUTH), str: "South"},
+	{value: int(GRAVITY_NORTH), str: "Upside-Down"},
+	{value: int(GRAVITY_NORTH), str: "North"},
+	{value: int(GRAVITY_EAST), str: "Rotated-Left"},
+	{value: int(GRAVITY_EAST), str: "East"},
+	{value: int(GRAVITY_WEST), str: "Rotated-Right"},
+	{value: int(GRAVITY_WEST), str: "West"},
+}
+
 func (desc *FontDescription) find_field_any(str string) bool {
 	if fieldMatches("Normal", str) {
 		return true
@@ -447,7 +459,7 @@ func (desc *FontDescription) find_field_any(str string) bool {
 		desc.SetVariant(Variant(v))
 		return true
 	}
-	if v, ok := GravityMap.FromString(str); ok {
+	if v, ok := fontGravityMap.FromString(str); ok {
 		desc.SetGravity(Gravity(v))
 		return true
 	}
@@ -529,7 +541,7 @@ func (desc FontDescription) String() string {
 		chunks = append(chunks, s)
 	}
 	if desc.mask&FmGravity != 0 {
-		if s := GravityMap.ToString("gravity", int(desc.Gravity)); s != "" {
+		if s := fontGravityMap.ToString("gravity", int(desc.Gravity)); s != "" {
 			chunks = append(chunks, s)
 		}
 	}
-- 
2.43.0


From 242c7ddeb37999cce96bbd09f3a219fd11c443ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:13 +0000
Subject: [PATCH 095/123] fix: read back the numeric weights of the font
 descriptions

---
 pango/fonts.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pango/fonts.go b/pango/fonts.go
index eb214a7..bd870f3 100644
--- a/pango/fonts.go
+++ b/pango/fonts.go
@@ -447,6 +447,12 @@ func (desc *FontDescription) find_field_any(str string) bool {
 		desc.SetWeight(Weight(v))
 		return true
 	}
+	if strings.HasPrefix(str, "weight=") { // as written by String()
+		if v, err := strconv.ParseInt(str[len("weight="):], 10, 32); err == nil {
+			desc.SetWeight(Weight(v))
+			return true
+		}
+	}
 	if v, ok := StyleMap.FromString(str); ok {
 		desc.SetStyle(Style(v))
 		return true
-- 
2.43.0


From 670349e686b0d45c8410227448db408a71c8ed95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:13 +0000
Subject: [PATCH 096/123] fix: end the families with a comma only when the last
 word is a keyword or a number

---
 pango/fonts.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pango/fonts.go b/pango/fonts.go
index bd870f3..0f5f96b 100644
--- a/pango/fonts.go
+++ b/pango/fonts.go
@@ -524,12 +524,17 @@ func (desc FontDescription) String() string {
 		* in a keyword like "Bold", or if the family name ends in
 		* a number and no keywords will be added.
 		 */
-		if desc.Weight == WEIGHT_NORMAL &&
-			desc.Style == STYLE_NORMAL &&
-			desc.Stretch == STRETCH_NORMAL &&
-			desc.Variant == VARIANT_NORMAL &&
-			(desc.mask&(FmGravity|FmSize) == 0) {
-			fam += ","
+		if words := strings.Fields(fam); len(words) != 0 {
+			last := words[len(words)-1]
+			noKeyword := desc.Weight == WEIGHT_NORMAL &&
+				desc.Style == STYLE_NORMAL &&
+				desc.Stretch == STRETCH_NORMAL &&
+				desc.Variant == VARIANT_NORMAL &&
+				(desc.mask&(FmGravity|FmSize) == 0)
+			_, err := strconv.ParseFloat(strings.TrimSuffix(last, "px"), 64)
+			if new(FontDescription).find_field_any(last) || (noKeyword && err == nil) {
+				fam += ","
+			}
 		}
 		chunks = append(chunks, fam)
 	}
-- 
2.43.0


From 9d8e55529b2d9c4dfd5e3c8f746c417fae369ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:43 +0000
Subject: [PATCH 097/123] fix: keep opening the tags of a markup after an
 accelerator

---
 pango/markup.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pango/markup.go b/pango/markup.go
index 4668c94..2220f8a 100644
--- a/pango/markup.go
+++ b/pango/markup.go
@@ -51,10 +51,6 @@ type markupData struct {
 }
 
 func (md *markupData) openTag() *openTag {
-	if len(md.attr_list) != 0 {
-		return nil
-	}
-
 	var parent *openTag
 	if len(md.tag_stack) != 0 {
 		parent = md.tag_stack[0]
-- 
2.43.0


From 915597558ead904018d9877b436540da67dcc4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:43 +0000
Subject: [PATCH 098/123] fix: accept the numeric weights in markup

---
 pango/fonts.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pango/fonts.go b/pango/fonts.go
index 0f5f96b..09ba6fa 100644
--- a/pango/fonts.go
+++ b/pango/fonts.go
@@ -492,6 +492,9 @@ func pango_parse_variant(str string) (Variant, bool) {
 // "ultrabold", "bold", "normal", "light", "ultraleight"
 // and integers. Case variations are ignored.
 func pango_parse_weight(str string) (Weight, bool) {
+	if v, err := strconv.ParseInt(str, 10, 32); err == nil {
+		return Weight(v), true
+	}
 	i, b := weight_map.parse_field(str)
 	return Weight(i), b
 }
-- 
2.43.0


From bafd79265e3f6fde53f4e52e5d305ab4be0b6fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:43 +0000
Subject: [PATCH 099/123] fix: use the value of the font_scale attribute

---
 pango/markup.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/markup.go b/pango/markup.go
index 2220f8a..1bb0cfb 100644
--- a/pango/markup.go
+++ b/pango/markup.go
@@ -1223,7 +1223,7 @@ func span_parse_func(tag *openTag, attrs []xml.Attr) error {
 	}
 
 	if fontScale != "" {
-		fs, err := spanParseEnum("font_scale", baselineShift, fontScaleMap)
+		fs, err := spanParseEnum("font_scale", fontScale, fontScaleMap)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From ed0cf8327baad4784b24798740bc1274c7e671d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:43 +0000
Subject: [PATCH 100/123] fix: check the range of the alpha values

---
 pango/markup.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pango/markup.go b/pango/markup.go
index 1bb0cfb..30b4ddd 100644
--- a/pango/markup.go
+++ b/pango/markup.go
@@ -667,11 +667,14 @@ func spanParseAlpha(attrName, attrVal string) (uint16, error) {
 			attrName, lineColNumber, attrVal)
 	}
 
-	if !hasPercent {
+	if !hasPercent && intVal > 0 && intVal <= 65536 {
+		if intVal == 65536 {
+			intVal = 0xffff
+		}
 		return uint16(intVal), nil
 	}
 
-	if intVal > 0 && intVal <= 100 {
+	if hasPercent && intVal > 0 && intVal <= 100 {
 		return uint16(intVal * 0xffff / 100), nil
 	}
 	return 0, fmt.Errorf("Value of '%s' attribute on <span> tag on line %d could not be parsed; should be between 0 and 65536 or a percentage, not '%s'",
-- 
2.43.0


From b29496a58d5f6c04fb5107eda07684f1d919bda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:43 +0000
Subject: [PATCH 101/123] fix: reject the negative font sizes in markup

---
 pango/markup.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/markup.go b/pango/markup.go
index 30b4ddd..5e48675 100644
--- a/pango/markup.go
+++ b/pango/markup.go
@@ -1009,7 +1009,7 @@ func span_parse_func(tag *openTag, attrs []xml.Attr) error {
 	}
 
 	if size != "" {
-		if n, ok := parseLength(size); ok {
+		if n, ok := parseLength(size); ok && n > 0 {
 			tag.addAttribute(NewAttrSize(n))
 			if tag != nil {
 				tag.setAbsoluteFontSize(int32(n))
-- 
2.43.0


From bd2a76615d169b2d670f6755de7b4badbad74f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:43 +0000
Subject: [PATCH 102/123] fix: do not truncate the markups with an unexpected
 end tag

---
 pango/markup.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pango/markup.go b/pango/markup.go
index 5e48675..5e02de3 100644
--- a/pango/markup.go
+++ b/pango/markup.go
@@ -1,8 +1,11 @@
 package pango
 
 import (
+	"bytes"
 	"encoding/xml"
+	"errors"
 	"fmt"
+	"io"
 	"strconv"
 	"strings"
 )
@@ -501,10 +504,15 @@ func ParseMarkup(markupText []byte, accelMarker rune) (ParsedMarkup, error) {
 	nested := append(append([]byte("<markup>"), markupText...), "</markup>"...)
 
 	context := newParser(accelMarker)
-	err := xml.Unmarshal(nested, context)
+	decoder := xml.NewDecoder(bytes.NewReader(nested))
+	err := decoder.Decode(context)
 	if err != nil {
 		return ParsedMarkup{}, err
 	}
+	// do not ignore the text after an unexpected </markup>
+	if _, err = decoder.Token(); err != io.EOF {
+		return ParsedMarkup{}, errors.New("invalid markup: unexpected </markup> tag")
+	}
 
 	return markupParserFinish(context), nil
 }
-- 
2.43.0


From 2faf50c9b5fe6d66842bc38aeb4c152af91aeac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:43 +0000
Subject: [PATCH 103/123] fix: colors have no signs in their digits

---
 pango/color.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pango/color.go b/pango/color.go
index 73c7ef0..eaabde4 100644
--- a/pango/color.go
+++ b/pango/color.go
@@ -43,21 +43,21 @@ func pango_color_parse_with_alpha(spec string, withAlpha bool) (AttrColor, uint1
 		}
 		spec = spec[1:]
 
-		r, err := strconv.ParseInt(spec[0:len], 16, 32)
+		r, err := strconv.ParseUint(spec[0:len], 16, 32)
 		if err != nil {
 			return AttrColor{}, 0, false
 		}
-		g, err := strconv.ParseInt(spec[len:2*len], 16, 32)
+		g, err := strconv.ParseUint(spec[len:2*len], 16, 32)
 		if err != nil {
 			return AttrColor{}, 0, false
 		}
-		b, err := strconv.ParseInt(spec[2*len:3*len], 16, 32)
+		b, err := strconv.ParseUint(spec[2*len:3*len], 16, 32)
 		if err != nil {
 			return AttrColor{}, 0, false
 		}
 
 		if has_alpha {
-			a, err := strconv.ParseInt(spec[3*len:4*len], 16, 32)
+			a, err := strconv.ParseUint(spec[3*len:4*len], 16, 32)
 			if err != nil {
 				return AttrColor{}, 0, false
 			}
-- 
2.43.0


From 935e2d023169196932737528fc97174b107cf6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:57 +0000
Subject: [PATCH 104/123] fix: a font without size is no base for the relative
 sizes in markup

---
 pango/markup.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/markup.go b/pango/markup.go
index 5e02de3..792f7d6 100644
--- a/pango/markup.go
+++ b/pango/markup.go
@@ -1007,7 +1007,7 @@ func span_parse_func(tag *openTag, attrs []xml.Attr) error {
 	if desc != "" {
 		parsed := NewFontDescriptionFrom(desc)
 		tag.addAttribute(NewAttrFontDescription(parsed))
-		if tag != nil {
+		if tag != nil && parsed.mask&FmSize != 0 {
 			tag.setAbsoluteFontSize(parsed.Size)
 		}
 	}
-- 
2.43.0


From 241dad8fbfbf63b5944fa850e1a6d1beca47e4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:24 +0000
Subject: [PATCH 105/123] fix: keep the unit of the font when changing its size
 in markup

---
 pango/markup.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pango/markup.go b/pango/markup.go
index 792f7d6..d03fa4e 100644
--- a/pango/markup.go
+++ b/pango/markup.go
@@ -68,6 +68,7 @@ func (md *markupData) openTag() *openTag {
 		ot.baseScaleFactor = parent.baseScaleFactor
 		ot.baseFontSize = parent.baseFontSize
 		ot.hasBaseFontSize = parent.hasBaseFontSize
+		ot.baseSizeIsAbsolute = parent.baseSizeIsAbsolute
 		ot.scaleLevel = parent.scaleLevel
 	}
 
@@ -105,7 +106,12 @@ func (md *markupData) endElementHandler() {
 		if ot.hasBaseFontSize {
 			// Create a font using the absolute point size
 			// as the base size to be scaled from
-			a = NewAttrSize(int(ot.scaleLevel.scaleFactor(1.0) * Fl(ot.baseFontSize)))
+			size := int(ot.scaleLevel.scaleFactor(1.0) * Fl(ot.baseFontSize))
+			if ot.baseSizeIsAbsolute {
+				a = NewAttrAbsoluteSize(size)
+			} else {
+				a = NewAttrSize(size)
+			}
 		} else {
 			// Create a font using the current scale factor
 			// as the base size to be scaled from
@@ -272,6 +278,8 @@ type openTag struct {
 	 */
 	scaleLevel      sizeLevel
 	hasBaseFontSize bool // = 1;
+
+	baseSizeIsAbsolute bool // unit of baseFontSize
 }
 
 func (ot *openTag) addAttribute(attr *Attribute) {
@@ -290,6 +298,7 @@ func (ot *openTag) setAbsoluteFontScale(scale Fl) {
 
 func (ot *openTag) setAbsoluteFontSize(fontSize int32) {
 	ot.baseFontSize = fontSize
+	ot.baseSizeIsAbsolute = false
 	ot.hasBaseFontSize = true
 	ot.scaleLevel = 0
 	ot.scaleLevelDelta = 0
@@ -1009,6 +1018,7 @@ func span_parse_func(tag *openTag, attrs []xml.Attr) error {
 		tag.addAttribute(NewAttrFontDescription(parsed))
 		if tag != nil && parsed.mask&FmSize != 0 {
 			tag.setAbsoluteFontSize(parsed.Size)
+			tag.baseSizeIsAbsolute = parsed.SizeIsAbsolute
 		}
 	}
 
-- 
2.43.0


From f82efcd27682492881463bbaacabcad171abbc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:12 +0000
Subject: [PATCH 106/123] fix: move the trailing spaces of an item to a better
 font

---
 pango/context.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pango/context.go b/pango/context.go
index 046ffc7..b669bb0 100644
--- a/pango/context.go
+++ b/pango/context.go
@@ -866,6 +866,7 @@ func (state *itemizeState) fillFont(font Font) {
 
 // pos is the index into text
 func (state *itemizeState) addCharacter(font Font, fontPosition int, forceBreak bool, pos int, isSpace bool) {
+	firstSpace := state.firstSpace // before this character
 	if isSpace {
 		if state.firstSpace == -1 {
 			state.firstSpace = pos
@@ -895,10 +896,10 @@ func (state *itemizeState) addCharacter(font Font, fontPosition int, forceBreak
 		// the font is less "fallback".
 		//
 		// See https://gitlab.gnome.org/GNOME/pango/-/issues/249
-		if item.Offset < state.firstSpace && fontPosition < state.fontPosition {
-			nSpaces = pos - state.firstSpace
+		if item.Offset < firstSpace && fontPosition < state.fontPosition {
+			nSpaces = pos - firstSpace
 			item.Length -= nSpaces
-			pos = state.firstSpace
+			pos = firstSpace
 		}
 
 		item.Length = pos - item.Offset
-- 
2.43.0


From 70de985e8645e8c71226c55187606dc02b466bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:12 +0000
Subject: [PATCH 107/123] fix: do not change the font description of the caller
 when itemizing

---
 pango/context.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pango/context.go b/pango/context.go
index b669bb0..20bb770 100644
--- a/pango/context.go
+++ b/pango/context.go
@@ -573,7 +573,8 @@ func (context *Context) newItemizeState(text []rune, baseDir Direction,
 			cp := state.context.fontDesc
 			state.fontDesc = &cp
 		} else {
-			state.fontDesc = desc
+			cp := *desc // the gravity may be changed
+			state.fontDesc = &cp
 		}
 		state.lang = state.context.language
 		state.extraAttrs = nil
-- 
2.43.0


From 8dba9b9ac8af14761ef840281702c27ae0076266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:12 +0000
Subject: [PATCH 108/123] fix: reset the emoji font description when the
 gravity changes

---
 pango/context.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pango/context.go b/pango/context.go
index 20bb770..95fe30b 100644
--- a/pango/context.go
+++ b/pango/context.go
@@ -716,6 +716,7 @@ func (state *itemizeState) updateForNewRun() {
 
 		if state.fontDescGravity != state.resolvedGravity {
 			state.fontDesc.SetGravity(state.resolvedGravity)
+			state.emojiFontDesc = nil // it has the former gravity
 			state.changed |= changedFONT
 		}
 	}
-- 
2.43.0


From dfc45f267f300b9b5b8db2e21d8f942868bd6ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:12 +0000
Subject: [PATCH 109/123] fix: return the scripts of the languages having
 exactly three of them

---
 pango/language.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/language.go b/pango/language.go
index 249669a..a993ad8 100644
--- a/pango/language.go
+++ b/pango/language.go
@@ -366,7 +366,7 @@ func pango_language_get_scripts(lang Language) []Script {
 		}
 	}
 
-	return nil
+	return script_for_lang.scripts[:]
 }
 
 // pango_language_includes_script determines if `script` is one of the scripts used to
-- 
2.43.0


From 0f7f1b05e9535957aa912fa53d067d789106bb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:32 +0000
Subject: [PATCH 110/123] fix: apply the font scale attributes starting before
 the first item

---
 pango/item.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pango/item.go b/pango/item.go
index 2d12647..a6dddcc 100644
--- a/pango/item.go
+++ b/pango/item.go
@@ -322,7 +322,8 @@ func (context *Context) collectFontScale(stack *list.List, item, prev *Item) (fl
 
 	for _, attr := range item.Analysis.ExtraAttrs {
 		if attr.Kind == ATTR_FONT_SCALE {
-			if attr.StartIndex == item.Offset {
+			// the first item may be in the middle of the attribute
+			if attr.StartIndex == item.Offset || prev == nil {
 				entry := &scaleItem{attr: attr, scale: 1}
 				stack.PushFront(entry)
 
-- 
2.43.0


From 53ca7500084a5e54131d01fa0593ead7dfb732d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:32 +0000
Subject: [PATCH 111/123] fix: find the word starts when capitalizing with a
 font variant

---
 pango/item.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pango/item.go b/pango/item.go
index a6dddcc..afb3e1b 100644
--- a/pango/item.go
+++ b/pango/item.go
@@ -509,7 +509,7 @@ func splitItemForVariant(text []rune, logAttrs []CharAttr, variant Variant, list
 						(itemTransform == TEXT_TRANSFORM_CAPITALIZE && isWordStart)))) {
 				break
 			}
-			isWordStart = logAttrs != nil && logAttrs[p].IsWordStart()
+			isWordStart = logAttrs != nil && logAttrs[p+1].IsWordStart()
 		}
 
 		if p0 < p {
@@ -547,7 +547,7 @@ func splitItemForVariant(text []rune, logAttrs []CharAttr, variant Variant, list
 				(itemTransform == TEXT_TRANSFORM_CAPITALIZE && isWordStart)) {
 				break
 			}
-			isWordStart = logAttrs != nil && logAttrs[p].IsWordStart()
+			isWordStart = logAttrs != nil && logAttrs[p+1].IsWordStart()
 		}
 
 		if p0 < p {
-- 
2.43.0


From 6b1391174d46b512f50e3cb07767451683938c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:32 +0000
Subject: [PATCH 112/123] fix: keep the attributes of an item in order, and out
 of the next item

---
 pango/item.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pango/item.go b/pango/item.go
index afb3e1b..9dbea43 100644
--- a/pango/item.go
+++ b/pango/item.go
@@ -140,12 +140,23 @@ func (item *Item) pango_item_apply_attrs(iter *attrIterator) {
 			break
 		}
 
-		if end >= item.Offset {
+		if end > item.Offset {
 			list := iter.getAttributes()
 			for _, data := range list {
-				if !isInList(data) {
-					attrs.insertAt(0, data.copy())
+				if isInList(data) {
+					continue
 				}
+				// keep the order of the attributes : the later ones have the priority
+				index := len(attrs)
+				if data.Kind != ATTR_FONT_FEATURES { // data may have been hidden by later attributes
+					for i, attr := range attrs {
+						if attr.Kind == data.Kind && attr.StartIndex >= data.StartIndex {
+							index = i
+							break
+						}
+					}
+				}
+				attrs.insertAt(index, data.copy())
 			}
 		}
 
-- 
2.43.0


From 1fce7656506578a9490c22bfffbb9c73e87c3bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:32 +0000
Subject: [PATCH 113/123] fix: accumulate the nested font features attributes

---
 pango/attributes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/attributes.go b/pango/attributes.go
index f53ae38..eaaf9d7 100644
--- a/pango/attributes.go
+++ b/pango/attributes.go
@@ -1030,7 +1030,7 @@ func (iterator attrIterator) getAttributes() AttrList {
 		attr := iterator.attribute_stack[i]
 		found := false
 
-		if attr.Kind != ATTR_FONT_DESC &&
+		if attr.Kind != ATTR_FONT_DESC && attr.Kind != ATTR_FONT_FEATURES &&
 			attr.Kind != ATTR_BASELINE_SHIFT && attr.Kind != ATTR_FONT_SCALE { // keep all font attributes in the returned list
 			for _, oldAttr := range attrs {
 				if attr.Kind == oldAttr.Kind {
-- 
2.43.0


From 92391acf02157318c48ba971611cf4e0456381e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:32 +0000
Subject: [PATCH 114/123] fix: keep the baseline shift on the lines following
 its start

---
 pango/layout_line.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/pango/layout_line.go b/pango/layout_line.go
index b52a8c0..9c90b26 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -1333,8 +1333,7 @@ func (state *paraBreakState) collectBaselineShift(item, prev *Item) (startXOffse
 			startYOffset += value
 			endYOffset -= value
 		} else if attr.Kind == ATTR_BASELINE_SHIFT {
-			if attr.StartIndex == item.Offset {
-
+			if attr.StartIndex == item.Offset || !state.isShifted(attr) {
 				entry := &baselineItem{attr: attr}
 				state.baselineShifts.PushFront(entry)
 
@@ -1410,11 +1409,35 @@ func (state *paraBreakState) collectBaselineShift(item, prev *Item) (startXOffse
 	return
 }
 
+// isShifted returns true if the offset of `attr` has already been computed
+func (state *paraBreakState) isShifted(attr *Attribute) bool {
+	for t := state.baselineShifts.Front(); t != nil; t = t.Next() {
+		entry := t.Value.(*baselineItem)
+		if attr.StartIndex == entry.attr.StartIndex && attr.EndIndex == entry.attr.EndIndex &&
+			attr.Data.(AttrInt) == entry.attr.Data.(AttrInt) {
+			return true
+		}
+	}
+	return false
+}
+
 func (line *LayoutLine) applyBaselineShift(state *paraBreakState) {
 	var (
 		yOffset Unit
 		prev    *Item
 	)
+
+	// the attributes started on the previous lines
+	var next *list.Element
+	for t := state.baselineShifts.Front(); t != nil; t = next {
+		next = t.Next()
+		if entry := t.Value.(*baselineItem); entry.attr.EndIndex <= line.StartIndex {
+			state.baselineShifts.Remove(t)
+		} else {
+			yOffset += entry.yOffset
+		}
+	}
+
 	for l := line.Runs; l != nil; l = l.Next {
 		run := l.Data
 		item := run.Item
-- 
2.43.0


From ce0205e5155e349e1b12cbaf9c9c1677f7de243c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:33 +0000
Subject: [PATCH 115/123] fix: do not read past the table of upright characters

---
 pango/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/context.go b/pango/context.go
index 95fe30b..7231c55 100644
--- a/pango/context.go
+++ b/pango/context.go
@@ -427,7 +427,7 @@ func isUpright(ch rune) bool {
 
 	const max = len(upright)
 	st := 0
-	ed := max
+	ed := max - 1
 
 	for st <= ed {
 		mid := (st + ed) / 2
-- 
2.43.0


From 4a15d7b3c499aafd5691eb2667892068d33a0414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:33 +0000
Subject: [PATCH 116/123] fix: leave room in the shaping buffer for a dotted
 circle

---
 pango/shape.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pango/shape.go b/pango/shape.go
index b8b177d..f0a6938 100644
--- a/pango/shape.go
+++ b/pango/shape.go
@@ -206,6 +206,11 @@ func (glyphs *GlyphString) harfbuzzShape(analysis *Analysis, paragraphText []run
 
 	features := analysis.collectFeatures()
 
+	// a dotted circle may be inserted before the text is reversed :
+	// make sure that the positions have room for it
+	nbGlyphs := len(cachedBuffer.Pos)
+	cachedBuffer.Pos = append(cachedBuffer.Pos, harfbuzz.GlyphPosition{})[:nbGlyphs]
+
 	cachedBuffer.Shape(hbFont, features)
 
 	if analysis.Gravity.IsImproper() {
-- 
2.43.0


From 595a8593bac7baa9aeb2930ceed0c5553e511ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:33 +0000
Subject: [PATCH 117/123] fix: keep the clusters monotonic when graphemes are
 shaped in reverse

---
 pango/shape.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pango/shape.go b/pango/shape.go
index f0a6938..d6f944a 100644
--- a/pango/shape.go
+++ b/pango/shape.go
@@ -221,6 +221,19 @@ func (glyphs *GlyphString) harfbuzzShape(analysis *Analysis, paragraphText []run
 	glyphInfos := cachedBuffer.Info
 	glyphs.setSize(len(glyphInfos))
 	infos := glyphs.Glyphs
+
+	// graphemes shaped against the direction of their script may have
+	// inverted clusters : merge them, so that the clusters are monotonic
+	if analysis.Level%2 == 0 {
+		for i := len(glyphInfos) - 2; i >= 0; i-- {
+			glyphInfos[i].Cluster = min(glyphInfos[i].Cluster, glyphInfos[i+1].Cluster)
+		}
+	} else {
+		for i := 1; i < len(glyphInfos); i++ {
+			glyphInfos[i].Cluster = min(glyphInfos[i].Cluster, glyphInfos[i-1].Cluster)
+		}
+	}
+
 	lastCluster := -1
 	for i, inf := range glyphInfos {
 		infos[i].Glyph = Glyph(inf.Glyph)
-- 
2.43.0


From 04be812481be9e1daaf04537ef962fdf7170e1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:40 +0000
Subject: [PATCH 118/123] fix: shape the hyphen ending a run with the
 attributes of its run

---
 pango/layout_line.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pango/layout_line.go b/pango/layout_line.go
index 9c90b26..1ec8913 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -522,10 +522,15 @@ func (line *LayoutLine) addMissingHyphen(state *paraBreakState, run *GlyphItem)
 		startOffset := state.startOffset
 		state.startOffset = state.lineStartIndex + lineChars - item.Length
 
+		// the properties are also the ones of the next item, which did not fit
+		properties := state.properties
+		state.properties = item.getProperties()
+
 		item.Analysis.Flags |= AFNeedHyphen
 		run.Glyphs = line.shapeRun(state, item)
 
 		state.startOffset = startOffset
+		state.properties = properties
 
 		state.remainingWidth += run.Glyphs.getWidth() - width
 	}
-- 
2.43.0


From 6bfefc0a49d884c3ed37a668f502c21a22a1679c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:37 +0000
Subject: [PATCH 119/123] fix: describe the stretch of the fonts

---
 pango/fcfonts/fonts.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pango/fcfonts/fonts.go b/pango/fcfonts/fonts.go
index 8ab2131..53bd5be 100644
--- a/pango/fcfonts/fonts.go
+++ b/pango/fcfonts/fonts.go
@@ -131,8 +131,8 @@ func newFontDescriptionFromPattern(pattern fc.Pattern, includeSize bool) pango.F
 	desc.SetWeight(weight)
 
 	stretch := pango.STRETCH_NORMAL
-	if i, ok := pattern.GetInt(fc.WIDTH); ok {
-		stretch = widthToPango(i)
+	if d, ok := pattern.GetFloat(fc.WIDTH); ok { // the widths of the fonts are floats
+		stretch = widthToPango(int32(d))
 	}
 	desc.SetStretch(stretch)
 
-- 
2.43.0


From 5acef434531c86067d3fb44a018d7d140cb7e896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:53 +0000
Subject: [PATCH 120/123] fix: skip the fonts which cannot be loaded

---
 pango/fcfonts/fonset.go  | 27 +++++++++++++++------------
 pango/fcfonts/fontmap.go |  7 +++++--
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/pango/fcfonts/fonset.go b/pango/fcfonts/fonset.go
index 0c50be0..ca807ba 100644
--- a/pango/fcfonts/fonset.go
+++ b/pango/fcfonts/fonset.go
@@ -30,22 +30,25 @@ func (fs *Fontset) GetLanguage() pango.Language { return fs.key.language }
 // may return nil
 func (fs *Fontset) loadNextFont() *Font {
 	pattern := fs.patterns.pattern
-	fontPattern, prepare := fs.patterns.getFontPattern(fs.currentPatternIndex)
-	fs.currentPatternIndex++
-	if fontPattern == nil {
-		return nil
-	}
+	for {
+		fontPattern, prepare := fs.patterns.getFontPattern(fs.currentPatternIndex)
+		fs.currentPatternIndex++
+		if fontPattern == nil {
+			return nil
+		}
 
-	if prepare {
-		fontPattern = fs.patterns.fontmap.Config.PrepareRender(pattern, fontPattern)
-	}
+		if prepare {
+			fontPattern = fs.patterns.fontmap.Config.PrepareRender(pattern, fontPattern)
+		}
+
+		font, err := fs.key.fontmap.newFont(*fs.key, fontPattern)
+		if err == nil {
+			return font
+		}
 
-	font, err := fs.key.fontmap.newFont(*fs.key, fontPattern)
-	if err != nil {
+		// skip the fonts which can't be loaded
 		log.Println(err)
 	}
-
-	return font
 }
 
 // lazy loading
diff --git a/pango/fcfonts/fontmap.go b/pango/fcfonts/fontmap.go
index 2e749d1..aca4753 100644
--- a/pango/fcfonts/fontmap.go
+++ b/pango/fcfonts/fontmap.go
@@ -548,9 +548,12 @@ func (fontmap *FontMap) newFont(fsKey fontsetKey, match fc.Pattern) (*Font, erro
 	// cache it on fontmap
 	fontmap.fontHash.insert(key, fcfont)
 
-	err := fcfont.loadHBFont()
+	if err := fcfont.loadHBFont(); err != nil {
+		fontmap.fontHash.remove(key)
+		return nil, err
+	}
 
-	return fcfont, err
+	return fcfont, nil
 }
 
 func (key *fontsetKey) defaultSubstitute(fontmap *FontMap, pattern fc.Pattern) {
-- 
2.43.0


From 4d678338ac592e6ba8fb4fe4dca3621a5a7aecad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:53 +0000
Subject: [PATCH 121/123] fix: load fontsets without context

---
 pango/fcfonts/fontmap.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pango/fcfonts/fontmap.go b/pango/fcfonts/fontmap.go
index aca4753..0a06aae 100644
--- a/pango/fcfonts/fontmap.go
+++ b/pango/fcfonts/fontmap.go
@@ -267,6 +267,9 @@ func (fcfontmap *FontMap) getScaledSize(context *pango.Context, desc *pango.Font
 
 		size = size * dpi / 72.
 	}
+	if context == nil {
+		return int(.5 + size)
+	}
 	_, scale := context.Matrix.GetFontScaleFactors()
 	return int(.5 + scale*size)
 }
-- 
2.43.0


From 91c69fa7051f96a522a565ff33ed7fa7e2426ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:19 +0000
Subject: [PATCH 122/123] fix: keep the order of the equally close fonts when
 sorting

---
 fontconfig/match.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fontconfig/match.go b/fontconfig/match.go
index 75fd4b0..1a89d8b 100644
--- a/fontconfig/match.go
+++ b/fontconfig/match.go
@@ -870,7 +870,7 @@ func (set Fontset) Sort(p Pattern, trim bool) (Fontset, Charset) {
 		nodes[i] = newPtr
 	}
 
-	sort.Slice(nodes, func(i, j int) bool { return sortCompare(nodes[i], nodes[j]) })
+	sort.SliceStable(nodes, func(i, j int) bool { return sortCompare(nodes[i], nodes[j]) })
 
 	for _, node := range nodes {
 		satisfies := false
@@ -895,7 +895,7 @@ func (set Fontset) Sort(p Pattern, trim bool) (Fontset, Charset) {
 	}
 
 	// re-sort once the language issues have been settled
-	sort.Slice(nodes, func(i, j int) bool { return sortCompare(nodes[i], nodes[j]) })
+	sort.SliceStable(nodes, func(i, j int) bool { return sortCompare(nodes[i], nodes[j]) })
 
 	return sortWalk(nodes, trim)
 }
-- 
2.43.0


From 32ce4da1a7c2bdaa56721b0f907039d7f328ade1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:19 +0000
Subject: [PATCH 123/123] fix: the default languages keep the order of the
 locale

They were kept in a map: with several languages in FC_LANG or LC_ALL,
the default language and the languages added to the queries changed
from call to call.
---
 fontconfig/fontconfig.go    | 18 +++++++-----------
 fontconfig/lang.go          | 15 ++++++++-------
 fontconfig/list.go          |  6 +-----
 fontconfig/substitutions.go |  2 +-
 4 files changed, 17 insertions(+), 24 deletions(-)

diff --git a/fontconfig/fontconfig.go b/fontconfig/fontconfig.go
index 6278008..4192244 100644
--- a/fontconfig/fontconfig.go
+++ b/fontconfig/fontconfig.go
@@ -252,15 +252,15 @@ func WeightToOT(fcWeight float32) float32 {
 }
 
 var (
-	defaultLangs     strSet
+	defaultLangs     []string // by order of preference
 	defaultLangsLock sync.Mutex
 )
 
-// Returns a string set of the default languages according to the environment variables on the system.
+// Returns the default languages, by order of preference, according to the environment variables on the system.
 // This function looks for them in order of FC_LANG, LC_ALL, LC_CTYPE and LANG then.
 // If there are no valid values in those environment variables, "en" will be set as fallback.
 // Thus, it always returns at least one language.
-func getDefaultLangs() strSet {
+func getDefaultLangs() []string {
 	defaultLangsLock.Lock()
 	defer defaultLangsLock.Unlock()
 
@@ -268,8 +268,6 @@ func getDefaultLangs() strSet {
 		return defaultLangs
 	}
 
-	defaultLangs = make(strSet)
-
 	langs := os.Getenv("FC_LANG")
 	if langs == "" {
 		langs = os.Getenv("LC_ALL")
@@ -281,12 +279,10 @@ func getDefaultLangs() strSet {
 		langs = os.Getenv("LANG")
 	}
 	if langs != "" {
-		ok := addLangs(defaultLangs, langs)
-		if !ok {
-			defaultLangs["en"] = true
-		}
-	} else {
-		defaultLangs["en"] = true
+		defaultLangs = parseLangs(langs)
+	}
+	if len(defaultLangs) == 0 {
+		defaultLangs = []string{"en"}
 	}
 
 	return defaultLangs
diff --git a/fontconfig/lang.go b/fontconfig/lang.go
index 98b0517..471a7e4 100644
--- a/fontconfig/lang.go
+++ b/fontconfig/lang.go
@@ -432,22 +432,23 @@ func (ls Langset) Copy() Langset {
 	return new
 }
 
-// return true it at least one language has been added
-func addLangs(strs strSet, languages string) bool {
-	var ret bool
+// returns the valid languages in `languages`, in order and without duplicates
+func parseLangs(languages string) []string {
+	var out []string
+	seen := make(strSet)
 	ls := strings.Split(languages, ":")
 	for _, lang := range ls {
 		if lang == "" { // ignore an empty item
 			continue
 		}
 		normalizedLang := normalizeLang(lang)
-		if normalizedLang != "" {
-			strs[normalizedLang] = true
-			ret = true
+		if normalizedLang != "" && !seen[normalizedLang] {
+			seen[normalizedLang] = true
+			out = append(out, normalizedLang)
 		}
 	}
 
-	return ret
+	return out
 }
 
 // Keep Han languages separated by eliminating languages that the codePageRange bits says aren't supported
diff --git a/fontconfig/list.go b/fontconfig/list.go
index d7273d6..c3b19ce 100644
--- a/fontconfig/list.go
+++ b/fontconfig/list.go
@@ -132,11 +132,7 @@ func listAppend(table map[string]Pattern, font Pattern, os []Object, lang string
 }
 
 func getDefaultLang() string {
-	langs := getDefaultLangs()
-	for s := range langs {
-		return s
-	}
-	return ""
+	return getDefaultLangs()[0] // there is always one language
 }
 
 // List selects fonts matching `p` (all if p is empty), creates patterns from those fonts containing
diff --git a/fontconfig/substitutions.go b/fontconfig/substitutions.go
index 0a62cd5..2d3ec5f 100644
--- a/fontconfig/substitutions.go
+++ b/fontconfig/substitutions.go
@@ -408,7 +408,7 @@ func substituteLang(p Pattern) {
 	var lsund Langset
 	lsund.add("und")
 
-	for lang := range strs {
+	for _, lang := range strs {
 		for _, ll := range p.getVals(LANG) {
 			vvL := ll.Value
 
-- 
2.43.0

