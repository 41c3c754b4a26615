From 077b877f7f3fa2a38ee1301d956ef4ed3c7cdfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:31 +0000
Subject: [PATCH 01/93] fix: RemoveBidiMarks: map entries of removed characters
 are -1

---
 fribidi/fridibi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fribidi/fridibi.go b/fribidi/fridibi.go
index 7090d51..bc3689f 100644
--- a/fribidi/fridibi.go
+++ b/fribidi/fridibi.go
@@ -511,7 +511,7 @@ func RemoveBidiMarks(str []rune, positionsToThis, positionFromThis []int, embedd
 		for i := range positionsToThis {
 			positionsToThis[i] = -1
 		}
-		for i, from := range positionFromThis {
+		for i, from := range positionFromThis[:j] { // the entries after j are stale
 			positionsToThis[from] = i
 		}
 	}
-- 
2.43.0


From b814b23e610b28e07d7611df717345aec6adc839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:00 +0000
Subject: [PATCH 02/93] fix: bidi: the search of the direction of a FSI stops
 at the matching PDI

---
 fribidi/bidi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fribidi/bidi.go b/fribidi/bidi.go
index a0f605f..89d11f8 100644
--- a/fribidi/bidi.go
+++ b/fribidi/bidi.go
@@ -359,7 +359,7 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 				for fsiPp := pp.next; fsiPp.type_ != maskSentinel; fsiPp = fsiPp.next {
 					if fsiPp.type_ == PDI {
 						isolateCount--
-						if validIsolateCount < 0 {
+						if isolateCount < 0 {
 							break
 						}
 					} else if fsiPp.type_.IsIsolate() {
-- 
2.43.0


From 9cf4369d744863eaf6e10690b0d9674c397f7784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:48 +0000
Subject: [PATCH 03/93] fix: bidi: isolates and PDF beyond the depth limit
 follow X5a-X7

---
 fribidi/bidi.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/fribidi/bidi.go b/fribidi/bidi.go
index 89d11f8..3900a82 100644
--- a/fribidi/bidi.go
+++ b/fribidi/bidi.go
@@ -303,7 +303,7 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 				/*   X7. With each PDF, determine the matching embedding or
 				     override code. */
 				for i := pp.len; i != 0; i-- {
-					if stackSize != 0 && statusStack[stackSize-1].isolate != 0 {
+					if isolateOverflow > 0 || stackSize != 0 && overPushed == 0 && statusStack[stackSize-1].isolate != 0 {
 						break
 					}
 					statusStack.popStatus(vars, &isolate, &isolateLevel)
@@ -380,16 +380,14 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 
 			pp.level = level
 			pp.isolateLevel = isolateLevel
-			if isolateLevel < maxExplicitLevel-1 {
-				isolateLevel++
-			}
 
 			if !override.isNeutral() {
 				pp.type_ = override
 			}
 
-			if newLevel <= maxExplicitLevel {
+			if newLevel <= maxExplicitLevel && isolateOverflow == 0 && overPushed == 0 {
 				validIsolateCount++
+				isolateLevel++
 				statusStack.pushStatus(isolateOverflow, isolate, isolateLevel, newLevel, newOverride, vars)
 				level = newLevel
 			} else {
@@ -645,8 +643,8 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 		numIsoLevels      = int(maxIsoLevel + 1)
 		pairingNodes      *pairingNode
 		localBracketStack [localBracketSize][maxNestedBracketPairs]*oneRun
-		bracketStack      [maxExplicitLevel][]*oneRun
-		bracketStackSize  [maxExplicitLevel]int
+		bracketStack      [maxExplicitLevel + 1][]*oneRun
+		bracketStackSize  [maxExplicitLevel + 1]int
 		lastLevel         = mainRunList.level
 		lastIsoLevel      Level
 	)
-- 
2.43.0


From 48af03a7bc4434f72b1e7760984b86da288ca4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:17 +0000
Subject: [PATCH 04/93] fix: bidi: the bracket stack is local to an isolating
 run sequence (BD16)

---
 fribidi/bidi.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/fribidi/bidi.go b/fribidi/bidi.go
index 3900a82..f8c2154 100644
--- a/fribidi/bidi.go
+++ b/fribidi/bidi.go
@@ -671,18 +671,22 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 		   raised. */
 		if level != lastLevel && lastIsoLevel == isoLevel {
 			bracketStackSize[lastIsoLevel] = 0
+		} else if isoLevel > lastIsoLevel {
+			/* entering an isolate: a new isolating run sequence begins */
+			bracketStackSize[isoLevel] = 0
 		}
 
 		if brackProp != NoBracket && pp.type_ == ON {
 			if brackProp.isOpen() {
-				if bracketStackSize[isoLevel] == maxNestedBracketPairs {
-					break
+				if bracketStackSize[isoLevel] >= maxNestedBracketPairs {
+					/* BD16: ignore the remaining brackets of the isolating run sequence */
+					bracketStackSize[isoLevel] = maxNestedBracketPairs + 1
+				} else {
+					/* push onto the pair stack */
+					bracketStack[isoLevel][bracketStackSize[isoLevel]] = pp
+					bracketStackSize[isoLevel]++
 				}
-
-				/* push onto the pair stack */
-				bracketStack[isoLevel][bracketStackSize[isoLevel]] = pp
-				bracketStackSize[isoLevel]++
-			} else {
+			} else if bracketStackSize[isoLevel] <= maxNestedBracketPairs {
 				stackIdx := bracketStackSize[isoLevel] - 1
 				for stackIdx >= 0 {
 					seBrackProp := bracketStack[isoLevel][stackIdx].bracketType
-- 
2.43.0


From 864b375889e75816f69b751288dc7ce5b9e6496a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:06 +0000
Subject: [PATCH 05/93] fix: bidi: N0c looks for the preceding strong type in
 the isolating run sequence

---
 fribidi/bidi.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/fribidi/bidi.go b/fribidi/bidi.go
index f8c2154..a2c8248 100644
--- a/fribidi/bidi.go
+++ b/fribidi/bidi.go
@@ -742,13 +742,18 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 		/* N0c */
 		/* Search for any strong type preceding and within the bracket pair */
 		if !found {
-			/* Search for a preceding strong */
-			precStrongLevel := embeddingLevel /* TBDov! Extract from Isolate level in effect */
+			/* Search for a preceding strong in the isolating run sequence,
+			   which defaults to sor */
+			var precDir CharType
 			isoLevel := ppairs.open.isolateLevel
-			for ppn = ppairs.open.prev; ppn.type_ != maskSentinel; ppn = ppn.prev {
-				thisType := ppn.typeAnEnAsRTL()
-				if thisType.IsStrong() && ppn.isolateLevel == isoLevel {
-					precStrongLevel = ppn.level + (ppn.level.isRtl() ^ dirToLevel(thisType))
+			for ppn = ppairs.open; ; {
+				ppn = ppn.getAdjacentRun(false, false)
+				if ppn.level != embeddingLevel {
+					precDir = levelToDir(maxL(ppn.level, embeddingLevel))
+					break
+				}
+				precDir = ppn.typeAnEnAsRTL()
+				if precDir.IsStrong() {
 					break
 				}
 			}
@@ -760,12 +765,8 @@ func GetParEmbeddingLevels(bidiTypes []CharType, bracketTypes []BracketType,
 					   since we did not match the N0b rule. We must now
 					   compare with the preceding strong to establish whether
 					   to apply N0c1 (opposite) or N0c2 embedding */
-					var l CharType = LTR
-					if precStrongLevel%2 != 0 {
-						l = RTL
-					}
-					ppairs.open.type_ = l
-					ppairs.close.type_ = l
+					ppairs.open.type_ = precDir
+					ppairs.close.type_ = precDir
 					found = true
 					break
 				}
-- 
2.43.0


From cd6fc156b8991ba27382ee86b35c25dcf74fe699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:31 +0000
Subject: [PATCH 06/93] fix: bidi: ReorderLine resets isolate formatting
 characters at the end of the line (L1)

---
 fribidi/bidi.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fribidi/bidi.go b/fribidi/bidi.go
index a2c8248..5aa904b 100644
--- a/fribidi/bidi.go
+++ b/fribidi/bidi.go
@@ -988,8 +988,9 @@ func ReorderLine(
 	)
 
 	/* L1. Reset the embedding levels of some chars:
-	   4. any sequence of white space characters at the end of the line. */
-	for i := off + length - 1; i >= off && bidiTypes[i].isExplicitOrBnOrWs(); i-- {
+	   4. any sequence of white space characters and/or isolate formatting
+	      characters at the end of the line. */
+	for i := off + length - 1; i >= off && (bidiTypes[i].isExplicitOrBnOrWs() || bidiTypes[i].IsIsolate()); i-- {
 		embeddingLevels[i] = dirToLevel(baseDir)
 	}
 
-- 
2.43.0


From 6d6ad2cb389749f952e394da212ed80139807cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:14 +0000
Subject: [PATCH 07/93] fix: pango: a paragraph with a weak LTR direction and
 no strong character resolves to LTR

---
 pango/direction_bidi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/direction_bidi.go b/pango/direction_bidi.go
index fe463a7..1fdbcf9 100644
--- a/pango/direction_bidi.go
+++ b/pango/direction_bidi.go
@@ -205,7 +205,7 @@ func bidiEmbeddingLevels(text []rune, pbaseDir Direction) (Direction, []fribidi.
 	}
 
 	pbaseDir = DIRECTION_RTL
-	if fribidiBaseDir == fribidi.LTR {
+	if !fribidiBaseDir.IsRtl() { // LTR, or a weak LTR without strong character in the text
 		pbaseDir = DIRECTION_LTR
 	}
 
-- 
2.43.0


From c11ba2de00a2109b2d0f93c88bbfa8f19ad56d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:48 +0000
Subject: [PATCH 08/93] fix: AttrList.Change trims the overlapping attributes
 which follow the new one

---
 pango/attributes.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pango/attributes.go b/pango/attributes.go
index 3ea81b2..3ecea26 100644
--- a/pango/attributes.go
+++ b/pango/attributes.go
@@ -831,30 +831,35 @@ func (list *AttrList) Change(attr *Attribute) {
 
 	if !inserted { // we didn't insert attr yet
 		list.Insert(attr)
-		return
 	}
 
 	/* We now have the range inserted into the list one way or the
 	* other. Fix up the remainder */
-	/* Attention: No i = 0 here. */
-	for i, p = i+1, len(*list); i < p; i++ {
+	for i, p = i, len(*list); i < p; i++ {
 		tmp_attr := (*list)[i]
 
 		if tmp_attr.StartIndex > endIndex {
 			break
 		}
 
-		if tmp_attr.Kind != attr.Kind {
+		if tmp_attr == attr || tmp_attr.Kind != attr.Kind {
 			continue
 		}
 
 		if tmp_attr.EndIndex <= attr.EndIndex || tmp_attr.equals(*attr) {
 			/* We can merge the new attribute with this attribute. */
-			attr.EndIndex = max(endIndex, tmp_attr.EndIndex)
+			attr.EndIndex = max(attr.EndIndex, tmp_attr.EndIndex)
 			list.remove(i)
 			i--
 			p--
-			continue
+		} else if tmp_attr.StartIndex < attr.EndIndex {
+			/* Trim the start of this attribute that it begins at the end
+			 * of the new attribute. This may involve moving it in the list
+			 * to maintain the required non-decreasing order of start indices. */
+			tmp_attr.StartIndex = attr.EndIndex
+			list.remove(i)
+			list.Insert(tmp_attr)
+			i--
 		}
 	}
 }
-- 
2.43.0


From da2fe4ab97af1d7d5dca843a131ff3494459ff48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:53 +0000
Subject: [PATCH 09/93] fix: IndexToX gave the middle of a character as its
 trailing edge, and failed on graphemes split over runs

---
 pango/glyphs.go      | 14 ++++++--------
 pango/layout_line.go | 24 +++++++++++++-----------
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/pango/glyphs.go b/pango/glyphs.go
index 56b9f1f..2d2209c 100644
--- a/pango/glyphs.go
+++ b/pango/glyphs.go
@@ -486,25 +486,23 @@ func (glyphs *GlyphString) indexToXFull(text []rune, analysis *Analysis, index i
 	// Calculate offset of character within cluster.
 	// To come up with accurate answers here, we need to know grapheme
 	// boundaries.
-	clusterChars := endIndex - startIndex
-	clusterOffset := index - startIndex
+	clusterChars, clusterOffset := 0, 0
 
 	for i := startIndex; i < endIndex; i++ {
 		if logAttrs != nil && !logAttrs[i].IsCursorPosition() {
 			continue
 		}
 
-		if i < index {
+		if i < index || (trailing && i == index) {
 			clusterOffset++
 		}
 		clusterChars++
 	}
 
-	if trailing {
-		clusterOffset += 1
-	}
-
-	if clusterChars == 0 /* pedantic */ {
+	if clusterChars == 0 /* the cluster starts inside a grapheme */ {
+		if trailing {
+			return endXpos
+		}
 		return startXpos
 	}
 
diff --git a/pango/layout_line.go b/pango/layout_line.go
index 13297c0..f4b5d94 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -1204,21 +1204,23 @@ func (line *LayoutLine) IndexToX(index int, trailing bool) Unit {
 	layout := line.layout
 	var width Unit
 
+	// move to the edge of the grapheme, which may be split over several runs
+	if lineEnd := line.StartIndex + line.Length; line.StartIndex <= index && index < lineEnd {
+		if trailing {
+			for index+1 < lineEnd && !layout.logAttrs[index+1].IsCursorPosition() {
+				index++
+			}
+		} else {
+			for index > line.StartIndex && !layout.logAttrs[index].IsCursorPosition() {
+				index--
+			}
+		}
+	}
+
 	for runList := line.Runs; runList != nil; runList = runList.Next {
 		run := runList.Data
 
 		if run.Item.Offset <= index && run.Item.Offset+run.Item.Length > index {
-			if trailing {
-				for index < line.StartIndex+line.Length && index+1 < len(layout.Text) &&
-					!layout.logAttrs[index+1].IsCursorPosition() {
-					index++
-				}
-			} else {
-				for index > line.StartIndex && !layout.logAttrs[index].IsCursorPosition() {
-					index--
-				}
-			}
-
 			attrOffset := run.Item.Offset
 			xPos := run.Glyphs.indexToXFull(layout.Text[attrOffset:attrOffset+run.Item.Length],
 				&run.Item.Analysis, index-attrOffset, trailing, layout.logAttrs[attrOffset:])
-- 
2.43.0


From 6c88a17e1a3cce45e375f0f31be392885e072867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:27 +0000
Subject: [PATCH 10/93] fix: justifying a line without spaces hung on clusters
 of zero width or inside a grapheme

---
 pango/layout_line.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pango/layout_line.go b/pango/layout_line.go
index f4b5d94..9d83ac0 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -837,13 +837,15 @@ func (line *LayoutLine) justify_clusters(state *paraBreakState) {
 			var (
 				clusterIter GlyphItemIter
 				haveCluster bool
+				nextCluster = clusterIter.NextCluster
 			)
 			if dir > 0 {
 				haveCluster = clusterIter.InitStart(run, text)
 			} else {
 				haveCluster = clusterIter.InitEnd(run, text)
+				nextCluster = clusterIter.PrevCluster
 			}
-			for haveCluster {
+			for ; haveCluster; haveCluster = nextCluster() {
 				/* don't expand in the middle of graphemes */
 				if !logAttrs[offset+clusterIter.StartChar].IsCursorPosition() {
 					continue
@@ -900,12 +902,6 @@ func (line *LayoutLine) justify_clusters(state *paraBreakState) {
 						addedSoFar += spaceRight
 					}
 				}
-
-				if dir > 0 {
-					haveCluster = clusterIter.NextCluster()
-				} else {
-					haveCluster = clusterIter.PrevCluster()
-				}
 			}
 		}
 
-- 
2.43.0


From 69b04316343b3fcaf213a7d23b8227bbec6b3af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:22 +0000
Subject: [PATCH 11/93] fix: the end of a baseline shift was not undone, and a
 shift was lost on the following lines

---
 pango/layout_line.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pango/layout_line.go b/pango/layout_line.go
index 9d83ac0..ff8068a 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -1336,7 +1336,6 @@ func (state *paraBreakState) collectBaselineShift(item, prev *Item) (startXOffse
 			if attr.StartIndex == item.Offset {
 
 				entry := baselineItem{attr: attr}
-				state.baselineShifts.PushFront(entry)
 
 				value := Unit(attr.Data.(AttrInt))
 
@@ -1373,6 +1372,8 @@ func (state *paraBreakState) collectBaselineShift(item, prev *Item) (startXOffse
 					}
 				}
 
+				state.baselineShifts.PushFront(entry)
+
 				startXOffset += entry.xOffset
 				startYOffset += entry.yOffset
 			}
@@ -1388,10 +1389,10 @@ func (state *paraBreakState) collectBaselineShift(item, prev *Item) (startXOffse
 						attr.Data.(AttrInt) == entry.attr.Data.(AttrInt) {
 						endXOffset -= entry.xOffset
 						endYOffset -= entry.yOffset
-					}
 
-					state.baselineShifts.Remove(t)
-					break
+						state.baselineShifts.Remove(t)
+						break
+					}
 				}
 				if t == nil && debugMode {
 					log.Println("Baseline attributes mismatch")
@@ -1407,6 +1408,13 @@ func (line *LayoutLine) applyBaselineShift(state *paraBreakState) {
 		yOffset Unit
 		prev    *Item
 	)
+	// the shifts started on a previous line
+	for t := state.baselineShifts.Front(); t != nil; t = t.Next() {
+		if entry := t.Value.(baselineItem); entry.attr.EndIndex > line.StartIndex {
+			yOffset += entry.yOffset
+		}
+	}
+
 	for l := line.Runs; l != nil; l = l.Next {
 		run := l.Data
 		item := run.Item
-- 
2.43.0


From d360137d8fb0fd0ebbb7a8bd006c4a759b6c19f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:11 +0000
Subject: [PATCH 12/93] fix: the glyphs of a shape attribute over right-to-left
 text were in logical order

---
 pango/layout_line.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pango/layout_line.go b/pango/layout_line.go
index ff8068a..6f46451 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -248,6 +248,9 @@ func (line *LayoutLine) shapeRun(state *paraBreakState, item *Item) *GlyphString
 		}
 		if state.properties.shape != nil {
 			glyphs._pango_shape_shape(layout.Text[item.Offset:item.Offset+item.Length], state.properties.shape.logical)
+			if item.Analysis.Level%2 != 0 { // glyphs are in visual order
+				glyphs.reverse()
+			}
 		} else {
 			item.Shape(layout.Text, layout.logAttrs[state.startOffset:], glyphs, shapeFlag)
 		}
-- 
2.43.0


From efddc6f44edf453910408212d74a4d7cb45b98ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:07 +0000
Subject: [PATCH 13/93] fix: charset equality and inclusion ignored that
 DelChar leaves empty pages

---
 fontconfig/charset.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/fontconfig/charset.go b/fontconfig/charset.go
index 70c5c1e..a0878ff 100644
--- a/fontconfig/charset.go
+++ b/fontconfig/charset.go
@@ -161,7 +161,17 @@ func charsetSubtractCount(a, b Charset) uint32 {
 // Returns whether `a` and `b` contain the same set of Unicode chars.
 func charsetEqual(a, b Charset) bool {
 	ai, bi := newCharsetIter(a), newCharsetIter(b)
-	for ai.leaf != nil && bi.leaf != nil {
+	for {
+		// DelChar may leave empty leaves
+		for ai.leaf != nil && *ai.leaf == (charPage{}) {
+			ai.next()
+		}
+		for bi.leaf != nil && *bi.leaf == (charPage{}) {
+			bi.next()
+		}
+		if ai.leaf == nil || bi.leaf == nil {
+			return ai.leaf == bi.leaf
+		}
 		if ai.page() != bi.page() {
 			return false
 		}
@@ -171,13 +181,19 @@ func charsetEqual(a, b Charset) bool {
 		ai.next()
 		bi.next()
 	}
-	return ai.leaf == bi.leaf
 }
 
 // return true iff a is a subset of b
 func (a Charset) isSubset(b Charset) bool {
 	ai, bi := 0, 0
-	for ai < len(a.pageNumbers) && bi < len(b.pageNumbers) {
+	for ai < len(a.pageNumbers) {
+		if a.pages[ai] == (charPage{}) { // DelChar may leave empty leaves
+			ai++
+			continue
+		}
+		if bi >= len(b.pageNumbers) {
+			break
+		}
 		an := a.pageNumbers[ai]
 		bn := b.pageNumbers[bi]
 		// Check matching pages
-- 
2.43.0


From f4aa3518ebf95019a96bd171a686c4306bbd87e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:33 +0000
Subject: [PATCH 14/93] fix: parsing a charset hung on a single character, and
 misread a range with a space on one side of the dash

---
 fontconfig/charset.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/fontconfig/charset.go b/fontconfig/charset.go
index a0878ff..a94f999 100644
--- a/fontconfig/charset.go
+++ b/fontconfig/charset.go
@@ -57,23 +57,19 @@ func (s Charset) hash() []byte {
 }
 
 func parseCharSet(str string) (Charset, error) {
-	fields := strings.Fields(str)
+	// the separator may be surrounded by spaces or not
+	fields := strings.Fields(strings.ReplaceAll(str, "-", " - "))
 
 	var out Charset
 	for len(fields) != 0 {
-		// either the separator is surrounded by space or not
-		chunks := strings.Split(fields[0], "-")
 		firstS, lastS := fields[0], ""
-		if len(chunks) == 2 {
-			firstS, lastS = chunks[0], chunks[1]
-			fields = fields[1:]
-		} else if strings.HasSuffix(fields[0], "-") && len(fields) >= 2 {
-			firstS = strings.TrimSuffix(firstS, "-")
+		fields = fields[1:]
+		if len(fields) != 0 && fields[0] == "-" {
+			if len(fields) < 2 {
+				return out, fmt.Errorf("fontconfig: invalid charset: missing last element after %s", firstS)
+			}
 			lastS = fields[1]
 			fields = fields[2:]
-		} else if len(fields) >= 3 && fields[1] == "-" {
-			lastS = fields[2]
-			fields = fields[3:]
 		}
 
 		first, err := strconv.ParseInt(firstS, 16, 32)
-- 
2.43.0


From 8601eb5e9dbebd1adb91683e51d319be58daa188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:31 +0000
Subject: [PATCH 15/93] fix: any extra language made every language supported,
 and a missing one was ignored by the inclusion

---
 fontconfig/lang.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/fontconfig/lang.go b/fontconfig/lang.go
index a2adc44..15f825e 100644
--- a/fontconfig/lang.go
+++ b/fontconfig/lang.go
@@ -372,13 +372,12 @@ func (ls Langset) containsLang(lang string) bool {
 		}
 	}
 
-	var extra string
-	for extra = range ls.extra {
+	for extra := range ls.extra {
 		if langContains(extra, lang) {
-			break
+			return true
 		}
 	}
-	return extra != ""
+	return false
 }
 
 // return true if lsa contains every language in lsb
@@ -400,18 +399,14 @@ func (lsa Langset) includes(lsb Langset) bool {
 			}
 		}
 	}
-	var extra string
 	for extra := range lsb.extra {
 		if !lsa.containsLang(extra) {
 			if debugMode {
 				fmt.Printf("\tMissing string %s\n", extra)
 			}
-			break
+			return false
 		}
 	}
-	if extra != "" {
-		return false
-	}
 	return true
 }
 
-- 
2.43.0


From f4679d28ac788545ef420296bf8d956cf2839b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:31 +0000
Subject: [PATCH 16/93] fix: the territory of a locale was never recognized,
 nor C.UTF-8

---
 fontconfig/lang.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fontconfig/lang.go b/fontconfig/lang.go
index 15f825e..8689b97 100644
--- a/fontconfig/lang.go
+++ b/fontconfig/lang.go
@@ -83,7 +83,7 @@ func normalizeLang(lang string) string {
 
 	lang = strings.ToLower(lang)
 	switch lang {
-	case "c", "c.utf-8, c.utf8", "posix":
+	case "c", "c.utf-8", "c.utf8", "posix":
 		return "en"
 	}
 
@@ -144,9 +144,9 @@ func normalizeLang(lang string) string {
 		tm += "@" + modifier
 	}
 	if territory != "" {
-		if findLangIndex(lang+"_"+tm) < 0 {
+		if findLangIndex(lang+"-"+tm) < 0 {
 		} else {
-			return lang + "_" + tm
+			return lang + "-" + tm
 		}
 	}
 	if modifier != "" {
-- 
2.43.0


From e227ba6520c068d057a0ce91f84a35fd5b97ce1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:31 +0000
Subject: [PATCH 17/93] fix: the text form of an empty set of languages was
 parsed as the empty language

---
 fontconfig/lang.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fontconfig/lang.go b/fontconfig/lang.go
index 8689b97..bace3be 100644
--- a/fontconfig/lang.go
+++ b/fontconfig/lang.go
@@ -416,6 +416,9 @@ func (lsa Langset) includes(lsb Langset) bool {
 func NewLangset(str string) Langset {
 	var ls Langset
 	for _, lang := range strings.Split(str, "|") {
+		if lang == "" { // ignore an empty item
+			continue
+		}
 		ls.add(lang)
 	}
 	return ls
-- 
2.43.0


From efe53d995cedea4a88fbec907eadcf0911ff97ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:31 +0000
Subject: [PATCH 18/93] fix: FC_LANG was not read to find the default languages

---
 fontconfig/fontconfig.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fontconfig/fontconfig.go b/fontconfig/fontconfig.go
index 41a1ad0..6278008 100644
--- a/fontconfig/fontconfig.go
+++ b/fontconfig/fontconfig.go
@@ -270,7 +270,7 @@ func getDefaultLangs() strSet {
 
 	defaultLangs = make(strSet)
 
-	langs := os.Getenv("LANG")
+	langs := os.Getenv("FC_LANG")
 	if langs == "" {
 		langs = os.Getenv("LC_ALL")
 	}
-- 
2.43.0


From e39e5e15db9f19b8d18e8d4bd0cda29c8b1e147f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:03 +0000
Subject: [PATCH 19/93] fix: reading a font set accepted values of unknown
 type, as nil values

---
 fontconfig/cache.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fontconfig/cache.go b/fontconfig/cache.go
index 8294d47..d52c197 100644
--- a/fontconfig/cache.go
+++ b/fontconfig/cache.go
@@ -301,6 +301,8 @@ func (v *valueElt) deserializeBin(data []byte) (int, error) {
 		var out Range
 		valueSize, err = out.deserializeBin(data[2:])
 		v.Value = out
+	default:
+		return 0, fmt.Errorf("invalid value type: %d", type_)
 	}
 
 	return 2 + valueSize, err
-- 
2.43.0


From 3efd8a555583fe2d045f92331acfccde76f2b98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:01 +0000
Subject: [PATCH 20/93] fix: default substitution ignored a pixel size given as
 an integer

---
 fontconfig/pattern.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fontconfig/pattern.go b/fontconfig/pattern.go
index 681ce09..70ce318 100644
--- a/fontconfig/pattern.go
+++ b/fontconfig/pattern.go
@@ -480,8 +480,8 @@ func (pattern Pattern) SubstituteDefault() {
 		pixelsize *= dpi / 72.0
 		pattern.AddFloat(PIXEL_SIZE, pixelsize)
 	} else {
-		sizeF, _ := pixelSize[0].Value.(Float)
-		size = float32(sizeF) / dpi * 72.0 / scale
+		sizeF, _ := pattern.GetFloat(PIXEL_SIZE)
+		size = sizeF / dpi * 72.0 / scale
 	}
 	pattern.Del(SIZE)
 	pattern.AddFloat(SIZE, size)
-- 
2.43.0


From ac25e2b482d58bf3d422e1cb47e0bdb48f7075d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:01 +0000
Subject: [PATCH 21/93] fix: different patterns could have the same hash

---
 fontconfig/lang.go   |  3 ++-
 fontconfig/values.go | 18 ++++++++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/fontconfig/lang.go b/fontconfig/lang.go
index bace3be..ee96e08 100644
--- a/fontconfig/lang.go
+++ b/fontconfig/lang.go
@@ -44,12 +44,13 @@ func (l Langset) hash() []byte {
 	for i, v := range l.page {
 		binary.BigEndian.PutUint32(out[4*i:], v)
 	}
-	extra := make([]string, len(l.extra))
+	extra := make([]string, 0, len(l.extra))
 	for ex := range l.extra {
 		extra = append(extra, ex)
 	}
 	sort.Strings(extra)
 	for _, s := range extra {
+		out = append(out, '|')
 		out = append(out, s...)
 	}
 	return out
diff --git a/fontconfig/values.go b/fontconfig/values.go
index fe957ab..f00a8dd 100644
--- a/fontconfig/values.go
+++ b/fontconfig/values.go
@@ -1,6 +1,7 @@
 package fontconfig
 
 import (
+	"encoding/binary"
 	"fmt"
 	"io"
 	"log"
@@ -278,11 +279,24 @@ func (v valueElt) String() string {
 	return fmt.Sprintf("%v (%s)", v.Value, v.Binding)
 }
 
+// the hash starts by the type of the value, and its length,
+// so that lists of values are not confused; as in valueEqual, Int
+// and Float are compared as numbers
 func (v valueElt) hash() []byte {
+	type_ := v.dataType()
+	if type_ == tInt {
+		type_ = tFloat
+	}
+	var content []byte
 	if withHash, ok := v.Value.(hasher); ok {
-		return withHash.hash()
+		content = withHash.hash()
+	} else {
+		content = []byte(fmt.Sprintf("%v", v.Value))
 	}
-	return []byte(fmt.Sprintf("%v", v.Value))
+	out := make([]byte, 5, 5+len(content))
+	out[0] = type_
+	binary.BigEndian.PutUint32(out[1:], uint32(len(content)))
+	return append(out, content...)
 }
 
 func (v valueElt) asGoSource() string {
-- 
2.43.0


From 89d8e163883b267548d04bbb04e2089139a7c584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:57 +0000
Subject: [PATCH 22/93] fix: look for the families of a pattern by name, not by
 the hash of the value

---
 fontconfig/match.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fontconfig/match.go b/fontconfig/match.go
index 9ed2872..60b8002 100644
--- a/fontconfig/match.go
+++ b/fontconfig/match.go
@@ -596,7 +596,8 @@ func (pat Pattern) newCompareData() compareData {
 
 	elt := pat.getVals(FAMILY)
 	for i, l := range elt {
-		key := string(l.hash()) // l must have type string, but we are cautious
+		family, _ := l.Value.(String) // should be string, but we are cautious
+		key := string(family)
 		e, ok := table.lookup(key)
 		if !ok {
 			e = new(familyEntry)
-- 
2.43.0


From d752196a5f3c757f10d97be357d582dc62e4d914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:23 +0000
Subject: [PATCH 23/93] fix: globs of file names crashed or were misread

---
 fontconfig/match.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/fontconfig/match.go b/fontconfig/match.go
index 60b8002..61c8df6 100644
--- a/fontconfig/match.go
+++ b/fontconfig/match.go
@@ -312,25 +312,24 @@ func strGlobMatch(glob, st string) bool {
 	for i, c := range []byte(glob) {
 		switch c {
 		case '*':
+			rest := glob[i+1:]
 			// short circuit common case
-			if i == len(glob)-1 {
+			if rest == "" {
 				return true
 			}
 			// short circuit another common case
-			if i < len(glob)-1 && glob[i+1] == '*' {
-
+			if strings.IndexByte(rest, '*') == -1 {
 				l1 := len(st) - str
-				l2 := len(glob)
+				l2 := len(rest)
 				if l1 < l2 {
 					return false
 				}
 				str += (l1 - l2)
 			}
-			for str < len(st) {
-				if strGlobMatch(glob, st[str:]) {
+			for ; str <= len(st); str++ {
+				if strGlobMatch(rest, st[str:]) {
 					return true
 				}
-				str++
 			}
 			return false
 		case '?':
@@ -339,7 +338,7 @@ func strGlobMatch(glob, st string) bool {
 			}
 			str++
 		default:
-			if st[str] != c {
+			if str == len(st) || st[str] != c {
 				return false
 			}
 			str++
-- 
2.43.0


From 2083b8bc058b9d988255529d88c0f0542da0f7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:23 +0000
Subject: [PATCH 24/93] fix: fonts at the same distance were sorted in any
 order

---
 fontconfig/match.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fontconfig/match.go b/fontconfig/match.go
index 61c8df6..41d8507 100644
--- a/fontconfig/match.go
+++ b/fontconfig/match.go
@@ -882,7 +882,7 @@ func (set Fontset) Sort(p Pattern, trim bool) (Fontset, Charset) {
 		nodes[i] = newPtr
 	}
 
-	sort.Slice(nodes, func(i, j int) bool { return sortCompare(nodes[i], nodes[j]) })
+	sort.SliceStable(nodes, func(i, j int) bool { return sortCompare(nodes[i], nodes[j]) })
 
 	for _, node := range nodes {
 		satisfies := false
@@ -907,7 +907,7 @@ func (set Fontset) Sort(p Pattern, trim bool) (Fontset, Charset) {
 	}
 
 	// re-sort once the language issues have been settled
-	sort.Slice(nodes, func(i, j int) bool { return sortCompare(nodes[i], nodes[j]) })
+	sort.SliceStable(nodes, func(i, j int) bool { return sortCompare(nodes[i], nodes[j]) })
 
 	return sortWalk(nodes, trim)
 }
-- 
2.43.0


From 27cd121fee0a8127f72d438435a87195c7119566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:23 +0000
Subject: [PATCH 25/93] fix: the coverage returned by Sort was empty when trim
 was false

---
 fontconfig/match.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/fontconfig/match.go b/fontconfig/match.go
index 41d8507..55e6fb9 100644
--- a/fontconfig/match.go
+++ b/fontconfig/match.go
@@ -951,13 +951,11 @@ func sortWalk(n []*sortNode, trim bool) (Fontset, Charset) {
 	for i, node := range n {
 		addsChars := false
 
-		// Only fetch node charset if we'd need it
-		if trim {
-			ncs, ok := node.pattern.GetCharset(CHARSET)
-			if !ok {
-				continue
-			}
+		ncs, ok := node.pattern.GetCharset(CHARSET)
+		if ok {
 			addsChars = csp.merge(ncs)
+		} else if trim {
+			continue
 		}
 
 		// If this font isn't a subset of the previous fonts, add it to the list
-- 
2.43.0


From a5e4b9c81b05da6277e805d53d1ac6afdf4731e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:23 +0000
Subject: [PATCH 26/93] fix: empty family and PostScript names crashed the
 matching, and dashes counted in the distance

---
 fontconfig/match.go | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/fontconfig/match.go b/fontconfig/match.go
index 55e6fb9..b88e5b2 100644
--- a/fontconfig/match.go
+++ b/fontconfig/match.go
@@ -90,33 +90,30 @@ func compareFamily(v1, v2 Value) (Value, float32) {
 
 	bestValue := v2
 
-	if toLower(v1String) != toLower(v2String) &&
-		v1String[0] != ' ' && v2String[0] != ' ' {
-		return bestValue, 1.0
-	}
-
 	if ignoreBlanksAndCase(v1String) == ignoreBlanksAndCase(v2String) {
 		return bestValue, 0
 	}
 	return bestValue, 1
 }
 
-var delimReplacer = strings.NewReplacer(" ", "", "-", "")
-
+// returns the number of bytes at the start of `s1` which match
+// the start of `s2`, ignoring case, spaces and dashes
 func matchIgnoreCaseAndDelims(s1, s2 string) int {
-	s1, s2 = delimReplacer.Replace(s1), delimReplacer.Replace(s2)
-	s1, s2 = strings.ToLower(s1), strings.ToLower(s2)
-	l := len(s1)
-	if len(s2) < l {
-		l = len(s2)
-	}
-	i := 0
-	for ; i < l; i++ {
-		if s1[i] != s2[i] {
-			break
+	isDelim := func(c byte) bool { return c == ' ' || c == '-' }
+	i, j := 0, 0
+	for {
+		for i < len(s1) && isDelim(s1[i]) {
+			i++
 		}
+		for j < len(s2) && isDelim(s2[j]) {
+			j++
+		}
+		if i == len(s1) || j == len(s2) || toLower(s1[i:]) != toLower(s2[j:]) {
+			return i
+		}
+		i++
+		j++
 	}
-	return i
 }
 
 func comparePostScript(v1, v2 Value) (Value, float32) {
@@ -125,9 +122,11 @@ func comparePostScript(v1, v2 Value) (Value, float32) {
 
 	bestValue := v2
 
-	if toLower(v1_string) != toLower(v2_string) &&
-		v1_string[0] != ' ' && v2_string[0] != ' ' {
-		return bestValue, 1.0
+	if v1_string == "" {
+		if v2_string == "" {
+			return bestValue, 0
+		}
+		return bestValue, 1
 	}
 
 	n := matchIgnoreCaseAndDelims(v1_string, v2_string)
-- 
2.43.0


From 718d4f9aa92a847a938a91bdec83a0726b06eb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:51 +0000
Subject: [PATCH 27/93] fix: keep as Float the results of expressions out of
 the range of Int

---
 fontconfig/expr.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fontconfig/expr.go b/fontconfig/expr.go
index b623134..70c4e25 100644
--- a/fontconfig/expr.go
+++ b/fontconfig/expr.go
@@ -365,7 +365,8 @@ func (e *expression) evaluate(result, query Pattern, kind matchKind) Value {
 			case opDivide:
 				v = vle / vre
 			}
-			if vf, ok := v.(Float); ok && vf == Float(int(vf)) {
+			// only convert the numbers in the range of Int
+			if vf, ok := v.(Float); ok && vf == Float(Int(vf)) {
 				v = Int(vf)
 			}
 		case Bool:
-- 
2.43.0


From 6a1b02ab36407a01794124febb04c7d38d71bd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:51 +0000
Subject: [PATCH 28/93] fix: logical operators on DontCare give a boolean

---
 fontconfig/expr.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/fontconfig/expr.go b/fontconfig/expr.go
index 70c4e25..8a450e3 100644
--- a/fontconfig/expr.go
+++ b/fontconfig/expr.go
@@ -375,10 +375,10 @@ func (e *expression) evaluate(result, query Pattern, kind matchKind) Value {
 				break
 			}
 			switch op {
-			case opOr:
-				v = vle | vre
+			case opOr: // DontCare is considered as true
+				v = boolOf(vle != False || vre != False)
 			case opAnd:
-				v = vle & vre
+				v = boolOf(vle != False && vre != False)
 			}
 		case String:
 			vre, sameType := vre.(String)
@@ -425,7 +425,7 @@ func (e *expression) evaluate(result, query Pattern, kind matchKind) Value {
 		tree := e.u.(exprTree)
 		vl := tree.left.evaluate(result, query, kind)
 		if b, ok := vl.(Bool); ok {
-			v = 1 - b&1
+			v = boolOf(b == False)
 		}
 	case opFloor, opCeil, opRound, opTrunc:
 		tree := e.u.(exprTree)
@@ -449,6 +449,13 @@ func (e *expression) evaluate(result, query Pattern, kind matchKind) Value {
 	return v
 }
 
+func boolOf(b bool) Bool {
+	if b {
+		return True
+	}
+	return False
+}
+
 func (parser *configParser) typecheckValue(value, type_ typeMeta) error {
 	if (value == typeInt{}) {
 		value = typeFloat{}
-- 
2.43.0


From 2ece971f6708b570fcebd6aafd759550d513e003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:53 +0000
Subject: [PATCH 29/93] fix: compare and combine integers exactly in
 expressions

---
 fontconfig/expr.go   | 35 ++++++++++++++++++++++++++++++++++-
 fontconfig/values.go |  3 +++
 2 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/fontconfig/expr.go b/fontconfig/expr.go
index 8a450e3..c0b0ad8 100644
--- a/fontconfig/expr.go
+++ b/fontconfig/expr.go
@@ -350,6 +350,12 @@ func (e *expression) evaluate(result, query Pattern, kind matchKind) Value {
 		vre := promote(vr, vle)
 		v = nil
 		switch vle := vle.(type) {
+		case Int:
+			vre, sameType := vre.(Int)
+			if !sameType {
+				break
+			}
+			v = combineInts(op, vle, vre)
 		case Float:
 			vre, sameType := vre.(Float)
 			if !sameType {
@@ -449,6 +455,30 @@ func (e *expression) evaluate(result, query Pattern, kind matchKind) Value {
 	return v
 }
 
+// an integral result is an Int, when in range
+func combineInts(op opKind, a, b Int) Value {
+	var r int64
+	switch op {
+	case opPlus:
+		r = int64(a) + int64(b)
+	case opMinus:
+		r = int64(a) - int64(b)
+	case opTimes:
+		r = int64(a) * int64(b)
+	case opDivide:
+		if b == 0 || int64(a)%int64(b) != 0 {
+			return Float(float64(a) / float64(b))
+		}
+		r = int64(a) / int64(b)
+	default:
+		return nil
+	}
+	if r != int64(Int(r)) {
+		return Float(r)
+	}
+	return Int(r)
+}
+
 func boolOf(b bool) Bool {
 	if b {
 		return True
@@ -566,7 +596,10 @@ func promote(v, u Value) Value {
 	// we choose to simplify and not use buffer
 	switch val := v.(type) {
 	case Int:
-		v = promoteFloat(Float(val), u)
+		// integers are compared and combined exactly
+		if _, bothInt := u.(Int); !bothInt {
+			v = promoteFloat(Float(val), u)
+		}
 	case Float:
 		v = promoteFloat(val, u)
 	case nil:
diff --git a/fontconfig/values.go b/fontconfig/values.go
index f00a8dd..d7615dc 100644
--- a/fontconfig/values.go
+++ b/fontconfig/values.go
@@ -229,6 +229,9 @@ func (object Object) hasValidType(val Value) bool {
 // compared ignoring case.
 func valueEqual(va, vb Value) bool {
 	if v, ok := va.(Int); ok {
+		if w, ok := vb.(Int); ok {
+			return v == w
+		}
 		va = Float(v)
 	}
 	if v, ok := vb.(Int); ok {
-- 
2.43.0


From abb14f098431eebad6d898e152efe06d4351ff3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:23 +0000
Subject: [PATCH 30/93] fix: a family test against a missing value crashed

---
 fontconfig/substitutions.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fontconfig/substitutions.go b/fontconfig/substitutions.go
index b44b32d..1d49564 100644
--- a/fontconfig/substitutions.go
+++ b/fontconfig/substitutions.go
@@ -357,15 +357,18 @@ func matchValueList(p, pPat Pattern, kind matchKind,
 
 		if t.object == FAMILY && table != nil {
 			op := t.op.getOp()
+			// a value which is not a string (for instance missing) is not in the table
+			s, isString := value.(String)
+			has := isString && table.lookup(t.op, s)
 			if op == opEqual || op == opListing {
-				if !table.lookup(t.op, value.(String)) {
+				if !has {
 					ret = -1
 					continue
 				}
 			}
 			if op == opNotEqual && t.qual == qualAll {
 				ret = -1
-				if !table.lookup(t.op, value.(String)) {
+				if !has {
 					ret = 0
 				}
 				continue
-- 
2.43.0


From 1aa6bc5d7671f4875126a79a75f0a86e351e88fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 31/93] fix: the table of families was not updated by the edits
 following a test on the query

---
 fontconfig/substitutions.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fontconfig/substitutions.go b/fontconfig/substitutions.go
index 1d49564..49c3ce2 100644
--- a/fontconfig/substitutions.go
+++ b/fontconfig/substitutions.go
@@ -475,8 +475,8 @@ func (config *Config) Substitute(p, testPattern Pattern, kind matchKind) {
 				if debugMode {
 					fmt.Println("\t\ttest for substitute", test)
 				}
-				var keep bool
-				table, keep = test.match(kind, p, testPattern, data, valuePos, targets, tst)
+				// the edits always apply to p, and update its table
+				_, keep := test.match(kind, p, testPattern, data, valuePos, targets, tst)
 				if !keep {
 					if debugMode {
 						fmt.Println("\t\t-> dont pass")
-- 
2.43.0


From dc5b3b5479499317ee158cb3c39b450f7776bbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:25 +0000
Subject: [PATCH 32/93] fix: the edits of a rule lost track of the matched
 value after a previous edit

---
 fontconfig/pattern.go       |  5 +++--
 fontconfig/substitutions.go | 23 ++++++++++++++++-------
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/fontconfig/pattern.go b/fontconfig/pattern.go
index 70ce318..702823b 100644
--- a/fontconfig/pattern.go
+++ b/fontconfig/pattern.go
@@ -381,13 +381,14 @@ func BuildPattern(elements ...PatternElement) Pattern {
 	return p
 }
 
-func (p Pattern) addWithTable(object Object, list valueList, append bool, table *familyTable) {
+// returns false if the types of the values are invalid
+func (p Pattern) addWithTable(object Object, list valueList, append bool, table *familyTable) bool {
 	e := p[object]
 	if e == nil {
 		e = &valueList{}
 		p[object] = e
 	}
-	e.insert(-1, append, list, object, table)
+	return e.insert(-1, append, list, object, table)
 }
 
 // Delete all values associated with a field
diff --git a/fontconfig/substitutions.go b/fontconfig/substitutions.go
index 49c3ce2..b289ef1 100644
--- a/fontconfig/substitutions.go
+++ b/fontconfig/substitutions.go
@@ -116,14 +116,16 @@ func (r ruleEdit) edit(selectedKind matchKind, p, pPat Pattern, table *familyTab
 			thisValue := valuePos[object]
 
 			// Append the newList list of values after the current value
-			targetList.insert(thisValue, true, l, object, table)
+			ok := targetList.insert(thisValue, true, l, object, table)
 
 			//  Delete the marked value
-			if thisValue != -1 {
-				targetList.del(thisValue, object, table)
-			}
+			targetList.del(thisValue, object, table)
 
-			// Adjust a pointer into the value list to ensure future edits occur at the same place
+			// future edits occur at the first of the new values, which is now
+			// at `thisValue`, if any
+			if !ok || len(l) == 0 {
+				valuePos[object] = -1
+			}
 			break
 		}
 		fallthrough
@@ -135,12 +137,17 @@ func (r ruleEdit) edit(selectedKind matchKind, p, pPat Pattern, table *familyTab
 		valuePos[object] = -1
 	case opPrepend:
 		if valuePos[object] != -1 {
-			targetList.insert(valuePos[object], false, l, object, table)
+			// keep track of the matched value
+			if targetList.insert(valuePos[object], false, l, object, table) {
+				valuePos[object] += len(l)
+			}
 			break
 		}
 		fallthrough
 	case opPrependFirst:
-		p.addWithTable(object, l, false, table)
+		if p.addWithTable(object, l, false, table) && valuePos[object] != -1 {
+			valuePos[object] += len(l)
+		}
 	case opAppend:
 		if valuePos[object] != -1 {
 			targetList.insert(valuePos[object], true, l, object, table)
@@ -152,11 +159,13 @@ func (r ruleEdit) edit(selectedKind matchKind, p, pPat Pattern, table *familyTab
 	case opDelete:
 		if valuePos[object] != -1 {
 			targetList.del(valuePos[object], object, table)
+			valuePos[object] = -1
 			break
 		}
 		fallthrough
 	case opDeleteAll:
 		p.delWithTable(object, table)
+		valuePos[object] = -1
 	}
 	// Now go through the pattern and eliminate any properties without data
 	p.canon(object)
-- 
2.43.0


From 69fc97b53216d09d7ebbaf31031272c3a194d422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 33/93] fix: List preferred English to the language of the user
 when it is the first of the font

---
 fontconfig/list.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fontconfig/list.go b/fontconfig/list.go
index d7273d6..c71c09f 100644
--- a/fontconfig/list.go
+++ b/fontconfig/list.go
@@ -81,10 +81,10 @@ func (font Pattern) getDefaultObjectLangIndex(object Object, lang string) int {
 		}
 	}
 
-	if idx > 0 {
+	if idx >= 0 {
 		return idx
 	}
-	if defidx > 0 {
+	if defidx >= 0 {
 		return defidx
 	}
 	return 0
-- 
2.43.0


From 33cb650fe113d29715b0caa4965b8aa250362a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 34/93] fix: ScanFontFile and ScanFontRessource ignored the
 font selectors

---
 fontconfig/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fontconfig/config.go b/fontconfig/config.go
index 2b36b1a..772fe6f 100644
--- a/fontconfig/config.go
+++ b/fontconfig/config.go
@@ -193,7 +193,7 @@ func (config *Config) ScanFontRessource(content fonts.Resource, contentID string
 			out = append(out, f)
 		}
 	}
-	return fonts, nil
+	return out, nil
 }
 
 // Recursively scan a directory and build the font patterns,
-- 
2.43.0


From 321d1378fdbd5ac80dc5855e5f58ecce3c34f495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 35/93] fix: the general category of the letters was random
 with the recent versions of Go

---
 pango/break.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/pango/break.go b/pango/break.go
index 2e6b18a..46b1fa7 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -712,6 +712,29 @@ func isOtherTerm(sbType sentenceBreakType) bool {
 		sbType == sb_STerm_Close_Sp)
 }
 
+// generalCategories does not include the aggregate LC, nor the unassigned Cn:
+// depending on the version of the standard library, unicode.Categories has them, and
+// they would hide the actual category.
+var generalCategories = [...]*unicode.RangeTable{
+	unicode.Ll, unicode.Lu, unicode.Lo, unicode.Lm, unicode.Lt,
+	unicode.Mn, unicode.Mc, unicode.Me,
+	unicode.Nd, unicode.Nl, unicode.No,
+	unicode.Zs, unicode.Zl, unicode.Zp,
+	unicode.Po, unicode.Ps, unicode.Pe, unicode.Pd, unicode.Pc, unicode.Pi, unicode.Pf,
+	unicode.Sm, unicode.Sc, unicode.Sk, unicode.So,
+	unicode.Cc, unicode.Cf, unicode.Co, unicode.Cs,
+}
+
+// lookupType returns the general category of the rune, or nil if it is unassigned
+func lookupType(r rune) *unicode.RangeTable {
+	for _, table := range generalCategories {
+		if unicode.Is(table, r) {
+			return table
+		}
+	}
+	return nil
+}
+
 func labelAlphabetic(breakType *unicode.RangeTable, script Script, wbType *wordBreakType) {
 	if breakType != ucd.BreakSA && script != language.Hiragana {
 		*wbType = wb_ALetter /* ALetter */
@@ -893,7 +916,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 			nextBreakType = ucd.LookupLineBreakClass(nextWc)
 		}
 
-		type_ := ucd.LookupType(wc)
+		type_ := lookupType(wc)
 		jamo := ucd.Jamo(breakType)
 
 		/* Determine wheter this forms a Hangul syllable with prev. */
@@ -1452,7 +1475,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 				breakOp = break_PROHIBITED
 			}
 
-			if unicode.Is(ucd.Extended_Pictographic, prevWc) && unicodedata.LookupType(prevWc) == nil &&
+			if unicode.Is(ucd.Extended_Pictographic, prevWc) && lookupType(prevWc) == nil &&
 				breakType == ucd.BreakEM {
 				breakOp = break_PROHIBITED
 			}
-- 
2.43.0


From a2f7c89bb3eb8755552ba701c9478012ac629864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 36/93] fix: a word boundary could be set inside a grapheme,
 before a regional indicator

---
 pango/break.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pango/break.go b/pango/break.go
index 46b1fa7..f5c502e 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -1264,6 +1264,8 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 					prevWbI = i
 				}
 			}
+			// the regional indicators are always considered above
+			isWordBoundary = isWordBoundary && isGraphemeBoundary
 			attrs[i].setWordBoundary(isWordBoundary)
 		}
 
-- 
2.43.0


From c17a2c3daac2b9880aa86ac1fa016b12e64e7c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 37/93] fix: no grapheme boundary in front of a Hangul letter
 separated from the previous one by a space

---
 pango/break.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/break.go b/pango/break.go
index f5c502e..4b2b2e8 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -1784,7 +1784,6 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 				prevPrevBreakType = prevBreakType
 				prevBreakType = breakType
 			}
-			prevJamo = jamo
 		} else {
 			if prevBreakType != ucd.BreakSP {
 				prevPrevBreakType = prevBreakType
@@ -1792,6 +1791,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 			}
 			/* else don't change the prevBreakType */
 		}
+		prevJamo = jamo
 
 		/* ---- Word breaks ---- */
 
-- 
2.43.0


From 80edece917befa8457c1b7cc5dd5655922ba529a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:53 +0000
Subject: [PATCH 38/93] fix: an emoji was joined to the previous one through
 two joiners

---
 pango/break.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/break.go b/pango/break.go
index 4b2b2e8..be9aa0b 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -1020,7 +1020,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 
 			/* Rule GB11 */
 			if metExtendedPictographic {
-				if gbType == gb_Extend {
+				if gbType == gb_Extend && prevGbType != gb_ZWJ {
 					metExtendedPictographic = true
 				} else if unicode.Is(ucd.Extended_Pictographic, prevWc) && gbType == gb_ZWJ {
 					metExtendedPictographic = true
-- 
2.43.0


From bca9534425cfd86ef8ec5a147bf61782b346800b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:54 +0000
Subject: [PATCH 39/93] fix: the zero width space did not separate the words

---
 pango/break.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pango/break.go b/pango/break.go
index be9aa0b..1d0d35a 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -1137,6 +1137,9 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 					case unicode.Zl, unicode.Zp:
 						wbType = wb_NewlineCRLF /* CR, LF, Newline */
 					case unicode.Cf, unicode.Mc, unicode.Me, unicode.Mn:
+						if wc == 0x200B {
+							break /* the zero width space separates the words */
+						}
 						wbType = wb_ExtendFormat /* Extend, Format */
 					case unicode.Pc:
 						wbType = wb_ExtendNumLet /* ExtendNumLet */
-- 
2.43.0


From 40b9cfa10ad7b5f89f5fe6b038211e39ed460e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:54 +0000
Subject: [PATCH 40/93] fix: no word boundary between a CR LF and a combining
 mark

---
 pango/break.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pango/break.go b/pango/break.go
index 1d0d35a..efacfae 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -1082,7 +1082,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 		/* ---- UAX#29 Word Boundaries ---- */
 		var isWordBoundary bool
 		{
-			if isGraphemeBoundary || (wc >= 0x1F1E6 && wc <= 0x1F1FF) { /* Rules WB3 and WB4 */
+			if isGraphemeBoundary || wc == '\n' || (wc >= 0x1F1E6 && wc <= 0x1F1FF) { /* Rules WB3 and WB4 */
 				/* Find the WordBreakType of wc */
 				wbType := wb_Other
 
@@ -1267,7 +1267,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 					prevWbI = i
 				}
 			}
-			// the regional indicators are always considered above
+			// the regional indicators and the line feeds are always considered above
 			isWordBoundary = isWordBoundary && isGraphemeBoundary
 			attrs[i].setWordBoundary(isWordBoundary)
 		}
-- 
2.43.0


From baae632fcc362b6237d011d8af10ef0d8f485746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:54 +0000
Subject: [PATCH 41/93] fix: a word ended twice, and its second part never
 started, in Japanese texts

---
 pango/break.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pango/break.go b/pango/break.go
index efacfae..0e77867 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -1822,6 +1822,8 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 							(!japanese(lastWordLetter) &&
 								japanese(wc)) {
 							attrs[i].setWordEnd(true)
+							// and the start of the next one
+							attrs[i].setWordStart(true)
 						}
 					}
 				}
-- 
2.43.0


From 3eba9f419a6abd4138d2436d273afb1fd94c2d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:54 +0000
Subject: [PATCH 42/93] fix: a line could be broken between a Hangul syllable
 and a leader

---
 pango/break.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/break.go b/pango/break.go
index 0e77867..ebfddb3 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -1504,7 +1504,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 				prevBreakType == ucd.BreakJT ||
 				prevBreakType == ucd.BreakH2 ||
 				prevBreakType == ucd.BreakH3) &&
-				breakType == ucd.BreakPO {
+				(breakType == ucd.BreakPO || breakType == ucd.BreakIN) {
 				breakOp = break_PROHIBITED
 			}
 			if prevBreakType == ucd.BreakPR &&
-- 
2.43.0


From 89847749a7363893ee7f4997ac91fadb17c62a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:54 +0000
Subject: [PATCH 43/93] fix: no sentence boundary between a closed sentence and
 a digit

---
 pango/break.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/pango/break.go b/pango/break.go
index ebfddb3..c53ba2f 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -318,6 +318,9 @@ const (
 	sb_SContinue
 	sb_STerm
 	sb_Close
+	/* Rules SB8, SB8a and SB9 */
+	sb_ATerm_Close
+	sb_STerm_Close
 	/* Rules SB8 and SB8a */
 	sb_ATerm_Close_Sp
 	sb_STerm_Close_Sp
@@ -708,6 +711,7 @@ func isOtherTerm(sbType sentenceBreakType) bool {
 		sbType == sb_Upper || sbType == sb_Lower ||
 		sbType == sb_ParaSep ||
 		sbType == sb_ATerm || sbType == sb_STerm ||
+		sbType == sb_ATerm_Close || sbType == sb_STerm_Close ||
 		sbType == sb_ATerm_Close_Sp ||
 		sbType == sb_STerm_Close_Sp)
 }
@@ -1308,19 +1312,21 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 					prevSbType == sb_ATerm &&
 					sbType == sb_Upper:
 					isSentenceBoundary = false /* Rule SB7 */
-				case prevSbType == sb_ATerm && sbType == sb_Close:
-					sbType = sb_ATerm
-				case prevSbType == sb_STerm && sbType == sb_Close:
-					sbType = sb_STerm
-				case prevSbType == sb_ATerm && sbType == sb_Sp:
+				case (prevSbType == sb_ATerm || prevSbType == sb_ATerm_Close) && sbType == sb_Close:
+					sbType = sb_ATerm_Close
+				case (prevSbType == sb_STerm || prevSbType == sb_STerm_Close) && sbType == sb_Close:
+					sbType = sb_STerm_Close
+				case (prevSbType == sb_ATerm || prevSbType == sb_ATerm_Close) && sbType == sb_Sp:
 					sbType = sb_ATerm_Close_Sp
-				case prevSbType == sb_STerm && sbType == sb_Sp:
+				case (prevSbType == sb_STerm || prevSbType == sb_STerm_Close) && sbType == sb_Sp:
 					sbType = sb_STerm_Close_Sp
 				/* Rule SB8 */
 				case (prevSbType == sb_ATerm ||
+					prevSbType == sb_ATerm_Close ||
 					prevSbType == sb_ATerm_Close_Sp) && sbType == sb_Lower:
 					isSentenceBoundary = false
 				case (prevPrevSbType == sb_ATerm ||
+					prevPrevSbType == sb_ATerm_Close ||
 					prevPrevSbType == sb_ATerm_Close_Sp) &&
 					isOtherTerm(prevSbType) && sbType == sb_Lower:
 
@@ -1335,25 +1341,33 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 						}
 					}
 				case (prevSbType == sb_ATerm ||
+					prevSbType == sb_ATerm_Close ||
 					prevSbType == sb_ATerm_Close_Sp ||
 					prevSbType == sb_STerm ||
+					prevSbType == sb_STerm_Close ||
 					prevSbType == sb_STerm_Close_Sp) &&
 					(sbType == sb_SContinue || sbType == sb_ATerm || sbType == sb_STerm):
 					isSentenceBoundary = false /* Rule SB8a */
 				case (prevSbType == sb_ATerm ||
-					prevSbType == sb_STerm) &&
+					prevSbType == sb_ATerm_Close ||
+					prevSbType == sb_STerm ||
+					prevSbType == sb_STerm_Close) &&
 					(sbType == sb_Close || sbType == sb_Sp ||
 						sbType == sb_ParaSep):
 					isSentenceBoundary = false /* Rule SB9 */
 				case (prevSbType == sb_ATerm ||
+					prevSbType == sb_ATerm_Close ||
 					prevSbType == sb_ATerm_Close_Sp ||
 					prevSbType == sb_STerm ||
+					prevSbType == sb_STerm_Close ||
 					prevSbType == sb_STerm_Close_Sp) &&
 					(sbType == sb_Sp || sbType == sb_ParaSep):
 					isSentenceBoundary = false /* Rule SB10 */
 				case (prevSbType == sb_ATerm ||
+					prevSbType == sb_ATerm_Close ||
 					prevSbType == sb_ATerm_Close_Sp ||
 					prevSbType == sb_STerm ||
+					prevSbType == sb_STerm_Close ||
 					prevSbType == sb_STerm_Close_Sp) &&
 					sbType != sb_ParaSep:
 					isSentenceBoundary = true /* Rule SB11 */
@@ -1362,7 +1376,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 				}
 
 				if sbType != sb_ExtendFormat &&
-					!((prevPrevSbType == sb_ATerm || prevPrevSbType == sb_ATerm_Close_Sp) &&
+					!((prevPrevSbType == sb_ATerm || prevPrevSbType == sb_ATerm_Close || prevPrevSbType == sb_ATerm_Close_Sp) &&
 						isOtherTerm(prevSbType) &&
 						isOtherTerm(sbType)) {
 					prevPrevSbType = prevSbType
-- 
2.43.0


From fd84cec7c094f27664ca14b6d3d09403e8716824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:47 +0000
Subject: [PATCH 44/93] fix: the digits following a prepended mark were ignored
 by the line breaking rules

---
 pango/break.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pango/break.go b/pango/break.go
index c53ba2f..4725ee3 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -1418,7 +1418,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 		}
 
 		/* If it's not a grapheme boundary, it's not a line break either */
-		if attrs[i].IsCursorPosition() ||
+		canBreak := attrs[i].IsCursorPosition() ||
 			breakType == ucd.BreakEM ||
 			breakType == ucd.BreakZWJ ||
 			breakType == ucd.BreakCM ||
@@ -1427,8 +1427,8 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 			breakType == ucd.BreakJT ||
 			breakType == ucd.BreakH2 ||
 			breakType == ucd.BreakH3 ||
-			breakType == ucd.BreakRI {
-
+			breakType == ucd.BreakRI
+		{
 			/* Find the LineBreakType of wc */
 			lbType := lb_Other
 
@@ -1767,6 +1767,9 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 				attrs[i].setLineBreak(true)
 			case break_ALREADY_HANDLED:
 			}
+			if !canBreak {
+				attrs[i].setLineBreak(false)
+			}
 
 			/* Rule LB9 */
 			if !(breakType == ucd.BreakCM ||
-- 
2.43.0


From b1338d9a3611638c8f2cc855caaa51d0aeb325a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:11 +0000
Subject: [PATCH 45/93] fix: the characters inside a grapheme were ignored by
 the word rules

---
 pango/break.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pango/break.go b/pango/break.go
index 4725ee3..6c7c42a 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -1086,7 +1086,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 		/* ---- UAX#29 Word Boundaries ---- */
 		var isWordBoundary bool
 		{
-			if isGraphemeBoundary || wc == '\n' || (wc >= 0x1F1E6 && wc <= 0x1F1FF) { /* Rules WB3 and WB4 */
+			{
 				/* Find the WordBreakType of wc */
 				wbType := wb_Other
 
@@ -1145,6 +1145,10 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 							break /* the zero width space separates the words */
 						}
 						wbType = wb_ExtendFormat /* Extend, Format */
+					case unicode.Sk:
+						if wc >= 0x1F3FB && wc <= 0x1F3FF { /* Fitzpatrick modifiers */
+							wbType = wb_ExtendFormat
+						}
 					case unicode.Pc:
 						wbType = wb_ExtendNumLet /* ExtendNumLet */
 					case unicode.Pf, unicode.Pi:
@@ -1271,7 +1275,8 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 					prevWbI = i
 				}
 			}
-			// the regional indicators and the line feeds are always considered above
+			// the characters inside a grapheme are considered above, but are not boundaries
+			// (Rules WB3 and WB4)
 			isWordBoundary = isWordBoundary && isGraphemeBoundary
 			attrs[i].setWordBoundary(isWordBoundary)
 		}
-- 
2.43.0


From d5688728801755b6e145a7fc400d9f8f6c990181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:11 +0000
Subject: [PATCH 46/93] fix: a word boundary between two Hebrew letters
 separated by a quotation mark with an accent

---
 pango/break.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/break.go b/pango/break.go
index 6c7c42a..3c0514f 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -1254,7 +1254,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 					isWordBoundary = false                /* Rule WB7 */
 				} else if prevWbType == wb_Hebrew_Letter && wc == 0x0027 {
 					isWordBoundary = false /* Rule WB7a */
-				} else if prevPrevWbType == wb_Hebrew_Letter && prevWc == 0x0022 &&
+				} else if prevPrevWbType == wb_Hebrew_Letter && text[prevWbI] == 0x0022 &&
 					wbType == wb_Hebrew_Letter {
 					attrs[prevWbI].setWordBoundary(false) /* Rule WB7b */
 					isWordBoundary = false                /* Rule WB7c */
-- 
2.43.0


From 7588e6db44abe8ff61bf1c09d9311fcdf11f0f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:12 +0000
Subject: [PATCH 47/93] fix: no sentence boundary after several spaces of
 different kinds

---
 pango/break.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pango/break.go b/pango/break.go
index 3c0514f..2c0a279 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -1321,9 +1321,9 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 					sbType = sb_ATerm_Close
 				case (prevSbType == sb_STerm || prevSbType == sb_STerm_Close) && sbType == sb_Close:
 					sbType = sb_STerm_Close
-				case (prevSbType == sb_ATerm || prevSbType == sb_ATerm_Close) && sbType == sb_Sp:
+				case (prevSbType == sb_ATerm || prevSbType == sb_ATerm_Close || prevSbType == sb_ATerm_Close_Sp) && sbType == sb_Sp:
 					sbType = sb_ATerm_Close_Sp
-				case (prevSbType == sb_STerm || prevSbType == sb_STerm_Close) && sbType == sb_Sp:
+				case (prevSbType == sb_STerm || prevSbType == sb_STerm_Close || prevSbType == sb_STerm_Close_Sp) && sbType == sb_Sp:
 					sbType = sb_STerm_Close_Sp
 				/* Rule SB8 */
 				case (prevSbType == sb_ATerm ||
-- 
2.43.0


From 6ec5003931e8694bdd1ff0e5d2b2f440459584cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:12 +0000
Subject: [PATCH 48/93] fix: the sentence rules ignored the characters inside a
 word

---
 pango/break.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pango/break.go b/pango/break.go
index 2c0a279..02160cd 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -1284,7 +1284,7 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 		/* ---- UAX#29 Sentence Boundaries ---- */
 		var isSentenceBoundary bool
 		{
-			if isWordBoundary || wc == '\r' || wc == '\n' { /* Rules SB3 and SB5 */
+			{
 				/* Find the SentenceBreakType of wc */
 				sbType := sb_Other
 
@@ -1390,6 +1390,9 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 				}
 			}
 
+			// the characters inside a word are considered above, but are not boundaries
+			isSentenceBoundary = isSentenceBoundary && isWordBoundary
+
 			if i == 0 || done {
 				isSentenceBoundary = true /* Rules SB1 and SB2 */
 			}
-- 
2.43.0


From dbc67f2e5098d3b0db8e3aa808f446deff049622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 49/93] fix: the start of a sentence was marked twice when an
 abbreviation is not the end of a sentence

---
 pango/break.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pango/break.go b/pango/break.go
index 02160cd..e5abece 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -1340,11 +1340,16 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 					lastSentenceStart = -1
 					for j := prevSbI - 1; j >= 0; j-- {
 						attrs[j].setSentenceEnd(false)
+						attrs[j].setSentenceStart(false)
 						if attrs[j].IsSentenceBoundary() {
 							lastSentenceStart = j
 							break
 						}
 					}
+					// the sentence does not start with the spaces
+					for lastSentenceStart != -1 && lastSentenceStart < i && attrs[lastSentenceStart].IsWhite() {
+						lastSentenceStart++
+					}
 				case (prevSbType == sb_ATerm ||
 					prevSbType == sb_ATerm_Close ||
 					prevSbType == sb_ATerm_Close_Sp ||
-- 
2.43.0


From 61c7c3743fd4c4b2cf8f4b07473eed7a660b80cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 50/93] fix: the end of the previous sentence was removed when
 an abbreviation is not the end of a sentence

---
 pango/break.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pango/break.go b/pango/break.go
index e5abece..9fdf851 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -1339,12 +1339,13 @@ func pangoDefaultBreak(text []rune, attrs []CharAttr) {
 					attrs[prevSbI].setSentenceEnd(false)
 					lastSentenceStart = -1
 					for j := prevSbI - 1; j >= 0; j-- {
-						attrs[j].setSentenceEnd(false)
 						attrs[j].setSentenceStart(false)
 						if attrs[j].IsSentenceBoundary() {
+							// a sentence end at j is the one of the previous sentence
 							lastSentenceStart = j
 							break
 						}
+						attrs[j].setSentenceEnd(false)
 					}
 					// the sentence does not start with the spaces
 					for lastSentenceStart != -1 && lastSentenceStart < i && attrs[lastSentenceStart].IsWhite() {
-- 
2.43.0


From 3d7cab0c6beb7692f62d064c27de6bcedbf536a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 51/93] fix: the attributes changing the breaks crashed or
 spilled outside of their paragraph

---
 pango/break.go  | 34 +++++++++++++++++++++++++++-------
 pango/layout.go |  2 +-
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/pango/break.go b/pango/break.go
index 9fdf851..5e0040a 100644
--- a/pango/break.go
+++ b/pango/break.go
@@ -454,6 +454,10 @@ func removeBreaksFromRange(text []rune, logAttrs []CharAttr, startPos, endPos in
 			logAttrs[pos].setLineBreak(false)
 		}
 
+		if pos == len(text) { // the break at the end of the text is mandatory
+			break
+		}
+
 		ch := text[pos]
 		bt := unicodedata.LookupLineBreakClass(ch)
 
@@ -479,7 +483,11 @@ func removeBreaksFromRange(text []rune, logAttrs []CharAttr, startPos, endPos in
 	}
 }
 
-func posFromOffset(start, end, offset int, text []rune, logAttrs []CharAttr) (int, int) {
+// posFromOffset returns false if the range does not overlap the text
+func posFromOffset(start, end, offset int, text []rune, logAttrs []CharAttr) (int, int, bool) {
+	if end <= offset || start >= offset+len(text) {
+		return 0, 0, false
+	}
 	var startPos, endPos int
 	if start >= offset {
 		startPos = start - offset
@@ -489,7 +497,7 @@ func posFromOffset(start, end, offset int, text []rune, logAttrs []CharAttr) (in
 	} else {
 		endPos = end - offset
 	}
-	return startPos, endPos
+	return startPos, endPos, true
 }
 
 func handleAllowBreaks(text []rune, list AttrList, offset int, logAttrs []CharAttr) bool {
@@ -503,7 +511,10 @@ func handleAllowBreaks(text []rune, list AttrList, offset int, logAttrs []CharAt
 			continue
 		}
 		start, end := iter.StartIndex, iter.EndIndex
-		startPos, endPos := posFromOffset(start, end, offset, text, logAttrs)
+		startPos, endPos, ok := posFromOffset(start, end, offset, text, logAttrs)
+		if !ok {
+			continue
+		}
 
 		for pos := startPos + 1; pos < endPos; pos++ {
 			logAttrs[pos].setCharBreak(false)
@@ -528,7 +539,10 @@ func handleWords(text []rune, attrs AttrList, offset int, logAttrs []CharAttr) b
 		}
 
 		start, end := attr.StartIndex, attr.EndIndex
-		startPos, endPos := posFromOffset(start, end, offset, text, logAttrs)
+		startPos, endPos, ok := posFromOffset(start, end, offset, text, logAttrs)
+		if !ok {
+			continue
+		}
 
 		for pos := startPos + 1; pos < endPos; pos++ {
 			logAttrs[pos].setWordStart(false)
@@ -601,7 +615,10 @@ func handleSentences(text []rune, attrs AttrList, offset int, logAttrs []CharAtt
 		}
 
 		start, end := attr.StartIndex, attr.EndIndex
-		startPos, endPos := posFromOffset(start, end, offset, text, logAttrs)
+		startPos, endPos, ok := posFromOffset(start, end, offset, text, logAttrs)
+		if !ok {
+			continue
+		}
 
 		for pos := startPos + 1; pos < endPos; pos++ {
 			logAttrs[pos].setSentenceStart(false)
@@ -628,7 +645,7 @@ func handleSentences(text []rune, attrs AttrList, offset int, logAttrs []CharAtt
 		}
 		if end < offset+len(text) {
 			inSentence := false
-			for pos := endPos + 1; endPos < len(logAttrs); pos++ {
+			for pos := endPos + 1; pos < len(logAttrs); pos++ {
 				if logAttrs[pos].IsSentenceStart() {
 					break
 				}
@@ -658,7 +675,10 @@ func handleHyphens(text []rune, attrs AttrList, offset int, logAttrs []CharAttr)
 			continue
 		}
 
-		startPos, endPos := posFromOffset(attr.StartIndex, attr.EndIndex, offset, text, logAttrs)
+		startPos, endPos, ok := posFromOffset(attr.StartIndex, attr.EndIndex, offset, text, logAttrs)
+		if !ok {
+			continue
+		}
 
 		for pos := startPos + 1; pos < endPos; pos++ {
 			if !logAttrs[pos].IsBreakRemovesPreceding() {
diff --git a/pango/layout.go b/pango/layout.go
index a1bdae2..96db9f0 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1835,7 +1835,7 @@ func getItemsLogAttrs(text []rune, start, length int, items *ItemList, logAttrs
 	}
 
 	if items != nil {
-		pango_attr_break(text[start:], attrs, items.Data.Offset, logAttrs)
+		pango_attr_break(text[start:start+length], attrs, items.Data.Offset, logAttrs[:length+1])
 	}
 }
 
-- 
2.43.0


From 5161d54b8ccba832a8073a3354ab71e3bef86495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:15 +0000
Subject: [PATCH 52/93] fix: justified lines did not fill the width when a
 space at their end was removed

---
 pango/layout_line.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pango/layout_line.go b/pango/layout_line.go
index 6f46451..ae366d8 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -483,10 +483,9 @@ func (line *LayoutLine) postprocess(state *paraBreakState, wrapped bool) {
 
 	// Distribute extra space between words if justifying and line was wrapped
 	if line.layout.Justify && (wrapped || ellipsized || line.layout.JustifyLastLine) {
-		/* if we ellipsized, we don't have remaining_width set */
-		if state.remainingWidth < 0 {
-			state.remainingWidth = state.lineWidth - line.getWidth()
-		}
+		// If we ellipsized, we don't have remainingWidth set; otherwise, it does not
+		// account for a final space which was removed.
+		state.remainingWidth = state.lineWidth - line.getWidth()
 
 		line.justifyWords(state)
 	}
-- 
2.43.0


From 41ed1c77daf2c62164e74c7738001ede6fd974fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:15 +0000
Subject: [PATCH 53/93] fix: the width of an item was forgotten when looking
 for the place to break it

---
 pango/layout.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/layout.go b/pango/layout.go
index 96db9f0..9558271 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1471,7 +1471,6 @@ func (layout *Layout) tryAddItemToLine(line *LayoutLine, state *paraBreakState,
 
 	// From here on, we look for a way to break item
 
-	width = 0
 	var (
 		orig_width      = width
 		origExtraWidth  = extraWidth
@@ -1500,6 +1499,7 @@ retryBreak:
 	if noBreakAtEnd {
 		limit--
 	}
+	width = 0
 	for numChars = 0; numChars < limit; numChars++ {
 		extraWidth = layout.find_break_extraWidth(state, numChars)
 
-- 
2.43.0


From 7e14b400687d0da063a7c781e4cb82b739ab681b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:02 +0000
Subject: [PATCH 54/93] fix: a space was not counted in the width of a line
 which goes on after it

---
 pango/layout.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pango/layout.go b/pango/layout.go
index 9558271..11b2370 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1618,7 +1618,11 @@ retryBreak:
 
 	if forceFit || breakWidth+breakExtraWidth <= state.remainingWidth /* Successfully broke the item */ {
 		if state.remainingWidth >= 0 {
-			state.remainingWidth -= breakWidth + breakExtraWidth
+			state.remainingWidth -= breakWidth
+			if breakNumChars != item.Length {
+				// the line ends here
+				state.remainingWidth -= breakExtraWidth
+			}
 			state.remainingWidth = maxG(state.remainingWidth, 0)
 		}
 
-- 
2.43.0


From 025bc3e00a881fbd39b9529fb4d8b410921168a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:24 +0000
Subject: [PATCH 55/93] fix: laying out a text for which no font is found
 crashed

---
 pango/context.go     |  8 +++++++-
 pango/fonts.go       | 22 ++++++++++++++++++++++
 pango/glyph_item.go  |  4 ++--
 pango/glyphs.go      |  6 +++---
 pango/item.go        |  9 ++++++++-
 pango/layout.go      |  2 +-
 pango/layout_line.go |  2 +-
 7 files changed, 44 insertions(+), 9 deletions(-)

diff --git a/pango/context.go b/pango/context.go
index 05a1feb..14e3322 100644
--- a/pango/context.go
+++ b/pango/context.go
@@ -796,7 +796,9 @@ func (state *itemizeState) getFont(wc rune) (fontElement, bool) {
 
 	info := getFontInfo{lang: state.derivedLang, wc: wc}
 
-	if state.enableFallback {
+	if state.enableFallback && state.currentFonts == nil {
+		// no font matched
+	} else if state.enableFallback {
 		state.currentFonts.Foreach(func(font Font) bool {
 			return info.get_font_foreach(state.currentFonts, font)
 		})
@@ -993,6 +995,10 @@ func (context *Context) itemizeWithFont(text []rune, startIndex int, desc *FontD
 func getBaseMetrics(fs Fontset) FontMetrics {
 	var metrics FontMetrics
 
+	if fs == nil {
+		return metrics
+	}
+
 	language := fs.GetLanguage()
 
 	// Initialize the metrics from the first font in the Fontset
diff --git a/pango/fonts.go b/pango/fonts.go
index f205fd4..377946f 100644
--- a/pango/fonts.go
+++ b/pango/fonts.go
@@ -823,6 +823,28 @@ type FontMetrics struct {
 	StrikethroughThickness Unit
 }
 
+// fontGlyphExtents returns the extents of `glyph` in `font`, or default values
+// if `font` is nil
+func fontGlyphExtents(font Font, glyph Glyph, inkRect, logicalRect *Rectangle) {
+	if font != nil {
+		font.GlyphExtents(glyph, inkRect, logicalRect)
+		return
+	}
+
+	if inkRect != nil {
+		inkRect.X = Scale
+		inkRect.Y = -(unknownGlyphHeight - 1) * Scale
+		inkRect.Width = (unknownGlyphWidth - 2) * Scale
+		inkRect.Height = (unknownGlyphHeight - 2) * Scale
+	}
+	if logicalRect != nil {
+		logicalRect.X = 0
+		logicalRect.Y = -unknownGlyphHeight * Scale
+		logicalRect.Width = unknownGlyphWidth * Scale
+		logicalRect.Height = unknownGlyphHeight * Scale
+	}
+}
+
 // FontGetMetrics gets overall metric information for a font.
 // Since the metrics may be substantially different for different scripts, a language tag can
 // be provided to indicate that the metrics should be retrieved that
diff --git a/pango/glyph_item.go b/pango/glyph_item.go
index a7cbd0b..0f25627 100644
--- a/pango/glyph_item.go
+++ b/pango/glyph_item.go
@@ -237,7 +237,7 @@ func (run *GlyphItem) getExtentsAndHeight(runInk, runLogical, lineLogical *Recta
 
 	if runInk != nil && (hasUnderline || hasOverline || properties.strikethrough) {
 		if metrics == nil {
-			me := run.Item.Analysis.Font.GetMetrics(run.Item.Analysis.Language)
+			me := FontGetMetrics(run.Item.Analysis.Font, run.Item.Analysis.Language)
 			metrics = &me
 		}
 
@@ -283,7 +283,7 @@ func (run *GlyphItem) getExtentsAndHeight(runInk, runLogical, lineLogical *Recta
 
 	if height != nil {
 		if metrics == nil {
-			me := run.Item.Analysis.Font.GetMetrics(run.Item.Analysis.Language)
+			me := FontGetMetrics(run.Item.Analysis.Font, run.Item.Analysis.Language)
 			metrics = &me
 		}
 		*height = metrics.Height
diff --git a/pango/glyphs.go b/pango/glyphs.go
index 2d2209c..2db6fc0 100644
--- a/pango/glyphs.go
+++ b/pango/glyphs.go
@@ -210,7 +210,7 @@ func (glyphs *GlyphString) fallbackShape(text []rune, analysis *Analysis) {
 		}
 
 		var logicalRect Rectangle
-		analysis.Font.GlyphExtents(glyph, nil, &logicalRect)
+		fontGlyphExtents(analysis.Font, glyph, nil, &logicalRect)
 
 		glyphs.Glyphs[i].Glyph = glyph
 
@@ -337,7 +337,7 @@ func (glyphs *GlyphString) extentsRange(start, end int, font Font, inkRect, logi
 
 		geometry := &glyphs.Glyphs[i].Geometry
 
-		font.GlyphExtents(glyphs.Glyphs[i].Glyph, &glyphInk, &glyphLogical)
+		fontGlyphExtents(font, glyphs.Glyphs[i].Glyph, &glyphInk, &glyphLogical)
 
 		if inkRect != nil && glyphInk.Width != 0 && glyphInk.Height != 0 {
 			if inkRect.Width == 0 || inkRect.Height == 0 {
@@ -509,7 +509,7 @@ func (glyphs *GlyphString) indexToXFull(text []rune, analysis *Analysis, index i
 	// Try to get a ligature caret position for the glyph from the font.
 	// This only makes sense if the cluster contains a single spacing
 	// glyph, so we need to check that all but one of them are marks.
-	if clusterOffset > 0 && clusterOffset < clusterChars {
+	if clusterOffset > 0 && clusterOffset < clusterChars && analysis.Font != nil {
 		hbFont := analysis.Font.GetHarfbuzzFont()
 
 		var glyphPos int
diff --git a/pango/item.go b/pango/item.go
index db963aa..b63f7e5 100644
--- a/pango/item.go
+++ b/pango/item.go
@@ -330,7 +330,7 @@ func (context *Context) collectFontScale(stack *list.List, item, prev *Item) (fl
 					hbFont *harfbuzz.Font
 					yScale int32
 				)
-				if prev != nil {
+				if prev != nil && prev.Analysis.Font != nil {
 					hbFont = prev.Analysis.Font.GetHarfbuzzFont()
 					yScale = hbFont.YScale
 				}
@@ -390,6 +390,10 @@ func (context *Context) collectFontScale(stack *list.List, item, prev *Item) (fl
 }
 
 func (context *Context) applyScaleToItem(item *Item, scale float32) {
+	if item.Analysis.Font == nil {
+		return
+	}
+
 	desc := item.Analysis.Font.Describe(false)
 	size := scale * float32(desc.Size)
 
@@ -469,6 +473,9 @@ func (item *Item) variantSupported(variant Variant) bool {
 }
 
 func (item *Item) getFontVariant() Variant {
+	if item.Analysis.Font == nil {
+		return VARIANT_NORMAL
+	}
 	return item.Analysis.Font.Describe(false).Variant
 }
 
diff --git a/pango/layout.go b/pango/layout.go
index 11b2370..4b25f0f 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1486,7 +1486,7 @@ func (layout *Layout) tryAddItemToLine(line *LayoutLine, state *paraBreakState,
 
 	// Add some safety margin here. If we are farther away from the end of the
 	// line than this, we don't look carefully at a break possibility.
-	metrics := item.Analysis.Font.GetMetrics(item.Analysis.Language)
+	metrics := FontGetMetrics(item.Analysis.Font, item.Analysis.Language)
 	safe_distance := metrics.ApproximateCharWidth * 3
 
 	if processingNewItem {
diff --git a/pango/layout_line.go b/pango/layout_line.go
index ae366d8..61893d4 100644
--- a/pango/layout_line.go
+++ b/pango/layout_line.go
@@ -1346,7 +1346,7 @@ func (state *paraBreakState) collectBaselineShift(item, prev *Item) (startXOffse
 				} else {
 					var superscriptXOffset, superscriptYOffset, subscriptXOffset, subscriptYOffset float32
 
-					if prev != nil {
+					if prev != nil && prev.Analysis.Font != nil {
 						face := prev.Analysis.Font.GetHarfbuzzFont().Face()
 						superscriptYOffset, _ = face.LineMetric(fonts.SuperscriptEmYSize)
 						superscriptXOffset, _ = face.LineMetric(fonts.SuperscriptEmXOffset)
-- 
2.43.0


From 3fc744800c5f8386c392f52a05e8ae7ccfa1947f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:56 +0000
Subject: [PATCH 56/93] fix: changing the ellipsization mode of a layout could
 be ignored

---
 pango/layout.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pango/layout.go b/pango/layout.go
index 4b25f0f..1a38197 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -344,9 +344,9 @@ func (layout *Layout) SetEllipsize(ellipsize EllipsizeMode) {
 	if ellipsize != layout.ellipsize {
 		layout.ellipsize = ellipsize
 
-		if layout.isEllipsized || layout.isWrapped {
-			layout.layoutChanged()
-		}
+		// the lines may change even if they were neither wrapped nor
+		// ellipsized, since LINE SEPARATOR does not break an ellipsized line
+		layout.layoutChanged()
 	}
 }
 
-- 
2.43.0


From 86ab57672408474b6c553284f646595ab553d6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:57 +0000
Subject: [PATCH 57/93] fix: changing the height of a layout could be ignored

---
 pango/layout.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/pango/layout.go b/pango/layout.go
index 1a38197..bb0a806 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -295,12 +295,7 @@ func (layout *Layout) SetHeight(height Unit) {
 	if height != layout.Height {
 		layout.Height = height
 
-		/* Do not invalidate if the number of lines requested is
-		* larger than the total number of lines in layout.
-		* Bug 549003
-		 */
-		if layout.ellipsize != ELLIPSIZE_NONE &&
-			!(layout.isEllipsized == false && height < 0 && len(layout.lines) <= -int(height)) {
+		if layout.ellipsize != ELLIPSIZE_NONE {
 			layout.layoutChanged()
 		}
 	}
-- 
2.43.0


From f06c45b07bbbff1caea1c204a6487e9bdcc6ab07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:52 +0000
Subject: [PATCH 58/93] fix: a copy of a tab array was the array itself

---
 pango/tabs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pango/tabs.go b/pango/tabs.go
index ff14e27..a70b55f 100644
--- a/pango/tabs.go
+++ b/pango/tabs.go
@@ -40,10 +40,10 @@ func (tabs *TabArray) Copy() *TabArray {
 	if tabs == nil {
 		return nil
 	}
-	copy := tabs
+	copy := *tabs
 	copy.Tabs = append([]Tab(nil), tabs.Tabs...)
 
-	return copy
+	return &copy
 }
 
 // sort ensure that the tab stops are in increasing order.
-- 
2.43.0


From f5e90370f38846e0a9d9a10a312fc48c2728c6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:06 +0000
Subject: [PATCH 59/93] fix: the index of the end of a bidirectional line was
 the one of its last run

---
 pango/layout_iter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/layout_iter.go b/pango/layout_iter.go
index 422e298..778f4eb 100644
--- a/pango/layout_iter.go
+++ b/pango/layout_iter.go
@@ -258,7 +258,7 @@ func (iter *LayoutIter) NextRun() bool {
 	var nextRunStart int
 	if nextLink == nil {
 		// Moving on to the zero-width "virtual run" at the end of each line
-		nextRunStart = iter.run.Item.Offset + iter.run.Item.Length
+		nextRunStart = iter.line().StartIndex + iter.line().Length
 		iter.run = nil
 		iter.runs = nil
 	} else {
-- 
2.43.0


From ff12da938ca53e485b43544e4ed75a9366c20e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:06 +0000
Subject: [PATCH 60/93] fix: the cursor was stuck or jumped to the first line
 at the edges of some lines

---
 pango/layout_cursors.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pango/layout_cursors.go b/pango/layout_cursors.go
index b89d9eb..9e975f0 100644
--- a/pango/layout_cursors.go
+++ b/pango/layout_cursors.go
@@ -226,6 +226,15 @@ func (layout *Layout) MoveCursorVisually(strong bool,
 		arg1, arg2 = &pos, (*Rectangle)(nil)
 	}
 	layout.GetCursorPos(oldIndex, arg1, arg2)
+	if oldTrailing != 0 && nextLine != nil && oldIndex == nextLine.StartIndex {
+		// the cursor is shown at the end of a wrapped line, not at
+		// the start of the next one
+		_, lineRect, _ := layout.indexToLineAndExtents(line.StartIndex)
+		pos.X = lineRect.X
+		if line.ResolvedDir == DIRECTION_LTR {
+			pos.X += lineRect.Width
+		}
+	}
 
 	visPos := -1
 	for j, cursor := range cursors {
@@ -245,8 +254,6 @@ func (layout *Layout) MoveCursorVisually(strong bool,
 		oldIndex == line.StartIndex+line.Length {
 		if line.ResolvedDir == DIRECTION_LTR {
 			visPos = len(cursors)
-		} else {
-			visPos = 0
 		}
 	}
 
@@ -278,7 +285,6 @@ func (layout *Layout) MoveCursorVisually(strong bool,
 				return -1, 0
 			}
 			line = prevLine
-			paragraphBoundary = (line.StartIndex+line.Length != oldIndex)
 		} else {
 			if nextLine == nil {
 				return MaxInt, 0
@@ -293,9 +299,6 @@ func (layout *Layout) MoveCursorVisually(strong bool,
 
 		if offStart && direction < 0 {
 			visPos = nVis
-			if paragraphBoundary {
-				visPos++
-			}
 		} else if offEnd && direction > 0 {
 			visPos = 0
 			if paragraphBoundary {
@@ -312,7 +315,9 @@ func (layout *Layout) MoveCursorVisually(strong bool,
 
 	if 0 <= visPos && visPos < len(cursors) {
 		newIndex = cursors[visPos].pos
-	} else if visPos >= len(cursors)-1 {
+	} else if (visPos < 0) == (line.ResolvedDir == DIRECTION_LTR) {
+		newIndex = line.StartIndex
+	} else {
 		newIndex = line.StartIndex + line.Length
 	}
 
-- 
2.43.0


From 51654d94ef877cd2f393a27393fa0fff9a5765f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:46 +0000
Subject: [PATCH 61/93] fix: the direction of the paragraph was ignored by the
 itemization

---
 pango/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/context.go b/pango/context.go
index 14e3322..75edc44 100644
--- a/pango/context.go
+++ b/pango/context.go
@@ -981,7 +981,7 @@ func (context *Context) itemizeWithFont(text []rune, startIndex int, desc *FontD
 		return nil
 	}
 
-	state := context.newItemizeState(text, context.baseDir, startIndex, attrs, cachedIter, desc)
+	state := context.newItemizeState(text, baseDir, startIndex, attrs, cachedIter, desc)
 
 	for do := true; do; do = state.next() {
 		state.processRun()
-- 
2.43.0


From 17f7efa50100ae3e8b4eb82bfbbb49ff04debdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:46 +0000
Subject: [PATCH 62/93] fix: the clusters of transformed texts were shifted by
 the offset of the item

---
 pango/shape.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/shape.go b/pango/shape.go
index 3a06880..c4796bc 100644
--- a/pango/shape.go
+++ b/pango/shape.go
@@ -186,7 +186,7 @@ func (glyphs *GlyphString) harfbuzzShape(analysis *Analysis, paragraphText []run
 					ch = unicode.ToTitle(ch)
 				}
 			}
-			cachedBuffer.AddRune(ch, i)
+			cachedBuffer.AddRune(ch, itemOffset+i)
 		}
 	}
 
-- 
2.43.0


From 1a489d13a9b278975d587e251e0224fff2f3d077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:46 +0000
Subject: [PATCH 63/93] fix: small capitals of capitalized words used the start
 of the previous word

---
 pango/item.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pango/item.go b/pango/item.go
index b63f7e5..bc65e23 100644
--- a/pango/item.go
+++ b/pango/item.go
@@ -515,7 +515,7 @@ func splitItemForVariant(text []rune, logAttrs []CharAttr, variant Variant, list
 						(itemTransform == TEXT_TRANSFORM_CAPITALIZE && isWordStart)))) {
 				break
 			}
-			isWordStart = logAttrs != nil && logAttrs[p].IsWordStart()
+			isWordStart = logAttrs != nil && logAttrs[p+1].IsWordStart()
 		}
 
 		if p0 < p {
@@ -553,7 +553,7 @@ func splitItemForVariant(text []rune, logAttrs []CharAttr, variant Variant, list
 				(itemTransform == TEXT_TRANSFORM_CAPITALIZE && isWordStart)) {
 				break
 			}
-			isWordStart = logAttrs != nil && logAttrs[p].IsWordStart()
+			isWordStart = logAttrs != nil && logAttrs[p+1].IsWordStart()
 		}
 
 		if p0 < p {
-- 
2.43.0


From 3a8d40702074a96f66d8b89ddf7235c2bdf7c1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:42 +0000
Subject: [PATCH 64/93] fix: a font scale attribute without scale removed the
 text

---
 pango/item.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/item.go b/pango/item.go
index bc65e23..a9b3a84 100644
--- a/pango/item.go
+++ b/pango/item.go
@@ -323,7 +323,7 @@ func (context *Context) collectFontScale(stack *list.List, item, prev *Item) (fl
 	for _, attr := range item.Analysis.ExtraAttrs {
 		if attr.Kind == ATTR_FONT_SCALE {
 			if attr.StartIndex == item.Offset {
-				entry := &scaleItem{attr: attr}
+				entry := &scaleItem{attr: attr, scale: 1}
 				stack.PushFront(entry)
 
 				var (
-- 
2.43.0


From bc134a39b7cadf30319a60e8a6f8ae7b1e3b43c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:03 +0000
Subject: [PATCH 65/93] fix: a font scale attribute was ignored after the first
 paragraph of its range

---
 pango/item.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/item.go b/pango/item.go
index a9b3a84..dc10adc 100644
--- a/pango/item.go
+++ b/pango/item.go
@@ -322,7 +322,7 @@ func (context *Context) collectFontScale(stack *list.List, item, prev *Item) (fl
 
 	for _, attr := range item.Analysis.ExtraAttrs {
 		if attr.Kind == ATTR_FONT_SCALE {
-			if attr.StartIndex == item.Offset {
+			if attr.StartIndex == item.Offset || prev == nil { // it may start in a previous paragraph
 				entry := &scaleItem{attr: attr, scale: 1}
 				stack.PushFront(entry)
 
-- 
2.43.0


From 5fd1cbf5c61b9e098425f52b0ac68c1016f31fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:13 +0000
Subject: [PATCH 66/93] fix: the glyphs of a line could be the ones of a
 previous break with an hyphen

---
 pango/layout.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pango/layout.go b/pango/layout.go
index bb0a806..0e1c7bb 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1531,6 +1531,7 @@ retryBreak:
 				breakNumChars = numChars
 				breakWidth = width
 				breakExtraWidth = extraWidth
+				breakGlyphs = nil // of a previous break
 			} else {
 				newItem := item
 				if numChars < item.Length {
-- 
2.43.0


From 46114d31423e48cd2d4fa0abbc7a04f5b779d457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:32 +0000
Subject: [PATCH 67/93] fix: an hyphen was inserted in the middle of a line at
 the end of an item

---
 pango/layout.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pango/layout.go b/pango/layout.go
index 0e1c7bb..fd4858c 100644
--- a/pango/layout.go
+++ b/pango/layout.go
@@ -1434,7 +1434,8 @@ func (layout *Layout) tryAddItemToLine(line *LayoutLine, state *paraBreakState,
 			layout.computeLogWidths(state)
 			processingNewItem = false
 		}
-		extraWidth = layout.find_break_extraWidth(state, item.Length)
+		// if the line ends after the item, its hyphen is checked when the next item is added
+		extraWidth = minG(layout.find_break_extraWidth(state, item.Length), 0)
 	}
 
 	if (width+extraWidth <= state.remainingWidth || (item.Length == 1 && line.Runs == nil) ||
@@ -1497,6 +1498,9 @@ retryBreak:
 	width = 0
 	for numChars = 0; numChars < limit; numChars++ {
 		extraWidth = layout.find_break_extraWidth(state, numChars)
+		if numChars == item.Length {
+			extraWidth = minG(extraWidth, 0)
+		}
 
 		// We don't want to walk the entire item if we can help it, but
 		// we need to keep going at least until we've found a breakpoint
@@ -1552,8 +1556,6 @@ retryBreak:
 					(item != newItem || !isLastItem) && // We don't collapse space at the very end
 					layout.logAttrs[state.startOffset+numChars-1].IsWhite() {
 					extraWidth = -state.logWidths[state.logWidthsOffset+numChars-1]
-				} else if item == newItem && !isLastItem && layout.breakNeedsHyphen(state, numChars) {
-					extraWidth = state.hyphen_width
 				} else {
 					extraWidth = 0
 				}
@@ -1623,9 +1625,6 @@ retryBreak:
 		}
 
 		if breakNumChars == item.Length {
-			if layout.canBreakAt(state.startOffset+breakNumChars, wrap) && layout.breakNeedsHyphen(state, breakNumChars) {
-				item.Analysis.Flags |= AFNeedHyphen
-			}
 			line.insertRun(state, item, nil, true)
 
 			if debugMode {
-- 
2.43.0


From 4b206afad88ea4a8168040a0d726a92400821041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:32 +0000
Subject: [PATCH 68/93] fix: the gravity was missing in the text form of a font
 description

---
 pango/fonts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/fonts.go b/pango/fonts.go
index 377946f..e7aca7f 100644
--- a/pango/fonts.go
+++ b/pango/fonts.go
@@ -525,7 +525,7 @@ func (desc FontDescription) String() string {
 	}
 	if desc.mask&FmGravity != 0 {
 		if s := GravityMap.ToString("gravity", int(desc.Gravity)); s != "" {
-			chunks = append(chunks)
+			chunks = append(chunks, s)
 		}
 	}
 
-- 
2.43.0


From 32f1836595e391ca1a3360743e566a6dac497539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:32 +0000
Subject: [PATCH 69/93] fix: the commas ending the family list were kept in the
 family of a font description

---
 pango/fonts.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pango/fonts.go b/pango/fonts.go
index e7aca7f..6848ee7 100644
--- a/pango/fonts.go
+++ b/pango/fonts.go
@@ -414,8 +414,13 @@ func NewFontDescriptionFrom(str string) FontDescription {
 		for i, f := range families {
 			families[i] = strings.TrimSpace(f)
 		}
-		desc.FamilyName = strings.Join(families, ",")
-		desc.mask |= FmFamily
+		for len(families) != 0 && families[len(families)-1] == "" {
+			families = families[:len(families)-1]
+		}
+		if len(families) != 0 {
+			desc.FamilyName = strings.Join(families, ",")
+			desc.mask |= FmFamily
+		}
 	}
 
 	return desc
-- 
2.43.0


From 0d67eab0967b34bb87c909c82e63c11bf7d76740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:32 +0000
Subject: [PATCH 70/93] fix: a font family ending by Nan was read as a size

---
 pango/fonts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/fonts.go b/pango/fonts.go
index 6848ee7..18dbeaf 100644
--- a/pango/fonts.go
+++ b/pango/fonts.go
@@ -385,7 +385,7 @@ func NewFontDescriptionFrom(str string) FontDescription {
 		size, err := strconv.ParseFloat(word, 64)
 		if err != nil {
 			// just ignore invalid floats: they maybe do not refers to a size
-		} else if size < 0 || size > 1000000 {
+		} else if !(size >= 0 && size <= 1000000) { // including NaN
 			log.Println("invalid size value:", size)
 		} else { // word is a valid float
 			desc.Size = int32(size*Scale + 0.5)
-- 
2.43.0


From e3f1a831bb3ae8f1eb1cf09a9d1af788709fe769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:32 +0000
Subject: [PATCH 71/93] fix: a font family ending by a style word lost it in
 the text form of a font description

---
 pango/fonts.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pango/fonts.go b/pango/fonts.go
index 18dbeaf..e1c656f 100644
--- a/pango/fonts.go
+++ b/pango/fonts.go
@@ -506,11 +506,14 @@ func (desc FontDescription) String() string {
 		* in a keyword like "Bold", or if the family name ends in
 		* a number and no keywords will be added.
 		 */
-		if desc.Weight == WEIGHT_NORMAL &&
-			desc.Style == STYLE_NORMAL &&
-			desc.Stretch == STRETCH_NORMAL &&
-			desc.Variant == VARIANT_NORMAL &&
-			(desc.mask&(FmGravity|FmSize) == 0) {
+		var scratch FontDescription
+		words := strings.FieldsFunc(fam, func(r rune) bool { return r == ',' || unicode.IsSpace(r) })
+		if (len(words) != 0 && scratch.find_field_any(words[len(words)-1])) ||
+			(desc.Weight == WEIGHT_NORMAL &&
+				desc.Style == STYLE_NORMAL &&
+				desc.Stretch == STRETCH_NORMAL &&
+				desc.Variant == VARIANT_NORMAL &&
+				(desc.mask&(FmGravity|FmSize) == 0)) {
 			fam += ","
 		}
 		chunks = append(chunks, fam)
-- 
2.43.0


From 0ac7e948e37258d3d104d9768042518b99f8d463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:32 +0000
Subject: [PATCH 72/93] fix: some documented names of gravities were not
 understood

---
 pango/gravity.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pango/gravity.go b/pango/gravity.go
index 799557b..232cbd0 100644
--- a/pango/gravity.go
+++ b/pango/gravity.go
@@ -29,10 +29,10 @@ var GravityMap = enumMap{
 	{value: int(GRAVITY_NORTH), str: "north"},
 	{value: int(GRAVITY_WEST), str: "west"},
 	{value: int(GRAVITY_AUTO), str: "auto"},
-	// {value: int(GRAVITY_SOUTH), str: "Not-Rotated"},
-	// {value: int(GRAVITY_NORTH), str: "Upside-Down"},
-	// {value: int(GRAVITY_EAST), str: "Rotated-Left"},
-	// {value: int(GRAVITY_WEST), str: "Rotated-Right"},
+	{value: int(GRAVITY_SOUTH), str: "Not-Rotated"},
+	{value: int(GRAVITY_NORTH), str: "Upside-Down"},
+	{value: int(GRAVITY_EAST), str: "Rotated-Left"},
+	{value: int(GRAVITY_WEST), str: "Rotated-Right"},
 }
 
 // IsVertical returns whether `g` represents vertical writing directions.
-- 
2.43.0


From 5e38ba2bad40b43e51cd60a09b06de0968e7d7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:19 +0000
Subject: [PATCH 73/93] fix: the text form of a font description with a custom
 weight was not understood

---
 pango/fonts.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pango/fonts.go b/pango/fonts.go
index e1c656f..f2d1244 100644
--- a/pango/fonts.go
+++ b/pango/fonts.go
@@ -28,6 +28,18 @@ func (e enumMap) FromString(str string) (int, bool) {
 	return 0, false
 }
 
+// findField is the same as FromString, with the additional support
+// of the form "what=v" returned by ToString
+func (e enumMap) findField(what, str string) (int, bool) {
+	if prefix := what + "="; strings.HasPrefix(str, prefix) {
+		str = str[len(prefix):]
+		if v, err := strconv.Atoi(str); err == nil {
+			return v, true
+		}
+	}
+	return e.FromString(str)
+}
+
 // if v is not found, it is printed as "what=v"
 func (e enumMap) ToString(what string, v int) string {
 	for _, entry := range e {
@@ -431,23 +443,23 @@ func (desc *FontDescription) find_field_any(str string) bool {
 		return true
 	}
 	// try each of the possible field
-	if v, ok := weight_map.FromString(str); ok {
+	if v, ok := weight_map.findField("weight", str); ok {
 		desc.SetWeight(Weight(v))
 		return true
 	}
-	if v, ok := StyleMap.FromString(str); ok {
+	if v, ok := StyleMap.findField("style", str); ok {
 		desc.SetStyle(Style(v))
 		return true
 	}
-	if v, ok := StretchMap.FromString(str); ok {
+	if v, ok := StretchMap.findField("stretch", str); ok {
 		desc.SetStretch(Stretch(v))
 		return true
 	}
-	if v, ok := variant_map.FromString(str); ok {
+	if v, ok := variant_map.findField("variant", str); ok {
 		desc.SetVariant(Variant(v))
 		return true
 	}
-	if v, ok := GravityMap.FromString(str); ok {
+	if v, ok := GravityMap.findField("gravity", str); ok {
 		desc.SetGravity(Gravity(v))
 		return true
 	}
-- 
2.43.0


From 013124fb126dd3c2b16df84936472c47c18df8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:05 +0000
Subject: [PATCH 74/93] fix: a tag after an accelerator in a markup was ignored
 and its end caused a crash

---
 pango/markup.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pango/markup.go b/pango/markup.go
index 4668c94..2220f8a 100644
--- a/pango/markup.go
+++ b/pango/markup.go
@@ -51,10 +51,6 @@ type markupData struct {
 }
 
 func (md *markupData) openTag() *openTag {
-	if len(md.attr_list) != 0 {
-		return nil
-	}
-
 	var parent *openTag
 	if len(md.tag_stack) != 0 {
 		parent = md.tag_stack[0]
-- 
2.43.0


From 7f67338155899c1865579740f852a45e15aff80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:05 +0000
Subject: [PATCH 75/93] fix: the font_scale attribute of a markup was read from
 baseline_shift

---
 pango/markup.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/markup.go b/pango/markup.go
index 2220f8a..1bb0cfb 100644
--- a/pango/markup.go
+++ b/pango/markup.go
@@ -1223,7 +1223,7 @@ func span_parse_func(tag *openTag, attrs []xml.Attr) error {
 	}
 
 	if fontScale != "" {
-		fs, err := spanParseEnum("font_scale", baselineShift, fontScaleMap)
+		fs, err := spanParseEnum("font_scale", fontScale, fontScaleMap)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 486eaab92d91884ab740ec2bfda69186c7627463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:05 +0000
Subject: [PATCH 76/93] fix: the text after an unbalanced end tag of a markup
 was silently ignored

---
 pango/markup.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pango/markup.go b/pango/markup.go
index 1bb0cfb..9bfefb9 100644
--- a/pango/markup.go
+++ b/pango/markup.go
@@ -1,8 +1,11 @@
 package pango
 
 import (
+	"bytes"
 	"encoding/xml"
+	"errors"
 	"fmt"
+	"io"
 	"strconv"
 	"strings"
 )
@@ -501,10 +504,22 @@ func ParseMarkup(markupText []byte, accelMarker rune) (ParsedMarkup, error) {
 	nested := append(append([]byte("<markup>"), markupText...), "</markup>"...)
 
 	context := newParser(accelMarker)
-	err := xml.Unmarshal(nested, context)
+	d := xml.NewDecoder(bytes.NewReader(nested))
+	root, err := d.Token()
 	if err != nil {
 		return ParsedMarkup{}, err
 	}
+	err = context.UnmarshalXML(d, root.(xml.StartElement))
+	if err != nil {
+		return ParsedMarkup{}, err
+	}
+	// the markup must not close the root tag
+	if _, err = d.Token(); err == nil {
+		err = errors.New("Unexpected content after the end of the markup")
+	}
+	if err != io.EOF {
+		return ParsedMarkup{}, err
+	}
 
 	return markupParserFinish(context), nil
 }
-- 
2.43.0


From 6917aedb9832116cc2560c6be41bfd57ceda35df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:05 +0000
Subject: [PATCH 77/93] fix: a font without size followed by small or big in a
 markup gave a size of 0

---
 pango/markup.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/markup.go b/pango/markup.go
index 9bfefb9..048092b 100644
--- a/pango/markup.go
+++ b/pango/markup.go
@@ -1011,7 +1011,7 @@ func span_parse_func(tag *openTag, attrs []xml.Attr) error {
 	if desc != "" {
 		parsed := NewFontDescriptionFrom(desc)
 		tag.addAttribute(NewAttrFontDescription(parsed))
-		if tag != nil {
+		if tag != nil && parsed.mask&FmSize != 0 {
 			tag.setAbsoluteFontSize(parsed.Size)
 		}
 	}
-- 
2.43.0


From 253fb595be6168ae861e0949fe62ccbb5d885614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:05 +0000
Subject: [PATCH 78/93] fix: the font description of a markup tag overrode its
 relative size

---
 pango/markup.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pango/markup.go b/pango/markup.go
index 048092b..6cbbb03 100644
--- a/pango/markup.go
+++ b/pango/markup.go
@@ -115,7 +115,8 @@ func (md *markupData) endElementHandler() {
 		a.StartIndex = ot.startIndex
 		a.EndIndex = md.index
 
-		md.to_apply.insertAt(0, a)
+		// after the attributes of this tag, which may include a font description
+		md.to_apply.insertAt(L, a)
 	}
 }
 
-- 
2.43.0


From 03ad84f871a470ad82f19dab032f48e0a0ed28b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:00 +0000
Subject: [PATCH 79/93] fix: numeric weights were rejected in markups

---
 pango/fonts.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pango/fonts.go b/pango/fonts.go
index f2d1244..c95e891 100644
--- a/pango/fonts.go
+++ b/pango/fonts.go
@@ -482,11 +482,20 @@ func pango_parse_variant(str string) (Variant, bool) {
 	return Variant(i), b
 }
 
+// parse_field, with the additional support of integers
+func (map_ enumMap) parse_field_or_int(str string) (int, bool) {
+	if v, ok := map_.parse_field(str); ok {
+		return v, true
+	}
+	v, err := strconv.Atoi(str)
+	return v, err == nil
+}
+
 // pango_parse_weight parses a font weight. The allowed values are "heavy",
 // "ultrabold", "bold", "normal", "light", "ultraleight"
 // and integers. Case variations are ignored.
 func pango_parse_weight(str string) (Weight, bool) {
-	i, b := weight_map.parse_field(str)
+	i, b := weight_map.parse_field_or_int(str)
 	return Weight(i), b
 }
 
-- 
2.43.0


From 57b26295fbe853cca3232f223efd09dd77700ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:00 +0000
Subject: [PATCH 80/93] fix: an alpha value of 65536 in a markup was fully
 transparent

---
 pango/markup.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pango/markup.go b/pango/markup.go
index 6cbbb03..777f3ec 100644
--- a/pango/markup.go
+++ b/pango/markup.go
@@ -683,11 +683,14 @@ func spanParseAlpha(attrName, attrVal string) (uint16, error) {
 			attrName, lineColNumber, attrVal)
 	}
 
-	if !hasPercent {
+	if !hasPercent && intVal >= 0 && intVal <= 65536 {
+		if intVal == 65536 {
+			intVal = 0xffff
+		}
 		return uint16(intVal), nil
 	}
 
-	if intVal > 0 && intVal <= 100 {
+	if hasPercent && intVal > 0 && intVal <= 100 {
 		return uint16(intVal * 0xffff / 100), nil
 	}
 	return 0, fmt.Errorf("Value of '%s' attribute on <span> tag on line %d could not be parsed; should be between 0 and 65536 or a percentage, not '%s'",
-- 
2.43.0


From ac092f63240850ac87e9d86b8921f94ed747ba5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:00 +0000
Subject: [PATCH 81/93] fix: signs were accepted in hexadecimal colors

---
 pango/color.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pango/color.go b/pango/color.go
index 73c7ef0..eaabde4 100644
--- a/pango/color.go
+++ b/pango/color.go
@@ -43,21 +43,21 @@ func pango_color_parse_with_alpha(spec string, withAlpha bool) (AttrColor, uint1
 		}
 		spec = spec[1:]
 
-		r, err := strconv.ParseInt(spec[0:len], 16, 32)
+		r, err := strconv.ParseUint(spec[0:len], 16, 32)
 		if err != nil {
 			return AttrColor{}, 0, false
 		}
-		g, err := strconv.ParseInt(spec[len:2*len], 16, 32)
+		g, err := strconv.ParseUint(spec[len:2*len], 16, 32)
 		if err != nil {
 			return AttrColor{}, 0, false
 		}
-		b, err := strconv.ParseInt(spec[2*len:3*len], 16, 32)
+		b, err := strconv.ParseUint(spec[2*len:3*len], 16, 32)
 		if err != nil {
 			return AttrColor{}, 0, false
 		}
 
 		if has_alpha {
-			a, err := strconv.ParseInt(spec[3*len:4*len], 16, 32)
+			a, err := strconv.ParseUint(spec[3*len:4*len], 16, 32)
 			if err != nil {
 				return AttrColor{}, 0, false
 			}
-- 
2.43.0


From 4bc3d0bbfc15238fd29fda68b8f5371a09eb7dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:10 +0000
Subject: [PATCH 82/93] fix: the rotated names of gravities are only for font
 descriptions

---
 pango/fonts.go   | 4 ++++
 pango/gravity.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pango/fonts.go b/pango/fonts.go
index c95e891..bf0bdad 100644
--- a/pango/fonts.go
+++ b/pango/fonts.go
@@ -463,6 +463,10 @@ func (desc *FontDescription) find_field_any(str string) bool {
 		desc.SetGravity(Gravity(v))
 		return true
 	}
+	if v, ok := gravityAliases.FromString(str); ok {
+		desc.SetGravity(Gravity(v))
+		return true
+	}
 	return false
 }
 
diff --git a/pango/gravity.go b/pango/gravity.go
index 232cbd0..974a973 100644
--- a/pango/gravity.go
+++ b/pango/gravity.go
@@ -29,6 +29,10 @@ var GravityMap = enumMap{
 	{value: int(GRAVITY_NORTH), str: "north"},
 	{value: int(GRAVITY_WEST), str: "west"},
 	{value: int(GRAVITY_AUTO), str: "auto"},
+}
+
+// other names, only used in font descriptions
+var gravityAliases = enumMap{
 	{value: int(GRAVITY_SOUTH), str: "Not-Rotated"},
 	{value: int(GRAVITY_NORTH), str: "Upside-Down"},
 	{value: int(GRAVITY_EAST), str: "Rotated-Left"},
-- 
2.43.0


From 393d5f74ae24df551cce55299f650f3c4ffc68cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:41 +0000
Subject: [PATCH 83/93] fix: a range starting by an integer and ending by a
 double started at zero

---
 fontconfig/xml.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fontconfig/xml.go b/fontconfig/xml.go
index a18b6ab..d221fc5 100644
--- a/fontconfig/xml.go
+++ b/fontconfig/xml.go
@@ -872,8 +872,8 @@ func (parser *configParser) parseRange() error {
 				n[i] = int(vstack.u.(Int))
 			}
 		case vstackDouble:
-			if i == 0 && !dflag {
-				d[1] = float32(n[1])
+			if i == 1 && !dflag {
+				d[0] = float32(n[0])
 			}
 			d[i] = float32(vstack.u.(Float))
 			dflag = true
-- 
2.43.0


From aeded84b43f707438c9e92009c75bc0a9767f277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:46 +0000
Subject: [PATCH 84/93] fix: crash on a value used as the root of a
 configuration file

---
 fontconfig/xml.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fontconfig/xml.go b/fontconfig/xml.go
index d221fc5..77a7507 100644
--- a/fontconfig/xml.go
+++ b/fontconfig/xml.go
@@ -293,13 +293,14 @@ func (parser *configParser) text(s []byte) {
 }
 
 // add a value to the previous p element, or discard it
+// if there is none
 func (parser *configParser) createVAndPush() *vstack {
 	if len(parser.pstack) >= 2 {
 		ps := &parser.pstack[len(parser.pstack)-2]
 		ps.values = append(ps.values, vstack{})
 		return &ps.values[len(ps.values)-1]
 	}
-	return nil
+	return new(vstack)
 }
 
 func (parse *configParser) startElement(name xml.Name, attr []xml.Attr) error {
-- 
2.43.0


From 4165d0349d9365c3eef2b4bdaa1d0b8c14d2a00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:47 +0000
Subject: [PATCH 85/93] fix: crash on a family used as the value of a test or
 an edit

---
 fontconfig/xml.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fontconfig/xml.go b/fontconfig/xml.go
index 77a7507..c25629e 100644
--- a/fontconfig/xml.go
+++ b/fontconfig/xml.go
@@ -667,13 +667,13 @@ func (parser *configParser) popExpr() *expression {
 		return nil
 	}
 	switch vstack.tag {
-	case vstackString, vstackFamily:
+	case vstackString:
 		expr = &expression{op: opString, u: vstack.u}
 	case vstackName:
 		expr = &expression{op: opField, u: vstack.u}
 	case vstackConstant:
 		expr = &expression{op: opConst, u: vstack.u}
-	case vstackPrefer, vstackAccept, vstackDefault:
+	case vstackFamily, vstackPrefer, vstackAccept, vstackDefault:
 		expr = vstack.u.(*expression)
 		vstack.tag = vstackNone
 	case vstackInt:
-- 
2.43.0


From 6113a3f8fb4d062f8dca587f94dc4914e590f3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:48 +0000
Subject: [PATCH 86/93] fix: crash on a test used in an expression, other
 invalid elements were ignored

---
 fontconfig/xml.go | 95 ++++++++++++++++++++++++++++-------------------
 1 file changed, 57 insertions(+), 38 deletions(-)

diff --git a/fontconfig/xml.go b/fontconfig/xml.go
index c25629e..f4d0f2b 100644
--- a/fontconfig/xml.go
+++ b/fontconfig/xml.go
@@ -412,45 +412,45 @@ func (parser *configParser) endElement() error {
 	case elementConst:
 		parser.parseString(vstackConstant)
 	case elementOr:
-		parser.parseBinary(opOr)
+		err = parser.parseBinary(opOr)
 	case elementAnd:
-		parser.parseBinary(opAnd)
+		err = parser.parseBinary(opAnd)
 	case elementEq:
-		parser.parseBinary(opEqual)
+		err = parser.parseBinary(opEqual)
 	case elementNotEq:
-		parser.parseBinary(opNotEqual)
+		err = parser.parseBinary(opNotEqual)
 	case elementLess:
-		parser.parseBinary(opLess)
+		err = parser.parseBinary(opLess)
 	case elementLessEq:
-		parser.parseBinary(opLessEqual)
+		err = parser.parseBinary(opLessEqual)
 	case elementMore:
-		parser.parseBinary(opMore)
+		err = parser.parseBinary(opMore)
 	case elementMoreEq:
-		parser.parseBinary(opMoreEqual)
+		err = parser.parseBinary(opMoreEqual)
 	case elementContains:
-		parser.parseBinary(opContains)
+		err = parser.parseBinary(opContains)
 	case elementNotContains:
-		parser.parseBinary(opNotContains)
+		err = parser.parseBinary(opNotContains)
 	case elementPlus:
-		parser.parseBinary(opPlus)
+		err = parser.parseBinary(opPlus)
 	case elementMinus:
-		parser.parseBinary(opMinus)
+		err = parser.parseBinary(opMinus)
 	case elementTimes:
-		parser.parseBinary(opTimes)
+		err = parser.parseBinary(opTimes)
 	case elementDivide:
-		parser.parseBinary(opDivide)
+		err = parser.parseBinary(opDivide)
 	case elementIf:
-		parser.parseBinary(opQuest)
+		err = parser.parseBinary(opQuest)
 	case elementNot:
-		parser.parseUnary(opNot)
+		err = parser.parseUnary(opNot)
 	case elementFloor:
-		parser.parseUnary(opFloor)
+		err = parser.parseUnary(opFloor)
 	case elementCeil:
-		parser.parseUnary(opCeil)
+		err = parser.parseUnary(opCeil)
 	case elementRound:
-		parser.parseUnary(opRound)
+		err = parser.parseUnary(opRound)
 	case elementTrunc:
-		parser.parseUnary(opTrunc)
+		err = parser.parseUnary(opTrunc)
 	}
 	if err != nil {
 		return err
@@ -660,11 +660,11 @@ func (parser *configParser) newEdit(object Object, op opKind, expr *expression,
 	return e, err
 }
 
-func (parser *configParser) popExpr() *expression {
+func (parser *configParser) popExpr() (*expression, error) {
 	var expr *expression
 	vstack := parser.v()
 	if vstack == nil {
-		return nil
+		return nil, nil
 	}
 	switch vstack.tag {
 	case vstackString:
@@ -690,12 +690,14 @@ func (parser *configParser) popExpr() *expression {
 		expr = &expression{op: opCharSet, u: vstack.u}
 	case vstackLangSet:
 		expr = &expression{op: opLangSet, u: vstack.u}
-	case vstackTest, vstackExpr:
+	case vstackExpr:
 		expr = vstack.u.(*expression)
 		vstack.tag = vstackNone
+	default:
+		return nil, parser.error("invalid element in an expression")
 	}
 	parser.vstackPop()
-	return expr
+	return expr, nil
 }
 
 // This builds a tree of binary operations. Note
@@ -705,17 +707,23 @@ func (parser *configParser) popExpr() *expression {
 //
 // This code reduces in that case to returning that
 // operand.
-func (parser *configParser) popBinary(op opKind) *expression {
+func (parser *configParser) popBinary(op opKind) (*expression, error) {
 	var expr *expression
 
-	for left := parser.popExpr(); left != nil; left = parser.popExpr() {
+	for {
+		left, err := parser.popExpr()
+		if err != nil {
+			return nil, err
+		}
+		if left == nil {
+			return expr, nil
+		}
 		if expr != nil {
 			expr = newExprOp(left, expr, op)
 		} else {
 			expr = left
 		}
 	}
-	return expr
 }
 
 func (parser *configParser) pushExpr(tag vstackTag, expr *expression) {
@@ -724,20 +732,22 @@ func (parser *configParser) pushExpr(tag vstackTag, expr *expression) {
 	vstack.tag = tag
 }
 
-func (parser *configParser) parseBinary(op opKind) {
-	expr := parser.popBinary(op)
+func (parser *configParser) parseBinary(op opKind) error {
+	expr, err := parser.popBinary(op)
 	if expr != nil {
 		parser.pushExpr(vstackExpr, expr)
 	}
+	return err
 }
 
 // This builds a a unary operator, it consumes only a single operand
-func (parser *configParser) parseUnary(op opKind) {
-	operand := parser.popExpr()
+func (parser *configParser) parseUnary(op opKind) error {
+	operand, err := parser.popExpr()
 	if operand != nil {
 		expr := newExprOp(operand, nil, op)
 		parser.pushExpr(vstackExpr, expr)
 	}
+	return err
 }
 
 func (parser *configParser) parseInt() error {
@@ -836,15 +846,18 @@ func (parser *configParser) parseName() error {
 func (parser *configParser) parseMatrix() error {
 	var m exprMatrix
 
-	m.yy = parser.popExpr()
-	m.yx = parser.popExpr()
-	m.xy = parser.popExpr()
-	m.xx = parser.popExpr()
+	for _, coeff := range [...]**expression{&m.yy, &m.yx, &m.xy, &m.xx} {
+		var err error
+		*coeff, err = parser.popExpr()
+		if err != nil {
+			return err
+		}
+	}
 
 	if m.yy == nil || m.yx == nil || m.xy == nil || m.xx == nil {
 		return parser.error("Missing values in matrix element")
 	}
-	if parser.popExpr() != nil {
+	if parser.v() != nil {
 		return errors.New("wrong number of matrix elements")
 	}
 
@@ -1078,7 +1091,10 @@ func (parser *configParser) parseTest() error {
 			flags |= opFlagIgnoreBlanks
 		}
 	}
-	expr := parser.popBinary(opComma)
+	expr, err := parser.popBinary(opComma)
+	if err != nil {
+		return err
+	}
 	if expr == nil {
 		return parser.error("missing test expression")
 	}
@@ -1122,7 +1138,10 @@ func (parser *configParser) parseEdit() error {
 		return err
 	}
 
-	expr := parser.popBinary(opComma)
+	expr, err := parser.popBinary(opComma)
+	if err != nil {
+		return err
+	}
 	if (mode == opDelete || mode == opDeleteAll) && expr != nil {
 		return parser.error("Expression doesn't take any effects for delete and delete_all")
 	}
-- 
2.43.0


From ccff0f75014866bf5c8002a3d3eb1667c47538eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:50 +0000
Subject: [PATCH 87/93] fix: crash on an <if> without exactly three expressions

---
 fontconfig/xml.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fontconfig/xml.go b/fontconfig/xml.go
index f4d0f2b..eefdca5 100644
--- a/fontconfig/xml.go
+++ b/fontconfig/xml.go
@@ -733,6 +733,9 @@ func (parser *configParser) pushExpr(tag vstackTag, expr *expression) {
 }
 
 func (parser *configParser) parseBinary(op opKind) error {
+	if op == opQuest && len(parser.p().values) != 3 {
+		return parser.error("<if> requires three expressions")
+	}
 	expr, err := parser.popBinary(op)
 	if expr != nil {
 		parser.pushExpr(vstackExpr, expr)
-- 
2.43.0


From 97a4e67f92fe8ee646d1b751b89526d3f4a13332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:39 +0000
Subject: [PATCH 88/93] fix: an unknown constant in a pattern element was
 ignored with the values before it

---
 fontconfig/xml.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fontconfig/xml.go b/fontconfig/xml.go
index eefdca5..633b0a9 100644
--- a/fontconfig/xml.go
+++ b/fontconfig/xml.go
@@ -1229,9 +1229,11 @@ func (parser *configParser) popValue() (Value, error) {
 		vstackCharSet, vstackLangSet, vstackRange:
 		value = vstack.u.(Value)
 	case vstackConstant:
-		if i, ok := nameConstant(vstack.u.(String)); ok {
-			value = Int(i)
+		i, ok := nameConstant(vstack.u.(String))
+		if !ok {
+			return nil, parser.error("invalid constant used : %s", vstack.u.(String))
 		}
+		value = Int(i)
 	default:
 		return nil, parser.error("unknown pattern element %d", vstack.tag)
 	}
-- 
2.43.0


From 60c6c91292cb92f97101e24b71931506544e739e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:40 +0000
Subject: [PATCH 89/93] fix: negative characters were accepted in the charsets
 of a configuration

---
 fontconfig/xml.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fontconfig/xml.go b/fontconfig/xml.go
index 633b0a9..ea59413 100644
--- a/fontconfig/xml.go
+++ b/fontconfig/xml.go
@@ -929,7 +929,7 @@ func (parser *configParser) parseCharSet() error {
 		switch vstack.tag {
 		case vstackInt:
 			r := rune(vstack.u.(Int))
-			if r > maxCharsetRune {
+			if r < 0 || r > maxCharsetRune {
 				return parser.error("invalid character: 0x%04x", r)
 			} else {
 				charset.AddChar(r)
@@ -939,7 +939,7 @@ func (parser *configParser) parseCharSet() error {
 			ra := vstack.u.(Range)
 			if ra.Begin <= ra.End {
 				for r := rune(ra.Begin); r <= rune(ra.End); r++ {
-					if r > maxCharsetRune {
+					if r < 0 || r > maxCharsetRune {
 						return parser.error("invalid character: 0x%04x", r)
 					} else {
 						charset.AddChar(r)
-- 
2.43.0


From c82333661b0427b61ce563e7f83fe5aac866ebcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:42 +0000
Subject: [PATCH 90/93] fix: the integers out of range of a configuration were
 truncated

---
 fontconfig/xml.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fontconfig/xml.go b/fontconfig/xml.go
index ea59413..7bcf797 100644
--- a/fontconfig/xml.go
+++ b/fontconfig/xml.go
@@ -761,7 +761,7 @@ func (parser *configParser) parseInt() error {
 	s := last.str.String()
 	last.str.Reset()
 
-	d, err := strconv.Atoi(s)
+	d, err := strconv.ParseInt(s, 10, 32)
 	if err != nil {
 		return fmt.Errorf("\"%s\": not a valid Int", s)
 	}
-- 
2.43.0


From f032acb19e8b7de443ebc39f1cb33d0a41762c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:03 +0000
Subject: [PATCH 91/93] fix: a text with a character above U+10FFFD panicked

The search for the orientation of the character was reading after the end of the table.
---
 pango/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango/context.go b/pango/context.go
index 75edc44..bf51c99 100644
--- a/pango/context.go
+++ b/pango/context.go
@@ -427,7 +427,7 @@ func isUpright(ch rune) bool {
 
 	const max = len(upright)
 	st := 0
-	ed := max
+	ed := max - 1
 
 	for st <= ed {
 		mid := (st + ed) / 2
-- 
2.43.0


From 9cdf43f8b5d61a79eefdb05cfd7d6fcce96af021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:03 +0000
Subject: [PATCH 92/93] fix: asking metrics was setting the gravity of the font
 description

GetMetrics was changing the description it is given, or the one of the context,
which then imposed its gravity on the next layouts.
---
 pango/context.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pango/context.go b/pango/context.go
index bf51c99..fbac88d 100644
--- a/pango/context.go
+++ b/pango/context.go
@@ -569,12 +569,12 @@ func (context *Context) newItemizeState(text []rune, baseDir Direction,
 		state.attrIter.advance_attr_iterator_to(startIndex)
 		state.update_attr_iterator()
 	} else {
-		if desc == nil {
-			cp := state.context.fontDesc
-			state.fontDesc = &cp
-		} else {
-			state.fontDesc = desc
+		// copy the description, since its gravity is changed
+		cp := state.context.fontDesc
+		if desc != nil {
+			cp = *desc
 		}
+		state.fontDesc = &cp
 		state.lang = state.context.language
 		state.extraAttrs = nil
 		state.copyExtraAttrs = false
-- 
2.43.0


From 7a659556e1d31d872d825044fd5eee2a6013aab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:32 +0000
Subject: [PATCH 93/93] fix: the spaces after a fallback font did not take the
 preferred font which follows

The start of the spaces was forgotten before being used.
---
 pango/context.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pango/context.go b/pango/context.go
index fbac88d..efbcfdd 100644
--- a/pango/context.go
+++ b/pango/context.go
@@ -868,6 +868,8 @@ func (state *itemizeState) fillFont(font Font) {
 
 // pos is the index into text
 func (state *itemizeState) addCharacter(font Font, fontPosition int, forceBreak bool, pos int, isSpace bool) {
+	firstSpace := state.firstSpace // before this character
+
 	if isSpace {
 		if state.firstSpace == -1 {
 			state.firstSpace = pos
@@ -897,10 +899,10 @@ func (state *itemizeState) addCharacter(font Font, fontPosition int, forceBreak
 		// the font is less "fallback".
 		//
 		// See https://gitlab.gnome.org/GNOME/pango/-/issues/249
-		if item.Offset < state.firstSpace && fontPosition < state.fontPosition {
-			nSpaces = pos - state.firstSpace
+		if item.Offset < firstSpace && fontPosition < state.fontPosition {
+			nSpaces = pos - firstSpace
 			item.Length -= nSpaces
-			pos = state.firstSpace
+			pos = firstSpace
 		}
 
 		item.Length = pos - item.Offset
-- 
2.43.0

