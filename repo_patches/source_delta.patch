From a2b8b809dde2a708394222277923d2f2a0466d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:16 +0000
Subject: [PATCH 01/22] fix: vocabulary loaded from a JSON null accepts new
 terms

---
 vocabulary/vocabulary.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vocabulary/vocabulary.go b/vocabulary/vocabulary.go
index 4a8eaee..7a74551 100644
--- a/vocabulary/vocabulary.go
+++ b/vocabulary/vocabulary.go
@@ -36,6 +36,11 @@ func FromJSONFile(filename string) (*Vocabulary, error) {
 		return nil, err
 	}
 
+	if termToID == nil {
+		// The JSON document is "null": terms can still be added later.
+		termToID = make(map[string]int)
+	}
+
 	idToTerm := make(map[int]string, len(termToID))
 	for term, id := range termToID {
 		idToTerm[id] = term
-- 
2.43.0


From 29c2579756c2c69c43ad2245cff5ada8fe8289d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:17 +0000
Subject: [PATCH 02/22] fix: vocabulary file with repeated IDs is always loaded
 the same way

---
 vocabulary/vocabulary.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vocabulary/vocabulary.go b/vocabulary/vocabulary.go
index 7a74551..bdb057c 100644
--- a/vocabulary/vocabulary.go
+++ b/vocabulary/vocabulary.go
@@ -43,7 +43,11 @@ func FromJSONFile(filename string) (*Vocabulary, error) {
 
 	idToTerm := make(map[int]string, len(termToID))
 	for term, id := range termToID {
-		idToTerm[id] = term
+		// If more terms share the same ID, do not let the result depend on
+		// the iteration order of the map.
+		if other, exists := idToTerm[id]; !exists || term < other {
+			idToTerm[id] = term
+		}
 	}
 
 	return &Vocabulary{termToID: termToID, idToTerm: idToTerm}, nil
-- 
2.43.0


From a4a93d0ece7e4930c52cfaa04f91653f09c71b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:18 +0000
Subject: [PATCH 03/22] fix: adding a term never takes over an ID already in
 use

---
 vocabulary/vocabulary.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/vocabulary/vocabulary.go b/vocabulary/vocabulary.go
index bdb057c..10f1ed4 100644
--- a/vocabulary/vocabulary.go
+++ b/vocabulary/vocabulary.go
@@ -62,10 +62,19 @@ func (v *Vocabulary) AddTerm(term string) {
 		return
 	}
 	id := v.Size()
+	for v.hasID(id) {
+		// The IDs of a vocabulary loaded from file might be not contiguous
+		id++
+	}
 	v.termToID[term] = id
 	v.idToTerm[id] = term
 }
 
+func (v *Vocabulary) hasID(id int) bool {
+	_, ok := v.idToTerm[id]
+	return ok
+}
+
 // Size returns the size of the Vocabulary.
 func (v *Vocabulary) Size() int {
 	return len(v.termToID)
-- 
2.43.0


From 288f9090de63feb5d1d22cd817298d38e94ae61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:18 +0000
Subject: [PATCH 04/22] fix: report an error for merge tokens shorter than the
 prefix

---
 models/bpemodel/mergemap.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/models/bpemodel/mergemap.go b/models/bpemodel/mergemap.go
index 498caf6..d72338d 100644
--- a/models/bpemodel/mergemap.go
+++ b/models/bpemodel/mergemap.go
@@ -72,6 +72,9 @@ func MergeMapFromFile(
 			return nil, fmt.Errorf("line %d: right merge token is out of vocabulary", lineCount)
 		}
 
+		if prefixLength < 0 || prefixLength > len(terms[1]) {
+			return nil, fmt.Errorf("line %d: right merge token is shorter than the prefix", lineCount)
+		}
 		mergedTerm := fmt.Sprintf("%s%s", terms[0], terms[1][prefixLength:])
 		mergedID, mergedOK := vocab.GetID(mergedTerm)
 		if !mergedOK {
-- 
2.43.0


From 914a21fed55cb8b74580841d7115b9aa1a265592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:19 +0000
Subject: [PATCH 05/22] fix: load merges files with lines longer than 64 KiB

---
 models/bpemodel/mergemap.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/models/bpemodel/mergemap.go b/models/bpemodel/mergemap.go
index d72338d..4d11e3d 100644
--- a/models/bpemodel/mergemap.go
+++ b/models/bpemodel/mergemap.go
@@ -8,6 +8,7 @@ import (
 	"bufio"
 	"fmt"
 	"github.com/nlpodyssey/gotokenizers/vocabulary"
+	"math"
 	"os"
 	"strings"
 )
@@ -52,6 +53,7 @@ func MergeMapFromFile(
 	}()
 
 	scanner := bufio.NewScanner(file)
+	scanner.Buffer(nil, math.MaxInt32) // do not limit the length of a line
 	for lineCount, rank := 1, 0; scanner.Scan(); lineCount++ {
 		line := scanner.Text()
 
-- 
2.43.0


From 0620a99c9e4ebf3acfd19e2d71fbd356e5deb202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 06/22] fix: count the initial offset of a transformation in
 characters

---
 normalizedstring/normalizedstring.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index fb82a95..40a3072 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -163,8 +163,9 @@ func (ns *NormalizedString) TransformRange(
 	// compute the change in byte sizes along the way.
 	replacedNormalizedString := ns.normalized[normalizedRange.Start():normalizedRange.End()]
 
-	initialRemoved := len(replacedNormalizedString[:initialOffset])
-	replacedNormalizedRunes := []rune(replacedNormalizedString[initialOffset:])
+	replacedNormalizedRunes := []rune(replacedNormalizedString)
+	initialRemoved := len(string(replacedNormalizedRunes[:initialOffset]))
+	replacedNormalizedRunes = replacedNormalizedRunes[initialOffset:]
 
 	offset := initialRemoved + normalizedRange.Start()
 	alignments := make([]AlignmentRange, 0, normalizedRange.Len())
-- 
2.43.0


From 6f38719f391e9532fc81cbd81f1be932bd3945c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:17 +0000
Subject: [PATCH 07/22] fix: append to a string with multi-byte characters

---
 normalizedstring/normalizedstring.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index 40a3072..63875f6 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -472,8 +472,8 @@ func (ns *NormalizedString) Append(s string) {
 		transformations = append(transformations, RuneChange{Rune: r, Change: 1})
 	}
 
-	// FIXME: it's probably wrong to pass the rune index, instead of byte index
-	ns.TransformRange(NewNormalizedRange(lastRuneIndex, ns.Len()), transformations, 0)
+	lastRuneStart := ns.Len() - len(string(lastRune))
+	ns.TransformRange(NewNormalizedRange(lastRuneStart, ns.Len()), transformations, 0)
 }
 
 // SplitDelimiterBehavior is used by NormalizedString.Split to define the
-- 
2.43.0


From a6753585e35695b5af4202614a0b84c79374628c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:18 +0000
Subject: [PATCH 08/22] fix: prepending an empty string keeps the alignments

---
 normalizedstring/normalizedstring.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index 63875f6..1219fe8 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -435,6 +435,10 @@ func (ns *NormalizedString) Prepend(s string) {
 		return
 	}
 
+	if len(s) == 0 {
+		return
+	}
+
 	transformations := make([]RuneChange, 0, len(s)+1)
 
 	for i, r := range s {
-- 
2.43.0


From b743d179689be07476be48a95c5377ec8e9aedfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 09/22] fix: normalized strings tolerate invalid UTF-8

---
 normalizedstring/normalizedstring.go | 51 ++++++++++++++++++----------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index 1219fe8..f283a74 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -10,6 +10,7 @@ import (
 	"github.com/nlpodyssey/gotokenizers/strutils"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 )
 
 // NormalizedString takes care of processing an "original" string to modify
@@ -74,15 +75,15 @@ func FromString(s string) *NormalizedString {
 func alignmentsFromString(s string) []AlignmentRange {
 	alignments := make([]AlignmentRange, 0, len(s))
 
-	for runeIndex, r := range s {
-		strRune := string(r)
-		bytesLen := len(strRune)
+	for runeIndex := 0; runeIndex < len(s); {
+		_, bytesLen := utf8.DecodeRuneInString(s[runeIndex:])
 		for byteIndex := 0; byteIndex < bytesLen; byteIndex++ {
 			alignments = append(alignments, AlignmentRange{
 				start: runeIndex,
 				end:   runeIndex + bytesLen,
 			})
 		}
+		runeIndex += bytesLen
 	}
 
 	return alignments
@@ -163,9 +164,9 @@ func (ns *NormalizedString) TransformRange(
 	// compute the change in byte sizes along the way.
 	replacedNormalizedString := ns.normalized[normalizedRange.Start():normalizedRange.End()]
 
-	replacedNormalizedRunes := []rune(replacedNormalizedString)
-	initialRemoved := len(string(replacedNormalizedRunes[:initialOffset]))
-	replacedNormalizedRunes = replacedNormalizedRunes[initialOffset:]
+	replacedRuneSizes := runeSizes(replacedNormalizedString)
+	initialRemoved := sum(replacedRuneSizes[:initialOffset])
+	replacedRuneSizes = replacedRuneSizes[initialOffset:]
 
 	offset := initialRemoved + normalizedRange.Start()
 	alignments := make([]AlignmentRange, 0, normalizedRange.Len())
@@ -191,16 +192,15 @@ func (ns *NormalizedString) TransformRange(
 		// If we are replacing a character, find it and compute the change in size
 		replacedRuneSize := 0
 		if runeChange.Change <= 0 {
-			replacedRune := replacedNormalizedRunes[0]
-			replacedNormalizedRunes = replacedNormalizedRunes[1:]
-			replacedRuneSize = len(string(replacedRune))
+			replacedRuneSize = replacedRuneSizes[0]
+			replacedRuneSizes = replacedRuneSizes[1:]
 		}
 
 		// If we are removing some characters, find them too
 		totalBytesToRemove := 0
 		if runeChange.Change <= -1 {
-			totalBytesToRemove = len(string(replacedNormalizedRunes[:-runeChange.Change]))
-			replacedNormalizedRunes = replacedNormalizedRunes[-runeChange.Change:]
+			totalBytesToRemove = sum(replacedRuneSizes[:-runeChange.Change])
+			replacedRuneSizes = replacedRuneSizes[-runeChange.Change:]
 		}
 
 		// Keep track of the changes for next offsets
@@ -229,6 +229,26 @@ func (ns *NormalizedString) TransformRange(
 	)
 }
 
+// runeSizes returns the number of bytes occupied in s by each of its runes.
+// A byte which is not part of a valid UTF-8 sequence counts as one rune.
+func runeSizes(s string) []int {
+	sizes := make([]int, 0, len(s))
+	for len(s) > 0 {
+		_, size := utf8.DecodeRuneInString(s)
+		sizes = append(sizes, size)
+		s = s[size:]
+	}
+	return sizes
+}
+
+func sum(values []int) int {
+	result := 0
+	for _, value := range values {
+		result += value
+	}
+	return result
+}
+
 // Transform applies transformations to the current normalized version of
 // the string, while updating the alignments.
 //
@@ -449,8 +469,7 @@ func (ns *NormalizedString) Prepend(s string) {
 		transformations = append(transformations, RuneChange{Rune: r, Change: change})
 	}
 
-	firstRune := []rune(ns.normalized)[0]
-	firstRuneBytesLen := len(string(firstRune))
+	firstRune, firstRuneBytesLen := utf8.DecodeRuneInString(ns.normalized)
 	transformations = append(transformations, RuneChange{Rune: firstRune, Change: 1})
 
 	ns.TransformRange(NewNormalizedRange(0, firstRuneBytesLen), transformations, 0)
@@ -466,9 +485,7 @@ func (ns *NormalizedString) Append(s string) {
 
 	transformations := make([]RuneChange, 0, len(s)+1)
 
-	runes := []rune(ns.normalized)
-	lastRuneIndex := len(runes) - 1
-	lastRune := runes[lastRuneIndex]
+	lastRune, lastRuneBytesLen := utf8.DecodeLastRuneInString(ns.normalized)
 
 	transformations = append(transformations, RuneChange{Rune: lastRune, Change: 0})
 
@@ -476,7 +493,7 @@ func (ns *NormalizedString) Append(s string) {
 		transformations = append(transformations, RuneChange{Rune: r, Change: 1})
 	}
 
-	lastRuneStart := ns.Len() - len(string(lastRune))
+	lastRuneStart := ns.Len() - lastRuneBytesLen
 	ns.TransformRange(NewNormalizedRange(lastRuneStart, ns.Len()), transformations, 0)
 }
 
-- 
2.43.0


From 6094dfba0050291c116c623b936ca8df9c2a34d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 10/22] fix: the empty string pattern covers strings with
 multi-byte characters

---
 splitpattern/string.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/splitpattern/string.go b/splitpattern/string.go
index 808db8e..3a1be98 100644
--- a/splitpattern/string.go
+++ b/splitpattern/string.go
@@ -28,8 +28,7 @@ func (sp *StringSplitPattern) FindMatches(s string) ([]Capture, error) {
 	if sp.r == nil {
 		// If we try to find the matches with an empty string, just don't match anything
 		return []Capture{{
-			// FIXME: is len of runes (and not bytes) correct?
-			Offsets: strutils.ByteOffsets{Start: 0, End: len([]rune(s))},
+			Offsets: strutils.ByteOffsets{Start: 0, End: len(s)},
 			IsMatch: false,
 		}}, nil
 	}
-- 
2.43.0


From a5a9948dcd762492184c51308ec80569bc846d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:20 +0000
Subject: [PATCH 11/22] fix: inverting a pattern leaves the captures of the
 inner one untouched

---
 splitpattern/invertedpattern.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/splitpattern/invertedpattern.go b/splitpattern/invertedpattern.go
index b99919f..937200e 100644
--- a/splitpattern/invertedpattern.go
+++ b/splitpattern/invertedpattern.go
@@ -19,8 +19,10 @@ func (ip *InvertedPattern) FindMatches(s string) ([]Capture, error) {
 	if err != nil {
 		return nil, err
 	}
+	// The captures might still be in use by the inner pattern: do not modify them
+	inverted := make([]Capture, len(captures))
 	for i, capture := range captures {
-		captures[i].IsMatch = !capture.IsMatch
+		inverted[i] = Capture{Offsets: capture.Offsets, IsMatch: !capture.IsMatch}
 	}
-	return captures, nil
+	return inverted, nil
 }
-- 
2.43.0


From ff78183f2ef1dc61ae81aa2c5aabf87977b187da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 12/22] fix: function patterns tolerate invalid UTF-8

---
 splitpattern/func.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/splitpattern/func.go b/splitpattern/func.go
index 6a836cf..be09ebe 100644
--- a/splitpattern/func.go
+++ b/splitpattern/func.go
@@ -4,7 +4,10 @@
 
 package splitpattern
 
-import "github.com/nlpodyssey/gotokenizers/strutils"
+import (
+	"github.com/nlpodyssey/gotokenizers/strutils"
+	"unicode/utf8"
+)
 
 type FuncSplitPattern struct {
 	f func(rune) bool
@@ -30,7 +33,7 @@ func (sp *FuncSplitPattern) FindMatches(s string) ([]Capture, error) {
 	splits := make([]Capture, 0, len(s))
 
 	for i, r := range s {
-		runeBytesLen := len(string(r))
+		_, runeBytesLen := utf8.DecodeRuneInString(s[i:])
 		lastSeen = i + runeBytesLen
 
 		if !sp.f(r) {
-- 
2.43.0


From 6f80a80a530821fb939705ed8b01f97c6567dcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:22 +0000
Subject: [PATCH 13/22] fix: regexp2 patterns tolerate invalid UTF-8

---
 splitpattern/regexp2.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/splitpattern/regexp2.go b/splitpattern/regexp2.go
index 909fa3f..e9195c5 100644
--- a/splitpattern/regexp2.go
+++ b/splitpattern/regexp2.go
@@ -27,7 +27,13 @@ func (sp *Regexp2SplitPattern) FindMatches(s string) ([]Capture, error) {
 		}}, nil
 	}
 
-	runes := []rune(s)
+	// Byte position of each rune, including the end of the string
+	bytePositions := make([]int, 0, len(s)+1)
+	for i := range s {
+		bytePositions = append(bytePositions, i)
+	}
+	bytePositions = append(bytePositions, len(s))
+
 	prev := 0
 	splits := make([]Capture, 0, len(s))
 
@@ -37,8 +43,8 @@ func (sp *Regexp2SplitPattern) FindMatches(s string) ([]Capture, error) {
 	}
 
 	for match != nil {
-		startByte := len(string(runes[:match.Index]))
-		endByte := startByte + len(match.String())
+		startByte := bytePositions[match.Index]
+		endByte := bytePositions[match.Index+match.Length]
 
 		if prev != startByte {
 			splits = append(splits, Capture{
-- 
2.43.0


From a64363cbb000a28f27e2c0e521bd11d32caf14fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:23 +0000
Subject: [PATCH 14/22] fix: WordPiece considers all prefixes ending with
 multi-byte characters

---
 models/wordpiecemodel/wordpiecemodel.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/models/wordpiecemodel/wordpiecemodel.go b/models/wordpiecemodel/wordpiecemodel.go
index acda3c2..5978c80 100644
--- a/models/wordpiecemodel/wordpiecemodel.go
+++ b/models/wordpiecemodel/wordpiecemodel.go
@@ -9,6 +9,7 @@ import (
 	"github.com/nlpodyssey/gotokenizers/models"
 	"github.com/nlpodyssey/gotokenizers/strutils"
 	"github.com/nlpodyssey/gotokenizers/vocabulary"
+	"unicode/utf8"
 )
 
 var ErrUnknownTokenOutOfVocabulary = fmt.Errorf("the provided unk token is out of vocabulary")
@@ -91,11 +92,8 @@ func (m *WordPieceModel) Tokenize(sequence string) ([]models.Token, error) {
 				break
 			}
 
-			if len(subStr) > 0 {
-				end -= len(string(subStr[len(subStr)-1]))
-			} else {
-				end--
-			}
+			_, lastRuneSize := utf8.DecodeLastRuneInString(sequence[start:end])
+			end -= lastRuneSize
 		}
 
 		if !hasCurToken {
-- 
2.43.0


From a0f64253e9df219df39655edba00673400b38048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 15/22] fix: BPE continuing subword prefix applies to all
 characters but the first

---
 models/bpemodel/bpemodel.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/bpemodel/bpemodel.go b/models/bpemodel/bpemodel.go
index 308f9fd..be9225b 100644
--- a/models/bpemodel/bpemodel.go
+++ b/models/bpemodel/bpemodel.go
@@ -139,7 +139,7 @@ func (m *BPEModel) mergeWord(w string) (*Word, error) {
 		s := string(r)
 		byteLen := len(s)
 
-		if i == 0 && m.hasContinuingSubwordPrefix() {
+		if i > 0 && m.hasContinuingSubwordPrefix() {
 			s = m.continuingSubwordPrefix + s
 		}
 		if i == lastRuneIndex && m.hasEndOfWordSuffix() {
-- 
2.43.0


From 315fe68a37d20c61ad59d20f80c98f88736f3e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 16/22] fix: BPE offsets account for invalid UTF-8

---
 models/bpemodel/bpemodel.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/models/bpemodel/bpemodel.go b/models/bpemodel/bpemodel.go
index be9225b..1605036 100644
--- a/models/bpemodel/bpemodel.go
+++ b/models/bpemodel/bpemodel.go
@@ -9,6 +9,7 @@ import (
 	"github.com/nlpodyssey/gotokenizers/models"
 	"github.com/nlpodyssey/gotokenizers/strutils"
 	"github.com/nlpodyssey/gotokenizers/vocabulary"
+	"unicode/utf8"
 )
 
 var ErrUnknownTokenOutOfVocabulary = fmt.Errorf("the provided unk token is out of vocabulary")
@@ -132,17 +133,14 @@ func (m *BPEModel) mergeWord(w string) (*Word, error) {
 
 	var unk *Symbol
 
-	runes := []rune(w)
-	lastRuneIndex := len(runes) - 1
-
-	for i, r := range runes {
+	for i, r := range w {
 		s := string(r)
-		byteLen := len(s)
+		_, byteLen := utf8.DecodeRuneInString(w[i:])
 
 		if i > 0 && m.hasContinuingSubwordPrefix() {
 			s = m.continuingSubwordPrefix + s
 		}
-		if i == lastRuneIndex && m.hasEndOfWordSuffix() {
+		if i+byteLen == len(w) && m.hasEndOfWordSuffix() {
 			s = s + m.endOfWordSuffix
 		}
 
-- 
2.43.0


From 0842e89babc63e378dd26f8aa0180560b4510303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 17/22] fix: byte-level pre-tokenizer tolerates invalid UTF-8

---
 .../bytelevelpretokenizer/bytelevelpretokenizer.go         | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go b/pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go
index c81f207..2b6ee2b 100644
--- a/pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go
+++ b/pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go
@@ -11,6 +11,7 @@ import (
 	"github.com/nlpodyssey/gotokenizers/pretokenizers"
 	"github.com/nlpodyssey/gotokenizers/splitpattern"
 	"unicode"
+	"unicode/utf8"
 )
 
 // ByteLevelPreTokenizer allows the generation of pre-tokens suitable in the
@@ -87,11 +88,9 @@ func (b *ByteLevelPreTokenizer) PreTokenize(pts *pretokenizedstring.PreTokenized
 	return pts.Normalize(func(ns *normalizedstring.NormalizedString) error {
 		s := ns.Get()
 		transformations := make([]normalizedstring.RuneChange, 0, len(s))
-		i := 0
-		for _, r := range s {
-			size := len(string(r))
+		for i := range s {
+			_, size := utf8.DecodeRuneInString(s[i:])
 			bytes := []byte(s[i : i+size])
-			i += size
 
 			for byteIndex, byteVal := range bytes {
 				change := 0
-- 
2.43.0


From 6295283b31a63b405508942e101cfe4f6a0dbde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:26 +0000
Subject: [PATCH 18/22] fix: byte offsets are converted to rune offsets

---
 strutils/strutils.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/strutils/strutils.go b/strutils/strutils.go
index df27192..93d4c9f 100644
--- a/strutils/strutils.go
+++ b/strutils/strutils.go
@@ -4,6 +4,8 @@
 
 package strutils
 
+import "unicode/utf8"
+
 // IsRuneBoundary checks that `index`-th byte is the first byte in a UTF-8 code
 // point sequence or the end of the string.
 //
@@ -52,10 +54,12 @@ type BytesToRuneOffsetConverter struct {
 
 func NewBytesToRuneOffsetConverter(sequence string) *BytesToRuneOffsetConverter {
 	mapping := make([]int, 0, len(sequence))
-	for runeIndex, r := range sequence {
-		for range []byte(string(r)) {
+	for runeIndex := 0; len(sequence) > 0; runeIndex++ {
+		_, size := utf8.DecodeRuneInString(sequence)
+		for i := 0; i < size; i++ {
 			mapping = append(mapping, runeIndex)
 		}
+		sequence = sequence[size:]
 	}
 	return &BytesToRuneOffsetConverter{mapping: mapping}
 }
-- 
2.43.0


From e6d21baf2c473de37257d52ee1e0f0b5cddad23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:54 +0000
Subject: [PATCH 19/22] fix: BPE offsets account for characters left out of the
 vocabulary

---
 models/bpemodel/bpemodel.go | 6 ++++++
 models/bpemodel/word.go     | 5 ++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/models/bpemodel/bpemodel.go b/models/bpemodel/bpemodel.go
index 1605036..06bf6de 100644
--- a/models/bpemodel/bpemodel.go
+++ b/models/bpemodel/bpemodel.go
@@ -132,6 +132,7 @@ func (m *BPEModel) mergeWord(w string) (*Word, error) {
 	}
 
 	var unk *Symbol
+	gap := 0
 
 	for i, r := range w {
 		s := string(r)
@@ -151,6 +152,8 @@ func (m *BPEModel) mergeWord(w string) (*Word, error) {
 				unk = nil
 			}
 			word.Add(id, byteLen)
+			(*word)[word.Len()-1].Gap = gap
+			gap = 0
 		} else if m.hasUnknownToken() {
 			if unk != nil {
 				if m.unknownFusionEnabled {
@@ -168,6 +171,8 @@ func (m *BPEModel) mergeWord(w string) (*Word, error) {
 					Length: byteLen,
 				}
 			}
+		} else {
+			gap += byteLen
 		}
 	}
 
@@ -188,6 +193,7 @@ func (m *BPEModel) wordToTokens(word *Word) ([]models.Token, error) {
 		if !ok {
 			return nil, fmt.Errorf("ID %d not found in vocabulary", wordSymbol.ID)
 		}
+		offsetStart += wordSymbol.Gap
 		offsetEnd := offsetStart + wordSymbol.Length
 		tokens[i] = models.Token{
 			ID:    wordSymbol.ID,
diff --git a/models/bpemodel/word.go b/models/bpemodel/word.go
index c5f35e6..013d2f9 100644
--- a/models/bpemodel/word.go
+++ b/models/bpemodel/word.go
@@ -28,6 +28,9 @@ type WordSymbol struct {
 	// Prev is the index of the next symbol in the Word.
 	// -1 means no next symbol.
 	Next int
+	// Gap is the length in bytes of the characters right before this symbol
+	// which are not represented by any symbol.
+	Gap int
 }
 
 // MergeWith merges the current WordSymbol with the other one.
@@ -35,7 +38,7 @@ type WordSymbol struct {
 // on the left, and other to be the next one on the right.
 func (s *WordSymbol) MergeWith(other *WordSymbol, newSymbolID int) {
 	s.ID = newSymbolID
-	s.Length += other.Length
+	s.Length += other.Gap + other.Length
 	s.Next = other.Next
 }
 
-- 
2.43.0


From fa9bffd1cdc4b897c1de9bc4ae0083c21cff1cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:31 +0000
Subject: [PATCH 20/22] fix: the empty range at the end of a string converts to
 rune offsets

---
 strutils/strutils.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/strutils/strutils.go b/strutils/strutils.go
index 93d4c9f..f98e48d 100644
--- a/strutils/strutils.go
+++ b/strutils/strutils.go
@@ -69,6 +69,12 @@ func (b *BytesToRuneOffsetConverter) Convert(offsets ByteOffsets) RuneOffsets {
 		return RuneOffsets{Start: 0, End: 0}
 	}
 
+	if offsets.Start == len(b.mapping) {
+		// The empty range at the end of the sequence
+		end := b.mapping[offsets.Start-1] + 1
+		return RuneOffsets{Start: end, End: end}
+	}
+
 	start := b.mapping[offsets.Start]
 
 	var end int
-- 
2.43.0


From 1d063db2719d1ff3cc5bc2483084ddcaac8161f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:04 +0000
Subject: [PATCH 21/22] fix: the original alignments of an empty normalized
 string can be read

---
 normalizedstring/normalizedstring.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index f283a74..703cd3a 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -259,6 +259,11 @@ func (ns *NormalizedString) Transform(dest []RuneChange, initialOffset int) {
 
 // OriginalAlignments recalculates the original alignments.
 func (ns *NormalizedString) OriginalAlignments() []AlignmentRange {
+	if len(ns.alignments) == 0 {
+		// Nothing is left of the original string
+		return make([]AlignmentRange, len(ns.original))
+	}
+
 	// (start, end) are in alignments
 	// (offset, length) are in originalAlignments
 	originalAlignments := make([]AlignmentRange, 0, len(ns.original))
-- 
2.43.0


From bf38b5c4995f50145db7a0c1bf7690326a2f6259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:44 +0000
Subject: [PATCH 22/22] fix: slicing an empty range no longer panics when the
 other side is shorter

An empty range was taken for the same range of the other side: a pattern with an
empty match, on a normalized text that is longer than the original, made Split
panic, and the empty part was shifted by a position of the normalized text.
---
 normalizedstring/normalizedstring.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/normalizedstring/normalizedstring.go b/normalizedstring/normalizedstring.go
index 703cd3a..8c2b5af 100644
--- a/normalizedstring/normalizedstring.go
+++ b/normalizedstring/normalizedstring.go
@@ -343,6 +343,9 @@ func (ns *NormalizedString) OriginalAlignments() []AlignmentRange {
 // GetRange returns a range of the normalized string, and a flag which reports
 // whether the operation is successful or not.
 func (ns *NormalizedString) GetRange(rng Range) (string, bool) {
+	if rng.Len() == 0 {
+		return "", true
+	}
 	nr, ok := ns.CoerceRangeToNormalized(rng)
 	if !ok {
 		return "", false
@@ -353,6 +356,9 @@ func (ns *NormalizedString) GetRange(rng Range) (string, bool) {
 // GetOriginalRange returns a range of the original string, and a flag which
 // reports whether the operation is successful or not.
 func (ns *NormalizedString) GetOriginalRange(rng Range) (string, bool) {
+	if rng.Len() == 0 {
+		return "", true
+	}
 	or, ok := ns.CoerceRangeToOriginal(rng)
 	if !ok {
 		return "", false
@@ -669,6 +675,13 @@ func (ns *NormalizedString) Slice(rng Range) (*NormalizedString, bool) {
 		return nil, false
 	}
 
+	if rng.Len() == 0 {
+		// An empty range has no equivalent on the other side, which might not
+		// even be long enough to contain the same position
+		originalShift := ns.originalShift + ns.originalPosition(rng)
+		return New("", "", []AlignmentRange{}, originalShift), true
+	}
+
 	normalizedRange, nrOk := ns.CoerceRangeToNormalized(rng)
 	if !nrOk {
 		return nil, false
@@ -859,6 +872,21 @@ func (ns *NormalizedString) rangeIsValid(r Range) bool {
 		strutils.IsRuneBoundary(s, r.End())
 }
 
+// originalPosition returns the position in the original string where the given
+// Range starts. The Range must be valid.
+func (ns *NormalizedString) originalPosition(r Range) int {
+	if _, isOriginal := r.(OriginalRange); isOriginal {
+		return r.Start()
+	}
+	if r.Start() < len(ns.alignments) {
+		return ns.alignments[r.Start()].start
+	}
+	if len(ns.alignments) > 0 {
+		return ns.alignments[len(ns.alignments)-1].end
+	}
+	return 0
+}
+
 // countLeadingSpaces returns the number of leading spaces in the given slice
 // of runes, if any.
 func countLeadingSpaces(runes []rune) int {
-- 
2.43.0

