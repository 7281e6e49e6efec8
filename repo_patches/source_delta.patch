From 5dfb103495d26b091908ce3e8caf6c1629b968e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:31 +0000
Subject: [PATCH 01/29] fix: reject empty and NUL-containing words in the
 dictionary

An empty key or a key with a NUL byte damages or aliases the trie's own
terminator entries: after AddToken("") every lookup failed, and a word
followed by NUL was found (and overwritten) as the word itself.
---
 dictionary.go | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/dictionary.go b/dictionary.go
index 31a85bb..cb848a1 100755
--- a/dictionary.go
+++ b/dictionary.go
@@ -14,6 +14,8 @@
 package gse
 
 import (
+	"bytes"
+
 	"github.com/vcaesar/cedar"
 )
 
@@ -47,15 +49,25 @@ func (dict *Dictionary) TotalFreq() float64 {
 	return dict.totalFreq
 }
 
+// hasNul the trie use the NUL byte as its terminator,
+// a key with it can not be stored or looked up
+func hasNul(key []byte) bool {
+	return bytes.IndexByte(key, 0) >= 0
+}
+
 // AddToken add a token to the dictionary
 func (dict *Dictionary) AddToken(token Token) error {
-	bytes := textSliceToBytes(token.text)
-	val, err := dict.trie.Get(bytes)
+	key := textSliceToBytes(token.text)
+	if len(key) == 0 || hasNul(key) {
+		return cedar.ErrInvalidKey
+	}
+
+	val, err := dict.trie.Get(key)
 	if err == nil || val > 0 {
 		return nil
 	}
 
-	err = dict.trie.Insert(bytes, dict.NumTokens())
+	err = dict.trie.Insert(key, dict.NumTokens())
 	if err != nil {
 		return err
 	}
@@ -72,9 +84,12 @@ func (dict *Dictionary) AddToken(token Token) error {
 
 // RemoveToken remove token in dictionary
 func (dict *Dictionary) RemoveToken(token Token) error {
-	bytes := textSliceToBytes(token.text)
+	key := textSliceToBytes(token.text)
+	if hasNul(key) {
+		return cedar.ErrNoKey
+	}
 
-	return dict.trie.Delete(bytes)
+	return dict.trie.Delete(key)
 }
 
 // LookupTokens finds tokens and words in the dictionary, matching the given pattern
@@ -87,6 +102,10 @@ func (dict *Dictionary) LookupTokens(
 	)
 
 	for _, word := range words {
+		if hasNul(word) {
+			break
+		}
+
 		id, err = dict.trie.Jump(word, id)
 		if err != nil {
 			break
@@ -111,6 +130,10 @@ func (dict *Dictionary) Find(word []byte) (float64, string, bool) {
 		err       error
 	)
 
+	if hasNul(word) {
+		return 0, "", false
+	}
+
 	id, err = dict.trie.Jump(word, id)
 	if err != nil {
 		return 0, "", false
@@ -133,6 +156,10 @@ func (dict *Dictionary) Find(word []byte) (float64, string, bool) {
 // Value find word in the dictionary
 // return the word's value and id
 func (dict *Dictionary) Value(word []byte) (val, id int, err error) {
+	if hasNul(word) {
+		return 0, id, cedar.ErrNoKey
+	}
+
 	id, err = dict.trie.Jump(word, id)
 	if err != nil {
 		return 0, id, err
-- 
2.43.0


From 781e8945c91b5260d0d7fe4268967d5e56b84609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 02/29] fix: removing a prefix of other words must not remove
 those words

---
 dictionary.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dictionary.go b/dictionary.go
index cb848a1..046925a 100755
--- a/dictionary.go
+++ b/dictionary.go
@@ -89,6 +89,12 @@ func (dict *Dictionary) RemoveToken(token Token) error {
 		return cedar.ErrNoKey
 	}
 
+	// the key may be only a prefix of other words, the trie
+	// would delete all of them
+	if _, err := dict.trie.Get(key); err != nil {
+		return err
+	}
+
 	return dict.trie.Delete(key)
 }
 
-- 
2.43.0


From 719e29198ba07ff9b19c8705ad6d499afdb8ca37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:35 +0000
Subject: [PATCH 03/29] fix: LoadDict after LoadDictMap or LoadDictStr must
 keep the loaded words

---
 dict_1.16.go |  3 +--
 dict_util.go | 15 ++++++++++-----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/dict_1.16.go b/dict_1.16.go
index e90fceb..1e1f2b8 100644
--- a/dict_1.16.go
+++ b/dict_1.16.go
@@ -90,8 +90,7 @@ func (seg *Segmenter) LoadDictEmbed(dict ...string) (err error) {
 // LoadDictStr load the dictionary from dict path
 func (seg *Segmenter) LoadDictStr(dict string) error {
 	if seg.Dict == nil {
-		seg.Dict = NewDict()
-		seg.Init()
+		seg.initDict()
 	}
 
 	arr := strings.Split(dict, "\n")
diff --git a/dict_util.go b/dict_util.go
index 58bf42c..d39c245 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -54,6 +54,14 @@ func (seg *Segmenter) Init() {
 	}
 }
 
+// initDict create an empty dictionary and mark it as loaded,
+// the words loaded later are added to it
+func (seg *Segmenter) initDict() {
+	seg.Dict = NewDict()
+	seg.Load = true
+	seg.Init()
+}
+
 // Dictionary returns the dictionary used by the tokenizer
 func (seg *Segmenter) Dictionary() *Dictionary {
 	return seg.Dict
@@ -112,8 +120,7 @@ func (seg *Segmenter) Empty() error {
 // LoadDictMap load dictionary from []map[string]string
 func (seg *Segmenter) LoadDictMap(dict []map[string]string) error {
 	if seg.Dict == nil {
-		seg.Dict = NewDict()
-		seg.Init()
+		seg.initDict()
 	}
 
 	for _, d := range dict {
@@ -149,9 +156,7 @@ func (seg *Segmenter) LoadDictMap(dict []map[string]string) error {
 // in the `common dictionary`, the `user dictionary` is given priority.
 func (seg *Segmenter) LoadDict(files ...string) error {
 	if !seg.Load {
-		seg.Dict = NewDict()
-		seg.Load = true
-		seg.Init()
+		seg.initDict()
 	}
 
 	var (
-- 
2.43.0


From d4d8960687853e81e5593bd32640ceef8f7c97a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 04/29] fix: do not panic without a dictionary or after Empty

After Empty() the Load flag stayed set, so the next LoadDict read into a
nil dictionary; the other methods panicked without a dictionary as well.
---
 dag.go        |  4 ++--
 dict_util.go  | 15 ++++++++++++++-
 dictionary.go | 15 ++++++++++++---
 3 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/dag.go b/dag.go
index dd15cb9..f3c1254 100644
--- a/dag.go
+++ b/dag.go
@@ -173,7 +173,7 @@ func (seg *Segmenter) calc(runes []rune) map[int]route {
 	rs[n] = route{freq: 0.0, index: 0}
 	var r route
 
-	logT := math.Log(seg.Dict.totalFreq)
+	logT := math.Log(seg.Dict.TotalFreq())
 	for idx := n - 1; idx >= 0; idx-- {
 		for _, i := range dag[idx] {
 			freq, _, ok := seg.Find(string(runes[idx : i+1]))
@@ -377,7 +377,7 @@ func (seg *Segmenter) cutForSearch(str string, hmm ...bool) []string {
 // return a suggested frequency of a word cutted to short words.
 func (seg *Segmenter) SuggestFreq(words ...string) float64 {
 	freq := 1.0
-	total := seg.Dict.totalFreq
+	total := seg.Dict.TotalFreq()
 
 	if len(words) > 1 {
 		for _, word := range words {
diff --git a/dict_util.go b/dict_util.go
index d39c245..d270250 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -81,6 +81,10 @@ func (seg *Segmenter) ToToken(text string, freq float64, pos ...string) Token {
 
 // AddToken add a new text to the token
 func (seg *Segmenter) AddToken(text string, freq float64, pos ...string) error {
+	if seg.Dict == nil {
+		seg.initDict()
+	}
+
 	token := seg.ToToken(text, freq, pos...)
 	return seg.Dict.AddToken(token)
 }
@@ -114,6 +118,7 @@ func (seg *Segmenter) RemoveToken(text string) error {
 // Empty empty the seg dictionary
 func (seg *Segmenter) Empty() error {
 	seg.Dict = nil
+	seg.Load = false
 	return nil
 }
 
@@ -155,7 +160,7 @@ func (seg *Segmenter) LoadDictMap(dict []map[string]string) error {
 // When a participle appears both in the user dictionary and
 // in the `common dictionary`, the `user dictionary` is given priority.
 func (seg *Segmenter) LoadDict(files ...string) error {
-	if !seg.Load {
+	if !seg.Load || seg.Dict == nil {
 		seg.initDict()
 	}
 
@@ -331,6 +336,10 @@ func (seg *Segmenter) Reader(reader *bufio.Reader, files ...string) error {
 		file = files[0]
 	}
 
+	if seg.Dict == nil {
+		seg.initDict()
+	}
+
 	// Read the word segmentation line by line
 	line := 0
 	for {
@@ -457,6 +466,10 @@ func IsJp(segText string) bool {
 
 // CalcToken calc the segmenter token
 func (seg *Segmenter) CalcToken() {
+	if seg.Dict == nil {
+		return
+	}
+
 	// Calculate the path value of each word segment.
 	// For the meaning of the path value, see the notes of the Token structure
 	logTotalFreq := float32(math.Log2(seg.Dict.totalFreq))
diff --git a/dictionary.go b/dictionary.go
index 046925a..897f0af 100755
--- a/dictionary.go
+++ b/dictionary.go
@@ -36,16 +36,25 @@ func NewDict() *Dictionary {
 
 // MaxTokenLen the maximum length of the dictionary
 func (dict *Dictionary) MaxTokenLen() int {
+	if dict == nil {
+		return 0
+	}
 	return dict.maxTokenLen
 }
 
 // NumTokens the number of tokens in the dictionary
 func (dict *Dictionary) NumTokens() int {
+	if dict == nil {
+		return 0
+	}
 	return len(dict.Tokens)
 }
 
 // TotalFreq the total frequency of the dictionary
 func (dict *Dictionary) TotalFreq() float64 {
+	if dict == nil {
+		return 0
+	}
 	return dict.totalFreq
 }
 
@@ -85,7 +94,7 @@ func (dict *Dictionary) AddToken(token Token) error {
 // RemoveToken remove token in dictionary
 func (dict *Dictionary) RemoveToken(token Token) error {
 	key := textSliceToBytes(token.text)
-	if hasNul(key) {
+	if dict == nil || hasNul(key) {
 		return cedar.ErrNoKey
 	}
 
@@ -136,7 +145,7 @@ func (dict *Dictionary) Find(word []byte) (float64, string, bool) {
 		err       error
 	)
 
-	if hasNul(word) {
+	if dict == nil || hasNul(word) {
 		return 0, "", false
 	}
 
@@ -162,7 +171,7 @@ func (dict *Dictionary) Find(word []byte) (float64, string, bool) {
 // Value find word in the dictionary
 // return the word's value and id
 func (dict *Dictionary) Value(word []byte) (val, id int, err error) {
-	if hasNul(word) {
+	if dict == nil || hasNul(word) {
 		return 0, id, cedar.ErrNoKey
 	}
 
-- 
2.43.0


From bdd2714f3c2e2f0d3f2c8fd7fef3553e7b6635f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:25 +0000
Subject: [PATCH 05/29] fix: search mode must not drop single-atom texts and
 whole-text words

---
 segmenter.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/segmenter.go b/segmenter.go
index 0cd1125..e260654 100755
--- a/segmenter.go
+++ b/segmenter.go
@@ -75,20 +75,18 @@ type jumper struct {
 //
 // []Segment return segments result
 func (seg *Segmenter) Segment(bytes []byte) []Segment {
-	return seg.internalSegment(bytes, false)
+	return seg.internalSegment(bytes)
 }
 
 // ModeSegment segment using search mode if searchMode is true
+//
+// the segments are the same in both modes, the search mode outputs
+// (ToString, ToSlice and ToPos) also output their sub-segments
 func (seg *Segmenter) ModeSegment(bytes []byte, searchMode ...bool) []Segment {
-	var mode bool
-	if len(searchMode) > 0 {
-		mode = searchMode[0]
-	}
-
-	return seg.internalSegment(bytes, mode)
+	return seg.internalSegment(bytes)
 }
 
-func (seg *Segmenter) internalSegment(bytes []byte, searchMode bool) []Segment {
+func (seg *Segmenter) internalSegment(bytes []byte) []Segment {
 	// special cases
 	if len(bytes) == 0 {
 		// return []Segment{}
@@ -98,7 +96,7 @@ func (seg *Segmenter) internalSegment(bytes []byte, searchMode bool) []Segment {
 	// split text to words
 	text := seg.SplitTextToWords(bytes)
 
-	return seg.segmentWords(text, searchMode)
+	return seg.segmentWords(text, false)
 }
 
 func (seg *Segmenter) segmentWords(text []Text, searchMode bool) []Segment {
-- 
2.43.0


From de590a85b42e48332664adb8ce1bceb57a6ab3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:11 +0000
Subject: [PATCH 06/29] fix: a zero distance is a visited location of the
 shortest path

The distance of a word is zero when it is the only word of the dictionary
or was added without CalcToken; its jump was then always overwritten.
---
 segmenter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segmenter.go b/segmenter.go
index e260654..340ba6a 100755
--- a/segmenter.go
+++ b/segmenter.go
@@ -182,7 +182,7 @@ func (seg *Segmenter) segmentWords(text []Text, searchMode bool) []Segment {
 
 // updateJumper Update the jump information:
 //  1. When the location has never been visited
-//     (the case where jumper.minDistance is zero), or
+//     (the case where jumper.token is nil), or
 //  2. When the current shortest path at the location
 //     is greater than the new shortest path
 //
@@ -190,7 +190,7 @@ func (seg *Segmenter) segmentWords(text []Text, searchMode bool) []Segment {
 // add the probability of the new split
 func updateJumper(jumper *jumper, baseDistance float32, token *Token) {
 	newDistance := baseDistance + token.distance
-	if jumper.minDistance == 0 || jumper.minDistance > newDistance {
+	if jumper.token == nil || jumper.minDistance > newDistance {
 		jumper.minDistance = newDistance
 		jumper.token = token
 	}
-- 
2.43.0


From 38cfb7e55b7fa59cb1959ae86d8157709cbb27f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:24 +0000
Subject: [PATCH 07/29] fix: segment correctly when Alpha, Num or AlphaNum
 change after loading

A word then matches another number of atoms of the text than it was split
into when it was added: the shortest path overlapped, or went out of range.
---
 dictionary.go | 10 +++++++++-
 segmenter.go  | 21 +++++++++++++--------
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/dictionary.go b/dictionary.go
index 897f0af..2a7564e 100755
--- a/dictionary.go
+++ b/dictionary.go
@@ -111,12 +111,19 @@ func (dict *Dictionary) RemoveToken(token Token) error {
 // and returns the number of tokens
 func (dict *Dictionary) LookupTokens(
 	words []Text, tokens []*Token) (numOfTokens int) {
+	return dict.lookup(words, tokens, make([]int, len(tokens)))
+}
+
+// lookup is LookupTokens, sizes is set to the number of words
+// that each token matched
+func (dict *Dictionary) lookup(
+	words []Text, tokens []*Token, sizes []int) (numOfTokens int) {
 	var (
 		id, value int
 		err       error
 	)
 
-	for _, word := range words {
+	for i, word := range words {
 		if hasNul(word) {
 			break
 		}
@@ -129,6 +136,7 @@ func (dict *Dictionary) LookupTokens(
 		value, err = dict.trie.Value(id)
 		if err == nil {
 			tokens[numOfTokens] = &dict.Tokens[value]
+			sizes[numOfTokens] = i + 1
 			numOfTokens++
 		}
 	}
diff --git a/segmenter.go b/segmenter.go
index 340ba6a..495fef7 100755
--- a/segmenter.go
+++ b/segmenter.go
@@ -63,6 +63,7 @@ type Segmenter struct {
 type jumper struct {
 	minDistance float32
 	token       *Token
+	start       int // the first word of the token in the text
 }
 
 // Segment use the shortest path to segment the text
@@ -117,6 +118,9 @@ func (seg *Segmenter) segmentWords(text []Text, searchMode bool) []Segment {
 	}
 
 	tokens := make([]*Token, seg.Dict.maxTokenLen)
+	// the number of words that the tokens match in this text, it is not
+	// the one of the dictionary when the split options were changed
+	sizes := make([]int, seg.Dict.maxTokenLen)
 	for current := 0; current < len(text); current++ {
 		// find the shortest path of the previous token,
 		// to calculate the subsequent path values
@@ -131,21 +135,21 @@ func (seg *Segmenter) segmentWords(text []Text, searchMode bool) []Segment {
 
 		// find all the segments starting with this token
 		tx := text[current:minInt(current+seg.Dict.maxTokenLen, len(text))]
-		numTokens := seg.Dict.LookupTokens(tx, tokens)
+		numTokens := seg.Dict.lookup(tx, tokens, sizes)
 
 		// Update the jump information at the end of the split word
 		// for all possible splits
 		for iToken := 0; iToken < numTokens; iToken++ {
-			location := current + len(tokens[iToken].text) - 1
+			location := current + sizes[iToken] - 1
 			if !searchMode || current != 0 || location != len(text)-1 {
-				updateJumper(&jumpers[location], baseDistance, tokens[iToken])
+				updateJumper(&jumpers[location], current, baseDistance, tokens[iToken])
 			}
 		}
 
 		// Add a pseudo-syllable if there is no corresponding syllable
 		// for the current character
-		if numTokens == 0 || len(tokens[0].text) > 1 {
-			updateJumper(&jumpers[current], baseDistance,
+		if numTokens == 0 || sizes[0] > 1 {
+			updateJumper(&jumpers[current], current, baseDistance,
 				&Token{text: []Text{text[current]}, freq: 1, distance: 32, pos: "x"})
 		}
 	}
@@ -154,7 +158,7 @@ func (seg *Segmenter) segmentWords(text []Text, searchMode bool) []Segment {
 	// to get the number of subwords to be added
 	numSeg := 0
 	for index := len(text) - 1; index >= 0; {
-		location := index - len(jumpers[index].token.text) + 1
+		location := jumpers[index].start
 		numSeg++
 		index = location - 1
 	}
@@ -163,7 +167,7 @@ func (seg *Segmenter) segmentWords(text []Text, searchMode bool) []Segment {
 	// to add the split to the final result
 	outputSegments := make([]Segment, numSeg)
 	for index := len(text) - 1; index >= 0; {
-		location := index - len(jumpers[index].token.text) + 1
+		location := jumpers[index].start
 		numSeg--
 		outputSegments[numSeg].token = jumpers[index].token
 		index = location - 1
@@ -188,11 +192,12 @@ func (seg *Segmenter) segmentWords(text []Text, searchMode bool) []Segment {
 //
 // Update the shortest path value of the current location to baseDistance
 // add the probability of the new split
-func updateJumper(jumper *jumper, baseDistance float32, token *Token) {
+func updateJumper(jumper *jumper, start int, baseDistance float32, token *Token) {
 	newDistance := baseDistance + token.distance
 	if jumper.token == nil || jumper.minDistance > newDistance {
 		jumper.minDistance = newDistance
 		jumper.token = token
+		jumper.start = start
 	}
 }
 
-- 
2.43.0


From 44f1433e69970dfffa7c99f9573de9098ccaad7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:49 +0000
Subject: [PATCH 08/29] fix: AddStop must not panic without a stop map or after
 EmptyStop

---
 stop.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stop.go b/stop.go
index 4166f09..43e4811 100644
--- a/stop.go
+++ b/stop.go
@@ -81,6 +81,10 @@ func (seg *Segmenter) LoadStop(files ...string) error {
 
 // AddStop add a token to the StopWord dictionary.
 func (seg *Segmenter) AddStop(text string) {
+	if seg.StopWordMap == nil {
+		seg.StopWordMap = make(map[string]bool)
+	}
+
 	seg.StopWordMap[text] = true
 }
 
-- 
2.43.0


From 7ef4f3a3236e1eb9892645fec99035094cab4abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:01 +0000
Subject: [PATCH 09/29] fix: TrimWithPos without a pos must trim nothing

---
 hmm/pos/pos_seg.go | 4 ++++
 trim.go            | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/hmm/pos/pos_seg.go b/hmm/pos/pos_seg.go
index a3ff13d..e99ef31 100644
--- a/hmm/pos/pos_seg.go
+++ b/hmm/pos/pos_seg.go
@@ -386,6 +386,10 @@ func (seg *Segmenter) Trim(se []gse.SegPos) (re []gse.SegPos) {
 
 // TrimWithPos trim some pos
 func (seg *Segmenter) TrimWithPos(se []gse.SegPos, pos ...string) (re []gse.SegPos) {
+	if len(pos) == 0 {
+		return se
+	}
+
 	for h := 0; h < len(pos); h++ {
 		if h > 0 {
 			se = re
diff --git a/trim.go b/trim.go
index e9958ff..ac905fe 100644
--- a/trim.go
+++ b/trim.go
@@ -68,6 +68,10 @@ func (seg *Segmenter) TrimPosPunct(se []SegPos) (re []SegPos) {
 
 // TrimWithPos trim some seg with pos
 func (seg *Segmenter) TrimWithPos(se []SegPos, pos ...string) (re []SegPos) {
+	if len(pos) == 0 {
+		return se
+	}
+
 	for h := 0; h < len(pos); h++ {
 		if h > 0 {
 			se = re
-- 
2.43.0


From b09a7e12d930c943976c488b0d05eef5902395b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:12 +0000
Subject: [PATCH 10/29] fix: the pos of the first word of the dictionary was
 lost

---
 hmm/pos/dict.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hmm/pos/dict.go b/hmm/pos/dict.go
index cde3159..3ef9c89 100644
--- a/hmm/pos/dict.go
+++ b/hmm/pos/dict.go
@@ -51,8 +51,8 @@ func (d *Dict) Freq(key string) (float64, string, bool) {
 
 // Pos find the key return the POS and existence
 func (d *Dict) Pos(key string) (string, bool) {
-	value, _, _ := d.Seg.Value(key)
-	if value == 0 {
+	value, _, err := d.Seg.Value(key)
+	if err != nil {
 		return "", false
 	}
 
-- 
2.43.0


From 2b3c4b48ce631a1a057ca86261b951b711819e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:54 +0000
Subject: [PATCH 11/29] fix: a dictionary line with only a word took the pos of
 the line before

With LoadNoFreq. With a DictSep its text kept the line end as well.
---
 dict_util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dict_util.go b/dict_util.go
index d270250..dabfcde 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -312,7 +312,7 @@ func (seg *Segmenter) ReadN(reader *bufio.Reader) (size int,
 	parts := strings.Split(txt, seg.DictSep+" ")
 	size = len(parts)
 
-	text = parts[0]
+	text = strings.TrimRight(parts[0], "\r\n")
 	if size > 1 {
 		freqText = strings.TrimSpace(parts[1])
 	}
@@ -382,7 +382,7 @@ func (seg *Segmenter) Reader(reader *bufio.Reader, files ...string) error {
 			continue
 		}
 
-		if size == 2 {
+		if size <= 2 {
 			// No part of speech, marked as an empty string
 			pos = ""
 		}
-- 
2.43.0


From 701ef15b4e319e4eca00a378974d828b8eed4498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:07 +0000
Subject: [PATCH 12/29] fix: HMM cut hung or panicked with a regexp that
 matches the empty string

---
 hmm/hmm_seg.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/hmm/hmm_seg.go b/hmm/hmm_seg.go
index 1d63329..8f6d61c 100644
--- a/hmm/hmm_seg.go
+++ b/hmm/hmm_seg.go
@@ -72,6 +72,23 @@ func internalCut(text string) []string {
 	return result
 }
 
+// findLoc find the first match that is not empty, an empty match
+// cuts nothing off the text
+func findLoc(re *regexp.Regexp, text string) []int {
+	loc := re.FindStringIndex(text)
+	if loc == nil || loc[0] < loc[1] {
+		return loc
+	}
+
+	for _, loc = range re.FindAllStringIndex(text, -1) {
+		if loc[0] < loc[1] {
+			return loc
+		}
+	}
+
+	return nil
+}
+
 // Cut cuts text to words using HMM with Viterbi algorithm
 func Cut(text string, reg ...*regexp.Regexp) []string {
 	result := make([]string, 0, 10)
@@ -85,9 +102,9 @@ func Cut(text string, reg ...*regexp.Regexp) []string {
 	for {
 		// find(text, cuts, cutLoc, nonCutLoc)
 		if len(reg) > 1 {
-			cutLoc = reg[1].FindStringIndex(text)
+			cutLoc = findLoc(reg[1], text)
 		} else {
-			cutLoc = regHan.FindStringIndex(text)
+			cutLoc = findLoc(regHan, text)
 		}
 
 		if cutLoc == nil {
@@ -102,9 +119,9 @@ func Cut(text string, reg ...*regexp.Regexp) []string {
 		}
 
 		if len(reg) > 0 {
-			nonCutLoc = reg[0].FindStringIndex(text)
+			nonCutLoc = findLoc(reg[0], text)
 		} else {
-			nonCutLoc = regSkip.FindStringIndex(text)
+			nonCutLoc = findLoc(regSkip, text)
 		}
 		if nonCutLoc == nil {
 			if len(text) == 0 {
-- 
2.43.0


From 41969db55076e1fa8b3beb50b7075e1ddb45386d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:26 +0000
Subject: [PATCH 13/29] fix: FindAllOccs and Analyze hung on an empty word

---
 dag.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dag.go b/dag.go
index f3c1254..c7a41f3 100644
--- a/dag.go
+++ b/dag.go
@@ -50,6 +50,10 @@ func FindAllOccs(data []byte, searches []string) map[string][]int {
 	results := make(map[string][]int, 0)
 	tmp := data
 	for _, search := range searches {
+		if search == "" {
+			continue
+		}
+
 		index := len(data)
 		for {
 			match := bytes.LastIndex(tmp[0:index], []byte(search))
-- 
2.43.0


From 41404b7ea90a20b76c524bec89fcd4b493368814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:38 +0000
Subject: [PATCH 14/29] fix: a word with an infinite or NaN frequency must be
 skipped

ParseFloat returns Inf with its range error, and accepts inf and nan: the
total frequency and with it the distances of all the words were lost.
---
 dict_util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dict_util.go b/dict_util.go
index dabfcde..c40aa23 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -285,9 +285,9 @@ func (seg *Segmenter) Size(size int, text, freqText string) (freq float64) {
 	// Analyze the word frequency
 	var err error
 	freq, err = strconv.ParseFloat(freqText, 64)
-	if err != nil {
+	if err != nil || math.IsNaN(freq) || math.IsInf(freq, 0) {
 		// continue
-		return
+		return 0.0
 	}
 
 	// Filter out the words that are too infrequent
-- 
2.43.0


From 23aabb5465cadd5665c748669c17cbeaa28ef24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:50 +0000
Subject: [PATCH 15/29] fix: DictPaths repeated the path of the name before for
 en, ko and ti

---
 dict_util.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dict_util.go b/dict_util.go
index c40aa23..2543375 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -398,8 +398,6 @@ func (seg *Segmenter) Reader(reader *bufio.Reader, files ...string) error {
 
 // DictPaths get the dict's paths
 func DictPaths(dictDir, filePath string) (files []string) {
-	var dictPath string
-
 	if filePath == "en" {
 		return
 	}
@@ -412,6 +410,7 @@ func DictPaths(dictDir, filePath string) (files []string) {
 	}
 
 	for i := 0; i < len(fileName); i++ {
+		var dictPath string
 		if fileName[i] == "ja" || fileName[i] == "jp" {
 			dictPath = path.Join(dictDir, "dict/jp/dict.txt")
 		}
-- 
2.43.0


From 0aa49100dabb27f2197edce4d6e9382b03413ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:01 +0000
Subject: [PATCH 16/29] fix: a rune that is only a prefix of words made the DAG
 route -Inf

---
 dag.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dag.go b/dag.go
index c7a41f3..a6eb901 100644
--- a/dag.go
+++ b/dag.go
@@ -182,7 +182,8 @@ func (seg *Segmenter) calc(runes []rune) map[int]route {
 		for _, i := range dag[idx] {
 			freq, _, ok := seg.Find(string(runes[idx : i+1]))
 
-			if ok {
+			// a prefix of the words only has no frequency
+			if ok && freq > 0 {
 				f := math.Log(freq) - logT + rs[i+1].freq
 				r = route{freq: f, index: i}
 			} else {
-- 
2.43.0


From 8b64f8f618291e645fc3dabc385d2cd19d23406a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:39 +0000
Subject: [PATCH 17/29] fix: TextRank missed the maximum rank when it came
 first

The map order then decided the weights: they could be above one, negative
or Inf.
---
 hmm/idf/textrank.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hmm/idf/textrank.go b/hmm/idf/textrank.go
index 5fa64a0..46f5de9 100644
--- a/hmm/idf/textrank.go
+++ b/hmm/idf/textrank.go
@@ -120,7 +120,8 @@ func (u *undirectWeightedGraph) rank() segment.Segments {
 	for _, w := range ws {
 		if w < minRank {
 			minRank = w
-		} else if w > maxRank {
+		}
+		if w > maxRank {
 			maxRank = w
 		}
 	}
-- 
2.43.0


From 812347aa5032e06e12c7e60bb3052735d6617108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:47 +0000
Subject: [PATCH 18/29] fix: TextRank results depended on the map order

The sums of the weights were added up in a random order, the ranks of
equal words differed in the last bit and with them their order.
---
 hmm/idf/textrank.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hmm/idf/textrank.go b/hmm/idf/textrank.go
index 46f5de9..1f104df 100644
--- a/hmm/idf/textrank.go
+++ b/hmm/idf/textrank.go
@@ -147,6 +147,8 @@ func (t *TextRanker) TextRankWithPOS(text string, topK int, allowPOS []string) s
 
 	g := newUndirectWeightedGraph()
 	cm := make(map[[2]string]float64)
+	// the edges in the order of the text, the order of the map is random
+	var order [][2]string
 	span := 5
 
 	var pairs []gse.SegPos
@@ -162,6 +164,7 @@ func (t *TextRanker) TextRankWithPOS(text string, topK int, allowPOS []string) s
 
 				if _, ok := cm[[2]string{pairs[i].Text, pairs[j].Text}]; !ok {
 					cm[[2]string{pairs[i].Text, pairs[j].Text}] = 1.0
+					order = append(order, [2]string{pairs[i].Text, pairs[j].Text})
 				} else {
 					cm[[2]string{pairs[i].Text, pairs[j].Text}] += 1.0
 				}
@@ -169,8 +172,8 @@ func (t *TextRanker) TextRankWithPOS(text string, topK int, allowPOS []string) s
 		}
 	}
 
-	for startEnd, weight := range cm {
-		g.addEdge(startEnd[0], startEnd[1], weight)
+	for _, startEnd := range order {
+		g.addEdge(startEnd[0], startEnd[1], cm[startEnd])
 	}
 
 	tags := g.rank()
-- 
2.43.0


From 5ec66563042c4b0ec2ff7435eec7dba3db757fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:54 +0000
Subject: [PATCH 19/29] fix: a tag that is only a prefix of idf words must take
 the median

---
 hmm/idf/tag_extracker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hmm/idf/tag_extracker.go b/hmm/idf/tag_extracker.go
index 4603b74..cd3195b 100644
--- a/hmm/idf/tag_extracker.go
+++ b/hmm/idf/tag_extracker.go
@@ -79,7 +79,7 @@ func (t *TagExtracter) ExtractTags(text string, topK int) (tags segment.Segments
 	ws := make(segment.Segments, 0)
 	var s segment.Segment
 	for k, v := range freqMap {
-		if freq, _, ok := t.Idf.Freq(k); ok {
+		if freq, _, ok := t.Idf.Freq(k); ok && freq > 0 {
 			s = segment.Segment{Text: k, Weight: freq * v}
 		} else {
 			s = segment.Segment{Text: k, Weight: t.Idf.median * v}
-- 
2.43.0


From b79c1c3f766080c2078f8c17d8199b5704f551b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:05 +0000
Subject: [PATCH 20/29] fix: TrimPosPunct must not change the slice of the
 caller

---
 trim.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trim.go b/trim.go
index ac905fe..4fb06fa 100644
--- a/trim.go
+++ b/trim.go
@@ -52,7 +52,7 @@ func (seg *Segmenter) TrimPunct(s []string) (r []string) {
 func (seg *Segmenter) TrimPosPunct(se []SegPos) (re []SegPos) {
 	for i := 0; i < len(se); i++ {
 		if !seg.NotStop && seg.IsStop(se[i].Text) {
-			se[i].Text = ""
+			continue
 		}
 
 		if se[i].Text != "" && len(se[i].Text) > 0 {
-- 
2.43.0


From a89e48c7a56a2b7fcedc976b8dea7e3f8ce9a6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:16 +0000
Subject: [PATCH 21/29] fix: FilterLang panicked on a script name that is
 unknown

---
 trim.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trim.go b/trim.go
index 4fb06fa..878dbb0 100644
--- a/trim.go
+++ b/trim.go
@@ -248,8 +248,9 @@ func FilterHtml(text string) string {
 
 // FilterLang filter the language
 func FilterLang(text, lang string) (new string) {
+	table, ok := unicode.Scripts[lang]
 	for _, value := range text {
-		if unicode.IsLetter(value) || unicode.Is(unicode.Scripts[lang], value) {
+		if unicode.IsLetter(value) || (ok && unicode.Is(table, value)) {
 			new += string(value)
 		}
 	}
-- 
2.43.0


From d358468f38457b335e119653ffc7feb7c45736c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 22/29] fix: loading the HMM model raced with the cuts of other
 segmenters

Every new segmenter loads the shared model: creating one while another
cuts with the HMM was a concurrent map read and write, a fatal error.
---
 hmm/hmm_seg.go | 8 ++++++++
 hmm/viterbi.go | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/hmm/hmm_seg.go b/hmm/hmm_seg.go
index 8f6d61c..f26aca6 100644
--- a/hmm/hmm_seg.go
+++ b/hmm/hmm_seg.go
@@ -19,11 +19,16 @@ package hmm
 
 import (
 	"regexp"
+	"sync"
 )
 
 var (
 	regHan  = regexp.MustCompile(`\p{Han}+`)
 	regSkip = regexp.MustCompile(`(\d+\.\d+|[a-zA-Z0-9]+)`)
+
+	// emitMu the model is shared by all the segmenters, and each new
+	// segmenter loads it
+	emitMu sync.RWMutex
 )
 
 // func LoadFile(filePath string) map[rune]float64 {
@@ -32,6 +37,9 @@ var (
 
 // LoadModel load the HMM model
 func LoadModel(prob ...map[rune]float64) {
+	emitMu.Lock()
+	defer emitMu.Unlock()
+
 	if len(prob) > 3 {
 		probEmit['B'] = prob[0]
 		probEmit['E'] = prob[1]
diff --git a/hmm/viterbi.go b/hmm/viterbi.go
index 7db8d54..b264c78 100644
--- a/hmm/viterbi.go
+++ b/hmm/viterbi.go
@@ -66,6 +66,9 @@ func (ps probStates) Swap(i, j int) {
 
 // Viterbi write viterbi algorithm by go
 func Viterbi(obs []rune, states []byte) (float64, []byte) {
+	emitMu.RLock()
+	defer emitMu.RUnlock()
+
 	path := make(map[byte][]byte)
 	vtb := make([]map[byte]float64, len(obs))
 	vtb[0] = make(map[byte]float64)
-- 
2.43.0


From cc6d32a2eadbb48a8f258f4421b30700eefb3afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:28 +0000
Subject: [PATCH 23/29] fix: the server changed the dictionary while other
 requests used it

---
 tools/server/server.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tools/server/server.go b/tools/server/server.go
index 0fde819..253044a 100755
--- a/tools/server/server.go
+++ b/tools/server/server.go
@@ -33,6 +33,7 @@ import (
 	"log"
 	"runtime"
 	"strconv"
+	"sync"
 
 	"encoding/json"
 	"net/http"
@@ -42,6 +43,8 @@ import (
 
 var (
 	seg = gse.Segmenter{}
+	// segMu the requests are served concurrently, /add changes seg
+	segMu sync.RWMutex
 
 	host = flag.String("host", "", "HTTP服务器主机名")
 	port = flag.Int("port", 8080, "HTTP服务器端口")
@@ -83,7 +86,9 @@ func JsonRpcServer(w http.ResponseWriter, req *http.Request) {
 	}
 
 	if *hmm {
+		segMu.RLock()
 		segs := seg.Cut(text, true)
+		segMu.RUnlock()
 		response, _ := json.Marshal(&JsonResp{Seg: segs})
 
 		w.Header().Set("Content-Type", "application/json")
@@ -93,6 +98,7 @@ func JsonRpcServer(w http.ResponseWriter, req *http.Request) {
 	}
 
 	// 分词
+	segMu.RLock()
 	segs := seg.Segment([]byte(text))
 
 	// 整理为输出格式
@@ -101,6 +107,7 @@ func JsonRpcServer(w http.ResponseWriter, req *http.Request) {
 		ss = append(ss, &Segment{
 			Text: segment.Token().Text(), Pos: segment.Token().Pos()})
 	}
+	segMu.RUnlock()
 	response, _ := json.Marshal(&JsonResponse{Segments: ss})
 
 	w.Header().Set("Content-Type", "application/json")
@@ -111,7 +118,9 @@ func addToken(w http.ResponseWriter, req *http.Request) {
 	text := req.URL.Query().Get("text")
 	freq, _ := strconv.ParseFloat(req.URL.Query().Get("freq"), 64)
 	pos := req.URL.Query().Get("pos")
+	segMu.Lock()
 	seg.AddTokenForce(text, freq, pos)
+	segMu.Unlock()
 
 	response, _ := json.Marshal(&Resp{Code: 200, Text: "ok"})
 	w.Header().Set("Content-Type", "application/json")
-- 
2.43.0


From 8b41446c38cbe58c276ecdd3e743734ac812536e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:31 +0000
Subject: [PATCH 24/29] fix: a last dictionary line without a pos and line feed
 was lost

---
 dict_util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dict_util.go b/dict_util.go
index 2543375..8313c05 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -356,8 +356,8 @@ func (seg *Segmenter) Reader(reader *bufio.Reader, files ...string) error {
 
 		if fsErr != nil {
 			if fsErr == io.EOF {
-				// End of file
-				if seg.DictSep == "" {
+				// End of file; the last line may still have been read
+				if seg.DictSep == "" && size == 0 {
 					break
 				}
 
-- 
2.43.0


From 26dd61617ec41dd059801f46b0c4c547c69fa138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:59 +0000
Subject: [PATCH 25/29] fix: SuggestFreq divided by zero on an empty dictionary

---
 dag.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dag.go b/dag.go
index a6eb901..bc5ba0e 100644
--- a/dag.go
+++ b/dag.go
@@ -383,6 +383,10 @@ func (seg *Segmenter) cutForSearch(str string, hmm ...bool) []string {
 func (seg *Segmenter) SuggestFreq(words ...string) float64 {
 	freq := 1.0
 	total := seg.Dict.TotalFreq()
+	if total == 0 {
+		// an empty dictionary; do not divide by zero
+		total = 1.0
+	}
 
 	if len(words) > 1 {
 		for _, word := range words {
-- 
2.43.0


From c9aea1d482fd3895a34d23a1556168dca250d73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 26/29] fix: LoadStop reads lines of any length

The scanner stopped without an error at the first line of 64 KB or more,
and dropped the rest of the file.
---
 stop.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stop.go b/stop.go
index 43e4811..aafa92d 100644
--- a/stop.go
+++ b/stop.go
@@ -17,6 +17,7 @@ package gse
 import (
 	"bufio"
 	"log"
+	"math"
 	"os"
 	"path"
 	"strings"
@@ -68,12 +69,17 @@ func (seg *Segmenter) LoadStop(files ...string) error {
 		defer file.Close()
 
 		scanner := bufio.NewScanner(file)
+		// a line may be longer than the scanner's default limit
+		scanner.Buffer(nil, math.MaxInt32)
 		for scanner.Scan() {
 			text := scanner.Text()
 			if text != "" {
 				seg.StopWordMap[text] = true
 			}
 		}
+		if err := scanner.Err(); err != nil {
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From d0f4331486d7700db4786291a540a85433ff710e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:59 +0000
Subject: [PATCH 27/29] fix: LoadStopEmbed lost a first source that ends in zh

---
 dict_1.16.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dict_1.16.go b/dict_1.16.go
index 1e1f2b8..c08ea09 100644
--- a/dict_1.16.go
+++ b/dict_1.16.go
@@ -134,7 +134,7 @@ func (seg *Segmenter) LoadStopEmbed(dict ...string) (err error) {
 		if strings.Contains(d, ", ") {
 			begin := 0
 			s := strings.Split(d, ", ")
-			if strings.Contains(d, "zh,") {
+			if s[0] == "zh" {
 				begin = 1
 				err = seg.LoadStopStr(stopDict)
 			}
-- 
2.43.0


From bbac4c5d16dd1533854588c31af006b6d1da0a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:45 +0000
Subject: [PATCH 28/29] fix: LoadDictEmbed lost a first source that ends in zh

---
 dict_1.16.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/dict_1.16.go b/dict_1.16.go
index c08ea09..c4f6963 100644
--- a/dict_1.16.go
+++ b/dict_1.16.go
@@ -32,19 +32,19 @@ func (seg *Segmenter) loadZh() error {
 }
 
 func (seg *Segmenter) loadZhST(d string) (begin int, err error) {
-	if strings.Contains(d, "zh,") {
-		begin = 1
-		// err = seg.LoadDictStr(dataDict)
-		err = seg.loadZh()
-	}
-
-	if strings.Contains(d, "zh_s,") {
-		begin = 1
-		err = seg.LoadDictStr(zhS)
-	}
-	if strings.Contains(d, "zh_t,") {
-		begin = 1
-		err = seg.LoadDictStr(zhT)
+	for _, name := range strings.Split(d, ", ") {
+		switch name {
+		case "zh":
+			// err = seg.LoadDictStr(dataDict)
+			err = seg.loadZh()
+		case "zh_s":
+			err = seg.LoadDictStr(zhS)
+		case "zh_t":
+			err = seg.LoadDictStr(zhT)
+		default:
+			return
+		}
+		begin++
 	}
 
 	return
-- 
2.43.0


From a404936d183e100d89b3ba3cf644fddb1ba8f436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:32 +0000
Subject: [PATCH 29/29] fix: Reader and LoadDict never ended on a reader that
 fails, such as a directory

---
 dict_util.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dict_util.go b/dict_util.go
index 8313c05..4708ee3 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -344,6 +344,11 @@ func (seg *Segmenter) Reader(reader *bufio.Reader, files ...string) error {
 	line := 0
 	for {
 		line++
+		// a read that fails would fail again and again
+		if _, err := reader.Peek(1); err != nil && err != io.EOF {
+			return err
+		}
+
 		var (
 			size  int
 			fsErr error
-- 
2.43.0

