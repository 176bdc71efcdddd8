From 745e62383a49a83eaf53542a91cbfc34e00d8a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:19 +0000
Subject: [PATCH 01/35] fix: segmenter reports use without Init instead of
 panicking, and Init clears an old error

---
 segment/segment.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/segment/segment.go b/segment/segment.go
index d7c44f4..96c78d8 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -156,6 +156,7 @@ func (s *Segmenter) init() {
 		s.lastPenalties[0], s.lastPenalties[1] = 0, 0
 		s.pos = 0
 	}
+	s.err = nil
 	s.positionOfBreakOpportunity = -1
 }
 
@@ -352,6 +353,7 @@ func (s *Segmenter) setErr(err error) {
 func (s *Segmenter) next(bound int) bool {
 	if s.reader == nil {
 		s.setErr(ErrNotInitialized)
+		return false
 	}
 	//
 	s.inUse = true
-- 
2.43.0


From 1f6cacdc65e4da5251ac382e5b9bb77c657ecabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:44 +0000
Subject: [PATCH 02/35] fix: segmenter selects penalty slots by breaker
 position, not by comparing interface values

---
 segment/segment.go | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/segment/segment.go b/segment/segment.go
index 96c78d8..df73dad 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -456,14 +456,14 @@ func (s *Segmenter) readEnoughInputAndFindBreak(bound int) (err error) {
 			qlen = s.deque.Len()
 			s.longestActiveMatch = 0
 			r := s.deque.LastRune()
-			for _, breaker := range s.breakers {
+			for inx, breaker := range s.breakers {
 				cpClass := breaker.CodePointClassFor(r)
 				breaker.StartRulesFor(r, cpClass)
 				breaker.ProceedWithRune(r, cpClass)
 				if lam := breaker.LongestActiveMatch(); lam > s.longestActiveMatch {
 					s.longestActiveMatch = lam
 				}
-				s.insertPenalties(s.inxForBreaker(breaker), breaker.Penalties())
+				s.insertPenalties(inx, breaker.Penalties())
 			}
 			//s.printQ()
 			//tracer().Debugf("-- all breakers done --")
@@ -530,16 +530,8 @@ func (s *Segmenter) findBreakOpportunity(to int, boundDist int) int {
 	return breakopp
 }
 
-// find out if the UnicodeBreaker b is the primary breaker. If yes, return index 0,
-// 1 otherwise.
-func (s *Segmenter) inxForBreaker(b uax.UnicodeBreaker) int {
-	if b == s.breakers[0] {
-		return 0
-	}
-	return 1
-}
-
 // insertPenalties distributes penalties from the current breaker cycle
+// (0 is the primary breaker, any other number is a secondary breaker)
 // between the Q atoms. Penalties may be located after the fact between
 // runes of the current longest match.
 func (s *Segmenter) insertPenalties(selector int, penalties []int) {
-- 
2.43.0


From 9ff937a90f735f4ea53fbff70375ecc7eb344a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:45 +0000
Subject: [PATCH 03/35] fix: segmenter no longer truncates long segments
 silently

---
 segment/segment.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/segment/segment.go b/segment/segment.go
index df73dad..68671dd 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -374,8 +374,14 @@ func (s *Segmenter) next(bound int) bool {
 		s.runesBuf = s.runesBuf.Reset(nil)
 		return false
 	}
-	//l, _ := s.getFrontSegment(bound)
-	s.getFrontSegment(bound)
+	if _, err := s.getFrontSegment(bound); err != nil {
+		s.setErr(err) // segment does not fit into the output buffer => stop
+		s.atEOF = true
+		s.deque.Clear()
+		s.positionOfBreakOpportunity = -1
+		s.runesBuf = s.runesBuf.Reset(nil)
+		return false
+	}
 	// tracer().Debugf("s.positionOfBreakOpp=%d", s.positionOfBreakOpportunity)
 	//tracer().P("length", strconv.Itoa(l)).Debugf("Next() = \"%s\"", s.runesBuf)
 	return true
@@ -570,7 +576,7 @@ func (s *Segmenter) insertPenalties(selector int, penalties []int) {
 // After the cut-off getFrontSegments recursivley searches for another break
 // opportunity which may have been marked by breakers with acceptable penalties.
 //
-func (s *Segmenter) getFrontSegment(bound int) (int, bool) {
+func (s *Segmenter) getFrontSegment(bound int) (int, error) {
 	seglen := 0
 	s.lastPenalties[0], s.lastPenalties[1] = 0, 0
 	s.runesBuf = s.runesBuf.SetMark()
@@ -579,18 +585,20 @@ func (s *Segmenter) getFrontSegment(bound int) (int, bool) {
 		panic("l < 0")
 		//return 0, true
 	}
-	var isCutOff bool
 	start := s.pos - s.deque.Len()
 	if start+l >= bound { // front segment would extend bound
 		tracer().Debugf("segmenter: bound reached")
-		isCutOff = true // we truncate l to Q-start---->|bound
+		// we truncate l to Q-start---->|bound
 		if l = int(bound) - int(s.pos) + s.deque.Len(); l < 0 {
-			return 0, true
+			return 0, nil
 		}
 	}
 	for i := 0; i <= l; i++ {
 		r, p0, p1 := s.deque.PopFront()
-		written, _ := (&s.runesBuf).WriteRune(r)
+		written, err := (&s.runesBuf).WriteRune(r)
+		if err != nil {
+			return seglen, err
+		}
 		seglen += written
 		s.lastPenalties[0], s.lastPenalties[1] = p0, p1
 	}
@@ -604,7 +612,7 @@ func (s *Segmenter) getFrontSegment(bound int) (int, bool) {
 	s.positionOfBreakOpportunity = s.findBreakOpportunity(s.deque.Len()-s.longestActiveMatch,
 		boundDist)
 	//s.printQ()
-	return seglen, isCutOff
+	return seglen, nil
 }
 
 // ----------------------------------------------------------------------
@@ -725,6 +733,9 @@ func (rw runewrite) Reset(backingBuf []rune) runewrite {
 	if cap(rw.output) > 0 {
 		rw.output = rw.output[:0]
 	}
+	if rw.maxSegLen == 0 {
+		rw.maxSegLen = MaxSegmentSize
+	}
 	if backingBuf == nil {
 		rw.isBacked = false
 		if rw.output == nil {
-- 
2.43.0


From 5366864e80cfc131ba4fb753b66df43cc0d0fffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 04/35] fix: segmenter always delivers the rest of the text,
 and never its end-of-text marker

---
 segment/segment.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/segment/segment.go b/segment/segment.go
index 68671dd..fe34e25 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -471,6 +471,9 @@ func (s *Segmenter) readEnoughInputAndFindBreak(bound int) (err error) {
 				}
 				s.insertPenalties(inx, breaker.Penalties())
 			}
+			if s.atEOF {
+				s.longestActiveMatch = 1 // no match can go on, just the EOT atom is left out
+			}
 			//s.printQ()
 			//tracer().Debugf("-- all breakers done --")
 		}
@@ -530,6 +533,8 @@ func (s *Segmenter) findBreakOpportunity(to int, boundDist int) int {
 	} else if i == boundDist+1 {
 		breakopp = int(boundDist)
 		//tracer().Debugf("segmenter: break at bound position %d", breakopp)
+	} else if s.atEOF {
+		breakopp = to - 1 // end of text is always a break opportunity
 	} else {
 		//tracer().Debugf("segmenter: no break opportunity")
 	}
-- 
2.43.0


From 37e2049b316e51db0db6b44035680f85a7787f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:29 +0000
Subject: [PATCH 05/35] fix: bounded segmentation counts runes, and neither
 loses text nor keeps breaks at an outdated bound

---
 segment/segment.go | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/segment/segment.go b/segment/segment.go
index fe34e25..627ee80 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -357,6 +357,10 @@ func (s *Segmenter) next(bound int) bool {
 	}
 	//
 	s.inUse = true
+	// There may be further break opportunities between the previous break and the start of
+	// the current longest match. Advance the pointer to the next break opportunity, if any.
+	s.positionOfBreakOpportunity = s.findBreakOpportunity(s.deque.Len()-s.longestActiveMatch,
+		s.boundDistance(bound))
 	if !s.atEOF {
 		err := s.readEnoughInputAndFindBreak(bound)
 		if err != nil && err != io.EOF {
@@ -371,6 +375,9 @@ func (s *Segmenter) next(bound int) bool {
 	}
 	//
 	if s.positionOfBreakOpportunity < 0 { // didn't find a break opportunity
+		if s.deque.Len() > 1 { // there is text left, but it is located after the bound
+			s.setErr(ErrBoundReached)
+		}
 		s.runesBuf = s.runesBuf.Reset(nil)
 		return false
 	}
@@ -393,7 +400,7 @@ func (s *Segmenter) next(bound int) bool {
 // (EOF is not considered an error in itself in this context).
 // For all subsequent calls to readRune where s.atEOF is true, io.EOF is returned.
 //
-// s.pos is incremented according to the byte size of the input rune.
+// s.pos is incremented for every atom (rune or EOT) appended to the Q.
 //
 // readRune _must_ grow the Q or return an error or EOF.
 //
@@ -401,20 +408,22 @@ func (s *Segmenter) readRune() error {
 	if s.atEOF {
 		return io.EOF
 	}
-	r, sz, err := s.reader.ReadRune()
-	s.pos += sz
+	r, _, err := s.reader.ReadRune()
 	//tracer().P("rune", r).Debugf("--------------------------------------")
 	if err == nil {
 		s.deque.PushBack(r, 0, 0)
+		s.pos++
 		return nil
 	}
 	if err == io.EOF {
 		s.deque.PushBack(eotAtom.r, eotAtom.penalty0, eotAtom.penalty1)
+		s.pos++
 		s.atEOF = true
 		err = nil
 	} else { // error case, err is non-nil
 		tracer().P("rune", r).Errorf("ReadRune() error: %s", err)
 		s.atEOF = true
+		s.deque.Clear() // segmenting stops here
 	}
 	return err
 }
@@ -480,13 +489,8 @@ func (s *Segmenter) readEnoughInputAndFindBreak(bound int) (err error) {
 		// The Q is updated. The longest active match may have been changed and
 		// we have to scan from the start of the Q to the new position of active match.
 		// If we find a breaking opportunity, we're done.
-		boundDist := bound
-		if bound < math.MaxInt64 {
-			//boundDist = bound - s.pos + s.deque.Len()
-			boundDist = bound - s.pos + qlen
-		}
 		s.positionOfBreakOpportunity = s.findBreakOpportunity(qlen-s.longestActiveMatch,
-			boundDist)
+			s.boundDistance(bound))
 		//s.positionOfBreakOpportunity = s.findBreakOpportunity(qlen - 1 - s.longestActiveMatch)
 		// tracer().Debugf("segmenter: breakpos=%d, Q-len=%d, active match=%d",
 		// 	s.positionOfBreakOpportunity, s.deque.Len(), s.longestActiveMatch)
@@ -495,6 +499,14 @@ func (s *Segmenter) readEnoughInputAndFindBreak(bound int) (err error) {
 	return err
 }
 
+// boundDistance returns the distance (in runes) from the front of the Q to the bound.
+func (s *Segmenter) boundDistance(bound int) int {
+	if bound < math.MaxInt64 {
+		return bound - s.pos + s.deque.Len()
+	}
+	return bound
+}
+
 // findBreakOpportunity scans a segment of the Q and will find the first atom
 // to carry a breakable penalty.
 // Say the Q has 4 elements from reading in "are ". A breaker has just inserted
@@ -578,9 +590,6 @@ func (s *Segmenter) insertPenalties(selector int, penalties []int) {
 // Things get more complicated by having a possible `bound` position, after
 // which no runes are allowed to be cut off.
 //
-// After the cut-off getFrontSegments recursivley searches for another break
-// opportunity which may have been marked by breakers with acceptable penalties.
-//
 func (s *Segmenter) getFrontSegment(bound int) (int, error) {
 	seglen := 0
 	s.lastPenalties[0], s.lastPenalties[1] = 0, 0
@@ -608,15 +617,6 @@ func (s *Segmenter) getFrontSegment(bound int) (int, error) {
 		s.lastPenalties[0], s.lastPenalties[1] = p0, p1
 	}
 	//tracer().Debugf("cutting front segment of length 0..%d: '%v'", l, s.runesBuf)
-	// There may be further break opportunities between this break and the start of the
-	// current longest match. Advance the pointer to the next break opportunity, if any.
-	boundDist := bound
-	if bound < math.MaxInt64 {
-		boundDist = bound - s.pos + s.deque.Len()
-	}
-	s.positionOfBreakOpportunity = s.findBreakOpportunity(s.deque.Len()-s.longestActiveMatch,
-		boundDist)
-	//s.printQ()
 	return seglen, nil
 }
 
-- 
2.43.0


From 689ca5b31be852c5a5b37a7f5da659a98a6cfe1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:45 +0000
Subject: [PATCH 06/35] fix: PositionOfFirstLegalRune skips illegal bytes
 instead of looping forever

---
 uax.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/uax.go b/uax.go
index f7656cd..bfc4b6c 100644
--- a/uax.go
+++ b/uax.go
@@ -8,12 +8,13 @@ func PositionOfFirstLegalRune(s string) (int, []byte) {
 	i, l, start := 0, len(s), -1
 	for i < l {
 		if utf8.RuneStart(s[i]) {
-			r, _ := utf8.DecodeRuneInString(s[i:])
-			if r != utf8.RuneError {
+			r, sz := utf8.DecodeRuneInString(s[i:])
+			if r != utf8.RuneError || sz > 1 { // U+FFFD itself is a legal rune
 				start = i
+				break
 			}
-			break
 		}
+		i++
 	}
 	//CT().Debugf("start index = %d", start)
 	return start, []byte(s[:i])
-- 
2.43.0


From 9492375d86904bbd4370ad3eeecad6eb23ca4442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:46 +0000
Subject: [PATCH 07/35] fix: grapheme strings handle input which is empty or
 starts with illegal bytes, and U+FFFD

---
 grapheme/string.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/grapheme/string.go b/grapheme/string.go
index 6ba77dc..edae9a8 100644
--- a/grapheme/string.go
+++ b/grapheme/string.go
@@ -75,13 +75,12 @@ type shortString struct {
 
 func makeShortString(s string) String {
 	gstr := &shortString{content: s}
-	breaker := prepareBreaking(s)
+	breaker, br := prepareBreaking(s)
 	if breaker == nil {
 		return gstr
 	}
 	gstr.breaks = make([]uint8, 1, len(s)/4+1)
-	gstr.breaks[0] = 0
-	br := 0
+	gstr.breaks[0] = uint8(br)
 	for breaker.Next() {
 		br += len(breaker.Bytes())
 		tracer().Debugf("next grapheme = '%s'", breaker.Text())
@@ -124,13 +123,12 @@ type midString struct {
 
 func makeMidString(s string) String {
 	gstr := &midString{content: s}
-	breaker := prepareBreaking(s)
+	breaker, br := prepareBreaking(s)
 	if breaker == nil {
 		return gstr
 	}
 	gstr.breaks = make([]uint16, 1, len(s)/4)
-	gstr.breaks[0] = 0
-	br := 0
+	gstr.breaks[0] = uint16(br)
 	for breaker.Next() {
 		br += len(breaker.Bytes())
 		tracer().Debugf("next grapheme = '%s'", breaker.Text())
@@ -166,14 +164,17 @@ func (gstr *midString) String() string {
 
 // ---------------------------------------------------------------------------
 
-func prepareBreaking(s string) *segment.Segmenter {
+// prepareBreaking returns a segmenter for the legal part of s, and the byte position
+// where this part starts. If s does not contain a legal rune, it returns nil.
+func prepareBreaking(s string) (*segment.Segmenter, int) {
 	breaker := makeGraphemeBreaker()
 	start, _ := uax.PositionOfFirstLegalRune(s)
 	if start < 0 {
 		tracer().Errorf("cannot create grapheme string from invalid rune input")
+		return nil, 0
 	}
 	breaker.Init(&rr{input: s[start:], pos: 0})
-	return breaker
+	return breaker, start
 }
 
 func makeGraphemeBreaker() *segment.Segmenter {
@@ -190,7 +191,7 @@ type rr struct {
 func (reader *rr) ReadRune() (r rune, size int, err error) {
 	r, size = utf8.DecodeRuneInString(reader.input)
 	tracer().Debugf("read rune %v with size %d", r, size)
-	if r == utf8.RuneError {
+	if r == utf8.RuneError && size <= 1 { // end of input or illegal byte
 		err = io.EOF
 		return
 	}
-- 
2.43.0


From f599c6e18eb800beb54e09c867819f643b03566a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 08/35] fix: grapheme breaker does not break after prepended
 characters (GB9b)

---
 grapheme/grapheme.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/grapheme/grapheme.go b/grapheme/grapheme.go
index 46e34eb..51c1ccb 100644
--- a/grapheme/grapheme.go
+++ b/grapheme/grapheme.go
@@ -314,7 +314,16 @@ func rule_GB9a(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 func rule_GB9b(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	c := GraphemeClass(cpClass)
 	tracer().P("class", c).Debugf("fire rule Preprend")
-	return uax.DoAccept(rec, GlueJOIN)
+	rec.MatchLen++
+	return rule_GB9b_Cont
+}
+
+func rule_GB9b_Cont(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
+	c := GraphemeClass(cpClass)
+	if c == CRClass || c == LFClass || c == ControlClass || c == eot { // rules GB2 and GB5
+		return uax.DoAbort(rec)
+	}
+	return uax.DoAccept(rec, 0, GlueJOIN)
 }
 
 func rule_GB11(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
-- 
2.43.0


From 10eb90e6ab3e4856a59294b35fef4972efcfe4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 09/35] fix: word breaker joins Hebrew letters around a double
 quote with ignored characters (WB7b, WB7c)

---
 uax29/uax29.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/uax29/uax29.go b/uax29/uax29.go
index bca8c2e..254fd80 100644
--- a/uax29/uax29.go
+++ b/uax29/uax29.go
@@ -385,6 +385,7 @@ func cont_WB7bc(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	}
 	if c == Double_QuoteClass {
 		rec.MatchLen++
+		rec.Expect = rec.MatchLen // misuse of expect field: mark position of double quote
 		return finish_WB7bc
 	}
 	return uax.DoAbort(rec)
@@ -397,7 +398,10 @@ func finish_WB7bc(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	}
 	if c == Hebrew_LetterClass {
 		//tracer().Debugf("ACCEPT of Rule WB 7b,c")
-		return uax.DoAccept(rec, 0, PenaltyToSuppressBreak, PenaltyToSuppressBreak)
+		p := make([]int, rec.MatchLen-rec.Expect+1+2)
+		p[len(p)-1] = PenaltyToSuppressBreak
+		p[1] = PenaltyToSuppressBreak
+		return uax.DoAccept(rec, p...)
 	}
 	return uax.DoAbort(rec)
 }
-- 
2.43.0


From fa02b84c5ddb15bd3d28a44d45a847dce8cc0d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:29 +0000
Subject: [PATCH 10/35] fix: word breaker recognizes pictographs which have a
 word break class of their own (WB3c)

---
 uax29/uax29.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uax29/uax29.go b/uax29/uax29.go
index 254fd80..e1a1451 100644
--- a/uax29/uax29.go
+++ b/uax29/uax29.go
@@ -262,7 +262,7 @@ func rule_WB3c(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 
 func rule_Pictography(rec *uax.Recognizer, r rune, cpClass int) uax.NfaStateFn {
 	c := UAX29Class(cpClass)
-	if c == emojiPictographic {
+	if c == emojiPictographic || unicode.Is(emoji.Extended_Pictographic, r) {
 		//tracer().Debugf("ACCEPT of Rule for Emoji")
 		return uax.DoAccept(rec, 0, PenaltyToSuppressBreak)
 	}
-- 
2.43.0


From 8ca4d68dcea7d16202b8b8a58828957289c768fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:29 +0000
Subject: [PATCH 11/35] fix: digits, number sign and asterisk are not wide

---
 uax11/width.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/uax11/width.go b/uax11/width.go
index 0dc55cc..3fb4eab 100644
--- a/uax11/width.go
+++ b/uax11/width.go
@@ -67,11 +67,11 @@ func StringWidth(s grapheme.String, context *Context) int {
 func graphemeWidth(grphm []byte, context *Context) int {
 	r, _ := utf8.DecodeRune(grphm)
 	//T().Debugf("grapheme '%v' => rune %#U", grphm, r)
-	if emoji.EmojisClassForRune(r) >= 0 {
-		//T().Debugf("%#U is emoji", r)
+	cat1 := width.LookupRune(r).Kind()
+	if emoji.EmojisClassForRune(r) >= 0 && cat1 != width.EastAsianNarrow {
+		//T().Debugf("%#U is emoji (other than digits, '#' and '*')", r)
 		return 2
 	}
-	cat1 := width.LookupRune(r).Kind()
 	cat := context.resolve(grphm, cat1)
 	//T().Debugf("cat(%#U) = %d  =>  %d", r, cat1, cat)
 	if cat == width.EastAsianWide {
-- 
2.43.0


From 1d1f1b86ee316444fcfdbd27d38ba3d1a62482f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:40 +0000
Subject: [PATCH 12/35] fix: bidi rules W7 and N1 replace just the scraps they
 have matched

---
 bidi/actions.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bidi/actions.go b/bidi/actions.go
index d22f252..89a3231 100644
--- a/bidi/actions.go
+++ b/bidi/actions.go
@@ -142,7 +142,7 @@ func ruleW7() (*bidiRule, []byte) {
 				L[0].bidiclz = bidi.L
 				return L, 0, true // replace EN with L, start again with L
 			}
-			return match, 1, true // step over EN
+			return match[:1], 1, true // step over EN
 		},
 	}, lhs
 }
@@ -322,7 +322,7 @@ func makeMidSwapRule(name string, lhs []byte, c bidi.Class, jmp int) *bidiRule {
 		pass:   2, // all mid-swap rules are Nx rules ⇒ pass 2
 		action: func(match []scrap) ([]scrap, int, bool) {
 			match[1].bidiclz = c // change class of middle interval
-			return match, jmp, false
+			return match[:len(lhs)], jmp, false
 		},
 	}
 }
-- 
2.43.0


From 2776e628173f5db3cb427d6511db67be3d665982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 13/35] fix: bidi rules N1 (3, 4, 5 and 8) keep the text range
 of the neutrals they resolve

---
 bidi/actions.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/bidi/actions.go b/bidi/actions.go
index 89a3231..29ddfe5 100644
--- a/bidi/actions.go
+++ b/bidi/actions.go
@@ -187,9 +187,8 @@ func ruleN1_3() (*bidiRule, []byte) {
 		lhsLen: len(lhs),
 		pass:   2,
 		action: func(match []scrap) ([]scrap, int, bool) {
-			collapse(match[0], match[1], bidi.R)
-			match[1].bidiclz = bidi.AN
-			match[1].appendAllChildrenOf(match[2])
+			match[0] = collapse(match[0], match[1], bidi.R)
+			match[1] = match[2]
 			return match[:2], 1, false
 		},
 	}, lhs
@@ -202,9 +201,8 @@ func ruleN1_4() (*bidiRule, []byte) {
 		lhsLen: len(lhs),
 		pass:   2,
 		action: func(match []scrap) ([]scrap, int, bool) {
-			collapse(match[0], match[1], bidi.R)
-			match[1].bidiclz = bidi.EN
-			match[1].appendAllChildrenOf(match[2])
+			match[0] = collapse(match[0], match[1], bidi.R)
+			match[1] = match[2]
 			return match[:2], 1, false
 		},
 	}, lhs
@@ -217,7 +215,7 @@ func ruleN1_5() (*bidiRule, []byte) {
 		lhsLen: len(lhs),
 		pass:   2,
 		action: func(match []scrap) ([]scrap, int, bool) {
-			collapse(match[1], match[2], bidi.R)
+			match[1] = collapse(match[1], match[2], bidi.R)
 			return match[:2], 1, false
 		},
 	}, lhs
@@ -240,7 +238,7 @@ func ruleN1_8() (*bidiRule, []byte) {
 		lhsLen: len(lhs),
 		pass:   2,
 		action: func(match []scrap) ([]scrap, int, bool) {
-			collapse(match[1], match[2], bidi.R)
+			match[1] = collapse(match[1], match[2], bidi.R)
 			return match[:2], 1, false
 		},
 	}, lhs
-- 
2.43.0


From 403c9ad25e8a051d60a329dbe7b3da115c96a6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:25 +0000
Subject: [PATCH 14/35] fix: bidi parser does not loop on unclosed isolates and
 stays within an isolate in its second pass

---
 bidi/resolver.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bidi/resolver.go b/bidi/resolver.go
index 9bc664e..e632046 100644
--- a/bidi/resolver.go
+++ b/bidi/resolver.go
@@ -172,7 +172,7 @@ func (p *parser) reduce(n int, rhs []scrap, startIRS int) {
 func (p *parser) pass1(startIRS int) bool {
 	p.sp = startIRS              // start at beginning of isolating run sequence
 	la := 0                      // length of lookahead LA
-	if _, ok := p.read(3); !ok { // initially load 3 scraps
+	if _, ok := p.read(3); !ok && p.sp >= len(p.stack) { // initially load 3 scraps
 		return false // no input to read
 	}
 	var rule, shortrule *bidiRule
@@ -282,7 +282,7 @@ func (p *parser) pass2(startIRS int) {
 		tracer().Debugf("applying UAX#9 rule %s", rule.name)
 		rhs, jmp, _ := rule.action(p.stack[p.sp:len(p.stack)])
 		p.reduce(rule.lhsLen, rhs, startIRS)
-		p.sp = max(0, p.sp+jmp) // avoid jumping left of 0
+		p.sp = max(startIRS, p.sp+jmp) // avoid jumping left of 0
 	}
 }
 
-- 
2.43.0


From 7eb722aed5cff28d3374f424d90acd5a211e633d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:26 +0000
Subject: [PATCH 15/35] fix: bidi parser treats a PDI without an isolate as
 neutral and resolves the text after it

---
 bidi/resolver.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bidi/resolver.go b/bidi/resolver.go
index e632046..21385cc 100644
--- a/bidi/resolver.go
+++ b/bidi/resolver.go
@@ -195,7 +195,10 @@ func (p *parser) pass1(startIRS int) bool {
 			rule = shortrule
 			if rule == nil || rule.pass > 1 {
 				tracer().Debugf("walking over %s", p.stack[p.sp])
-				if p.stack[p.sp].bidiclz == bidi.PDI {
+				if p.stack[p.sp].bidiclz == bidi.PDI && len(p.spIRS) == 1 {
+					p.stack[p.sp].bidiclz = cNI // there is no isolate to close
+					p.sp = max(startIRS, p.sp-1)
+				} else if p.stack[p.sp].bidiclz == bidi.PDI {
 					p.sp++ // walk over PDI
 					pdi = true
 					break
-- 
2.43.0


From 84cabfead7171925ddf9565bf68db778327016fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 16/35] fix: bidi scanner keeps its outermost bracket handler
 on a PDI without an isolate

---
 bidi/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index ca64101..7bf107d 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -327,7 +327,7 @@ func isisolate(s scrap) bool {
 func (sc *bidiScanner) handleIsolatingRunSwitch(s scrap) {
 	if s.bidiclz == bidi.PDI {
 		// re-establish outer BD16 handler
-		if len(sc.IRSStack) == 0 {
+		if len(sc.IRSStack) <= 1 { // PDI without an isolate
 			tracer().Debugf("bidi scanner found non-paired PDI at position %d", s.l)
 			return
 		}
-- 
2.43.0


From 7e36b1cd994df0b2c5031fd3b770b908b257b792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 17/35] fix: bidi scanner does not drop nonspacing marks at the
 start of a paragraph, nor repeat FSIs for them

---
 bidi/scanner.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index 7bf107d..f88bf42 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -243,8 +243,10 @@ func applyRulesW1to3(r rune, clz bidi.Class, current scrap) bidi.Class {
 			return bidi.L
 		case bidi.RLI:
 			return bidi.R
-		case bidi.PDI:
+		case bidi.FSI, bidi.PDI:
 			return cNI
+		case cNULL: // start of paragraph
+			return current.context.embeddingDir
 		}
 		return currclz
 	case bidi.EN: // rule W2
-- 
2.43.0


From 8fa1cfdd4d2ff82dd97c5a80e2a68edaa504015c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:28 +0000
Subject: [PATCH 18/35] fix: bidi options may be switched off again

---
 bidi/scanner.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index f88bf42..8061733 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -463,7 +463,7 @@ func RecognizeLegacy(b bool) Option {
 	return func(sc *bidiScanner) {
 		if !sc.hasMode(optionRecognizeLegacy) && b ||
 			sc.hasMode(optionRecognizeLegacy) && !b {
-			sc.mode |= optionRecognizeLegacy
+			sc.mode ^= optionRecognizeLegacy
 		}
 	}
 }
@@ -496,7 +496,7 @@ func TestMode(b bool) Option {
 	return func(sc *bidiScanner) {
 		if !sc.hasMode(optionTesting) && b ||
 			sc.hasMode(optionTesting) && !b {
-			sc.mode |= optionTesting
+			sc.mode ^= optionTesting
 		}
 	}
 }
@@ -510,7 +510,7 @@ func IgnoreParagraphSeparators(b bool) Option {
 	return func(sc *bidiScanner) {
 		if !sc.hasMode(optionIgnoreParSep) && b ||
 			sc.hasMode(optionIgnoreParSep) && !b {
-			sc.mode |= optionIgnoreParSep
+			sc.mode ^= optionIgnoreParSep
 		}
 	}
 }
-- 
2.43.0


From bde3b0dc23254bf6ce4cb7df9ab1426ef43de804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:29 +0000
Subject: [PATCH 19/35] fix: bidi scanner respects out-of-line markup at the
 start of a paragraph

---
 bidi/scanner.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index 8061733..15b02a4 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -48,6 +48,7 @@ func newScanner(input io.Reader, markup OutOfLineBidiMarkup, opts ...Option) *bi
 	sc.runeScanner.Split(bufio.ScanRunes)
 	sc.markup = markup
 	sc.lastMarkup = -1
+	sc.lastMarkupPos = -1
 	sc.bd16 = makeBracketPairHandler(0, nil)
 	sc.IRS = make(map[charpos]*bracketPairHandler)
 	sc.IRS[0] = sc.bd16
-- 
2.43.0


From 5c831409c138d855f58c1b1ab4764d1e8dc0867f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:29 +0000
Subject: [PATCH 20/35] fix: bidi scanner finds the bracket handler of the most
 recent isolate

---
 bidi/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index 15b02a4..f988400 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -358,7 +358,7 @@ func (sc *bidiScanner) handleIsolatingRunSwitch(s scrap) {
 func (sc *bidiScanner) findBD16ForPos(pos charpos) *bracketPairHandler {
 	irs := sc.IRS[0]
 	bd16 := irs
-	for irs.next != nil { // find most rightward isolating run sequence
+	for irs != nil { // find most rightward isolating run sequence
 		if irs.firstpos <= pos {
 			if irs.lastpos == 0 || irs.lastpos >= pos {
 				bd16 = irs
-- 
2.43.0


From 9a6a24678a2cdd1cb65cd000060ff55ada4576f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:41 +0000
Subject: [PATCH 21/35] fix: bidi runs of isolates are merged into their
 predecessor instead of getting lost

---
 bidi/reordering.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bidi/reordering.go b/bidi/reordering.go
index f2f81c6..59929d8 100644
--- a/bidi/reordering.go
+++ b/bidi/reordering.go
@@ -400,13 +400,13 @@ func appendRuns(childRuns []Run, last Run, runs []Run) (Run, []Run) {
 	if len(childRuns) == 0 {
 		return last, runs
 	}
-	if childRuns[0].Dir == last.Dir {
+	if last.Length > 0 && childRuns[0].Dir == last.Dir {
 		//last.Length = childRuns[0].Length
 		last.concat(childRuns[0])
-		runs = append(runs, childRuns[1:]...)
-	} else {
-		runs = append(runs, childRuns...)
+		runs[len(runs)-1] = last
+		childRuns = childRuns[1:]
 	}
+	runs = append(runs, childRuns...)
 	last = runs[len(runs)-1]
 	return last, runs
 }
-- 
2.43.0


From 4dc396cc2ab7efebe1f18833aa528d31afbfe3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:42 +0000
Subject: [PATCH 22/35] fix: bidi isolates are cut out at their bounds, even if
 they have been reversed without a PDI

---
 bidi/reordering.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/bidi/reordering.go b/bidi/reordering.go
index 59929d8..8e9c60b 100644
--- a/bidi/reordering.go
+++ b/bidi/reordering.go
@@ -383,13 +383,22 @@ func cutScrapAt(s scrap, ch []scrap) (scrap, scrap) {
 	if len(ch) == 0 {
 		panic("internal inconsistency: ch may not be empty")
 	}
+	l, r := ch[0].l, ch[0].r // ch may be re-ordered already
+	for _, c := range ch {
+		if c.l < l {
+			l = c.l
+		}
+		if c.r > r {
+			r = c.r
+		}
+	}
 	cut := scrap{
 		l:       s.l,
-		r:       ch[0].l,
+		r:       l,
 		bidiclz: s.bidiclz,
 	}
 	rest := scrap{
-		l:       ch[len(ch)-1].r,
+		l:       r,
 		r:       s.r,
 		bidiclz: s.bidiclz,
 	}
-- 
2.43.0


From f69c23fc5996cb09e7bf7cf9ec63500a54b5ef43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:43 +0000
Subject: [PATCH 23/35] fix: bidi Split moves isolates to the side they belong
 to, and keeps the embedding direction

---
 bidi/reordering.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/bidi/reordering.go b/bidi/reordering.go
index 8e9c60b..7e67d17 100644
--- a/bidi/reordering.go
+++ b/bidi/reordering.go
@@ -56,7 +56,8 @@ func (rl *ResolvedLevels) Split(at uint64, shift0 bool) (*ResolvedLevels, *Resol
 		shiftzero(&suffix, charpos(at))
 		tracer().Debugf("resolved levels: shifted suffix levels = %v", suffix)
 	}
-	return &ResolvedLevels{scraps: prefix}, &ResolvedLevels{scraps: suffix}
+	return &ResolvedLevels{embedding: rl.embedding, scraps: prefix},
+		&ResolvedLevels{embedding: rl.embedding, scraps: suffix}
 }
 
 func split(scraps []scrap, at charpos) ([]scrap, []scrap) {
@@ -74,18 +75,19 @@ func split(scraps []scrap, at charpos) ([]scrap, []scrap) {
 		var restch [][]scrap
 		if len(s.children) > 0 { // TODO omit this
 			tracer().Debugf("split in %v with |ch|=%d", s, len(s.children))
-			for j, ch := range s.children {
-				if irsContains(ch, at) {
+			var prech [][]scrap
+			for _, ch := range s.children {
+				if len(ch) == 0 || ch[len(ch)-1].r <= at { // left of cut
+					prech = append(prech, ch)
+				} else if ch[0].l >= at { // right of cut
+					restch = append(restch, ch)
+				} else {
 					prefix, suffix := split(ch, at)
-					restch = [][]scrap{suffix}
-					if j < len(s.children)-1 {
-						restch = append(restch, s.children[j+1:]...)
-					}
-					s.children = s.children[:j]
-					s.children = append(s.children, prefix)
-					break
+					prech = append(prech, prefix)
+					restch = append(restch, suffix)
 				}
 			}
+			s.children = prech
 		}
 		// children are split at this point
 		// restch is set to right part of children split
@@ -95,6 +97,7 @@ func split(scraps []scrap, at charpos) ([]scrap, []scrap) {
 		rseg := make([]scrap, len(scraps)-i+1)
 		if isisolate(scraps[0]) {
 			rseg[0] = scraps[0] // copy IRS start
+			rseg[0].l, rseg[0].r = at, at
 			copy(rseg[1:], scraps[i:])
 			scraps[i], rseg[1] = s, rest
 		} else {
@@ -111,7 +114,7 @@ func split(scraps []scrap, at charpos) ([]scrap, []scrap) {
 }
 
 func irsContains(scraps []scrap, pos charpos) bool {
-	return scraps[0].l <= pos && scraps[len(scraps)-1].r > pos
+	return len(scraps) > 0 && scraps[0].l <= pos && scraps[len(scraps)-1].r > pos
 }
 
 func shiftzero(scraps *[]scrap, offset charpos) { //[]scrap {
@@ -119,6 +122,9 @@ func shiftzero(scraps *[]scrap, offset charpos) { //[]scrap {
 		s.l = validcharpos(s.l, offset)
 		s.r = validcharpos(s.r, offset)
 		(*scraps)[i] = s
+		for j := range s.children {
+			shiftzero(&s.children[j], offset)
+		}
 		//T().Errorf("scrap = %v", s)
 	}
 	//T().Errorf("shifted = %v", scraps)
-- 
2.43.0


From 72119ad7f624047331b4ddecd013830bd9f21bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:43 +0000
Subject: [PATCH 24/35] fix: bidi SegmentIterator does not reverse the run it
 iterates over

---
 bidi/reordering.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bidi/reordering.go b/bidi/reordering.go
index 7e67d17..b76e9ea 100644
--- a/bidi/reordering.go
+++ b/bidi/reordering.go
@@ -517,6 +517,7 @@ func (r *Run) SegmentIterator(reverse bool) *SegmentIterator {
 		reverse: reverse,
 	}
 	if reverse {
+		it.scraps = append([]scrap(nil), r.scraps...) // leave the run as it is
 		mid := len(it.scraps) / 2
 		for i := 0; i < mid; i++ {
 			j := len(it.scraps) - i - 1
-- 
2.43.0


From 7281532d3697fef8e8d5944129fe56ed9585098c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:44 +0000
Subject: [PATCH 25/35] fix: bidi scanner and parser do not access the list of
 isolates concurrently

---
 bidi/scanner.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index f988400..9760841 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -16,6 +16,7 @@ import (
 	"fmt"
 	"io"
 	"strconv"
+	"sync"
 	"unicode"
 	"unicode/utf8"
 
@@ -31,6 +32,7 @@ type bidiScanner struct {
 	markup        OutOfLineBidiMarkup             // markup for isolating run sequence delimiting
 	lastMarkupPos int64                           // last position of out-of-line markup
 	lastMarkup    int                             // last / remaining markup
+	mx            sync.Mutex                      // guards IRS and its pair handlers, as parser will access them, too
 	IRS           map[charpos]*bracketPairHandler // isolating run sequences and their pair handlers
 	IRSStack      []charpos                       // start positions of IRSs
 	ctxstack      []dirContext                    // context stack for IRSs
@@ -328,6 +330,8 @@ func isisolate(s scrap) bool {
 }
 
 func (sc *bidiScanner) handleIsolatingRunSwitch(s scrap) {
+	sc.mx.Lock()
+	defer sc.mx.Unlock()
 	if s.bidiclz == bidi.PDI {
 		// re-establish outer BD16 handler
 		if len(sc.IRSStack) <= 1 { // PDI without an isolate
@@ -356,6 +360,8 @@ func (sc *bidiScanner) handleIsolatingRunSwitch(s scrap) {
 }
 
 func (sc *bidiScanner) findBD16ForPos(pos charpos) *bracketPairHandler {
+	sc.mx.Lock()
+	defer sc.mx.Unlock()
 	irs := sc.IRS[0]
 	bd16 := irs
 	for irs != nil { // find most rightward isolating run sequence
-- 
2.43.0


From d0a2d83cdc94921b5122bd573795782706180b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:46 +0000
Subject: [PATCH 26/35] fix: bidi scanner does not read bracket pairings while
 the parser updates them

---
 bidi/brackets.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bidi/brackets.go b/bidi/brackets.go
index 28bc499..69b751b 100644
--- a/bidi/brackets.go
+++ b/bidi/brackets.go
@@ -220,6 +220,8 @@ func (bph *bracketPairHandler) UpdateClosingBrackets(s scrap) {
 }
 
 func (bph *bracketPairHandler) dump() {
+	bph.mx.Lock()
+	defer bph.mx.Unlock()
 	if len(bph.stack) == 0 {
 		tracer().Debugf("BD16: Bracket Stack is empty")
 	} else {
-- 
2.43.0


From 542116ccdf6705d9f7a7714f9d8e3764fb12609d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 27/35] fix: recognizers do not carry user data of their
 previous owner out of the pool

---
 automata.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/automata.go b/automata.go
index f5e31a0..f61cce5 100644
--- a/automata.go
+++ b/automata.go
@@ -109,6 +109,7 @@ func (rec *Recognizer) releaseIntoPool() {
 	rec.penalties = nil
 	rec.Expect = 0
 	rec.MatchLen = 0
+	rec.UserData = nil
 	rec.nextStep = nil
 	_ = globalRecognizerPool.opool.ReturnObject(globalRecognizerPool.ctx, rec)
 }
-- 
2.43.0


From 261c4e2ad4575c6147ed877a0a9b3ab5358795ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:25 +0000
Subject: [PATCH 28/35] fix: a bound reached earlier is no error of later
 calls, and does not hide a reader's error

---
 segment/segment.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/segment/segment.go b/segment/segment.go
index 627ee80..bbf7dd0 100644
--- a/segment/segment.go
+++ b/segment/segment.go
@@ -357,6 +357,9 @@ func (s *Segmenter) next(bound int) bool {
 	}
 	//
 	s.inUse = true
+	if s.err == ErrBoundReached { // concerns the previous call only
+		s.err = nil
+	}
 	// There may be further break opportunities between the previous break and the start of
 	// the current longest match. Advance the pointer to the next break opportunity, if any.
 	s.positionOfBreakOpportunity = s.findBreakOpportunity(s.deque.Len()-s.longestActiveMatch,
@@ -370,6 +373,9 @@ func (s *Segmenter) next(bound int) bool {
 		}
 		if s.pos-s.deque.Len() > bound {
 			tracer().Debugf("exiting because of bound reached: %d-%d>%d", s.pos, s.deque.Len(), bound)
+			if s.deque.Len() > 1 { // there is text left, besides the EOT atom
+				s.setErr(ErrBoundReached)
+			}
 			return false
 		}
 	}
-- 
2.43.0


From b4437f9e5357bd526f1cf2d64c3e912c275a38c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:57 +0000
Subject: [PATCH 29/35] fix: bidi: canonically equivalent angle brackets form a
 bracket pair

BD16 compares a closing bracket or its canonical equivalent with the open
brackets, but U+2329 was not paired with U+3009, nor U+3008 with U+232A.
---
 bidi/brackets.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/bidi/brackets.go b/bidi/brackets.go
index 69b751b..eaef3af 100644
--- a/bidi/brackets.go
+++ b/bidi/brackets.go
@@ -160,7 +160,7 @@ func (bs bracketStack) popWith(b rune, pos charpos) (bool, brktpos, bracketStack
 	}
 	i := len(bs) - 1
 	for i >= 0 { // start at TOS, possible skip unclosed opening brackets
-		if bs[i].pair.c == b {
+		if canonicalBracket(bs[i].pair.c) == canonicalBracket(b) {
 			open := bs[i] //.pos
 			bs = bs[:i]
 			return true, open, bs
@@ -170,6 +170,18 @@ func (bs bracketStack) popWith(b rune, pos charpos) (bool, brktpos, bracketStack
 	return false, brktpos{}, bs
 }
 
+// canonicalBracket maps brackets to their canonical equivalent, if any. Step 2 of the
+// algorithm described above has to treat canonically equivalent brackets as equal.
+func canonicalBracket(r rune) rune {
+	switch r {
+	case '\u2329': // LEFT-POINTING ANGLE BRACKET
+		return '\u3008' // LEFT ANGLE BRACKET
+	case '\u232a': // RIGHT-POINTING ANGLE BRACKET
+		return '\u3009' // RIGHT ANGLE BRACKET
+	}
+	return r
+}
+
 //func (bph *bracketPairHandler) FindBracketPairing(s scrap, open bool) (pairing, bool) {
 func (bph *bracketPairHandler) FindBracketPairing(s scrap) (pairing, bool) {
 	bph.mx.Lock()
-- 
2.43.0


From 01a72334718e8053b89d392ec3ce5c10d89dbb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:22 +0000
Subject: [PATCH 30/35] fix: bidi: an isolate at the start of a paragraph has
 brackets of its own

Its bracket pair handler replaced the one of the paragraph, as both were
stored under position 0; brackets inside and outside got paired.
---
 bidi/scanner.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index 9760841..e8998ca 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -34,7 +34,7 @@ type bidiScanner struct {
 	lastMarkup    int                             // last / remaining markup
 	mx            sync.Mutex                      // guards IRS and its pair handlers, as parser will access them, too
 	IRS           map[charpos]*bracketPairHandler // isolating run sequences and their pair handlers
-	IRSStack      []charpos                       // start positions of IRSs
+	IRSStack      []charpos                       // start positions of IRSs plus 1, 0 for the paragraph
 	ctxstack      []dirContext                    // context stack for IRSs
 }
 
@@ -354,8 +354,8 @@ func (sc *bidiScanner) handleIsolatingRunSwitch(s scrap) {
 		irs = irs.next
 	}
 	sc.bd16 = makeBracketPairHandler(s.l, irs)
-	sc.IRS[s.l] = sc.bd16
-	sc.IRSStack = append(sc.IRSStack, s.l)
+	sc.IRS[s.l+1] = sc.bd16 // 0 denotes the paragraph, which an isolate may start
+	sc.IRSStack = append(sc.IRSStack, s.l+1)
 	tracer().Debugf("bidi scanner: new IRS with position %d, nesting level is %d", sc.bd16.firstpos, len(sc.IRSStack)-1)
 }
 
-- 
2.43.0


From 800615b92997fa3a4bcdbaef9bffc8d58abd25b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:51 +0000
Subject: [PATCH 31/35] fix: bidi: brackets right after out-of-line PDI markup
 belong to the outer text

PDI markup has length zero, so the next bracket starts at the same position
and was looked up in the isolate just closed.
---
 bidi/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bidi/scanner.go b/bidi/scanner.go
index e8998ca..2cf0780 100644
--- a/bidi/scanner.go
+++ b/bidi/scanner.go
@@ -366,7 +366,7 @@ func (sc *bidiScanner) findBD16ForPos(pos charpos) *bracketPairHandler {
 	bd16 := irs
 	for irs != nil { // find most rightward isolating run sequence
 		if irs.firstpos <= pos {
-			if irs.lastpos == 0 || irs.lastpos >= pos {
+			if irs.lastpos == 0 || irs.lastpos > pos { // PDI markup has length 0
 				bd16 = irs
 			}
 		}
-- 
2.43.0


From 17b56c73972b5bd87b2c71439d542ab0a9b8d216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:42 +0000
Subject: [PATCH 32/35] fix: bidi: rules are looked up where the trie finally
 put them

---
 bidi/resolver.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/bidi/resolver.go b/bidi/resolver.go
index 21385cc..8cd40a5 100644
--- a/bidi/resolver.go
+++ b/bidi/resolver.go
@@ -557,6 +557,7 @@ func prepareRulesTrie() *trie.TinyHashTrie {
 		allocRule(trie, r, lhs)
 		// ------------------------------
 		trie.Freeze()
+		placeRules(trie)
 		tracer().SetTraceLevel(tracelevel)
 		tracer().Debugf("--- freeze trie -------------")
 		trie.Stats()
@@ -565,11 +566,27 @@ func prepareRulesTrie() *trie.TinyHashTrie {
 	return rulesTrie
 }
 
+// ruleEntry is a rule which has already got a position in the rules trie.
+type ruleEntry struct {
+	rule *bidiRule
+	lhs  []byte
+}
+
+var allocatedRules []ruleEntry // rules in the trie, in order of allocation
+
 func allocRule(trie *trie.TinyHashTrie, rule *bidiRule, lhs []byte) {
 	tracer().Debugf("storing rule %s for LHS=%v", rule.name, lhs)
-	pointer := trie.AllocPositionForWord(lhs)
-	//T().Debugf("  -> %d", pointer)
-	rules[pointer] = rule
+	trie.AllocPositionForWord(lhs)
+	allocatedRules = append(allocatedRules, ruleEntry{rule, lhs})
+}
+
+// placeRules enters all rules into the rules table. The trie may re-locate left hand
+// sides as long as further ones are added, thus this has to wait until it is complete.
+func placeRules(trie *trie.TinyHashTrie) {
+	for _, entry := range allocatedRules {
+		pointer := trie.AllocPositionForWord(entry.lhs)
+		rules[pointer] = entry.rule
+	}
 }
 
 // ---------------------------------------------------------------------------
-- 
2.43.0


From b29f2fbf6597833e5c7048f40784db5cf37e6878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:07 +0000
Subject: [PATCH 33/35] fix: bidi: a split in front of levels which do not
 start at 0 leaves nothing on the left

---
 bidi/reordering.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bidi/reordering.go b/bidi/reordering.go
index b76e9ea..cf3a80c 100644
--- a/bidi/reordering.go
+++ b/bidi/reordering.go
@@ -65,6 +65,9 @@ func split(scraps []scrap, at charpos) ([]scrap, []scrap) {
 	// split, too. In fact, we need to introduce a LRI/RLI at the beginning of
 	// the right rest and can spare PDIs in left parts.
 	tracer().Debugf("split @%d, irs = %v", at, scraps)
+	if len(scraps) > 0 && at < scraps[0].l {
+		return []scrap{}, scraps // all of it is right of at
+	}
 	if !irsContains(scraps, at) {
 		return scraps, []scrap{}
 	}
-- 
2.43.0


From 2b0894fc20802628715422a88338cede2431ac0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:07 +0000
Subject: [PATCH 34/35] fix: bidi: reordering does not panic on first-strong
 isolates

---
 bidi/reordering.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bidi/reordering.go b/bidi/reordering.go
index cf3a80c..69516dc 100644
--- a/bidi/reordering.go
+++ b/bidi/reordering.go
@@ -314,7 +314,7 @@ func findEmbeddingDir(scraps []scrap, inherited Direction) Direction {
 		case bidi.PDI:
 			panic("PDI is first scrap in child run, strange")
 		case bidi.FSI:
-			panic("bidi.FSI not yet supported")
+			return inherited // bidi.FSI not yet supported, treated alike during resolving
 		}
 	}
 	return inherited
-- 
2.43.0


From 4011ce4d94245cf93f089c2dfca8beba91437554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:07 +0000
Subject: [PATCH 35/35] fix: bidi: reordering leaves the resolved levels as
 they are

---
 bidi/reordering.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/bidi/reordering.go b/bidi/reordering.go
index 69516dc..4b501ab 100644
--- a/bidi/reordering.go
+++ b/bidi/reordering.go
@@ -461,12 +461,29 @@ func (rl *ResolvedLevels) Reorder() *Ordering {
 	if len(rl.scraps) == 0 {
 		return &Ordering{}
 	}
-	rscr := reorder(rl.scraps, 0, len(rl.scraps), rl.embedding)
+	rscr := reorder(copyScraps(rl.scraps), 0, len(rl.scraps), rl.embedding)
 	tracer().Debugf("=====reorder done, flatten ========")
 	r := flatten(rscr, rl.embedding)
 	return &Ordering{Runs: r}
 }
 
+// copyScraps makes a copy of scraps including their children. reorder(…) is destructive, but the
+// resolved levels have to stay in logical order.
+func copyScraps(scraps []scrap) []scrap {
+	cp := make([]scrap, len(scraps))
+	copy(cp, scraps)
+	for i, s := range cp {
+		if len(s.children) == 0 {
+			continue
+		}
+		cp[i].children = make([][]scrap, len(s.children))
+		for j, ch := range s.children {
+			cp[i].children[j] = copyScraps(ch)
+		}
+	}
+	return cp
+}
+
 // DirectionAt returns the text direction at byte position pos.
 func (rl *ResolvedLevels) DirectionAt(pos uint64) Direction {
 	for _, s := range rl.scraps {
-- 
2.43.0

