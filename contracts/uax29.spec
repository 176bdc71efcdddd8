package uax29
// ---- classification ------------------------------------------------------------
def wdset() = len(rangeFromUAX29Class) == 18 && forall k int {rangeFromUAX29Class[k]} :: 0 <= k && k < 18 ==> rangeFromUAX29Class[k] != nil
def wdin(k, r) = intab(ref(rangeFromUAX29Class[k]), r)

func ClassForRune -> c
  prop C11 C10
  requires wdset()
  modifies nothing
  ensures [range] 0 <= c && c <= 17 || c == 999 || c == 1001
  ensures [end-of-text] c == 1001 <==> r == 0
  ensures [default] c == 999 ==> (forall k int {rangeFromUAX29Class[k]} :: 0 <= k && k < 18 ==> !wdin(k, r))
  ensures [table] c <= 17 ==> wdin(c, r)
  ensures [first] c <= 17 ==> (forall k int {rangeFromUAX29Class[k]} :: 0 <= k && k < c ==> !wdin(k, r))
  loop 0
    invariant 0 <= c && c <= 18
    invariant forall k int {rangeFromUAX29Class[k]} :: 0 <= k && k < c ==> !wdin(k, r)
    decreases 18 - c

func (*WordBreaker).CodePointClassFor -> c
  prop C11 C10
  requires wdset() && emoji.Extended_Pictographic != nil
  modifies nothing
  ensures [range] 0 <= c && c <= 18 || c == 999 || c == 1001
  ensures [end-of-text] c == 1001 <==> r == 0
  ensures [default] c == 999 || c == 18 ==> (forall k int {rangeFromUAX29Class[k]} :: 0 <= k && k < 18 ==> !wdin(k, r))
  ensures [pictographic] c == 18 ==> intab(ref(emoji.Extended_Pictographic), r)
  ensures [no-pictographic] c == 999 ==> !intab(ref(emoji.Extended_Pictographic), r)
  ensures [table] c <= 17 ==> wdin(c, r)
  ensures [first] c <= 17 ==> (forall k int {rangeFromUAX29Class[k]} :: 0 <= k && k < c ==> !wdin(k, r))

func setupUAX29Classes
  prop C11
  modifies rangeFromUAX29Class, ALetter, CR, Double_Quote, Extend, ExtendNumLet, Format, Hebrew_Letter, Katakana, LF, MidLetter, MidNum, MidNumLet, Newline, Numeric, Regional_Indicator, Single_Quote, WSegSpace, ZWJ
  ensures [complete] wdset()
  ensures [slots] rangeFromUAX29Class[0] == ALetter && rangeFromUAX29Class[1] == CR && rangeFromUAX29Class[2] == Double_Quote && rangeFromUAX29Class[3] == Extend && rangeFromUAX29Class[4] == ExtendNumLet && rangeFromUAX29Class[5] == Format
  ensures [slots2] rangeFromUAX29Class[6] == Hebrew_Letter && rangeFromUAX29Class[7] == Katakana && rangeFromUAX29Class[8] == LF && rangeFromUAX29Class[9] == MidLetter && rangeFromUAX29Class[10] == MidNum && rangeFromUAX29Class[11] == MidNumLet
  ensures [slots3] rangeFromUAX29Class[12] == Newline && rangeFromUAX29Class[13] == Numeric && rangeFromUAX29Class[14] == Regional_Indicator && rangeFromUAX29Class[15] == Single_Quote && rangeFromUAX29Class[16] == WSegSpace && rangeFromUAX29Class[17] == ZWJ

// ---- the word breaker ---------------------------------------------------------
// Rules are small automata: what each step accepts, aborts or waits for, and which penalties it leaves.
def wordJoin(next, rec, len0) = next == nil && rec.MatchLen == len0 + 1 && len(rec.penalties) == 2 && rec.penalties[0] == 0 && rec.penalties[1] == PenaltyToSuppressBreak
def wordAbort(next, rec) = next == nil && rec.MatchLen == 0
def wordWait(rec, len0) = rec.MatchLen == len0 + 1
def ignored(c) = c == 3 || c == 5 || c == 17
// the rule joins around a middle character: boundaries before the newest character, and before the middle character
// (d ignored characters lie in between)
def wordJoin2(next, rec, len0, d) = next == nil && rec.MatchLen == len0 + 1 && len(rec.penalties) == d + 3
|  && (forall i int :: 0 <= i && i < d + 3 ==> rec.penalties[i] == (i == 1 || i == d + 2 ? PenaltyToSuppressBreak : 0))

func rule_NewLine -> next
  prop C10
  requires rec != nil
  modifies rec.MatchLen, rec.penalties
  ensures [LF] cpClass == 8 || cpClass == 12 ==> next == nil && rec.MatchLen == old(rec.MatchLen) + 1 && len(rec.penalties) == 2 && rec.penalties[0] == PenaltyForMustBreak && rec.penalties[1] == PenaltyForMustBreak
  ensures [CR] cpClass == 1 ==> next == rule_CRLF && wordWait(rec, old(rec.MatchLen))
  ensures [other] cpClass != 1 && cpClass != 8 && cpClass != 12 ==> wordAbort(next, rec)
func rule_CRLF -> next
  prop C10
  requires rec != nil
  modifies rec.MatchLen, rec.penalties
  ensures [done] next == nil && rec.MatchLen == old(rec.MatchLen) + 1
  ensures [LF] cpClass == 8 ==> len(rec.penalties) == 2 && rec.penalties[0] == PenaltyForMustBreak && rec.penalties[1] == wraps(3 * PenaltyToSuppressBreak, "int")
  ensures [other] cpClass != 8 ==> len(rec.penalties) == 3 && rec.penalties[0] == 0 && rec.penalties[1] == PenaltyForMustBreak && rec.penalties[2] == PenaltyForMustBreak
func rule_WB3c -> next
  prop C10
  requires rec != nil
  modifies rec.MatchLen
  ensures next == rule_Pictography && wordWait(rec, old(rec.MatchLen))
func rule_Pictography -> next
  prop C10
  requires rec != nil && emoji.Extended_Pictographic != nil
  modifies rec.MatchLen, rec.penalties
  ensures [join] cpClass == 18 || intab(ref(emoji.Extended_Pictographic), r) ==> wordJoin(next, rec, old(rec.MatchLen))
  ensures [other] !(cpClass == 18 || intab(ref(emoji.Extended_Pictographic), r)) ==> wordAbort(next, rec)
func rule_WB3d -> next
  prop C10
  requires rec != nil
  modifies rec.MatchLen
  ensures next == finish_WB3d && wordWait(rec, old(rec.MatchLen))
func finish_WB3d -> next
  prop C10
  requires rec != nil
  modifies rec.MatchLen, rec.penalties
  ensures [join] cpClass == 16 ==> wordJoin(next, rec, old(rec.MatchLen))
  ensures [other] cpClass != 16 ==> wordAbort(next, rec)
func checkIgnoredCharacters -> b
  prop C10
  requires rec != nil
  modifies rec.MatchLen
  ensures b <==> ignored(c)
  ensures rec.MatchLen == old(rec.MatchLen) + (ignored(c) ? 1 : 0)
func rule_WB5 -> next
  prop C10
  requires rec != nil
  modifies rec.MatchLen
  ensures next == finish_WB5_10 && wordWait(rec, old(rec.MatchLen))
func finish_WB5_10 -> next
  prop C10
  requires rec != nil
  modifies rec.MatchLen, rec.penalties
  ensures [ignored] ignored(cpClass) ==> next == finish_WB5_10 && wordWait(rec, old(rec.MatchLen))
  ensures [join] cpClass == 0 || cpClass == 6 ==> wordJoin(next, rec, old(rec.MatchLen))
  ensures [other] !ignored(cpClass) && !(cpClass == 0 || cpClass == 6) ==> wordAbort(next, rec)
func rule_WB6_7 -> next
  prop C10
  requires rec != nil
  modifies rec.MatchLen
  ensures next == cont_WB6_7 && wordWait(rec, old(rec.MatchLen))
func cont_WB6_7 -> next
  prop C10
  requires rec != nil
  modifies rec.MatchLen, rec.Expect
  ensures [ignored] ignored(cpClass) ==> next == cont_WB6_7 && wordWait(rec, old(rec.MatchLen)) && rec.Expect == old(rec.Expect)
  ensures [middle] cpClass == 9 || cpClass == 11 || cpClass == 15 ==> next == finish_WB6_7 && wordWait(rec, old(rec.MatchLen)) && rec.Expect == rec.MatchLen
  ensures [other] !ignored(cpClass) && !(cpClass == 9 || cpClass == 11 || cpClass == 15) ==> wordAbort(next, rec)
func finish_WB6_7 -> next
  prop C10
  requires rec != nil && 0 <= rec.Expect && rec.Expect <= rec.MatchLen && rec.MatchLen <= 1152921504606846976
  modifies rec.MatchLen, rec.penalties
  ensures [ignored] ignored(cpClass) ==> next == finish_WB6_7 && wordWait(rec, old(rec.MatchLen)) && rec.Expect == old(rec.Expect)
  ensures [join] cpClass == 0 || cpClass == 6 ==> wordJoin2(next, rec, old(rec.MatchLen), old(rec.MatchLen - rec.Expect))
  ensures [other] !ignored(cpClass) && !(cpClass == 0 || cpClass == 6) ==> wordAbort(next, rec)
func rule_WB7a -> next
  prop C10
  requires rec != nil
  modifies rec.MatchLen
  ensures next == finish_WB7a && wordWait(rec, old(rec.MatchLen))
func finish_WB7a -> next
  prop C10
  requires rec != nil
  modifies rec.MatchLen, rec.penalties
  ensures [ignored] ignored(cpClass) ==> next == finish_WB7a && wordWait(rec, old(rec.MatchLen))
  ensures [join] cpClass == 15 ==> wordJoin(next, rec, old(rec.MatchLen))
  ensures [other] !ignored(cpClass) && !(cpClass == 15) ==> wordAbort(next, rec)
func rule_WB7bc -> next
  prop C10
  requires rec != nil
  modifies rec.MatchLen
  ensures next == cont_WB7bc && wordWait(rec, old(rec.MatchLen))
func cont_WB7bc -> next
  prop C10
  requires rec != nil
  modifies rec.MatchLen, rec.Expect
  ensures [ignored] ignored(cpClass) ==> next == cont_WB7bc && wordWait(rec, old(rec.MatchLen)) && rec.Expect == old(rec.Expect)
  ensures [middle] cpClass == 2 ==> next == finish_WB7bc && wordWait(rec, old(rec.MatchLen)) && rec.Expect == rec.MatchLen
  ensures [other] !ignored(cpClass) && !(cpClass == 2) ==> wordAbort(next, rec)
func finish_WB7bc -> next
  prop C10
  requires rec != nil && 0 <= rec.Expect && rec.Expect <= rec.MatchLen && rec.MatchLen <= 1152921504606846976
  modifies rec.MatchLen, rec.penalties
  ensures [ignored] ignored(cpClass) ==> next == finish_WB7bc && wordWait(rec, old(rec.MatchLen)) && rec.Expect == old(rec.Expect)
  ensures [join] cpClass == 6 ==> wordJoin2(next, rec, old(rec.MatchLen), old(rec.MatchLen - rec.Expect))
  ensures [other] !ignored(cpClass) && !(cpClass == 6) ==> wordAbort(next, rec)
func rule_WB8 -> next
  prop C10
  requires rec != nil
  modifies rec.MatchLen
  ensures next == finish_WB8_9 && wordWait(rec, old(rec.MatchLen))
func rule_WB9 -> next
  prop C10
  requires rec != nil
  modifies rec.MatchLen
  ensures next == finish_WB8_9 && wordWait(rec, old(rec.MatchLen))
func finish_WB8_9 -> next
  prop C10
  requires rec != nil
  modifies rec.MatchLen, rec.penalties
  ensures [ignored] ignored(cpClass) ==> next == finish_WB8_9 && wordWait(rec, old(rec.MatchLen))
  ensures [join] cpClass == 13 ==> wordJoin(next, rec, old(rec.MatchLen))
  ensures [other] !ignored(cpClass) && !(cpClass == 13) ==> wordAbort(next, rec)
func rule_WB10 -> next
  prop C10
  requires rec != nil
  modifies rec.MatchLen
  ensures next == finish_WB5_10 && wordWait(rec, old(rec.MatchLen))
func rule_WB11 -> next
  prop C10
  requires rec != nil
  modifies rec.MatchLen
  ensures next == cont_WB11 && wordWait(rec, old(rec.MatchLen))
func cont_WB11 -> next
  prop C10
  requires rec != nil
  modifies rec.MatchLen, rec.Expect
  ensures [ignored] ignored(cpClass) ==> next == cont_WB11 && wordWait(rec, old(rec.MatchLen)) && rec.Expect == old(rec.Expect)
  ensures [middle] cpClass == 10 || cpClass == 11 || cpClass == 15 ==> next == finish_WB11 && wordWait(rec, old(rec.MatchLen)) && rec.Expect == rec.MatchLen
  ensures [other] !ignored(cpClass) && !(cpClass == 10 || cpClass == 11 || cpClass == 15) ==> wordAbort(next, rec)
func finish_WB11 -> next
  prop C10
  requires rec != nil && 0 <= rec.Expect && rec.Expect <= rec.MatchLen && rec.MatchLen <= 1152921504606846976
  modifies rec.MatchLen, rec.penalties
  ensures [ignored] ignored(cpClass) ==> next == finish_WB11 && wordWait(rec, old(rec.MatchLen)) && rec.Expect == old(rec.Expect)
  ensures [join] cpClass == 13 ==> wordJoin2(next, rec, old(rec.MatchLen), old(rec.MatchLen - rec.Expect))
  ensures [other] !ignored(cpClass) && !(cpClass == 13) ==> wordAbort(next, rec)
func rule_WB13 -> next
  prop C10
  requires rec != nil
  modifies rec.MatchLen
  ensures next == finish_WB13 && wordWait(rec, old(rec.MatchLen))
func finish_WB13 -> next
  prop C10
  requires rec != nil
  modifies rec.MatchLen, rec.penalties
  ensures [ignored] ignored(cpClass) ==> next == finish_WB13 && wordWait(rec, old(rec.MatchLen))
  ensures [join] cpClass == 7 ==> wordJoin(next, rec, old(rec.MatchLen))
  ensures [other] !ignored(cpClass) && !(cpClass == 7) ==> wordAbort(next, rec)
func rule_WB13a -> next
  prop C10
  requires rec != nil
  modifies rec.MatchLen
  ensures next == finish_WB13a && wordWait(rec, old(rec.MatchLen))
func finish_WB13a -> next
  prop C10
  requires rec != nil
  modifies rec.MatchLen, rec.penalties
  ensures [ignored] ignored(cpClass) ==> next == finish_WB13a && wordWait(rec, old(rec.MatchLen))
  ensures [join] cpClass == 4 ==> wordJoin(next, rec, old(rec.MatchLen))
  ensures [other] !ignored(cpClass) && !(cpClass == 4) ==> wordAbort(next, rec)
func rule_WB13b -> next
  prop C10
  requires rec != nil
  modifies rec.MatchLen
  ensures next == finish_WB13b && wordWait(rec, old(rec.MatchLen))
func finish_WB13b -> next
  prop C10
  requires rec != nil
  modifies rec.MatchLen, rec.penalties
  ensures [ignored] ignored(cpClass) ==> next == finish_WB13b && wordWait(rec, old(rec.MatchLen))
  ensures [join] cpClass == 0 || cpClass == 6 || cpClass == 13 || cpClass == 7 ==> wordJoin(next, rec, old(rec.MatchLen))
  ensures [other] !ignored(cpClass) && !(cpClass == 0 || cpClass == 6 || cpClass == 13 || cpClass == 7) ==> wordAbort(next, rec)
def wOwner(rec) = as(val(rec.UserData), "*WordBreaker")
def hasWOwner(rec) = typeis(rec.UserData, "*WordBreaker") && val(rec.UserData) > 0
func rule_WB15 -> next
  prop C10
  requires rec != nil && hasWOwner(rec)
  modifies rec.MatchLen, wOwner(rec).blockedRI
  ensures next == finish_WB15 && wordWait(rec, old(rec.MatchLen)) && wOwner(rec).blockedRI
func finish_WB15 -> next
  prop C10
  requires rec != nil && hasWOwner(rec)
  modifies rec.MatchLen, rec.penalties, wOwner(rec).blockedRI
  ensures [ignored] ignored(cpClass) ==> next == finish_WB15 && wordWait(rec, old(rec.MatchLen)) && wOwner(rec).blockedRI == old(wOwner(rec).blockedRI)
  ensures [unblocked] !ignored(cpClass) ==> !wOwner(rec).blockedRI
  ensures [join] cpClass == 14 ==> wordJoin(next, rec, old(rec.MatchLen))
  ensures [other] !ignored(cpClass) && cpClass != 14 ==> wordAbort(next, rec)
func rule_WB4 -> next
  prop C10
  requires rec != nil && hasWOwner(rec)
  modifies rec.MatchLen, rec.penalties
  ensures [join] ignored(cpClass) && !isNewline(wOwner(rec).previousClass) ==> wordJoin(next, rec, old(rec.MatchLen))
  ensures [other] !(ignored(cpClass) && !isNewline(wOwner(rec).previousClass)) ==> wordAbort(next, rec)
def isNewline(c) = c == 1 || c == 8 || c == 12

func setPenalty1
  prop C10
  requires gb != nil && off(gb.penalties) == 0
  modifies gb.penalties, elems(gb.penalties)
  ensures [length] len(gb.penalties) == (old(len(gb.penalties)) < 2 ? 2 : old(len(gb.penalties)))
  ensures [default] gb.penalties[1] == (old(len(gb.penalties) < 2) || old(gb.penalties[1]) == 0 ? p : old(gb.penalties[1]))
  ensures [first] gb.penalties[0] == (old(len(gb.penalties)) == 0 ? 0 : old(gb.penalties[0]))
  ensures [rest] forall i int :: 2 <= i && i < len(gb.penalties) ==> gb.penalties[i] == old(gb.penalties[i])
func (*WordBreaker).LongestActiveMatch -> n
  prop C10
  modifies nothing
  ensures n == gb.longestMatch
func (*WordBreaker).Penalties -> ps
  prop C10
  modifies nothing
  ensures arr(ps) == arr(gb.penalties) && off(ps) == off(gb.penalties) && len(ps) == len(gb.penalties)

func (*WordBreaker).ProceedWithRune
  prop C10
  requires gb != nil && tag(gb.publisher) > 0
  modifies gb.longestMatch, gb.penalties, gb.previousClass, all([]int), all(uax.Recognizer), ghost plong, ghost plen, ghost ppen, ghost pubr, ghost pubc, ghost npub
  ensures [published] npub == old(npub) + 1 && pubr == r && pubc == cpClass && gb.longestMatch == plong
  ensures [previous] gb.previousClass == cpClass
  ensures [length] len(gb.penalties) == (plen < 2 ? 2 : plen)
  ensures [first] gb.penalties[0] == (plen > 0 ? ppen[0] : 0)
  ensures [default] gb.penalties[1] == (plen > 1 && ppen[1] != 0 ? ppen[1] : penalty999)
  ensures [rest] forall j int :: 2 <= j && j < plen ==> gb.penalties[j] == ppen[j]

def wRecAt(k) = as(sublog[k], "*uax.Recognizer")
def wStarted(gb, c, k, n) = wRecAt(k).nextStep == gb.rules[c][k - n] && wRecAt(k).MatchLen == 0 && typeis(wRecAt(k).UserData, "*WordBreaker") && val(wRecAt(k).UserData) == ref(gb)
func (*WordBreaker).StartRulesFor
  prop C10
  requires gb != nil && tag(gb.publisher) > 0 && poolClean() && uax.globalRecognizerPool != nil
  modifies all(uax.Recognizer), ghost inpool, ghost nsub, ghost sublog
  ensures [blocked] cpClass == 14 && gb.blockedRI ==> nsub == old(nsub)
  ensures [started] !(cpClass == 14 && gb.blockedRI) ==> nsub == old(nsub) + len(gb.rules[cpClass])
  ensures [rules] forall k int {sublog[k]} :: old(nsub) <= k && k < nsub ==> wStarted(gb, cpClass, k, old(nsub))
  loop 0
    invariant [range] 0 <= $i && $i <= len(gb.rules[cpClass]) && nsub == old(nsub) + $i && poolClean()
    invariant [rules] forall k int {sublog[k]} :: old(nsub) <= k && k < nsub ==> wStarted(gb, cpClass, k, old(nsub)) && !inpool[sublog[k]] && isalloc(sublog[k])
    decreases len(gb.rules[cpClass]) - $i

func SetupUAX29Classes
  trusted
  modifies nothing
def wrule1(gb, c, f) = len(gb.rules[c]) == 1 && gb.rules[c][0] == f
func NewWordBreaker -> gb
  prop C10
  modifies nothing
  ensures [rules] wrule1(gb, 1, rule_NewLine) && wrule1(gb, 8, rule_NewLine) && wrule1(gb, 12, rule_NewLine) && wrule1(gb, 16, rule_WB3d) && wrule1(gb, 3, rule_WB4) && wrule1(gb, 5, rule_WB4) && wrule1(gb, 14, rule_WB15)
  ensures [zwj] len(gb.rules[17]) == 2 && gb.rules[17][0] == rule_WB3c && gb.rules[17][1] == rule_WB4
  ensures [aletter] len(gb.rules[0]) == 4 && gb.rules[0][0] == rule_WB5 && gb.rules[0][1] == rule_WB6_7 && gb.rules[0][2] == rule_WB9 && gb.rules[0][3] == rule_WB13a
  ensures [hebrew] len(gb.rules[6]) == 6 && gb.rules[6][0] == rule_WB5 && gb.rules[6][1] == rule_WB6_7 && gb.rules[6][2] == rule_WB7a && gb.rules[6][3] == rule_WB7bc && gb.rules[6][4] == rule_WB9 && gb.rules[6][5] == rule_WB13a
  ensures [numeric] len(gb.rules[13]) == 4 && gb.rules[13][0] == rule_WB8 && gb.rules[13][1] == rule_WB10 && gb.rules[13][2] == rule_WB11 && gb.rules[13][3] == rule_WB13a
  ensures [connector] len(gb.rules[4]) == 2 && gb.rules[4][0] == rule_WB13a && gb.rules[4][1] == rule_WB13b
  ensures [katakana] len(gb.rules[7]) == 2 && gb.rules[7][0] == rule_WB13 && gb.rules[7][1] == rule_WB13a
  ensures [no-rules] len(gb.rules[2]) == 0 && len(gb.rules[9]) == 0 && len(gb.rules[10]) == 0 && len(gb.rules[11]) == 0 && len(gb.rules[15]) == 0 && len(gb.rules[18]) == 0 && len(gb.rules[999]) == 0 && len(gb.rules[1001]) == 0
  ensures [unblocked] !gb.blockedRI && len(gb.penalties) == 0

// ---- composition: the penalties of all rules together mark exactly the boundaries of UAX#29 ------------------
// Classes: 0 ALetter, 1 CR, 2 Double_Quote, 3 Extend, 4 ExtendNumLet, 5 Format, 6 Hebrew_Letter, 7 Katakana, 8 LF, 9 MidLetter,
// 10 MidNum, 11 MidNumLet, 12 Newline, 13 Numeric, 14 Regional_Indicator, 15 Single_Quote, 16 WSegSpace, 17 ZWJ,
// 18 Extended_Pictographic, 999 other, 1000 start of text, 1001 end of text.
// Boundary between a character of class a and one of class b (bp: b is Extended_Pictographic); z, n: the classes directly before
// a and after b; p, pp: the last two classes up to a, and nx: the first one after b, when characters ignored by WB4 are
// skipped; ri: an odd number of regional indicators ends at p.
def ahl(c) = c == 0 || c == 6
def mnlq(c) = c == 11 || c == 15
def wbjoin(a, b, bp, p, pp, nx, ri) = a == 1 && b == 8 || !isNewline(a) && !isNewline(b) && (
|     a == 17 && bp || a == 16 && b == 16 || ignored(b)
|  || ahl(p) && ahl(b)
|  || ahl(p) && (b == 9 || mnlq(b)) && ahl(nx)
|  || ahl(pp) && (p == 9 || mnlq(p)) && ahl(b)
|  || p == 6 && b == 15
|  || p == 6 && b == 2 && nx == 6
|  || pp == 6 && p == 2 && b == 6
|  || p == 13 && b == 13 || ahl(p) && b == 13 || p == 13 && ahl(b)
|  || pp == 13 && (p == 10 || mnlq(p)) && b == 13
|  || p == 13 && (b == 10 || mnlq(b)) && nx == 13
|  || p == 7 && b == 7
|  || (ahl(p) || p == 13 || p == 7 || p == 4) && b == 4
|  || p == 4 && (ahl(b) || b == 13 || b == 7)
|  || ri && b == 14)
// What the recognizers leave for this boundary (contracts of the rule functions): with the event of a, of b, of the character
// directly after b, and of nx. s: penalty to suppress a break, m: for a mandatory break, d: default.
def wAfter(z, a, m) = (a == 8 || a == 12 ? m : 0) + (z == 1 && a == 8 ? m : 0)
def w(c, s) = c ? s : 0
def wAt(a, b, bp, p, pp, ri, s, m) = w(b == 8 || b == 12, m) + (a == 1 ? (b == 8 ? 3 * s : m) : 0)
|  + w(a == 17 && (b == 18 || bp), s) + w(a == 16 && b == 16, s) + w(ignored(b) && !isNewline(a), s)
|  + w(ahl(p) && ahl(b), s) + w(ahl(pp) && (p == 9 || mnlq(p)) && ahl(b), s) + w(p == 6 && b == 15, s) + w(pp == 6 && p == 2 && b == 6, s)
|  + w(p == 13 && b == 13, s) + w(ahl(p) && b == 13, s) + w(p == 13 && ahl(b), s) + w(pp == 13 && (p == 10 || mnlq(p)) && b == 13, s)
|  + w(p == 7 && b == 7, s) + w((ahl(p) || p == 13 || p == 7 || p == 4) && b == 4, s) + w(p == 4 && (ahl(b) || b == 13 || b == 7), s)
|  + w(ri && b == 14, s)
def wNext(b, n, m) = w(b == 1 && n != 8, m)
def wLater(b, p, nx, s) = w(ahl(p) && (b == 9 || mnlq(b)) && ahl(nx), s) + w(p == 6 && b == 2 && nx == 6, s) + w(p == 13 && (b == 10 || mnlq(b)) && nx == 13, s)
def wTotal(z, a, b, n, bp, p, pp, nx, ri, s, m, d) = wAfter(z, a, m) + (wAt(a, b, bp, p, pp, ri, s, m) == 0 ? d : wAt(a, b, bp, p, pp, ri, s, m)) + wNext(b, n, m) + wLater(b, p, nx, s)
def wclass(c) = 0 <= c && c <= 18 || c == 999
lemma word_boundaries(z int, a int, b int, n int, bp bool, p int, pp int, nx int, ri bool, s int, m int, d int)
  prop C10
  requires wclass(a) && wclass(b) && wclass(p) && (b == 18 ==> bp) && s == 10000 && m == 0 - 10000 && d == 10
  requires (ignored(a) || p == a) && (isNewline(p) ==> p == a) && (ri ==> p == 14) && (bp ==> !isNewline(b) && !ignored(b))
  ensures wTotal(z, a, b, n, bp, p, pp, nx, ri, s, m, d) != 0
  ensures wTotal(z, a, b, n, bp, p, pp, nx, ri, s, m, d) < 10000 <==> !wbjoin(a, b, bp, p, pp, nx, ri)
