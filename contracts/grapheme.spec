package grapheme
// ---- classification ------------------------------------------------------------
def grset() = len(rangeFromGraphemeClass) == 13 && forall k int {rangeFromGraphemeClass[k]} :: 0 <= k && k < 13 ==> rangeFromGraphemeClass[k] != nil
def grin(k, r) = intab(ref(rangeFromGraphemeClass[k]), r)

func ClassForRune -> c
  prop C11 C09
  requires grset()
  modifies nothing
  ensures [range] 0 <= c && c <= 12 || c == 999 || c == 1001
  ensures [end-of-text] c == 1001 <==> r == 0
  ensures [default] c == 999 ==> (forall k int {rangeFromGraphemeClass[k]} :: 0 <= k && k < 13 ==> !grin(k, r))
  ensures [table] c <= 12 ==> grin(c, r)
  ensures [first] c <= 12 ==> (forall k int {rangeFromGraphemeClass[k]} :: 0 <= k && k < c ==> !grin(k, r))
  loop 0
    invariant 0 <= c && c <= 13
    invariant forall k int {rangeFromGraphemeClass[k]} :: 0 <= k && k < c ==> !grin(k, r)
    decreases 13 - c

func (*Breaker).CodePointClassFor -> c
  prop C11 C09
  requires grset() && emoji.Extended_Pictographic != nil
  modifies nothing
  ensures [range] 0 <= c && c <= 13 || c == 999 || c == 1001
  ensures [end-of-text] c == 1001 <==> r == 0
  ensures [default] c == 999 || c == 13 ==> (forall k int {rangeFromGraphemeClass[k]} :: 0 <= k && k < 13 ==> !grin(k, r))
  ensures [pictographic] c == 13 ==> intab(ref(emoji.Extended_Pictographic), r)
  ensures [no-pictographic] c == 999 ==> !intab(ref(emoji.Extended_Pictographic), r)
  ensures [table] c <= 12 ==> grin(c, r)
  ensures [first] c <= 12 ==> (forall k int {rangeFromGraphemeClass[k]} :: 0 <= k && k < c ==> !grin(k, r))

func setupGraphemeClasses
  prop C11
  modifies rangeFromGraphemeClass, CR, LF, Prepend, Control, Extend, Regional_Indicator, SpacingMark, L, V, T, LV, LVT, ZWJ
  ensures [complete] grset()
  ensures [slots] rangeFromGraphemeClass[0] == CR && rangeFromGraphemeClass[1] == LF && rangeFromGraphemeClass[2] == Prepend && rangeFromGraphemeClass[3] == Control && rangeFromGraphemeClass[4] == Extend
  ensures [slots2] rangeFromGraphemeClass[5] == Regional_Indicator && rangeFromGraphemeClass[6] == SpacingMark && rangeFromGraphemeClass[7] == L && rangeFromGraphemeClass[8] == V && rangeFromGraphemeClass[9] == T
  ensures [slots3] rangeFromGraphemeClass[10] == LV && rangeFromGraphemeClass[11] == LVT && rangeFromGraphemeClass[12] == ZWJ

// ---- the grapheme breaker ---------------------------------------------------------
// Rules are small automata: what each step accepts, aborts or waits for, and which penalties it leaves.
def accepts1(next, rec, len0, p) = next == nil && rec.MatchLen == len0 + 1 && len(rec.penalties) == 2 && rec.penalties[0] == 0 && rec.penalties[1] == p
def aborts(next, rec) = next == nil && rec.MatchLen == 0
def waits(next, rec, len0) = rec.MatchLen == len0 + 1

func rule_NewLine -> next
  prop C09
  requires rec != nil
  modifies rec.MatchLen, rec.penalties
  ensures [LF] cpClass == 1 ==> next == nil && rec.MatchLen == old(rec.MatchLen) + 1 && len(rec.penalties) == 2 && rec.penalties[0] == GlueBANG && rec.penalties[1] == GlueBANG
  ensures [CR] cpClass == 0 ==> next == rule_CRLF && waits(next, rec, old(rec.MatchLen))
  ensures [other] cpClass != 0 && cpClass != 1 ==> aborts(next, rec)

func rule_CRLF -> next
  prop C09
  requires rec != nil
  modifies rec.MatchLen, rec.penalties
  ensures [done] next == nil && rec.MatchLen == old(rec.MatchLen) + 1
  ensures [LF] cpClass == 1 ==> len(rec.penalties) == 2 && rec.penalties[0] == GlueBANG && rec.penalties[1] == 3 * GlueJOIN
  ensures [other] cpClass != 1 ==> len(rec.penalties) == 3 && rec.penalties[0] == 0 && rec.penalties[1] == GlueBANG && rec.penalties[2] == GlueBANG

func rule_Control -> next
  prop C09
  requires rec != nil
  modifies rec.MatchLen, rec.penalties
  ensures next == nil && rec.MatchLen == old(rec.MatchLen) + 1 && len(rec.penalties) == 2 && rec.penalties[0] == GlueBANG && rec.penalties[1] == GlueBANG

func rule_GB6 -> next
  prop C09
  requires rec != nil
  modifies rec.MatchLen
  ensures next == rule_GB6_L_V_LV_LVT && waits(next, rec, old(rec.MatchLen))
func rule_GB6_L_V_LV_LVT -> next
  prop C09
  requires rec != nil
  modifies rec.MatchLen, rec.penalties
  ensures [join] cpClass == 7 || cpClass == 8 || cpClass == 10 || cpClass == 11 ==> accepts1(next, rec, old(rec.MatchLen), GlueJOIN)
  ensures [other] !(cpClass == 7 || cpClass == 8 || cpClass == 10 || cpClass == 11) ==> aborts(next, rec)
func rule_GB7 -> next
  prop C09
  requires rec != nil
  modifies rec.MatchLen
  ensures next == rule_GB7_V_T && waits(next, rec, old(rec.MatchLen))
func rule_GB7_V_T -> next
  prop C09
  requires rec != nil
  modifies rec.MatchLen, rec.penalties
  ensures [join] cpClass == 8 || cpClass == 9 ==> accepts1(next, rec, old(rec.MatchLen), GlueJOIN)
  ensures [other] !(cpClass == 8 || cpClass == 9) ==> aborts(next, rec)
func rule_GB8 -> next
  prop C09
  requires rec != nil
  modifies rec.MatchLen
  ensures next == rule_GB8_T && waits(next, rec, old(rec.MatchLen))
func rule_GB8_T -> next
  prop C09
  requires rec != nil
  modifies rec.MatchLen, rec.penalties
  ensures [join] cpClass == 9 ==> accepts1(next, rec, old(rec.MatchLen), GlueJOIN)
  ensures [other] cpClass != 9 ==> aborts(next, rec)
func rule_GB9 -> next
  prop C09
  requires rec != nil
  modifies rec.MatchLen, rec.penalties
  ensures accepts1(next, rec, old(rec.MatchLen), GlueJOIN)
func rule_GB9a -> next
  prop C09
  requires rec != nil
  modifies rec.MatchLen, rec.penalties
  ensures accepts1(next, rec, old(rec.MatchLen), GlueJOIN)
func rule_GB9b -> next
  prop C09
  requires rec != nil
  modifies rec.MatchLen
  ensures next == rule_GB9b_Cont && waits(next, rec, old(rec.MatchLen))
func rule_GB9b_Cont -> next
  prop C09
  requires rec != nil
  modifies rec.MatchLen, rec.penalties
  ensures [join] cpClass != 0 && cpClass != 1 && cpClass != 3 && cpClass != 1001 ==> accepts1(next, rec, old(rec.MatchLen), GlueJOIN)
  ensures [other] cpClass == 0 || cpClass == 1 || cpClass == 3 || cpClass == 1001 ==> aborts(next, rec)
func rule_GB11 -> next
  prop C09
  requires rec != nil
  modifies rec.MatchLen
  ensures next == rule_GB11Cont
func rule_GB11Cont -> next
  prop C09
  requires rec != nil
  modifies rec.MatchLen
  ensures [ZWJ] cpClass == 12 ==> next == rule_GB11Finish && waits(next, rec, old(rec.MatchLen))
  ensures [Extend] cpClass == 4 ==> next == rule_GB11Cont && waits(next, rec, old(rec.MatchLen))
  ensures [other] cpClass != 4 && cpClass != 12 ==> aborts(next, rec)
func rule_GB11Finish -> next
  prop C09
  requires rec != nil
  modifies rec.MatchLen, rec.penalties
  ensures [join] cpClass == 13 ==> accepts1(next, rec, old(rec.MatchLen), GlueJOIN)
  ensures [other] cpClass != 13 ==> aborts(next, rec)

def owner(rec) = as(val(rec.UserData), "*Breaker")
def hasOwner(rec) = typeis(rec.UserData, "*Breaker") && val(rec.UserData) > 0 && owner(rec).blocked != nil
func (*Breaker).block
  prop C09
  requires gb.blocked != nil
  modifies map(gb.blocked)
  ensures gb.blocked[c] && (forall k int :: k != c ==> gb.blocked[k] == old(gb.blocked[k]))
func (*Breaker).unblock
  prop C09
  requires gb.blocked != nil
  modifies map(gb.blocked)
  ensures !gb.blocked[c] && (forall k int :: k != c ==> gb.blocked[k] == old(gb.blocked[k]))
func rule_GB12 -> next
  prop C09
  requires rec != nil && hasOwner(rec)
  modifies rec.MatchLen, map(owner(rec).blocked)
  ensures next == rule_GB12Cont && owner(rec).blocked[5]
func rule_GB12Cont -> next
  prop C09
  requires rec != nil && hasOwner(rec)
  modifies rec.MatchLen, rec.penalties, map(owner(rec).blocked)
  ensures [join] cpClass == 5 ==> accepts1(next, rec, old(rec.MatchLen), GlueJOIN)
  ensures [other] cpClass != 5 ==> aborts(next, rec)
  ensures [unblocked] !owner(rec).blocked[5]

func setPenalty1
  prop C09
  requires gb != nil && off(gb.penalties) == 0
  modifies gb.penalties, elems(gb.penalties)
  ensures [length] len(gb.penalties) == (old(len(gb.penalties)) < 2 ? 2 : old(len(gb.penalties)))
  ensures [default] gb.penalties[1] == (old(len(gb.penalties) < 2) || old(gb.penalties[1]) == 0 ? p : old(gb.penalties[1]))
  ensures [first] gb.penalties[0] == (old(len(gb.penalties)) == 0 ? 0 : old(gb.penalties[0]))
  ensures [rest] forall i int :: 2 <= i && i < len(gb.penalties) ==> gb.penalties[i] == old(gb.penalties[i])

func (*Breaker).LongestActiveMatch -> n
  prop C09
  modifies nothing
  ensures n == (gb.longestMatch > 1 ? gb.longestMatch : 1)
func (*Breaker).Penalties -> ps
  prop C09
  modifies nothing
  ensures arr(ps) == arr(gb.penalties) && off(ps) == off(gb.penalties) && len(ps) == len(gb.penalties)

def rule1(gb, c, f) = len(gb.rules[c]) == 1 && gb.rules[c][0] == f
func NewBreaker -> gb
  prop C09
  modifies nothing
  ensures [rules] rule1(gb, 0, rule_NewLine) && rule1(gb, 1, rule_NewLine) && rule1(gb, 3, rule_Control) && rule1(gb, 7, rule_GB6) && rule1(gb, 8, rule_GB7) && rule1(gb, 10, rule_GB7)
  ensures [rules2] rule1(gb, 11, rule_GB8) && rule1(gb, 9, rule_GB8) && rule1(gb, 4, rule_GB9) && rule1(gb, 12, rule_GB9) && rule1(gb, 6, rule_GB9a) && rule1(gb, 2, rule_GB9b) && rule1(gb, 13, rule_GB11) && rule1(gb, 5, rule_GB12)
  ensures [no-rules] len(gb.rules[999]) == 0 && len(gb.rules[1001]) == 0
  ensures [unblocked] gb.blocked != nil && !gb.blocked[5] && len(gb.penalties) == 0

func (*Breaker).ProceedWithRune
  prop C09
  requires gb != nil && tag(gb.publisher) > 0
  modifies gb.longestMatch, gb.penalties, all([]int), all(uax.Recognizer), ghost plong, ghost plen, ghost ppen, ghost pubr, ghost pubc, ghost npub
  ensures [published] npub == old(npub) + 1 && pubr == r && pubc == cpClass && gb.longestMatch == plong
  ensures [length] len(gb.penalties) == (plen < 2 ? 2 : plen)
  ensures [first] gb.penalties[0] == (plen > 0 ? ppen[0] : 0)
  ensures [default] gb.penalties[1] == (plen > 1 && ppen[1] != 0 ? ppen[1] : 0 - 10)
  ensures [rest] forall j int :: 2 <= j && j < plen ==> gb.penalties[j] == ppen[j]

def recAt(k) = as(sublog[k], "*uax.Recognizer")
func (*Breaker).StartRulesFor
  prop C09
  requires gb != nil && tag(gb.publisher) > 0 && poolClean() && uax.globalRecognizerPool != nil
  modifies all(uax.Recognizer), ghost inpool, ghost nsub, ghost sublog
  ensures [blocked] gb.blocked[cpClass] ==> nsub == old(nsub)
  ensures [started] !gb.blocked[cpClass] ==> nsub == old(nsub) + len(gb.rules[cpClass])
  ensures [rules] forall k int {sublog[k]} :: old(nsub) <= k && k < nsub ==> recAt(k).nextStep == gb.rules[cpClass][k - old(nsub)] && recAt(k).MatchLen == 0 && typeis(recAt(k).UserData, "*Breaker") && val(recAt(k).UserData) == ref(gb)
  loop 0
    invariant [range] 0 <= $i && $i <= len(gb.rules[cpClass]) && nsub == old(nsub) + $i && poolClean()
    invariant [rules] forall k int {sublog[k]} :: old(nsub) <= k && k < nsub ==> recAt(k).nextStep == gb.rules[cpClass][k - old(nsub)] && recAt(k).MatchLen == 0 && typeis(recAt(k).UserData, "*Breaker") && val(recAt(k).UserData) == ref(gb) && !inpool[sublog[k]] && isalloc(sublog[k])
    decreases len(gb.rules[cpClass]) - $i

// ---- composition: the penalties of all rules together mark exactly the boundaries of UAX#29 ------------------
// Classes: 0 CR, 1 LF, 2 Prepend, 3 Control, 4 Extend, 5 Regional_Indicator, 6 SpacingMark, 7 L, 8 V, 9 T, 10 LV, 11 LVT,
// 12 ZWJ, 13 Extended_Pictographic, 999 any other, 1001 end of text.
// Boundary between a character of class a and one of class b; z is the class before a, n the class after b (1001 at the end);
// ri: an odd number of regional indicators ends at a; em: Extended_Pictographic Extend* ZWJ ends at a.
def ctl(c) = c == 0 || c == 1 || c == 3
def gbjoin(a, b, ri, em) = a == 0 && b == 1 || !ctl(a) && !ctl(b) && (
|     a == 7 && (b == 7 || b == 8 || b == 10 || b == 11)
|  || (a == 10 || a == 8) && (b == 8 || b == 9)
|  || (a == 11 || a == 9) && b == 9
|  || b == 4 || b == 12 || b == 6 || a == 2
|  || em && b == 13 || ri && b == 5)
// What the recognizers of the rules leave for this boundary (see the contracts of the rule functions): at the event of a,
// with the event of b, with the event of the character after b. An untouched boundary gets the default penalty -10.
def pAfter(z, a) = (a == 1 ? GlueBANG : 0) + (z == 0 && a == 1 ? GlueBANG : 0) + (a == 3 ? GlueBANG : 0)
def pAt(a, b, ri, em) = (b == 1 ? GlueBANG : 0) + (b == 3 ? GlueBANG : 0) + (a == 0 ? (b == 1 ? 3 * GlueJOIN : GlueBANG) : 0)
|  + (a == 7 && (b == 7 || b == 8 || b == 10 || b == 11) ? GlueJOIN : 0) + ((a == 10 || a == 8) && (b == 8 || b == 9) ? GlueJOIN : 0)
|  + ((a == 11 || a == 9) && b == 9 ? GlueJOIN : 0) + (b == 4 || b == 12 ? GlueJOIN : 0) + (b == 6 ? GlueJOIN : 0)
|  + (a == 2 && !(ctl(b) || b == 1001) ? GlueJOIN : 0) + (em && b == 13 ? GlueJOIN : 0) + (ri && b == 5 ? GlueJOIN : 0)
def pBefore(b, n) = b == 0 && n != 1 ? GlueBANG : 0
def total(z, a, b, n, ri, em) = pAfter(z, a) + (pAt(a, b, ri, em) == 0 ? penalty999 : pAt(a, b, ri, em)) + pBefore(b, n)
lemma grapheme_boundaries(z int, a int, b int, n int, ri bool, em bool)
  prop C09
  requires 0 <= a && (a <= 13 || a == 999) && 0 <= b && (b <= 13 || b == 999) && (ri ==> a == 5) && (em ==> a == 12)
  ensures total(z, a, b, n, ri, em) != 0
  ensures total(z, a, b, n, ri, em) < uax.InfinitePenalty <==> !gbjoin(a, b, ri, em)

// ---- grapheme strings -----------------------------------------------------------------
def wfcuts(g) = (forall i int {g.breaks[i]} :: 0 <= i && i < len(g.breaks) ==> 0 <= g.breaks[i] && g.breaks[i] <= len(g.content)) && (forall i int {g.breaks[i]} :: 0 <= i && i < len(g.breaks) - 1 ==> g.breaks[i] < g.breaks[i + 1])
func (*shortString).Len -> n
  prop C12
  modifies nothing
  ensures n == (len(gstr.breaks) < 2 ? 0 : len(gstr.breaks) - 1)

func (*midString).Len -> n
  prop C12
  modifies nothing
  ensures n == (len(gstr.breaks) < 2 ? 0 : len(gstr.breaks) - 1)

func (*shortString).String -> s
  prop C12
  modifies nothing
  ensures s == gstr.content

func (*midString).String -> s
  prop C12
  modifies nothing
  ensures s == gstr.content

func max -> m
  prop C12
  modifies nothing
  ensures m == (a > b ? a : b)

func (*shortString).Nth -> r
  prop C12
  requires wfcuts(gstr)
  panics n < 0 || n > (len(gstr.breaks) < 2 ? 0 : len(gstr.breaks) - 2)
  modifies nothing
  ensures [none] len(gstr.breaks) < 2 ==> len(r) == 0
  ensures [nth] len(gstr.breaks) >= 2 ==> arr(r) == arr(gstr.content) && off(r) == off(gstr.content) + gstr.breaks[n] && len(r) == gstr.breaks[n + 1] - gstr.breaks[n]

func (*midString).Nth -> r
  prop C12
  requires wfcuts(gstr)
  panics n < 0 || n > (len(gstr.breaks) < 2 ? 0 : len(gstr.breaks) - 2)
  modifies nothing
  ensures [none] len(gstr.breaks) < 2 ==> len(r) == 0
  ensures [nth] len(gstr.breaks) >= 2 ==> arr(r) == arr(gstr.content) && off(r) == off(gstr.content) + gstr.breaks[n] && len(r) == gstr.breaks[n + 1] - gstr.breaks[n]

// the reader hands out the characters of the string one by one, up to its end or the first ill-formed byte
func (*rr).ReadRune -> r, n, err
  prop C12
  modifies reader.input
  ensures [stop] old(len(reader.input)) == 0 || !old(legalAt(reader.input, 0)) ==> err == io.EOF && len(reader.input) == old(len(reader.input)) && off(reader.input) == old(off(reader.input))
  ensures [next] old(len(reader.input)) > 0 && old(legalAt(reader.input, 0)) ==> tag(err) == 0 && r == old(decrune(reader.input, 0)) && n == old(decwidth(reader.input, 0)) && off(reader.input) == old(off(reader.input)) + n && len(reader.input) == old(len(reader.input)) - n
  ensures [same] arr(reader.input) == old(arr(reader.input))


// no penalties before anything has been read
def silent() = noFuture() && noFuture1()
func makeGraphemeBreaker -> s
  prop C12
  modifies nothing
  ensures [new] s != nil && fresh(s) && tag(s.reader) == 0 && tag(s.err) == 0 && zeroState(s) && s.deque == nil && s.runesBuf.maxSegLen == 0 && arr(s.runesBuf.output) == 0
  ensures [breaker] off(s.breakers) == 0 && len(s.breakers) == 1 && typeis(s.breakers[0], "*Breaker")
  admits len(s.breakers) > 0 ==> val(s.breakers[0]) == prim

// where(s, start, v): the reader with number v stands for the well-formed part of s from start on
def stands(s, start, v) = nread[v] == 0 && standsFor(s, start, v)
def standsFor(s, start, v) = eofonly(v) && rlen(v) <= len(s) && start + rpos(v, rlen(v)) <= len(s)
|  && (start + rpos(v, rlen(v)) == len(s) || !legalAt(s, start + rpos(v, rlen(v))))
|  && (forall i int, j int {rpos(v, i), rpos(v, j)} :: 0 <= i && i < j && j <= rlen(v) ==> rpos(v, i) < rpos(v, j))
func prepareBreaking -> b, start
  prop C12
  assumes errVars() && silent()
  modifies nothing
  ensures [none] b == nil ==> start == 0 && (forall i int :: 0 <= i && i < len(s) ==> !legalAt(s, i))
  ensures [first] b != nil ==> 0 <= start && start < len(s) && legalAt(s, start) && (forall i int :: 0 <= i && i < start ==> !legalAt(s, i))
  ensures [ready] b != nil ==> fresh(b) && tag(b.reader) > 0 && typeis(b.reader, "*rr") && inv(b) && errInv(b) && !stopped(b) && tag(b.err) == 0 && dpos(b) == nread[rd(b)]
  ensures [owned] b != nil ==> fresh(b.deque) && (arr(b.deque.buf) == 0 || fresh(b.deque.buf)) && (arr(b.runesBuf.output) == 0 || fresh(b.runesBuf.output))
  ensures [buffer] b != nil ==> !b.runesBuf.isBacked && limit(b.runesBuf) == 65536
  ensures [text] b != nil ==> arr(as(val(b.reader), "*rr").input) == arr(s) && off(as(val(b.reader), "*rr").input) == off(s) + start && len(as(val(b.reader), "*rr").input) == len(s) - start
  admits b != nil ==> stands(s, start, rd(b))

func makeShortString -> g
  prop C12
  timeout 20
  assumes errVars() && silent()
  requires len(s) < 255
  modifies ghost hist, ghost nread, ghost nev, ghost rerrt, ghost rerrv, ghost pen0, ghost pen1
  ensures [type] typeis(g, "*shortString") && as(val(g), "*shortString") != nil && arr(as(val(g), "*shortString").content) == arr(s) && off(as(val(g), "*shortString").content) == off(s) && len(as(val(g), "*shortString").content) == len(s)
  ensures [cuts] wfcuts(as(val(g), "*shortString"))
  ensures [none] (forall i int :: 0 <= i && i < len(s) ==> !legalAt(s, i)) ==> len(as(val(g), "*shortString").breaks) == 0
  ensures [first] len(as(val(g), "*shortString").breaks) > 0 ==> legalAt(s, as(val(g), "*shortString").breaks[0]) && (forall i int :: 0 <= i && i < as(val(g), "*shortString").breaks[0] ==> !legalAt(s, i))
  ensures [last] len(as(val(g), "*shortString").breaks) > 0 ==> as(val(g), "*shortString").breaks[len(as(val(g), "*shortString").breaks) - 1] == len(s) || !legalAt(s, as(val(g), "*shortString").breaks[len(as(val(g), "*shortString").breaks) - 1])
  hint breaker
  hint breaker.deque
  hint breaker.deque.buf
  hint atloop(breaker.deque.buf)
  hint breaker.runesBuf.output
  hint atloop(breaker.runesBuf.output)
  hint gstr.breaks
  hint atloop(gstr.breaks)
  hint gstr
  loop 0
    invariant [reader] breaker != nil && tag(breaker.reader) > 0 && breaker.reader == atloop(breaker.reader)
    invariant [inv] inv(breaker)
    invariant [errors] errInv(breaker) && !stopped(breaker)
    invariant [buffer] !breaker.runesBuf.isBacked && limit(breaker.runesBuf) == 65536
    invariant [text] standsFor(s, gstr.breaks[0], rd(breaker))
    invariant [position] br == gstr.breaks[0] + rpos(rd(breaker), dpos(breaker)) && 0 <= dpos(breaker)
    invariant [cuts] wfcuts(gstr) && len(gstr.breaks) > 0 && gstr.breaks[len(gstr.breaks) - 1] == br
    invariant [first] legalAt(s, gstr.breaks[0]) && (forall i int :: 0 <= i && i < gstr.breaks[0] ==> !legalAt(s, i))
    invariant [content] arr(gstr.content) == arr(s) && off(gstr.content) == off(s) && len(gstr.content) == len(s)
    invariant [heap] breaker == atloop(breaker) && gstr == atloop(gstr)
    invariant [storage] fresh(gstr.breaks) && (arr(gstr.breaks) == atloop(arr(gstr.breaks)) || loopfresh(gstr.breaks)) && breaker.deque == atloop(breaker.deque)
    invariant [owned] (arr(breaker.deque.buf) == atloop(arr(breaker.deque.buf)) || loopfresh(breaker.deque.buf)) && (arr(breaker.runesBuf.output) == atloop(arr(breaker.runesBuf.output)) || loopfresh(breaker.runesBuf.output))
    decreases rlen(rd(breaker)) - dpos(breaker)

func makeMidString -> g
  prop C12
  timeout 20
  assumes errVars() && silent()
  requires 4 <= len(s) && len(s) < 65535
  modifies ghost hist, ghost nread, ghost nev, ghost rerrt, ghost rerrv, ghost pen0, ghost pen1
  ensures [type] typeis(g, "*midString") && as(val(g), "*midString") != nil && arr(as(val(g), "*midString").content) == arr(s) && off(as(val(g), "*midString").content) == off(s) && len(as(val(g), "*midString").content) == len(s)
  ensures [cuts] wfcuts(as(val(g), "*midString"))
  ensures [none] (forall i int :: 0 <= i && i < len(s) ==> !legalAt(s, i)) ==> len(as(val(g), "*midString").breaks) == 0
  ensures [first] len(as(val(g), "*midString").breaks) > 0 ==> legalAt(s, as(val(g), "*midString").breaks[0]) && (forall i int :: 0 <= i && i < as(val(g), "*midString").breaks[0] ==> !legalAt(s, i))
  ensures [last] len(as(val(g), "*midString").breaks) > 0 ==> as(val(g), "*midString").breaks[len(as(val(g), "*midString").breaks) - 1] == len(s) || !legalAt(s, as(val(g), "*midString").breaks[len(as(val(g), "*midString").breaks) - 1])
  hint breaker
  hint breaker.deque
  hint breaker.deque.buf
  hint atloop(breaker.deque.buf)
  hint breaker.runesBuf.output
  hint atloop(breaker.runesBuf.output)
  hint gstr.breaks
  hint atloop(gstr.breaks)
  hint gstr
  loop 0
    invariant [reader] breaker != nil && tag(breaker.reader) > 0 && breaker.reader == atloop(breaker.reader)
    invariant [inv] inv(breaker)
    invariant [errors] errInv(breaker) && !stopped(breaker)
    invariant [buffer] !breaker.runesBuf.isBacked && limit(breaker.runesBuf) == 65536
    invariant [text] standsFor(s, gstr.breaks[0], rd(breaker))
    invariant [position] br == gstr.breaks[0] + rpos(rd(breaker), dpos(breaker)) && 0 <= dpos(breaker)
    invariant [cuts] wfcuts(gstr) && len(gstr.breaks) > 0 && gstr.breaks[len(gstr.breaks) - 1] == br
    invariant [first] legalAt(s, gstr.breaks[0]) && (forall i int :: 0 <= i && i < gstr.breaks[0] ==> !legalAt(s, i))
    invariant [content] arr(gstr.content) == arr(s) && off(gstr.content) == off(s) && len(gstr.content) == len(s)
    invariant [heap] breaker == atloop(breaker) && gstr == atloop(gstr)
    invariant [storage] fresh(gstr.breaks) && (arr(gstr.breaks) == atloop(arr(gstr.breaks)) || loopfresh(gstr.breaks)) && breaker.deque == atloop(breaker.deque)
    invariant [owned] (arr(breaker.deque.buf) == atloop(arr(breaker.deque.buf)) || loopfresh(breaker.deque.buf)) && (arr(breaker.runesBuf.output) == atloop(arr(breaker.runesBuf.output)) || loopfresh(breaker.runesBuf.output))
    decreases rlen(rd(breaker)) - dpos(breaker)

// sync.Once runs setupGraphemeClasses (verified above) at most once
func SetupGraphemeClasses
  prop C12
  trusted
  modifies CR, LF, Prepend, Control, Extend, Regional_Indicator, SpacingMark, L, V, T, LV, LVT, ZWJ, rangeFromGraphemeClass

// the representation is chosen by the size of the text; a text too long is refused
func StringFromString -> g
  prop C12
  assumes errVars() && silent()
  panics len(s) >= 65535
  modifies CR, LF, Prepend, Control, Extend, Regional_Indicator, SpacingMark, L, V, T, LV, LVT, ZWJ, rangeFromGraphemeClass, ghost hist, ghost nread, ghost nev, ghost rerrt, ghost rerrv, ghost pen0, ghost pen1
  ensures [short] len(s) < 255 ==> typeis(g, "*shortString") && wfcuts(as(val(g), "*shortString")) && len(as(val(g), "*shortString").content) == len(s)
  ensures [mid] len(s) >= 255 ==> typeis(g, "*midString") && wfcuts(as(val(g), "*midString")) && len(as(val(g), "*midString").content) == len(s)

func StringFromBytes -> g
  prop C12
  assumes errVars() && silent()
  panics len(b) >= 65535
  modifies CR, LF, Prepend, Control, Extend, Regional_Indicator, SpacingMark, L, V, T, LV, LVT, ZWJ, rangeFromGraphemeClass, ghost hist, ghost nread, ghost nev, ghost rerrt, ghost rerrv, ghost pen0, ghost pen1
  ensures [short] len(b) < 255 ==> typeis(g, "*shortString") && wfcuts(as(val(g), "*shortString")) && len(as(val(g), "*shortString").content) == len(b)
  ensures [mid] len(b) >= 255 ==> typeis(g, "*midString") && wfcuts(as(val(g), "*midString")) && len(as(val(g), "*midString").content) == len(b)
