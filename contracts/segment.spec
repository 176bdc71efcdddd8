package segment
// ---- segmenter ----------------------------------------------------------------
// The text a reader delivers: rtext(v, i) is the i-th character, rlen(v) their number (v identifies the reader).
logic rtext(v int, i int) int
logic rlen(v int) int
// eofonly(v): the reader fails with nothing but io.EOF
logic eofonly(v int) bool
axiom text_length: forall v int {rlen(v)} :: 0 <= rlen(v) && rlen(v) <= 1152921504606846976
// Ghost state: characters delivered so far, by reader; number of atoms (characters and end marks) read overall; penalties
// accumulated over all reports of the primary breaker (the others), by atom; the primary breaker.
ghost nread arr
ghost nev int
ghost pen0 arr
ghost pen1 arr
ghost prim int
ghost rerrt int
ghost hist arr
ghost rerrv int

// white space, and the classes of the simple word breaker
logic isspace(r int) bool
axiom nul_is_no_space: !isspace(0)
extern unicode.IsSpace(r) -> b
  ensures b <==> isspace(r)
def cls(r) = isspace(r) ? 0 : r == 0 ? 2 : 1
def edge(r, q) = cls(r) == cls(q) ? 0 : cls(r) == 0 ? 0 - 100 : 100

extern io.RuneReader.ReadRune(self) -> r, n, err
  modifies ghost hist, ghost nread, ghost nev, ghost rerrt, ghost rerrv
  ensures rerrt == tag(err) && rerrv == val(err) && err != ErrBoundReached
  ensures forall v int {nread[v]} :: v != val(self) ==> nread[v] == old(nread)[v]
  ensures tag(err) == 0 ==> old(nread)[val(self)] < rlen(val(self)) && r == rtext(val(self), old(nread)[val(self)]) && nread[val(self)] == old(nread)[val(self)] + 1 && nev == old(nev) + 1
  ensures tag(err) != 0 ==> nread[val(self)] == old(nread)[val(self)]
  ensures tag(err) != 0 ==> nev == old(nev) + (err == io.EOF ? 1 : 0)
  ensures err == io.EOF ==> nread[val(self)] == rlen(val(self))
  ensures forall j int {hist[j]} :: j != old(nev) ==> hist[j] == old(hist)[j]
  ensures eofonly(val(self)) && tag(err) != 0 ==> err == io.EOF
  ensures tag(err) == 0 ==> hist[old(nev)] == r
  ensures err == io.EOF ==> hist[old(nev)] == 0

def poss(p, zero) = p < 10000 && (p != 0 || zero)

func isPossibleBreak -> b
  prop C02 C08
  modifies nothing
  ensures b <==> poss(p, breakOnZero)

func (*Segmenter).setErr
  prop C03
  modifies s.err
  ensures [first] old(tag(s.err) != 0 && s.err != io.EOF) ==> s.err == old(s.err)
  ensures [new] old(tag(s.err) == 0 || s.err == io.EOF) ==> s.err == err

func (*Segmenter).Err -> e
  prop C03
  modifies nothing
  ensures s.err == io.EOF ==> tag(e) == 0
  ensures s.err != io.EOF ==> e == s.err

func (*Segmenter).boundDistance -> d
  prop C04
  requires s.deque != nil && wfq(s.deque) && s.deque.count <= s.pos && s.pos <= 2305843009213693952 && 0 - 2305843009213693952 <= bound
  modifies nothing
  ensures bound < 9223372036854775807 ==> d == bound - (s.pos - s.deque.count)
  ensures bound == 9223372036854775807 ==> d == bound

def q0(s, i) = s.deque.buf[idx(s.deque, i)].penalty0
def q1(s, i) = s.deque.buf[idx(s.deque, i)].penalty1
def qr(s, i) = s.deque.buf[idx(s.deque, i)].r
def feasible(s, i) = poss(q0(s, i), s.breakOnZero[0]) || len(s.breakers) > 1 && poss(q1(s, i), s.breakOnZero[1])

func (*Segmenter).findBreakOpportunity -> k
  prop C02 C08
  requires s.deque != nil && wfq(s.deque) && to <= s.deque.count
  modifies nothing
  ensures [range] -1 <= k && (k >= 0 ==> k < to && k <= boundDist)
  ensures [first] forall j int :: 0 <= j && j < k ==> !feasible(s, j)
  ensures [why] k >= 0 ==> feasible(s, k) || k == boundDist || s.atEOF && k == to - 1
  ensures [none] k < 0 ==> to <= 0 || boundDist < 0 || !s.atEOF && to <= boundDist && (forall j int :: 0 <= j && j < to ==> !feasible(s, j))
  loop 0
    invariant 0 <= i && i <= to && i <= boundDist + 1 && breakopp == -1
    invariant forall j int :: 0 <= j && j < i ==> !feasible(s, j)
    decreases to - i

// reported(ps, n, i): what list ps (newest first, excess dropped) contributes to item i of a queue of n
def reported(ps, n, i) = n - 1 - i < len(ps) ? ps[n - 1 - i] : 0
func (*Segmenter).insertPenalties
  prop C02 C08
  requires off(penalties) == 0 || off(penalties) > 0
  requires s.deque != nil && wfq(s.deque)
  modifies elems(s.deque.buf)
  ensures [wf] wfq(s.deque)
  ensures [runes] forall i int :: 0 <= i && i < s.deque.count ==> qr(s, i) == old(qr(s, i))
  ensures [primary] forall i int :: 0 <= i && i < s.deque.count ==> q0(s, i) == (selector == 0 ? wraps(old(q0(s, i)) + reported(penalties, s.deque.count, i), "int") : old(q0(s, i)))
  ensures [secondary] forall i int :: 0 <= i && i < s.deque.count ==> q1(s, i) == (selector == 0 ? old(q1(s, i)) : wraps(old(q1(s, i)) + reported(penalties, s.deque.count, i), "int"))
  loop 0
    invariant [range] 0 <= $i && $i <= len(penalties) && $i <= s.deque.count
    invariant [runes] forall i int :: 0 <= i && i < s.deque.count ==> qr(s, i) == old(qr(s, i))
    invariant [done0] forall i int :: 0 <= i && i < s.deque.count ==> q0(s, i) == (selector == 0 && s.deque.count - 1 - i < $i ? wraps(old(q0(s, i)) + reported(penalties, s.deque.count, i), "int") : old(q0(s, i)))
    invariant [done1] forall i int :: 0 <= i && i < s.deque.count ==> q1(s, i) == (selector != 0 && s.deque.count - 1 - i < $i ? wraps(old(q1(s, i)) + reported(penalties, s.deque.count, i), "int") : old(q1(s, i)))
    decreases len(penalties) - $i

// ---- output buffer: either a copy of the segment's characters, or a window of the slice given as input
def outlen(rw) = rw.isBacked ? rw.end - rw.start : len(rw.output)
def outat(rw, i) = rw.isBacked ? rw.backing[rw.start + i] : rw.output[i]
def limit(rw) = cap(rw.output) < rw.maxSegLen ? rw.maxSegLen : cap(rw.output)
def wfout(rw) = rw.maxSegLen <= 1152921504606846976 && (rw.isBacked ==> 0 <= rw.start && rw.start <= rw.end && rw.end <= len(rw.backing))

func (*runewrite).WriteRune -> n, err
  prop C01 C03
  requires wfout(rw) && (rw.isBacked ==> rw.end < len(rw.backing) && rw.backing[rw.end] == r)
  modifies rw.output, rw.end, elems(rw.output)
  ensures [ok] !(old(!rw.isBacked && len(rw.output) >= limit(rw))) ==> tag(err) == 0 && n == 1 && outlen(rw) == old(outlen(rw)) + 1 && outat(rw, outlen(rw) - 1) == r
  ensures [rest] forall i int :: 0 <= i && i < old(outlen(rw)) ==> outat(rw, i) == old(outat(rw, i))
  ensures [full] old(!rw.isBacked && len(rw.output) >= limit(rw)) ==> err == ErrTooLong && outlen(rw) == old(outlen(rw))
  ensures [limit] limit(rw) == old(limit(rw))
  ensures [window] rw.isBacked ==> (forall i int :: 0 <= i && i < len(rw.backing) ==> rw.backing[i] == old(rw.backing[i]))
  ensures [storage] arr(rw.output) == old(arr(rw.output)) || fresh(rw.output)
  ensures [mode] wfout(rw)

func (runewrite).Runes -> rs
  prop C01
  requires wfout(rw)
  modifies nothing
  ensures len(rs) == outlen(rw)
  ensures forall i int :: 0 <= i && i < len(rs) ==> rs[i] == outat(rw, i)

func (runewrite).SetMark -> w
  prop C01
  requires wfout(rw)
  modifies nothing
  ensures [empty] wfout(w) && outlen(w) == 0
  ensures [mode] w.isBacked == rw.isBacked && w.end == rw.end && (rw.isBacked ==> w.start == rw.end) && arr(w.backing) == arr(rw.backing) && off(w.backing) == off(rw.backing) && len(w.backing) == len(rw.backing)
  ensures [storage] arr(w.output) == arr(rw.output) && off(w.output) == off(rw.output) && cap(w.output) == cap(rw.output) && w.maxSegLen == rw.maxSegLen

func (runewrite).Reset -> w
  prop C01 C03
  requires rw.maxSegLen <= 1152921504606846976
  modifies nothing
  ensures [empty] wfout(w) && outlen(w) == 0 && w.start == 0 && w.end == 0
  ensures [mode] w.isBacked <==> arr(backingBuf) != 0
  ensures [storage] arr(w.output) == arr(rw.output) || fresh(w.output)
  ensures [backing] arr(backingBuf) != 0 ==> arr(w.backing) == arr(backingBuf) && off(w.backing) == off(backingBuf) && len(w.backing) == len(backingBuf)
  ensures [limit] w.maxSegLen == (rw.maxSegLen == 0 ? 65536 : rw.maxSegLen) && (arr(rw.output) != 0 ==> cap(w.output) == cap(rw.output) && arr(w.output) == arr(rw.output)) && (arr(rw.output) == 0 && arr(backingBuf) == 0 ==> cap(w.output) == 4096)

func (*runeread).ReadRune -> r, n, err
  prop C01
  requires 0 <= rr.pos && rr.pos <= len(rr.runes)
  modifies rr.pos
  ensures old(rr.pos) < len(rr.runes) ==> tag(err) == 0 && r == rr.runes[old(rr.pos)] && rr.pos == old(rr.pos) + 1
  ensures old(rr.pos) >= len(rr.runes) ==> err == io.EOF && rr.pos == old(rr.pos)

// ---- the segmenter: what is in the queue is the part of the text which was read, but not delivered yet
def rd(s) = val(s.reader)
def qn(s) = s.atEOF && s.deque.count > 0 ? s.deque.count - 1 : s.deque.count
def dpos(s) = nread[rd(s)] - qn(s)
def ahead(s) = s.pos - s.deque.count
def textQ(s) = forall i int :: 0 <= i && i < qn(s) ==> qr(s, i) == rtext(rd(s), dpos(s) + i)
def pens0Q(s) = forall i int :: 0 <= i && i < qn(s) ==> q0(s, i) == pen0[nev - s.deque.count + i]
def pens1Q(s) = forall i int :: 0 <= i && i < qn(s) ==> q1(s, i) == pen1[nev - s.deque.count + i]
def pensQ(s) = pens0Q(s) && pens1Q(s)
def noFuture() = forall j int {pen0[j]} :: j >= nev ==> pen0[j] == 0
def noFuture1() = forall j int {pen1[j]} :: j >= nev ==> pen1[j] == 0
def brkOk(s) = off(s.breakers) == 0 && (len(s.breakers) > 0 ==> val(s.breakers[0]) == prim) && (forall i int :: 0 <= i && i < len(s.breakers) ==> tag(s.breakers[i]) > 0 && (i > 0 ==> val(s.breakers[i]) != prim))
def queueCore(s) = s.deque != nil && wfq(s.deque) && tag(s.reader) > 0 && 0 <= nread[rd(s)] && nread[rd(s)] <= rlen(rd(s))
|  && s.deque.count <= s.pos && s.pos <= nread[rd(s)] + (s.atEOF ? 1 : 0)
|  && (s.atEOF && s.deque.count > 0 ==> nread[rd(s)] == rlen(rd(s)))
def lastQ(s) = s.deque.count > 0 ==> hist[nev - 1] == qr(s, s.deque.count - 1)
def eotQ(s) = s.atEOF && s.deque.count > 0 ==> qr(s, s.deque.count - 1) == 0
// segmenting with the default breaker: the penalties in the queue stand at the edges of white space
def words(s) = len(s.breakers) == 1 && typeis(s.breakers[0], "*SimpleWordBreaker") && !s.breakOnZero[0]
def edgeQ(s) = words(s) ==> (forall i int :: 0 <= i && i < qn(s) ==> qr(s, i) != 0 ==> q0(s, i) == (i + 1 < s.deque.count ? edge(qr(s, i), qr(s, i + 1)) : 0))
def queueInv(s) = queueCore(s) && noFuture() && noFuture1() && textQ(s) && pensQ(s) && lastQ(s) && eotQ(s)
def bufPos(s) = s.runesBuf.isBacked ==> s.runesBuf.end == dpos(s)
def bufText(s) = s.runesBuf.isBacked ==> len(s.runesBuf.backing) == rlen(rd(s)) && (forall i int :: 0 <= i && i < rlen(rd(s)) ==> s.runesBuf.backing[i] == rtext(rd(s), i))
def bufInv(s) = wfout(s.runesBuf) && bufPos(s) && bufText(s)
def matchInv(s) = 0 <= s.longestActiveMatch && s.longestActiveMatch <= 1152921504606846976 && (s.atEOF && s.deque.count > 0 ==> s.longestActiveMatch == 1)
def stopped(s) = s.atEOF && s.deque.count == 0
def errInv(s) = (stopped(s) ==> tag(s.err) != 0 && s.err != io.EOF && s.err != ErrBoundReached) && (!stopped(s) ==> tag(s.err) == 0 || s.err == ErrBoundReached)
def inv(s) = queueInv(s) && edgeQ(s) && bufInv(s) && matchInv(s) && brkOk(s)
def errVars() = tag(io.EOF) != 0 && tag(ErrBoundReached) != 0 && tag(ErrTooLong) != 0 && tag(ErrNotInitialized) != 0
|  && io.EOF != ErrBoundReached && io.EOF != ErrTooLong && io.EOF != ErrNotInitialized && ErrBoundReached != ErrTooLong && ErrBoundReached != ErrNotInitialized && ErrTooLong != ErrNotInitialized

func (*Segmenter).readRune -> err
  prop C01 C03 C08
  assumes errVars()
  requires queueInv(s) && brkOk(s)
  modifies s.pos, s.atEOF, s.deque.*, elems(s.deque.buf), ghost hist, ghost nread, ghost nev, ghost rerrt, ghost rerrv
  ensures [storage] arr(s.deque.buf) == old(arr(s.deque.buf)) || fresh(s.deque.buf)
  ensures [queue] queueInv(s)
  ensures [end] old(s.atEOF) ==> err == io.EOF && s.atEOF && s.pos == old(s.pos) && s.deque.count == old(s.deque.count) && nread[rd(s)] == old(nread[rd(s)]) && nev == old(nev)
  ensures [grow] !old(s.atEOF) && tag(err) == 0 ==> s.deque.count == old(s.deque.count) + 1 && s.pos == old(s.pos) + 1 && nev == old(nev) + 1 && dpos(s) == old(dpos(s))
  ensures [kept] !old(s.atEOF) && tag(err) == 0 ==> (forall i int :: 0 <= i && i < old(s.deque.count) ==> qr(s, i) == old(qr(s, i)) && q0(s, i) == old(q0(s, i)))
  ensures [new] !old(s.atEOF) && tag(err) == 0 ==> (s.atEOF || q0(s, s.deque.count - 1) == 0) && (s.deque.count > 1 ==> hist[nev - 2] == qr(s, s.deque.count - 2))
  ensures [stay] old(s.atEOF) ==> (forall i int :: 0 <= i && i < s.deque.count ==> qr(s, i) == old(qr(s, i)) && q0(s, i) == old(q0(s, i)))
  ensures [progress] !old(s.atEOF) && tag(err) == 0 && !s.atEOF ==> nread[rd(s)] == old(nread[rd(s)]) + 1
  ensures [eof-only] eofonly(rd(s)) ==> tag(err) == 0 || err == io.EOF && s.atEOF && old(s.atEOF)
  ensures [error] !old(s.atEOF) && tag(err) != 0 ==> err != io.EOF && err != ErrBoundReached && tag(err) == rerrt && val(err) == rerrv && s.atEOF && s.deque.count == 0

func (*Segmenter).getFrontSegment -> n, err
  prop C01 C02 C08
  assumes errVars()
  requires inv(s) && 0 <= s.positionOfBreakOpportunity && s.positionOfBreakOpportunity < qn(s)
  requires ahead(s) + s.positionOfBreakOpportunity <= bound
  let k = s.positionOfBreakOpportunity
  modifies s.lastPenalties, s.runesBuf, s.deque.*, elems(s.deque.buf), elems(s.runesBuf.output)
  ensures [storage] (arr(s.deque.buf) == old(arr(s.deque.buf)) || fresh(s.deque.buf)) && (arr(s.runesBuf.output) == old(arr(s.runesBuf.output)) || fresh(s.runesBuf.output))
  ensures [queue] queueCore(s)
  ensures [future] noFuture() && noFuture1()
  ensures [runes] textQ(s)
  ensures [pens0] pens0Q(s)
  ensures [pens1] pens1Q(s)
  ensures [last] lastQ(s) && eotQ(s)
  ensures [edges] edgeQ(s)
  ensures [fits] old(s.runesBuf.isBacked || k < limit(s.runesBuf)) ==> tag(err) == 0
  ensures [length] tag(err) == 0 ==> s.deque.count == old(s.deque.count) - k - 1 && outlen(s.runesBuf) == k + 1
  ensures [text] tag(err) == 0 ==> bufInv(s) && (forall i int :: 0 <= i && i <= k ==> outat(s.runesBuf, i) == rtext(rd(s), old(dpos(s)) + i))
  ensures [penalties] tag(err) == 0 ==> s.lastPenalties[0] == old(q0(s, k)) && s.lastPenalties[1] == old(q1(s, k))
  ensures [too-long] tag(err) != 0 ==> err == ErrTooLong && old(!s.runesBuf.isBacked && k >= limit(s.runesBuf))
  ensures [limit] limit(s.runesBuf) == old(limit(s.runesBuf)) && s.runesBuf.isBacked == old(s.runesBuf.isBacked)
  loop 0
    invariant [range] 0 <= i && i <= k + 1 && l == k
    invariant [storage] (arr(s.deque.buf) == atloop(arr(s.deque.buf)) || loopfresh(s.deque.buf)) && (arr(s.runesBuf.output) == atloop(arr(s.runesBuf.output)) || loopfresh(s.runesBuf.output))
    invariant [queue] wfq(s.deque) && s.deque.count == old(s.deque.count) - i
    invariant [rest] forall j int :: 0 <= j && j < s.deque.count ==> qr(s, j) == old(qr(s, j + i))
    invariant [rest0] forall j int :: 0 <= j && j < s.deque.count ==> q0(s, j) == old(q0(s, j + i))
    invariant [rest1] forall j int :: 0 <= j && j < s.deque.count ==> q1(s, j) == old(q1(s, j + i))
    invariant [runes] textQ(s)
    invariant [pens0] pens0Q(s)
    invariant [pens1] pens1Q(s)
    invariant [edges] edgeQ(s)
    invariant [buffer] wfout(s.runesBuf) && outlen(s.runesBuf) == i
    invariant [bufpos] bufPos(s)
    invariant [buftext] bufText(s)
    invariant [limit] limit(s.runesBuf) == old(limit(s.runesBuf)) && s.runesBuf.isBacked == old(s.runesBuf.isBacked)
    invariant [text] forall j int :: 0 <= j && j < i ==> outat(s.runesBuf, j) == rtext(rd(s), old(dpos(s)) + j)
    invariant [penalties] i > 0 ==> s.lastPenalties[0] == old(q0(s, i - 1)) && s.lastPenalties[1] == old(q1(s, i - 1))
    decreases l - i

// ---- breakers: arbitrary, but they do not touch the segmenter, and a match length is no negative number
extern uax.UnicodeBreaker.CodePointClassFor(self, r) -> c
extern uax.UnicodeBreaker.StartRulesFor(self, r, c)
extern uax.UnicodeBreaker.ProceedWithRune(self, r, c)
extern uax.UnicodeBreaker.LongestActiveMatch(self) -> n
  ensures 0 <= n && n <= 1152921504606846976
// the penalties are accounted for the atoms read so far, newest first, in the slot of the breaker
def rep(ps, n, j) = j < n && n - 1 - j < len(ps) ? ps[n - 1 - j] : 0
extern uax.UnicodeBreaker.Penalties(self) -> ps
  modifies ghost pen0, ghost pen1
  ensures typeis(self, "*SimpleWordBreaker") ==> len(ps) <= 2 && (len(ps) > 0 ==> ps[0] == 0) && (hist[nev - 2] != 0 ==> (len(ps) < 2 ? 0 : ps[1]) == edge(hist[nev - 2], hist[nev - 1]))
  ensures forall j int {pen0[j]} :: pen0[j] == (val(self) == prim ? wraps(old(pen0)[j] + rep(ps, nev, j), "int") : old(pen0)[j])
  ensures forall j int {pen1[j]} :: pen1[j] == (val(self) == prim ? old(pen1)[j] : wraps(old(pen1)[j] + rep(ps, nev, j), "int"))

// nothing to be found in the part of the queue which is settled
def idle(s, bound) = s.deque.count - s.longestActiveMatch <= 0 || bound < ahead(s) || !s.atEOF && s.deque.count - s.longestActiveMatch <= bound - ahead(s)
def found(s, bound) = s.positionOfBreakOpportunity < qn(s) && ahead(s) + s.positionOfBreakOpportunity <= bound
|  && (feasible(s, s.positionOfBreakOpportunity) || ahead(s) + s.positionOfBreakOpportunity == bound || s.atEOF && s.positionOfBreakOpportunity == qn(s) - 1)
def notBefore(s) = forall j int :: 0 <= j && j < s.positionOfBreakOpportunity ==> !feasible(s, j)

func (*Segmenter).readEnoughInputAndFindBreak -> err
  prop C01 C02 C03 C04 C08
  assumes errVars()
  requires inv(s) && 0 - 2305843009213693952 <= bound
  requires s.positionOfBreakOpportunity < 0 ==> s.positionOfBreakOpportunity == -1 && idle(s, bound)
  requires s.positionOfBreakOpportunity >= 0 ==> found(s, bound) && notBefore(s)
  modifies s.pos, s.atEOF, s.deque.*, elems(s.deque.buf), s.longestActiveMatch, s.positionOfBreakOpportunity, ghost hist, ghost nread, ghost nev, ghost rerrt, ghost rerrv, ghost pen0, ghost pen1
  ensures [storage] arr(s.deque.buf) == old(arr(s.deque.buf)) || fresh(s.deque.buf)
  ensures [queue] queueCore(s)
  ensures [future] noFuture() && noFuture1()
  ensures [runes] textQ(s)
  ensures [pens0] pens0Q(s)
  ensures [pens1] pens1Q(s)
  ensures [last] lastQ(s) && eotQ(s)
  ensures [edges] edgeQ(s)
  ensures [breakers] brkOk(s)
  ensures [match] matchInv(s)
  ensures [stays] tag(err) == 0 || err == io.EOF || err == ErrBoundReached ==> dpos(s) == old(dpos(s)) && ahead(s) == old(ahead(s)) && bufInv(s)
  ensures [stopped] tag(err) == 0 || err == ErrBoundReached ==> (stopped(s) ==> old(stopped(s)))
  ensures [found] tag(err) == 0 ==> s.positionOfBreakOpportunity >= 0 && found(s, bound) && notBefore(s)
  ensures [bound] err == ErrBoundReached ==> s.positionOfBreakOpportunity < 0 && bound < ahead(s)
  ensures [end] err == io.EOF ==> s.positionOfBreakOpportunity < 0 && s.atEOF && (qn(s) == 0 || bound < ahead(s)) && (stopped(s) ==> old(stopped(s)))
  ensures [eof-only] eofonly(rd(s)) ==> tag(err) == 0 || err == io.EOF || err == ErrBoundReached
  ensures [error] tag(err) != 0 && err != io.EOF && err != ErrBoundReached ==> tag(err) == rerrt && val(err) == rerrv && s.atEOF && s.deque.count == 0 && !old(s.atEOF)
  loop 0
    invariant [storage] arr(s.deque.buf) == atloop(arr(s.deque.buf)) || loopfresh(s.deque.buf)
    invariant [queue] queueCore(s)
    invariant [future] noFuture() && noFuture1()
    invariant [runes] textQ(s)
    invariant [pens0] pens0Q(s)
    invariant [pens1] pens1Q(s)
    invariant [last] lastQ(s) && eotQ(s)
    invariant [edges] edgeQ(s)
    invariant [breakers] brkOk(s)
    invariant [match] matchInv(s)
    invariant [stays] dpos(s) == old(dpos(s)) && ahead(s) == old(ahead(s)) && bufInv(s)
    invariant [grow] s.atEOF && s.deque.count == 0 ==> old(stopped(s))
    invariant [noerr] tag(err) == 0 && (old(s.atEOF) ==> s.atEOF)
    invariant [idle] s.positionOfBreakOpportunity < 0 ==> idle(s, bound)
    invariant [found] s.positionOfBreakOpportunity >= 0 ==> found(s, bound) && notBefore(s)
    decreases rlen(rd(s)) - nread[rd(s)] + (s.atEOF ? 0 : 1)
  loop 1
    invariant [queue] queueCore(s) && s.deque.count > 0
    invariant [future] noFuture() && noFuture1()
    invariant [runes] textQ(s)
    invariant [pens0] pens0Q(s)
    invariant [pens1] pens1Q(s)
    invariant [last] lastQ(s) && eotQ(s) && (s.deque.count > 1 ==> hist[nev - 2] == qr(s, s.deque.count - 2))
    invariant [edges] words(s) ==> (forall i int :: 0 <= i && i < qn(s) ==> qr(s, i) != 0 ==> q0(s, i) == (i + 1 < s.deque.count && ($i > 0 || i + 2 < s.deque.count) ? edge(qr(s, i), qr(s, i + 1)) : 0))
    invariant [match] 0 <= s.longestActiveMatch && s.longestActiveMatch <= 1152921504606846976
    invariant [same] 0 <= $i && $i <= len(s.breakers)

// ---- one segment -------------------------------------------------------------------
// position j of the text part in the queue, before and after: penalties accumulated for it
def possible(s, a) = poss(pen0[a], s.breakOnZero[0]) || len(s.breakers) > 1 && poss(pen1[a], s.breakOnZero[1])
func (*Segmenter).next -> b
  prop C01 C02 C03 C04 C08
  timeout 20
  assumes errVars()
  requires 0 - 1152921504606846976 <= bound
  requires tag(s.reader) > 0 ==> inv(s)
  requires tag(s.reader) > 0 ==> errInv(s)
  requires tag(s.reader) == 0 || tag(s.reader) > 0
  let d0 = dpos(s)
  modifies s.*, s.deque.*, elems(s.deque.buf), elems(s.runesBuf.output), ghost hist, ghost nread, ghost nev, ghost rerrt, ghost rerrv, ghost pen0, ghost pen1
  ensures [storage] b ==> s.deque == old(s.deque) && (arr(s.deque.buf) == old(arr(s.deque.buf)) || fresh(s.deque.buf)) && (arr(s.runesBuf.output) == old(arr(s.runesBuf.output)) || fresh(s.runesBuf.output))
  ensures [mode] b ==> s.reader == old(s.reader) && s.runesBuf.isBacked == old(s.runesBuf.isBacked) && limit(s.runesBuf) == old(limit(s.runesBuf))
  ensures [uninitialised] old(tag(s.reader) == 0) ==> !b && tag(s.err) != 0 && s.err != io.EOF && (old(tag(s.err) == 0 || s.err == io.EOF) ==> s.err == ErrNotInitialized)
  ensures [reader] s.reader == old(s.reader)
  ensures [queue] tag(s.reader) > 0 ==> queueCore(s)
  ensures [future] tag(s.reader) > 0 ==> noFuture() && noFuture1()
  ensures [runes] tag(s.reader) > 0 ==> textQ(s)
  ensures [pens0] tag(s.reader) > 0 ==> pens0Q(s)
  ensures [pens1] tag(s.reader) > 0 ==> pens1Q(s)
  ensures [last] tag(s.reader) > 0 ==> lastQ(s) && eotQ(s)
  ensures [edges] tag(s.reader) > 0 ==> edgeQ(s)
  ensures [run] b && words(s) ==> (forall j int :: 0 <= j && j < outlen(s.runesBuf) - 1 && outat(s.runesBuf, j) != 0 ==> cls(outat(s.runesBuf, j)) == cls(outat(s.runesBuf, j + 1)))
  ensures [run-end] b && words(s) && ahead(s) - 1 < bound && outat(s.runesBuf, outlen(s.runesBuf) - 1) != 0 ==> s.atEOF && qn(s) == 0 || cls(outat(s.runesBuf, outlen(s.runesBuf) - 1)) != cls(rtext(rd(s), dpos(s)))
  ensures [run-penalty] b && words(s) && ahead(s) - 1 < bound && outat(s.runesBuf, outlen(s.runesBuf) - 1) != 0 ==> s.lastPenalties[0] == (isspace(outat(s.runesBuf, outlen(s.runesBuf) - 1)) ? 0 - 100 : 100)
  ensures [breakers] tag(s.reader) > 0 ==> brkOk(s)
  ensures [match] tag(s.reader) > 0 ==> matchInv(s)
  ensures [buffer] tag(s.reader) > 0 ==> bufInv(s)
  ensures [errors] tag(s.reader) > 0 ==> errInv(s)
  ensures [in-use] tag(s.reader) > 0 ==> s.inUse
  ensures [segment] b ==> outlen(s.runesBuf) > 0 && dpos(s) == d0 + outlen(s.runesBuf) && tag(s.err) == 0
  ensures [text] b ==> (forall i int :: 0 <= i && i < outlen(s.runesBuf) ==> outat(s.runesBuf, i) == rtext(rd(s), d0 + i))
  ensures [bound] b ==> ahead(s) - 1 <= bound
  ensures [why] b ==> poss(s.lastPenalties[0], s.breakOnZero[0]) || len(s.breakers) > 1 && poss(s.lastPenalties[1], s.breakOnZero[1]) || ahead(s) - 1 == bound || s.atEOF && qn(s) == 0
  ensures [penalties] b ==> s.lastPenalties[0] == pen0[nev - s.deque.count - 1] && s.lastPenalties[1] == pen1[nev - s.deque.count - 1]
  ensures [first] b ==> (forall j int {pen0[nev - s.deque.count - outlen(s.runesBuf) + j]} :: 0 <= j && j < outlen(s.runesBuf) - 1 ==> !possible(s, nev - s.deque.count - outlen(s.runesBuf) + j))
  ensures [nothing] tag(s.reader) > 0 && !b && !stopped(s) ==> dpos(s) == d0
  ensures [end] tag(s.reader) > 0 && !b && tag(s.err) == 0 ==> s.atEOF && qn(s) == 0 && d0 == rlen(rd(s))
  ensures [bound-reached] tag(s.reader) > 0 && !b && s.err == ErrBoundReached ==> bound < ahead(s)
  ensures [sticky] tag(s.reader) > 0 && old(stopped(s)) ==> !b && s.err == old(s.err) && stopped(s)
  ensures [eof-only] tag(s.reader) > 0 && eofonly(rd(s)) && !b && stopped(s) && !old(stopped(s)) ==> s.err == ErrTooLong && old(!s.runesBuf.isBacked) && nread[rd(s)] > d0 + old(limit(s.runesBuf))
  ensures [failed] tag(s.reader) > 0 && !b && stopped(s) && !old(stopped(s)) ==> (tag(s.err) == rerrt && val(s.err) == rerrv) || s.err == ErrTooLong && old(!s.runesBuf.isBacked) && nread[rd(s)] > d0 + old(limit(s.runesBuf))

func (*Segmenter).Next -> b
  prop C01 C02 C03 C08
  assumes errVars()
  requires tag(s.reader) > 0 ==> inv(s)
  requires tag(s.reader) > 0 ==> errInv(s)
  requires tag(s.reader) == 0 || tag(s.reader) > 0
  let d0 = dpos(s)
  modifies s.*, s.deque.*, elems(s.deque.buf), elems(s.runesBuf.output), ghost hist, ghost nread, ghost nev, ghost rerrt, ghost rerrv, ghost pen0, ghost pen1
  ensures [reader] s.reader == old(s.reader)
  ensures [inv] tag(s.reader) > 0 ==> inv(s)
  ensures [errors] tag(s.reader) > 0 ==> errInv(s)
  ensures [storage] b ==> s.deque == old(s.deque) && (arr(s.deque.buf) == old(arr(s.deque.buf)) || fresh(s.deque.buf)) && (arr(s.runesBuf.output) == old(arr(s.runesBuf.output)) || fresh(s.runesBuf.output))
  ensures [mode] b ==> s.reader == old(s.reader) && s.runesBuf.isBacked == old(s.runesBuf.isBacked) && limit(s.runesBuf) == old(limit(s.runesBuf))
  ensures [uninitialised] old(tag(s.reader) == 0) ==> !b && tag(s.err) != 0 && s.err != io.EOF && (old(tag(s.err) == 0 || s.err == io.EOF) ==> s.err == ErrNotInitialized)
  ensures [segment] b ==> outlen(s.runesBuf) > 0 && dpos(s) == d0 + outlen(s.runesBuf) && tag(s.err) == 0
  ensures [text] b ==> (forall i int :: 0 <= i && i < outlen(s.runesBuf) ==> outat(s.runesBuf, i) == rtext(rd(s), d0 + i))
  ensures [why] b ==> poss(s.lastPenalties[0], s.breakOnZero[0]) || len(s.breakers) > 1 && poss(s.lastPenalties[1], s.breakOnZero[1]) || s.atEOF && qn(s) == 0
  ensures [penalties] b ==> s.lastPenalties[0] == pen0[nev - s.deque.count - 1] && s.lastPenalties[1] == pen1[nev - s.deque.count - 1]
  ensures [first] b ==> (forall j int {pen0[nev - s.deque.count - outlen(s.runesBuf) + j]} :: 0 <= j && j < outlen(s.runesBuf) - 1 ==> !possible(s, nev - s.deque.count - outlen(s.runesBuf) + j))
  ensures [run] b && words(s) ==> (forall j int :: 0 <= j && j < outlen(s.runesBuf) - 1 && outat(s.runesBuf, j) != 0 ==> cls(outat(s.runesBuf, j)) == cls(outat(s.runesBuf, j + 1)))
  ensures [run-end] b && words(s) && outat(s.runesBuf, outlen(s.runesBuf) - 1) != 0 ==> s.atEOF && qn(s) == 0 || cls(outat(s.runesBuf, outlen(s.runesBuf) - 1)) != cls(rtext(rd(s), dpos(s)))
  ensures [run-penalty] b && words(s) && outat(s.runesBuf, outlen(s.runesBuf) - 1) != 0 ==> s.lastPenalties[0] == (isspace(outat(s.runesBuf, outlen(s.runesBuf) - 1)) ? 0 - 100 : 100)
  ensures [end] tag(s.reader) > 0 && !b && tag(s.err) == 0 ==> s.atEOF && qn(s) == 0 && d0 == rlen(rd(s)) && dpos(s) == d0
  ensures [no-bound] tag(s.reader) > 0 && !b ==> s.err != ErrBoundReached
  ensures [error] tag(s.reader) > 0 && !b && tag(s.err) != 0 ==> stopped(s)
  ensures [sticky] tag(s.reader) > 0 && old(stopped(s)) ==> !b && s.err == old(s.err) && stopped(s)
  ensures [eof-only] tag(s.reader) > 0 && eofonly(rd(s)) && !b && stopped(s) && !old(stopped(s)) ==> s.err == ErrTooLong && old(!s.runesBuf.isBacked) && nread[rd(s)] > d0 + old(limit(s.runesBuf))
  ensures [failed] tag(s.reader) > 0 && !b && stopped(s) && !old(stopped(s)) ==> (tag(s.err) == rerrt && val(s.err) == rerrv) || s.err == ErrTooLong && old(!s.runesBuf.isBacked) && nread[rd(s)] > d0 + old(limit(s.runesBuf))

func (*Segmenter).BoundedNext -> b
  prop C01 C04
  assumes errVars()
  requires 0 <= bound
  requires tag(s.reader) > 0 ==> inv(s)
  requires tag(s.reader) > 0 ==> errInv(s)
  requires tag(s.reader) == 0 || tag(s.reader) > 0
  let d0 = dpos(s)
  modifies s.*, s.deque.*, elems(s.deque.buf), elems(s.runesBuf.output), ghost hist, ghost nread, ghost nev, ghost rerrt, ghost rerrv, ghost pen0, ghost pen1
  ensures [inv] tag(s.reader) > 0 ==> inv(s)
  ensures [errors] tag(s.reader) > 0 ==> errInv(s)
  ensures [segment] b ==> outlen(s.runesBuf) > 0 && dpos(s) == d0 + outlen(s.runesBuf) && tag(s.err) == 0
  ensures [text] b ==> (forall i int :: 0 <= i && i < outlen(s.runesBuf) ==> outat(s.runesBuf, i) == rtext(rd(s), d0 + i))
  ensures [bound] b ==> ahead(s) <= bound
  ensures [why] b ==> poss(s.lastPenalties[0], s.breakOnZero[0]) || len(s.breakers) > 1 && poss(s.lastPenalties[1], s.breakOnZero[1]) || ahead(s) == bound || s.atEOF && qn(s) == 0
  ensures [penalties] b ==> s.lastPenalties[0] == pen0[nev - s.deque.count - 1] && s.lastPenalties[1] == pen1[nev - s.deque.count - 1]
  ensures [first] b ==> (forall j int {pen0[nev - s.deque.count - outlen(s.runesBuf) + j]} :: 0 <= j && j < outlen(s.runesBuf) - 1 ==> !possible(s, nev - s.deque.count - outlen(s.runesBuf) + j))
  ensures [nothing] tag(s.reader) > 0 && !b && !stopped(s) ==> dpos(s) == d0
  ensures [end] tag(s.reader) > 0 && !b && tag(s.err) == 0 ==> s.atEOF && qn(s) == 0 && d0 == rlen(rd(s))
  ensures [bound-reached] tag(s.reader) > 0 && !b && s.err == ErrBoundReached ==> bound <= ahead(s)
  ensures [stops] tag(s.reader) > 0 && !b && d0 < rlen(rd(s)) && !stopped(s) ==> s.err == ErrBoundReached
  ensures [error] tag(s.reader) > 0 && !b && tag(s.err) != 0 && s.err != ErrBoundReached ==> stopped(s)

// ---- configuration and (re-)initialisation: everything of an earlier text is forgotten
def cleared(s) = tag(s.err) == 0 && s.deque != nil && s.deque.count == 0 && s.pos == 0 && !s.atEOF && !s.inUse && s.longestActiveMatch == 0 && s.positionOfBreakOpportunity == -1 && s.lastPenalties[0] == 0 && s.lastPenalties[1] == 0
// a segmenter never initialised is in its zero state
def zeroState(s) = s.deque == nil ==> s.pos == 0 && !s.atEOF && !s.inUse && s.longestActiveMatch == 0 && s.lastPenalties[0] == 0 && s.lastPenalties[1] == 0

func (*Segmenter).init
  prop C03
  requires s.deque != nil ==> wfq(s.deque)
  requires zeroState(s)
  modifies s.deque, s.maxSegmentLen, s.longestActiveMatch, s.atEOF, s.inUse, s.lastPenalties, s.pos, s.err, s.positionOfBreakOpportunity, s.deque.*, elems(s.deque.buf)
  ensures [cleared] cleared(s) && wfq(s.deque)
  ensures [storage] old(s.deque) != nil ==> s.deque == old(s.deque)
  ensures [storage2] old(s.deque) == nil ==> fresh(s.deque) && arr(s.deque.buf) == 0

// assumed: the reader exists (and its text), the breakers are set up, no penalty has been reported for characters to come
func (*Segmenter).Init
  prop C01 C03
  assumes errVars()
  requires s.deque != nil ==> wfq(s.deque)
  requires zeroState(s) && s.runesBuf.maxSegLen <= 1152921504606846976
  requires tag(reader) == 0 || tag(reader) > 0
  requires brkOk(s) && noFuture() && noFuture1()
  assumes forall v int {nread[v]} :: 0 <= nread[v] && nread[v] <= rlen(v)
  modifies s.*, s.deque.*, elems(s.deque.buf)
  ensures [reader] tag(s.reader) > 0 && (tag(reader) > 0 ==> s.reader == reader)
  ensures [cleared] cleared(s) && outlen(s.runesBuf) == 0
  ensures [start] dpos(s) == nread[rd(s)] && !stopped(s)
  ensures [owned] (s.deque == old(s.deque) && old(s.deque) != nil || old(s.deque) == nil && fresh(s.deque) && (arr(s.deque.buf) == 0 || fresh(s.deque.buf))) && (arr(s.runesBuf.output) == old(arr(s.runesBuf.output)) || arr(s.runesBuf.output) == 0 || fresh(s.runesBuf.output))
  ensures [buffer] tag(reader) > 0 ==> !s.runesBuf.isBacked && (old(arr(s.runesBuf.output) == 0 && s.runesBuf.maxSegLen == 0) ==> limit(s.runesBuf) == 65536)
  ensures [inv] inv(s) && errInv(s)

// coupled(s, buf): the slice reader stands for the text of the slice, nothing read yet
def coupled(s, buf) = rlen(rd(s)) == len(buf) && nread[rd(s)] == 0 && (forall i int {rtext(rd(s), i)} :: 0 <= i && i < len(buf) ==> rtext(rd(s), i) == buf[i])
func (*Segmenter).InitFromSlice
  prop C01 C03
  assumes errVars()
  requires s.deque != nil ==> wfq(s.deque)
  requires zeroState(s) && s.runesBuf.maxSegLen <= 1152921504606846976
  requires brkOk(s) && noFuture() && noFuture1()
  modifies s.*, s.deque.*, elems(s.deque.buf)
  ensures [reader] typeis(s.reader, "*runeread")
  ensures [cleared] cleared(s) && outlen(s.runesBuf) == 0
  ensures [text] s.runesBuf.isBacked && len(s.runesBuf.backing) == len(buf) && (forall i int :: 0 <= i && i < len(buf) ==> s.runesBuf.backing[i] == buf[i])
  ensures [queue] coupled(s, buf) ==> queueInv(s)
  ensures [inv] coupled(s, buf) ==> bufPos(s) && wfout(s.runesBuf) && matchInv(s) && brkOk(s) && errInv(s)
  ensures [buffer] coupled(s, buf) ==> bufText(s)

func (*Segmenter).RuneBuffer
  prop C03
  requires max <= 1152921504606846976
  modifies s.runesBuf
  panics old(s.inUse)
  ensures [set] len(buf) > 0 ==> arr(s.runesBuf.output) == arr(buf) && off(s.runesBuf.output) == off(buf) && s.runesBuf.maxSegLen == max
  ensures [same] len(buf) == 0 ==> s.runesBuf.maxSegLen == old(s.runesBuf.maxSegLen) && arr(s.runesBuf.output) == old(arr(s.runesBuf.output))

func (*Segmenter).Buffer
  prop C03
  modifies nothing
  panics old(s.inUse)

func (*Segmenter).BreakOnZero
  prop C02
  modifies s.breakOnZero
  ensures s.breakOnZero[0] == forP1 && s.breakOnZero[1] == forP2

func (*Segmenter).Penalties -> p0, p1
  prop C02
  modifies nothing
  ensures p0 == s.lastPenalties[0] && p1 == s.lastPenalties[1]

func (*Segmenter).Runes -> rs
  prop C01
  requires wfout(s.runesBuf)
  modifies nothing
  ensures len(rs) == outlen(s.runesBuf)
  ensures forall i int :: 0 <= i && i < len(rs) ==> rs[i] == outat(s.runesBuf, i)

func NewSegmenter -> s
  prop C02 C03
  modifies nothing
  ensures [new] fresh(s) && tag(s.reader) == 0 && tag(s.err) == 0 && zeroState(s) && s.deque == nil && !s.breakOnZero[0] && !s.breakOnZero[1] && s.runesBuf.maxSegLen == 0 && arr(s.runesBuf.output) == 0
  ensures [breakers] len(breakers) > 0 ==> arr(s.breakers) == arr(breakers) && off(s.breakers) == off(breakers) && len(s.breakers) == len(breakers)
  ensures [default] len(breakers) == 0 ==> len(s.breakers) == 1 && typeis(s.breakers[0], "*SimpleWordBreaker")

// ---- the default breaker -------------------------------------------------------------
// What is assumed above for Penalties of the default breaker follows from these: a character leaves [state] behind, from
// which [same] and [edge] of the next one say what is reported.
def wfw(b) = 0 <= b.matchType && b.matchType <= 2 && (forall i int :: 0 <= i && i < 3 ==> 0 <= b.matchLen[i] && b.matchLen[i] <= 1152921504606846976)
def shape(b) = len(b.penalties) <= 2 && (len(b.penalties) > 0 ==> b.penalties[0] == 0)
func NewSimpleWordBreaker -> b
  prop C08
  modifies nothing
  ensures fresh(b) && wfw(b) && shape(b)

func (*SimpleWordBreaker).CodePointClassFor -> c
  prop C08
  modifies nothing
  ensures c == cls(r)

func (*SimpleWordBreaker).StartRulesFor
  prop C08
  modifies swb.penalties
  ensures len(swb.penalties) == old(len(swb.penalties)) && (old(arr(swb.penalties)) != 0 ==> arr(swb.penalties) == old(arr(swb.penalties)) && off(swb.penalties) == old(off(swb.penalties)))

func (*SimpleWordBreaker).ProceedWithRune
  prop C08
  requires wfw(swb) && shape(swb) && cpClass == cls(r)
  modifies swb.penalties, swb.matchLen, swb.matchType, elems(swb.penalties)
  ensures [wf] 0 <= swb.matchType && swb.matchType <= 2 && (forall i int :: 0 <= i && i < 3 ==> 0 <= swb.matchLen[i] && swb.matchLen[i] <= old(swb.matchLen[i]) + 1)
  ensures [shape] shape(swb)
  ensures [state] r != 0 ==> swb.matchType == cls(r) && swb.matchLen[cls(r)] > 0
  ensures [same] r != 0 && cls(r) == old(swb.matchType) ==> len(swb.penalties) == 0
  ensures [edge] cls(r) != old(swb.matchType) && old(swb.matchLen[swb.matchType]) > 0 ==> len(swb.penalties) == 2 && swb.penalties[1] == (old(swb.matchType) == 0 ? 0 - 100 : 100)

func (*SimpleWordBreaker).LongestActiveMatch -> n
  prop C08
  requires wfw(swb)
  modifies nothing
  ensures 0 <= n

func (*SimpleWordBreaker).Penalties -> ps
  prop C08
  modifies nothing
  ensures arr(ps) == arr(swb.penalties) && off(ps) == off(swb.penalties) && len(ps) == len(swb.penalties)

// ---- segments as bytes: ulen is the number of bytes of a character, rpos(v, k) that of the first k characters of a text
def ulen(r) = 0 <= r && r < 128 ? 1 : 0 <= r && r < 2048 ? 2 : 65536 <= r && r <= 1114111 ? 4 : 3
logic rpos(v int, k int) int
axiom rpos_start: forall v int {rpos(v, 0)} :: rpos(v, 0) == 0
axiom rpos_step: forall v int, k int {rtext(v, k)} :: k >= 0 ==> rpos(v, k + 1) == rpos(v, k) + ulen(rtext(v, k))
extern bytes.(*Buffer).WriteRune(b, r) -> n, err
  modifies b.*
  ensures len(b.buf) - b.off == old(len(b.buf) - b.off) + ulen(r)
extern bytes.(*Buffer).Bytes(b) -> bs
  modifies nothing
  ensures len(bs) == len(b.buf) - b.off
func (*Segmenter).Bytes -> bs
  prop C01 C12
  requires wfout(s.runesBuf) && (tag(s.reader) > 0 ==> outlen(s.runesBuf) <= dpos(s))
  let d = dpos(s) - outlen(s.runesBuf)
  modifies nothing
  ensures [bytes] tag(s.reader) > 0 && (forall i int :: 0 <= i && i < outlen(s.runesBuf) ==> outat(s.runesBuf, i) == rtext(rd(s), d + i)) ==> len(bs) == rpos(rd(s), dpos(s)) - rpos(rd(s), d)
  loop 0
    invariant [range] 0 <= $i && $i <= outlen(s.runesBuf)
    invariant [bytes] tag(s.reader) > 0 && (forall i int :: 0 <= i && i < outlen(s.runesBuf) ==> outat(s.runesBuf, i) == rtext(rd(s), d + i)) ==> len(buf.buf) - buf.off == rpos(rd(s), d + $i) - rpos(rd(s), d)
    decreases outlen(s.runesBuf) - $i

func (*Segmenter).Text -> t
  prop C01
  requires wfout(s.runesBuf)
  modifies nothing
