package bidi

func (*Run).SegmentIterator -> it
  prop C20
  modifies nothing
  ensures [new] it != nil && fresh(it) && it.Dir == r.Dir && len(it.scraps) == len(r.scraps) && it.interval == 0 && !it.eof
  ensures [order] forall i int {it.scraps[i].l} {it.scraps[i].r} :: 0 <= i && i < len(r.scraps) ==> it.scraps[i].l == r.scraps[reverse ? len(r.scraps) - 1 - i : i].l && it.scraps[i].r == r.scraps[reverse ? len(r.scraps) - 1 - i : i].r
  loop 0
    invariant [range] 0 <= i && i <= mid && mid == len(r.scraps) / 2 && len(it.scraps) == len(r.scraps) && (len(r.scraps) > 0 ==> fresh(it.scraps)) && fresh(it)
    invariant [fields] it.Dir == r.Dir && it.interval == 0 && !it.eof && arr(it.scraps) == atloop(arr(it.scraps)) && off(it.scraps) == atloop(off(it.scraps))
    invariant [done] forall k int {it.scraps[k].l} {it.scraps[k].r} :: 0 <= k && k < len(it.scraps) ==> it.scraps[k].l == r.scraps[k < i || k >= len(r.scraps) - i ? len(r.scraps) - 1 - k : k].l && it.scraps[k].r == r.scraps[k < i || k >= len(r.scraps) - i ? len(r.scraps) - 1 - k : k].r
    decreases mid - i

func (*Run).IsOpposite -> b
  prop C20
  modifies nothing
  ensures b <==> dir != r.Dir

def segs(it) = 0 <= it.interval && it.interval <= len(it.scraps)
func (*SegmentIterator).Next -> ok
  prop C20
  requires segs(it) && it.eof == (it.interval > 0 && it.interval == len(it.scraps))
  modifies it.interval, it.eof
  ensures [state] segs(it) && it.eof == (it.interval > 0 && it.interval == len(it.scraps))
  ensures [next] ok <==> old(it.interval) < len(it.scraps)
  ensures [step] it.interval == old(it.interval) + (ok ? 1 : 0)

func (*SegmentIterator).EOF -> b
  prop C20
  modifies nothing
  ensures b == it.eof

func (*SegmentIterator).Segment -> d, l, r
  prop C20
  requires segs(it)
  modifies nothing
  ensures [dir] d == it.Dir
  ensures [bounds] it.interval > 0 ==> l == it.scraps[it.interval - 1].l && r == it.scraps[it.interval - 1].r
  ensures [before] it.interval == 0 ==> l == 0 && r == 0

// ---- bracket pairs (C15) ------------------------------------------------------------

// canonically equivalent angle brackets (U+2329/232A and U+3008/3009) count as the same
def canon(x) = x == 0x2329 ? 0x3008 : x == 0x232a ? 0x3009 : x
def sameBr(x, y) = canon(x) == canon(y)
// the bracket list has an entry opening with r
def entryAt(k, r) = 0 <= k && k < len(uax9BracketPairs) && uax9BracketPairs[k].o == r
func (bracketStack).push -> ok, st
  prop C15
  modifies elems(bs)
  ensures [known] len(bs) < 63 && s.bidiclz == cBRACKO ==> forall k int {uax9BracketPairs[k].o} :: entryAt(k, r) ==> ok
  ensures [pushed] ok ==> len(bs) < 63 && s.bidiclz == cBRACKO && len(st) == len(bs) + 1 && st[len(bs)].opening.l == s.l && st[len(bs)].pair.o == r && exists k int {uax9BracketPairs[k].o} :: entryAt(k, r) && st[len(bs)].pair.c == uax9BracketPairs[k].c
  ensures [kept] forall i int {st[i].opening.l} {st[i].pair.c} :: 0 <= i && i < len(bs) ==> st[i].opening.l == old(bs[i].opening.l) && st[i].pair.c == old(bs[i].pair.c)
  ensures [refused] !ok ==> st == bs
  loop 0
    invariant [none] 0 <= $i && $i <= len(uax9BracketPairs) && forall k int {uax9BracketPairs[k].o} :: 0 <= k && k < $i ==> uax9BracketPairs[k].o != r
    decreases len(uax9BracketPairs) - $i

func (bracketStack).popWith -> ok, top, st
  prop C15
  modifies nothing
  ensures [none] !ok ==> st == bs && forall i int {bs[i].pair.c} :: 0 <= i && i < len(bs) ==> !sameBr(bs[i].pair.c, b)
  ensures [match] ok ==> len(st) < len(bs) && arr(st) == arr(bs) && off(st) == off(bs) && sameBr(bs[len(st)].pair.c, b) && top.opening.l == bs[len(st)].opening.l && top.pair.c == bs[len(st)].pair.c
  ensures [nearest] ok ==> forall i int {bs[i].pair.c} :: len(st) < i && i < len(bs) ==> !sameBr(bs[i].pair.c, b)
  loop 0
    invariant [range] -1 <= i && i < len(bs)
    invariant [none] forall j int {bs[j].pair.c} :: i < j && j < len(bs) ==> !sameBr(bs[j].pair.c, b)
    decreases i + 1

extern (*sync.Mutex).Lock
  modifies nothing
extern (*sync.Mutex).Unlock
  modifies nothing

func canonicalBracket -> c
  prop C15
  modifies nothing
  ensures c == canon(r)

// The state of a bracket pair handler after the text before position `at`: open brackets in ascending order, pairs with
// the opening before the closing bracket, no bracket used twice.
def stackOk(h, at) = len(h.stack) <= 63 && (forall i int {h.stack[i].opening.l} :: 0 <= i && i < len(h.stack) ==> h.stack[i].opening.l < at)
|  && forall i int, j int {h.stack[i].opening.l, h.stack[j].opening.l} :: 0 <= i && i < j && j < len(h.stack) ==> h.stack[i].opening.l < h.stack[j].opening.l
def pairs0(h, at) = forall i int {h.pairings[i].brktpos.opening.l} {h.pairings[i].closing.l} :: 0 <= i && i < len(h.pairings) ==> h.pairings[i].brktpos.opening.l < h.pairings[i].closing.l && h.pairings[i].closing.l < at
def handlerOk(h, at) = stackOk(h, at) && pairs0(h, at)

func makeBracketPairHandler -> h
  prop C15
  modifies previous.next
  ensures [empty] h != nil && fresh(h) && len(h.stack) == 0 && len(h.pairings) == 0 && h.firstpos == first && h.lastpos == 0 && h.next == nil
  ensures [linked] previous != nil ==> previous.next == h

// step of BD16 for an opening bracket
func (*bracketPairHandler).pushOpening -> ok
  prop C15
  requires handlerOk(bph, s.l)
  modifies bph.stack, elems(bph.stack)
  ensures [state] handlerOk(bph, s.l + 1)
  ensures [known] old(len(bph.stack)) < 63 && s.bidiclz == cBRACKO ==> forall k int {uax9BracketPairs[k].o} :: entryAt(k, r) ==> ok
  ensures [pushed] ok ==> len(bph.stack) == old(len(bph.stack)) + 1 && bph.stack[len(bph.stack) - 1].opening.l == s.l && exists k int {uax9BracketPairs[k].o} :: entryAt(k, r) && bph.stack[len(bph.stack) - 1].pair.c == uax9BracketPairs[k].c
  ensures [kept] forall i int {bph.stack[i].opening.l} {bph.stack[i].pair.c} :: 0 <= i && i < old(len(bph.stack)) ==> bph.stack[i].opening.l == old(bph.stack[i].opening.l) && bph.stack[i].pair.c == old(bph.stack[i].pair.c)
  ensures [refused] !ok ==> bph.stack == old(bph.stack)

// step of BD16 for a closing bracket
func (*bracketPairHandler).findPair -> found, pos
  prop C15
  requires handlerOk(bph, s.l)
  modifies bph.stack, bph.pairings, elems(bph.pairings)
  ensures [list] found ==> exists x int {bph.pairings[x].closing.l} :: 0 <= x && x < len(bph.pairings) && len(bph.pairings) == old(len(bph.pairings)) + 1 && bph.pairings[x].closing.l == s.l && bph.pairings[x].brktpos.opening.l == old(bph.stack)[len(bph.stack)].opening.l
|   && (forall i int {bph.pairings[i].closing.l} :: 0 <= i && i < x ==> bph.pairings[i].closing.l == old(bph.pairings[i].closing.l)) && (forall i int {bph.pairings[i].closing.l} :: x < i && i < len(bph.pairings) ==> bph.pairings[i].closing.l == old(bph.pairings[i - 1].closing.l))
|   && (forall i int {bph.pairings[i].brktpos.opening.l} :: 0 <= i && i < x ==> bph.pairings[i].brktpos.opening.l == old(bph.pairings[i].brktpos.opening.l)) && (forall i int {bph.pairings[i].brktpos.opening.l} :: x < i && i < len(bph.pairings) ==> bph.pairings[i].brktpos.opening.l == old(bph.pairings[i - 1].brktpos.opening.l))
  ensures [stack] stackOk(bph, s.l + 1)
  ensures [bounds] pairs0(bph, s.l + 1)
  ensures [unpaired] !found ==> bph.stack == old(bph.stack) && bph.pairings == old(bph.pairings) && forall i int {bph.stack[i].pair.c} :: 0 <= i && i < len(bph.stack) ==> !sameBr(bph.stack[i].pair.c, r)
  ensures [nearest] found ==> len(bph.stack) < old(len(bph.stack)) && sameBr(old(bph.stack)[len(bph.stack)].pair.c, r) && forall i int {old(bph.stack)[i].pair.c} :: len(bph.stack) < i && i < old(len(bph.stack)) ==> !sameBr(old(bph.stack)[i].pair.c, r)
  ensures [rest] forall i int {bph.stack[i].opening.l} {bph.stack[i].pair.c} :: 0 <= i && i < len(bph.stack) ==> bph.stack[i].opening.l == old(bph.stack[i].opening.l) && bph.stack[i].pair.c == old(bph.stack[i].pair.c)
  loop 0
    invariant [range] 0 <= inx && 0 <= $i && $i <= len(bph.pairings) && (inx == 0 || inx < len(bph.pairings))
    decreases len(bph.pairings) - $i

// look-up of the partner of a bracket
func (*bracketPairHandler).FindBracketPairing -> pr, found
  prop C15
  modifies nothing
  ensures [opening] found && s.bidiclz == cBRACKO ==> exists i int {bph.pairings[i].brktpos.opening.l} :: 0 <= i && i < len(bph.pairings) && bph.pairings[i].brktpos.opening.l == s.l && pr.brktpos.opening.l == s.l && pr.closing.l == bph.pairings[i].closing.l
  ensures [closing] found && s.bidiclz != cBRACKO ==> exists i int {bph.pairings[i].closing.l} :: 0 <= i && i < len(bph.pairings) && bph.pairings[i].closing.l == s.l && pr.closing.l == s.l && pr.brktpos.opening.l == bph.pairings[i].brktpos.opening.l && pr.brktpos.opening.bidiclz == bph.pairings[i].brktpos.opening.bidiclz
  ensures [noopening] !found && s.bidiclz == cBRACKO ==> forall i int {bph.pairings[i].brktpos.opening.l} :: 0 <= i && i < len(bph.pairings) ==> bph.pairings[i].brktpos.opening.l != s.l
  ensures [noclosing] !found && s.bidiclz != cBRACKO ==> forall i int {bph.pairings[i].closing.l} :: 0 <= i && i < len(bph.pairings) ==> bph.pairings[i].closing.l != s.l
  loop 0
    invariant [opening] 0 <= $i && $i <= len(bph.pairings) && (s.bidiclz == cBRACKO ==> forall i int {bph.pairings[i].brktpos.opening.l} :: 0 <= i && i < $i ==> bph.pairings[i].brktpos.opening.l != s.l)
    invariant [closing] s.bidiclz != cBRACKO ==> forall i int {bph.pairings[i].closing.l} :: 0 <= i && i < $i ==> bph.pairings[i].closing.l != s.l
    decreases len(bph.pairings) - $i

func isbracket -> b
  prop C15
  modifies nothing
  ensures b <==> s.bidiclz == cBRACKO || s.bidiclz == cBRACKC

// tracing only
func (*bracketPairHandler).dump
  prop C15
  modifies nothing
  loop 0
    invariant 0 <= $i && $i <= len(bph.stack)
    decreases len(bph.stack) - $i
  loop 1
    invariant 0 <= $i && $i <= len(bph.pairings)
    decreases len(bph.pairings) - $i

// rule N0 notes the class it gives to an opening bracket with its pair: all pairs keep their positions
func (*bracketPairHandler).changeOpeningBracketClass
  prop C15
  modifies elems(bph.pairings)
  ensures [class] forall i int {bph.pairings[i].brktpos.opening.bidiclz} :: 0 <= i && i < len(bph.pairings) ==> bph.pairings[i].brktpos.opening.bidiclz == (bph.pairings[i].brktpos.opening.l == s.l ? s.bidiclz : old(bph.pairings[i].brktpos.opening.bidiclz))
  ensures [kept] forall i int {bph.pairings[i].brktpos.opening.l} {bph.pairings[i].closing.l} :: 0 <= i && i < len(bph.pairings) ==> bph.pairings[i].brktpos.opening.l == old(bph.pairings[i].brktpos.opening.l) && bph.pairings[i].closing.l == old(bph.pairings[i].closing.l)
  loop 0
    invariant [range] 0 <= $i && $i <= len(bph.pairings)
    invariant [class] forall i int {bph.pairings[i].brktpos.opening.bidiclz} :: 0 <= i && i < len(bph.pairings) ==> bph.pairings[i].brktpos.opening.bidiclz == (i < $i && bph.pairings[i].brktpos.opening.l == s.l ? s.bidiclz : old(bph.pairings[i].brktpos.opening.bidiclz))
    invariant [kept] forall i int {bph.pairings[i].brktpos.opening.l} {bph.pairings[i].closing.l} :: 0 <= i && i < len(bph.pairings) ==> bph.pairings[i].brktpos.opening.l == old(bph.pairings[i].brktpos.opening.l) && bph.pairings[i].closing.l == old(bph.pairings[i].closing.l)
    decreases len(bph.pairings) - $i

// the scanner feeds each bracket, in text order, to the handler of the isolating run sequence it is in
func (*bidiScanner).prepareRuleBD16 -> t
  prop C15
  requires sc.bd16 != nil && handlerOk(sc.bd16, s.l)
  modifies sc.bd16.stack, elems(sc.bd16.stack), sc.bd16.pairings, elems(sc.bd16.pairings)
  ensures [same] t.l == s.l && t.r == s.r && t.bidiclz == s.bidiclz
  ensures [state] handlerOk(sc.bd16, s.l + 1)
  ensures [other] s.bidiclz != cBRACKO && s.bidiclz != cBRACKC ==> sc.bd16.stack == old(sc.bd16.stack) && sc.bd16.pairings == old(sc.bd16.pairings)
  ensures [opening] s.bidiclz == cBRACKO ==> sc.bd16.pairings == old(sc.bd16.pairings) && (len(sc.bd16.stack) == old(len(sc.bd16.stack)) || len(sc.bd16.stack) == old(len(sc.bd16.stack)) + 1 && sc.bd16.stack[len(sc.bd16.stack) - 1].opening.l == s.l)
  ensures [pushed] s.bidiclz == cBRACKO && old(len(sc.bd16.stack)) < 63 ==> forall k int {uax9BracketPairs[k].o} :: entryAt(k, r) ==> len(sc.bd16.stack) == old(len(sc.bd16.stack)) + 1
  ensures [closing] s.bidiclz == cBRACKC ==> (sc.bd16.stack == old(sc.bd16.stack) && sc.bd16.pairings == old(sc.bd16.pairings) && forall i int {sc.bd16.stack[i].pair.c} :: 0 <= i && i < len(sc.bd16.stack) ==> !sameBr(sc.bd16.stack[i].pair.c, r))
|   || (len(sc.bd16.stack) < old(len(sc.bd16.stack)) && len(sc.bd16.pairings) == old(len(sc.bd16.pairings)) + 1 && sameBr(old(sc.bd16.stack)[len(sc.bd16.stack)].pair.c, r))

// ---- resolver: rules, passes (C16) --------------------------------------------------
// runs a..b-1 of s adjoin each other
def chain(s, a, b) = forall i int {s[i].l} :: a <= i && i < b ==> s[i].l <= s[i].r && (i > a ==> s[i - 1].r == s[i].l)
// ... and so no run ends before an earlier one starts
def mono(s, a, b) = forall i int, j int {s[i].l, s[j].r} :: a <= i && i <= j && j < b ==> s[i].l <= s[j].r
def embok(s, b) = forall i int {s[i].context.embeddingDir} :: 0 <= i && i < b ==> s[i].context.embeddingDir <= 1
def nopdi(s, a, b) = forall i int {s[i].bidiclz} :: a <= i && i < b ==> s[i].bidiclz != 24
def sameRun(s, t) = s.l == t.l && s.r == t.r && s.bidiclz == t.bidiclz && s.context.embeddingDir == t.context.embeddingDir
def sameSl(s, t) = arr(s) == arr(t) && off(s) == off(t) && len(s) == len(t)

func (scrap).len -> n
  prop C16
  requires s.l <= s.r
  modifies nothing
  ensures n == (s.bidiclz == cNULL ? 0 : s.r - s.l)

func (scrap).contains -> b
  prop C16
  modifies nothing
  ensures b <==> s.l <= pos && pos < s.r

func opposite -> c
  prop C16
  modifies nothing
  ensures c == (dir == 0 ? 1 : dir == 1 || dir == 13 ? 0 : cNI)

func (dirContext).Context -> c
  prop C16
  modifies nothing
  ensures c == (dc.strong == cNI ? dc.embeddingDir : dc.strong == 13 ? 1 : dc.strong)

func (dirContext).StrongContext -> c
  prop C16
  modifies nothing
  ensures c == (dc.strong == 13 ? 1 : dc.strong)

func (scrap).Context -> c
  prop C16
  modifies nothing
  ensures c == (s.context.strong == cNI ? s.context.embeddingDir : s.context.strong == 13 ? 1 : s.context.strong)

func (scrap).e -> c
  prop C16
  modifies nothing
  ensures c == s.context.embeddingDir

func (*scrap).appendChild
  prop C16
  modifies s.children, elems(s.children)
  ensures [none] arr(ch) == 0 ==> sameSl(s.children, old(s.children))
  ensures [len] arr(ch) != 0 ==> len(s.children) == old(len(s.children)) + 1
  ensures [last] arr(ch) != 0 ==> sameSl(s.children[len(s.children) - 1], ch)
  ensures [kept] forall k int {s.children[k]} :: 0 <= k && k < old(len(s.children)) ==> sameSl(s.children[k], old(s.children[k]))
  ensures [place] arr(s.children) == old(arr(s.children)) || freshref(arr(s.children))

func (*scrap).appendAllChildrenOf
  prop C16
  modifies s.children, elems(s.children)
  ensures [place] arr(s.children) == old(arr(s.children)) || freshref(arr(s.children))
  ensures [kept] len(s.children) >= old(len(s.children)) && forall k int {s.children[k]} :: 0 <= k && k < old(len(s.children)) ==> sameSl(s.children[k], old(s.children[k]))
  ensures [added] arr(other.children) != old(arr(s.children)) && (forall k int {old(other.children[k])} :: 0 <= k && k < len(other.children) ==> old(arr(other.children[k])) != 0) ==>
|   len(s.children) == old(len(s.children)) + len(other.children) && forall k int {s.children[k]} :: old(len(s.children)) <= k && k < len(s.children) ==> sameSl(s.children[k], old(other.children[k - old(len(s.children))]))
  loop 0
    invariant [range] 0 <= $i && $i <= len(other.children) && len(s.children) >= old(len(s.children))
    invariant [place] arr(s.children) == atloop(arr(s.children)) || loopfresh(s.children)
    invariant [kept] forall k int {s.children[k]} :: 0 <= k && k < old(len(s.children)) ==> sameSl(s.children[k], old(s.children[k]))
    invariant [other] arr(other.children) != old(arr(s.children)) ==> forall k int {other.children[k]} :: 0 <= k && k < len(other.children) ==> sameSl(other.children[k], old(other.children[k]))
    invariant [added] arr(other.children) != old(arr(s.children)) && (forall k int {old(other.children[k])} :: 0 <= k && k < len(other.children) ==> old(arr(other.children[k])) != 0) ==>
|     len(s.children) == old(len(s.children)) + $i && forall k int {s.children[k]} :: old(len(s.children)) <= k && k < len(s.children) ==> sameSl(s.children[k], old(other.children[k - old(len(s.children))]))
    decreases len(other.children) - $i

func collapse -> res
  prop C16
  modifies elems(dest.children)
  ensures [range] res.l == dest.l && res.r == src.r && res.bidiclz == c && res.context.embeddingDir == dest.context.embeddingDir
  ensures [place] arr(res.children) == arr(dest.children) || freshref(arr(res.children))
  ensures [children] arr(src.children) != arr(dest.children) && (forall k int {old(src.children[k])} :: 0 <= k && k < len(src.children) ==> old(arr(src.children[k])) != 0) ==>
|   len(res.children) == len(dest.children) + len(src.children) && (forall k int {res.children[k]} :: 0 <= k && k < len(dest.children) ==> sameSl(res.children[k], old(dest.children[k])))
|   && forall k int {res.children[k]} :: len(dest.children) <= k && k < len(res.children) ==> sameSl(res.children[k], old(src.children[k - len(dest.children)]))

// A rule's action: alen is the number of runs it matches.
logic alen(f int) int
logic acls(f int) int
logic ajmp(f int) int
extern strings.HasPrefix(s, prefix) -> b
  modifies nothing
  ensures len(prefix) == 1 ==> (b <==> len(s) >= 1 && s[0] == prefix[0])
extern functype:bidi.ruleAction(self, match) -> rhs, step, chg
  requires [n] 1 <= alen(int(self)) && alen(int(self)) <= len(match)
  requires [chain] chain(match, 0, alen(int(self)))
  requires [classes] nopdi(match, 0, alen(int(self))) && embok(match, alen(int(self)))
  modifies elems(match), elems(match[0].children), elems(match[1].children)
  ensures [len] 1 <= len(rhs) && len(rhs) <= alen(int(self)) && -2 <= step && step <= len(rhs)
  ensures [place] arr(rhs) == arr(match) && off(rhs) == off(match) || fresh(rhs)
  ensures [left] rhs[0].l == old(match[0].l)
  ensures [right] rhs[len(rhs) - 1].r == old(match[alen(int(self)) - 1].r)
  ensures [chain] chain(rhs, 0, len(rhs))
  ensures [mono] mono(rhs, 0, len(rhs))
  ensures [classes] nopdi(rhs, 0, len(rhs)) && embok(rhs, len(rhs))
  ensures [rest] forall i int {match[i].l} {match[i].r} {match[i].bidiclz} {match[i].context.embeddingDir} :: i < 0 || i >= alen(int(self)) ==> sameRun(match[i], old(match[i]))

func squash$1
  prop C16
  implements bidi.ruleAction
  creates 1 <= *n && *n <= 3 && *c != 24 && -2 <= *jmp && *jmp <= 1
  attr alen(int(self)) == *n && acls(int(self)) == *c && ajmp(int(self)) == *jmp
  ensures [single] len(rhs) == 1 && rhs[0].bidiclz == *c && step == *jmp && !chg
  loop 0
    invariant [range] 0 <= $i && $i <= *n
    invariant [first] match[0].l == old(match[0].l) && match[0].r == old(match[*n - 1].r) && match[0].bidiclz == *c && match[0].context.embeddingDir <= 1
    invariant [rest] forall i int {match[i].l} {match[i].r} {match[i].bidiclz} {match[i].context.embeddingDir} :: i < 0 || i >= 1 ==> sameRun(match[i], old(match[i]))
    invariant [children] arr(match[0].children) == atloop(arr(match[0].children)) || loopfresh(match[0].children)
    decreases *n - $i

func squash -> f
  prop C16
  requires 1 <= n && n <= 3 && c != 24 && -2 <= jmp && jmp <= 1
  modifies nothing
  ensures [action] f != nil && alen(int(f)) == n && acls(int(f)) == c && ajmp(int(f)) == jmp

func makeSquashRule -> r
  prop C16
  requires 1 <= len(lhs) && len(lhs) <= 3 && c != 24 && -2 <= jmp && jmp <= 1
  modifies nothing
  ensures [rule] r != nil && fresh(r) && r.lhsLen == len(lhs) && r.action != nil && alen(int(r.action)) == len(lhs) && acls(int(r.action)) == c && ajmp(int(r.action)) == jmp && r.pass == (len(name) > 0 && name[0] == 87 ? 1 : 2)

func makeMidSwapRule$1
  prop C16
  implements bidi.ruleAction
  creates len(*lhs) == 3 && *c != 24 && -2 <= *jmp && *jmp <= 3
  attr alen(int(self)) == len(*lhs) && acls(int(self)) == *c && ajmp(int(self)) == *jmp
  ensures [middle] len(rhs) == 3 && rhs[1].bidiclz == *c && step == *jmp && !chg && sameRun(rhs[0], old(match[0])) && sameRun(rhs[2], old(match[2])) && rhs[1].l == old(match[1].l) && rhs[1].r == old(match[1].r)

func makeMidSwapRule -> r
  prop C16
  requires len(lhs) == 3 && c != 24 && -2 <= jmp && jmp <= 3
  modifies nothing
  ensures [rule] r != nil && fresh(r) && r.lhsLen == 3 && r.action != nil && alen(int(r.action)) == 3 && acls(int(r.action)) == c && ajmp(int(r.action)) == jmp && r.pass == 2

func makeLHS -> b
  prop C16
  modifies nothing
  ensures [bytes] fresh(b) && len(b) == len(toks) && forall i int {b[i]} :: 0 <= i && i < len(toks) && toks[i] <= 255 ==> b[i] == toks[i]
  loop 0
    invariant [range] 0 <= $i && $i <= len(toks)
    invariant [bytes] forall i int {b[i]} :: 0 <= i && i < $i && toks[i] <= 255 ==> b[i] == toks[i]
    decreases len(toks) - $i

// EN after L becomes L, else it is stepped over
func ruleW7$1
  prop C16
  implements bidi.ruleAction
  attr alen(int(self)) == 1 && acls(int(self)) == 0
  ensures [single] len(rhs) == 1 && rhs[0].bidiclz == (old(match[0].context.strong == cNI ? match[0].context.embeddingDir : match[0].context.strong) == 0 ? 0 : old(match[0].bidiclz))

// R NI x: NI joins R
func ruleN1_3$1
  prop C16
  implements bidi.ruleAction
  attr alen(int(self)) == 3 && acls(int(self)) == 1
  ensures [joined] len(rhs) == 2 && rhs[0].bidiclz == 1 && rhs[0].r == old(match[1].r) && sameRun(rhs[1], old(match[2])) && !chg

// R NI x: NI joins R
func ruleN1_4$1
  prop C16
  implements bidi.ruleAction
  attr alen(int(self)) == 3 && acls(int(self)) == 1
  ensures [joined] len(rhs) == 2 && rhs[0].bidiclz == 1 && rhs[0].r == old(match[1].r) && sameRun(rhs[1], old(match[2])) && !chg

// x NI R: NI joins R
func ruleN1_5$1
  prop C16
  implements bidi.ruleAction
  attr alen(int(self)) == 3 && acls(int(self)) == 1
  ensures [joined] len(rhs) == 2 && sameRun(rhs[0], old(match[0])) && rhs[1].bidiclz == 1 && rhs[1].r == old(match[2].r) && !chg

// x NI R: NI joins R
func ruleN1_8$1
  prop C16
  implements bidi.ruleAction
  attr alen(int(self)) == 3 && acls(int(self)) == 1
  ensures [joined] len(rhs) == 2 && sameRun(rhs[0], old(match[0])) && rhs[1].bidiclz == 1 && rhs[1].r == old(match[2].r) && !chg

// NI becomes the embedding direction
func ruleN2$1
  prop C16
  implements bidi.ruleAction
  attr alen(int(self)) == 1
  ensures [single] len(rhs) == 1 && rhs[0].bidiclz == old(match[0].context.embeddingDir) && !chg

// the rule table of UAX#9, W4 to N2
func ruleW4_1 -> r, lhs
  prop C16
  modifies nothing
  ensures [lhs] len(lhs) == 3 && lhs[0] == 2 && lhs[1] == 3 && lhs[2] == 2
  ensures [rule] r != nil && r.lhsLen == 3 && r.pass == 1 && r.action != nil && alen(int(r.action)) == 3 && acls(int(r.action)) == 2
func ruleW4_2 -> r, lhs
  prop C16
  modifies nothing
  ensures [lhs] len(lhs) == 3 && lhs[0] == 2 && lhs[1] == 6 && lhs[2] == 2
  ensures [rule] r != nil && r.lhsLen == 3 && r.pass == 1 && r.action != nil && alen(int(r.action)) == 3 && acls(int(r.action)) == 2
func ruleW4_3 -> r, lhs
  prop C16
  modifies nothing
  ensures [lhs] len(lhs) == 3 && lhs[0] == 5 && lhs[1] == 6 && lhs[2] == 5
  ensures [rule] r != nil && r.lhsLen == 3 && r.pass == 1 && r.action != nil && alen(int(r.action)) == 3 && acls(int(r.action)) == 5
func ruleW5_1 -> r, lhs
  prop C16
  modifies nothing
  ensures [lhs] len(lhs) == 2 && lhs[0] == 4 && lhs[1] == 2
  ensures [rule] r != nil && r.lhsLen == 2 && r.pass == 1 && r.action != nil && alen(int(r.action)) == 2 && acls(int(r.action)) == 2
func ruleW5_2 -> r, lhs
  prop C16
  modifies nothing
  ensures [lhs] len(lhs) == 2 && lhs[0] == 2 && lhs[1] == 4
  ensures [rule] r != nil && r.lhsLen == 2 && r.pass == 1 && r.action != nil && alen(int(r.action)) == 2 && acls(int(r.action)) == 2
func ruleW6_1 -> r, lhs
  prop C16
  modifies nothing
  ensures [lhs] len(lhs) == 1 && lhs[0] == 4
  ensures [rule] r != nil && r.lhsLen == 1 && r.pass == 1 && r.action != nil && alen(int(r.action)) == 1 && acls(int(r.action)) == 27
func ruleW6_2 -> r, lhs
  prop C16
  modifies nothing
  ensures [lhs] len(lhs) == 1 && lhs[0] == 3
  ensures [rule] r != nil && r.lhsLen == 1 && r.pass == 1 && r.action != nil && alen(int(r.action)) == 1 && acls(int(r.action)) == 27
func ruleW6_3 -> r, lhs
  prop C16
  modifies nothing
  ensures [lhs] len(lhs) == 1 && lhs[0] == 6
  ensures [rule] r != nil && r.lhsLen == 1 && r.pass == 1 && r.action != nil && alen(int(r.action)) == 1 && acls(int(r.action)) == 27
func ruleW6x -> r, lhs
  prop C16
  modifies nothing
  ensures [lhs] len(lhs) == 2 && lhs[0] == 27 && lhs[1] == 27
  ensures [rule] r != nil && r.lhsLen == 2 && r.pass == 1 && r.action != nil && alen(int(r.action)) == 2 && acls(int(r.action)) == 27
func ruleW7 -> r, lhs
  prop C16
  modifies nothing
  ensures [lhs] len(lhs) == 1 && lhs[0] == 2
  ensures [rule] r != nil && r.lhsLen == 1 && r.pass == 1 && r.action != nil && alen(int(r.action)) == 1 && acls(int(r.action)) == 0
func ruleN1_1 -> r, lhs
  prop C16
  modifies nothing
  ensures [lhs] len(lhs) == 3 && lhs[0] == 0 && lhs[1] == 27 && lhs[2] == 0
  ensures [rule] r != nil && r.lhsLen == 3 && r.pass == 2 && r.action != nil && alen(int(r.action)) == 3 && acls(int(r.action)) == 0
func ruleN1_2 -> r, lhs
  prop C16
  modifies nothing
  ensures [lhs] len(lhs) == 3 && lhs[0] == 1 && lhs[1] == 27 && lhs[2] == 1
  ensures [rule] r != nil && r.lhsLen == 3 && r.pass == 2 && r.action != nil && alen(int(r.action)) == 3 && acls(int(r.action)) == 1
func ruleN1_3 -> r, lhs
  prop C16
  modifies nothing
  ensures [lhs] len(lhs) == 3 && lhs[0] == 1 && lhs[1] == 27 && lhs[2] == 5
  ensures [rule] r != nil && r.lhsLen == 3 && r.pass == 2 && r.action != nil && alen(int(r.action)) == 3 && acls(int(r.action)) == 1
func ruleN1_4 -> r, lhs
  prop C16
  modifies nothing
  ensures [lhs] len(lhs) == 3 && lhs[0] == 1 && lhs[1] == 27 && lhs[2] == 2
  ensures [rule] r != nil && r.lhsLen == 3 && r.pass == 2 && r.action != nil && alen(int(r.action)) == 3 && acls(int(r.action)) == 1
func ruleN1_5 -> r, lhs
  prop C16
  modifies nothing
  ensures [lhs] len(lhs) == 3 && lhs[0] == 5 && lhs[1] == 27 && lhs[2] == 1
  ensures [rule] r != nil && r.lhsLen == 3 && r.pass == 2 && r.action != nil && alen(int(r.action)) == 3 && acls(int(r.action)) == 1
func ruleN1_6 -> r, lhs
  prop C16
  modifies nothing
  ensures [lhs] len(lhs) == 3 && lhs[0] == 5 && lhs[1] == 27 && lhs[2] == 5
  ensures [rule] r != nil && r.lhsLen == 3 && r.pass == 2 && r.action != nil && alen(int(r.action)) == 3 && acls(int(r.action)) == 1
func ruleN1_7 -> r, lhs
  prop C16
  modifies nothing
  ensures [lhs] len(lhs) == 3 && lhs[0] == 5 && lhs[1] == 27 && lhs[2] == 2
  ensures [rule] r != nil && r.lhsLen == 3 && r.pass == 2 && r.action != nil && alen(int(r.action)) == 3 && acls(int(r.action)) == 1
func ruleN1_8 -> r, lhs
  prop C16
  modifies nothing
  ensures [lhs] len(lhs) == 3 && lhs[0] == 2 && lhs[1] == 27 && lhs[2] == 1
  ensures [rule] r != nil && r.lhsLen == 3 && r.pass == 2 && r.action != nil && alen(int(r.action)) == 3 && acls(int(r.action)) == 1
func ruleN1_9 -> r, lhs
  prop C16
  modifies nothing
  ensures [lhs] len(lhs) == 3 && lhs[0] == 2 && lhs[1] == 27 && lhs[2] == 5
  ensures [rule] r != nil && r.lhsLen == 3 && r.pass == 2 && r.action != nil && alen(int(r.action)) == 3 && acls(int(r.action)) == 1
func ruleN1_10 -> r, lhs
  prop C16
  modifies nothing
  ensures [lhs] len(lhs) == 3 && lhs[0] == 2 && lhs[1] == 27 && lhs[2] == 2
  ensures [rule] r != nil && r.lhsLen == 3 && r.pass == 2 && r.action != nil && alen(int(r.action)) == 3 && acls(int(r.action)) == 1
func ruleN2 -> r, lhs
  prop C16
  modifies nothing
  ensures [lhs] len(lhs) == 1 && lhs[0] == 27
  ensures [rule] r != nil && r.lhsLen == 1 && r.pass == 2 && r.action != nil && alen(int(r.action)) == 1
func ruleL -> r, lhs
  prop C16
  modifies nothing
  ensures [lhs] len(lhs) == 2 && lhs[0] == 0 && lhs[1] == 0
  ensures [rule] r != nil && r.lhsLen == 2 && r.pass == 2 && r.action != nil && alen(int(r.action)) == 2 && acls(int(r.action)) == 0
func ruleR -> r, lhs
  prop C16
  modifies nothing
  ensures [lhs] len(lhs) == 2 && lhs[0] == 1 && lhs[1] == 1
  ensures [rule] r != nil && r.lhsLen == 2 && r.pass == 2 && r.action != nil && alen(int(r.action)) == 2 && acls(int(r.action)) == 1

// ---- passes --------------------------------------------------------------------------
// bidipos: end of the text handed over by the scanner so far
ghost bidipos int
def alive(p) = p.sc != nil && p.sc.IRS[0] != nil && p.trie != nil
// the runs on the stack cover the text read so far
def cover(p) = len(p.stack) >= 1 && p.stack[0].l == 0 && p.stack[len(p.stack) - 1].r == bidipos && chain(p.stack, 0, len(p.stack)) && mono(p.stack, 0, len(p.stack)) && embok(p.stack, len(p.stack))
def below(p, n) = forall i int {p.stack[i].l} {p.stack[i].r} {p.stack[i].bidiclz} {p.stack[i].context.embeddingDir} :: 0 <= i && i < n ==> sameRun(p.stack[i], old(p.stack[i]))

// The scanner delivers adjoining runs in text order (assumed: it is another goroutine at the other end of a channel;
// compared with the text by the driver).
func (*parser).nextInputScrap -> s, ok
  prop C16
  trusted
  modifies ghost bidipos
  ensures ok ==> s.l == old(bidipos) && s.l <= s.r && s.r == bidipos && s.context.embeddingDir <= 1
  ensures !ok ==> bidipos == old(bidipos)

func (*parser).read -> k, ok
  prop C16
  requires cover(p)
  modifies p.stack, p.eof, elems(p.stack), ghost bidipos
  ensures [cover] cover(p)
  ensures [count] 0 <= k && len(p.stack) == old(len(p.stack)) + k && (n <= 0 ==> k == 0) && (k < n ==> p.eof) && (k > 0 ==> k <= n)
  ensures [nothing] !ok ==> k == 0 && (n <= 0 || p.eof) && (old(p.eof) ==> p.eof)
  ensures [kept] below(p, old(len(p.stack)))
  ensures [place] arr(p.stack) == old(arr(p.stack)) || freshref(arr(p.stack))
  loop 0
    invariant [range] 0 <= i && i <= n && len(p.stack) == old(len(p.stack)) + i && cover(p) && below(p, old(len(p.stack)))
    invariant [eof] p.eof == old(p.eof)
    invariant [place] arr(p.stack) == atloop(arr(p.stack)) || loopfresh(p.stack)
    decreases n - i

func (*parser).reduce
  prop C16
  requires 1 <= len(rhs) && len(rhs) <= n && 0 <= p.sp && p.sp + n <= len(p.stack) && startIRS <= p.sp + len(rhs)
  requires arr(rhs) == arr(p.stack) ==> off(rhs) == off(p.stack) + p.sp
  requires [left] chain(p.stack, 0, p.sp) && (p.sp > 0 ==> p.stack[p.sp - 1].r == rhs[0].l)
  requires [middle] chain(rhs, 0, len(rhs)) && mono(rhs, 0, len(rhs))
  requires [mono] mono(p.stack, 0, p.sp) && mono(p.stack, p.sp + n, len(p.stack)) && forall i int, j int {p.stack[i].l, p.stack[j].r} :: 0 <= i && i < p.sp && p.sp + n <= j && j < len(p.stack) ==> p.stack[i].l <= p.stack[j].r
  requires [right] chain(p.stack, p.sp + n, len(p.stack)) && (p.sp + n < len(p.stack) ==> rhs[len(rhs) - 1].r == p.stack[p.sp + n].l)
  modifies p.stack, elems(p.stack)
  ensures [len] len(p.stack) == old(len(p.stack)) + len(rhs) - n && arr(p.stack) == old(arr(p.stack)) && off(p.stack) == old(off(p.stack))
  ensures [below] below(p, p.sp)
  ensures [rhs] forall i int {p.stack[i].l} {p.stack[i].r} {p.stack[i].bidiclz} {p.stack[i].context.embeddingDir} :: p.sp <= i && i < p.sp + len(rhs) ==> sameRun(p.stack[i], old(rhs[i - p.sp]))
  ensures [above] forall i int {p.stack[i].l} {p.stack[i].r} {p.stack[i].bidiclz} {p.stack[i].context.embeddingDir} :: p.sp + len(rhs) <= i && i < len(p.stack) ==> sameRun(p.stack[i], old(p.stack[i + n - len(rhs)]))
  ensures [chain] chain(p.stack, 0, len(p.stack))
  ensures [_from] old(forall i int {p.stack[i].l} :: 0 <= i && i < p.sp ==> p.stack[i].l <= rhs[0].l)
  ensures [_rhs0] old(forall j int {rhs[j].r} :: 0 <= j && j < len(rhs) ==> rhs[0].l <= rhs[j].r)
  ensures [_rhs1] old(forall j int {rhs[j].l} :: 0 <= j && j < len(rhs) ==> rhs[j].l <= rhs[len(rhs) - 1].r)
  ensures [_to] old(forall i int {p.stack[i].r} :: p.sp + n <= i && i < len(p.stack) ==> rhs[len(rhs) - 1].r <= p.stack[i].r)
  ensures [_below] mono(p.stack, 0, p.sp)
  ensures [_from1] forall i int {p.stack[i].l} :: 0 <= i && i < p.sp ==> p.stack[i].l <= old(rhs[0].l)
  ensures [_rhs2] forall i int {p.stack[i].r} :: p.sp <= i && i < p.sp + len(rhs) ==> old(rhs[0].l) <= p.stack[i].r
  ensures [_rhs3] forall i int {p.stack[i].l} :: p.sp <= i && i < p.sp + len(rhs) ==> p.stack[i].l <= old(rhs[len(rhs) - 1].r)
  ensures [_to1] forall i int {p.stack[i].r} :: p.sp + len(rhs) <= i && i < len(p.stack) ==> old(rhs[len(rhs) - 1].r) <= p.stack[i].r
  ensures [_rhs] mono(p.stack, p.sp, p.sp + len(rhs))
  ensures [_above] mono(p.stack, p.sp + len(rhs), len(p.stack))
  ensures [_belowabove] forall i int, j int {p.stack[i].l, p.stack[j].r} :: 0 <= i && i < p.sp && p.sp + len(rhs) <= j && j < len(p.stack) ==> p.stack[i].l <= p.stack[j].r
  ensures [mono] mono(p.stack, 0, len(p.stack))
  ensures [emb] old(embok(p.stack, p.sp) && embok(rhs, len(rhs)) && forall i int {p.stack[i].context.embeddingDir} :: p.sp + n <= i && i < len(p.stack) ==> p.stack[i].context.embeddingDir <= 1) ==> embok(p.stack, len(p.stack))
  ensures [right] p.stack[len(p.stack) - 1].r == old(p.sp + n < len(p.stack) ? p.stack[len(p.stack) - 1].r : rhs[len(rhs) - 1].r)
  ensures [left] p.stack[0].l == old(p.sp > 0 ? p.stack[0].l : rhs[0].l)
  loop 0
    invariant [range] 0 <= $i && $i <= len(rhs) && p.stack == old(p.stack) && p.sp == old(p.sp)
    invariant [done] forall i int {p.stack[i].l} {p.stack[i].r} {p.stack[i].bidiclz} {p.stack[i].context.embeddingDir} :: p.sp <= i && i < p.sp + $i ==> sameRun(p.stack[i], old(rhs[i - p.sp]))
    invariant [rest] forall i int {p.stack[i].l} {p.stack[i].r} {p.stack[i].bidiclz} {p.stack[i].context.embeddingDir} :: i < p.sp || i >= p.sp + $i ==> sameRun(p.stack[i], old(p.stack[i]))
    invariant [src] forall i int {rhs[i].l} {rhs[i].r} {rhs[i].bidiclz} {rhs[i].context.embeddingDir} :: 0 <= i && i < len(rhs) ==> sameRun(rhs[i], old(rhs[i]))
    decreases len(rhs) - $i

// Look-up of the rules for the runs at the parsing position (assumed, and compared by the driver with the table of the
// rule constructors' contracts for every sequence of up to three classes).
func (*parser).matchRulesLHS -> rule, short
  prop C16
  trusted
  requires p.trie != nil && len(scraps) >= 1
  modifies nothing
  ensures rule != nil ==> rule.action != nil && rule.lhsLen == alen(int(rule.action)) && 1 <= rule.lhsLen && rule.lhsLen <= len(scraps) && nopdi(scraps, 0, rule.lhsLen)
  ensures short != nil ==> short.action != nil && short.lhsLen == alen(int(short.action)) && short.lhsLen == 1 && nopdi(scraps, 0, 1)

func (*bidiScanner).findBD16ForPos -> h
  prop C16
  requires sc.IRS[0] != nil
  modifies nothing
  ensures [some] h != nil
  loop 0
    invariant [some] bd16 != nil

func (*bracketPairHandler).UpdateClosingBrackets
  prop C16
  modifies nothing
  loop 0
    invariant [range] 0 <= $i && $i <= len(bph.pairings)
    decreases len(bph.pairings) - $i

func isisolate -> b
  prop C16
  modifies nothing
  ensures b <==> 21 <= s.bidiclz && s.bidiclz <= 24

func min -> m
  prop C16
  modifies nothing
  ensures m == (a < b ? a : b)

func max -> m
  prop C16
  modifies nothing
  ensures m == (a > b ? a : b)

func copyStackSegm -> cp
  prop C16
  requires 0 <= start && 0 <= runlen && start + runlen <= len(a)
  modifies nothing
  ensures [copy] fresh(cp) && len(cp) == runlen && forall i int {cp[i].l} {cp[i].r} {cp[i].bidiclz} {cp[i].context.embeddingDir} :: 0 <= i && i < runlen ==> sameRun(cp[i], a[start + i])

func (*parser).passed -> b
  prop C16
  requires p.sp <= len(p.stack)
  modifies nothing
  ensures b <==> p.sp > 0 && p.stack[p.sp - 1].bidiclz == c

func (*parser).findCorrespondingBracket -> o, found
  prop C16
  requires p.sc != nil && p.sc.IRS[0] != nil
  modifies nothing
  ensures [self] !found ==> o.l == s.l && o.r == s.r && o.bidiclz == s.bidiclz

func (*parser).changeBracketBidiClass
  prop C16
  requires p.sc != nil && p.sc.IRS[0] != nil
  modifies all([]bidi.pairing)

// rule N0 changes nothing but the class of the bracket
func (*parser).performRuleN0 -> jmp
  prop C16
  requires alive(p) && 0 <= p.sp && p.sp < len(p.stack) && p.stack[p.sp].context.embeddingDir <= 1
  modifies elems(p.stack), all([]bidi.pairing)
  ensures [jump] -2 <= jmp && jmp <= 1
  ensures [run] p.stack[p.sp].l == old(p.stack[p.sp].l) && p.stack[p.sp].r == old(p.stack[p.sp].r) && p.stack[p.sp].context.embeddingDir == old(p.stack[p.sp].context.embeddingDir)
  ensures [others] forall i int {p.stack[i].l} {p.stack[i].r} {p.stack[i].bidiclz} {p.stack[i].context.embeddingDir} :: i != p.sp ==> sameRun(p.stack[i], old(p.stack[i]))

func (*parser).pass2
  prop C16
  requires alive(p) && cover(p) && 0 <= startIRS && startIRS < len(p.stack) && nopdi(p.stack, 0, startIRS)
  modifies p.sp, p.stack, elems(p.stack), all([][]bidi.scrap), all([]bidi.pairing)
  ensures [cover] cover(p)
  ensures [sp] startIRS < p.sp && p.sp <= len(p.stack)
  ensures [below] below(p, startIRS)
  ensures [place] arr(p.stack) == old(arr(p.stack)) && off(p.stack) == old(off(p.stack))
  loop 0
    invariant [cover] cover(p)
    invariant [sp] startIRS <= p.sp && p.sp <= len(p.stack) && startIRS < len(p.stack)
    invariant [below] below(p, startIRS)
    invariant [place] arr(p.stack) == atloop(arr(p.stack)) && off(p.stack) == atloop(off(p.stack))

func (*parser).pass1 -> r
  prop C16
  requires alive(p) && cover(p) && 1 <= startIRS && startIRS <= len(p.stack) && nopdi(p.stack, 0, startIRS) && len(p.spIRS) >= 1
  modifies p.sp, p.stack, p.eof, p.spIRS, elems(p.stack), elems(p.spIRS), all([][]bidi.scrap), all([]bidi.pairing), ghost bidipos
  ensures [cover] cover(p)
  ensures [sp] startIRS <= p.sp && p.sp <= len(p.stack)
  ensures [below] below(p, startIRS)
  ensures [irs] len(p.spIRS) == old(len(p.spIRS))
  ensures [place] (arr(p.stack) == old(arr(p.stack)) || freshref(arr(p.stack))) && (arr(p.spIRS) == old(arr(p.spIRS)) || freshref(arr(p.spIRS)))
  ensures [closed] r ==> p.sp > startIRS && len(p.spIRS) > 1 && p.stack[p.sp - 1].bidiclz == 24 && nopdi(p.stack, 0, p.sp - 1)
  ensures [open] !r ==> p.sp == len(p.stack) && nopdi(p.stack, 0, p.sp)
  hint atloop(p.stack)
  hint atloop(p.spIRS)
  loop 0
    invariant [cover] cover(p)
    invariant [sp] startIRS <= p.sp && p.sp <= len(p.stack) && !pdi
    invariant [below] below(p, startIRS)
    invariant [irs] len(p.spIRS) == old(len(p.spIRS))
    invariant [nopdi] nopdi(p.stack, 0, p.sp)
    invariant [walk] walk ==> p.sp < len(p.stack) && (shortrule != nil ==> shortrule.action != nil && shortrule.lhsLen == 1 && alen(int(shortrule.action)) == 1 && nopdi(p.stack, p.sp, p.sp + 1))
    invariant [place] (arr(p.stack) == atloop(arr(p.stack)) || loopfresh(p.stack)) && (arr(p.spIRS) == atloop(arr(p.spIRS)) || loopfresh(p.spIRS))

// parsing of one isolating run sequence: if it is closed its runs become one run with them as children
func (*parser).parseIRS -> runs, start, runlen, ok
  prop C16
  requires alive(p) && cover(p) && 0 <= startIRS && startIRS < len(p.stack) && nopdi(p.stack, 0, startIRS + 1)
  modifies p.sp, p.stack, p.eof, p.spIRS, elems(p.stack), elems(p.spIRS), all([][]bidi.scrap), all([]bidi.pairing), ghost bidipos
  ensures [cover] cover(p)
  ensures [part] start == startIRS && 1 <= runlen && startIRS + runlen <= len(p.stack) && p.sp == startIRS + runlen
  ensures [below] below(p, startIRS)
  ensures [irs] len(p.spIRS) == old(len(p.spIRS))
  ensures [place] (arr(p.stack) == old(arr(p.stack)) || freshref(arr(p.stack))) && (arr(p.spIRS) == old(arr(p.spIRS)) || freshref(arr(p.spIRS)))
  ensures [closed] ok ==> fresh(runs) && arr(runs) != arr(p.stack) && len(runs) == 1 && runs[0].l <= runs[0].r && runs[0].bidiclz == cNI && runs[0].l == p.stack[startIRS].l && runs[0].r == p.stack[startIRS + runlen - 1].r && runs[0].context.embeddingDir == 0
  ensures [children] ok ==> len(runs[0].children) == 1 && len(runs[0].children[0]) == runlen && chain(runs[0].children[0], 0, runlen) && runs[0].children[0][0].l == runs[0].l && runs[0].children[0][runlen - 1].r == runs[0].r
  ensures [outer] len(p.spIRS) == 0 ==> !ok
  ensures [open] !ok ==> arr(runs) == arr(p.stack) && off(runs) == off(p.stack) + startIRS && len(runs) == len(p.stack) - startIRS && (len(p.spIRS) > 0 ==> runlen == len(runs) && nopdi(p.stack, 0, len(p.stack)))

func (*parser).applySubIRS -> at
  prop C16
  requires alive(p) && cover(p) && 1 <= startIRS && startIRS <= p.sp && p.sp < len(p.stack) && nopdi(p.stack, 0, p.sp + 1) && len(p.spIRS) >= 1
  modifies p.sp, p.stack, p.eof, p.spIRS, elems(p.stack), elems(p.spIRS), all([][]bidi.scrap), all([]bidi.pairing), ghost bidipos
  ensures [cover] cover(p)
  ensures [at] startIRS <= at && at <= len(p.stack) && nopdi(p.stack, 0, at)
  ensures [below] below(p, startIRS)
  ensures [irs] len(p.spIRS) == old(len(p.spIRS))
  ensures [place] (arr(p.stack) == old(arr(p.stack)) || freshref(arr(p.stack))) && (arr(p.spIRS) == old(arr(p.spIRS)) || freshref(arr(p.spIRS)))

func directionFromBidiClass -> d
  prop C16
  modifies nothing
  ensures d == (s.bidiclz == 0 || s.bidiclz == 21 || s.bidiclz == 2 || s.bidiclz == 5 ? 0 : s.bidiclz == 1 || s.bidiclz == 22 ? 1 : embedding)

func (*bidiScanner).initialOuterScrap -> s
  prop C16
  modifies nothing
  ensures [empty] s.l == 0 && s.r == 0 && s.context.embeddingDir <= 1 && arr(s.children) == 0
  ensures [class] setIRS ==> s.bidiclz == 21 + s.context.embeddingDir

// the resolved runs of a paragraph
func (*parser).ResolveLevels -> rl
  prop C16
  requires alive(p) && len(p.stack) == 0 && len(p.spIRS) == 0 && bidipos == 0
  modifies p.pipe, p.sp, p.stack, p.eof, p.spIRS, elems(p.stack), elems(p.spIRS), all([][]bidi.scrap), all([]bidi.pairing), ghost bidipos
  ensures [partition] rl != nil && len(rl.scraps) >= 2 && rl.scraps[0].l == 0 && rl.scraps[len(rl.scraps) - 1].r == bidipos && chain(rl.scraps, 0, len(rl.scraps))
  ensures [embedding] rl.embedding <= 1

// ---- splitting (C18) ----------------------------------------------------------------------
// Backing arrays of runs form a tree: the array of an isolate lies below the array of the run that contains it. nlo/nhi number
// the arrays such that the numbers of the arrays below a are those in nlo(a)+1 .. nhi(a)-1.
logic mark(a int) int
logic nlo(a int) int
logic nhi(a int) int
def under(a, b) = nlo(b) <= nlo(a) && nlo(a) < nhi(b)
def treekids(c, b) = (forall j int {c[j]} :: 0 <= j && j < len(c) ==> mark(arr(c[j])) == 0 && nlo(b) < nlo(arr(c[j])) && nlo(arr(c[j])) < nhi(arr(c[j])) && nhi(arr(c[j])) <= nhi(b))
|  && (forall j int, k int {c[j], c[k]} :: 0 <= j && j < k && k < len(c) ==> nhi(arr(c[j])) <= nlo(arr(c[k])))
def tree(s) = mark(arr(s)) == 0 && nlo(arr(s)) < nhi(arr(s))
|  && (forall i int, j int {s[i].children[j]} :: 0 <= i && i < len(s) && 0 <= j && j < len(s[i].children) ==> mark(arr(s[i].children[j])) == 0 && nlo(arr(s)) < nlo(arr(s[i].children[j]))
|      && nlo(arr(s[i].children[j])) < nhi(arr(s[i].children[j])) && nhi(arr(s[i].children[j])) <= nhi(arr(s)))
|  && (forall i int, j int, k int {s[i].children[j], s[i].children[k]} :: 0 <= i && i < len(s) && 0 <= j && j < k && k < len(s[i].children) ==> nhi(arr(s[i].children[j])) <= nlo(arr(s[i].children[k])))
def sameCell(a, k) = raw(a, "[]scrap")[k].l == old(raw(a, "[]scrap")[k].l) && raw(a, "[]scrap")[k].r == old(raw(a, "[]scrap")[k].r) && raw(a, "[]scrap")[k].bidiclz == old(raw(a, "[]scrap")[k].bidiclz)
|  && sameSl(raw(a, "[]scrap")[k].children, old(raw(a, "[]scrap")[k].children))
// arrays that are not below array b have not changed
def keeps(b) = forall a int, k int {mark(a), raw(a, "[]scrap")[k].l} {mark(a), raw(a, "[]scrap")[k].r} {mark(a), raw(a, "[]scrap")[k].bidiclz} {mark(a), raw(a, "[]scrap")[k].children} :: mark(a) == 0 && !freshref(a) && !under(a, b) ==> sameCell(a, k)
// arrays that are not strictly below array b have not changed
def keepsBelow(b) = forall a int, k int {mark(a), raw(a, "[]scrap")[k].l} {mark(a), raw(a, "[]scrap")[k].r} {mark(a), raw(a, "[]scrap")[k].bidiclz} {mark(a), raw(a, "[]scrap")[k].children} :: mark(a) == 0 && !freshref(a) && !(nlo(b) < nlo(a) && nlo(a) < nhi(b)) ==> sameCell(a, k)
def same(s) = forall k int {s[k].l} {s[k].r} {s[k].bidiclz} {s[k].children} :: 0 <= k && k < len(s) ==> s[k].l == old(s[k].l) && s[k].r == old(s[k].r) && s[k].bidiclz == old(s[k].bidiclz) && sameSl(s[k].children, old(s[k].children))

func irsContains -> r
  prop C18
  modifies nothing
  ensures r <==> len(scraps) > 0 && scraps[0].l <= pos && scraps[len(scraps) - 1].r > pos

func validcharpos -> q
  prop C18
  modifies nothing
  ensures q == (p > diff ? p - diff : 0)

func split -> pre, suf
  prop C18
  assumes chain(scraps, 0, len(scraps))
  assumes tree(scraps)
  assumes forall i int, j int {scraps[i].children[j]} :: 0 <= i && i < len(scraps) && 0 <= j && j < len(scraps[i].children) ==> len(scraps[i].children[j]) > 0
  modifies all([]bidi.scrap)
  let cut = old(len(scraps) > 0 && scraps[0].l <= at && at < scraps[len(scraps) - 1].r)
  let d = old(len(scraps) > 0 && 21 <= scraps[0].bidiclz && scraps[0].bidiclz <= 24) ? 1 : 0
  ensures [before] old(len(scraps) > 0 && at < scraps[0].l) ==> len(pre) == 0 && sameSl(suf, scraps) && same(scraps)
  ensures [after] old(len(scraps) == 0 || at >= scraps[0].l && at >= scraps[len(scraps) - 1].r) ==> sameSl(pre, scraps) && len(suf) == 0 && same(scraps)
  ensures [prefix] cut ==> arr(pre) == arr(scraps) && off(pre) == off(scraps) && 0 < len(pre) && len(pre) <= len(scraps) && chain(pre, 0, len(pre)) && pre[0].l == old(scraps[0].l) && pre[len(pre) - 1].r == at
  ensures [suffix] cut ==> fresh(suf) && len(suf) == len(scraps) - len(pre) + 1 + d && chain(suf, 0, len(suf)) && suf[0].l == at && suf[len(suf) - 1].r == old(scraps[len(scraps) - 1].r)
  ensures [prefixRuns] cut ==> forall k int {pre[k].l} {pre[k].r} {pre[k].bidiclz} :: 0 <= k && k < len(pre) ==> pre[k].l == old(scraps[k].l) && pre[k].bidiclz == old(scraps[k].bidiclz) && (k < len(pre) - 1 ==> pre[k].r == old(scraps[k].r))
  ensures [suffixRuns] cut ==> forall k int {suf[k].l} {suf[k].r} {suf[k].bidiclz} :: d <= k && k < len(suf) ==> suf[k].bidiclz == old(scraps[k - d + len(pre) - 1].bidiclz) && suf[k].r == old(scraps[k - d + len(pre) - 1].r) && (k > d ==> suf[k].l == old(scraps[k - d + len(pre) - 1].l))
  ensures [isolate] cut && d == 1 ==> suf[0].bidiclz == old(scraps[0].bidiclz)
  ensures [keeps] keeps(arr(scraps))
  loop 0
    invariant [at] 0 <= $i && $i <= len(scraps)
    invariant [left] forall k int {scraps[k].r} :: 0 <= k && k < $i ==> scraps[k].r <= at
  loop 1
    invariant [place] (cap(prech) == 0 || loopfresh(prech)) && (cap(restch) == 0 || loopfresh(restch)) && (cap(prech) == 0 || cap(restch) == 0 || arr(prech) != arr(restch))
    invariant [count] 0 <= $i && $i <= len(s.children)
    invariant [child] 0 <= i && i < len(scraps) && sameSl(s.children, old(scraps[i].children)) && forall j int {s.children[j]} :: 0 <= j && j < len(s.children) ==> sameSl(s.children[j], old(scraps[i].children[j]))
    invariant [tree] treekids(s.children, arr(scraps))
    invariant [keeps] keepsBelow(arr(scraps))


def shifted(p, o) = p > o ? p - o : 0
func shiftzero
  prop C18
  assumes scraps != nil
  assumes tree(*scraps)
  modifies all([]bidi.scrap)
  ensures [own] forall k int {(*scraps)[k].l} {(*scraps)[k].r} {(*scraps)[k].bidiclz} {(*scraps)[k].children} :: 0 <= k && k < len(*scraps) ==>
|    (*scraps)[k].l == shifted(old((*scraps)[k].l), offset) && (*scraps)[k].r == shifted(old((*scraps)[k].r), offset) && (*scraps)[k].bidiclz == old((*scraps)[k].bidiclz) && sameSl((*scraps)[k].children, old((*scraps)[k].children))
  ensures [keeps] keeps(arr(*scraps))
  loop 0
    invariant [at] 0 <= $i && $i <= len(*scraps)
    invariant [done] forall k int {(*scraps)[k].l} {(*scraps)[k].r} {(*scraps)[k].bidiclz} {(*scraps)[k].children} :: 0 <= k && k < len(*scraps) ==>
|      (*scraps)[k].l == (k < $i ? shifted(old((*scraps)[k].l), offset) : old((*scraps)[k].l)) && (*scraps)[k].r == (k < $i ? shifted(old((*scraps)[k].r), offset) : old((*scraps)[k].r))
|      && (*scraps)[k].bidiclz == old((*scraps)[k].bidiclz) && sameSl((*scraps)[k].children, old((*scraps)[k].children))
    invariant [keeps] keeps(arr(*scraps))
  loop 1
    invariant [at] 0 <= $i && $i <= len(s.children) && 0 <= i && i < len(*scraps) && sameSl(s.children, old((*scraps)[i].children))
    invariant [tree] mark(arr(*scraps)) == 0 && treekids(s.children, arr(*scraps))
    invariant [apart] forall j int {s.children[j]} :: 0 <= j && j < len(s.children) ==> !under(arr(*scraps), arr(s.children[j])) && mark(arr(s.children[j])) == 0
    invariant [own] forall k int {(*scraps)[k].l} {(*scraps)[k].r} {(*scraps)[k].bidiclz} {(*scraps)[k].children} :: 0 <= k && k < len(*scraps) ==> (*scraps)[k].l == atloop((*scraps)[k].l) && (*scraps)[k].r == atloop((*scraps)[k].r)
|      && (*scraps)[k].bidiclz == atloop((*scraps)[k].bidiclz) && sameSl((*scraps)[k].children, atloop((*scraps)[k].children))
    invariant [keeps] keeps(arr(*scraps))

func (*ResolvedLevels).Split -> a, b
  prop C18
  requires rl != nil
  assumes chain(rl.scraps, 0, len(rl.scraps))
  modifies all([]bidi.scrap)
  let cut = old(len(rl.scraps) > 0 && rl.scraps[0].l <= at && at < rl.scraps[len(rl.scraps) - 1].r)
  ensures [embedding] a != nil && b != nil && a.embedding == old(rl.embedding) && b.embedding == old(rl.embedding)
  ensures [before] cut && !shift0 ==> len(a.scraps) > 0 && chain(a.scraps, 0, len(a.scraps)) && a.scraps[0].l == old(rl.scraps[0].l) && a.scraps[len(a.scraps) - 1].r == at
  ensures [from] cut ==> len(b.scraps) > 0 && chain(b.scraps, 0, len(b.scraps)) && b.scraps[0].l == (shift0 ? 0 : at) && b.scraps[len(b.scraps) - 1].r == old(rl.scraps[len(rl.scraps) - 1].r) - (shift0 ? at : 0)

// ---- reordering (C19) ------------------------------------------------------------------------
def sameScrap(s, t) = s.l == t.l && s.r == t.r && s.bidiclz == t.bidiclz && sameSl(s.children, t.children)
func level -> n
  prop C19
  modifies nothing
  ensures n == (s.bidiclz == 2 || s.bidiclz == 5 ? 2 : s.bidiclz == 0 && embedded == 1 || s.bidiclz == 1 && embedded == 0 ? 1 : 0)

def revLo(i, j) = i > j ? j : i
def revHi(i, j, n) = (i > j ? i : j) > n ? n : (i > j ? i : j)
func reverse -> r
  prop C19
  requires 0 <= i && 0 <= j
  modifies elems(scraps)
  ensures [same] sameSl(r, scraps)
  ensures [mirror] forall k int {scraps[k].l} {scraps[k].r} {scraps[k].bidiclz} {scraps[k].children} :: revLo(i, j) <= k && k < revHi(i, j, len(scraps)) ==>
|    scraps[k].l == old(scraps[revLo(i, j) + revHi(i, j, len(scraps)) - 1 - k].l) && scraps[k].r == old(scraps[revLo(i, j) + revHi(i, j, len(scraps)) - 1 - k].r) && scraps[k].bidiclz == old(scraps[revLo(i, j) + revHi(i, j, len(scraps)) - 1 - k].bidiclz) && sameSl(scraps[k].children, old(scraps[revLo(i, j) + revHi(i, j, len(scraps)) - 1 - k].children))
  ensures [outside] forall k int {scraps[k].l} {scraps[k].r} {scraps[k].bidiclz} {scraps[k].children} :: 0 <= k && k < len(scraps) && (k < revLo(i, j) || k >= revHi(i, j, len(scraps))) ==> scraps[k].l == old(scraps[k].l) && scraps[k].r == old(scraps[k].r) && scraps[k].bidiclz == old(scraps[k].bidiclz) && sameSl(scraps[k].children, old(scraps[k].children))
  loop 0
    invariant [range] revLo(pre(i), pre(j)) <= i && j < revHi(pre(i), pre(j), len(scraps)) && i + j == revLo(pre(i), pre(j)) + revHi(pre(i), pre(j), len(scraps)) - 1
    invariant [mirror] forall k int {scraps[k].l} {scraps[k].r} {scraps[k].bidiclz} {scraps[k].children} :: revLo(pre(i), pre(j)) <= k && k < revHi(pre(i), pre(j), len(scraps)) && (k < i || k > j) ==>
|      scraps[k].l == old(scraps[revLo(pre(i), pre(j)) + revHi(pre(i), pre(j), len(scraps)) - 1 - k].l) && scraps[k].r == old(scraps[revLo(pre(i), pre(j)) + revHi(pre(i), pre(j), len(scraps)) - 1 - k].r) && scraps[k].bidiclz == old(scraps[revLo(pre(i), pre(j)) + revHi(pre(i), pre(j), len(scraps)) - 1 - k].bidiclz) && sameSl(scraps[k].children, old(scraps[revLo(pre(i), pre(j)) + revHi(pre(i), pre(j), len(scraps)) - 1 - k].children))
    invariant [outside] forall k int {scraps[k].l} {scraps[k].r} {scraps[k].bidiclz} {scraps[k].children} :: 0 <= k && k < len(scraps) && (k < revLo(pre(i), pre(j)) || k >= revHi(pre(i), pre(j), len(scraps)) || i <= k && k <= j) ==> scraps[k].l == old(scraps[k].l) && scraps[k].r == old(scraps[k].r) && scraps[k].bidiclz == old(scraps[k].bidiclz) && sameSl(scraps[k].children, old(scraps[k].children))
    decreases j - i + 1 > 0 ? j - i + 1 : 0

func copyScraps -> cp
  prop C19
  modifies nothing
  ensures [copy] len(cp) == len(scraps) && fresh(cp) && forall k int {cp[k].l} {cp[k].r} {cp[k].bidiclz} {cp[k].children} :: 0 <= k && k < len(cp) ==> cp[k].l == scraps[k].l && cp[k].r == scraps[k].r && cp[k].bidiclz == scraps[k].bidiclz && len(cp[k].children) == len(scraps[k].children)

  loop 0
    invariant [range] 0 <= $i && $i <= len(cp) && len(cp) == len(scraps) && fresh(cp)
    invariant [copy] forall k int {cp[k].l} {cp[k].r} {cp[k].bidiclz} {cp[k].children} :: 0 <= k && k < len(cp) ==> cp[k].l == scraps[k].l && cp[k].r == scraps[k].r && cp[k].bidiclz == scraps[k].bidiclz && len(cp[k].children) == len(scraps[k].children)
  loop 1
    invariant [range] 0 <= $i && $i <= len(s.children) && 0 <= i && i < len(cp) && fresh(cp[i].children) && len(cp[i].children) == len(s.children)
    invariant [copy] forall k int {cp[k].l} {cp[k].r} {cp[k].bidiclz} {cp[k].children} :: 0 <= k && k < len(cp) ==> cp[k].l == scraps[k].l && cp[k].r == scraps[k].r && cp[k].bidiclz == scraps[k].bidiclz && len(cp[k].children) == len(scraps[k].children)

func findEmbeddingDir -> d
  prop C19
  requires len(scraps) > 0 ==> scraps[0].bidiclz != 24
  modifies nothing
  ensures d == (len(scraps) > 0 && scraps[0].bidiclz == 21 ? 0 : len(scraps) > 0 && scraps[0].bidiclz == 22 ? 1 : inherited)

func cutScrapAt -> cut, rest
  prop C19
  requires len(ch) > 0
  modifies nothing
  ensures [outer] cut.l == s.l && rest.r == s.r && cut.bidiclz == s.bidiclz && rest.bidiclz == s.bidiclz && len(cut.children) == 0 && len(rest.children) == 0
  ensures [hole] (forall k int {ch[k].l} {ch[k].r} :: 0 <= k && k < len(ch) ==> cut.r <= ch[k].l && ch[k].r <= rest.l) && (exists k int {ch[k].l} {ch[k].r} :: 0 <= k && k < len(ch) && ch[k].l == cut.r) && (exists k int {ch[k].l} {ch[k].r} :: 0 <= k && k < len(ch) && ch[k].r == rest.l)
  loop 0
    invariant [range] 0 <= $i && $i <= len(ch)
    invariant [min] (forall k int {ch[k].l} {ch[k].r} :: 0 <= k && k < $i ==> l <= ch[k].l && ch[k].r <= r) && (exists k int {ch[k].l} {ch[k].r} :: 0 <= k && k < len(ch) && ch[k].l == l) && (exists k int {ch[k].l} {ch[k].r} :: 0 <= k && k < len(ch) && ch[k].r == r)

def isoAt(s, k) = 21 <= s[k].bidiclz && s[k].bidiclz <= 24
func reverseWithoutIsolates -> r
  prop C19
  requires i == 0 && j == len(scraps)
  modifies elems(scraps)
  let lo = old(len(scraps) > 0 && isoAt(scraps, 0)) ? 1 : 0
  let hi = len(scraps) - (old(len(scraps) > 0 && isoAt(scraps, len(scraps) - 1)) ? 1 : 0)
  ensures [same] sameSl(r, scraps)
  ensures [mirror] forall k int {scraps[k].l} {scraps[k].r} {scraps[k].bidiclz} {scraps[k].children} :: 0 <= k && k < len(scraps) ==>
|    sameScrap(scraps[k], old(scraps[lo <= k && k < hi ? lo + hi - 1 - k : k]))
