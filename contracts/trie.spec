package trie
// ---- hash trie --------------------------------------------------------------------
// Size N, categories 1..K (K = number of categories + 1). Slot i > K is free (ch 0), a family header (ch K+1) or a position
// reached with category ch[i] from the position link[h], where h = i - ch[i] is its header. Slots 1..K are the root positions.
def isPos(t, i) = 1 <= i && i < t.size && 1 <= t.ch[i] && t.ch[i] <= t.catcnt
def isHdr(t, i) = t.catcnt < i && i <= t.size - t.catcnt && t.ch[i] == t.catcnt + 1
def tshape(t) = 2 <= t.catcnt && t.catcnt <= 51 && 2 * t.catcnt + 1 <= t.size && t.size <= 255 && len(t.link) == t.size && len(t.ch) == t.size
|  && t.headercode == t.catcnt + 1 && t.span == t.size - 2 * t.catcnt
def roots(t) = t.ch[0] == t.catcnt + 1 && t.link[0] == 0 && forall i int {t.ch[i]} :: 1 <= i && i <= t.catcnt ==> t.ch[i] == i
def slots(t) = forall i int {t.ch[i]} :: t.catcnt < i && i < t.size ==> 0 <= t.ch[i] && t.ch[i] <= t.catcnt + 1 && t.ch[i] != t.catcnt
|  && (t.ch[i] == t.catcnt + 1 ==> i <= t.size - t.catcnt && isPos(t, t.link[i]) && t.link[t.link[i]] == i)
|  && (1 <= t.ch[i] && t.ch[i] < t.catcnt ==> isHdr(t, i - t.ch[i]))
def links(t) = forall i int {t.link[i]} :: isPos(t, i) && t.link[i] != 0 ==> isHdr(t, t.link[i]) && t.link[t.link[i]] == i && t.link[i] != i - t.ch[i]
def wfTrie(t) = tshape(t) && roots(t) && slots(t) && links(t)
// sibling lists: a header, then its family in descending order, complete, and back to the header
def sibH(t) = forall i int {t.sibling[i]} :: isHdr(t, i) ==> i < t.sibling[i] && t.sibling[i] < i + t.catcnt && t.ch[t.sibling[i]] == t.sibling[i] - i
def sibK(t) = forall i int {t.sibling[i]} :: t.catcnt < i && i < t.size && 1 <= t.ch[i] && t.ch[i] < t.catcnt ==>
|  i - t.ch[i] <= t.sibling[i] && t.sibling[i] < i && (t.sibling[i] == i - t.ch[i] || t.ch[t.sibling[i]] == t.sibling[i] - (i - t.ch[i]))
def sibHall(t) = forall i int, j int {t.sibling[i], t.ch[j]} :: isHdr(t, i) && t.sibling[i] < j && j < i + t.catcnt ==> t.ch[j] != j - i
def sibKall(t) = forall i int, j int {t.sibling[i], t.ch[j]} :: t.catcnt < i && i < t.size && 1 <= t.ch[i] && t.ch[i] < t.catcnt && t.sibling[i] < j && j < i ==> t.ch[j] != j - (i - t.ch[i])
def wfSib(t) = len(t.sibling) == t.size && arr(t.sibling) != arr(t.link) && sibH(t) && sibK(t) && sibHall(t) && sibKall(t)
// the position reached from p with category c (0: none)
def child(t, p, c) = t.link[p] != 0 && t.ch[t.link[p] + c] == c ? t.link[p] + c : 0
// position j is a child of position x
def isChild(t, x, j) = t.link[x] != 0 && t.link[x] < j && j < t.link[x] + t.catcnt && t.ch[j] == j - t.link[x]
def corr(t, c) = c == 0 ? t.catcnt - 1 : c

func (*TinyHashTrie).correct -> r
  prop C21
  requires tshape(trie) && c < trie.catcnt
  modifies nothing
  ensures r == corr(trie, c)

func (*TinyHashTrie).setInitialValues
  prop C21
  requires 2 <= trie.catcnt && trie.catcnt <= 51 && 2 * trie.catcnt + 1 <= trie.size && trie.size <= 255
  requires trie.headercode == trie.catcnt + 1 && trie.span == trie.size - 2 * trie.catcnt
  modifies trie.*
  ensures [wf] wfTrie(trie) && wfSib(trie)
  ensures [same] trie.size == old(trie.size) && trie.catcnt == old(trie.catcnt) && trie.frozen == old(trie.frozen)
  ensures [empty] forall p int {trie.link[p]} :: isPos(trie, p) ==> trie.link[p] == 0
  loop 0
    invariant [range] 1 <= i && i <= trie.catcnt + 1
    invariant [same] trie.size == old(trie.size) && trie.catcnt == old(trie.catcnt) && trie.frozen == old(trie.frozen) && trie.headercode == old(trie.headercode) && trie.span == old(trie.span)
    invariant [arrs] len(trie.link) == trie.size && len(trie.ch) == trie.size && len(trie.sibling) == trie.size && arr(trie.link) != arr(trie.sibling) && fresh(trie.link) && fresh(trie.ch) && fresh(trie.sibling)
    invariant [done] forall j int {trie.ch[j]} :: 0 <= j && j < trie.size ==> trie.ch[j] == (1 <= j && j < i ? j : 0)
    invariant [link] forall j int {trie.link[j]} :: 0 <= j && j < trie.size ==> trie.link[j] == 0
    decreases trie.catcnt + 1 - i

func NewTinyHashTrie -> t, err
  prop C21
  requires 1 <= catcnt && 2 * catcnt + 3 <= size
  modifies nothing
  ensures [limit] catcnt > 50 ==> tag(err) != 0 && t == nil
  ensures [new] catcnt <= 50 ==> tag(err) == 0 && t != nil && fresh(t) && wfTrie(t) && wfSib(t) && !t.frozen && t.size == size && t.catcnt == catcnt + 1
  ensures [empty] catcnt <= 50 ==> forall p int {t.link[p]} :: isPos(t, p) ==> t.link[p] == 0

func (*TinyHashTrie).Freeze
  prop C21
  requires wfTrie(trie)
  modifies trie.frozen, trie.sibling
  ensures [frozen] trie.frozen && wfTrie(trie)

func (*TinyHashTrie).Iterator -> it
  prop C21
  modifies nothing
  ensures it != nil && fresh(it) && it.trie == trie && it.n == 0

pureextern math.Round

def sameAll(t) = forall i int {t.ch[i]} {t.link[i]} {t.sibling[i]} :: 0 <= i && i < t.size ==> t.ch[i] == old(t.ch[i]) && t.link[i] == old(t.link[i]) && t.sibling[i] == old(t.sibling[i])
func (*TinyHashTrie).insertFirstbornChildAndProgress -> q
  prop C21
  requires wfTrie(trie) && wfSib(trie) && !trie.frozen
  requires isPos(trie, p) && trie.link[p] == 0 && 1 <= c && c < trie.catcnt
  modifies elems(trie.link), elems(trie.sibling), elems(trie.ch)
  aborts sameAll(trie) && wfTrie(trie) && wfSib(trie)
  ensures [wf] wfTrie(trie) && wfSib(trie)
  ensures [found] q != 0 && isChild(trie, p, q) && q == trie.link[p] + c && old(trie.ch[q]) == 0 && isPos(trie, q)
  ensures [leaf] trie.link[q] == 0
  ensures [kept] forall x int {trie.ch[x]} {old(trie.ch[x])} :: old(isPos(trie, x)) ==> isPos(trie, x) && trie.ch[x] == old(trie.ch[x])
  ensures [rest] forall x int, j int {trie.link[x], trie.ch[j]} :: old(isPos(trie, x)) && 0 <= j && j < trie.size && j != q ==> (isChild(trie, x, j) <==> old(isChild(trie, x, j)))
  loop 0
    invariant [range] trie.catcnt < h && h <= trie.size - trie.catcnt && 0 <= trys && trys <= 60
    decreases 60 - trys

func (*TinyHashTrie).insertChildIntoFamily -> r
  prop C21
  requires wfTrie(trie) && wfSib(trie) && !trie.frozen
  requires isPos(trie, p) && trie.link[p] != 0 && 1 <= c && c < trie.catcnt && q == trie.link[p] + c && trie.ch[q] == 0
  modifies elems(trie.link), elems(trie.sibling), elems(trie.ch)
  ensures [wf] wfTrie(trie) && wfSib(trie)
  ensures [found] r == q && isChild(trie, p, q) && q == trie.link[p] + c && isPos(trie, q)
  ensures [leaf] trie.link[r] == 0
  ensures [kept] forall x int {trie.ch[x]} {old(trie.ch[x])} :: old(isPos(trie, x)) ==> isPos(trie, x) && trie.ch[x] == old(trie.ch[x])
  ensures [rest] forall x int, j int {trie.link[x], trie.ch[j]} :: old(isPos(trie, x)) && 0 <= j && j < trie.size && j != r ==> (isChild(trie, x, j) <==> old(isChild(trie, x, j)))
  loop 0
    invariant [family] h == trie.link[p] || trie.link[p] < h && h < trie.link[p] + trie.catcnt && trie.ch[h] == h - trie.link[p] && h > q
    decreases h == trie.link[p] ? 256 : h

// Moving a family to another header: the loops that copy and re-link it slot by slot are outside what the solvers discharge
// (see DESIGN.md), so this contract is assumed here and checked, bounded, by the driver.
func (*TinyHashTrie).moveFamily -> p2, q
  prop C21
  trusted
  requires wfTrie(trie) && wfSib(trie) && !trie.frozen
  requires isPos(trie, p) && trie.link[p] != 0 && 1 <= c && c < trie.catcnt && trie.ch[trie.link[p] + c] != 0 && trie.ch[trie.link[p] + c] != c
  modifies elems(trie.link), elems(trie.sibling), elems(trie.ch)
  aborts sameAll(trie) && wfTrie(trie) && wfSib(trie)
  ensures [wf] wfTrie(trie) && wfSib(trie)
  ensures [p] p2 == p && isPos(trie, p2) && trie.link[p2] != 0 && q == trie.link[p2] + c && trie.ch[q] == 0

// no change to any slot
def sameTrie(t) = forall i int {t.ch[i]} {t.link[i]} :: 0 <= i && i < t.size ==> t.ch[i] == old(t.ch[i]) && t.link[i] == old(t.link[i])
func (*TinyHashTrie).advanceToChild -> q
  prop C21
  requires wfTrie(trie) && (trie.frozen || wfSib(trie))
  requires (isPos(trie, p) || p == 0 && trie.frozen) && 1 <= c && c < trie.catcnt
  modifies elems(trie.link), elems(trie.sibling), elems(trie.ch)
  aborts !trie.frozen && sameAll(trie) && wfTrie(trie) && wfSib(trie)
  ensures [wf] wfTrie(trie) && (trie.frozen || wfSib(trie))
  ensures [pure] old(trie.frozen || child(trie, p, c) != 0) ==> sameTrie(trie)
  ensures [child] q == child(trie, p, c)
  ensures [position] (trie.frozen && q == 0) || isPos(trie, q) && q > trie.catcnt
  ensures [kept] old(trie.frozen || trie.link[p] == 0 || trie.ch[trie.link[p] + c] == 0 || trie.ch[trie.link[p] + c] == c) ==>
  |  forall x int {trie.ch[x]} {old(trie.ch[x])} :: old(isPos(trie, x)) ==> isPos(trie, x) && trie.ch[x] == old(trie.ch[x])
  ensures [rest] old(trie.frozen || trie.link[p] == 0 || trie.ch[trie.link[p] + c] == 0 || trie.ch[trie.link[p] + c] == c) ==>
  |  forall x int, j int {trie.link[x], trie.ch[j]} :: old(isPos(trie, x)) && 0 <= j && j < trie.size && j != q ==> (isChild(trie, x, j) <==> old(isChild(trie, x, j)))
  ensures [_header] q != 0 ==> trie.ch[q] == c && isHdr(trie, q - c) && trie.link[q - c] == p
  ensures [injective] q != 0 ==> forall x int {trie.link[x]} :: isPos(trie, x) && isChild(trie, x, q) ==> x == p

// position of the prefix of k+1 bytes of a key (0: not stored)
logic wk(k int) int
func (*TinyHashTrie).AllocPositionForWord -> r
  prop C21
  requires wfTrie(trie) && (trie.frozen || wfSib(trie))
  requires len(buf) > 0 && forall k int {buf[k]} :: 0 <= k && k < len(buf) ==> buf[k] < trie.catcnt
  modifies elems(trie.link), elems(trie.sibling), elems(trie.ch)
  aborts !trie.frozen && wfTrie(trie) && wfSib(trie)
  ensures [wf] wfTrie(trie) && (trie.frozen || wfSib(trie))
  ensures [stored] !trie.frozen ==> isPos(trie, r) && (len(buf) > 1 ==> r > trie.catcnt)
  ensures [pure] trie.frozen ==> sameTrie(trie)
  ensures [lookup] trie.frozen && wk(0) == corr(trie, buf[0]) && (forall k int {wk(k)} :: 0 < k && k < len(buf) ==> wk(k) == old(child(trie, wk(k - 1), corr(trie, buf[k])))) ==> r == wk(len(buf) - 1)
  loop 0
    invariant [wf] wfTrie(trie) && (trie.frozen || wfSib(trie))
    invariant [range] 0 <= n && n < len(buf) && (isPos(trie, p) || p == 0 && trie.frozen) && (!trie.frozen && n > 0 ==> p > trie.catcnt)
    invariant [pure] trie.frozen ==> sameTrie(trie)
    invariant [lookup] trie.frozen && wk(0) == corr(trie, buf[0]) && (forall k int {wk(k)} :: 0 < k && k < len(buf) ==> wk(k) == old(child(trie, wk(k - 1), corr(trie, buf[k])))) ==> p == wk(n)
    decreases len(buf) - n

func (*Iterator).Next -> r
  prop C21
  requires ti.trie != nil ==> wfTrie(ti.trie) && ti.trie.frozen && 0 <= c && c < ti.trie.catcnt && (ti.n != 0 ==> isPos(ti.trie, ti.position))
  modifies ti.*, elems(ti.trie.link), elems(ti.trie.sibling), elems(ti.trie.ch)
  ensures [ended] old(ti.trie == nil) ==> r == 0 && ti.trie == nil
  ensures [first] old(ti.trie != nil && ti.n == 0) ==> ti.trie == old(ti.trie) && r == ti.position && r == corr(ti.trie, c) && ti.n == 1 && isPos(ti.trie, r)
  ensures [next] old(ti.trie != nil && ti.n != 0) ==> r == old(child(ti.trie, ti.position, corr(ti.trie, c))) && ti.n == old(ti.n) && (r == 0 ? ti.trie == nil : ti.trie == old(ti.trie) && ti.position == r && isPos(ti.trie, r))
