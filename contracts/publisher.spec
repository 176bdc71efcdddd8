package uax
// ---- rune publisher --------------------------------------------------------
// Ghost state, indexed by subscriber: is it done, how many events has it received, how often has it been
// unsubscribed, what is its match length; indexed by position: sum of all penalties returned by subscribers,
// number of penalty lists which reach that position.
ghost done arrb
ghost cnt arr
ghost unsub arr
ghost mlen arr
ghost psum arr
ghost pcnt arr

// What a publisher may expect of its subscribers: becoming done is final, an event concerns the receiver only.
extern uax.RuneSubscriber.RuneEvent(self, r, c) -> ps
  modifies ghost done, ghost cnt, ghost mlen, ghost psum, ghost pcnt
  ensures cnt[val(self)] == old(cnt)[val(self)] + 1
  ensures forall v int {cnt[v]} :: v != val(self) ==> cnt[v] == old(cnt)[v]
  ensures forall v int {done[v]} :: v != val(self) ==> done[v] == old(done)[v]
  ensures old(done)[val(self)] ==> done[val(self)]
  ensures forall v int {mlen[v]} :: v != val(self) ==> mlen[v] == old(mlen)[v]
  ensures forall j int {psum[j]} :: psum[j] == old(psum)[j] + (0 <= j && j < len(ps) ? ps[j] : 0)
  ensures forall j int {pcnt[j]} :: pcnt[j] == old(pcnt)[j] + (0 <= j && j < len(ps) ? 1 : 0)
extern uax.RuneSubscriber.Done(self) -> d
  ensures d == done[val(self)]
extern uax.RuneSubscriber.MatchLength(self) -> n
  ensures n == mlen[val(self)]
extern uax.RuneSubscriber.Unsubscribed(self)
  modifies ghost unsub
  ensures unsub[val(self)] == old(unsub)[val(self)] + 1
  ensures forall v int {unsub[v]} :: v != val(self) ==> unsub[v] == old(unsub)[v]

def isDone(p, i) = done[val(p.q[i])]
// active subscribers come first, done ones last
def wfpub(p) = off(p.q) == 0 && off(p.penaltiesTotal) == 0 && 0 <= p.gap && p.gap <= len(p.q)
|  && (forall i int :: 0 <= i && i < len(p.q) ==> val(p.q[i]) > 0 && tag(p.q[i]) > 0)
|  && (forall i int :: 0 <= i && i < p.gap ==> !isDone(p, i))
|  && (forall i int :: p.gap <= i && i < len(p.q) ==> isDone(p, i))
def distinct(p) = forall i int, j int :: 0 <= i && i < j && j < len(p.q) ==> val(p.q[i]) != val(p.q[j])
def sameq(p, i, j) = val(p.q[i]) == old(val(p.q[j])) && tag(p.q[i]) == old(tag(p.q[j]))
def samebuf(p) = off(p.q) == 0 && len(p.q) == old(len(p.q)) && arr(p.q) == old(arr(p.q)) && off(p.q) == old(off(p.q)) && cap(p.q) == old(cap(p.q))

def okq(p) = forall k int :: 0 <= k && k < len(p.q) ==> val(p.q[k]) > 0 && tag(p.q[k]) > 0
def unchanged(p) = p.gap == old(p.gap) && (forall k int :: 0 <= k && k < len(p.q) ==> sameq(p, k, k))
def swapped(p, i, t) = sameq(p, t, i) && sameq(p, i, t) && (forall k int :: 0 <= k && k < len(p.q) && k != i && k != t ==> sameq(p, k, k))

func (*DefaultRunePublisher).bubbleUp
  prop C06
  requires off(pq.q) == 0 && 0 <= i && i < len(pq.q) && 0 <= pq.gap && pq.gap <= len(pq.q) && okq(pq)
  requires isDone(pq, i)
  requires forall k int :: 0 <= k && k < pq.gap && k != i ==> !isDone(pq, k)
  modifies pq.gap, elems(pq.q)
  ensures old(i >= pq.gap) ==> unchanged(pq)
  ensures old(i < pq.gap) ==> pq.gap == old(pq.gap) - 1 && swapped(pq, i, pq.gap)

func (*DefaultRunePublisher).bubbleDown
  prop C06
  requires off(pq.q) == 0 && 0 <= i && i < len(pq.q) && 0 <= pq.gap && pq.gap <= len(pq.q) && okq(pq)
  requires !isDone(pq, i)
  requires forall k int :: pq.gap <= k && k < len(pq.q) && k != i ==> isDone(pq, k)
  modifies pq.gap, elems(pq.q)
  ensures old(i < pq.gap) ==> unchanged(pq)
  ensures old(i >= pq.gap) ==> pq.gap == old(pq.gap) + 1 && swapped(pq, i, old(pq.gap))

func (*DefaultRunePublisher).Fix
  prop C06
  requires off(pq.q) == 0 && off(pq.penaltiesTotal) == 0 && 0 <= at && at < len(pq.q) && 0 <= pq.gap && pq.gap <= len(pq.q) && okq(pq)
  requires forall k int :: 0 <= k && k < pq.gap && k != at ==> !isDone(pq, k)
  requires forall k int :: pq.gap <= k && k < len(pq.q) && k != at ==> isDone(pq, k)
  modifies pq.gap, elems(pq.q)
  ensures [order] wfpub(pq)
  ensures [kept] old(at >= pq.gap && isDone(pq, at) || at < pq.gap && !isDone(pq, at)) ==> unchanged(pq)
  ensures [up] old(at < pq.gap && isDone(pq, at)) ==> pq.gap == old(pq.gap) - 1 && swapped(pq, at, pq.gap)
  ensures [down] old(at >= pq.gap && !isDone(pq, at)) ==> pq.gap == old(pq.gap) + 1 && swapped(pq, at, old(pq.gap))
  loop 0
    invariant 0 <= $i && $i <= pq.gap
    decreases pq.gap - $i

func (*DefaultRunePublisher).Push
  prop C06
  requires wfpub(pq) && val(subscr) > 0 && tag(subscr) > 0
  modifies pq.*, elems(pq.q)
  ensures [order] wfpub(pq)
  ensures [length] len(pq.q) == old(len(pq.q)) + 1
  ensures [penalties] arr(pq.penaltiesTotal) == old(arr(pq.penaltiesTotal)) && len(pq.penaltiesTotal) == old(len(pq.penaltiesTotal)) && cap(pq.penaltiesTotal) == old(cap(pq.penaltiesTotal)) && off(pq.penaltiesTotal) == old(off(pq.penaltiesTotal))
  ensures [back] done[val(subscr)] || old(pq.gap) == old(len(pq.q)) ==> val(pq.q[old(len(pq.q))]) == val(subscr) && tag(pq.q[old(len(pq.q))]) == tag(subscr) && (forall k int :: 0 <= k && k < old(len(pq.q)) ==> sameq(pq, k, k))
  ensures [gap] !(done[val(subscr)] || old(pq.gap) == old(len(pq.q))) ==> val(pq.q[old(pq.gap)]) == val(subscr) && tag(pq.q[old(pq.gap)]) == tag(subscr) && sameq(pq, old(len(pq.q)), old(pq.gap)) && (forall k int :: 0 <= k && k < old(len(pq.q)) && k != old(pq.gap) ==> sameq(pq, k, k))

func (*DefaultRunePublisher).SubscribeMe -> res
  prop C06
  requires wfpub(rpub) && val(rsub) > 0 && tag(rsub) > 0
  modifies rpub.*, elems(rpub.q)
  ensures [order] wfpub(rpub)
  ensures [length] len(rpub.q) == old(len(rpub.q)) + 1
  ensures [penalties] arr(rpub.penaltiesTotal) == old(arr(rpub.penaltiesTotal)) && len(rpub.penaltiesTotal) == old(len(rpub.penaltiesTotal)) && cap(rpub.penaltiesTotal) == old(cap(rpub.penaltiesTotal)) && off(rpub.penaltiesTotal) == old(off(rpub.penaltiesTotal))
  ensures [back] done[val(rsub)] || old(rpub.gap) == old(len(rpub.q)) ==> val(rpub.q[old(len(rpub.q))]) == val(rsub) && tag(rpub.q[old(len(rpub.q))]) == tag(rsub) && (forall k int :: 0 <= k && k < old(len(rpub.q)) ==> sameq(rpub, k, k))
  ensures [gap] !(done[val(rsub)] || old(rpub.gap) == old(len(rpub.q))) ==> val(rpub.q[old(rpub.gap)]) == val(rsub) && tag(rpub.q[old(rpub.gap)]) == tag(rsub) && sameq(rpub, old(len(rpub.q)), old(rpub.gap)) && (forall k int :: 0 <= k && k < old(len(rpub.q)) && k != old(rpub.gap) ==> sameq(rpub, k, k))
  ensures [self] val(res) == ref(rpub) && tag(res) > 0

func NewRunePublisher -> p
  prop C06
  modifies nothing
  ensures p != nil && fresh(p) && len(p.q) == 0 && wfpub(p) && arr(p.penaltiesTotal) == 0

func (*DefaultRunePublisher).Pop -> s
  prop C06
  requires pq != nil ==> wfpub(pq)
  modifies pq.q, pq.gap, elems(pq.q)
  ensures [empty] old(len(pq.q)) == 0 ==> tag(s) == 0 && len(pq.q) == 0 && pq.gap == old(pq.gap)
  ensures [order] wfpub(pq)
  ensures [top] old(len(pq.q)) > 0 ==> len(pq.q) == old(len(pq.q)) - 1 && val(s) == old(val(pq.q[len(pq.q) - 1])) && tag(s) == old(tag(pq.q[len(pq.q) - 1]))
  ensures [rest] forall k int :: 0 <= k && k < len(pq.q) ==> sameq(pq, k, k)
  ensures [storage] arr(pq.q) == old(arr(pq.q)) && off(pq.q) == old(off(pq.q)) && cap(pq.q) == old(cap(pq.q))

func (*DefaultRunePublisher).PopDone -> s
  prop C06
  requires wfpub(pq)
  modifies pq.q, pq.gap, elems(pq.q)
  ensures [order] wfpub(pq)
  ensures [none] old(len(pq.q) == 0 || !isDone(pq, len(pq.q) - 1)) ==> tag(s) == 0 && len(pq.q) == old(len(pq.q)) && unchanged(pq)
  ensures [done] old(len(pq.q) > 0 && isDone(pq, len(pq.q) - 1)) ==> len(pq.q) == old(len(pq.q)) - 1 && val(s) == old(val(pq.q[len(pq.q) - 1])) && tag(s) == old(tag(pq.q[len(pq.q) - 1]))
  ensures [rest] forall k int :: 0 <= k && k < len(pq.q) ==> sameq(pq, k, k)
  ensures [storage] arr(pq.q) == old(arr(pq.q)) && off(pq.q) == old(off(pq.q)) && cap(pq.q) == old(cap(pq.q))

// Penalty lists of subscribers do not share storage with the list the publisher sums up in.
logic pubOwned(r int) bool
def pt(p) = p.penaltiesTotal
// everything about the sums when the contributions of list ps from index m on are still missing
def contrib(ps, m, j) = m <= j && j < len(ps) ? ps[j] : 0
def reaches(ps, m, j) = m <= j && j < len(ps) ? 1 : 0
def from(p, k, j) = val(p.q[k]) == old(val(p.q[j])) && tag(p.q[k]) == old(tag(p.q[j]))
def was(p, j) = old(val(p.q[j]))

func (*DefaultRunePublisher).PublishRuneEvent -> longest, pens
  prop C06
  timeout 30
  requires wfpub(rpub) && distinct(rpub)
  requires arr(pt(rpub)) != 0 ==> pubOwned(arr(pt(rpub)))
  assumes forall v int {pubOwned(v)} :: freshref(v) ==> pubOwned(v)
  hint atloop(pt(rpub))
  modifies rpub.*, elems(rpub.q), elems(rpub.penaltiesTotal), ghost done, ghost cnt, ghost unsub, ghost mlen, ghost psum, ghost pcnt
  ensures [sum] forall j int :: 0 <= j && j < len(pens) ==> pens[j] == psum[j] - old(psum)[j]
  ensures [sum-length] forall j int :: 0 <= j ==> (j < len(pens) <==> pcnt[j] > old(pcnt)[j])
  ensures [once] forall j int :: 0 <= j && j < old(len(rpub.q)) ==> cnt[was(rpub, j)] == old(cnt)[was(rpub, j)] + 1
  ensures [kept] forall j int :: 0 <= j && j < old(len(rpub.q)) && !done[was(rpub, j)] ==> (exists k int :: 0 <= k && k < len(rpub.q) && from(rpub, k, j))
  ensures [no-new] forall k int :: 0 <= k && k < len(rpub.q) ==> (exists j int :: 0 <= j && j < old(len(rpub.q)) && from(rpub, k, j))
  ensures [removed] forall k int :: 0 <= k && k < len(rpub.q) ==> !isDone(rpub, k)
  ensures [told] forall j int :: 0 <= j && j < old(len(rpub.q)) ==> unsub[was(rpub, j)] == old(unsub)[was(rpub, j)] + (done[was(rpub, j)] ? 1 : 0)
  ensures [longest-bound] longest >= 0 && (forall k int :: 0 <= k && k < len(rpub.q) ==> mlen[val(rpub.q[k])] <= longest)
  ensures [longest-reached] longest == 0 || (exists k int :: 0 <= k && k < len(rpub.q) && mlen[val(rpub.q[k])] == longest)
  ensures [order] wfpub(rpub) && distinct(rpub)
  ensures [owned] pubOwned(arr(pt(rpub)))
  loop 0
    invariant [range] samebuf(rpub) && -1 <= $i && $i < len(rpub.q)
    invariant [order] wfpub(rpub) && distinct(rpub)
    invariant [storage] arr(pt(rpub)) == atloop(arr(pt(rpub))) || loopfresh(pt(rpub))
    invariant [todo] forall k int :: 0 <= k && k <= $i ==> sameq(rpub, k, k) && cnt[val(rpub.q[k])] == old(cnt)[val(rpub.q[k])]
    invariant [once] forall k int :: $i < k && k < len(rpub.q) ==> cnt[val(rpub.q[k])] == old(cnt)[val(rpub.q[k])] + 1
    invariant [kept] forall j int :: $i < j && j < len(rpub.q) ==> (exists k int :: $i < k && k < len(rpub.q) && from(rpub, k, j))
    invariant [no-new] forall k int :: $i < k && k < len(rpub.q) ==> (exists j int :: $i < j && j < len(rpub.q) && from(rpub, k, j))
    invariant [longest] longest >= 0 && (forall k int :: $i < k && k < len(rpub.q) && !isDone(rpub, k) ==> mlen[val(rpub.q[k])] <= longest)
    invariant [reached] longest == 0 || (exists k int :: $i < k && k < len(rpub.q) && !isDone(rpub, k) && mlen[val(rpub.q[k])] == longest)
    invariant [owned] pubOwned(arr(pt(rpub)))
    invariant [sum] forall j int :: 0 <= j && j < len(pt(rpub)) ==> pt(rpub)[j] == psum[j] - old(psum)[j]
    invariant [sum-rest] forall j int :: j >= len(pt(rpub)) ==> psum[j] == old(psum)[j]
    invariant [length] forall j int :: 0 <= j ==> (j < len(pt(rpub)) <==> pcnt[j] > old(pcnt)[j]) && pcnt[j] >= old(pcnt)[j]
    decreases $i
  loop 1
    invariant [range] 0 <= $i && $i <= len(penalties) && $i <= len(pt(rpub))
    invariant [storage] arr(pt(rpub)) == atloop(arr(pt(rpub))) || loopfresh(pt(rpub))
    invariant [order] off(pt(rpub)) == 0 && samebuf(rpub) && rpub.gap == atloop(rpub.gap)
    invariant [owned] pubOwned(arr(pt(rpub)))
    invariant [sum] forall j int :: 0 <= j && j < len(pt(rpub)) ==> pt(rpub)[j] == psum[j] - old(psum)[j] - contrib(penalties, $i, j)
    invariant [sum-rest] forall j int :: j >= len(pt(rpub)) ==> psum[j] - contrib(penalties, $i, j) == old(psum)[j]
    invariant [length] forall j int :: 0 <= j ==> (j < len(pt(rpub)) <==> pcnt[j] - reaches(penalties, $i, j) > old(pcnt)[j]) && pcnt[j] >= old(pcnt)[j] + reaches(penalties, 0, j)
    decreases len(penalties) - $i
  loop 2
    invariant [storage] arr(rpub.q) == atloop(arr(rpub.q))
    invariant [order] wfpub(rpub) && distinct(rpub)
    invariant [pending] tag(subscr) != 0 ==> val(subscr) > 0 && done[val(subscr)] && (forall k int :: 0 <= k && k < len(rpub.q) ==> val(rpub.q[k]) != val(subscr))
    invariant [pending-once] tag(subscr) != 0 ==> unsub[val(subscr)] == old(unsub)[val(subscr)] && (exists j int :: 0 <= j && j < old(len(rpub.q)) && was(rpub, j) == val(subscr))
    invariant [end] tag(subscr) == 0 ==> rpub.gap == len(rpub.q)
    invariant [no-new] forall k int :: 0 <= k && k < len(rpub.q) ==> unsub[val(rpub.q[k])] == old(unsub)[val(rpub.q[k])] && (exists j int :: 0 <= j && j < old(len(rpub.q)) && from(rpub, k, j))
    invariant [where] forall j int :: 0 <= j && j < old(len(rpub.q)) ==> (exists k int :: 0 <= k && k < len(rpub.q) && from(rpub, k, j)) || tag(subscr) != 0 && was(rpub, j) == val(subscr) || done[was(rpub, j)] && unsub[was(rpub, j)] == old(unsub)[was(rpub, j)] + 1
    invariant [longest] forall k int :: 0 <= k && k < len(rpub.q) && !isDone(rpub, k) ==> mlen[val(rpub.q[k])] <= longest
    invariant [reached] longest == 0 || (exists k int :: 0 <= k && k < len(rpub.q) && !isDone(rpub, k) && mlen[val(rpub.q[k])] == longest)
    decreases len(rpub.q) + (tag(subscr) != 0 ? 1 : 0)

// ---- what breakers may expect of a publisher -------------------------------------------
// Ghost state: log of subscriptions, result of the last event.
ghost nsub int
ghost sublog arr
ghost plong int
ghost plen int
ghost ppen arr
ghost pubr int
ghost pubc int
ghost npub int
extern uax.RunePublisher.SubscribeMe(self, rsub) -> res
  modifies ghost nsub, ghost sublog
  ensures nsub == old(nsub) + 1 && sublog[old(nsub)] == val(rsub)
  ensures forall k int {sublog[k]} :: k != old(nsub) ==> sublog[k] == old(sublog)[k]
extern uax.RunePublisher.PublishRuneEvent(self, r, c) -> longest, pens
  modifies ghost plong, ghost plen, ghost ppen, ghost pubr, ghost pubc, ghost npub, all([]int), all(uax.Recognizer)
  ensures longest >= 0 && plong == longest && plen == len(pens) && pubr == r && pubc == c && npub == old(npub) + 1
  ensures off(pens) == 0 && forall j int {pens[j]} :: 0 <= j && j < len(pens) ==> pens[j] == ppen[j]
