package segment

// ---- look-ahead queue: ring buffer seen as a sequence --------------------
def idx(q, i) = q.head + i < len(q.buf) ? q.head + i : q.head + i - len(q.buf)
def wfq(q) = (len(q.buf) == 0 && q.count == 0 && q.head == 0 && q.tail == 0)
|  || (pow2(len(q.buf)) && len(q.buf) >= 64 && 0 <= q.head && q.head < len(q.buf) && 0 <= q.count && q.count <= len(q.buf)
|     && 0 <= q.tail && q.tail < len(q.buf) && q.tail == (q.head + q.count < len(q.buf) ? q.head + q.count : q.head + q.count - len(q.buf)))
// element i now equals element j before
def kept(q, i, j) = q.buf[idx(q, i)].r == old(q.buf[idx(q, j)].r)
|  && q.buf[idx(q, i)].penalty0 == old(q.buf[idx(q, j)].penalty0)
|  && q.buf[idx(q, i)].penalty1 == old(q.buf[idx(q, j)].penalty1)
def elem(q, i, a, b, c) = q.buf[idx(q, i)].r == a && q.buf[idx(q, i)].penalty0 == b && q.buf[idx(q, i)].penalty1 == c

func (*deque).Len -> n
  prop C05
  ensures n == q.count

func (*deque).PushBack
  prop C05
  requires wfq(q)
  modifies q.*, elems(q.buf)
  ensures [wf] wfq(q)
  ensures [storage] arr(q.buf) == old(arr(q.buf)) || fresh(q.buf)
  ensures [len] q.count == old(q.count) + 1
  ensures [back] elem(q, q.count - 1, r, p0, p1)
  ensures [rest] forall i int :: 0 <= i && i < old(q.count) ==> kept(q, i, i)

func (*deque).PushFront
  prop C05
  requires wfq(q)
  modifies q.*, elems(q.buf)
  ensures [wf] wfq(q)
  ensures [storage] arr(q.buf) == old(arr(q.buf)) || fresh(q.buf)
  ensures [len] q.count == old(q.count) + 1
  ensures [front] elem(q, 0, r, p0, p1)
  ensures [rest] forall i int :: 0 <= i && i < old(q.count) ==> kept(q, i + 1, i)

func (*deque).PopFront -> r, a, b
  prop C05
  requires wfq(q)
  panics q.count <= 0
  modifies q.*, elems(q.buf)
  ensures [wf] wfq(q)
  ensures [storage] arr(q.buf) == old(arr(q.buf)) || fresh(q.buf)
  ensures [len] q.count == old(q.count) - 1
  ensures [front] r == old(q.buf[idx(q, 0)].r) && a == old(q.buf[idx(q, 0)].penalty0) && b == old(q.buf[idx(q, 0)].penalty1)
  ensures [rest] forall i int :: 0 <= i && i < q.count ==> kept(q, i, i + 1)

func (*deque).PopBack -> r, a, b
  prop C05
  requires wfq(q)
  panics q.count <= 0
  modifies q.*, elems(q.buf)
  ensures [wf] wfq(q)
  ensures [storage] arr(q.buf) == old(arr(q.buf)) || fresh(q.buf)
  ensures [len] q.count == old(q.count) - 1
  ensures [back] r == old(q.buf[idx(q, q.count - 1)].r) && a == old(q.buf[idx(q, q.count - 1)].penalty0) && b == old(q.buf[idx(q, q.count - 1)].penalty1)
  ensures [rest] forall i int :: 0 <= i && i < q.count ==> kept(q, i, i)

func (*deque).Front -> r, a, b
  prop C05
  requires wfq(q)
  panics q.count <= 0
  ensures elem(q, 0, r, a, b)

func (*deque).Back -> r, a, b
  prop C05
  requires wfq(q)
  panics q.count <= 0
  ensures elem(q, q.count - 1, r, a, b)

func (*deque).LastRune -> r
  prop C05
  requires wfq(q) && q.count > 0
  ensures r == q.buf[idx(q, q.count - 1)].r

func (*deque).At -> r, a, b
  prop C05
  requires wfq(q)
  panics i < 0 || i >= q.count
  ensures elem(q, i, r, a, b)

func (*deque).SetAt
  prop C05
  requires wfq(q)
  panics i < 0 || i >= q.count
  modifies elems(q.buf)
  ensures [wf] wfq(q)
  ensures [set] elem(q, i, r, p0, p1)
  ensures [rest] forall j int :: 0 <= j && j < q.count && j != i ==> kept(q, j, j)

func (*deque).Clear
  prop C05
  requires wfq(q)
  modifies q.*, elems(q.buf)
  ensures [wf] wfq(q)
  ensures [storage] arr(q.buf) == old(arr(q.buf)) || fresh(q.buf)
  ensures [empty] q.count == 0
  loop 0
    invariant [range] 0 <= h && h < len(q.buf) || len(q.buf) == 0 && h == 0
    invariant [same] q.head == old(q.head) && q.tail == old(q.tail) && q.count == old(q.count) && arr(q.buf) == old(arr(q.buf)) && off(q.buf) == old(off(q.buf)) && len(q.buf) == old(len(q.buf))

func (*deque).growIfFull
  prop C05
  requires wfq(q)
  modifies q.*
  ensures [wf] wfq(q)
  ensures [room] q.count < len(q.buf)
  ensures [len] q.count == old(q.count)
  ensures [buf] arr(q.buf) == old(arr(q.buf)) && off(q.buf) == old(off(q.buf)) && len(q.buf) == old(len(q.buf)) || fresh(q.buf)
  ensures [keep] forall i int :: 0 <= i && i < q.count ==> kept(q, i, i)

func (*deque).shrinkIfExcess
  prop C05
  requires wfq(q)
  modifies q.*
  ensures [wf] wfq(q)
  ensures [len] q.count == old(q.count)
  ensures [buf] arr(q.buf) == old(arr(q.buf)) && off(q.buf) == old(off(q.buf)) && len(q.buf) == old(len(q.buf)) || fresh(q.buf)
  ensures [keep] forall i int :: 0 <= i && i < q.count ==> kept(q, i, i)

func (*deque).AtomAt -> at
  prop C05
  inline
  requires wfq(q)
  panics i < 0 || i >= q.count
  ensures at.r == q.buf[idx(q, i)].r && at.penalty0 == q.buf[idx(q, i)].penalty0 && at.penalty1 == q.buf[idx(q, i)].penalty1
  ensures at == ref(at)

def rot(q, i, k) = i + k < q.count ? i + k : i + k - q.count
func (*deque).Rotate
  prop C05
  requires wfq(q)
  modifies q.*, elems(q.buf)
  ensures [wf] wfq(q)
  ensures [storage] arr(q.buf) == old(arr(q.buf)) || fresh(q.buf)
  ensures [len] q.count == old(q.count)
  ensures [rot] forall i int :: 0 <= i && i < q.count ==> kept(q, i, rot(q, i, q.count <= 1 ? 0 : (m < 0 ? m + q.count : m)))
  let m = n % q.count
  loop 0
    invariant [wf] wfq(q) && q.count == old(q.count) && arr(q.buf) == old(arr(q.buf)) && off(q.buf) == old(off(q.buf)) && len(q.buf) == old(len(q.buf)) && q.head != q.tail && q.count > 1
    invariant [n] m <= n && n <= 0
    invariant [rot] forall i int :: 0 <= i && i < q.count ==> kept(q, i, rot(q, i, (m) - n == 0 ? 0 : q.count + (m) - n))
    decreases 0 - n
  loop 1
    invariant [wf] wfq(q) && q.count == old(q.count) && arr(q.buf) == old(arr(q.buf)) && off(q.buf) == old(off(q.buf)) && len(q.buf) == old(len(q.buf)) && q.head != q.tail && q.count > 1
    invariant [n] 0 <= n && n <= m
    invariant [rot] forall i int :: 0 <= i && i < q.count ==> kept(q, i, rot(q, i, (m) - n))
    decreases n
