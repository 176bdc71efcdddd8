package uax11
// ---- display widths --------------------------------------------------------------
// what utf8.DecodeRune yields for n bytes, of which at most four matter
logic dr(n int, a int, b int, c int, d int) int
axiom utf8_local: forall id int, p int, e int {decruneat(id, p, e)} :: p < e ==> decruneat(id, p, e) == dr(e - p >= 4 ? 4 : e - p, byteat(id, p), e - p > 1 ? byteat(id, p + 1) : 0, e - p > 2 ? byteat(id, p + 2) : 0, e - p > 3 ? byteat(id, p + 3) : 0)
def drs(g) = dr(len(g) >= 4 ? 4 : len(g), g[0], len(g) > 1 ? g[1] : 0, len(g) > 2 ? g[2] : 0, len(g) > 3 ? g[3] : 0)

extern unicode/utf8.DecodeRune(p) -> r, w
  ensures len(p) == 0 ==> r == 65533 && w == 0
  ensures len(p) > 0 ==> r == drs(p)

// East Asian Width class of a character: 0 neutral, 1 ambiguous, 2 wide, 3 narrow, 4 full-width, 5 half-width
logic eaw(r int) int
logic pkind(e int, l int) int
extern golang.org/x/text/width.LookupRune(r) -> p
  ensures pkind(p.elem, p.last) == eaw(r)
extern (golang.org/x/text/width.Properties).Kind(p) -> k
  ensures k == pkind(p.elem, p.last)

// emoji of any kind; ready: the emoji tables have been set up and are those of emoj
logic emoj(r int) bool
def ready() = tag(eaMatch) != 0 && len(emoji.rangeFromEmojisClass) == 6 && (forall k int {emoji.rangeFromEmojisClass[k]} :: 0 <= k && k < 6 ==> emoji.rangeFromEmojisClass[k] != nil) && (forall k int, r int {intab(ref(emoji.rangeFromEmojisClass[k]), r)} :: 0 <= k && k < 6 && intab(ref(emoji.rangeFromEmojisClass[k]), r) ==> emoj(r)) && (forall r int {emoj(r)} :: emoj(r) ==> (exists k int {emoji.rangeFromEmojisClass[k]} :: 0 <= k && k < 6 && intab(ref(emoji.rangeFromEmojisClass[k]), r)))
// the width of a character, by class and context
def isWide(k, asian) = k == 2 || k == 4 || (asian && (k == 0 || k == 1))
def chw(r, asian) = (emoj(r) && eaw(r) != 3) || isWide(eaw(r), asian) ? 2 : 1
def resolved(c) = c.resolve == resolveToWide || c.resolve == resolveToNarrow
def asian(c) = c.resolve == resolveToWide

func resolveToNarrow -> k
  prop C14
  modifies nothing
  ensures [wide] k == 2 <==> isWide(cat, false)
  ensures [narrow] k == 2 || k == 3

func resolveToWide -> k
  prop C14
  modifies nothing
  ensures [wide] k == 2 <==> isWide(cat, true)
  ensures [narrow] k == 2 || k == 3

// A context's resolver is one of the two functions above; this is their contracts taken together.
extern functype:uax11.resolver(self, grphm, cat) -> k
  requires self == resolveToNarrow || self == resolveToWide
  ensures self == resolveToNarrow ==> (k == 2 <==> isWide(cat, false))
  ensures self == resolveToWide ==> (k == 2 <==> isWide(cat, true))

func graphemeWidth -> w
  prop C14
  requires context != nil && resolved(context) && ready() && len(grphm) > 0
  modifies nothing
  ensures [width] w == chw(drs(grphm), asian(context))

extern golang.org/x/text/language.MustParseScript(s) -> r
extern golang.org/x/text/language.Make(s) -> r
extern (golang.org/x/text/language.Script).String(s) -> r
extern (golang.org/x/text/language.Tag).Script(t) -> s, c
extern language.Matcher.Match(m, t) -> r, i, c

func makeLatinContext -> c
  prop C14
  modifies nothing
  ensures c != nil && fresh(c) && c.resolve == resolveToNarrow && !c.ForceEastAsian

func makeEastAsianContext -> c
  prop C14
  modifies nothing
  ensures c != nil && fresh(c) && c.resolve == resolveToWide && c.ForceEastAsian

func findResolver -> c
  prop C14
  requires ctx != nil && tag(eaMatch) != 0
  modifies ctx.resolve, ctx.Script
  ensures [same] c == ctx
  ensures [resolved] resolved(ctx)

func evaluateContext -> c
  prop C14
  requires ctx != nil && tag(eaMatch) != 0
  modifies ctx.resolve, ctx.Script
  ensures [same] c == ctx
  ensures [resolved] resolved(ctx)
  ensures [forced] ctx.ForceEastAsian ==> asian(ctx)

func Width -> w
  prop C14
  requires ready() && (context != nil ==> context.resolve == nil || resolved(context))
  modifies context.resolve, context.Script
  ensures [empty] len(grphm) == 0 ==> w == 0
  ensures [class] w != 0 ==> len(grphm) > 0 && (context == nil ? w == chw(drs(grphm), false) : resolved(context) && w == chw(drs(grphm), asian(context)))
  ensures [legal] len(grphm) > 0 && drs(grphm) != 65533 ==> w != 0
  ensures [forced] context != nil && old(context.resolve) == nil && context.ForceEastAsian && w != 0 ==> asian(context)
  ensures [sticky] context != nil && old(context.resolve) != nil ==> context.resolve == old(context.resolve)

// a grapheme string: number of graphemes, first character of the i-th one
logic glen(v int) int
logic gfirst(v int, i int) int
logic gsum(v int, n int, asian bool) int
axiom gsum_0: forall v int, a bool {gsum(v, 0, a)} :: gsum(v, 0, a) == 0
axiom gsum_step: forall v int, i int, a bool {gsum(v, i, a), gfirst(v, i)} :: 0 <= i ==> gsum(v, i + 1, a) == gsum(v, i, a) + chw(gfirst(v, i), a)
extern grapheme.String.Len(self) -> n
  ensures n == glen(val(self)) && 0 <= n
extern grapheme.String.Nth(self, i) -> s
  requires 0 <= i && i < glen(val(self))
  ensures len(s) > 0 && decrune(s, 0) == gfirst(val(self), i)

func StringWidth -> w
  prop C14
  requires tag(s) != 0 && ready() && (context != nil ==> context.resolve == nil || resolved(context))
  modifies context.resolve, context.Script
  ensures [empty] glen(val(s)) == 0 ==> w == 0
  ensures [sum] glen(val(s)) > 0 ==> (context == nil ? w == gsum(val(s), glen(val(s)), false) : resolved(context) && w == gsum(val(s), glen(val(s)), asian(context)))
  ensures [forced] glen(val(s)) > 0 && context != nil && old(context.resolve) == nil && context.ForceEastAsian ==> asian(context)
  ensures [sticky] context != nil && old(context.resolve) != nil ==> context.resolve == old(context.resolve)
  loop 0
    invariant 0 <= i && i <= l && l == glen(val(s)) && context != nil && resolved(context) && ready()
    invariant w == gsum(val(s), i, asian(context))
    decreases l - i
