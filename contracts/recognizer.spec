package uax
// ---- recognizers and their pool ---------------------------------------------
// Ghost state: protocol of calls of state functions (how many, the last one: which function, for which recognizer,
// which rune and class, what it returned, which match length and penalties it left), recognizers in the pool.
ghost ncalls int
ghost cfn int
ghost crec int
ghost crune int
ghost ccls int
ghost cret int
ghost cmatch int
ghost cpen int
ghost inpool arrb

// Any function may be a state function. It works on its recognizer, and records the call.
extern functype:uax.NfaStateFn(self, rec, r, c) -> next
  modifies rec.*, ghost ncalls, ghost cfn, ghost crec, ghost crune, ghost ccls, ghost cret, ghost cmatch, ghost cpen
  ensures ncalls == old(ncalls) + 1 && cfn == int(self) && crec == ref(rec) && crune == r && ccls == c
  ensures cret == int(next) && cmatch == rec.MatchLen && cpen == arr(rec.penalties)

def isClean(rec) = rec.Expect == 0 && rec.MatchLen == 0 && tag(rec.UserData) == 0 && arr(rec.penalties) == 0 && rec.nextStep == nil
def poolClean() = forall v int {inpool[v]} :: inpool[v] ==> isClean(as(v, "*uax.Recognizer"))

// The pool hands out an object which was returned to it before, or a new one from its factory; never one in use.
extern (*github.com/jolestar/go-commons-pool.ObjectPool).BorrowObject(p, ctx) -> o, err
  modifies ghost inpool
  ensures typeis(o, "*uax.Recognizer") && tag(err) == 0 && val(o) != 0
  ensures old(inpool)[val(o)] || freshref(val(o)) && isClean(as(o, "*uax.Recognizer"))
  ensures !inpool[val(o)]
  ensures forall v int {inpool[v]} :: v != val(o) ==> inpool[v] == old(inpool)[v]
extern (*github.com/jolestar/go-commons-pool.ObjectPool).ReturnObject(p, ctx, o) -> err
  modifies ghost inpool
  ensures inpool[val(o)]
  ensures forall v int {inpool[v]} :: v != val(o) ==> inpool[v] == old(inpool)[v]

func (*Recognizer).RuneEvent -> ps
  prop C07
  modifies rec.*, ghost ncalls, ghost cfn, ghost crec, ghost crune, ghost ccls, ghost cret, ghost cmatch, ghost cpen
  ensures [once] ncalls == old(ncalls) + (old(rec.nextStep != nil) ? 1 : 0)
  ensures [call] old(rec.nextStep != nil) ==> cfn == old(int(rec.nextStep)) && crec == ref(rec) && crune == r && ccls == codePointClass
  ensures [next] old(rec.nextStep != nil) ==> int(rec.nextStep) == cret && rec.MatchLen == cmatch && arr(rec.penalties) == cpen
  ensures [idle] old(rec.nextStep == nil) ==> rec.nextStep == nil && rec.MatchLen == old(rec.MatchLen) && arr(rec.penalties) == old(arr(rec.penalties)) && len(rec.penalties) == old(len(rec.penalties))
  ensures [penalties] rec.nextStep == nil && rec.MatchLen > 0 ==> arr(ps) == arr(rec.penalties) && off(ps) == off(rec.penalties) && len(ps) == len(rec.penalties)
  ensures [no-penalties] !(rec.nextStep == nil && rec.MatchLen > 0) ==> len(ps) == 0

func (*Recognizer).Done -> d
  prop C07
  modifies nothing
  ensures d <==> rec.nextStep == nil

func (*Recognizer).MatchLength -> n
  prop C07
  modifies nothing
  ensures n == rec.MatchLen

func DoAbort -> next
  prop C07
  requires rec != nil
  modifies rec.MatchLen
  ensures next == nil && rec.MatchLen == 0

func DoAccept -> next
  prop C07
  requires rec != nil
  modifies rec.MatchLen, rec.penalties
  ensures [match] next == nil && rec.MatchLen == old(rec.MatchLen) + 1
  ensures [penalties] arr(rec.penalties) == arr(penalties) && off(rec.penalties) == off(penalties) && len(rec.penalties) == len(penalties)

func NewRecognizer -> rec
  prop C07
  modifies nothing
  ensures fresh(rec) && rec != nil
  ensures rec.Expect == codePointClass && rec.nextStep == next && rec.MatchLen == 0 && tag(rec.UserData) == 0 && len(rec.penalties) == 0

func NewPooledRecognizer -> rec
  prop C07
  requires poolClean() && globalRecognizerPool != nil
  modifies all(uax.Recognizer), ghost inpool
  ensures [state] rec.Expect == cpClass && rec.nextStep == stateFn
  ensures [clean] rec.MatchLen == 0 && tag(rec.UserData) == 0 && arr(rec.penalties) == 0
  ensures [mine] rec != nil && !inpool[ref(rec)] && (old(inpool)[ref(rec)] || fresh(rec))
  ensures [others] forall v int {inpool[v]} :: v != ref(rec) ==> inpool[v] == old(inpool)[v]
  ensures [rest] forall v int {as(v, "*uax.Recognizer").nextStep} :: v != ref(rec) ==> as(v, "*uax.Recognizer").nextStep == old(as(v, "*uax.Recognizer").nextStep)
  ensures [rest2] forall v int {as(v, "*uax.Recognizer").MatchLen} :: v != ref(rec) ==> as(v, "*uax.Recognizer").MatchLen == old(as(v, "*uax.Recognizer").MatchLen)
  ensures [rest3] forall v int {as(v, "*uax.Recognizer").UserData} :: v != ref(rec) ==> as(v, "*uax.Recognizer").UserData == old(as(v, "*uax.Recognizer").UserData)
  ensures [rest4] forall v int {as(v, "*uax.Recognizer").Expect} :: v != ref(rec) ==> as(v, "*uax.Recognizer").Expect == old(as(v, "*uax.Recognizer").Expect)
  ensures [pool] poolClean()

func (*Recognizer).releaseIntoPool
  prop C07
  requires poolClean() && globalRecognizerPool != nil
  modifies rec.*, ghost inpool
  ensures [pool] poolClean() && inpool[ref(rec)]
  ensures [others] forall v int {inpool[v]} :: v != ref(rec) ==> inpool[v] == old(inpool)[v]

func (*Recognizer).Unsubscribed
  prop C07
  requires poolClean() && globalRecognizerPool != nil
  modifies rec.*, ghost inpool
  ensures [pool] poolClean() && inpool[ref(rec)]
  ensures [others] forall v int {inpool[v]} :: v != ref(rec) ==> inpool[v] == old(inpool)[v]
