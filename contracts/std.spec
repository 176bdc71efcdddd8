package uax
// ---- trusted contracts of the standard library ----------------------------
// decruneat/decwidthat(id, p, e): character and width utf8.DecodeRune yields for the bytes p..e of string data id
axiom utf8_continuation: forall id int, p int, e int {decruneat(id, p, e)} :: p < e && 128 <= byteat(id, p) && byteat(id, p) < 192 ==> decruneat(id, p, e) == 65533 && decwidthat(id, p, e) == 1
axiom utf8_range: forall id int, p int, e int {decwidthat(id, p, e)} :: p < e ==> 1 <= decwidthat(id, p, e) && decwidthat(id, p, e) <= 4 && p + decwidthat(id, p, e) <= e
axiom utf8_range2: forall id int, p int, e int {decruneat(id, p, e)} :: 0 <= decruneat(id, p, e) && decruneat(id, p, e) <= 1114111

extern unicode/utf8.RuneStart(b) -> r
  ensures r <==> (b < 128 || b >= 192)

extern unicode/utf8.DecodeRuneInString(s) -> r, w
  ensures len(s) == 0 ==> r == 65533 && w == 0
  ensures len(s) > 0 ==> r == decrune(s, 0) && w == decwidth(s, 0)

extern unicode/utf8.RuneLen(r) -> n
  ensures r >= 0 && r < 128 ==> n == 1
  ensures r >= 128 && r < 2048 ==> n == 2
  ensures r >= 2048 && r < 65536 && !(55296 <= r && r <= 57343) ==> n == 3
  ensures r >= 65536 && r <= 1114111 ==> n == 4
  ensures r < 0 || r > 1114111 || (55296 <= r && r <= 57343) ==> n == -1
// tracing and formatting: no effect on the program's state
pureextern github.com/npillmayer/schuko/tracing.Select iface:tracing.Trace.* fmt.Sprintf fmt.Errorf fmt.Printf fmt.Println
extern errors.New(text) -> e
  ensures tag(e) != 0

extern strings.NewReader(s) -> r
  ensures r != nil && fresh(r)
