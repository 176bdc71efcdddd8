package uax
// a well-formed encoding starts at byte i of s (U+FFFD itself is three bytes long)
def legalAt(s, i) = !(decrune(s, i) == 65533 && decwidth(s, i) <= 1)

func PositionOfFirstLegalRune -> pos, prefix
  prop C13
  modifies nothing
  ensures [range] -1 <= pos && (len(s) == 0 ==> pos == -1) && (pos >= 0 ==> pos < len(s))
  ensures [first] forall i int :: 0 <= i && i < (pos < 0 ? len(s) : pos) ==> !legalAt(s, i)
  ensures [legal] pos >= 0 ==> legalAt(s, pos)
  ensures [prefix-length] len(prefix) == (pos < 0 ? len(s) : pos)
  ensures [prefix-bytes] forall i int :: 0 <= i && i < len(prefix) ==> prefix[i] == s[i]
  ensures [copy] fresh(prefix)
  loop 0
    invariant 0 <= i && i <= len(s) && start == -1
    invariant forall j int :: 0 <= j && j < i ==> !legalAt(s, j)
    decreases len(s) - i
