package emoji
// ---- classification ------------------------------------------------------------
// intab(t, r): range table t contains code point r (tables are never changed once they are made)
logic intab(t int, r int) bool
extern unicode.Is(t, r) -> b
  requires t != nil
  ensures b <==> intab(ref(t), r)

def emjset() = len(rangeFromEmojisClass) == 6 && forall k int {rangeFromEmojisClass[k]} :: 0 <= k && k < 6 ==> rangeFromEmojisClass[k] != nil
def emjin(k, r) = intab(ref(rangeFromEmojisClass[k]), r)

func EmojisClassForRune -> c
  prop C11 C14
  requires emjset()
  modifies nothing
  ensures [range] -1 <= c && c <= 5
  ensures [default] c == -1 ==> (forall k int {rangeFromEmojisClass[k]} :: 0 <= k && k < 6 ==> !emjin(k, r))
  ensures [table] c >= 0 ==> emjin(c, r)
  ensures [first] c >= 0 ==> (forall k int {rangeFromEmojisClass[k]} :: 0 <= k && k < c ==> !emjin(k, r))
  loop 0
    invariant 0 <= c && c <= 6
    invariant forall k int {rangeFromEmojisClass[k]} :: 0 <= k && k < c ==> !emjin(k, r)
    decreases 6 - c

extern golang.org/x/text/unicode/rangetable.New(r) -> t
  ensures t != nil && fresh(t)

func setupEmojisClasses
  prop C11
  modifies rangeFromEmojisClass, Emoji, Emoji_Presentation, Emoji_Modifier, Emoji_Modifier_Base, Emoji_Component, Extended_Pictographic
  ensures [complete] emjset()
  ensures [slots] rangeFromEmojisClass[0] == Emoji && rangeFromEmojisClass[1] == Emoji_Presentation && rangeFromEmojisClass[2] == Emoji_Modifier
  ensures [slots2] rangeFromEmojisClass[3] == Emoji_Modifier_Base && rangeFromEmojisClass[4] == Emoji_Component && rangeFromEmojisClass[5] == Extended_Pictographic
