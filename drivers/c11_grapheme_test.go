package grapheme

import (
	"fmt"
	"testing"
	"unicode"

	"github.com/npillmayer/uax/emoji"
)

func TestVerifC11(t *testing.T) {
	SetupGraphemeClasses()
	SetupGraphemeClasses()
	gb := NewBreaker(1)
	gc := NewBreaker(0)
	tabs := []*unicode.RangeTable{CR, LF, Prepend, Control, Extend, Regional_Indicator, SpacingMark, L, V, T, LV, LVT, ZWJ}
	vClasses("grapheme-class", tabs, func(r rune) int { return int(ClassForRune(r)) }, func(r rune, gold, c int) string {
		want := gold
		if gold == int(Any) && unicode.Is(emoji.Extended_Pictographic, r) {
			want = int(ZWJClass) + 1
		}
		if g := gb.CodePointClassFor(r); g != want || gc.CodePointClassFor(r) != want {
			return fmt.Sprintf("the breaker classifies it %d, want %d", g, want)
		}
		return ""
	}, 999, 1001)
	vStat()
}
