package uax29

import (
	"fmt"
	"testing"
	"unicode"

	"github.com/npillmayer/uax/emoji"
)

func TestVerifC11(t *testing.T) {
	SetupUAX29Classes()
	SetupUAX29Classes()
	gb := NewWordBreaker(1)
	gc := NewWordBreaker(0)
	tabs := []*unicode.RangeTable{ALetter, CR, Double_Quote, Extend, ExtendNumLet, Format, Hebrew_Letter, Katakana, LF, MidLetter,
		MidNum, MidNumLet, Newline, Numeric, Regional_Indicator, Single_Quote, WSegSpace, ZWJ}
	vClasses("word-class", tabs, func(r rune) int { return int(ClassForRune(r)) }, func(r rune, gold, c int) string {
		want := gold
		if gold == int(Other) && unicode.Is(emoji.Extended_Pictographic, r) {
			want = int(ZWJClass) + 1
		}
		if g := gb.CodePointClassFor(r); g != want || gc.CodePointClassFor(r) != want {
			return fmt.Sprintf("the breaker classifies it %d, want %d", g, want)
		}
		return ""
	}, 999, 1001)
	vStat()
}
