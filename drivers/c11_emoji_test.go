package emoji

import (
	"fmt"
	"strings"
	"testing"
	"unicode"
)

func TestVerifC11(t *testing.T) {
	SetupEmojisClasses()
	SetupEmojisClasses()
	tabs := []*unicode.RangeTable{Emoji, Emoji_Presentation, Emoji_Modifier, Emoji_Modifier_Base, Emoji_Component, Extended_Pictographic}
	type run struct{ at, set int }
	var runs []run
	for _, f := range strings.Fields(vGold) {
		var r run
		fmt.Sscanf(f, "%d:%d", &r.at, &r.set)
		runs = append(runs, r)
	}
	k, bad := 0, 0
	for r := -3; r <= 0x110003; r++ {
		for k+1 < len(runs) && runs[k+1].at <= r {
			k++
		}
		set := runs[k].set
		first := -1
		got := 0
		for i := 5; i >= 0; i-- {
			if set&(1<<uint(i)) != 0 {
				first = i
			}
			if unicode.Is(tabs[i], rune(r)) {
				got |= 1 << uint(i)
			}
		}
		c := int(EmojisClassForRune(rune(r)))
		if c != first || got != set {
			if bad++; bad < 4 {
				vTry("emoji-class", fmt.Sprintf("U+%04X", r), true, func() string {
					return fmt.Sprintf("classified %d, want %d; in tables %b, want %b", c, first, got, set)
				})
			}
		}
	}
	vMu.Lock()
	vEval += 0x110007
	vDistinct += len(runs)
	vMu.Unlock()
	vStat()
}
