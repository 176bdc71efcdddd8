package VERIFPKG

import (
	"fmt"
	"strings"
	"unicode"
)

type vRun struct{ at, class int }

func vGoldRuns() []vRun {
	var out []vRun
	for _, f := range strings.Fields(vGold) {
		var r vRun
		fmt.Sscanf(f, "%d:%d", &r.at, &r.class)
		out = append(out, r)
	}
	return out
}

// vClasses looks at every rune value around and in the code space.
func vClasses(name string, tables []*unicode.RangeTable, class func(r rune) int, also func(r rune, gold, c int) string, dflt, eot int) {
	runs := vGoldRuns()
	k := 0
	bad := 0
	for r := -3; r <= 0x110003; r++ {
		for k+1 < len(runs) && runs[k+1].at <= r {
			k++
		}
		gold := runs[k].class
		msg := ""
		if c := class(rune(r)); c != gold {
			msg = fmt.Sprintf("classified %d, want %d", c, gold)
		} else {
			n, which := 0, dflt
			for i, t := range tables {
				if t != nil && unicode.Is(t, rune(r)) {
					n++
					which = i
				}
			}
			if r == 0 {
				which = eot
			}
			if n > 1 {
				msg = fmt.Sprintf("%d tables contain it", n)
			} else if which != c {
				msg = fmt.Sprintf("classified %d, but the table that contains it is %d", c, which)
			} else if also != nil {
				msg = also(rune(r), gold, c)
			}
		}
		if msg != "" {
			if bad++; bad < 4 {
				vTry(name, fmt.Sprintf("U+%04X", r), true, func() string { return msg })
			}
		}
	}
	for _, r := range []rune{-1 << 31, -1, 1<<31 - 1, 0x7fffffff, 0x110000} {
		r := r
		vTry(name+"-outside", fmt.Sprint(r), true, func() string {
			if c := class(r); c != dflt {
				return fmt.Sprintf("classified %d", c)
			}
			return ""
		})
	}
	vMu.Lock()
	vEval += 0x110007
	vDistinct += len(runs)
	vMu.Unlock()
}
