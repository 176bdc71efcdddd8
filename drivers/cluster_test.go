package grapheme

import (
	"io"
	"unicode"

	"github.com/npillmayer/uax/emoji"
)

// Oracle: rules GB1-GB999 of UAX#29 (Unicode 11), written down from the standard, over the library's classes.

const vPict = -1

func vClass(r rune) int {
	c := ClassForRune(r)
	if c == Any && unicode.Is(emoji.Extended_Pictographic, r) {
		return vPict
	}
	return int(c)
}

// vBreakBetween decides whether there is a boundary before character i (0 < i < len(c)).
func vBreakBetween(c []int, i int) bool {
	in := func(x int, set ...GraphemeClass) bool {
		for _, s := range set {
			if x == int(s) {
				return true
			}
		}
		return false
	}
	a, b := c[i-1], c[i]
	switch {
	case in(a, CRClass) && in(b, LFClass): // GB3
		return false
	case in(a, ControlClass, CRClass, LFClass): // GB4
		return true
	case in(b, ControlClass, CRClass, LFClass): // GB5
		return true
	case in(a, LClass) && in(b, LClass, VClass, LVClass, LVTClass): // GB6
		return false
	case in(a, LVClass, VClass) && in(b, VClass, TClass): // GB7
		return false
	case in(a, LVTClass, TClass) && in(b, TClass): // GB8
		return false
	case in(b, ExtendClass, ZWJClass): // GB9
		return false
	case in(b, SpacingMarkClass): // GB9a
		return false
	case in(a, PrependClass): // GB9b
		return false
	}
	if b == vPict && in(a, ZWJClass) { // GB11
		k := i - 2
		for k >= 0 && in(c[k], ExtendClass) {
			k--
		}
		if k >= 0 && c[k] == vPict {
			return false
		}
	}
	if in(a, Regional_IndicatorClass) && in(b, Regional_IndicatorClass) { // GB12, GB13
		n := 0
		for k := i - 1; k >= 0 && in(c[k], Regional_IndicatorClass); k-- {
			n++
		}
		if n%2 == 1 {
			return false
		}
	}
	return true // GB999
}

func vClusters(rs []rune) []string {
	if len(rs) == 0 {
		return nil
	}
	c := make([]int, len(rs))
	for i, r := range rs {
		c[i] = vClass(r)
	}
	var out []string
	start := 0
	for i := 1; i < len(rs); i++ {
		if vBreakBetween(c, i) {
			out = append(out, string(rs[start:i]))
			start = i
		}
	}
	return append(out, string(rs[start:]))
}

// vGraphemeReps lists characters by class: the first one is an ordinary representative.
func vGraphemeReps() [][]rune {
	tabs := []*unicode.RangeTable{CR, LF, Prepend, Control, Extend, Regional_Indicator, SpacingMark, L, V, T, LV, LVT, ZWJ, emoji.Extended_Pictographic}
	var reps [][]rune
	for _, t := range tabs {
		var rs []rune
		for _, x := range t.R16 {
			for _, r := range []rune{rune(x.Lo), rune(x.Hi)} {
				if r != 0 && (r < 0xd800 || r > 0xdfff) {
					rs = append(rs, r)
				}
			}
		}
		for _, x := range t.R32 {
			rs = append(rs, rune(x.Lo), rune(x.Hi))
		}
		if len(rs) == 0 {
			continue
		}
		reps = append(reps, rs)
	}
	return append(reps, []rune{'a', ' ', 'é', '世', '7', '\u2028', '\ufffd', '\u00a0', 'Z', '!', '\u00ad', '\ufeff', '\U0001F3FB', '\U0010FFFF'})
}

func vGraphemeText(reps [][]rune, n int) []rune {
	var rs []rune
	few := 0
	if vRand(2) == 0 {
		few = 2 + vRand(3)
	}
	var sel []int
	for i := 0; i < few; i++ {
		sel = append(sel, vRand(len(reps)))
	}
	for i := 0; i < n; i++ {
		k := vRand(len(reps))
		if few > 0 {
			k = sel[vRand(few)]
		}
		rs = append(rs, reps[k][vRand(len(reps[k]))])
	}
	return rs
}

// vSlow is a reader of its own kind.
type vSlow struct {
	r []rune
	n int
}

func (s *vSlow) ReadRune() (rune, int, error) {
	if s.n >= len(s.r) {
		return 0, 0, io.EOF
	}
	s.n++
	return s.r[s.n-1], 1, nil
}
