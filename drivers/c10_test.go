package uax29

import (
	"fmt"
	"io"
	"strings"
	"testing"
	"unicode"

	"github.com/npillmayer/uax/emoji"
	"github.com/npillmayer/uax/segment"
)

// Oracle: rules WB1-WB999 of UAX#29 (Unicode 11), written down from the standard, over the library's classes.

type vChar struct {
	c    UAX29Class
	pict bool
}

func vIs(c vChar, set ...UAX29Class) bool {
	for _, s := range set {
		if c.c == s {
			return true
		}
	}
	return false
}

func vNewline(c vChar) bool   { return vIs(c, NewlineClass, CRClass, LFClass) }
func vIgnorable(c vChar) bool { return vIs(c, ExtendClass, FormatClass, ZWJClass) }
func vAHL(c vChar) bool       { return vIs(c, ALetterClass, Hebrew_LetterClass) }
func vMNLQ(c vChar) bool      { return vIs(c, MidNumLetClass, Single_QuoteClass) }

// vBase is the character an ignorable one belongs to.
func vBase(c []vChar, j int) int {
	for j > 0 && vIgnorable(c[j]) && !vNewline(c[j-1]) {
		j--
	}
	return j
}

func vBreakBetween(c []vChar, i int) bool {
	a, b := c[i-1], c[i]
	switch {
	case vIs(a, CRClass) && vIs(b, LFClass): // WB3
		return false
	case vNewline(a) || vNewline(b): // WB3a, WB3b
		return true
	case vIs(a, ZWJClass) && b.pict: // WB3c
		return false
	case vIs(a, WSegSpaceClass) && vIs(b, WSegSpaceClass): // WB3d
		return false
	case vIgnorable(b): // WB4
		return false
	}
	none := vChar{c: sot}
	p := vBase(c, i-1)
	prev, pprev, next := c[p], none, none
	if p > 0 {
		pprev = c[vBase(c, p-1)]
	}
	n := i + 1
	for n < len(c) && vIgnorable(c[n]) {
		n++
	}
	if n < len(c) {
		next = c[n]
	}
	switch {
	case vAHL(prev) && vAHL(b): // WB5
		return false
	case vAHL(prev) && (vIs(b, MidLetterClass) || vMNLQ(b)) && vAHL(next): // WB6
		return false
	case vAHL(pprev) && (vIs(prev, MidLetterClass) || vMNLQ(prev)) && vAHL(b): // WB7
		return false
	case vIs(prev, Hebrew_LetterClass) && vIs(b, Single_QuoteClass): // WB7a
		return false
	case vIs(prev, Hebrew_LetterClass) && vIs(b, Double_QuoteClass) && vIs(next, Hebrew_LetterClass): // WB7b
		return false
	case vIs(pprev, Hebrew_LetterClass) && vIs(prev, Double_QuoteClass) && vIs(b, Hebrew_LetterClass): // WB7c
		return false
	case vIs(prev, NumericClass) && vIs(b, NumericClass): // WB8
		return false
	case vAHL(prev) && vIs(b, NumericClass): // WB9
		return false
	case vIs(prev, NumericClass) && vAHL(b): // WB10
		return false
	case vIs(pprev, NumericClass) && (vIs(prev, MidNumClass) || vMNLQ(prev)) && vIs(b, NumericClass): // WB11
		return false
	case vIs(prev, NumericClass) && (vIs(b, MidNumClass) || vMNLQ(b)) && vIs(next, NumericClass): // WB12
		return false
	case vIs(prev, KatakanaClass) && vIs(b, KatakanaClass): // WB13
		return false
	case (vAHL(prev) || vIs(prev, NumericClass, KatakanaClass, ExtendNumLetClass)) && vIs(b, ExtendNumLetClass): // WB13a
		return false
	case vIs(prev, ExtendNumLetClass) && (vAHL(b) || vIs(b, NumericClass, KatakanaClass)): // WB13b
		return false
	}
	if vIs(prev, Regional_IndicatorClass) && vIs(b, Regional_IndicatorClass) { // WB15, WB16
		n := 0
		for k := p; ; k = vBase(c, k-1) {
			if !vIs(c[k], Regional_IndicatorClass) {
				break
			}
			n++
			if k == 0 {
				break
			}
		}
		if n%2 == 1 {
			return false
		}
	}
	return true // WB999
}

func vWordsOf(rs []rune) []string {
	if len(rs) == 0 {
		return nil
	}
	c := make([]vChar, len(rs))
	for i, r := range rs {
		c[i] = vChar{ClassForRune(r), unicode.Is(emoji.Extended_Pictographic, r)}
	}
	var out []string
	start := 0
	for i := 1; i < len(rs); i++ {
		if vBreakBetween(c, i) {
			out = append(out, string(rs[start:i]))
			start = i
		}
	}
	return append(out, string(rs[start:]))
}

func vWordReps() [][]rune {
	tabs := []*unicode.RangeTable{ALetter, CR, Double_Quote, Extend, ExtendNumLet, Format, Hebrew_Letter, Katakana, LF, MidLetter, MidNum, MidNumLet,
		Newline, Numeric, Regional_Indicator, Single_Quote, WSegSpace, ZWJ, emoji.Extended_Pictographic}
	var reps [][]rune
	for _, t := range tabs {
		var rs []rune
		for _, x := range t.R16 {
			for _, r := range []rune{rune(x.Lo), rune(x.Hi)} {
				if r != 0 && (r < 0xd800 || r > 0xdfff) {
					rs = append(rs, r)
				}
			}
		}
		for _, x := range t.R32 {
			rs = append(rs, rune(x.Lo), rune(x.Hi))
		}
		if len(rs) > 0 {
			reps = append(reps, rs)
		}
	}
	return append(reps, []rune{'!', '世', 'ひ', '\ufffd', '\u00ad', '\u200b', '\U0010FFFF', '-', '\u24c2', '\ufeff'})
}

func vWordText(reps [][]rune, n int) []rune {
	var rs []rune
	few := 0
	if vRand(2) == 0 {
		few = 2 + vRand(4)
	}
	var sel []int
	for i := 0; i < few; i++ {
		sel = append(sel, vRand(len(reps)))
	}
	for i := 0; i < n; i++ {
		k := vRand(len(reps))
		if few > 0 {
			k = sel[vRand(few)]
		}
		rs = append(rs, reps[k][vRand(len(reps[k]))])
	}
	return rs
}

type vSlow struct {
	r []rune
	n int
}

func (s *vSlow) ReadRune() (rune, int, error) {
	if s.n >= len(s.r) {
		return 0, 0, io.EOF
	}
	s.n++
	return s.r[s.n-1], 1, nil
}

func vCheckWords(seg *segment.Segmenter, text string, how int) string {
	switch how {
	case 0:
		seg.Init(strings.NewReader(text))
	case 1:
		seg.InitFromSlice([]rune(text))
	default:
		seg.Init(&vSlow{r: []rune(text)})
	}
	var got []string
	for n := 0; seg.Next(); n++ {
		got = append(got, seg.Text())
		if n > len(text)+1 {
			return fmt.Sprintf("text %+q: more segments than characters", text)
		}
	}
	if seg.Err() != nil {
		return fmt.Sprintf("text %+q: error %v", text, seg.Err())
	}
	want := vWordsOf([]rune(text))
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
		return fmt.Sprintf("text %+q is split into %+q, UAX#29 says %+q", text, got, want)
	}
	return ""
}

func TestVerifC10(t *testing.T) {
	defer vStat()
	seg := segment.NewSegmenter(NewWordBreaker(1))
	reps := vWordReps()
	// every sequence of classes up to length 3 (4)
	n := vScale(4, 5)
	var rec func(prefix []rune)
	rec = func(prefix []rune) {
		text := string(prefix)
		vTry("class-sequence", text, len(prefix) > 1, func() string { return vCheckWords(seg, text, 0) })
		if len(prefix) == n {
			return
		}
		for i := range reps {
			rec(append(append([]rune{}, prefix...), reps[i][0]))
		}
	}
	rec(nil)
	// the classes of the long rules, deeper: with ignorable characters in between
	for _, deep := range [][]rune{
		{'a', '\'', '\u0301', '1', ','},
		{'א', '"', '\'', '\u00ad', 'b'},
		{'\U0001F1E9', '\u200d', '\u0301', '\U0001F469', 'a'},
		{'1', '.', '\'', '\u200d', '_'},
		{'\r', '\n', '\u0301', ' ', 'カ'},
		{'カ', '_', '1', '\u00ad', ':'},
	} {
		var rec2 func(prefix []rune)
		rec2 = func(prefix []rune) {
			text := string(prefix)
			vTry("long-rules", text, len(prefix) > 1, func() string { return vCheckWords(seg, text, 0) })
			if len(prefix) == vScale(5, 6) {
				return
			}
			for _, r := range deep {
				rec2(append(append([]rune{}, prefix...), r))
			}
		}
		rec2(nil)
	}
	for i := 0; i < vScale(30000, 200000); i++ {
		s := seg
		if vRand(3) == 0 {
			s = segment.NewSegmenter(NewWordBreaker(vRand(8) - 1))
		}
		how := vRand(3)
		text := string(vWordText(reps, vRand(40)))
		vTry("random-text", text, len(text) > 1, func() string { return vCheckWords(s, text, how) })
	}
	// long runs: the rules look across any number of ignorable characters
	for i := 0; i < vScale(40, 300); i++ {
		var sb strings.Builder
		for k := 0; k < 2+vRand(3); k++ {
			x := reps[vRand(len(reps))]
			sb.WriteRune(x[vRand(len(x))])
			y := reps[[]int{3, 5, 17}[vRand(3)]]
			if vRand(3) == 0 {
				y = reps[vRand(len(reps))]
			}
			sb.WriteString(strings.Repeat(string(y[vRand(len(y))]), vRand(150)))
		}
		text := sb.String() + "a"
		vTry("long-run", text, true, func() string { return vCheckWords(segment.NewSegmenter(NewWordBreaker(1)), text, vRand(3)) })
	}
	outer, middle, ign := []rune("ab\u05d0\u05d112\u0664\u30ab_\U0001F1E9\U0001F1EA "), []rune("'\".,:;\u00b7_"), []rune("\u0301\u00ad\u200d")
	for i := 0; i < vScale(3000, 30000); i++ {
		var sb strings.Builder
		reach := []int{3, 10, 40, 200, 1000}[vRand(5)]
		fill := func() { // any number of ignored characters
			for n := vRand(reach); n > 0 && vRand(3) > 0; n-- {
				sb.WriteString(strings.Repeat(string(ign[vRand(3)]), 1+vRand(n)))
			}
		}
		for k := 0; k < 3; k++ {
			sb.WriteRune(outer[vRand(len(outer))])
			fill()
			sb.WriteRune(middle[vRand(len(middle))])
			fill()
		}
		sb.WriteRune(outer[vRand(len(outer))])
		text := sb.String()
		if len(text) > 3000 {
			continue
		}
		vTry("far-apart", text, true, func() string { return vCheckWords(segment.NewSegmenter(NewWordBreaker(1)), text, vRand(3)) })
	}
	// two segmenters side by side share recognizers, but not text
	for i := 0; i < vScale(1500, 15000); i++ {
		text, other := string(vWordText(reps, vRand(30))), string(vWordText(reps, vRand(30)))
		vTry("two-segmenters", text, len(text) > 1, func() string {
			s1, s2 := segment.NewSegmenter(NewWordBreaker(1)), segment.NewSegmenter(NewWordBreaker(1))
			s1.Init(strings.NewReader(text))
			s2.Init(strings.NewReader(other))
			var g1, g2 []string
			for {
				a, b := s1.Next(), false
				if a {
					g1 = append(g1, s1.Text())
				}
				if vRand(4) != 0 || !a {
					if b = s2.Next(); b {
						g2 = append(g2, s2.Text())
					}
					if !a && !b {
						break
					}
				}
			}
			if w := vWordsOf([]rune(text)); fmt.Sprintf("%q", g1) != fmt.Sprintf("%q", w) {
				return fmt.Sprintf("text %+q, read in turns with another one, is split into %+q, UAX#29 says %+q", text, g1, w)
			}
			if w := vWordsOf([]rune(other)); fmt.Sprintf("%q", g2) != fmt.Sprintf("%q", w) {
				return fmt.Sprintf("text %+q, read in turns with another one, is split into %+q, UAX#29 says %+q", other, g2, w)
			}
			return ""
		})
	}
}
