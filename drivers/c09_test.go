package grapheme

import (
	"fmt"
	"strings"
	"testing"

	"github.com/npillmayer/uax/segment"
)

func vKey(text string, got []string) string { return fmt.Sprintf("%q", got) }

// vSegments runs the segmenter with the grapheme breaker.
func vSegments(seg *segment.Segmenter, text string, how int) ([]string, string) {
	switch how {
	case 0:
		seg.Init(strings.NewReader(text))
	case 1:
		seg.InitFromSlice([]rune(text))
	default:
		seg.Init(&vSlow{r: []rune(text)})
	}
	var got []string
	n := 0
	for seg.Next() {
		got = append(got, seg.Text())
		if n++; n > len(text)+1 {
			return got, "more segments than characters"
		}
	}
	if seg.Err() != nil {
		return got, "error " + seg.Err().Error()
	}
	return got, ""
}

func vCheckGraphemes(seg *segment.Segmenter, text string, how int) string {
	want := vClusters([]rune(text))
	got, bad := vSegments(seg, text, how)
	if bad != "" {
		return fmt.Sprintf("text %+q: %s", text, bad)
	}
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
		return fmt.Sprintf("text %+q is split into %+q, UAX#29 says %+q", text, got, want)
	}
	return ""
}

func TestVerifC09(t *testing.T) {
	defer vStat()
	SetupGraphemeClasses()
	reps := vGraphemeReps()
	seg := segment.NewSegmenter(NewBreaker(1))
	// every sequence of classes up to length 4 (5)
	n := vScale(4, 5)
	var rec func(prefix []rune)
	rec = func(prefix []rune) {
		text := string(prefix)
		vTry("class-sequence", text, len(prefix) > 1, func() string { return vCheckGraphemes(seg, text, 0) })
		if len(prefix) == n {
			return
		}
		for i := range reps {
			rec(append(append([]rune{}, prefix...), reps[i][0]))
		}
	}
	rec(nil)
	// classes which make up the long rules, deeper
	deep := []rune{'\u0301', '\u200d', '\U0001F469', '\U0001F1E9', 'a'}
	var rec2 func(prefix []rune)
	rec2 = func(prefix []rune) {
		text := string(prefix)
		vTry("emoji-and-flags", text, len(prefix) > 1, func() string { return vCheckGraphemes(seg, text, 0) })
		if len(prefix) == vScale(6, 7) {
			return
		}
		for _, r := range deep {
			rec2(append(append([]rune{}, prefix...), r))
		}
	}
	rec2(nil)
	// random texts, all readers, fresh and used breakers, weights
	for i := 0; i < vScale(30000, 200000); i++ {
		s := seg
		if vRand(3) == 0 {
			s = segment.NewSegmenter(NewBreaker(vRand(8) - 1))
		}
		how := vRand(3)
		text := string(vGraphemeText(reps, vRand(40)))
		vTry("random-text", text, len(text) > 1, func() string { return vCheckGraphemes(s, text, how) })
	}
	// long runs of one kind: nothing in the rules is bounded
	for i := 0; i < vScale(40, 400); i++ {
		var sb strings.Builder
		for k := 0; k < 1+vRand(3); k++ {
			x, y := reps[vRand(len(reps))], reps[vRand(len(reps))]
			a, b := string(x[vRand(len(x))]), string(y[vRand(len(y))])
			sb.WriteString(a)
			sb.WriteString(strings.Repeat(b, 1+vRand(300)))
		}
		text := sb.String() + "a"
		vTry("long-run", text, true, func() string { return vCheckGraphemes(segment.NewSegmenter(NewBreaker(1)), text, vRand(3)) })
	}
	for i := 0; i < vScale(3000, 30000); i++ {
		var sb strings.Builder
		reach := []int{3, 10, 40, 200, 1000}[vRand(5)]
		for k := 0; k < 3; k++ {
			sb.WriteRune([]rune("a\U0001F469\U0001F3FE\u2764\u0600\u1100")[vRand(6)])
			sb.WriteString(strings.Repeat("\u0301", vRand(reach)))
			sb.WriteString(strings.Repeat("\ufe0f", vRand(2)))
			if vRand(4) > 0 {
				sb.WriteString("\u200d")
			}
			if vRand(3) == 0 {
				sb.WriteString(strings.Repeat("\U0001F1E9", vRand(reach)))
			}
		}
		text := sb.String()
		vTry("far-apart", text, true, func() string { return vCheckGraphemes(segment.NewSegmenter(NewBreaker(1)), text, vRand(3)) })
	}
	// breaker side by side with another one
	for i := 0; i < vScale(1500, 15000); i++ {
		text := string(vGraphemeText(reps, vRand(30)))
		vTry("two-segmenters", text, len(text) > 1, func() string {
			s1, s2 := segment.NewSegmenter(NewBreaker(1)), segment.NewSegmenter(NewBreaker(1))
			other := string(vGraphemeText(reps, vRand(30)))
			s1.Init(strings.NewReader(text))
			s2.Init(strings.NewReader(other))
			var g1, g2 []string
			for {
				a, b := s1.Next(), false
				if a {
					g1 = append(g1, s1.Text())
				}
				if vRand(4) != 0 || !a {
					if b = s2.Next(); b {
						g2 = append(g2, s2.Text())
					}
					if !a && !b {
						break
					}
				}
			}
			if w := vClusters([]rune(text)); fmt.Sprintf("%q", g1) != fmt.Sprintf("%q", w) {
				return fmt.Sprintf("text %+q, read in turns with another one, is split into %+q, UAX#29 says %+q", text, g1, w)
			}
			if w := vClusters([]rune(other)); fmt.Sprintf("%q", g2) != fmt.Sprintf("%q", w) {
				return fmt.Sprintf("text %+q, read in turns with another one, is split into %+q, UAX#29 says %+q", other, g2, w)
			}
			return ""
		})
	}
}
