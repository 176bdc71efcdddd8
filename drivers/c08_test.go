package segment

import (
	"fmt"
	"strings"
	"testing"
	"unicode"
)

// the segments of the default breaker are the maximal runs of white space and of other characters
func vWords(seg *Segmenter, text string, slice bool) string {
	runes := []rune(text)
	if slice {
		seg.InitFromSlice(runes)
	} else {
		seg.Init(strings.NewReader(text))
	}
	at := 0
	for seg.Next() {
		end := at + 1
		if at >= len(runes) {
			return fmt.Sprintf("segment %q after the end of %q", seg.Text(), vClip(text))
		}
		for end < len(runes) && unicode.IsSpace(runes[end]) == unicode.IsSpace(runes[at]) {
			end++
		}
		if got := seg.Text(); got != string(runes[at:end]) {
			return fmt.Sprintf("text %q: segment at %d is %q, want %q", vClip(text), at, vClip(got), vClip(string(runes[at:end])))
		}
		p, q := seg.Penalties()
		if unicode.IsSpace(runes[at]) && p >= 0 || !unicode.IsSpace(runes[at]) && p <= 0 || q != 0 {
			return fmt.Sprintf("text %q: segment %q has penalties %d|%d", vClip(text), vClip(seg.Text()), p, q)
		}
		at = end
	}
	if at != len(runes) || seg.Err() != nil {
		return fmt.Sprintf("text %q: stops after %d of %d runes with %v", vClip(text), at, len(runes), seg.Err())
	}
	return ""
}

func TestVerifC08(t *testing.T) {
	defer vStat()
	al := []string{"a", "é", "世", "!", " ", "\t", "\n", "\u00a0", "\u2003", "\u0085", "\u200b", "\u3000", "\u180e", "\ufeff", "\u2028", "\x1f", "\x01", "\u0301", "\U0001F600", "\uFFFD", "\xff"}
	// every short text over a small alphabet
	small := []string{"a", "世", " ", "\u2003"}
	n := vScale(6, 8)
	for l := 0; l <= n; l++ {
		cnt := 1
		for i := 0; i < l; i++ {
			cnt *= len(small)
		}
		for c := 0; c < cnt; c++ {
			var sb strings.Builder
			for i, q := 0, c; i < l; i++ {
				sb.WriteString(small[q%len(small)])
				q /= len(small)
			}
			vTry("default-breaker", sb.String(), l > 1, func() string { return vWords(NewSegmenter(), sb.String(), c%2 == 1) })
		}
	}
	seg := NewSegmenter()
	for i := 0; i < vScale(4000, 60000); i++ {
		var sb strings.Builder
		set := al
		if vRand(3) == 0 {
			set = al[:6]
		}
		k := vRand(30)
		if vRand(100) == 0 {
			k = 300 + vRand(6000)
		}
		run := vRand(2) == 0 // long runs of one character
		s := ""
		for j := 0; j < k; j++ {
			if !run || s == "" || vRand(12) == 0 {
				s = set[vRand(len(set))]
			}
			sb.WriteString(s)
		}
		text := sb.String()
		vTry("default-breaker-reused", text, k > 1, func() string {
			if vRand(4) == 0 { // leave another text half way
				seg.Init(strings.NewReader("one two  three"))
				for q := vRand(4); q > 0; q-- {
					seg.Next()
				}
			}
			return vWords(seg, text, vRand(3) == 0)
		})
	}
	// runs of every length
	for n := 1; n <= vScale(1100, 4200); n++ {
		for _, w := range []string{"x", " "} {
			text := strings.Repeat(w, n) + "y" + strings.Repeat(w, n) + " z"
			vTry("default-breaker-run-length", text, true, func() string { return vWords(NewSegmenter(), text, n%2 == 0) })
		}
	}
	// every white-space character, and every character next to one
	for r := rune(1); r < 0x3100; r++ {
		if r == 0xD800 {
			break
		}
		text := "x" + string(r) + "y " + string(r) + string(r) + "\n"
		vTry("default-breaker-chars", text, true, func() string { return vWords(NewSegmenter(), text, false) })
	}
}
