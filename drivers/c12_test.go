package grapheme

import (
	"fmt"
	"strings"
	"testing"
	"unicode/utf8"
)

// vLegalPart: the text from its first legal rune up to the first ill-formed byte after it.
func vLegalPart(s string) string {
	i := 0
	bad := func(i int) (bool, int) {
		r, n := utf8.DecodeRuneInString(s[i:])
		return r == utf8.RuneError && n <= 1, n
	}
	for i < len(s) {
		if b, _ := bad(i); !b {
			break
		}
		i++
	}
	j := i
	for j < len(s) {
		b, n := bad(j)
		if b {
			break
		}
		j += n
	}
	return s[i:j]
}

func vNth(g String, n int) (s string, p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	return g.Nth(n), false
}

func vShow(s string) string {
	if len(s) > 200 {
		return fmt.Sprintf("%+q… (%d bytes)", s[:200], len(s))
	}
	return fmt.Sprintf("%+q", s)
}

func vCheckString(g String, s string) string {
	want := vClusters([]rune(vLegalPart(s)))
	if g.String() != s {
		return fmt.Sprintf("String() = %s", vShow(g.String()))
	}
	if g.Len() != len(want) {
		return fmt.Sprintf("%d graphemes reported, but there are %d clusters", g.Len(), len(want))
	}
	for k := 0; k < 2; k++ { // twice: reading is repeatable
		for i, w := range want {
			if x, p := vNth(g, i); p || x != w {
				return fmt.Sprintf("grapheme %d of %d is %s (panic %v), want %s", i, len(want), vShow(x), p, vShow(w))
			}
		}
	}
	for _, i := range []int{-1, -1 << 40, len(want), len(want) + 1, len(want) + 256, len(want) + 65536, 1 << 40} {
		if i == 0 { // Nth(0) of an empty string is the empty grapheme
			if x, p := vNth(g, i); p || x != "" {
				return fmt.Sprintf("index 0 of no graphemes gives %s (panic %v)", vShow(x), p)
			}
			continue
		}
		if x, p := vNth(g, i); !p {
			return fmt.Sprintf("index %d of %d graphemes gives %s instead of a panic", i, len(want), vShow(x))
		}
	}
	return ""
}

func TestVerifC12(t *testing.T) {
	SetupGraphemeClasses()
	reps := vGraphemeReps()
	check := func(s string) {
		vTry("grapheme-string", vShow(s), len(s) > 4, func() string {
			if m := vCheckString(StringFromString(s), s); m != "" {
				return m
			}
			b := []byte(s)
			g := StringFromBytes(b)
			for i := range b {
				b[i] = 'Z'
			}
			if m := vCheckString(g, s); m != "" {
				return "from bytes: " + m
			}
			// the representations cannot be told apart
			if len(s) >= 4 && len(s) < 255 {
				if m := vCheckString(makeMidString(s), s); m != "" {
					return "medium representation: " + m
				}
			}
			return ""
		})
	}
	for _, s := range []string{"", "a", "\x80", "\xff\xfe", "\ufffd", "\ufffd\x80", "\x80\ufffd\u0301", "\xf0\x9f", "ab\x80cd", "\x80\x80ab"} {
		check(s)
	}
	// every length around the limits of the representations
	for n := 1; n <= 6; n++ {
		check(strings.Repeat("x", n))
	}
	for n := 245; n <= 262; n++ {
		check(strings.Repeat("x", n))
		check("\x80" + strings.Repeat("x", n))
		check("e" + strings.Repeat("\u0301", (n-1)/2) + strings.Repeat("y", (n-1)%2))
		check(strings.Repeat("\u00e9", n/2) + strings.Repeat("y", n%2))
		check(strings.Repeat("\x80", 3) + strings.Repeat("\U0001F1E6", (n-3)/4) + strings.Repeat("y", (n-3)%4))
		check(strings.Repeat("\x80", n-1) + "z")
	}
	for _, n := range []int{1000, 16380, 32766, 32767, 32768, 65000, 65533, 65534} {
		check(strings.Repeat("x", n))
		check(strings.Repeat("\x80", n-2) + "zz")
	}
	check("e" + strings.Repeat("\u0301", 30000))
	check("\xc0e" + strings.Repeat("\u0301", 30000) + "abc")
	for _, n := range []int{65535, 65536, 70000, 1 << 20} { // too long: refused
		n := n
		vTry("too-long", n, true, func() string {
			defer func() { recover() }()
			g := StringFromString(strings.Repeat("x", n))
			return vCheckString(g, strings.Repeat("x", n)) // not refused: then it must be right
		})
	}
	bytes := []string{"a", "\x80", "\xc3", "\xa9", "\xf0", "\x9f", "\x98", "\x80", "\xe0", "\xed", "\xff"}
	for i := 0; i < vScale(6000, 120000); i++ {
		n := 1 + vRand(8)
		switch vRand(8) {
		case 0:
			n = 1 + vRand(120)
		case 1:
			n = 60 + vRand(60)
		}
		s := string(vGraphemeText(reps, n))
		if vRand(3) == 0 { // ill-formed bytes in front, and perhaps inside
			for k := 1 + vRand(4); k > 0; k-- {
				s = bytes[1+vRand(len(bytes)-1)] + s
			}
		}
		if vRand(4) == 0 {
			k := vRand(len(s) + 1)
			s = s[:k] + bytes[vRand(len(bytes))] + s[k:]
		}
		check(s)
	}
	for i := 0; i < vScale(12, 200); i++ {
		check(string(vGraphemeText(reps, 1000+vRand(12000))))
	}
	vStat()
}
