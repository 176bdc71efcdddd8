package uax

import (
	"fmt"
	"testing"
)

// wellFormedAt: table 3-7 of the Unicode standard, written out independently of package utf8
func vWellFormed(s string) bool {
	c := func(i int, lo, hi byte) bool { return i < len(s) && s[i] >= lo && s[i] <= hi }
	if len(s) == 0 {
		return false
	}
	switch b := s[0]; {
	case b <= 0x7f:
		return true
	case b >= 0xc2 && b <= 0xdf:
		return c(1, 0x80, 0xbf)
	case b == 0xe0:
		return c(1, 0xa0, 0xbf) && c(2, 0x80, 0xbf)
	case b == 0xed:
		return c(1, 0x80, 0x9f) && c(2, 0x80, 0xbf)
	case b >= 0xe1 && b <= 0xef:
		return c(1, 0x80, 0xbf) && c(2, 0x80, 0xbf)
	case b == 0xf0:
		return c(1, 0x90, 0xbf) && c(2, 0x80, 0xbf) && c(3, 0x80, 0xbf)
	case b >= 0xf1 && b <= 0xf3:
		return c(1, 0x80, 0xbf) && c(2, 0x80, 0xbf) && c(3, 0x80, 0xbf)
	case b == 0xf4:
		return c(1, 0x80, 0x8f) && c(2, 0x80, 0xbf) && c(3, 0x80, 0xbf)
	}
	return false
}

func vFirstLegal(s string) (int, string) {
	for i := range []byte(s) {
		if vWellFormed(s[i:]) {
			return i, s[:i]
		}
	}
	return -1, s
}

func TestVerifC13(t *testing.T) {
	check := func(s string) {
		vTry("first-legal-rune", fmt.Sprintf("%q", s), len(s) > 1 && !vWellFormed(s), func() string {
			pos, pre := PositionOfFirstLegalRune(s)
			wp, wpre := vFirstLegal(s)
			if pos != wp || string(pre) != wpre {
				return fmt.Sprintf("got (%d, %q), want (%d, %q)", pos, pre, wp, wpre)
			}
			keep := s + "x"
			for i := range pre {
				pre[i] = 'Z'
			}
			if keep[:len(s)] != s {
				return "prefix is not a copy"
			}
			return ""
		})
	}
	alpha := []byte{0, 'a', 0x7f, 0x80, 0x9f, 0xa0, 0xbf, 0xc1, 0xc3, 0xe0, 0xed, 0xef, 0xbd, 0xf0, 0xf4}
	check("")
	var rec func(p []byte, n int)
	rec = func(p []byte, n int) {
		check(string(p))
		if n == 0 {
			return
		}
		for _, b := range alpha {
			rec(append(append([]byte{}, p...), b), n-1)
		}
	}
	rec(nil, vScale(4, 5))
	for b := 0; b < 256; b++ {
		check(string([]byte{byte(b)}))
		check(string([]byte{0x80, byte(b), 0x80, 0x80, 0x80}))
	}
	bad := []string{"\x80", "\xff", "\xc0\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xe4\xbd", "\xf0\x9f\x98", "\xe0\x80", "\xc3"}
	good := []string{"\uFFFD", "a", "é", "世", "😀", "\u0000", "\U0010FFFF"}
	for i := 0; i < vScale(20000, 300000); i++ {
		s := ""
		for k := vRand(12); k > 0; k-- {
			s += bad[vRand(len(bad))]
		}
		if vRand(5) > 0 {
			s += good[vRand(len(good))]
		}
		for k := vRand(3); k > 0; k-- {
			s += string([]byte{byte(vRand(256))})
		}
		check(s)
	}
	for n := 1; n <= 70000; n = n*3/2 + 1 { // long illegal prefixes
		b := make([]byte, n)
		for i := range b {
			b[i] = 0x80 + byte(i%0x40)
		}
		for _, g := range good {
			check(string(b) + g)
		}
		check(string(b))
	}
	vStat()
}
