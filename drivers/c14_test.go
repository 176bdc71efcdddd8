package uax11

import (
	"fmt"
	"testing"
	"unicode"
	"unicode/utf8"

	"github.com/npillmayer/uax/emoji"
	"github.com/npillmayer/uax/grapheme"
	"golang.org/x/text/language"
	"golang.org/x/text/width"
)

// the rule, written out from UAX#11 and the package documentation
func vWidth(g []byte, asian bool) int {
	if len(g) == 0 {
		return 0
	}
	r, n := utf8.DecodeRune(g)
	if r == utf8.RuneError && n < 2 {
		return 0
	}
	k := width.LookupRune(r).Kind()
	for _, t := range []*unicode.RangeTable{emoji.Emoji, emoji.Emoji_Presentation, emoji.Emoji_Modifier, emoji.Emoji_Modifier_Base, emoji.Emoji_Component, emoji.Extended_Pictographic} {
		if unicode.Is(t, r) && k != width.EastAsianNarrow {
			return 2
		}
	}
	switch k {
	case width.EastAsianWide, width.EastAsianFullwidth:
		return 2
	case width.EastAsianAmbiguous, width.Neutral:
		if asian {
			return 2
		}
	}
	return 1
}

func vScript(s string) language.Script { return language.MustParseScript(s) }

func TestVerifC14(t *testing.T) {
	grapheme.SetupGraphemeClasses()
	type cx struct {
		name  string
		mk    func() *Context
		asian bool
	}
	ctxs := []cx{
		{"nil", func() *Context { return nil }, false},
		{"empty", func() *Context { return &Context{} }, false},
		{"latin", func() *Context { return LatinContext }, false},
		{"eastasian", func() *Context { return EastAsianContext }, true},
		{"forced", func() *Context { return &Context{ForceEastAsian: true} }, true},
		{"forced-en", func() *Context { return &Context{ForceEastAsian: true, Locale: "en-US", Script: vScript("Latn")} }, true},
	}
	for _, l := range []string{"zh", "zh-HK", "zh-Hant", "ja", "ja-JP", "ko", "ko-KR", "vi", "th", "mn", "my", "km"} {
		l := l
		ctxs = append(ctxs, cx{"locale " + l, func() *Context { return &Context{Locale: l} }, true})
	}
	for _, l := range []string{"en", "en-US", "de", "de-DE", "fr-CA", "ru", "el", "he", "ar", "fa-IR", "tr", "fi", "sw"} {
		l := l
		ctxs = append(ctxs, cx{"locale " + l, func() *Context { return &Context{Locale: l} }, false})
	}
	for _, s := range []string{"Bopo", "Hanb", "Hani", "Hans", "Hant", "Hang", "Hira", "Kana", "Lana", "Kitl", "Kits", "Nkdb", "Nkgb", "Plrd",
		"Batk", "Beng", "Bugi", "Mymr", "Cham", "Java", "Khmr", "Laoo", "Lisu", "Mtei", "Thai", "Yiii", "Bali", "Khar", "Rjng", "Roro", "Tglg", "Wole", "Buhd", "Tagb"} {
		sc := vScript(s)
		ctxs = append(ctxs, cx{"script " + s, func() *Context { return &Context{Script: sc, Locale: "en-US"} }, true})
	}
	for _, s := range []string{"Latn", "Cyrl", "Grek", "Arab", "Hebr", "Armn", "Deva"} {
		sc := vScript(s)
		ctxs = append(ctxs, cx{"script " + s, func() *Context { return &Context{Script: sc, Locale: "en-US"} }, false})
	}
	probe := []string{"A", "א", "∣", "。", "〈", "ａ", "ｱ", "￦", "😀", "#", "7", "®", "©", "ä", "α", "─", "\u05bd", "世", "\x00", "\n", "가", "ᄀ", "\U0001f1e6\U0001f1e7", "e\u0301", "世\u0301", "⁇", "\u200b", "a\xff", "\xffa", "\xff", "\xe4\xb8", "", "\ufffd", "\U0010ffff"}
	// every context, twice over the probes (a resolved context must stay what it is), in both orders
	for _, c := range ctxs {
		c := c
		ctx := c.mk()
		for round := 0; round < 2; round++ {
			for _, p := range probe {
				p := p
				vTry("width-in-context", fmt.Sprintf("%s: %q", c.name, p), true, func() string {
					want := vWidth([]byte(p), c.asian)
					buf := []byte(p)
					if w := Width(buf, ctx); w != want {
						return fmt.Sprintf("width %d, want %d (round %d)", w, want, round)
					}
					if string(buf) != p {
						return "the text was changed"
					}
					if ctx != nil && (ctx.ForceEastAsian != (c.mk().ForceEastAsian) || ctx.Locale != c.mk().Locale) {
						return "the context was changed"
					}
					return ""
				})
			}
		}
		vTry("string-width-context", c.name, true, func() string {
			s := "ä世😀α."
			want := 0
			for _, r := range s {
				want += vWidth([]byte(string(r)), c.asian)
			}
			if w := StringWidth(grapheme.StringFromString(s), c.mk()); w != want {
				return fmt.Sprintf("width %d, want %d", w, want)
			}
			return ""
		})
	}
	// two contexts in turn do not influence each other
	a, b := &Context{Locale: "ja"}, &Context{Locale: "en"}
	for i := 0; i < 4; i++ {
		vTry("contexts-in-turn", i, true, func() string {
			if x, y := Width([]byte("α"), a), Width([]byte("α"), b); x != 2 || y != 1 {
				return fmt.Sprintf("%d %d", x, y)
			}
			return ""
		})
	}
	// every character
	bad := 0
	for r := rune(0); r <= 0x10ffff; r++ {
		if r >= 0xd800 && r <= 0xdfff {
			continue
		}
		g := []byte(string(r))
		for _, asian := range []bool{false, true} {
			ctx := LatinContext
			if asian {
				ctx = EastAsianContext
			}
			if w, want := Width(g, ctx), vWidth(g, asian); w != want && bad < 3 {
				bad++
				vTry("width", fmt.Sprintf("U+%04X asian %v", r, asian), true, func() string { return fmt.Sprintf("width %d, want %d", w, want) })
			}
		}
	}
	vMu.Lock()
	vEval += 2 * 0x110000
	vMu.Unlock()
	// sums
	parts := append([]string{"👶🏿\u200d👶🏿", "\r\n", "각", "\u0600b", "क्ष", " "}, probe...)
	for n := 0; n < vScale(3000, 60000); n++ {
		s := ""
		for i := vRand(12); i >= 0; i-- {
			s += parts[vRand(len(parts))]
		}
		c := ctxs[vRand(len(ctxs))]
		vTry("string-width", fmt.Sprintf("%s: %q", c.name, s), len(s) > 3, func() string {
			g := grapheme.StringFromString(s)
			want := 0
			for i := 0; i < g.Len(); i++ {
				want += vWidth([]byte(g.Nth(i)), c.asian)
			}
			if w := StringWidth(g, c.mk()); w != want {
				return fmt.Sprintf("width %d, want %d", w, want)
			}
			return ""
		})
	}
	vTry("string-width-long", "70000 bytes", true, func() string {
		s := ""
		for i := 0; i < 12000; i++ {
			s += "世a"
		}
		if w := StringWidth(grapheme.StringFromString(s), nil); w != 36000 {
			return fmt.Sprint(w)
		}
		return ""
	})
	vTry("context-from-environment", "", false, func() string {
		if ContextFromEnvironment() == nil {
			return "nil"
		}
		return ""
	})
	vStat()
}
