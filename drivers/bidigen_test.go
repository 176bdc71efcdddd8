package bidi

import (
	"fmt"
	"strings"
)

// Paragraphs over characters of every bidi class the package handles, brackets and (balanced or not) isolates.
var vAlpha = []string{"a", "b", "א", "ב", "ا", "ب", "1", "2", "١", "٢", " ", " ", "!", "-", "+", ",", ".", "$", "%", "(", ")", "[", "]", "{", "}",
	"〈", "〉", "〈", "〉", "\u0300", "\u0301", "\t"}

func vText(n int, isolates bool) string {
	var b strings.Builder
	depth := 0
	for i := 0; i < n; i++ {
		if isolates && vRand(7) == 0 {
			switch {
			case vRand(2) == 0 && depth > 0:
				b.WriteString("\u2069")
				depth--
			case depth < 4:
				b.WriteString([]string{"\u2066", "\u2067"}[vRand(2)])
				depth++
			}
			continue
		}
		b.WriteString(vAlpha[vRand(len(vAlpha))])
	}
	if vRand(8) > 0 { // mostly balanced
		for ; depth > 0; depth-- {
			b.WriteString("\u2069")
		}
	}
	return b.String()
}

func vResolve(s string, d Direction) *ResolvedLevels {
	return ResolveParagraph(strings.NewReader(s), nil, DefaultDirection(d))
}

// vGuard turns a panic into a message.
func vGuard(f func() string) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic: %v", r)
		}
	}()
	return f()
}
