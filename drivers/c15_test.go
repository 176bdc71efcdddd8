package bidi

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"golang.org/x/text/unicode/bidi"
)

// The Unicode bracket list (BidiBrackets.txt): opening to closing.
func vBrackets() map[rune]rune {
	m := map[rune]rune{'(': ')', '[': ']', '{': '}', 0x298d: 0x2990, 0x298f: 0x298e, 0xff3b: 0xff3d, 0xff5b: 0xff5d}
	for _, o := range []rune{0x0f3a, 0x0f3c, 0x169b, 0x2045, 0x207d, 0x208d, 0x2308, 0x230a, 0x2329, 0x27c5, 0x298b, 0x29d8, 0x29da, 0x29fc,
		0x2e22, 0x2e24, 0x2e26, 0x2e28, 0x3008, 0x300a, 0x300c, 0x300e, 0x3010, 0x3014, 0x3016, 0x3018, 0x301a, 0xfe59, 0xfe5b, 0xfe5d, 0xff08, 0xff5f, 0xff62} {
		m[o] = o + 1
	}
	for o := rune(0x2768); o <= 0x2774; o += 2 {
		m[o] = o + 1
	}
	for o := rune(0x27e6); o <= 0x27ee; o += 2 {
		m[o] = o + 1
	}
	for o := rune(0x2983); o <= 0x2989; o += 2 {
		m[o] = o + 1
	}
	for o := rune(0x2991); o <= 0x2997; o += 2 {
		m[o] = o + 1
	}
	return m
}

func vCanon(r rune) rune {
	switch r {
	case 0x2329:
		return 0x3008
	case 0x232a:
		return 0x3009
	}
	return r
}

type vPair struct{ o, c charpos }

// vBD16 is definition BD16 of UAX#9, per isolating run sequence (the text's isolates are balanced).
func vBD16(text string, open map[rune]rune) []vPair {
	type el struct {
		c   rune
		pos charpos
	}
	closing := map[rune]bool{}
	for _, c := range open {
		closing[c] = true
	}
	stacks := [][]el{nil}
	var out []vPair
	for i, r := range text {
		top := len(stacks) - 1
		switch {
		case r >= 0x2066 && r <= 0x2068:
			stacks = append(stacks, nil)
		case r == 0x2069:
			if top > 0 {
				stacks = stacks[:top]
			}
		case open[r] != 0:
			stacks[top] = append(stacks[top], el{open[r], charpos(i)})
		case closing[r]:
			st := stacks[top]
			for k := len(st) - 1; k >= 0; k-- {
				if vCanon(st[k].c) == vCanon(r) {
					out = append(out, vPair{st[k].pos, charpos(i)})
					stacks[top] = st[:k]
					break
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].o < out[j].o })
	return out
}

// vScanPairs lets the scanner read the text and collects the pairs all of its handlers found.
func vScanPairs(text string, m OutOfLineBidiMarkup) []vPair {
	sc := newScanner(strings.NewReader(text), m)
	pipe := make(chan scrap, 3*len(text)+8)
	sc.Scan(pipe)
	var out []vPair
	for s := range pipe {
		if s.bidiclz != cBRACKO && s.bidiclz != cBRACKC {
			continue
		}
		if p, ok := sc.findBD16ForPos(s.l).FindBracketPairing(s); ok {
			if s.bidiclz == cBRACKO && p.opening.l == s.l {
				out = append(out, vPair{p.opening.l, p.closing.l})
			} else if p.closing.l != s.l {
				out = append(out, vPair{s.l, s.l})
			}
		}
	}
	n := 0
	for _, h := range sc.IRS {
		n += len(h.pairings)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].o < out[j].o })
	if n != len(out) {
		return append(out, vPair{charpos(n), 0})
	}
	return out
}

// vHandlerPairs feeds a handler with brackets one by one, as the scanner does.
func vHandlerPairs(text string, open map[rune]rune) ([]vPair, string) {
	h := makeBracketPairHandler(0, nil)
	closing := map[rune]bool{}
	for _, c := range open {
		closing[c] = true
	}
	var brs []scrap
	for i, r := range text {
		s := scrap{l: charpos(i), r: charpos(i + len(string(r)))}
		if open[r] != 0 {
			s.bidiclz = cBRACKO
			if !h.pushOpening(r, s) {
				return nil, fmt.Sprintf("opening bracket %U not recognised", r)
			}
			brs = append(brs, s)
		} else if closing[r] {
			s.bidiclz = cBRACKC
			h.findPair(r, s)
			brs = append(brs, s)
		}
	}
	var out []vPair
	partner := map[charpos]charpos{}
	for _, s := range brs {
		p, ok := h.FindBracketPairing(s)
		if !ok {
			continue
		}
		if s.bidiclz == cBRACKO {
			if p.opening.l != s.l {
				return nil, "pair of another opening bracket returned"
			}
			out = append(out, vPair{s.l, p.closing.l})
			partner[p.closing.l] = s.l
		} else if o, ok := partner[s.l]; !ok || o != p.opening.l || p.closing.l != s.l {
			return nil, fmt.Sprintf("closing bracket at %d belongs to %d, but its opening one says %d", s.l, p.opening.l, o)
		}
	}
	if len(out) != len(h.pairings) {
		return nil, fmt.Sprintf("%d pairs in the list, %d are found", len(h.pairings), len(out))
	}
	return out, ""
}

// vMarkup turns the isolate characters of a text into out-of-line markup (of length 0), at most one per position.
func vMarkup(text string) (string, OutOfLineBidiMarkup) {
	at := map[uint64]int{}
	var b strings.Builder
	for _, r := range text {
		p := uint64(b.Len())
		switch r {
		case 0x2066, 0x2067, 0x2069:
			m := map[rune]int{0x2066: MarkupLRI, 0x2067: MarkupRLI, 0x2069: MarkupPDI}[r]
			if at[p] != 0 {
				b.WriteString("x")
				p++
			}
			at[p] = m
		default:
			b.WriteRune(r)
		}
	}
	b.WriteString("x")
	return b.String(), func(p uint64) int { return at[p] }
}

func vInline(text string, m OutOfLineBidiMarkup) (string, []int) {
	var b strings.Builder
	var pos []int
	for i, r := range text {
		if d := m(uint64(i)); d != 0 {
			b.WriteRune(map[int]rune{MarkupLRI: 0x2066, MarkupRLI: 0x2067, MarkupPDI: 0x2069}[d])
		}
		for len(pos) <= b.Len() {
			pos = append(pos, i)
		}
		b.WriteRune(r)
	}
	return b.String(), pos
}

func TestVerifC15(t *testing.T) {
	open := vBrackets()
	vTry("bracket list", "Unicode bracket list", true, func() string {
		got := map[rune]rune{}
		for _, p := range uax9BracketPairs {
			got[p.o] = p.c
		}
		if len(got) != len(open) || len(uax9BracketPairs) != len(open) {
			return fmt.Sprintf("%d pairs, want %d", len(uax9BracketPairs), len(open))
		}
		for o, c := range open {
			if got[o] != c {
				return fmt.Sprintf("partner of %U is %U, want %U", o, got[o], c)
			}
			po, _ := bidi.LookupRune(o)
			pc, _ := bidi.LookupRune(c)
			if !po.IsBracket() || !po.IsOpeningBracket() || !pc.IsBracket() || pc.IsOpeningBracket() {
				return fmt.Sprintf("%U %U are not brackets for x/text", o, c)
			}
		}
		return ""
	})
	check := func(key, s string) {
		vTry(key, fmt.Sprintf("%+q", s), len(s) > 3, func() string {
			return vGuard(func() string {
				want := vBD16(s, open)
				if !strings.ContainsAny(s, "\u2066\u2067\u2069") {
					got, msg := vHandlerPairs(s, open)
					if msg != "" {
						return msg
					}
					if fmt.Sprint(got) != fmt.Sprint(want) {
						return fmt.Sprintf("pairs %v, BD16 gives %v", got, want)
					}
				}
				if got := vScanPairs(s, nil); fmt.Sprint(got) != fmt.Sprint(want) {
					return fmt.Sprintf("the scanner finds pairs %v, BD16 gives %v", got, want)
				}
				if strings.ContainsAny(s, "\u2066\u2067\u2069") {
					text, m := vMarkup(s)
					inline, pos := vInline(text, m)
					var w []vPair
					for _, p := range vBD16(inline, open) {
						w = append(w, vPair{charpos(pos[p.o]), charpos(pos[p.c])})
					}
					if got := vScanPairs(text, m); fmt.Sprint(got) != fmt.Sprint(w) {
						return fmt.Sprintf("with out-of-line isolates in %+q the scanner finds pairs %v, BD16 gives %v", text, got, w)
					}
				}
				return ""
			})
		})
	}
	for o, c := range open { // every pair, and no pair with any other closing bracket but the canonical equivalent
		for _, d := range open {
			check("two brackets", "x"+string(o)+"y"+string(d)+"z")
		}
		check("one kind", string(o)+string(o)+string(c)+"a"+string(c)+string(c)+string(o))
	}
	var exh func(s string, n int)
	exh = func(s string, n int) {
		check("exhaustive", s)
		if n > 0 {
			for _, b := range "()[]〈〉" {
				exh(s+string(b), n-1)
			}
		}
	}
	exh("", vScale(4, 6))
	kinds := []rune{}
	for o := range open {
		kinds = append(kinds, o)
	}
	sort.Slice(kinds, func(i, j int) bool { return kinds[i] < kinds[j] })
	for k := 0; k < vScale(4000, 100000); k++ {
		n := 1 + vRand(40)
		depth := 0
		var b strings.Builder
		use := []rune{kinds[vRand(len(kinds))], kinds[vRand(len(kinds))], 0x3008, 0x2329}
		iso := vRand(3) == 0
		level := 0
		for i := 0; i < n; i++ {
			o := use[vRand(len(use))]
			switch vRand(6) {
			case 0, 1:
				if depth < BD16MaxNesting {
					b.WriteRune(o)
					depth++
				}
			case 2, 3:
				b.WriteRune(open[o])
			case 4:
				b.WriteString([]string{"a", "א", " ", "1"}[vRand(4)])
			case 5:
				if iso && level < 4 && vRand(2) == 0 {
					b.WriteString("\u2067")
					level++
				} else if level > 0 {
					b.WriteString("\u2069")
					level--
				}
			}
		}
		for ; level > 0; level-- {
			b.WriteString("\u2069")
		}
		check("random", b.String())
	}
	for _, d := range []int{1, 2, 62, 63} { // up to the nesting limit
		check("deep", strings.Repeat("(", d)+strings.Repeat(")", d+2))
		check("deep", strings.Repeat("[", d)+"]"+strings.Repeat(")", 3)+strings.Repeat("]", d))
	}
	vStat()
}
