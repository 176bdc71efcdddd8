package bidi

import (
	"fmt"
	"strings"
	"testing"

	"golang.org/x/text/unicode/bidi"
)

// The rules of UAX#9 as far as they look at runs of the same isolating run sequence: left hand side, pass and the classes
// of the runs that replace it (vE: the embedding direction; vCtx: W7, EN after the strong type L).
const (
	vE   = bidi.Class(500)
	vCtx = bidi.Class(501)
)

type vRow struct {
	lhs, rhs []bidi.Class
	pass     int
}

func vTable() []vRow {
	const L, R, EN, ES, ET, AN, CS = bidi.L, bidi.R, bidi.EN, bidi.ES, bidi.ET, bidi.AN, bidi.CS
	type cl = []bidi.Class
	return []vRow{
		{cl{EN, ES, EN}, cl{EN}, 1}, {cl{EN, CS, EN}, cl{EN}, 1}, {cl{AN, CS, AN}, cl{AN}, 1}, // W4
		{cl{ET, EN}, cl{EN}, 1}, {cl{EN, ET}, cl{EN}, 1}, // W5
		{cl{ET}, cl{cNI}, 1}, {cl{ES}, cl{cNI}, 1}, {cl{CS}, cl{cNI}, 1}, {cl{cNI, cNI}, cl{cNI}, 1}, // W6
		{cl{EN}, cl{vCtx}, 1}, // W7
		{cl{L, cNI, L}, cl{L}, 2}, {cl{R, cNI, R}, cl{R}, 2}, {cl{R, cNI, AN}, cl{R, AN}, 2}, {cl{R, cNI, EN}, cl{R, EN}, 2}, // N1
		{cl{AN, cNI, R}, cl{AN, R}, 2}, {cl{EN, cNI, R}, cl{EN, R}, 2},
		{cl{AN, cNI, AN}, cl{AN, R, AN}, 2}, {cl{AN, cNI, EN}, cl{AN, R, EN}, 2},
		{cl{EN, cNI, AN}, cl{EN, R, AN}, 2}, {cl{EN, cNI, EN}, cl{EN, R, EN}, 2},
		{cl{cNI}, cl{vE}, 2}, // N2
		{cl{L, L}, cl{L}, 2}, {cl{R, R}, cl{R}, 2},
	}
}

func vFind(seq []bidi.Class, long bool) *vRow {
	t := vTable()
	for i := range t {
		n := len(t[i].lhs)
		if n > len(seq) || (n > 1) != long {
			continue
		}
		same := true
		for k, c := range t[i].lhs {
			same = same && seq[k] == c
		}
		if same {
			return &t[i]
		}
	}
	return nil
}

// vRuns: adjoining runs of given classes; every second one has an isolate inside
func vRuns(seq []bidi.Class, emb, strong bidi.Class) []scrap {
	var out []scrap
	pos := charpos(3)
	for i, c := range seq {
		s := scrap{l: pos, r: pos + charpos(2+i), bidiclz: c}
		s.context.embeddingDir = emb
		s.context.strong = strong
		if i%2 == 1 || vRand(3) == 0 {
			s.children = [][]scrap{{{l: pos, r: pos + 1, bidiclz: bidi.LRI}, {l: pos + 1, r: s.r, bidiclz: bidi.PDI}}}
		}
		pos = s.r
		out = append(out, s)
	}
	return out
}

// vCheckRuns: runs adjoin each other from l to r, and so do the runs of the isolates within them
func vCheckRuns(sc []scrap, l, r charpos) string {
	pos := l
	for _, s := range sc {
		if s.l != pos || s.r < s.l {
			return fmt.Sprintf("run %v does not start at %d", s, pos)
		}
		pos = s.r
		p := s.l
		for _, c := range s.children {
			if len(c) == 0 {
				return fmt.Sprintf("empty isolate in %v", s)
			}
			if c[0].l < p || c[len(c)-1].r > s.r {
				return fmt.Sprintf("isolate %v sticks out of %v", c, s)
			}
			if m := vCheckRuns(c, c[0].l, c[len(c)-1].r); m != "" {
				return "isolate: " + m
			}
			p = c[len(c)-1].r
		}
	}
	if pos != r {
		return fmt.Sprintf("runs end at %d of %d", pos, r)
	}
	return ""
}

func vChildren(sc []scrap) string {
	var b strings.Builder
	for _, s := range sc {
		for _, c := range s.children {
			fmt.Fprintf(&b, "%d-%d ", c[0].l, c[len(c)-1].r)
		}
	}
	return b.String()
}

func vApply(r *bidiRule, row *vRow, seq []bidi.Class, emb, strong bidi.Class) string {
	if r.lhsLen != len(row.lhs) || r.pass != row.pass {
		return fmt.Sprintf("rule %s matches %d runs in pass %d, want %d in pass %d", r.name, r.lhsLen, r.pass, len(row.lhs), row.pass)
	}
	in := vRuns(seq, emb, strong)
	n := len(row.lhs)
	want := vChildren(in[:n])
	rest := fmt.Sprint(in[n:])
	l, to := in[0].l, in[n-1].r
	out, jmp, _ := r.action(in)
	if jmp < -2 || jmp > len(out) {
		return fmt.Sprintf("rule %s jumps by %d", r.name, jmp)
	}
	if m := vCheckRuns(out, l, to); m != "" {
		return "rule " + r.name + ": " + m
	}
	if got := vChildren(out); got != want {
		return fmt.Sprintf("rule %s: isolates inside are %s, were %s", r.name, got, want)
	}
	if r.lhsLen == len(out) || len(out) == 1 {
		if fmt.Sprint(in[n:]) != rest {
			return "rule " + r.name + " touches the runs after its match"
		}
	}
	if len(out) != len(row.rhs) {
		return fmt.Sprintf("rule %s gives %d runs, want %d", r.name, len(out), len(row.rhs))
	}
	for i, c := range row.rhs {
		if c == vE {
			c = emb
		}
		if c == vCtx {
			s := strong
			if s == cNI {
				s = emb
			}
			c = bidi.EN
			if s == bidi.L {
				c = bidi.L
			}
		}
		if out[i].bidiclz != c || out[i].context.embeddingDir != emb {
			return fmt.Sprintf("rule %s: run %d has class %d, want %d", r.name, i, out[i].bidiclz, c)
		}
	}
	return ""
}

func TestVerifC16(t *testing.T) {
	p, err := newParser(newScanner(strings.NewReader(""), nil))
	if err != nil {
		t.Fatal(err)
	}
	check := func(seq []bidi.Class, emb, strong bidi.Class) string {
		in := vRuns(seq, emb, strong)
		long, short := p.matchRulesLHS(in, 0)
		for _, c := range []struct {
			r    *bidiRule
			long bool
		}{{long, true}, {short, false}} {
			row := vFind(seq, c.long)
			if (row != nil) != (c.r != nil) {
				return fmt.Sprintf("classes %v: rule %v, table %v", seq, c.r, row)
			}
			if row == nil {
				continue
			}
			if m := vApply(c.r, row, seq, emb, strong); m != "" {
				return fmt.Sprintf("classes %v: %s", seq, m)
			}
		}
		return ""
	}
	vTry("rules", "all sequences of up to three classes", true, func() string {
		strongs := []bidi.Class{bidi.L, bidi.R, bidi.AL, cNI}
		for a := bidi.Class(0); a < cMAX; a++ {
			for _, s := range strongs {
				for e := bidi.L; e <= bidi.R; e++ {
					if m := check([]bidi.Class{a}, e, s); m != "" {
						return m
					}
				}
			}
			for b := bidi.Class(0); b < cMAX; b++ {
				if m := check([]bidi.Class{a, b}, bidi.Class(vRand(2)), strongs[vRand(4)]); m != "" {
					return m
				}
				for c := bidi.Class(0); c < cMAX; c++ {
					if m := check([]bidi.Class{a, b, c}, bidi.Class(vRand(2)), strongs[vRand(4)]); m != "" {
						return m
					}
					if m := check([]bidi.Class{a, b, c, bidi.Class(vRand(int(cMAX)))}, bidi.Class(vRand(2)), strongs[vRand(4)]); m != "" {
						return m
					}
				}
			}
		}
		return ""
	})
	whole := func(s string, d Direction, markup OutOfLineBidiMarkup) string {
		return vGuard(func() string {
			rl := ResolveParagraph(strings.NewReader(s), markup, DefaultDirection(d))
			return vCheckRuns(rl.scraps, 0, charpos(len(s)))
		})
	}
	// short texts exhaustively over one character per class
	alpha := []string{"a", "א", "ا", "1", "١", " ", "-", ",", "$", "(", ")", "\u0300", "\u2066", "\u2067", "\u2069"}
	for n := 0; n <= vScale(3, 4); n++ {
		idx := make([]int, n)
		for {
			var b strings.Builder
			for _, i := range idx {
				b.WriteString(alpha[i])
			}
			s := b.String()
			for d := LeftToRight; d <= RightToLeft; d++ {
				vTry("text", fmt.Sprintf("%+q direction %d", s, d), n > 1, func() string { return whole(s, d, nil) })
			}
			k := n - 1
			for ; k >= 0; k-- {
				if idx[k]++; idx[k] < len(alpha) {
					break
				}
				idx[k] = 0
			}
			if k < 0 {
				break
			}
		}
	}
	for i := 0; i < vScale(6000, 60000); i++ {
		s := vText(1+vRand(30), true)
		if vRand(4) == 0 { // unbalanced isolates
			for k := 1 + vRand(3); k > 0; k-- {
				s += []string{"\u2066", "\u2067", "\u2069"}[vRand(3)] + vText(vRand(6), false)
			}
		}
		d := Direction(vRand(2))
		vTry("text", fmt.Sprintf("%+q direction %d", s, d), true, func() string { return whole(s, d, nil) })
	}
	// isolates by out-of-line markup at character boundaries
	for i := 0; i < vScale(1500, 15000); i++ {
		s := vText(1+vRand(20), false)
		marks := map[uint64]int{}
		depth := 0
		for p := range s {
			switch k := vRand(10); {
			case k == 0 && depth < 3:
				marks[uint64(p)] = []int{MarkupLRI, MarkupRLI}[vRand(2)]
				depth++
			case k == 1 && depth > 0:
				marks[uint64(p)] = MarkupPDI
				depth--
			}
		}
		d := Direction(vRand(2))
		vTry("markup", fmt.Sprintf("%+q %v direction %d", s, marks, d), true, func() string {
			return whole(s, d, func(pos uint64) int { return marks[pos] })
		})
	}
	vStat()
}
