package bidi

import (
	"fmt"
	"sort"
	"testing"
)

type vSegm struct{ l, r charpos }

// vCovered: the segments cover each byte from l to r exactly once
func vCovered(runs []Run, l, r charpos) string {
	var all []vSegm
	for i, u := range runs {
		n := int64(0)
		for _, s := range u.scraps {
			if s.r > s.l {
				all = append(all, vSegm{s.l, s.r})
			}
			n += int64(s.r - s.l)
			if d := directionFromBidiClass(s, u.Dir); d != u.Dir {
				return fmt.Sprintf("run %d of direction %v has text %v", i, u.Dir, s)
			}
		}
		if n != u.Length {
			return fmt.Sprintf("run %d has length %d, text of %d bytes", i, u.Length, n)
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i].l < all[j].l })
	p := l
	for _, a := range all {
		if a.l != p {
			return fmt.Sprintf("text at %d: next segment is %d-%d", p, a.l, a.r)
		}
		p = a.r
	}
	if p != r {
		return fmt.Sprintf("text from %d to %d is missing", p, r)
	}
	return ""
}

// vVisual is the order of the runs sc of the paragraph according to L2, as indices: maximal stretches not of direction emb
// are reversed.
func vVisual(sc []scrap, emb Direction) []int {
	var out []int
	opp := func(s scrap) bool {
		switch directionOf := s.bidiclz; {
		case directionOf == 2 || directionOf == 5: // numbers are above the level of any text around
			return true
		case directionOf == 0:
			return emb == RightToLeft
		case directionOf == 1:
			return emb == LeftToRight
		}
		return false
	}
	for i := 0; i < len(sc); {
		j := i
		for j < len(sc) && opp(sc[j]) {
			j++
		}
		for k := j - 1; k >= i; k-- {
			out = append(out, k)
		}
		if j == i {
			out = append(out, i)
			j++
		}
		i = j
	}
	return out
}

// vOrder: the segments of the runs, mapped to the paragraph's runs they are in, come in the order of vVisual, and the
// segments of a paragraph's run which are not in an isolate cover the run from its start to its end
func vOrder(runs []Run, sc []scrap, emb Direction) string {
	var want, got []int
	for _, k := range vVisual(sc, emb) {
		if sc[k].r > sc[k].l {
			want = append(want, k)
		}
	}
	for _, u := range runs {
		for _, s := range u.scraps {
			if s.l == s.r {
				continue
			}
			for pos := s.l; pos < s.r; {
				k := 0
				for k < len(sc) && !(sc[k].l <= pos && pos < sc[k].r) {
					k++
				}
				if k == len(sc) {
					return fmt.Sprintf("segment %v is not part of the paragraph", s)
				}
				if len(got) == 0 || got[len(got)-1] != k {
					got = append(got, k)
				}
				pos = sc[k].r
			}
		}
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return fmt.Sprintf("runs appear in order %v, want %v", got, want)
	}
	return ""
}

// vReordered: the ordering of rl, which covers the text from..to, is one and leaves rl alone
func vReordered(rl *ResolvedLevels, from, to charpos) string {
	before := fmt.Sprintf("%+v", rl.scraps)
	o := rl.Reorder()
	first := fmt.Sprintf("%+v", o.Runs)
	if m := vCovered(o.Runs, from, to); m != "" {
		return m
	}
	if got := fmt.Sprintf("%+v", rl.scraps); got != before {
		return "reordering changes the resolved levels"
	}
	if m := vOrder(o.Runs, rl.scraps, rl.embedding); m != "" {
		return m
	}
	if got := fmt.Sprintf("%+v", rl.Reorder().Runs); got != first {
		return "reordering a second time yields another order"
	}
	if got := fmt.Sprintf("%+v", o.Runs); got != first {
		return "reordering a second time changes the first ordering"
	}
	return ""
}

func TestVerifC19(t *testing.T) {
	for n := 1; n <= vScale(16, 30); n++ {
		for k := 0; k < vScale(250, 1500); k++ {
			text := vText(n, k%3 > 0)
			if vRand(12) == 0 {
				text += "\u2068" + vText(3, false) + "\u2069" + vText(2, false)
			}
			d := Direction(vRand(2))
			vTry("reorder", fmt.Sprintf("%+q %v", text, d), n > 2, func() string {
				return vGuard(func() string { return vReordered(vResolve(text, d), 0, charpos(len(text))) })
			})
			at := vRand(len(text) + 1)
			shift := k%2 == 0
			vTry("line", fmt.Sprintf("%+q %v split %d %v", text, d, at, shift), at > 0 && at < len(text), func() string {
				return vGuard(func() string {
					a, b := vResolve(text, d).Split(uint64(at), shift)
					l, r := charpos(at), charpos(len(text))
					if shift {
						l, r = 0, r-l
					}
					if m := vReordered(a, 0, charpos(at)); m != "" {
						return "first line: " + m
					}
					if m := vReordered(b, l, r); m != "" {
						return "second line: " + m
					}
					return ""
				})
			})
		}
	}
	// levels made up directly: all sequences of up to 6 runs of text and numbers
	classes := []scrap{{bidiclz: 0}, {bidiclz: 1}, {bidiclz: 2}, {bidiclz: 5}}
	for n := 1; n <= vScale(6, 8); n++ {
		total := 1
		for i := 0; i < n; i++ {
			total *= len(classes)
		}
		for x := 0; x < total; x++ {
			for d := LeftToRight; d <= RightToLeft; d++ {
				rl := &ResolvedLevels{embedding: d}
				y := x
				for i := 0; i < n; i++ {
					s := classes[y%len(classes)]
					y /= len(classes)
					s.l, s.r = charpos(3*i), charpos(3*i+3)
					rl.scraps = append(rl.scraps, s)
				}
				vTry("classes", fmt.Sprintf("%d %d %v", n, x, d), n > 1, func() string {
					return vGuard(func() string { return vReordered(rl, 0, charpos(3*n)) })
				})
			}
		}
	}
	// reversal of a part
	for n := 0; n < 9; n++ {
		for i := 0; i <= n; i++ {
			for j := 0; j <= n+2; j++ {
				vTry("reverse", fmt.Sprint(n, i, j), j > i+1, func() string {
					return vGuard(func() string {
						sc := make([]scrap, n)
						for k := range sc {
							sc[k].l = charpos(k)
						}
						reverse(sc, i, j)
						lo, hi := i, j
						if lo > hi {
							lo, hi = hi, lo
						}
						if hi > n {
							hi = n
						}
						for k := range sc {
							w := charpos(k)
							if lo <= k && k < hi {
								w = charpos(lo + hi - 1 - k)
							}
							if sc[k].l != w {
								return fmt.Sprintf("position %d holds %d, want %d", k, sc[k].l, w)
							}
						}
						return ""
					})
				})
			}
		}
	}
	vStat()
}
