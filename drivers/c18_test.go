package bidi

import (
	"fmt"
	"testing"
)

// vLevels describes for each byte of the text how it was resolved: the class of the run it is in, at every level of nesting,
// together with the direction of the embedding.
func vLevels(sc []scrap, emb Direction, path string, at map[charpos]string) {
	if len(sc) > 0 && isisolate(sc[0]) {
		emb = directionFromBidiClass(sc[0], emb)
	}
	for _, s := range sc {
		p := fmt.Sprintf("%s/%v:%d", path, emb, s.bidiclz)
		for b := s.l; b < s.r; b++ {
			at[b] = p
		}
		for _, c := range s.children {
			vLevels(c, emb, p, at)
		}
	}
}

func vBytes(rl *ResolvedLevels) map[charpos]string {
	at := make(map[charpos]string)
	vLevels(rl.scraps, rl.embedding, "", at)
	return at
}

// vPart: rl covers exactly the bytes from..to, resolved as in want, where byte b of the part is byte b+shift of the text
func vPart(rl *ResolvedLevels, from, to, shift charpos, want map[charpos]string) string {
	if from >= to {
		for _, s := range rl.scraps {
			if s.l < s.r {
				return fmt.Sprintf("run %v in a part without text", s)
			}
		}
		return ""
	}
	if len(rl.scraps) == 0 {
		return fmt.Sprintf("nothing left of %d-%d", from, to)
	}
	if m := vCheckRuns(rl.scraps, from, to); m != "" {
		return m
	}
	got := vBytes(rl)
	for b := from; b < to; b++ {
		if got[b] != want[b+shift] {
			return fmt.Sprintf("byte %d is resolved as %s, was %s", b+shift, got[b], want[b+shift])
		}
	}
	return ""
}

func TestVerifC18(t *testing.T) {
	check := func(text string, d Direction, cuts []charpos, shift bool) string {
		rl := vResolve(text, d)
		want := vBytes(rl)
		from, end, off := charpos(0), charpos(len(text)), charpos(0)
		rest := rl
		for _, at := range cuts { // positions within the whole text, ascending
			a, b := rest.Split(uint64(at-off), shift)
			if a.embedding != rl.embedding || b.embedding != rl.embedding {
				return "a part has another base direction"
			}
			if m := vPart(a, from-off, at-off, off, want); m != "" {
				return fmt.Sprintf("left of %d: %s", at, m)
			}
			if shift {
				off = at
			}
			from = at
			if m := vPart(b, from-off, end-off, off, want); m != "" {
				return fmt.Sprintf("from %d on: %s", at, m)
			}
			rest = b
		}
		return ""
	}
	for n := 1; n <= vScale(14, 24); n++ {
		for k := 0; k < vScale(250, 1500); k++ {
			text := vText(n, k%3 > 0)
			if vRand(6) == 0 {
				text = "\u2067" + text + "\u2069"
			}
			d := Direction(vRand(2))
			var cuts []charpos
			for at := vRand(len(text) + 1); len(cuts) < 1+k%4; at += vRand(len(text) + 1 - at) {
				cuts = append(cuts, charpos(at))
			}
			shift := vRand(2) == 0
			vTry("split", fmt.Sprintf("%+q %v %v %v", text, d, cuts, shift), len(cuts) > 1, func() string {
				return vGuard(func() string { return check(text, d, cuts, shift) })
			})
		}
	}
	// the part to the left can be split, too, and any order of splits yields the same
	for k := 0; k < vScale(2500, 20000); k++ {
		text := vText(2+vRand(14), true)
		d := Direction(vRand(2))
		x, y := charpos(vRand(len(text)+1)), charpos(vRand(len(text)+1))
		if x > y {
			x, y = y, x
		}
		vTry("left", fmt.Sprintf("%+q %v %d %d", text, d, x, y), x > 0 && y > x, func() string {
			return vGuard(func() string {
				rl := vResolve(text, d)
				want := vBytes(rl)
				a, c := rl.Split(uint64(y), false)
				a, b := a.Split(uint64(x), false)
				for i, p := range []struct {
					rl   *ResolvedLevels
					l, r charpos
				}{{a, 0, x}, {b, x, y}, {c, y, charpos(len(text))}} {
					if m := vPart(p.rl, p.l, p.r, 0, want); m != "" {
						return fmt.Sprintf("part %d: %s", i, m)
					}
				}
				return ""
			})
		})
	}
	// positions outside of the text
	for k := 0; k < 300; k++ {
		text := vText(2+vRand(8), true)
		d := Direction(vRand(2))
		vTry("outside", fmt.Sprintf("%+q %v", text, d), true, func() string {
			return vGuard(func() string {
				n := charpos(len(text))
				rl := vResolve(text, d)
				want := vBytes(rl)
				a, b := rl.Split(uint64(n)+uint64(vRand(5)), false)
				if m := vPart(a, 0, n, 0, want) + vPart(b, n, n, 0, want); m != "" {
					return "after the end: " + m
				}
				x := charpos(1 + vRand(len(text)-1))
				_, b = a.Split(uint64(x), false)
				p, q := b.Split(uint64(vRand(int(x))), false)
				if m := vPart(p, x, x, 0, want) + vPart(q, x, n, 0, want); m != "" {
					return "before the start: " + m
				}
				return ""
			})
		})
	}
	vStat()
}
