package bidi

import (
	"fmt"
	"testing"
)

type vSeg struct {
	d    Direction
	l, r uint64
}

// vWalkSegs drains an iterator.
func vWalkSegs(it *SegmentIterator, max int) ([]vSeg, string) {
	var out []vSeg
	if d, l, r := it.Segment(); l != 0 || r != 0 || d != it.Dir {
		return nil, fmt.Sprintf("segment before the first Next is %v %d %d", d, l, r)
	}
	for it.Next() {
		if len(out) > max {
			return nil, "the iterator does not end"
		}
		d, l, r := it.Segment()
		out = append(out, vSeg{d, l, r})
		if it.EOF() != (len(out) == max) {
			return nil, fmt.Sprintf("EOF is %v after %d of %d segments", it.EOF(), len(out), max)
		}
	}
	for k := 0; k < 3; k++ {
		if it.Next() {
			return nil, "Next succeeds after the end"
		}
	}
	return out, ""
}

func vCheckRun(r *Run) string {
	want := make([]vSeg, len(r.scraps))
	for i, s := range r.scraps {
		want[i] = vSeg{r.Dir, uint64(s.l), uint64(s.r)}
	}
	for round := 0; round < 5; round++ {
		rev := round == 1 || round == 2 || round == 4
		got, msg := vWalkSegs(r.SegmentIterator(rev), len(want))
		if msg != "" {
			return fmt.Sprintf("iterator %d (reverse %v): %s", round, rev, msg)
		}
		if len(got) != len(want) {
			return fmt.Sprintf("iterator %d (reverse %v) visits %d of %d segments", round, rev, len(got), len(want))
		}
		for i := range got {
			w := want[i]
			if rev {
				w = want[len(want)-1-i]
			}
			if got[i] != w {
				return fmt.Sprintf("iterator %d (reverse %v): segment %d is %v, want %v", round, rev, i, got[i], w)
			}
		}
	}
	if r.IsOpposite(r.Dir) || !r.IsOpposite(1-r.Dir) {
		return "IsOpposite"
	}
	return ""
}

func TestVerifC20(t *testing.T) {
	for n := 0; n <= vScale(12, 40); n++ {
		for k := 0; k < vScale(6, 40); k++ {
			r := Run{Dir: Direction(k % 2)}
			pos, unit := charpos(0), charpos([]int{1, 1, 40000, 1 << 22}[vRand(4)])
			for i := 0; i < n; i++ {
				s := scrap{l: pos + charpos(vRand(9)), bidiclz: 0}
				s.r = s.l + 1 + unit*charpos(vRand(9))
				r.scraps = append(r.scraps, s)
				r.Length += int64(s.len())
				pos = unit * charpos(vRand(100))
			}
			vTry("run", fmt.Sprint(r), n > 1, func() string { return vGuard(func() string { return vCheckRun(&r) }) })
		}
	}
	for k := 0; k < vScale(1500, 30000); k++ {
		s := vText(1+vRand(30), true)
		d := Direction(vRand(2))
		vTry("paragraph", fmt.Sprintf("%+q dir %v", s, d), true, func() string {
			return vGuard(func() string {
				for i, r := range vResolve(s, d).Reorder().Runs {
					if m := vCheckRun(&r); m != "" {
						return fmt.Sprintf("run %d: %s", i, m)
					}
				}
				return ""
			})
		})
	}
	vStat()
}
