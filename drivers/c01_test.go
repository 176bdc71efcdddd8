package segment

import (
	"strings"
	"testing"
)

func TestVerifC01(t *testing.T) {
	vSegDriver(t, "lossless", func(i int) (vSegCase, bool) {
		n := vRand(12)
		if i%20 == 0 {
			n = vRand(400)
		}
		c := vSegCase{text: vText(n), fail: -1, slice: vRand(3) == 0, bounds: vUnbounded, brk: [2]bool{vRand(2) == 0, vRand(2) == 0}}
		if i%5 == 0 && !c.slice { // a buffer of the client's: segments up to its maximum
			c.startBf = 1 + vRand(n+4)
			c.maxSeg = n + 1 + vRand(10)
		}
		return c, vRand(4) == 0
	}, vScale(6000, 80000))
	// segments around the size of the output buffer and up to the maximum length
	for _, n := range []int{4095, 4096, 4097, 8193, 30000} {
		for _, slice := range []bool{false, true} {
			c := vSegCase{text: strings.Repeat("x", n) + "\n" + strings.Repeat("y", n), fail: -1, slice: slice, bounds: vUnbounded}
			vTry("long-segment", n, true, func() string {
				b := &vEdge{}
				seg := NewSegmenter(b)
				if slice {
					seg.InitFromSlice([]rune(c.text))
				} else {
					seg.Init(strings.NewReader(c.text))
				}
				got := ""
				for seg.Next() {
					got += seg.Text()
				}
				if seg.Err() != nil || got != c.text {
					return "long segments are not delivered: " + vClip(got)
				}
				return ""
			})
		}
	}
	vStat()
}

// vEdge breaks around line feeds
type vEdge struct {
	prev rune
	p    []int
}

func (b *vEdge) CodePointClassFor(r rune) int { return 0 }
func (b *vEdge) StartRulesFor(r rune, c int)  {}
func (b *vEdge) ProceedWithRune(r rune, c int) {
	b.p = nil
	if r == '\n' || b.prev == '\n' {
		b.p = []int{0, -5}
	}
	b.prev = r
}
func (b *vEdge) LongestActiveMatch() int { return 1 }
func (b *vEdge) Penalties() []int        { return b.p }
