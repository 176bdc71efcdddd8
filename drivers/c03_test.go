package segment

import (
	"strings"
	"testing"
)

func TestVerifC03(t *testing.T) {
	vSegDriver(t, "protocol", func(i int) (vSegCase, bool) {
		n := vRand(14)
		c := vSegCase{text: vText(n), fail: -1, slice: vRand(3) == 0, bounds: vUnbounded, brk: [2]bool{vRand(2) == 0, vRand(2) == 0}}
		switch i % 4 {
		case 0:
			c.fail = vRand(n + 2)
			c.slice = false
		case 1:
			c.maxSeg = 1 + vRand(6)
			c.startBf = 1 + vRand(4)
		case 2:
			c.bounds = vMixed(n)
			if vRand(2) == 0 {
				c.fail = vRand(n + 2)
				c.slice = false
			}
		}
		return c, vRand(4) == 0
	}, vScale(8000, 100000))
	vTry("not-initialised", "Next before Init", true, func() string {
		for i := 0; i < 4; i++ {
			seg := NewSegmenter()
			var ok bool
			if i%2 == 0 {
				ok = seg.Next()
			} else {
				ok = seg.BoundedNext(i)
			}
			if ok || seg.Err() != ErrNotInitialized {
				return "no error without Init"
			}
			seg.Next()
			if seg.Err() != ErrNotInitialized {
				return "error is lost"
			}
			seg.Init(strings.NewReader("ab"))
			if seg.Err() != nil || !seg.Next() || seg.Text() != "ab" || seg.Next() || seg.Err() != nil {
				return "error survives Init"
			}
		}
		return ""
	})
	vTry("nil-reader", "Init(nil), InitFromSlice(nil)", true, func() string {
		seg := NewSegmenter()
		seg.Init(nil)
		if seg.Next() || seg.Err() != nil {
			return "Init(nil): not an empty text"
		}
		seg.InitFromSlice(nil)
		if seg.Next() || seg.Err() != nil {
			return "InitFromSlice(nil): not an empty text"
		}
		return ""
	})
	vTry("too-long", "segment longer than the maximum", true, func() string {
		for _, n := range []int{MaxSegmentSize - 1, MaxSegmentSize, MaxSegmentSize + 1, MaxSegmentSize + 5000, 3 * MaxSegmentSize} {
			seg := NewSegmenter()
			seg.Init(strings.NewReader("ab " + strings.Repeat("x", n) + " rest"))
			got := ""
			for seg.Next() {
				got += seg.Text()
			}
			if n <= MaxSegmentSize {
				if seg.Err() != nil || len(got) != n+8 {
					return "a segment of maximum length is not delivered"
				}
				continue
			}
			if seg.Err() != ErrTooLong || got != "ab " {
				return "overlong segment is not reported"
			}
			for i := 0; i < 3; i++ {
				if seg.Next() || seg.Err() != ErrTooLong || len(seg.Runes()) != 0 {
					return "segmenter goes on after the too-long error"
				}
			}
			seg.Init(strings.NewReader("ab"))
			if seg.Err() != nil || !seg.Next() || seg.Text() != "ab" || seg.Next() || seg.Err() != nil {
				return "too-long error survives Init"
			}
		}
		return ""
	})
	vTry("in-use", "Buffer and RuneBuffer while in use", true, func() string {
		refused := func(f func()) (r bool) {
			defer func() { r = recover() != nil }()
			f()
			return
		}
		seg := NewSegmenter()
		for i := 0; i < 3; i++ {
			seg.Init(strings.NewReader("ab cd ef"))
			if refused(func() { seg.Buffer(make([]byte, 10), 10) }) || refused(func() { seg.RuneBuffer(make([]rune, 10), 10) }) {
				return "configuration refused before use"
			}
			for k := 0; k <= 2*i; k++ {
				seg.Next()
				if !refused(func() { seg.Buffer(make([]byte, 10), 10) }) || !refused(func() { seg.RuneBuffer(make([]rune, 10), 10) }) {
					return "configuration accepted in use"
				}
			}
		}
		return ""
	})
	vStat()
}
