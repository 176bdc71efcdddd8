package segment

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/npillmayer/uax"
)

// Shared by C01..C04: random breakers, texts, readers and call sequences, and a judge that
// only knows the text, the calls of the breakers and what the segmenter delivered.

const vInf = uax.InfinitePenalty

// vBreaker reports random penalties and match lengths and keeps the account of what it reported.
type vBreaker struct {
	lamMax int
	style  int
	n      int // runes seen
	lam    int
	pens   []int
	sum    map[int]int // text position -> accumulated penalty
	buf    []int
}

func (b *vBreaker) CodePointClassFor(r rune) int { return int(r % 7) }
func (b *vBreaker) StartRulesFor(r rune, c int)  {}
func (b *vBreaker) ProceedWithRune(r rune, c int) {
	b.n++
	b.lam = vRand(b.lamMax + 1)
	b.pens = b.buf[:0]
	k := 0
	switch b.style {
	case 0:
		k = vRand(4)
	case 1:
		if vRand(4) == 0 {
			k = 1 + vRand(3)
		}
	case 2:
		k = vRand(b.n + 3)
	case 3:
		k = b.lam + 2
	}
	for i := 0; i < k; i++ {
		p := 0
		switch vRand(9) {
		case 0:
			p = vInf
		case 1:
			p = -vInf
		case 2:
			p = vInf + vRand(3) - 1
		case 3:
			p = vRand(200) - 100
		case 4:
			p = -2 * vInf
		case 5:
			p = vRand(3) - 1
		}
		if b.style == 4 {
			p = 0
		}
		b.pens = append(b.pens, p)
		b.sum[b.n-1-i] += p
	}
	b.buf = b.pens[:0]
}
func (b *vBreaker) LongestActiveMatch() int { return b.lam }
func (b *vBreaker) Penalties() []int        { return b.pens }

type vErrReader struct {
	rd    io.RuneReader
	after int
	err   error
	n     int
}

func (r *vErrReader) ReadRune() (rune, int, error) {
	if r.n == r.after {
		return 0, 0, r.err
	}
	r.n++
	return r.rd.ReadRune()
}

func vText(n int) string {
	var sb strings.Builder
	al := []string{"a", "b", " ", "\n", "é", "世", "😀", "\x00", "\uFFFD", "\xff", "\xed\xa0\x80", "c", "d"}
	if vRand(3) == 0 {
		al = al[:4]
	}
	for i := 0; i < n; i++ {
		sb.WriteString(al[vRand(len(al))])
	}
	return sb.String()
}

type vSegCase struct {
	text    string
	fail    int // reader fails after that many runes, -1: never
	slice   bool
	brk     [2]bool
	nbrk    int
	maxSeg  int
	startBf int
	bounds  func(k, delivered int) int // <0: unbounded
	what    string
}

var vReaderErr = errors.New("reader failed")

// what a reader may fail with: anything but io.EOF itself
var vReaderErrs = []error{vReaderErr, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, errors.New("EOF"), fmt.Errorf("wrapped: %w", io.EOF), ErrTooLong, ErrNotInitialized}

func vPoss(p int, zero bool) bool { return p < vInf && (p != 0 || zero) }

// vSegment runs one text through the segmenter and judges every call. seg may have been used before.
func vSegment(seg *Segmenter, brs []*vBreaker, c vSegCase) string {
	runes := []rune(c.text)
	for _, b := range brs {
		b.n, b.lam, b.pens, b.sum = 0, 0, nil, map[int]int{}
	}
	log := fmt.Sprintf("%s text %q (%d runes) fail %d slice %v breakers %d breakOnZero %v max %d", c.what, c.text, len(runes), c.fail, c.slice, len(brs), c.brk, c.maxSeg)
	if len(log) > 600 {
		log = log[:600] + "..."
	}
	rdErr := vReaderErrs[vRand(len(vReaderErrs))]
	if vRand(3) == 0 {
		rdErr = vReaderErr
	}
	if c.slice {
		seg.InitFromSlice(runes)
	} else if c.fail >= 0 {
		var rd io.RuneReader = strings.NewReader(c.text)
		seg.Init(&vErrReader{rd: rd, after: c.fail, err: rdErr})
	} else if vRand(2) == 0 {
		seg.Init(bytes.NewBufferString(c.text))
	} else {
		seg.Init(strings.NewReader(c.text))
	}
	if seg.Err() != nil {
		return log + "\nerror after Init: " + seg.Err().Error()
	}
	seg.BreakOnZero(c.brk[0], c.brk[1])
	limit := MaxSegmentSize
	if c.maxSeg > 0 {
		buf := make([]rune, c.startBf)
		seg.RuneBuffer(buf, c.maxSeg)
		limit = c.maxSeg
		if c.startBf > limit {
			limit = c.startBf
		}
	}
	sum := func(sec bool, at int) int {
		if !sec {
			return brs[0].sum[at]
		}
		s := 0
		for _, b := range brs[1:] {
			s += b.sum[at]
		}
		return s
	}
	poss := func(at int) bool {
		return vPoss(sum(false, at), c.brk[0]) || len(brs) > 1 && vPoss(sum(true, at), c.brk[1])
	}
	delivered, ended := 0, 0
	ops := ""
	for k := 0; ended < 3; k++ {
		bound := c.bounds(k, delivered)
		var ok bool
		if bound < 0 {
			ok = seg.Next()
			ops += "N"
		} else {
			ok = seg.BoundedNext(bound)
			ops += fmt.Sprintf("B%d", bound)
		}
		if len(ops) > 400 {
			ops = "..." + ops[len(ops)-300:]
		}
		bad := func(f string, a ...interface{}) string {
			return fmt.Sprintf("%s\ncalls %s (last one: %v, err %v, segment %q, delivered before %d)\n%s", log, ops, ok, seg.Err(), vClip(seg.Text()), delivered, fmt.Sprintf(f, a...))
		}
		if k > 8*len(runes)+60 {
			return bad("does not end")
		}
		if ok {
			ops += "+ "
			if seg.Err() != nil {
				return bad("error set although a segment is delivered")
			}
			s := seg.Runes()
			if len(s) == 0 {
				return bad("empty segment")
			}
			if string(s) != seg.Text() || string(seg.Bytes()) != seg.Text() {
				return bad("Runes, Text and Bytes differ")
			}
			if delivered+len(s) > len(runes) {
				return bad("more runes delivered than the text has")
			}
			for i, r := range s {
				if runes[delivered+i] != r {
					return bad("rune %d of the text is %q, delivered %q", delivered+i, runes[delivered+i], r)
				}
			}
			end := delivered + len(s)
			if bound >= 0 && end > bound {
				return bad("delivers text beyond the bound")
			}
			if len(s) > limit && !c.slice {
				return bad("segment longer than the maximum of %d", limit)
			}
			for j := delivered; j < end-1; j++ {
				if poss(j) {
					return bad("a break after rune %d was possible (%d|%d)", j, sum(false, j), sum(true, j))
				}
			}
			if end < len(runes) && end != bound && !poss(end-1) {
				return bad("no break possible after rune %d (%d|%d)", end-1, sum(false, end-1), sum(true, end-1))
			}
			p0, p1 := seg.Penalties()
			if p0 != sum(false, end-1) || p1 != sum(true, end-1) {
				return bad("penalties %d|%d, accumulated are %d|%d", p0, p1, sum(false, end-1), sum(true, end-1))
			}
			delivered = end
			ended = 0
			continue
		}
		ops += "- "
		err := seg.Err()
		switch {
		case err == nil:
			if delivered != len(runes) || c.fail >= 0 && c.fail <= len(runes) {
				return bad("stops without error after %d of %d runes", delivered, len(runes))
			}
			ended++
		case err == ErrBoundReached:
			if bound < 0 {
				return bad("bound reached in an unbounded call")
			}
			if delivered < bound && delivered < len(runes) {
				return bad("bound reached although %d runes before the bound are left", bound-delivered)
			}
			if delivered >= len(runes) && bound > len(runes) {
				return bad("bound reached although the text ends before the bound")
			}
		case c.fail >= 0 && err == rdErr && (err != ErrTooLong || c.maxSeg == 0):
			if c.fail < 0 || c.fail > len(runes) {
				return bad("an error out of nowhere")
			}
			ended++
			// once failed, it stays failed
		case err == ErrTooLong:
			if c.fail >= 0 && rdErr == ErrTooLong {
				return ""
			}
			// the segment to come must really be too long
			j := delivered
			for j < len(runes) && !poss(j) && j+1 != bound {
				j++
			}
			if j-delivered+1 <= limit {
				return bad("too-long error, but the segment has at most %d runes", j-delivered+1)
			}
			if c.slice {
				return bad("too-long error although the text is in a slice")
			}
			for q := 0; q < 3; q++ {
				if seg.Next() || seg.Err() != ErrTooLong {
					return bad("continues after the too-long error")
				}
			}
			return ""
		default:
			return bad("unexpected error")
		}
		if bound >= 0 && delivered < len(runes) && delivered < bound && err == nil {
			return bad("stops before the bound")
		}
	}
	return ""
}

func vClip(s string) string {
	if len(s) > 80 {
		return s[:80] + "..."
	}
	return s
}

func vNewSeg() (*Segmenter, []*vBreaker) {
	n := 1 + vRand(3)
	var brs []*vBreaker
	var ub []uax.UnicodeBreaker
	for i := 0; i < n; i++ {
		b := &vBreaker{lamMax: []int{0, 1, 3, 10, 1000}[vRand(5)], style: vRand(5), sum: map[int]int{}}
		brs = append(brs, b)
		ub = append(ub, b)
	}
	return NewSegmenter(ub...), brs
}

func vUnbounded(k, d int) int { return -1 }

// mixes of bounded calls with growing, equal and smaller bounds, and unbounded calls
func vMixed(n int) func(k, d int) int {
	b := 0
	return func(k, d int) int {
		if k > 4*n+20 {
			return -1
		}
		switch vRand(6) {
		case 0:
			return -1
		case 1:
			b = vRand(n + 3)
		case 2:
			b = d + vRand(4)
		case 3:
			b += vRand(3)
		case 4:
			return 1 << 40
		}
		return b
	}
}

func vSegDriver(t *testing.T, key string, gen func(i int) (vSegCase, bool), n int) {
	defer vStat()
	for round := 0; round < n; round++ {
		seg, brs := vNewSeg()
		uses := 1 + vRand(3)
		for u := 0; u < uses; u++ {
			c, abandon := gen(round)
			c.what = fmt.Sprintf("round %d use %d seed %d:", round, u, vBaseSeed)
			in := fmt.Sprintf("%s %q", c.what, vClip(c.text))
			fine := true
			vTry(key, in, utf8.RuneCountInString(c.text) > 1, func() string {
				if abandon { // leave a text half way, then start again
					half := c
					seen := 0
					half.bounds = func(k, d int) int { seen++; return -1 }
					seg.Init(strings.NewReader(c.text + "left over text"))
					for _, b := range brs {
						b.n, b.sum = 0, map[int]int{}
					}
					for q := vRand(3); q > 0; q-- {
						seg.Next()
					}
				}
				m := vSegment(seg, brs, c)
				fine = m == ""
				return m
			})
			if !fine {
				break
			}
		}
	}
}
