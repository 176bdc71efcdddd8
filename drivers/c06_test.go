package uax

import (
	"fmt"
	"testing"
)

// Scripted subscriber: done after life events, returns a scripted penalty list and match length per event.
type vSub struct {
	id     int
	life   int
	events int
	unsub  int
	pens   [][]int
	mlen   []int
	early  bool // event after unsubscription
	runes  []rune
	classs []int
}

func (s *vSub) RuneEvent(r rune, c int) []int {
	if s.unsub > 0 {
		s.early = true
	}
	s.runes = append(s.runes, r)
	s.classs = append(s.classs, c)
	p := s.pens[s.events%len(s.pens)]
	s.events++
	return p
}
func (s *vSub) MatchLength() int {
	if s.events == 0 {
		return 0
	}
	return s.mlen[(s.events-1)%len(s.mlen)]
}
func (s *vSub) Done() bool    { return s.events >= s.life }
func (s *vSub) Unsubscribed() { s.unsub++ }

func TestVerifC06(t *testing.T) {
	defer vStat()
	n := vScale(4000, 60000)
	for round := 0; round < n; round++ {
		maxSub := 1 + vRand(12)
		maxLife := 1 + vRand(5)
		maxPen := vRand(6)
		if vRand(50) == 0 {
			maxPen = 1500 // longer than the publisher's buffer
			maxSub = 3
		}
		steps := 1 + vRand(8)
		script := fmt.Sprintf("round %d seed %d: up to %d subscribers, life up to %d, %d events, up to %d penalties", round, vBaseSeed, maxSub, maxLife, steps, maxPen)
		vTry("publisher", script, true, func() string {
			pub := NewRunePublisher()
			var active, all []*vSub
			id := 0
			log := script + "\n"
			subscribe := func() {
				s := &vSub{id: id, life: 1 + vRand(maxLife)}
				if vRand(20) == 0 {
					s.life = 0 // done before it has seen anything
				}
				id++
				for k := 0; k < 1+vRand(4); k++ {
					var l []int
					if maxPen > 0 {
						for q := vRand(maxPen + 1); q > 0; q-- {
							l = append(l, vRand(2001)-1000)
						}
					}
					s.pens = append(s.pens, l)
				}
				for k := 0; k < 1+vRand(4); k++ {
					s.mlen = append(s.mlen, vRand(9))
				}
				log += fmt.Sprintf("subscribe #%d life %d match lengths %v\n", s.id, s.life, s.mlen)
				var rp RunePublisher = pub
				if got := rp.SubscribeMe(s); got != rp {
					vFail("publisher", "SubscribeMe does not return the publisher", log)
				}
				active = append(active, s)
				all = append(all, s)
			}
			for st := 0; st < steps; st++ {
				for k := vRand(maxSub); k > 0; k-- {
					subscribe()
				}
				r, c := rune(vRand(0x10ffff)), vRand(40)
				want := map[int]int{}
				wlen, wlong := 0, 0
				ev := map[*vSub]int{}
				for _, s := range all {
					ev[s] = s.events
				}
				var rest []*vSub
				for _, s := range active {
					p := s.pens[s.events%len(s.pens)]
					for j, v := range p {
						want[j] += v
					}
					if len(p) > wlen {
						wlen = len(p)
					}
					if s.events+1 < s.life {
						if m := s.mlen[s.events%len(s.mlen)]; m > wlong {
							wlong = m
						}
						rest = append(rest, s)
					}
				}
				long, pens := pub.PublishRuneEvent(r, c)
				log += fmt.Sprintf("publish %#x/%d -> longest %d, %d penalties\n", r, c, long, len(pens))
				if long != wlong {
					vFail("longest", fmt.Sprintf("longest distance %d, want %d", long, wlong), log)
				}
				if len(pens) != wlen {
					vFail("sum-length", fmt.Sprintf("%d penalties, want %d", len(pens), wlen), log)
				}
				for j := 0; j < len(pens) && j < wlen; j++ {
					if pens[j] != want[j] {
						vFail("sum", fmt.Sprintf("penalty %d is %d, want %d", j, pens[j], want[j]), log)
						break
					}
				}
				isAct := map[*vSub]bool{}
				for _, s := range active {
					isAct[s] = true
				}
				for _, s := range all {
					d := s.events - ev[s]
					if isAct[s] && d != 1 || !isAct[s] && d != 0 {
						vFail("once", fmt.Sprintf("subscriber #%d called %d times", s.id, d), log)
					}
					if isAct[s] && d == 1 && (s.runes[len(s.runes)-1] != r || s.classs[len(s.classs)-1] != c) {
						vFail("once", fmt.Sprintf("subscriber #%d called with another rune", s.id), log)
					}
					w := 0
					if s.events >= s.life {
						w = 1
					}
					if s.unsub != w {
						vFail("told", fmt.Sprintf("subscriber #%d told %d times that it is unsubscribed, want %d", s.id, s.unsub, w), log)
					}
					if s.early {
						vFail("removed", fmt.Sprintf("subscriber #%d called after its removal", s.id), log)
					}
				}
				active = rest
			}
			return ""
		})
	}
}
