package uax

import (
	"fmt"
	"testing"
)

type vCall struct {
	state int
	rec   *Recognizer
	r     rune
	c     int
}

func TestVerifC07(t *testing.T) {
	defer vStat()
	n := vScale(3000, 40000)
	var live []*Recognizer // recognizers from the pool in use
	vTry("many", "600 recognizers from the pool at the same time", true, func() string {
		fn := func(rec *Recognizer, r rune, c int) NfaStateFn { return nil }
		seen := map[*Recognizer]bool{}
		var l []*Recognizer
		for i := 0; i < 600; i++ {
			rec := NewPooledRecognizer(i, fn)
			if seen[rec] || rec.Expect != i || rec.Done() {
				return fmt.Sprintf("recognizer %d: in use %v, %+v", i, seen[rec], *rec)
			}
			seen[rec] = true
			l = append(l, rec)
		}
		for i, rec := range l {
			if rec.Expect != i || rec.Done() {
				return fmt.Sprintf("recognizer %d has changed: %+v", i, *rec)
			}
			rec.Unsubscribed()
		}
		return ""
	})
	for round := 0; round < n; round++ {
		// a random automaton: per state and step, an action
		type action struct {
			kind int // 0 continue, 1 continue with longer match, 2 accept, 3 abort, 4 stop, 5 set match length and stop
			next int
			pens []int
		}
		ns := 1 + vRand(5)
		table := map[[2]int]action{}
		for s := 0; s < ns; s++ {
			for c := 0; c < 4; c++ {
				a := action{kind: vRand(6), next: vRand(ns)}
				if vRand(2) == 0 {
					a.kind = vRand(2)
				}
				for k := vRand(4); k > 0; k-- {
					a.pens = append(a.pens, vRand(200)-100)
				}
				table[[2]int{s, c}] = a
			}
		}
		var calls []vCall
		fns := make([]NfaStateFn, ns)
		var expPens []int
		for s := 0; s < ns; s++ {
			s := s
			fns[s] = func(rec *Recognizer, r rune, c int) NfaStateFn {
				calls = append(calls, vCall{s, rec, r, c})
				a := table[[2]int{s, c}]
				switch a.kind {
				case 0:
					return fns[a.next]
				case 1:
					rec.MatchLen++
					rec.UserData = fmt.Sprint("data", s)
					return fns[a.next]
				case 2:
					expPens = a.pens
					if a.next == 0 { // a provisional accept, corrected by a second one
						DoAccept(rec, 1, 2, 3, 4)
						rec.MatchLen--
					}
					return DoAccept(rec, a.pens...)
				case 3:
					return DoAbort(rec)
				case 5:
					rec.MatchLen = 3
					return nil
				}
				return nil
			}
		}
		pooled := vRand(3) > 0
		log := fmt.Sprintf("round %d seed %d: pooled %v, %d states, table %v\n", round, vBaseSeed, pooled, ns, table)
		vTry("recognizer", log, true, func() string {
			expect := vRand(100) - 20
			var rec *Recognizer
			if pooled {
				rec = NewPooledRecognizer(expect, fns[0])
				for _, o := range live {
					if o == rec {
						return "the pool hands out a recognizer which is still in use"
					}
				}
			} else {
				rec = NewRecognizer(expect, fns[0])
			}
			if rec.Expect != expect || rec.MatchLen != 0 || rec.UserData != nil || rec.penalties != nil || rec.Done() || rec.MatchLength() != 0 {
				return fmt.Sprintf("new recognizer is not clean: %+v", *rec)
			}
			state, match := 0, 0
			expPens = nil
			var pens []int
			for i := 0; i < 12; i++ {
				r, c := rune(vRand(0x10ffff)), vRand(4)
				before := len(calls)
				out := rec.RuneEvent(r, c)
				log += fmt.Sprintf("event %#x/%d in state %d -> %v\n", r, c, state, out)
				if state >= 0 {
					if len(calls) != before+1 {
						return fmt.Sprintf("state function called %d times\n%s", len(calls)-before, log)
					}
					l := calls[before]
					if l.state != state || l.rec != rec || l.r != r || l.c != c {
						return fmt.Sprintf("state function called with %v, want state %d\n%s", l, state, log)
					}
					a := table[[2]int{state, c}]
					state = -1
					switch a.kind {
					case 0:
						state = a.next
					case 1:
						match++
						state = a.next
					case 2:
						match++
						pens = expPens
					case 3:
						match = 0
					case 5:
						match = 3
					}
				} else if len(calls) != before {
					return "a done recognizer calls a state function\n" + log
				}
				if rec.Done() != (state < 0) {
					return fmt.Sprintf("Done is %v, want %v\n%s", rec.Done(), state < 0, log)
				}
				if rec.MatchLength() != match {
					return fmt.Sprintf("match length %d, want %d\n%s", rec.MatchLength(), match, log)
				}
				want := pens
				if state >= 0 || match == 0 {
					want = nil
				}
				if len(out) != len(want) {
					return fmt.Sprintf("penalties %v, want %v\n%s", out, want, log)
				}
				for j := range out {
					if out[j] != want[j] {
						return fmt.Sprintf("penalties %v, want %v\n%s", out, want, log)
					}
				}
				if state < 0 && vRand(2) == 0 {
					break
				}
			}
			if pooled {
				live = append(live, rec)
			}
			limit := vRand(300)
			for len(live) > limit {
				k := vRand(len(live))
				r := live[k]
				live = append(live[:k:k], live[k+1:]...)
				r.Unsubscribed()
			}
			return ""
		})
	}
}
