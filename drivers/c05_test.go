package segment

import (
	"fmt"
	"testing"
)

type vAtom struct {
	r      rune
	p0, p1 int
}

// random operation sequences against a plain slice; the sequence that fails is the replay
func TestVerifC05(t *testing.T) {
	n := vScale(250, 3000)
	for c := 0; c < n; c++ {
		seed := vRng
		steps := 100 + vRand(900)
		var log []string
		vTry("deque-sequence", map[string]interface{}{"case": c, "seed": fmt.Sprint(seed), "steps": steps}, true, func() string {
			q := &deque{}
			var model []vAtom
			k := 1
			bias := vRand(3)
			for s := 0; s < steps; s++ {
				if s%150 == 0 {
					bias = vRand(3)
				}
				op := vRand(14)
				a := vAtom{rune(k), k * 3, -k}
				k++
				if bias == 1 && op >= 4 && op < 9 {
					op = vRand(3)
				}
				if bias == 2 && op < 3 {
					op = 4
				}
				desc := ""
				switch {
				case op < 3:
					desc = "PushBack"
					q.PushBack(a.r, a.p0, a.p1)
					model = append(model, a)
				case op == 3:
					desc = "PushFront"
					q.PushFront(a.r, a.p0, a.p1)
					model = append([]vAtom{a}, model...)
				case op < 8:
					desc = "PopFront"
					if len(model) == 0 {
						if !vPanics(func() { q.PopFront() }) {
							return vd(s, desc, "no panic on an empty queue")
						}
						break
					}
					r, x, y := q.PopFront()
					if (vAtom{r, x, y}) != model[0] {
						return vd(s, desc, fmt.Sprintf("got %v want %v", vAtom{r, x, y}, model[0]))
					}
					model = model[1:]
				case op == 8:
					desc = "PopBack"
					if len(model) == 0 {
						if !vPanics(func() { q.PopBack() }) {
							return vd(s, desc, "no panic on an empty queue")
						}
						break
					}
					r, x, y := q.PopBack()
					if (vAtom{r, x, y}) != model[len(model)-1] {
						return vd(s, desc, "wrong element")
					}
					model = model[:len(model)-1]
				case op == 9 && len(model) > 0:
					desc = "SetAt"
					i := vRand(len(model))
					q.SetAt(i, a.r, a.p0, a.p1)
					model[i] = a
				case op == 10 && len(model) > 0:
					desc = "Rotate"
					m := vRand(2*len(model)+1) - len(model)
					q.Rotate(m)
					m %= len(model)
					if m < 0 {
						m += len(model)
					}
					model = append(append([]vAtom{}, model[m:]...), model[:m]...)
				case op == 11 && vRand(60) == 0:
					desc = "Clear"
					q.Clear()
					model = nil
				case op == 12:
					desc = "At"
					for _, i := range []int{-1, len(model), len(model) + vRand(70)} {
						i := i
						if !vPanics(func() { q.At(i) }) {
							return vd(s, desc, fmt.Sprintf("no panic for index %d of %d", i, len(model)))
						}
					}
				case op == 13 && len(model) > 0:
					desc = "AtomAt"
					i := vRand(len(model))
					q.AtomAt(i).penalty0 += 7
					model[i].p0 += 7
				}
				log = append(log, desc)
				if q.Len() != len(model) {
					return vd(s, desc, fmt.Sprintf("Len %d want %d", q.Len(), len(model)))
				}
				if len(model) > 0 && s%3 == 0 {
					r, x, y := q.Front()
					if (vAtom{r, x, y}) != model[0] {
						return vd(s, desc, "Front")
					}
					r, x, y = q.Back()
					if (vAtom{r, x, y}) != model[len(model)-1] || q.LastRune() != r {
						return vd(s, desc, "Back/LastRune")
					}
				}
				if s%7 == 0 || s == steps-1 {
					for i, m := range model {
						r, x, y := q.At(i)
						if (vAtom{r, x, y}) != m {
							return vd(s, desc, fmt.Sprintf("At(%d) = %v want %v", i, vAtom{r, x, y}, m))
						}
					}
				}
			}
			return ""
		})
	}
	vStat()
}

func vd(s int, op, what string) string { return fmt.Sprintf("step %d after %s: %s", s, op, what) }

func vPanics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return false
}
