package segment

import "testing"

func TestVerifC04(t *testing.T) {
	vSegDriver(t, "bounded", func(i int) (vSegCase, bool) {
		n := vRand(14)
		if i%20 == 0 {
			n = vRand(300)
		}
		c := vSegCase{text: vText(n), fail: -1, slice: vRand(3) == 0, bounds: vMixed(n), brk: [2]bool{vRand(2) == 0, vRand(2) == 0}}
		if i%10 == 0 {
			c.fail = vRand(n + 2)
			c.slice = false
		}
		if i%4 == 1 { // one bound, called until it stops, then another
			b := 0
			last := -1
			c.bounds = func(k, d int) int {
				if k > 3*n+10 {
					return -1
				}
				if d == last {
					b = d + vRand(n+2)
				}
				last = d
				return b
			}
		}
		return c, vRand(5) == 0
	}, vScale(8000, 100000))
}
