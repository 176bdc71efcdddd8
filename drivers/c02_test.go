package segment

import "testing"

func TestVerifC02(t *testing.T) {
	vSegDriver(t, "first-feasible", func(i int) (vSegCase, bool) {
		c := vSegCase{text: vText(vRand(25)), fail: -1, slice: vRand(4) == 0, bounds: vUnbounded, brk: [2]bool{vRand(2) == 0, vRand(2) == 0}}
		if i%3 == 0 {
			c.bounds = vMixed(25)
		}
		return c, vRand(5) == 0
	}, vScale(8000, 100000))
}
