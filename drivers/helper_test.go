package VERIFPKG

// Shared part of the executable layer: failure reporting, statistics, a watchdog
// for calls that never return, deterministic pseudo-random numbers.

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
)

type vCase struct {
	key   string
	input interface{}
	at    time.Time
	quiet bool
}

var vCur atomic.Value // *vCase
var vMu sync.Mutex
var vEval, vDistinct int
var vFails = map[string]int{}
var vSamples []string
var vSeen = map[string]bool{}
var vOnce sync.Once
var vBaseSeed = func() uint64 {
	n, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	return n*0x9E3779B97F4A7C15 + 12345
}()
var vRng = vBaseSeed

func vThorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// vScale picks the quick or thorough budget.
func vScale(q, t int) int {
	if vThorough() {
		return t
	}
	return q
}

func vRand(n int) int {
	vRng ^= vRng << 13
	vRng ^= vRng >> 7
	vRng ^= vRng << 17
	if n <= 0 {
		return 0
	}
	return int((vRng >> 11) % uint64(n))
}

func vFail(key, what string, input interface{}) {
	vMu.Lock()
	defer vMu.Unlock()
	vFails[key]++
	if vFails[key] > 3 || len(vFails) > 60 {
		return
	}
	b, _ := json.Marshal(map[string]interface{}{"Key": key, "What": what, "Input": input})
	fmt.Printf("\nVERIF-FAIL %s\n", b)
}

func vStat() {
	vMu.Lock()
	defer vMu.Unlock()
	b, _ := json.Marshal(map[string]interface{}{"Evaluations": vEval, "Distinct": vDistinct, "Samples": vSamples})
	fmt.Printf("\nVERIF-STAT %s\n", b)
	vEval, vDistinct, vSamples = 0, 0, nil
	vSeen = map[string]bool{}
}

// vTry runs one case; a panic or a call that takes longer than 20 s is a failure.
// f returns "" or a description of what is wrong.
func vTry(key string, input interface{}, nontrivial bool, f func() string) bool {
	vOnce.Do(func() {
		go func() {
			for {
				time.Sleep(500 * time.Millisecond)
				if c, _ := vCur.Load().(*vCase); c != nil && time.Since(c.at) > 20*time.Second {
					vFail(c.key+":hang", "the call did not return within 20 s", c.input)
					vStat()
					os.Exit(3)
				}
			}
		}()
	})
	vMu.Lock()
	vEval++
	if nontrivial {
		k := fmt.Sprintf("%v", input)
		if !vSeen[k] {
			if len(vSeen) < 2000000 {
				vSeen[k] = true
			}
			vDistinct++
			if len(vSamples) < 3 && vDistinct%37 == 1 {
				if len(k) > 200 {
					k = k[:200]
				}
				vSamples = append(vSamples, k)
			}
		}
	}
	vMu.Unlock()
	vCur.Store(&vCase{key: key, input: input, at: time.Now()})
	defer vCur.Store((*vCase)(nil))
	msg := func() (m string) {
		defer func() {
			if r := recover(); r != nil {
				m = fmt.Sprintf("panic: %v", r)
			}
		}()
		return f()
	}()
	if msg != "" {
		vFail(key, msg, input)
		return false
	}
	return true
}
