package trie

import (
	"fmt"
	"testing"
)

// Model of the dictionary: the set of all stored keys and their prefixes.

// vInsert reports whether the key was stored; running out of space is reported by a panic.
func vInsert(tr *TinyHashTrie, w []byte) (p int, full string) {
	defer func() {
		if r := recover(); r != nil {
			full = fmt.Sprint(r)
		}
	}()
	return tr.AllocPositionForWord(append([]byte{}, w...)), ""
}

func vWalk(tr *TinyHashTrie, w []byte) int {
	it := tr.Iterator()
	p := 0
	for _, c := range w {
		if p = it.Next(int8(c)); p == 0 {
			return 0
		}
	}
	return p
}

// vAudit compares the (frozen) trie with the model.
func vAudit(tr *TinyHashTrie, keys map[string]bool, maybe map[string]bool, cats int, extra [][]byte) string {
	where := map[int]string{}
	probe := func(w []byte) string {
		k := string(w)
		p, bad := vInsert(tr, w)
		if bad != "" {
			return fmt.Sprintf("looking up %v: panic %s", w, bad)
		}
		if p2, _ := vInsert(tr, w); p2 != p {
			return fmt.Sprintf("looking up %v twice gives %d and %d", w, p, p2)
		}
		if q := vWalk(tr, w); q != p {
			return fmt.Sprintf("key %v is at %d, but the iterator gets to %d", w, p, q)
		}
		present := keys[k] || len(w) == 1
		if present && p <= 0 {
			return fmt.Sprintf("key %v is not found any more", w)
		}
		if !present && !maybe[k] && p != 0 {
			return fmt.Sprintf("key %v is found at %d, but was never stored", w, p)
		}
		if p != 0 {
			if o, ok := where[p]; ok && o != k {
				return fmt.Sprintf("keys %v and %v are both at %d", []byte(o), w, p)
			}
			where[p] = k
		}
		return ""
	}
	for k := range keys {
		if m := probe([]byte(k)); m != "" {
			return m
		}
	}
	for k := range keys {
		for c := 0; c < cats; c++ {
			if m := probe(append([]byte(k), byte(c))); m != "" {
				return m
			}
		}
	}
	for _, w := range extra {
		if m := probe(w); m != "" {
			return m
		}
	}
	return ""
}

// vWf checks what the contracts call wfTrie and wfSib. The contract of moveFamily is assumed by the verifier, and checked here.
func vWf(t *TinyHashTrie) string {
	K, N := int(t.catcnt), int(t.size)
	isPos := func(i int) bool { return 1 <= i && i < N && 1 <= t.ch[i] && int(t.ch[i]) <= K }
	isHdr := func(i int) bool { return K < i && i <= N-K && int(t.ch[i]) == K+1 }
	for i := 1; i <= K; i++ {
		if int(t.ch[i]) != i {
			return fmt.Sprintf("ch[%d] = %d", i, t.ch[i])
		}
	}
	for i := K + 1; i < N; i++ {
		c, l := int(t.ch[i]), int(t.link[i])
		switch {
		case c == 0:
		case c == K+1:
			if i > N-K || !isPos(l) || int(t.link[l]) != i {
				return fmt.Sprintf("header %d has link %d", i, l)
			}
			// the family in descending order, complete, and back to the header
			s := i
			for j := K - 1; j >= 1; j-- {
				if int(t.ch[i+j]) == j {
					if int(t.sibling[s]) != i+j {
						return fmt.Sprintf("sibling[%d] = %d, not %d", s, t.sibling[s], i+j)
					}
					s = i + j
				}
			}
			if s == i || int(t.sibling[s]) != i {
				return fmt.Sprintf("sibling[%d] = %d, header %d", s, t.sibling[s], i)
			}
		case 1 <= c && c < K:
			if !isHdr(i - c) {
				return fmt.Sprintf("ch[%d] = %d, but %d is no header", i, c, i-c)
			}
		default:
			return fmt.Sprintf("ch[%d] = %d", i, c)
		}
	}
	for i := 1; i < N; i++ {
		if l := int(t.link[i]); isPos(i) && l != 0 && (!isHdr(l) || int(t.link[l]) != i) {
			return fmt.Sprintf("link[%d] = %d", i, l)
		}
	}
	return ""
}

func vRandKey(cats, n int) []byte {
	w := make([]byte, n)
	for i := range w {
		w[i] = byte(vRand(cats))
	}
	return w
}

func vScript(size, cats int, words [][]byte) string {
	tr, err := NewTinyHashTrie(uint8(size), int8(cats))
	if err != nil {
		return "no trie: " + err.Error()
	}
	keys, maybe := map[string]bool{}, map[string]bool{}
	n := len(words)
	for i, w := range words {
		p, full := vInsert(tr, w)
		for k := 1; k <= len(w); k++ {
			if full == "" {
				keys[string(w[:k])] = true
			} else {
				maybe[string(w[:k])] = true
			}
		}
		if m := vWf(tr); m != "" {
			return fmt.Sprintf("storing %v: %s", words[:i+1], m)
		}
		if full != "" {
			n = i + 1
			if full != "abort find" {
				return fmt.Sprintf("storing %v: panic %s", w, full)
			}
			break
		}
		if p <= 0 {
			return fmt.Sprintf("storing %v gives position %d", w, p)
		}
		// a key which was just stored is found at its place, stored once only
		if q, f := vInsert(tr, w); f != "" || q != p {
			return fmt.Sprintf("storing %v gives position %d, storing it again gives %d %s", w, p, q, f)
		}
	}
	for k := range maybe { // prefixes of the key that did not fit may be there or not
		if keys[k] {
			delete(maybe, k)
		}
	}
	pos := map[string]int{}
	if len(maybe) == 0 {
		for k := range keys {
			p, f := vInsert(tr, []byte(k))
			if f != "" {
				return fmt.Sprintf("looking up %v: panic %s", []byte(k), f)
			}
			pos[k] = p
		}
	}
	tr.Freeze()
	for k, p := range pos {
		if q, _ := vInsert(tr, []byte(k)); q != p {
			return fmt.Sprintf("key %v is at %d before, at %d after freezing", []byte(k), p, q)
		}
	}
	var extra [][]byte
	for i := 0; i < 60; i++ {
		extra = append(extra, vRandKey(cats, 1+vRand(4)))
	}
	for c := 0; c < cats; c++ {
		extra = append(extra, []byte{byte(c)})
	}
	if m := vAudit(tr, keys, maybe, cats, extra); m != "" {
		return fmt.Sprintf("trie %d/%d after storing %v: %s", size, cats, words[:n], m)
	}
	return ""
}

func TestVerifC21(t *testing.T) {
	defer vStat()
	for i := 0; i < vScale(12000, 150000); i++ {
		cats := 1 + vRand(50)
		switch vRand(3) {
		case 0:
			cats = 1 + vRand(6)
		case 1:
			cats = 2 + vRand(20)
		}
		size := 2*(cats+1) + 2 + vRand(255-2*(cats+1)-1)
		var words [][]byte
		n := vRand(60)
		some := vRandKey(cats, 4)
		for k := 0; k < n; k++ {
			w := vRandKey(cats, 1+vRand(5))
			if vRand(2) == 0 {
				copy(w[:len(w)-1], some) // families that grow
			}
			words = append(words, w)
		}
		vTry("script", fmt.Sprintf("size %d, %d categories: %v", size, cats, words), n > 3, func() string { return vScript(size, cats, words) })
	}
}
