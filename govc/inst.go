package main

import (
	"sort"
	"strings"
)

// enrich adds tautological instances of the quantified formulas occurring in asserts:
//
//	forall F:  F ==> body(c)        exists E:  body(c) ==> E,   E ==> body(fresh)
//
// for terms c found by matching the index terms of array reads modulo linear arithmetic
// (solvers' triggers do not match `off + i` patterns). Every added formula is valid
// (the fresh-constant one is a conservative extension), so this cannot affect soundness.
func enrich(asserts []*Term, rounds, limit, ncand, ninst int) []*Term {
	var out []*Term
	have := map[*Term]bool{}
	add := func(t *Term) {
		if t == True || have[t] || len(out) >= limit {
			return
		}
		have[t] = true
		out = append(out, t)
	}
	for _, a := range asserts {
		have[a] = true
	}
	skolemised := map[*Term]bool{}
	type gsel struct {
		idx  *Term
		sort string
		fam  string
	}
	var sels []gsel
	selSeen := map[gsel]bool{}
	var quants []*Term
	qSeen := map[*Term]bool{}
	var consts []*Term // skolem constants
	cSeen := map[*Term]bool{}
	visited := map[*Term]bool{}
	var collect func(t *Term)
	collect = func(t *Term) {
		if visited[t] {
			return
		}
		visited[t] = true
		if t.op == "forall" || t.op == "exists" {
			if !t.hasB && !qSeen[t] {
				qSeen[t] = true
				quants = append(quants, t)
			}
			return // subterms are not ground
		}
		if t.op == "select" && t.args[1].sort == SInt && !t.hasB {
			s := gsel{t.args[1], t.args[0].sort, family(t.args[0])}
			if !selSeen[s] {
				selSeen[s] = true
				sels = append(sels, s)
			}
			if ix, ok := iteThen(t.args[1]); ok {
				s := gsel{ix, t.args[0].sort, family(t.args[0]) + "#ite"}
				if !selSeen[s] {
					selSeen[s] = true
					sels = append(sels, s)
				}
			}
		}
		if t.op == "app" && !t.hasB {
			for _, a := range t.args {
				if a.sort == SInt {
					s := gsel{a, "app", t.name}
					if !selSeen[s] {
						selSeen[s] = true
						sels = append(sels, s)
					}
				}
			}
		}
		if t.op == "const" && t.sort == SInt && len(t.name) > 3 && t.name[:3] == "sk_" && !cSeen[t] {
			cSeen[t] = true
			consts = append(consts, t)
		}
		for _, a := range t.args {
			collect(a)
		}
	}
	// the goal is last: start from it, so that its terms come first
	for i := len(asserts) - 1; i >= 0; i-- {
		collect(asserts[i])
	}
	selDone := 0
	for r := 0; r < rounds; r++ {
		qs := append([]*Term{}, quants...)
		// terms found in the last round first
		ss := append(append([]gsel{}, sels[selDone:]...), sels[:selDone]...)
		selDone = len(sels)
		if len(ss) > 500 {
			ss = ss[:500]
		}
		cs := append([]*Term{}, consts...)
		n0 := len(out)
		for _, q := range qs {
			ok := true
			for _, v := range q.bv {
				ok = ok && v.sort == SInt
			}
			if q.op == "exists" && !skolemised[q] {
				skolemised[q] = true
				m := map[*Term]*Term{}
				for _, v := range q.bv {
					m[v] = Fresh("sk_"+v.name, v.sort)
				}
				add(Imp(q, Subst(q.args[0], m)))
			}
			if !ok || len(q.bv) > 3 {
				continue
			}
			cand := make([][]*Term, len(q.bv))
			for vi, v := range q.bv {
				set := map[*Term]bool{}
				put := func(t *Term) {
					if !set[t] && len(cand[vi]) < ncand {
						set[t] = true
						cand[vi] = append(cand[vi], t)
					}
				}
				for _, c := range cs {
					put(c)
				}
				for _, p := range idxPatterns(q.args[0], v) {
					for _, g := range ss {
						if g.sort == p.sort && sameFam(g.fam, p.fam) {
							put(Sub(g.idx, p.rest))
						}
					}
				}
			}
			n := 0
			m := map[*Term]*Term{}
			inst := func() {
				n++
				b := Subst(q.args[0], m)
				if q.op == "forall" {
					if have[q] {
						add(b)
					} else {
						add(Imp(q, b))
					}
				} else {
					add(Imp(b, q))
				}
			}
			var rec func(i, rank int)
			rec = func(i, rank int) { // the candidates' ranks add up to rank
				if n > ninst {
					return
				}
				if i == len(q.bv)-1 {
					if rank < len(cand[i]) {
						m[q.bv[i]] = cand[i][rank]
						inst()
					}
					return
				}
				for k, c := range cand[i] {
					if k > rank {
						break
					}
					m[q.bv[i]] = c
					rec(i+1, rank-k)
				}
			}
			total := 0
			for _, c := range cand {
				total += len(c)
			}
			for rank := 0; rank < total && n <= ninst; rank++ {
				rec(0, rank)
			}
		}
		if len(out) == n0 {
			break
		}
		for _, t := range out[n0:] {
			collect(t)
		}
	}
	return out
}

// family names the array a term is an update of (heap component), so that reads of
// different versions of one component match each other and nothing else
func family(a *Term) string {
	for {
		switch a.op {
		case "store", "select":
			a = a.args[0]
			continue
		case "ite":
			a = a.args[1]
			continue
		case "const":
			n := a.name
			for i := len(n) - 1; i > 0; i-- {
				if n[i] == '!' {
					n = n[:i]
					break
				}
			}
			for _, p := range []string{"mod:", "H:", "hv:"} {
				if strings.HasPrefix(n, p) {
					return n[len(p):]
				}
			}
		}
		return "?"
	}
}

// iteThen replaces the conditional in a sum (ring buffer index) by its first alternative
func iteThen(t *Term) (*Term, bool) {
	if t.op == "ite" {
		return t.args[1], true
	}
	if t.sort != SInt || t.isInt() {
		return t, false
	}
	c, co, ar := linParts(t)
	r, found := IB(c), false
	for i, a := range ar {
		if a.op == "ite" {
			a, found = a.args[1], true
		}
		r = Add(r, Mul(a, IB(co[i])))
	}
	return r, found
}

func sameFam(a, b string) bool {
	if strings.HasPrefix(a, "?") && strings.HasPrefix(b, "?") {
		return strings.HasSuffix(a, "#ite") == strings.HasSuffix(b, "#ite")
	}
	return a == b || strings.HasPrefix(a, "?") && strings.HasSuffix(a, "#ite") == strings.HasSuffix(b, "#ite") || strings.HasPrefix(b, "?") && strings.HasSuffix(a, "#ite") == strings.HasSuffix(b, "#ite")
}

type idxPat struct {
	rest *Term
	sort string
	fam  string
}

func idxPatterns(body, v *Term) []idxPat {
	var out []idxPat
	seen := map[*Term]bool{}
	have := map[idxPat]bool{}
	consider := func(ix *Term, sort, fam string) {
		rest := Sub(ix, v)
		if rest.hasB || mentions(rest, v) {
			return
		}
		p := idxPat{rest, sort, fam}
		if !have[p] {
			have[p] = true
			out = append(out, p)
		}
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "select" && t.args[1].sort == SInt {
			consider(t.args[1], t.args[0].sort, family(t.args[0]))
			if ix, ok := iteThen(t.args[1]); ok {
				consider(ix, t.args[0].sort, family(t.args[0])+"#ite")
			}
		}
		if t.op == "app" {
			for _, a := range t.args {
				if a.sort == SInt && a.hasB {
					consider(a, "app", t.name)
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	sort.SliceStable(out, func(i, j int) bool { return out[i].rest.id < out[j].rest.id })
	return out
}

func mentions(t, v *Term) bool {
	if t == v {
		return true
	}
	for _, a := range t.args {
		if mentions(a, v) {
			return true
		}
	}
	return false
}

// groundOnly replaces every quantified formula by a fresh Boolean constant (weaker: unsat stays meaningful)
// and drops top-level ones.
func groundOnly(asserts []*Term) []*Term {
	m := map[*Term]*Term{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "forall" || t.op == "exists" {
			if !t.hasB {
				m[t] = Fresh("quant", SBool)
				return
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, a := range asserts {
		walk(a)
	}
	var out []*Term
	for _, a := range asserts {
		if a.op == "forall" {
			continue
		}
		out = append(out, Subst(a, m))
	}
	return out
}

// isRow: an array holding the elements of slices or objects' elements (not the field table of a struct type)
func isRow(t *Term) bool {
	if t.op != "const" || !strings.HasPrefix(t.sort, "(Array") {
		return false
	}
	if strings.HasPrefix(t.name, "H:") || strings.HasPrefix(t.name, "mod:") || strings.HasPrefix(t.name, "hv:") {
		return strings.Count(t.sort, "Array") > 1
	}
	return true
}

// focus drops the assumptions that share no array, not even through other assumptions, with the goal (the last formula).
func focus(asserts []*Term) []*Term {
	var parts []*Term
	var split func(t *Term)
	split = func(t *Term) {
		switch {
		case t.op == "and":
			for _, a := range t.args {
				split(a)
			}
			return
		case t.op == "forall" && t.args[0].op == "=>" && t.args[0].args[1].op == "and":
			for _, c := range t.args[0].args[1].args {
				parts = append(parts, Forall(t.bv, Imp(t.args[0].args[0], c), t.pats...))
			}
			return
		case t.op == "forall" && t.args[0].op == "and":
			for _, c := range t.args[0].args {
				parts = append(parts, Forall(t.bv, c, t.pats...))
			}
			return
		}
		parts = append(parts, t)
	}
	for _, a := range asserts[:len(asserts)-1] {
		split(a)
	}
	memo := map[*Term]map[*Term]bool{}
	var rows func(t *Term) map[*Term]bool
	rows = func(t *Term) map[*Term]bool {
		if r, ok := memo[t]; ok {
			return r
		}
		r := map[*Term]bool{}
		memo[t] = r
		if isRow(t) {
			r[t] = true
		}
		for _, a := range t.args {
			for k := range rows(a) {
				r[k] = true
			}
		}
		return r
	}
	goal := asserts[len(asserts)-1]
	rel := map[*Term]bool{}
	for k := range rows(goal) {
		rel[k] = true
	}
	keep := make([]bool, len(parts))
	for changed := true; changed; {
		changed = false
		for i, p := range parts {
			if keep[i] {
				continue
			}
			rs := rows(p)
			hit := len(rs) == 0
			for k := range rs {
				hit = hit || rel[k]
			}
			if hit {
				keep[i] = true
				for k := range rs {
					if !rel[k] {
						rel[k] = true
						changed = true
					}
				}
			}
		}
	}
	var out []*Term
	for i, p := range parts {
		if keep[i] {
			out = append(out, p)
		}
	}
	return append(out, goal)
}
