package main

// shifted rewrites quantified formulas into equivalent ones whose patterns a solver can match: a variable that occurs in
// its pattern as index `off + i` is replaced by i - off; alternative patterns with different offsets get a copy each.
func shifted(asserts []*Term) []*Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	one := func(t *Term, alts []*Term) *Term { // all alternatives have the same shifts
		return TT.mk(&Term{op: t.op, sort: SBool, args: t.args, bv: t.bv, pats: alts})
	}
	f = func(t *Term) *Term {
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = f(a)
			ch = ch || as[i] != a
		}
		r := t
		if ch {
			r = rebuild(t, as, func(t *Term) *Term { return t })
		}
		if r.op == "forall" && len(r.pats) > 0 && r.pats[0].op != "alt" {
			isBV := map[*Term]bool{}
			for _, v := range r.bv {
				isBV[v] = true
			}
			type copy struct {
				sub  map[*Term]*Term
				alts []*Term
			}
			var copies []*copy
			for _, p := range r.pats {
				ts := []*Term{p}
				if p.op == "pat" {
					ts = p.args
				}
				sub := map[*Term]*Term{}
				for _, v := range r.bv {
					if v.sort != SInt {
						continue
					}
					for _, q := range ts {
						if q.op == "select" && q.args[1].sort == SInt && q.args[1] != v {
							rest := Sub(q.args[1], v)
							ok := !mentions(rest, v)
							for _, o := range r.bv {
								ok = ok && !mentions(rest, o)
							}
							if ok {
								sub[v] = Sub(v, rest)
								break
							}
						} else if q.op == "select" && q.args[1] == v {
							break
						}
					}
				}
				var c *copy
				for _, o := range copies {
					same := len(o.sub) == len(sub)
					for k, x := range sub {
						same = same && o.sub[k] == x
					}
					if same {
						c = o
					}
				}
				if c == nil {
					c = &copy{sub: sub}
					copies = append(copies, c)
				}
				var qs []*Term
				for _, q := range ts {
					qs = append(qs, Subst(q, sub))
				}
				c.alts = append(c.alts, TT.mk(&Term{op: "alt", sort: "alt", args: qs}))
			}
			var out []*Term
			for _, c := range copies {
				q := &Term{op: "forall", sort: SBool, args: []*Term{Subst(r.args[0], c.sub)}, bv: r.bv}
				out = append(out, one(q, c.alts))
			}
			r = And(out...)
		}
		memo[t] = r
		return r
	}
	var out []*Term
	for _, a := range asserts {
		out = append(out, f(a))
	}
	return out
}
