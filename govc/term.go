package main

// Hash-consed SMT terms with light-weight simplification.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Term struct {
	id    int
	op    string // "int","bool","const","bound","app","+","*","ite","=","<","<=","and","or","not","=>","select","store","constarr","div","mod","forall","exists"
	name  string // const / bound / app symbol
	n     *big.Int
	sort  string
	args  []*Term
	coefs []*big.Int // for "+": linear sum; n is the constant part
	bv    []*Term    // bound variables of quantifiers
	pats  []*Term
	hasB  bool // contains bound variables (free or not)
	maxc  int  // highest creation stamp of a fresh constant occurring in the term
}

const (
	SInt  = "Int"
	SBool = "Bool"
)

func ArrSort(el string) string { return "(Array Int " + el + ")" }
func ElemSort(s string) string {
	if strings.HasPrefix(s, "(Array Int ") {
		return s[len("(Array Int ") : len(s)-1]
	}
	panic("not an array sort: " + s)
}

type TermTab struct {
	tab   map[string]*Term
	next  int
	stamp int
	funs  map[string]string // declared function symbols: name -> "(args) ret"
}

var TT = &TermTab{tab: map[string]*Term{}, funs: map[string]string{}}

func (tt *TermTab) mk(t *Term) *Term {
	var b strings.Builder
	b.WriteString(t.op)
	b.WriteByte('|')
	b.WriteString(t.name)
	b.WriteByte('|')
	if t.n != nil {
		b.WriteString(t.n.String())
	}
	b.WriteByte('|')
	b.WriteString(t.sort)
	for i, a := range t.args {
		fmt.Fprintf(&b, ",%d", a.id)
		if t.coefs != nil {
			b.WriteByte('*')
			b.WriteString(t.coefs[i].String())
		}
	}
	for _, v := range t.bv {
		fmt.Fprintf(&b, ";%d", v.id)
	}
	for _, v := range t.pats {
		fmt.Fprintf(&b, "^%d", v.id)
	}
	k := b.String()
	if x, ok := tt.tab[k]; ok {
		return x
	}
	tt.next++
	t.id = tt.next
	if t.op == "bound" {
		t.hasB = true
	}
	for _, a := range t.args {
		t.hasB = t.hasB || a.hasB
		if a.maxc > t.maxc {
			t.maxc = a.maxc
		}
	}
	if t.op == "const" {
		tt.stamp++
		t.maxc = tt.stamp
	}
	tt.tab[k] = t
	return t
}

func I(n int64) *Term       { return IB(big.NewInt(n)) }
func IB(n *big.Int) *Term   { return TT.mk(&Term{op: "int", n: n, sort: SInt}) }
func (t *Term) isInt() bool { return t.op == "int" }

var True = TT.mk(&Term{op: "bool", name: "true", sort: SBool})
var False = TT.mk(&Term{op: "bool", name: "false", sort: SBool})

func B(b bool) *Term {
	if b {
		return True
	}
	return False
}
func Const(name, sort string) *Term { return TT.mk(&Term{op: "const", name: name, sort: sort}) }

var freshCtr = map[string]int{}

func Fresh(hint, sort string) *Term {
	hint = sanitize(hint)
	freshCtr[hint]++
	return Const(fmt.Sprintf("%s!%d", hint, freshCtr[hint]), sort)
}
func Bound(name, sort string) *Term { return TT.mk(&Term{op: "bound", name: name, sort: sort}) }

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '!' {
			b.WriteRune(r)
		} else if r == '[' || r == ']' {
			b.WriteByte('@')
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func App(fn string, ret string, args ...*Term) *Term {
	sig := "("
	for i, a := range args {
		if i > 0 {
			sig += " "
		}
		sig += a.sort
	}
	sig += ") " + ret
	if old, ok := TT.funs[fn]; ok && old != sig {
		panic(fmt.Sprintf("function %s used with %s and %s", fn, old, sig))
	}
	TT.funs[fn] = sig
	return TT.mk(&Term{op: "app", name: fn, sort: ret, args: args})
}

// ---- linear arithmetic ----

func linParts(t *Term) (c *big.Int, coefs []*big.Int, args []*Term) {
	switch t.op {
	case "int":
		return t.n, nil, nil
	case "+":
		return t.n, t.coefs, t.args
	}
	return big.NewInt(0), []*big.Int{big.NewInt(1)}, []*Term{t}
}

func mkLin(c *big.Int, m map[*Term]*big.Int) *Term {
	var args []*Term
	for a, k := range m {
		if k.Sign() != 0 {
			args = append(args, a)
		}
	}
	if len(args) == 0 {
		return IB(c)
	}
	sort.Slice(args, func(i, j int) bool { return args[i].id < args[j].id })
	if len(args) == 1 && c.Sign() == 0 && m[args[0]].Cmp(big.NewInt(1)) == 0 {
		return args[0]
	}
	cs := make([]*big.Int, len(args))
	for i, a := range args {
		cs[i] = m[a]
	}
	return TT.mk(&Term{op: "+", n: c, coefs: cs, args: args, sort: SInt})
}

func lin2(a, b *Term, kb int64) *Term {
	if a.isInt() && b.isInt() {
		r := new(big.Int).Mul(b.n, big.NewInt(kb))
		return IB(r.Add(r, a.n))
	}
	c := new(big.Int)
	m := map[*Term]*big.Int{}
	addp := func(t *Term, k *big.Int) {
		tc, co, ar := linParts(t)
		c.Add(c, new(big.Int).Mul(tc, k))
		for i, x := range ar {
			v := m[x]
			if v == nil {
				v = new(big.Int)
				m[x] = v
			}
			v.Add(v, new(big.Int).Mul(co[i], k))
		}
	}
	addp(a, big.NewInt(1))
	addp(b, big.NewInt(kb))
	return mkLin(c, m)
}

func Add(a, b *Term) *Term {
	if a.isInt() && a.n.Sign() == 0 {
		return b
	}
	if b.isInt() && b.n.Sign() == 0 {
		return a
	}
	return lin2(a, b, 1)
}
func Sub(a, b *Term) *Term { return lin2(a, b, -1) }
func Neg(a *Term) *Term    { return lin2(I(0), a, -1) }
func Mul(a, b *Term) *Term {
	if a.isInt() {
		a, b = b, a
	}
	if b.isInt() {
		c := new(big.Int)
		m := map[*Term]*big.Int{}
		tc, co, ar := linParts(a)
		c.Mul(tc, b.n)
		for i, x := range ar {
			m[x] = new(big.Int).Mul(co[i], b.n)
		}
		return mkLin(c, m)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return TT.mk(&Term{op: "*", sort: SInt, args: []*Term{a, b}})
}

// Euclidean div/mod (SMT semantics)
func DivE(a, b *Term) *Term {
	if b.isInt() && b.n.Sign() != 0 && a.isInt() {
		q, _ := new(big.Int).DivMod(a.n, b.n, new(big.Int))
		return IB(q)
	}
	if b.isInt() && b.n.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	return TT.mk(&Term{op: "div", sort: SInt, args: []*Term{a, b}})
}
func ModE(a, b *Term) *Term {
	if b.isInt() && b.n.Sign() != 0 && a.isInt() {
		_, m := new(big.Int).DivMod(a.n, b.n, new(big.Int))
		return IB(m)
	}
	return TT.mk(&Term{op: "mod", sort: SInt, args: []*Term{a, b}})
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch: %s:%s vs %s:%s", a, a.sort, b, b.sort))
	}
	if a.sort == SBool {
		switch {
		case a == True:
			return b
		case b == True:
			return a
		case a == False:
			return Not(b)
		case b == False:
			return Not(a)
		}
	}
	if a.sort == SInt {
		if a.isInt() && b.isInt() {
			return B(a.n.Cmp(b.n) == 0)
		}
		d := Sub(a, b)
		if d.isInt() {
			return B(d.n.Sign() == 0)
		}
		// lift over constant-valued ite
		if a.op == "ite" && b.isInt() && iteLeavesConst(a) {
			return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
		}
		if b.op == "ite" && a.isInt() && iteLeavesConst(b) {
			return Ite(b.args[0], Eq(b.args[1], a), Eq(b.args[2], a))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return TT.mk(&Term{op: "=", sort: SBool, args: []*Term{a, b}})
}
func iteLeavesConst(t *Term) bool {
	if t.isInt() {
		return true
	}
	if t.op == "ite" {
		return iteLeavesConst(t.args[1]) && iteLeavesConst(t.args[2])
	}
	return false
}
func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }
func Le(a, b *Term) *Term {
	d := Sub(b, a)
	if d.isInt() {
		return B(d.n.Sign() >= 0)
	}
	return TT.mk(&Term{op: "<=", sort: SBool, args: []*Term{a, b}})
}
func Lt(a, b *Term) *Term { return Le(Add(a, I(1)), b) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.op == "not":
		return a.args[0]
	case a.op == "<=": // not (a<=b) == b+1 <= a
		return Le(Add(a.args[1], I(1)), a.args[0])
	}
	return TT.mk(&Term{op: "not", sort: SBool, args: []*Term{a}})
}
func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == False {
			return false
		}
		if t == True || seen[t] {
			return true
		}
		if t.op == "and" {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return TT.mk(&Term{op: "and", sort: SBool, args: out})
}
func Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		if t == True {
			return True
		}
		if t == False || seen[t] {
			continue
		}
		if t.op == "or" {
			for _, a := range t.args {
				if seen[Not(a)] {
					return True
				}
				if !seen[a] {
					seen[a] = true
					out = append(out, a)
				}
			}
			continue
		}
		if seen[Not(t)] {
			return True
		}
		seen[t] = true
		out = append(out, t)
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	return TT.mk(&Term{op: "or", sort: SBool, args: out})
}
func Imp(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b == False {
		return Not(a)
	}
	return TT.mk(&Term{op: "=>", sort: SBool, args: []*Term{a, b}})
}
func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.sort != b.sort {
		panic("ite sort mismatch " + a.sort + " " + b.sort)
	}
	if a.sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if b == False {
			return And(c, a)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
	}
	return TT.mk(&Term{op: "ite", sort: a.sort, args: []*Term{c, a, b}})
}

func diffConst(a, b *Term) (eq bool, known bool) {
	if a == b {
		return true, true
	}
	if a.isInt() && b.isInt() {
		return a.n.Cmp(b.n) == 0, true
	}
	d := Sub(a, b)
	if d.isInt() {
		return d.n.Sign() == 0, true
	}
	return false, false
}

func Select(a, i *Term) *Term {
	for {
		if a.op == "store" {
			eq, known := diffConst(a.args[1], i)
			if known && eq {
				return a.args[2]
			}
			if known && !eq {
				a = a.args[0]
				continue
			}
		}
		if a.op == "constarr" {
			return a.args[0]
		}
		if a.op == "ite" && (a.args[1].op == "constarr" || a.args[2].op == "constarr" || a.args[1].op == "store" || a.args[2].op == "store") {
			return Ite(a.args[0], Select(a.args[1], i), Select(a.args[2], i))
		}
		break
	}
	return TT.mk(&Term{op: "select", sort: ElemSort(a.sort), args: []*Term{a, i}})
}
func Store(a, i, v *Term) *Term {
	if ElemSort(a.sort) != v.sort {
		panic("store sort mismatch: " + a.sort + " <- " + v.sort)
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
		return Store(a, i, v)
	}
	depth := 0
	for b := a; b.op == "store" && depth < 64; b = b.args[0] {
		depth++
	}
	if depth < 64 && Select(a, i) == v {
		return a
	}
	// push below to overwrite earlier store at same index when all in between are distinct
	if a.op == "store" {
		var chain []*Term
		b := a
		for n := 0; b.op == "store" && n < 64; n++ {
			eq, known := diffConst(b.args[1], i)
			if !known {
				break
			}
			if eq {
				r := Store(b.args[0], i, v)
				for k := len(chain) - 1; k >= 0; k-- {
					r = TT.mk(&Term{op: "store", sort: a.sort, args: []*Term{r, chain[k].args[1], chain[k].args[2]}})
				}
				return r
			}
			chain = append(chain, b)
			b = b.args[0]
		}
	}
	return TT.mk(&Term{op: "store", sort: a.sort, args: []*Term{a, i, v}})
}
func ConstArr(v *Term) *Term {
	return TT.mk(&Term{op: "constarr", sort: ArrSort(v.sort), args: []*Term{v}})
}

var bctr int

func Forall(vars []*Term, body *Term, pats ...*Term) *Term {
	return quant("forall", vars, body, pats)
}
func Exists(vars []*Term, body *Term) *Term { return quant("exists", vars, body, nil) }
func quant(q string, vars []*Term, body *Term, pats []*Term) *Term {
	if body == True || body == False {
		return body
	}
	if len(vars) == 0 {
		return body
	}
	t := &Term{op: q, sort: SBool, args: []*Term{body}, bv: vars, pats: pats}
	r := TT.mk(t)
	// recompute: does it contain *other* bound variables?
	r.hasB = hasFreeBound(body, vars)
	return r
}
func hasFreeBound(t *Term, bound []*Term) bool {
	if !t.hasB {
		return false
	}
	seen := map[*Term]bool{}
	var walk func(t *Term, b map[*Term]bool) bool
	walk = func(t *Term, b map[*Term]bool) bool {
		if !t.hasB {
			return false
		}
		if t.op == "bound" {
			return !b[t]
		}
		if len(t.bv) == 0 {
			if seen[t] {
				return false
			}
		}
		nb := b
		if len(t.bv) > 0 {
			nb = map[*Term]bool{}
			for k := range b {
				nb[k] = true
			}
			for _, v := range t.bv {
				nb[v] = true
			}
		}
		for _, a := range t.args {
			if walk(a, nb) {
				return true
			}
		}
		if len(t.bv) == 0 {
			seen[t] = true
		}
		return false
	}
	m := map[*Term]bool{}
	for _, v := range bound {
		m[v] = true
	}
	return walk(t, m)
}

// Subst replaces terms.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = f(a)
			ch = ch || as[i] != a
		}
		r := t
		if ch {
			r = rebuild(t, as, f)
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func rebuild(t *Term, as []*Term, f func(*Term) *Term) *Term {
	switch t.op {
	case "+":
		r := IB(t.n)
		for i, a := range as {
			r = Add(r, Mul(a, IB(t.coefs[i])))
		}
		return r
	case "*":
		return Mul(as[0], as[1])
	case "div":
		return DivE(as[0], as[1])
	case "mod":
		return ModE(as[0], as[1])
	case "=":
		return Eq(as[0], as[1])
	case "<=":
		return Le(as[0], as[1])
	case "not":
		return Not(as[0])
	case "and":
		return And(as...)
	case "or":
		return Or(as...)
	case "=>":
		return Imp(as[0], as[1])
	case "ite":
		return Ite(as[0], as[1], as[2])
	case "select":
		return Select(as[0], as[1])
	case "store":
		return Store(as[0], as[1], as[2])
	case "constarr":
		return ConstArr(as[0])
	case "app":
		return App(t.name, t.sort, as...)
	case "forall", "exists":
		ps := make([]*Term, len(t.pats))
		for i, p := range t.pats {
			ps[i] = f(p)
		}
		return quant(t.op, t.bv, as[0], ps)
	}
	if t.op == "pat" || t.op == "alt" {
		return TT.mk(&Term{op: t.op, sort: t.op, args: as})
	}
	panic("rebuild " + t.op)
}

// ---- printing ----

func smtName(s string) string {
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '!' || r == '@') {
			return "|" + s + "|"
		}
	}
	return s
}

func intStr(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

type printer struct {
	names map[*Term]string
}

func (p *printer) str(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	return p.raw(t)
}
func (p *printer) raw(t *Term) string {
	switch t.op {
	case "int":
		return intStr(t.n)
	case "bool":
		return t.name
	case "const", "bound":
		return smtName(t.name)
	case "+":
		var parts []string
		for i, a := range t.args {
			s := p.str(a)
			if t.coefs[i].Cmp(big.NewInt(1)) != 0 {
				s = "(* " + intStr(t.coefs[i]) + " " + s + ")"
			}
			parts = append(parts, s)
		}
		if t.n.Sign() != 0 {
			parts = append(parts, intStr(t.n))
		}
		if len(parts) == 1 {
			return parts[0]
		}
		return "(+ " + strings.Join(parts, " ") + ")"
	case "constarr":
		return "((as const " + t.sort + ") " + p.str(t.args[0]) + ")"
	case "app":
		if len(t.args) == 0 {
			return smtName(t.name)
		}
		return "(" + smtName(t.name) + " " + p.list(t.args) + ")"
	case "forall", "exists":
		var b strings.Builder
		b.WriteString("(" + t.op + " (")
		for _, v := range t.bv {
			b.WriteString("(" + smtName(v.name) + " " + v.sort + ")")
		}
		b.WriteString(") ")
		if len(t.pats) > 0 {
			b.WriteString("(! " + p.str(t.args[0]))
			if t.pats[0].op == "alt" {
				for _, a := range t.pats {
					b.WriteString(" :pattern (" + p.list(a.args) + ")")
				}
			} else {
				b.WriteString(" :pattern (" + p.list(t.pats) + ")")
			}
			b.WriteString(")")
		} else {
			b.WriteString(p.str(t.args[0]))
		}
		b.WriteString(")")
		return b.String()
	}
	if t.op == "pat" {
		return p.list(t.args)
	}
	return "(" + t.op + " " + p.list(t.args) + ")"
}
func (p *printer) list(ts []*Term) string {
	ss := make([]string, len(ts))
	for i, a := range ts {
		ss[i] = p.str(a)
	}
	return strings.Join(ss, " ")
}

func (t *Term) String() string { return (&printer{}).str(t) }

// Script renders assertions as an SMT-LIB script body (declarations + asserts).
func Script(asserts []*Term) string { return scriptFor(asserts, nil) }

// scriptFor: the base assertions and, for each further set, a scope of its own with a check.
func scriptFor(asserts []*Term, sets [][]*Term) string {
	count := map[*Term]int{}
	var order []*Term
	consts := map[string]string{}
	funs := map[string]string{}
	var visit func(t *Term)
	visit = func(t *Term) {
		count[t]++
		if count[t] > 1 {
			return
		}
		for _, a := range t.args {
			visit(a)
		}
		for _, a := range t.pats {
			visit(a)
		}
		if t.op == "const" {
			consts[t.name] = t.sort
		}
		if t.op == "app" {
			funs[t.name] = TT.funs[t.name]
		}
		order = append(order, t)
	}
	for _, a := range asserts {
		visit(a)
	}
	for _, as := range sets {
		for _, a := range as {
			visit(a)
		}
	}
	var b strings.Builder
	var names []string
	for n := range consts {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fmt.Fprintf(&b, "(declare-fun %s () %s)\n", smtName(n), consts[n])
	}
	names = nil
	for n := range funs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fmt.Fprintf(&b, "(declare-fun %s %s)\n", smtName(n), funs[n])
	}
	p := &printer{names: map[*Term]string{}}
	k := 0
	for _, t := range order {
		if count[t] > 1 && len(t.args) > 0 && !t.hasB {
			k++
			nm := fmt.Sprintf("?t%d", k)
			fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", nm, t.sort, p.raw(t))
			p.names[t] = nm
		}
	}
	for _, a := range asserts {
		fmt.Fprintf(&b, "(assert %s)\n", p.str(a))
	}
	for i, as := range sets {
		b.WriteString("(push)\n")
		for _, a := range as {
			fmt.Fprintf(&b, "(assert %s)\n", p.str(a))
		}
		fmt.Fprintf(&b, "(echo \"job %d\")\n(check-sat)\n(pop)\n", i)
	}
	return b.String()
}
