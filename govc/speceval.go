package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type SpecEnv struct {
	x       *Exec
	st      *State
	heap    Heap
	oldHeap Heap
	alloc   *Term
	params  map[string]Val
	locals  map[string]Val
	results []Val
	resN    []string
	bound   map[string]Val
	lets    []Clause
	frame   *Frame
	pkg     *ssa.Function
	pkgT    *types.Package
	lp      *loopInfo
	loopHp  Heap
	loopAlc *Term
	useOld  bool
	depth   int
	inQ     bool
}

var intT = types.Typ[types.Int]
var boolT = types.Typ[types.Bool]

func IV(t *Term) Val { return Val{typ: intT, ts: []*Term{t}} }
func BV(t *Term) Val { return Val{typ: boolT, ts: []*Term{t}} }

func (x *Exec) specEnv(st *State) *SpecEnv {
	e := &SpecEnv{x: x, st: st, heap: st.heap, oldHeap: x.entryHp, alloc: x.entryAlc, bound: map[string]Val{}, pkg: x.fn, lets: x.c.lets}
	if x.fn != nil && x.fn.Pkg != nil {
		e.pkgT = x.fn.Pkg.Pkg
	}
	return e
}

// preEnv evaluates in the pre-state of the function under verification
func (x *Exec) preEnv(st *State) *SpecEnv {
	e := x.specEnv(st)
	e.params = x.params
	e.heap = x.entryHp
	return e
}

type missingIdent struct{ name string }

func (e *SpecEnv) fail(f string, a ...interface{}) {
	panic(unsupported("spec: " + fmt.Sprintf(f, a...)))
}

func (e *SpecEnv) evalBool(s *SExpr) *Term {
	v := e.eval(s)
	if len(v.ts) != 1 || v.ts[0].sort != SBool {
		e.fail("boolean expected in %s", s.op)
	}
	return v.ts[0]
}
func (e *SpecEnv) evalInt(s *SExpr) *Term {
	v := e.flat(e.eval(s))
	if len(v.ts) != 1 || v.ts[0].sort != SInt {
		e.fail("int expected, got %v (%s %s)", v.typ, s.op, s.s)
	}
	return v.ts[0]
}
func (e *SpecEnv) flat(v Val) Val { return e.x.flat(v) }

func (e *SpecEnv) sub() *SpecEnv { n := *e; return &n }

func (e *SpecEnv) loadP(p *Place) Val {
	if g := e.x.w.constGlobal(p); g != nil {
		return *g
	}
	return e.x.reify(e.x.loadH(e.st, e.heap, p))
}

func (e *SpecEnv) ident(s string) Val {
	if v, ok := e.bound[s]; ok {
		return v
	}
	switch s {
	case "true":
		return BV(True)
	case "false":
		return BV(False)
	case "nil":
		return Val{typ: types.Typ[types.UntypedNil], ts: []*Term{I(0)}, isNilC: true}
	case "$i":
		return e.induction()
	case "result":
		if len(e.results) == 1 {
			return e.results[0]
		}
	}
	if strings.HasPrefix(s, "result") && e.results != nil {
		if n, err := strconv.Atoi(s[6:]); err == nil && n < len(e.results) {
			return e.results[n]
		}
	}
	for i, n := range e.resN {
		if n == s && i < len(e.results) {
			return e.results[i]
		}
	}
	if e.locals != nil {
		if v, ok := e.locals[s]; ok {
			return v
		}
		if v, ok := e.locals["&"+s]; ok && v.place != nil {
			return e.loadP(v.place)
		}
	}
	if v, ok := e.params[s]; ok {
		return v
	}
	for _, l := range e.lets {
		if l.label == s {
			e2 := e.sub()
			e2.heap = e.oldHeap
			e2.locals = nil
			e2.results = nil
			return e2.eval(l.e)
		}
	}
	if t, ok := e.x.w.db.ghosts[s]; ok {
		sort := SInt
		if t == "bool" {
			sort = SBool
		} else if t == "arr" {
			sort = ArrSort(SInt)
		} else if t == "arrb" {
			sort = ArrSort(SBool)
		} else if t == "arr2" {
			sort = ArrSort(ArrSort(SInt))
		}
		tm := e.x.heapGet(e.heap, "ghost:"+s, sort)
		v := Val{ts: []*Term{tm}}
		if sort == SInt {
			v.typ = intT
		} else if sort == SBool {
			v.typ = boolT
		}
		return v
	}
	if e.pkgT != nil {
		if v, ok := e.x.w.pkgMember(e.pkgT, s); ok {
			if v.place != nil {
				return e.loadP(v.place)
			}
			return v
		}
	}
	if e.locals != nil && e.x.roleMap != nil {
		if r, ok := e.x.roleMap[s]; ok {
			if v, ok := e.locals[r]; ok {
				return v
			}
		}
	}
	panic(missingIdent{s})
}

func (e *SpecEnv) induction() Val {
	if e.lp == nil {
		e.fail("$i outside a loop")
	}
	for _, in := range e.lp.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if p.Comment == "rangeindex" {
			v := e.frame.env[p]
			return IV(Add(v.ts[0], I(1)))
		}
	}
	for _, in := range e.lp.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if b, ok := p.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		good := true
		for i, ed := range p.Edges {
			if !e.lp.body[p.Block().Preds[i]] {
				continue
			}
			bo, ok := ed.(*ssa.BinOp)
			if !ok || bo.X != ssa.Value(p) {
				good = false
				break
			}
			c, ok := bo.Y.(*ssa.Const)
			if !ok || c.Value == nil || (c.Value.String() != "1" && c.Value.String() != "-1") {
				good = false
			}
		}
		if good {
			return e.frame.env[p]
		}
	}
	e.fail("no induction variable")
	return Val{}
}

func (e *SpecEnv) autoDeref(v Val) Val {
	if v.typ != nil {
		if el, ok := isPtrTo(v.typ); ok {
			p := v.place
			if p == nil {
				p = derefPlace(el, v.ts[0])
			}
			return e.loadP(p)
		}
	}
	return v
}

func (e *SpecEnv) field(v Val, name string) Val {
	if v.typ == nil {
		e.fail("field %s of logical value", name)
	}
	if el, ok := isPtrTo(v.typ); ok {
		st, ok := el.Underlying().(*types.Struct)
		if !ok {
			e.fail("field %s of %v", name, v.typ)
		}
		p := v.place
		if p == nil {
			p = derefPlace(el, v.ts[0])
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				fp := fieldPlace(p, i)
				if _, isA := fp.typ.Underlying().(*types.Array); isA {
					r := e.loadP(fp)
					return r
				}
				r := e.loadP(fp)
				return r
			}
		}
		e.fail("no field %s in %v", name, el)
	}
	st, ok := v.typ.Underlying().(*types.Struct)
	if !ok {
		e.fail("field %s of %v", name, v.typ)
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return e.x.reify(subVal(e.flat(v), i))
		}
	}
	e.fail("no field %s in %v", name, v.typ)
	return Val{}
}

func (e *SpecEnv) index(v Val, i Val) Val {
	if v.typ == nil { // logical array
		t := Select(v.ts[0], i.ts[0])
		r := Val{ts: []*Term{t}}
		if t.sort == SInt {
			r.typ = intT
		} else if t.sort == SBool {
			r.typ = boolT
		}
		return r
	}
	switch u := v.typ.Underlying().(type) {
	case *types.Slice:
		return e.loadP(sliceElemPlace(u.Elem(), v.ts[0], Add(e.x.normOff(e.st, v.ts[1]), i.ts[0])))
	case *types.Array:
		r := Val{typ: u.Elem()}
		for _, t := range v.ts {
			r.ts = append(r.ts, Select(t, i.ts[0]))
		}
		return r
	case *types.Basic:
		return Val{typ: types.Typ[types.Uint8], ts: []*Term{e.x.strByteAt(e.st, v, i.ts[0])}}
	case *types.Map:
		_, val := e.x.mapGet(e.st, e.heap, v, u, i)
		return val
	}
	e.fail("index of %v", v.typ)
	return Val{}
}

func (e *SpecEnv) eval(s *SExpr) Val {
	e.depth++
	switch s.op {
	case "int":
		n, ok := new(big.Int).SetString(s.n, 0)
		if !ok {
			e.fail("int %s", s.n)
		}
		return IV(IB(n))
	case "str":
		return e.x.w.strConst(s.s, types.Typ[types.String])
	case "ident":
		return e.ident(s.s)
	case "old":
		e2 := e.sub()
		e2.heap = e.oldHeap
		return e2.eval(s.args[0])
	case "field":
		if s.args[0].op == "ident" {
			nm := s.args[0].s
			if !e.known(nm) {
				if pk := e.x.w.importedPkg(e.pkgT, nm); pk != nil {
					if v, ok := e.x.w.pkgMember(pk, s.s); ok {
						if v.place != nil {
							return e.loadP(v.place)
						}
						return v
					}
					e.fail("no member %s.%s", nm, s.s)
				}
			}
		}
		return e.field(e.eval(s.args[0]), s.s)
	case "index":
		return e.index(e.eval(s.args[0]), e.flat(e.eval(s.args[1])))
	case "cond":
		c := e.evalBool(s.args[0])
		a, b := e.flat(e.eval(s.args[1])), e.flat(e.eval(s.args[2]))
		return iteVal(c, a, b)
	case "un":
		switch s.s {
		case "!":
			return BV(Not(e.evalBool(s.args[0])))
		case "-":
			return IV(Neg(e.evalInt(s.args[0])))
		case "*":
			return e.autoDeref(e.eval(s.args[0]))
		}
	case "bin":
		switch s.s {
		case "&&":
			a := e.evalBool(s.args[0])
			if a == False {
				return BV(False)
			}
			return BV(And(a, e.evalBool(s.args[1])))
		case "||":
			a := e.evalBool(s.args[0])
			if a == True {
				return BV(True)
			}
			return BV(Or(a, e.evalBool(s.args[1])))
		case "==>":
			a := e.evalBool(s.args[0])
			if a == False {
				return BV(True)
			}
			return BV(Imp(a, e.evalBool(s.args[1])))
		case "<==>":
			return BV(Eq(e.evalBool(s.args[0]), e.evalBool(s.args[1])))
		case "==", "!=":
			a, b := e.flat(e.eval(s.args[0])), e.flat(e.eval(s.args[1]))
			var r *Term
			switch {
			case a.isNilC && !b.isNilC:
				r = Eq(b.ts[0], I(0))
			case b.isNilC && !a.isNilC:
				r = Eq(a.ts[0], I(0))
			default:
				if a.typ != nil {
					if bt, ok := a.typ.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
						r = e.x.strEq(e.st, a, b)
						break
					}
				}
				r = valEq(a, b)
			}
			if s.s == "!=" {
				r = Not(r)
			}
			return BV(r)
		}
		a, b := e.evalInt(s.args[0]), e.evalInt(s.args[1])
		switch s.s {
		case "+":
			return IV(Add(a, b))
		case "-":
			return IV(Sub(a, b))
		case "*":
			return IV(Mul(a, b))
		case "/":
			return IV(truncDiv(a, b))
		case "%":
			return IV(truncMod(a, b))
		case "<":
			return BV(Lt(a, b))
		case "<=":
			return BV(Le(a, b))
		case ">":
			return BV(Gt(a, b))
		case ">=":
			return BV(Ge(a, b))
		}
	case "quant":
		e2 := e.sub()
		e2.inQ = true
		e2.bound = map[string]Val{}
		for k, v := range e.bound {
			e2.bound[k] = v
		}
		var vars []*Term
		var facts []*Term
		for _, v := range s.vars {
			bctr++
			sort := SInt
			if v.typ == "bool" {
				sort = SBool
			} else if v.typ == "arr" {
				sort = ArrSort(SInt)
			} else if v.typ == "arrb" {
				sort = ArrSort(SBool)
			}
			nm := fmt.Sprintf("%s_%d", v.name, e.qdepth(s))
			bt := Bound(nm, sort)
			vars = append(vars, bt)
			bv := Val{typ: intT, ts: []*Term{bt}}
			if sort == SBool {
				bv.typ = boolT
			} else if sort != SInt {
				bv.typ = nil
			} else if v.typ != "int" && v.typ != "ref" {
				if t := e.x.w.lookupType(e.pkgT, v.typ); t != nil {
					bv.typ = t
					facts = append(facts, typeFacts(bv, nil)...)
				} else {
					e.fail("unknown type %s", v.typ)
				}
			}
			e2.bound[v.name] = bv
		}
		body := e2.evalBool(s.args[0])
		var pats []*Term
		for _, p := range s.pats {
			if p.op == "pat" {
				g := &Term{op: "pat", sort: "pat"}
				for _, q := range p.args {
					g.args = append(g.args, e2.flat(e2.eval(q)).ts[0])
				}
				pats = append(pats, TT.mk(g))
				continue
			}
			pv := e2.flat(e2.eval(p))
			pats = append(pats, pv.ts[0])
		}
		if s.s == "forall" {
			return BV(Forall(vars, Imp(And(facts...), body), pats...))
		}
		return BV(Exists(vars, And(append(facts, body)...)))
	case "call":
		return e.call(s)
	}
	e.fail("cannot evaluate %s %s", s.op, s.s)
	return Val{}
}

func (e *SpecEnv) qdepth(s *SExpr) int { return len(e.bound) }

func (e *SpecEnv) known(n string) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(missingIdent); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	e.ident(n)
	return true
}

func (e *SpecEnv) call(s *SExpr) Val {
	callee := s.pats[0]
	if callee.op != "ident" {
		e.fail("call of non-identifier")
	}
	nm := callee.s
	arg := func(i int) Val { return e.eval(s.args[i]) }
	switch nm {
	case "len", "cap":
		v := arg(0)
		if v.typ == nil {
			e.fail("len of logical value")
		}
		switch u := v.typ.Underlying().(type) {
		case *types.Slice:
			if nm == "cap" {
				return IV(v.ts[3])
			}
			return IV(v.ts[2])
		case *types.Basic:
			return IV(v.ts[2])
		case *types.Array:
			return IV(I(u.Len()))
		}
		e.fail("len of %v", v.typ)
	case "arr":
		return IV(e.flat(arg(0)).ts[0])
	case "off":
		return IV(arg(0).ts[1])
	case "strid":
		return IV(arg(0).ts[0])
	case "ref":
		return IV(e.flat(arg(0)).ts[0])
	case "tag":
		return IV(arg(0).ts[0])
	case "val":
		return IV(arg(0).ts[1])
	case "mem": // mem(slice, field...) : content array of the slice's backing store
		v := arg(0)
		sl, ok := v.typ.Underlying().(*types.Slice)
		if !ok {
			e.fail("mem of %v", v.typ)
		}
		key := "[]" + tname(sl.Elem())
		want := ""
		for _, a := range s.args[1:] {
			want += "." + a.s
		}
		if len(s.args) > 1 && s.args[1].op == "str" {
			want = s.args[1].s
		}
		for _, l := range leavesOf(sl.Elem()) {
			if l.path == want {
				return Val{ts: []*Term{Select(e.x.heapGet(e.heap, key+l.path, nestSort(2, l.sort)), v.ts[0])}}
			}
		}
		e.fail("mem: no leaf %q in %v", want, sl.Elem())
	case "sel":
		return e.index(arg(0), arg(1))
	case "fresh":
		v := e.flat(arg(0))
		return BV(Le(e.alloc, v.ts[0]))
	case "freshref":
		return BV(Le(e.alloc, e.evalInt(s.args[0])))
	case "isalloc": // the reference exists by now (not to be used within old)
		return BV(Lt(e.evalInt(s.args[0]), e.st.alloc))
	case "loopfresh":
		v := e.flat(arg(0))
		return BV(Le(e.loopAlc, v.ts[0]))
	case "atloop":
		e2 := e.sub()
		e2.heap = e.loopHp
		return e2.eval(s.args[0])
	case "pre":
		if v, ok := e.params[s.args[0].s]; ok {
			return v
		}
		e.fail("pre(%s)", s.args[0].s)
	case "pow2":
		return BV(pow2(e.evalInt(s.args[0])))
	case "mod":
		return IV(ModE(e.evalInt(s.args[0]), e.evalInt(s.args[1])))
	case "min", "max", "abs":
		a := e.evalInt(s.args[0])
		switch nm {
		case "abs":
			return IV(Ite(Le(I(0), a), a, Neg(a)))
		case "min":
			b := e.evalInt(s.args[1])
			return IV(Ite(Le(a, b), a, b))
		}
		b := e.evalInt(s.args[1])
		return IV(Ite(Le(a, b), b, a))
	case "indom":
		m := arg(0)
		d, _ := e.x.mapGet(e.st, e.heap, m, m.typ.Underlying().(*types.Map), e.flat(arg(1)))
		return BV(d)
	case "typeis":
		v := arg(0)
		tn := s.args[1].s
		t := e.x.w.lookupType(e.pkgT, tn)
		if t == nil {
			e.fail("unknown type %s", tn)
		}
		return BV(Eq(v.ts[0], I(e.x.w.typeTag(t))))
	case "as": // as(iface, "*T")
		v := arg(0)
		t := e.x.w.lookupType(e.pkgT, s.args[1].s)
		if t == nil {
			e.fail("unknown type %s", s.args[1].s)
		}
		if len(v.ts) == 1 {
			return Val{typ: t, ts: []*Term{v.ts[0]}}
		}
		return Val{typ: t, ts: []*Term{v.ts[1]}}
	case "raw": // raw(a, "[]T"): the backing array a from its start
		t := e.x.w.lookupType(e.pkgT, s.args[1].s)
		if t == nil {
			e.fail("unknown type %s", s.args[1].s)
		}
		return Val{typ: t, ts: []*Term{e.evalInt(s.args[0]), I(0), I(0), I(0)}}
	case "streq":
		return BV(e.x.strEq(e.st, arg(0), arg(1)))
	case "decrune":
		v := arg(0)
		i := e.evalInt(s.args[1])
		return IV(App("decrune", SInt, v.ts[0], Add(v.ts[1], i), Add(v.ts[1], v.ts[2])))
	case "decwidth":
		v := arg(0)
		i := e.evalInt(s.args[1])
		return IV(App("decwidth", SInt, v.ts[0], Add(v.ts[1], i), Add(v.ts[1], v.ts[2])))
	case "byteat", "decruneat", "decwidthat":
		var ts []*Term
		for i := range s.args {
			ts = append(ts, e.evalInt(s.args[i]))
		}
		return IV(App(map[string]string{"byteat": "strbyte", "decruneat": "decrune", "decwidthat": "decwidth"}[nm], SInt, ts...))
	case "int", "rune", "charpos":
		return IV(e.evalInt(s.args[0]))
	case "wraps": // wraps(x, "uint16")
		t := e.x.w.lookupType(e.pkgT, s.args[1].s)
		return IV(wrapInt(e.evalInt(s.args[0]), t))
	}
	if m, ok := e.x.w.db.macros[nm]; ok {
		if len(s.args) != len(m.params) {
			e.fail("%s: wrong number of arguments", nm)
		}
		if m.opaque {
			return e.opaqueCall(m, s)
		}
		e2 := e.sub()
		e2.bound = map[string]Val{}
		if e.inQ {
			for k, v := range e.bound {
				if len(v.ts) == 1 && v.ts[0].op == "bound" {
					e2.bound["·"+k] = v // keeps binder depth distinct
				}
			}
		}
		for i, p := range m.params {
			e2.bound[p.name] = e.eval(s.args[i])
		}
		if t := e.x.w.pkgNamed(m.pkg); t != nil {
			e2.pkgT = t
		}
		return e2.eval(m.body)
	}
	if m, ok := e.x.w.db.logics[nm]; ok {
		var ts []*Term
		for i := range s.args {
			ts = append(ts, e.flat(e.eval(s.args[i])).ts...)
		}
		return e.logicApp(nm, m.ret, ts)
	}
	e.fail("unknown function %s", nm)
	return Val{}
}

func sortOf(t string) string {
	switch t {
	case "bool":
		return SBool
	case "arr":
		return ArrSort(SInt)
	case "arrb":
		return ArrSort(SBool)
	case "arr2":
		return ArrSort(ArrSort(SInt))
	}
	return SInt
}

func (e *SpecEnv) logicApp(nm, ret string, ts []*Term) Val {
	s := sortOf(ret)
	r := Val{ts: []*Term{App(nm, s, ts...)}}
	if s == SInt {
		r.typ = intT
	} else if s == SBool {
		r.typ = boolT
	}
	return r
}

func (e *SpecEnv) opaqueCall(m *Macro, s *SExpr) Val {
	var ts []*Term
	for i := range s.args {
		v := e.flat(e.eval(s.args[i]))
		if len(v.ts) != 1 {
			e.fail("opaque %s: argument %d must be scalar", m.name, i)
		}
		ts = append(ts, v.ts[0])
	}
	w := e.x.w
	if _, ok := w.defAx[m.name]; !ok {
		var vars []*Term
		e2 := &SpecEnv{x: e.x, bound: map[string]Val{}, heap: Heap{}, oldHeap: Heap{}, pkgT: e.pkgT, inQ: true}
		for i, p := range m.params {
			b := Bound(fmt.Sprintf("%s_p%d", p.name, i), sortOf(p.typ))
			vars = append(vars, b)
			v := Val{ts: []*Term{b}}
			if b.sort == SInt {
				v.typ = intT
			} else if b.sort == SBool {
				v.typ = boolT
			}
			e2.bound[p.name] = v
		}
		w.defAx[m.name] = True // guards recursion
		app := App(m.name, sortOf(m.ret), vars...)
		body := e2.eval(m.body)
		w.defAx[m.name] = Forall(vars, Eq(app, body.ts[0]), app)
	}
	return e.logicApp(m.name, m.ret, ts)
}
