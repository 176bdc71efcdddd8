package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) doCall(st *State, cc *ssa.CallCommon, v *ssa.Call, k K) {
	var args []Val
	for _, a := range cc.Args {
		av := x.get(st, a)
		if av.typ == nil || av.tuple == nil {
			av.typ = a.Type()
		}
		args = append(args, av)
	}
	if cc.IsInvoke() {
		recv := x.get(st, cc.Value)
		x.invoke(st, cc, recv, args, k)
		return
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		x.builtin(st, b.Name(), args, v, k)
		return
	}
	if f := cc.StaticCallee(); f != nil {
		var bind []Val
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			bind = x.get(st, mc).fn.bind
		}
		x.callStatic(st, f, args, bind, k)
		return
	}
	fv := x.get(st, cc.Value)
	x.callFuncVal(st, fv, args, cc.Signature(), k)
}

func (x *Exec) callFuncVal(st *State, fv Val, args []Val, sig *types.Signature, k K) {
	if fv.fn == nil && fv.ts != nil {
		if f, ok := x.w.funOf[fv.ts[0]]; ok {
			fv.fn = f
		}
	}
	if fv.fn != nil {
		x.callStatic(st, fv.fn.fn, args, fv.fn.bind, k)
		return
	}
	if fv.ts != nil && fv.ts[0].op == "ite" && iteLeavesConst(fv.ts[0]) {
		t := fv.ts[0]
		s2 := st.clone()
		if x.feasible(st, t.args[0]) {
			st.assume(t.args[0])
			x.callFuncVal(st, Val{typ: fv.typ, ts: []*Term{t.args[1]}}, args, sig, k)
		}
		if x.feasible(s2, Not(t.args[0])) {
			s2.assume(Not(t.args[0]))
			x.callFuncVal(s2, Val{typ: fv.typ, ts: []*Term{t.args[2]}}, args, sig, k)
		}
		return
	}
	if fv.ts != nil && fv.ts[0] == I(0) {
		x.safe(st, "nil-func", False)
		return
	}
	// contract on the function type
	key := "functype:" + tname(fv.typ)
	if c := x.w.db.contracts[key]; c != nil {
		x.safe(st, "nil-func", Ne(fv.ts[0], I(0)))
		var ptypes []types.Type
		for i := 0; i < sig.Params().Len(); i++ {
			ptypes = append(ptypes, sig.Params().At(i).Type())
		}
		x.used["function type contract "+key] = true
		x.callContract(st, c, nil, append([]Val{fv}, args...), sig, k)
		return
	}
	x.unsupported("call of unknown function value %v (%v)", fv.ts, fv.typ)
}

func (x *Exec) invoke(st *State, cc *ssa.CallCommon, recv Val, args []Val, k K) {
	it := cc.Value.Type()
	key := tname(it) + "." + cc.Method.Name()
	if recv.ts[0].isInt() {
		tag := recv.ts[0].n.Int64()
		if tag == 0 {
			x.safe(st, "nil-iface", False)
			return
		}
		t := x.w.tagTypes[tag]
		f := x.w.prog.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name())
		if f != nil && (len(f.Blocks) > 0 || x.w.contractFor(f) != nil) {
			var r Val
			switch t.Underlying().(type) {
			case *types.Pointer, *types.Map, *types.Signature:
				r = x.reify(Val{typ: t, ts: []*Term{recv.ts[1]}})
			default:
				if b, ok := x.w.boxed[recv.ts[1]]; ok {
					r = b
				} else {
					r = x.freshVal(st, t, "unboxed")
				}
			}
			x.callStatic(st, f, append([]Val{r}, args...), nil, k)
			return
		}
	}
	if c := x.w.db.contracts[key]; c != nil {
		x.safe(st, "nil-iface", Ne(recv.ts[0], I(0)))
		x.used["interface contract "+key] = true
		recv.typ = it
		x.callContract(st, c, nil, append([]Val{recv}, args...), cc.Signature(), k)
		return
	}
	if x.w.isPureExt("iface:"+key) || x.w.isPureExt("iface:"+types.TypeString(it, nil)+"."+cc.Method.Name()) {
		x.arbitrary(st, cc.Signature().Results(), cc.Method.Name(), k)
		return
	}
	x.unsupported("interface call %s without contract", key)
}

func (x *Exec) arbitrary(st *State, rt *types.Tuple, hint string, k K) {
	var res []Val
	for i := 0; i < rt.Len(); i++ {
		res = append(res, x.freshVal(st, rt.At(i).Type(), "ret_"+hint))
	}
	k(st, res)
}

func (x *Exec) callStatic(st *State, f *ssa.Function, args []Val, bind []Val, k K) {
	c := x.w.contractFor(f)
	if c != nil && !c.inline && !(f == x.fn && false) {
		x.used[c.key] = true
		x.callContract(st, c, f, args, f.Signature, k)
		return
	}
	if len(f.Blocks) == 0 {
		if x.w.isPureExt(f.String()) {
			x.arbitrary(st, f.Signature.Results(), f.Name(), k)
			return
		}
		x.unsupported("external function %s without contract", f)
	}
	if x.w.isPureExt(f.String()) {
		x.arbitrary(st, f.Signature.Results(), f.Name(), k)
		return
	}
	x.inlined[fnKey(f)] = true
	x.callFn(st, f, args, bind, k)
}

type modTarget struct {
	key  string
	sort string
	idx  []*Term
	ref  *Term
	elem bool // elems(): the whole inner array
	all  bool
}

func (x *Exec) modTargets(c *Contract, env *SpecEnv) []modTarget {
	var out []modTarget
	for _, m := range c.modifies {
		switch m.label {
		case "nothing":
		case "ghost":
			out = append(out, modTarget{key: "ghost:" + m.text, all: true, sort: ghostSort(x.w.db.ghosts[m.text])})
		case "all":
			t := x.w.lookupType(env.pkgT, m.text)
			if t == nil {
				panic(unsupported("modifies all(" + m.text + ")"))
			}
			if sl, ok := t.Underlying().(*types.Slice); ok {
				for _, l := range leavesOf(sl.Elem()) {
					out = append(out, modTarget{key: "[]" + tname(sl.Elem()) + l.path, all: true, sort: nestSort(2, l.sort)})
				}
				continue
			}
			k, _ := rootKey(t)
			for _, l := range leavesOf(t) {
				out = append(out, modTarget{key: k + l.path, all: true, sort: nestSort(1, l.sort)})
			}
		case "obj", "field":
			var p *Place
			if m.label == "obj" {
				v := env.eval(m.e)
				if v.place != nil {
					p = v.place
				} else {
					el, ok := isPtrTo(v.typ)
					if !ok {
						panic(unsupported("modifies " + m.text))
					}
					p = derefPlace(el, v.ts[0])
				}
			} else {
				p = env.placeOf(m.e)
			}
			for _, l := range leavesOf(p.typ) {
				t := modTarget{key: p.key + l.path, sort: nestSort(len(p.idx), l.sort), idx: p.idx}
				if len(p.idx) > 0 {
					t.ref = p.idx[0]
				} else {
					t.all = true
				}
				out = append(out, t)
			}
		case "elems":
			v := env.eval(m.e)
			sl := v.typ.Underlying().(*types.Slice)
			v.ts = append([]*Term{}, v.ts...)
			if m.e.op == "field" { // nothing is behind a nil pointer
				b := env.eval(m.e.args[0])
				if _, ok := isPtrTo(b.typ); ok && b.place == nil && len(b.ts) == 1 {
					v.ts[0] = Ite(Eq(b.ts[0], I(0)), I(0), v.ts[0])
				}
			}
			for _, l := range leavesOf(sl.Elem()) {
				out = append(out, modTarget{key: "[]" + tname(sl.Elem()) + l.path, sort: nestSort(2, l.sort), idx: []*Term{v.ts[0]}, ref: v.ts[0], elem: true})
			}
		case "map":
			v := env.eval(m.e)
			mt := v.typ.Underlying().(*types.Map)
			key := mapKey(v.typ)
			out = append(out, modTarget{key: key + "#dom", sort: ArrSort(ArrSort(SBool)), idx: []*Term{v.ts[0]}, ref: v.ts[0], elem: true})
			for _, l := range leavesOf(mt.Elem()) {
				out = append(out, modTarget{key: key + l.path, sort: ArrSort(ArrSort(l.sort)), idx: []*Term{v.ts[0]}, ref: v.ts[0], elem: true})
			}
		}
	}
	return out
}
func ghostSort(t string) string { return sortOf(t) }

func (e *SpecEnv) placeOf(s *SExpr) *Place {
	switch s.op {
	case "field":
		v := e.eval(s.args[0])
		el, ok := isPtrTo(v.typ)
		var p *Place
		if ok {
			p = v.place
			if p == nil {
				p = derefPlace(el, v.ts[0])
			}
		} else {
			p = e.placeOf(s.args[0])
		}
		st := p.typ.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == s.s {
				return fieldPlace(p, i)
			}
		}
	case "un":
		v := e.eval(s.args[0])
		el, _ := isPtrTo(v.typ)
		if v.place != nil {
			return v.place
		}
		return derefPlace(el, v.ts[0])
	case "ident":
		if e.pkgT != nil {
			if v, ok := e.x.w.pkgMember(e.pkgT, s.s); ok && v.place != nil {
				return v.place
			}
		}
	}
	e.fail("not a place: %s %s", s.op, s.s)
	return nil
}

// callContract: assert requires, havoc modifies, assume ensures.
func (x *Exec) callContract(st *State, c *Contract, f *ssa.Function, args []Val, sig *types.Signature, k K) {
	env := x.specEnv(st)
	env.lets = c.lets
	env.params = map[string]Val{}
	env.locals = nil
	if f != nil {
		for i, p := range f.Params {
			a := args[i]
			a.typ = p.Type()
			env.params[p.Name()] = a
			env.params[fmt.Sprintf("$%d", i)] = a
		}
		if f.Pkg != nil {
			env.pkgT = f.Pkg.Pkg
		}
	} else {
		for i, n := range c.params {
			if i < len(args) {
				env.params[n] = args[i]
			}
		}
	}
	for i, n := range c.params {
		if i < len(args) {
			env.params[n] = args[i]
		}
	}
	pre := st.heap.clone()
	env.heap = st.heap
	env.oldHeap = pre
	env.alloc = st.alloc
	short := c.key
	if len(st.frames) > 1 {
		short += "@" + st.top().fn.Name()
	}
	// receiver non-nil
	if f != nil && f.Signature.Recv() != nil && len(args) > 0 && !c.trusted {
		if _, ok := isPtrTo(f.Params[0].Type()); ok && args[0].place == nil {
			x.assert(st, "call:"+short+":recv-non-nil", Ne(args[0].ts[0], I(0)))
		}
	}
	for i, r := range c.requires {
		lab := r.label
		if lab == "" {
			lab = fmt.Sprint(i)
		}
		x.assert(st, "call:"+short+":pre:"+lab, env.evalBool(r.e))
	}
	if c.panics != nil {
		pc := env.evalBool(c.panics.e)
		if x.c.panics != nil && !x.trustBody { // the panic is passed on
			x.assert(st, "call:"+short+":no-panic", Imp(pc, x.preEnv(st).evalBool(x.c.panics.e)))
			st.assume(Not(pc))
		} else {
			x.assert(st, "call:"+short+":no-panic", Not(pc))
		}
	}
	if st.dead() {
		return
	}
	// modifies
	for _, m := range x.modTargets(c, env) {
		h := x.heapGet(st.heap, m.key, m.sort)
		x.record(m.key, m.idx, m.sort)
		if m.all {
			if len(m.idx) == 0 {
				x.record(m.key, []*Term{Fresh("any", SInt)}, m.sort)
			}
			st.heap[m.key] = Fresh("mod:"+m.key, m.sort)
			continue
		}
		s := m.sort
		for range m.idx {
			s = ElemSort(s)
		}
		st.heap[m.key] = nestedStore(h, m.idx, Fresh("mod:"+m.key, s))
	}
	na := Fresh("alloc", SInt)
	st.assume(Le(st.alloc, na))
	st.alloc = na
	if c.aborts != nil { // the call may panic instead of returning
		st3 := st.clone()
		env3 := *env
		env3.st = st3
		env3.heap = st3.heap
		env3.oldHeap = pre
		st3.assume(env3.evalBool(c.aborts.e))
		if !st3.dead() {
			x.doPanic(st3, "abort:"+short)
		}
	}
	env2 := *env
	env2.heap = st.heap
	env2.oldHeap = pre
	rt := sig.Results()
	var res []Val
	for i := 0; i < rt.Len(); i++ {
		res = append(res, x.freshVal(st, rt.At(i).Type(), "r_"+c.key))
	}
	env2.results = res
	env2.resN = c.results
	if f != nil && len(c.results) == 0 {
		for i := 0; i < rt.Len(); i++ {
			env2.resN = append(env2.resN, rt.At(i).Name())
		}
	}
	for _, en := range c.ensures {
		if strings.HasPrefix(en.label, "_") { // an intermediate step of the proof
			continue
		}
		st.assume(env2.evalBool(en.e))
	}
	for _, en := range c.admits {
		st.assume(env2.evalBool(en.e))
		x.used["ASSUMED about the result of "+c.key+": "+en.text] = true
	}
	if c.trusted {
		x.used["TRUSTED "+c.key] = true
	}
	for i := range res {
		res[i] = x.reify(res[i])
	}
	k(st, res)
}

func (x *Exec) builtin(st *State, name string, args []Val, v *ssa.Call, k K) {
	one := func(r Val) { k(st, []Val{r}) }
	switch name {
	case "len", "cap":
		a := args[0]
		switch u := a.typ.Underlying().(type) {
		case *types.Slice:
			i := 2
			if name == "cap" {
				i = 3
			}
			one(IV(a.ts[i]))
			return
		case *types.Basic:
			one(IV(a.ts[2]))
			return
		case *types.Array:
			one(IV(I(u.Len())))
			return
		case *types.Pointer:
			one(IV(I(u.Elem().Underlying().(*types.Array).Len())))
			return
		case *types.Map:
			r := x.freshVal(st, intT, "maplen")
			st.assume(Le(I(0), r.ts[0]))
			one(r)
			return
		}
	case "copy":
		n := x.doCopy(st, args[0], args[1])
		one(IV(n))
		return
	case "append":
		x.doAppend(st, args[0], args[1], k)
		return
	case "print", "println":
		k(st, nil)
		return
	case "delete":
		m := args[0]
		key := mapKey(m.typ)
		idx := []*Term{m.ts[0], x.mapKeyTerm(args[1])}
		s := ArrSort(ArrSort(SBool))
		x.record(key+"#dom", idx, s)
		st.heap[key+"#dom"] = nestedStore(x.heapGet(st.heap, key+"#dom", s), idx, False)
		k(st, nil)
		return
	case "ssa:wrapnilchk":
		one(args[0])
		return
	case "min", "max":
		a, b := args[0].ts[0], args[1].ts[0]
		if name == "min" {
			one(IV(Ite(Le(a, b), a, b)))
		} else {
			one(IV(Ite(Le(a, b), b, a)))
		}
		return
	}
	x.unsupported("builtin %s", name)
}

func constInt(t *Term) (int64, bool) {
	if t.isInt() && t.n.IsInt64() {
		return t.n.Int64(), true
	}
	return 0, false
}

// copyRange produces dst array equal to dst0 except dst[do+j] = src[so+j] for 0<=j<n
func (x *Exec) copyRange(st *State, dst0, src, do, so, n *Term) *Term {
	if c, ok := constInt(n); ok && c <= 40 {
		r := dst0
		var vs []*Term
		for j := int64(0); j < c; j++ {
			vs = append(vs, Select(src, Add(so, I(j))))
		}
		for j := int64(0); j < c; j++ {
			r = Store(r, Add(do, I(j)), vs[j])
		}
		return r
	}
	r := Fresh("copied", dst0.sort)
	j := Bound("j", SInt)
	in := And(Le(do, j), Lt(j, Add(do, n)))
	st.assume(Forall([]*Term{j}, Eq(Select(r, j), Ite(in, Select(src, Add(so, Sub(j, do))), Select(dst0, j))), Select(r, j)))
	return r
}

func (x *Exec) doCopy(st *State, d, s Val) *Term {
	d.ts = append([]*Term{}, d.ts...)
	d.ts[1] = x.normOff(st, d.ts[1])
	s.ts = append([]*Term{}, s.ts...)
	s.ts[1] = x.normOff(st, s.ts[1])
	n := Ite(Le(d.ts[2], s.ts[2]), d.ts[2], s.ts[2])
	if st.pcset[Le(d.ts[2], s.ts[2])] {
		n = d.ts[2]
	} else if !x.feasible(st, Not(Le(d.ts[2], s.ts[2]))) {
		n = d.ts[2]
	} else if !x.feasible(st, Lt(d.ts[2], s.ts[2])) {
		n = s.ts[2]
	}
	el := d.typ.Underlying().(*types.Slice).Elem()
	if bt, ok := s.typ.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		key := "[]" + tname(el)
		srt := nestSort(2, SInt)
		h := x.heapGet(st.heap, key, srt)
		r := Fresh("copied", ArrSort(SInt))
		dst0 := Select(h, d.ts[0])
		j := Bound("j", SInt)
		in := And(Le(d.ts[1], j), Lt(j, Add(d.ts[1], n)))
		st.assume(Forall([]*Term{j}, Eq(Select(r, j), Ite(in, strByte(s.ts[0], Add(s.ts[1], Sub(j, d.ts[1]))), Select(dst0, j))), Select(r, j)))
		x.record(key, []*Term{d.ts[0]}, srt)
		st.heap[key] = Store(h, d.ts[0], r)
		return n
	}
	for _, l := range leavesOf(el) {
		key := "[]" + tname(el) + l.path
		srt := nestSort(2, l.sort)
		h := x.heapGet(st.heap, key, srt)
		r := x.copyRange(st, Select(h, d.ts[0]), Select(h, s.ts[0]), d.ts[1], s.ts[1], n)
		x.record(key, []*Term{d.ts[0]}, srt)
		st.heap[key] = Store(h, d.ts[0], r)
	}
	return n
}

func (x *Exec) doAppend(st *State, s, t Val, k K) {
	el := s.typ.Underlying().(*types.Slice).Elem()
	isStr := false
	if bt, ok := t.typ.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		isStr = true
	}
	n := t.ts[2]
	if c, ok := constInt(n); ok && c == 0 && !isStr {
		k(st, []Val{s})
		return
	}
	s.ts = append([]*Term{}, s.ts...)
	s.ts[1] = x.normOff(st, s.ts[1])
	t.ts = append([]*Term{}, t.ts...)
	t.ts[1] = x.normOff(st, t.ts[1])
	newLen := Add(s.ts[2], n)
	inplace := Le(newLen, s.ts[3])
	write := func(s2 *State, arr, off *Term) {
		for _, l := range leavesOf(el) {
			key := "[]" + tname(el) + l.path
			srt := nestSort(2, l.sort)
			h := x.heapGet(s2.heap, key, srt)
			var r *Term
			if isStr {
				r = Fresh("copied", ArrSort(SInt))
				j := Bound("j", SInt)
				lo := Add(off, s.ts[2])
				in := And(Le(lo, j), Lt(j, Add(lo, n)))
				s2.assume(Forall([]*Term{j}, Eq(Select(r, j), Ite(in, strByte(t.ts[0], Add(t.ts[1], Sub(j, lo))), Select(Select(h, arr), j))), Select(r, j)))
			} else {
				r = x.copyRange(s2, Select(h, arr), Select(h, t.ts[0]), Add(off, s.ts[2]), t.ts[1], n)
			}
			x.record(key, []*Term{arr}, srt)
			s2.heap[key] = Store(h, arr, r)
		}
	}
	f1 := x.feasible(st, inplace)
	f2 := !f1 || x.feasible(st, Not(inplace))
	if f1 {
		s2 := st
		if f2 {
			s2 = st.clone()
		}
		s2.assume(inplace)
		write(s2, s.ts[0], s.ts[1])
		k(s2, []Val{{typ: s.typ, ts: []*Term{s.ts[0], s.ts[1], newLen, s.ts[3]}}})
	}
	if f2 {
		st.assume(Not(inplace))
		ncap := Fresh("cap", SInt)
		st.assume(Le(newLen, ncap))
		st.assume(Le(ncap, maxLen))
		r := x.newSlice(st, el, newLen, ncap)
		for _, l := range leavesOf(el) {
			key := "[]" + tname(el) + l.path
			srt := nestSort(2, l.sort)
			h := x.heapGet(st.heap, key, srt)
			c := x.copyRange(st, Select(h, r.ts[0]), Select(h, s.ts[0]), I(0), s.ts[1], s.ts[2])
			st.heap[key] = Store(h, r.ts[0], c)
		}
		write(st, r.ts[0], I(0))
		k(st, []Val{{typ: s.typ, ts: r.ts}})
	}
}

func isTracing(s string) bool { return strings.Contains(s, "schuko/tracing") }
