package main

// Symbolic execution / verification condition generation over go/ssa.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Oblig struct {
	Name    string // function/kind:label
	Asserts []*Term
	Goal    *Term
	Pos     string
	Path    int
	Res     Result
	Trivial bool
	ParamTs map[string]*Term
	Script  string
	closed  bool
	all     []*Term // assertions including axioms
	Dup     bool
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	names  map[string]Val
	defers []*ssa.Defer
	depth  int
	loops  map[*ssa.BasicBlock]*loopCtx // active cut loops
	unr    map[*ssa.BasicBlock]int
}

type loopCtx struct {
	spec     *LoopSpec
	decVal   *Term
	entryHp  Heap
	entryAlc *Term
	frameRef []*Term
	keys     []string
	dry      bool
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Val, len(f.env))
	for k, v := range f.env {
		n.env[k] = v
	}
	n.names = make(map[string]Val, len(f.names))
	for k, v := range f.names {
		n.names[k] = v
	}
	n.defers = append([]*ssa.Defer{}, f.defers...)
	n.loops = map[*ssa.BasicBlock]*loopCtx{}
	for k, v := range f.loops {
		n.loops[k] = v
	}
	n.unr = map[*ssa.BasicBlock]int{}
	for k, v := range f.unr {
		n.unr[k] = v
	}
	return &n
}

type State struct {
	heap   Heap
	alloc  *Term
	pc     []*Term
	pcset  map[*Term]bool
	frames []*Frame
}

func (s *State) clone() *State {
	n := &State{heap: s.heap.clone(), alloc: s.alloc, pc: append([]*Term{}, s.pc...), pcset: make(map[*Term]bool, len(s.pcset))}
	for k := range s.pcset {
		n.pcset[k] = true
	}
	for _, f := range s.frames {
		n.frames = append(n.frames, f.clone())
	}
	return n
}
func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }
func (s *State) assume(t *Term) {
	if t == True || s.pcset[t] {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	s.pcset[t] = true
	s.pc = append(s.pc, t)
}
func (s *State) dead() bool { return s.pcset[False] }

type recorder struct {
	keys  map[string]map[*Term]bool
	sorts map[string]string
}

type Exec struct {
	w         *World
	c         *Contract
	fn        *ssa.Function
	obls      []*Oblig
	dry       int
	recs      []*recorder
	paths     int
	returns   int
	maxPaths  int
	entry     *State
	params    map[string]Val
	entryHp   Heap
	entryAlc  *Term
	z         *z3proc
	feasQ     int
	used      map[string]bool // contracts relied upon
	inlined   map[string]bool
	roleMap   map[string]string
	missing   map[string][]string
	noOblig   bool
	onReturn  func(st *State, res []Val)
	errs      []string
	curPos    token.Pos
	steps     int
	trustBody bool
	constHeap bool
}

type K func(st *State, res []Val)

type abortPath struct{}

func (x *Exec) feasible(st *State, c *Term) bool {
	if c == False || st.dead() {
		return false
	}
	if c == True {
		return true
	}
	if st.pcset[c] {
		return true
	}
	if st.pcset[Not(c)] {
		return false
	}
	x.feasQ++
	// ground facts only: an over-approximation, quick to decide
	as := []*Term{c}
	for _, t := range st.pc {
		if !hasQuant(t) {
			as = append(as, t)
		}
	}
	if x.z == nil {
		x.z = startZ3()
	}
	r := x.z.check(Script(as), 300)
	if r == "dead" {
		x.z = nil
		return true
	}
	return r != "unsat"
}

var quantMemo = map[*Term]bool{}

func hasQuant(t *Term) bool {
	if t.op == "forall" || t.op == "exists" {
		return true
	}
	if len(t.args) == 0 {
		return false
	}
	if r, ok := quantMemo[t]; ok {
		return r
	}
	r := false
	for _, a := range t.args {
		if hasQuant(a) {
			r = true
			break
		}
	}
	quantMemo[t] = r
	return r
}

func (x *Exec) fname() string { return x.c.key }

func (x *Exec) assert(st *State, kind string, goal *Term) {
	if x.dry > 0 || x.noOblig {
		st.assume(goal)
		return
	}
	if st.dead() {
		return
	}
	if gs := splitGoal(goal); len(gs) > 1 || len(gs) == 1 && gs[0] != goal {
		if !st.pcset[goal] {
			for _, g := range gs {
				x.assertOne(st, kind, g)
			}
			st.assume(goal)
			return
		}
	}
	x.assertOne(st, kind, goal)
	st.assume(goal)
}

// instances adds ground instances of universally quantified hypotheses at the
// skolem constants of the goal and their neighbours (the solvers' triggers rarely
// fire on arithmetic index terms).
func instances(pc []*Term, goal *Term) []*Term {
	var sks []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "const" && t.sort == SInt && strings.HasPrefix(t.name, "sk_") {
			sks = append(sks, t)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(goal)
	if len(sks) == 0 || len(sks) > 4 {
		return nil
	}
	sort.Slice(sks, func(i, j int) bool { return sks[i].id < sks[j].id })
	var out []*Term
	for _, h := range pc {
		if h.op != "forall" {
			continue
		}
		ok := true
		for _, v := range h.bv {
			ok = ok && v.sort == SInt
		}
		if !ok || len(h.bv) > 2 {
			continue
		}
		if len(h.bv) == 1 {
			v := h.bv[0]
			for _, k := range sks {
				for _, d := range []int64{0, 1, -1} {
					out = append(out, Subst(h.args[0], map[*Term]*Term{v: Add(k, I(d))}))
				}
			}
			out = append(out, Subst(h.args[0], map[*Term]*Term{v: I(0)}))
			continue
		}
		if len(sks) >= 2 {
			for _, a := range sks {
				for _, b := range sks {
					if a != b {
						out = append(out, Subst(h.args[0], map[*Term]*Term{h.bv[0]: a, h.bv[1]: b}))
					}
				}
			}
		}
	}
	return out
}

// splitGoal skolemises universal goals and splits conjunctions.
func splitGoal(g *Term) []*Term {
	switch g.op {
	case "and":
		var out []*Term
		for _, a := range g.args {
			out = append(out, splitGoal(a)...)
		}
		return out
	case "=>":
		var out []*Term
		for _, b := range splitGoal(g.args[1]) {
			out = append(out, Imp(g.args[0], b))
		}
		return out
	case "forall":
		m := map[*Term]*Term{}
		for _, v := range g.bv {
			m[v] = Fresh("sk_"+v.name, v.sort)
		}
		return splitGoal(Subst(g.args[0], m))
	}
	return []*Term{g}
}

func (x *Exec) assertOne(st *State, kind string, goal *Term) {
	o := &Oblig{Name: x.fname() + "/" + kind, Goal: goal, Path: x.paths, Pos: x.w.pos(x.curPos), ParamTs: map[string]*Term{}}
	if goal == True && strings.HasPrefix(kind, "safety:") {
		return // e.g. a constant index into an array literal
	}
	if goal == True || st.pcset[goal] {
		o.Trivial = true
		o.Res = Result{Status: "unsat", By: "simplifier"}
	} else {
		o.Asserts = append(append([]*Term{}, st.pc...), Not(goal))
		o.Asserts = append(o.Asserts, instances(st.pc, goal)...)
	}
	x.obls = append(x.obls, o)
}

// safety obligations in inlined code are attributed to the function under verification
func (x *Exec) safe(st *State, kind string, cond *Term) {
	fr := st.top()
	if len(st.frames) > 1 {
		kind = kind + "@" + fr.fn.Name()
	}
	x.assert(st, "safety:"+kind, cond)
}

func (x *Exec) unsupported(f string, a ...interface{}) {
	panic(unsupported(fmt.Sprintf(f, a...) + " at " + x.w.pos(x.curPos)))
}

func (x *Exec) record(key string, idx []*Term, sort string) {
	for _, r := range x.recs {
		m := r.keys[key]
		if m == nil {
			m = map[*Term]bool{}
			r.keys[key] = m
		}
		r.sorts[key] = sort
		if len(idx) > 0 {
			m[idx[0]] = true
		}
	}
}

// ---------- heap access ----------

func (x *Exec) loadH(st *State, h Heap, p *Place) Val {
	v := Val{typ: p.typ}
	for i, l := range leavesOf(p.typ) {
		_ = i
		key := p.key + l.path
		a := x.heapGet(h, key, nestSort(len(p.idx), l.sort))
		v.ts = append(v.ts, nestedSelect(a, p.idx))
	}
	hasB := false
	for _, t := range v.ts {
		hasB = hasB || t.hasB
	}
	if st != nil && !hasB {
		if _, ok := p.typ.Underlying().(*types.Array); !ok {
			for _, f := range typeFacts(v, st.alloc) {
				st.assume(f)
			}
		}
	}
	return v
}

func (x *Exec) heapGet(h Heap, key, sort string) *Term {
	if t, ok := h[key]; ok {
		return t
	}
	if x.constHeap {
		h[key] = zeroTerm(sort)
		return h[key]
	}
	return h.get(key, sort)
}

func (x *Exec) load(st *State, p *Place) Val {
	if g := x.w.constGlobal(p); g != nil {
		return *g
	}
	return x.reify(x.loadH(st, st.heap, p))
}

// reify turns interned place constants back into places, func ids into FuncVals
func (x *Exec) reify(v Val) Val {
	if len(v.ts) == 1 {
		if p, ok := x.w.interned[v.ts[0]]; ok {
			v.place = p
		}
	}
	return v
}

func (x *Exec) store(st *State, p *Place, v Val) {
	v = x.flat(v)
	for i, l := range leavesOf(p.typ) {
		key := p.key + l.path
		s := nestSort(len(p.idx), l.sort)
		a := x.heapGet(st.heap, key, s)
		x.record(key, p.idx, s)
		st.heap[key] = nestedStore(a, p.idx, v.ts[i])
	}
}

// flat makes sure v has terms (interning interior pointers and closures)
func (x *Exec) flat(v Val) Val {
	if v.ts != nil || v.tuple != nil {
		return v
	}
	if v.place != nil {
		p := v.place
		if len(p.idx) == 1 && !p.rootArr {
			if k, _ := rootKey(p.typ); k == p.key {
				v.ts = []*Term{p.idx[0]}
				return v
			}
		}
		if p.rootArr {
			v.ts = []*Term{p.idx[0]}
			return v
		}
		nm := "ptr:" + p.key
		for _, i := range p.idx {
			nm += fmt.Sprintf(":%d", i.id)
		}
		t := Const(nm, SInt)
		x.w.interned[t] = p
		v.ts = []*Term{t}
		return v
	}
	if v.fn != nil {
		v.ts = []*Term{x.w.funcID(v.fn)}
		return v
	}
	if st, ok := v.typ.Underlying().(*types.Struct); ok && st.NumFields() == 0 {
		return v
	}
	if v.typ != nil && len(leavesOf(v.typ)) == 0 {
		return v
	}
	panic(unsupported(fmt.Sprintf("flat %v", v.typ)))
}

func (x *Exec) newRef(st *State) *Term {
	r := st.alloc
	st.alloc = Add(st.alloc, I(1))
	return r
}

func (x *Exec) allocObj(st *State, t types.Type) Val {
	r := x.newRef(st)
	p := derefPlace(t, r)
	for _, l := range leavesOf(t) {
		key := p.key + l.path
		s := nestSort(1, l.sort)
		a := x.heapGet(st.heap, key, s)
		x.record(key, p.idx, s)
		st.heap[key] = Store(a, r, zeroTerm(l.sort))
	}
	return Val{typ: types.NewPointer(t), ts: []*Term{r}, place: p}
}

func (x *Exec) deref(st *State, v Val) *Place {
	if v.place != nil {
		if pt, ok := isPtrTo(v.typ); ok && v.ts != nil && !v.ts[0].isInt() && v.place.typ == nil {
			_ = pt
		}
		return v.place
	}
	el, ok := isPtrTo(v.typ)
	if !ok {
		x.unsupported("deref of %v", v.typ)
	}
	x.safe(st, "nil-deref", Ne(v.ts[0], I(0)))
	return derefPlace(el, v.ts[0])
}

// ---------- values ----------

func (x *Exec) get(st *State, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Function:
		fv := &FuncVal{fn: c}
		id := x.w.funcID(fv)
		x.funcAttrs(st, fv, id)
		return Val{typ: c.Type(), fn: fv, ts: []*Term{id}}
	case *ssa.Global:
		el, _ := isPtrTo(c.Type())
		return Val{typ: c.Type(), place: &Place{key: "global:" + c.Pkg.Pkg.Name() + "." + c.Name(), typ: el}}
	case *ssa.Builtin:
		return Val{typ: c.Type()}
	}
	if r, ok := st.top().env[v]; ok {
		return r
	}
	panic(unsupported(fmt.Sprintf("value %s (%T) not available", v.Name(), v)))
}

func (x *Exec) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return zeroVal(c.Type())
	}
	return x.w.goConst(c.Value, c.Type())
}

func (w *World) goConst(cv constant.Value, t types.Type) Val {
	switch cv.Kind() {
	case constant.Bool:
		return Val{typ: t, ts: []*Term{B(constant.BoolVal(cv))}}
	case constant.Int:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return Val{typ: t, ts: []*Term{Const("float:"+cv.String(), SInt)}}
		}
		n, _ := new(big.Int).SetString(cv.ExactString(), 10)
		return Val{typ: t, ts: []*Term{IB(n)}}
	case constant.String:
		s := constant.StringVal(cv)
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString == 0 {
			break
		}
		return w.strConst(s, t)
	case constant.Float:
		return Val{typ: t, ts: []*Term{Const("float:"+cv.String(), SInt)}}
	}
	panic(unsupported("constant " + cv.String()))
}

func (w *World) strConst(s string, t types.Type) Val {
	if s == "" {
		return Val{typ: t, ts: []*Term{I(0), I(0), I(0)}}
	}
	id, ok := w.strIDs[s]
	if !ok {
		id = int64(len(w.strIDs) + 1)
		w.strIDs[s] = id
		w.strOf[id] = s
	}
	return Val{typ: t, ts: []*Term{I(id), I(0), I(int64(len(s)))}}
}

func strByte(id, i *Term) *Term { return App("strbyte", SInt, id, i) }

func (x *Exec) strByteAt(st *State, s Val, i *Term) *Term {
	if s.ts[0].isInt() {
		if lit, ok := x.w.strOf[s.ts[0].n.Int64()]; ok {
			k := Add(s.ts[1], i)
			if k.isInt() && k.n.Int64() >= 0 && k.n.Int64() < int64(len(lit)) {
				return I(int64(lit[k.n.Int64()]))
			}
		}
	}
	t := strByte(s.ts[0], Add(s.ts[1], i))
	if st != nil && !t.hasB {
		st.assume(Le(I(0), t))
		st.assume(Le(t, I(255)))
	}
	return t
}

func (x *Exec) strEq(st *State, a, b Val) *Term {
	if a.ts[0] == b.ts[0] && a.ts[1] == b.ts[1] {
		return Eq(a.ts[2], b.ts[2])
	}
	for k := 0; k < 2; k++ {
		if b.ts[2].isInt() && b.ts[2].n.Sign() == 0 {
			return Eq(a.ts[2], I(0))
		}
		a, b = b, a
	}
	la, oka := x.strLit(a)
	lb, okb := x.strLit(b)
	if oka && okb {
		return B(la == lb)
	}
	if oka {
		a, b, la, lb, oka, okb = b, a, lb, la, okb, oka
	}
	if okb && len(lb) <= 64 {
		cs := []*Term{Eq(a.ts[2], I(int64(len(lb))))}
		for i := 0; i < len(lb); i++ {
			cs = append(cs, Eq(x.strByteAt(st, a, I(int64(i))), I(int64(lb[i]))))
		}
		return And(cs...)
	}
	t := App("streq", SBool, a.ts[0], a.ts[1], a.ts[2], b.ts[0], b.ts[1], b.ts[2])
	if st != nil && !t.hasB {
		st.assume(Imp(t, Eq(a.ts[2], b.ts[2])))
	}
	return t
}
func (x *Exec) strLit(a Val) (string, bool) {
	if a.ts[2].isInt() && a.ts[2].n.Sign() == 0 {
		return "", true
	}
	if a.ts[0].isInt() && a.ts[1].isInt() && a.ts[2].isInt() {
		if s, ok := x.w.strOf[a.ts[0].n.Int64()]; ok {
			o, l := a.ts[1].n.Int64(), a.ts[2].n.Int64()
			if o+l <= int64(len(s)) {
				return s[o : o+l], true
			}
		}
	}
	return "", false
}

func (x *Exec) freshVal(st *State, t types.Type, hint string) Val {
	v := Val{typ: t}
	if tp, ok := t.(*types.Tuple); ok {
		for i := 0; i < tp.Len(); i++ {
			v.tuple = append(v.tuple, x.freshVal(st, tp.At(i).Type(), fmt.Sprintf("%s.%d", hint, i)))
		}
		return v
	}
	for _, l := range leavesOf(t) {
		v.ts = append(v.ts, Fresh(hint+l.path, l.sort))
	}
	if st != nil {
		x.assumeFacts(st, v)
	}
	return v
}
func (x *Exec) assumeFacts(st *State, v Val) {
	for _, f := range typeFacts(v, st.alloc) {
		st.assume(f)
	}
}

// ---------- main loop ----------

func (x *Exec) callFn(st *State, fn *ssa.Function, args []Val, bind []Val, k K) {
	if len(fn.Blocks) == 0 {
		x.unsupported("function %s has no body and no contract", fn)
	}
	if len(st.frames) > 40 {
		x.unsupported("inlining too deep at %s (recursive function without contract?)", fn)
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, names: map[string]Val{}, loops: map[*ssa.BasicBlock]*loopCtx{}, unr: map[*ssa.BasicBlock]int{}}
	for i, p := range fn.Params {
		a := args[i]
		a.typ = p.Type()
		fr.env[p] = a
		fr.names[p.Name()] = a
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = bind[i]
		fr.names[p.Name()] = bind[i]
	}
	st.frames = append(st.frames, fr)
	depth := len(st.frames)
	x.run(st, fn.Blocks[0], nil, func(s2 *State, res []Val) {
		if len(s2.frames) != depth {
			panic("frame mismatch")
		}
		s2.frames = s2.frames[:depth-1]
		k(s2, res)
	})
}

// funcAttrs states what the contract of a function fixes about its values when they are created.
func (x *Exec) funcAttrs(st *State, fv *FuncVal, id *Term) {
	c := x.w.contractFor(fv.fn)
	if c == nil || len(c.attrs)+len(c.creates) == 0 {
		return
	}
	env := x.specEnv(st)
	env.params = map[string]Val{"self": {typ: fv.fn.Signature, ts: []*Term{id}}}
	env.locals = nil
	for i, p := range fv.fn.FreeVars {
		b := fv.bind[i]
		b.typ = p.Type()
		env.params[p.Name()] = b
	}
	if fv.fn.Pkg != nil {
		env.pkgT = fv.fn.Pkg.Pkg
	}
	env.heap = st.heap
	for _, a := range c.creates {
		x.assert(st, "create:"+c.key, env.evalBool(a.e))
	}
	for _, a := range c.attrs {
		st.assume(env.evalBool(a.e))
	}
}

func (x *Exec) enter(st *State, b, pred *ssa.BasicBlock, k K) {
	if n := len(x.w.dryStops); n > 0 {
		ds := x.w.dryStops[n-1]
		if len(st.frames) == ds.depth && !ds.lp.body[b] {
			return
		}
	}
	li := x.w.loops(b.Parent())
	lp := li.byHeader[b]
	if lp == nil {
		x.run(st, b, pred, k)
		return
	}
	x.loopEnter(st, lp, b, pred, k)
}

func (x *Exec) phiVals(st *State, b, pred *ssa.BasicBlock) map[*ssa.Phi]Val {
	out := map[*ssa.Phi]Val{}
	pi := -1
	for i, p := range b.Preds {
		if p == pred {
			pi = i
		}
	}
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := x.get(st, phi.Edges[pi])
		v.typ = phi.Type()
		out[phi] = v
	}
	return out
}

func (x *Exec) run(st *State, b, pred *ssa.BasicBlock, k K) {
	fr := st.top()
	if pred != nil {
		for p, v := range x.phiVals(st, b, pred) {
			fr.env[p] = v
			if p.Comment != "" {
				fr.names[p.Comment] = v
			}
		}
	}
	x.runFrom(st, b, 0, k)
}

func (x *Exec) runFrom(st *State, b *ssa.BasicBlock, i int, k K) {
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		if p := in.Pos(); p.IsValid() {
			x.curPos = p
		}
		x.steps++
		if x.steps > 4000000 {
			x.unsupported("step limit")
		}
		switch v := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			c := x.get(st, v.Cond).ts[0]
			if st.pcset[c] {
				c = True
			} else if st.pcset[Not(c)] {
				c = False
			}
			switch c {
			case True:
				x.enter(st, b.Succs[0], b, k)
			case False:
				x.enter(st, b.Succs[1], b, k)
			default:
				f1 := x.feasible(st, c)
				f2 := !f1 || x.feasible(st, Not(c))
				if f1 && f2 {
					s2 := st.clone()
					st.assume(c)
					x.enter(st, b.Succs[0], b, k)
					s2.assume(Not(c))
					x.enter(s2, b.Succs[1], b, k)
				} else if f1 {
					st.assume(c)
					x.enter(st, b.Succs[0], b, k)
				} else {
					st.assume(Not(c))
					x.enter(st, b.Succs[1], b, k)
				}
			}
			return
		case *ssa.Jump:
			x.enter(st, b.Succs[0], b, k)
			return
		case *ssa.Return:
			var res []Val
			for _, r := range v.Results {
				res = append(res, x.get(st, r))
			}
			x.paths++
			if x.paths > x.maxPaths {
				x.unsupported("path limit")
			}
			k(st, res)
			return
		case *ssa.Panic:
			x.paths++
			x.doPanic(st, "explicit-panic")
			return
		case *ssa.RunDefers:
			fr := st.top()
			ds := fr.defers
			fr.defers = nil
			x.runDefers(st, ds, func(s2 *State) { x.runFrom(s2, b, i+1, k) })
			return
		case *ssa.Defer:
			st.top().defers = append(st.top().defers, v)
			continue
		case *ssa.Call:
			j := i
			fast := true
			var fastRes []Val
			x.doCall(st, v.Common(), v, func(s2 *State, res []Val) {
				x.setRes(s2, v, res)
				if s2 == st && fast {
					// may still be re-entered: cannot continue in place
				}
				x.runFrom(s2, b, j+1, k)
			})
			_ = fastRes
			return
		case *ssa.TypeAssert:
			if x.typeAssert(st, v, func(s2 *State) { x.runFrom(s2, b, i+1, k) }) {
				return
			}
		default:
			if x.forkInstr(st, in, func(s2 *State) { x.runFrom(s2, b, i+1, k) }) {
				return
			}
			x.simple(st, in)
		}
	}
}

func (x *Exec) runDefers(st *State, ds []*ssa.Defer, k func(*State)) {
	if len(ds) == 0 {
		k(st)
		return
	}
	d := ds[len(ds)-1]
	x.doCall(st, &d.Call, nil, func(s2 *State, _ []Val) { x.runDefers(s2, ds[:len(ds)-1], k) })
}

func (x *Exec) setRes(st *State, v *ssa.Call, res []Val) {
	if v == nil {
		return
	}
	switch len(res) {
	case 0:
		st.top().env[v] = Val{typ: v.Type()}
	case 1:
		r := res[0]
		if _, ok := v.Type().(*types.Tuple); ok && r.tuple == nil {
			st.top().env[v] = Val{typ: v.Type(), tuple: []Val{r}}
			return
		}
		if r.tuple == nil {
			r.typ = v.Type()
		}
		st.top().env[v] = r
	default:
		st.top().env[v] = Val{typ: v.Type(), tuple: res}
	}
}

func (x *Exec) doPanic(st *State, why string) {
	if x.c.panics != nil && !x.trustBody {
		env := x.preEnv(st)
		env.useOld = true
		cond := env.evalBool(x.c.panics.e)
		x.assert(st, "panics-only-when", cond)
		return
	}
	if x.c.aborts != nil && !x.trustBody {
		env := x.specEnv(st)
		env.params = x.params
		x.assert(st, "panics-only-when", env.evalBool(x.c.aborts.e))
		return
	}
	fr := st.top()
	kind := why
	if len(st.frames) > 1 {
		kind += "@" + fr.fn.Name()
	}
	x.assert(st, "safety:"+kind, False)
}

// instructions that may fork (append handled in builtin call)
func (x *Exec) forkInstr(st *State, in ssa.Instruction, k func(*State)) bool {
	switch v := in.(type) {
	case *ssa.Go:
		name := "?"
		if f := v.Call.StaticCallee(); f != nil {
			name = fnKey(f)
		}
		x.used["ASSUMED about the goroutine started with "+name+": it writes nothing the contracts of its starter speak about"] = true
		k(st)
		return true
	case *ssa.Select, *ssa.Send:
		x.unsupported("concurrency instruction %T", in)
	}
	return false
}

func (x *Exec) simple(st *State, in ssa.Instruction) {
	fr := st.top()
	set := func(v ssa.Value, r Val) {
		if r.typ == nil || r.tuple == nil {
			r.typ = v.Type()
		}
		fr.env[v] = r
	}
	switch v := in.(type) {
	case *ssa.DebugRef:
		if !v.IsAddr {
			if id := v.Object(); id != nil {
				if r, ok := fr.env[v.X]; ok {
					fr.names[id.Name()] = r
				} else if c, ok := v.X.(*ssa.Const); ok {
					if _, isv := id.(*types.Var); isv && c.Value != nil {
						func() {
							defer func() { recover() }()
							fr.names[id.Name()] = x.constVal(c)
						}()
					}
				}
			}
		} else if id := v.Object(); id != nil {
			if r, ok := fr.env[v.X]; ok && r.place != nil {
				fr.names["&"+id.Name()] = r
			}
		}
	case *ssa.Alloc:
		el, _ := isPtrTo(v.Type())
		set(v, x.allocObj(st, el))
		if v.Comment != "" {
			fr.names["&"+v.Comment] = fr.env[v]
		}
	case *ssa.BinOp:
		set(v, x.binop(st, v.Op, x.get(st, v.X), x.get(st, v.Y), v.Type()))
	case *ssa.UnOp:
		a := x.get(st, v.X)
		switch v.Op {
		case token.MUL:
			p := x.deref(st, a)
			if p.typ == nil {
				p.typ = v.Type()
			}
			set(v, x.load(st, p))
		case token.SUB:
			set(v, Val{ts: []*Term{wrapInt(Neg(a.ts[0]), v.Type())}})
		case token.NOT:
			set(v, Val{ts: []*Term{Not(a.ts[0])}})
		case token.XOR:
			if isUnsigned(v.Type()) {
				_, hi, _ := intRange(v.Type())
				set(v, Val{ts: []*Term{Sub(IB(hi), a.ts[0])}})
			} else {
				set(v, Val{ts: []*Term{Sub(I(-1), a.ts[0])}})
			}
		default:
			x.unsupported("unop %s", v.Op)
		}
	case *ssa.ChangeType, *ssa.ChangeInterface:
		var a Val
		if ct, ok := v.(*ssa.ChangeType); ok {
			a = x.get(st, ct.X)
		} else {
			a = x.get(st, v.(*ssa.ChangeInterface).X)
		}
		set(v.(ssa.Value), a)
	case *ssa.Convert:
		set(v, x.convert(st, x.get(st, v.X), v.X.Type(), v.Type()))
	case *ssa.Extract:
		t := x.get(st, v.Tuple)
		set(v, t.tuple[v.Index])
	case *ssa.Field:
		set(v, x.reify(subVal(x.flat(x.get(st, v.X)), v.Field)))
	case *ssa.FieldAddr:
		p := x.deref(st, x.get(st, v.X))
		set(v, Val{place: fieldPlace(p, v.Field)})
	case *ssa.IndexAddr:
		a := x.get(st, v.X)
		i := x.get(st, v.Index).ts[0]
		switch u := a.typ.Underlying().(type) {
		case *types.Slice:
			x.safe(st, "index", And(Le(I(0), i), Lt(i, a.ts[2])))
			set(v, Val{place: sliceElemPlace(u.Elem(), a.ts[0], Add(x.normOff(st, a.ts[1]), i))})
		case *types.Pointer:
			p := x.deref(st, a)
			at := p.typ.Underlying().(*types.Array)
			x.safe(st, "index", And(Le(I(0), i), Lt(i, I(at.Len()))))
			set(v, Val{place: elemPlace(p, i)})
		default:
			x.unsupported("indexaddr %v", a.typ)
		}
	case *ssa.Index:
		a := x.get(st, v.X)
		i := x.get(st, v.Index).ts[0]
		switch u := a.typ.Underlying().(type) {
		case *types.Array:
			x.safe(st, "index", And(Le(I(0), i), Lt(i, I(u.Len()))))
			r := Val{typ: u.Elem()}
			for _, t := range a.ts {
				r.ts = append(r.ts, Select(t, i))
			}
			x.assumeFacts(st, r)
			set(v, r)
		case *types.Basic: // string
			x.safe(st, "index", And(Le(I(0), i), Lt(i, a.ts[2])))
			set(v, Val{ts: []*Term{x.strByteAt(st, a, i)}})
		default:
			x.unsupported("index %v", a.typ)
		}
	case *ssa.Lookup:
		a := x.get(st, v.X)
		i := x.get(st, v.Index)
		if mt, ok := a.typ.Underlying().(*types.Map); ok {
			dom, val := x.mapGet(st, st.heap, a, mt, i)
			if v.CommaOk {
				set(v, Val{tuple: []Val{val, {typ: types.Typ[types.Bool], ts: []*Term{dom}}}, typ: v.Type()})
			} else {
				set(v, val)
			}
		} else {
			x.safe(st, "index", And(Le(I(0), i.ts[0]), Lt(i.ts[0], a.ts[2])))
			set(v, Val{ts: []*Term{x.strByteAt(st, a, i.ts[0])}})
		}
	case *ssa.MapUpdate:
		a := x.get(st, v.Map)
		x.safe(st, "nil-map", Ne(a.ts[0], I(0)))
		x.mapSet(st, a, a.typ.Underlying().(*types.Map), x.get(st, v.Key), x.flat(x.get(st, v.Value)))
	case *ssa.MakeChan:
		set(v, Val{ts: []*Term{x.newRef(st)}, typ: v.Type()})
	case *ssa.MakeMap:
		r := x.newRef(st)
		mt := v.Type().Underlying().(*types.Map)
		key := mapKey(v.Type())
		s := ArrSort(ArrSort(SBool))
		d := x.heapGet(st.heap, key+"#dom", s)
		x.record(key+"#dom", []*Term{r}, s)
		st.heap[key+"#dom"] = Store(d, r, ConstArr(False))
		for _, l := range leavesOf(mt.Elem()) {
			ks := ArrSort(ArrSort(l.sort))
			h := x.heapGet(st.heap, key+l.path, ks)
			x.record(key+l.path, []*Term{r}, ks)
			st.heap[key+l.path] = Store(h, r, ConstArr(zeroTerm(l.sort)))
		}
		set(v, Val{ts: []*Term{r}})
	case *ssa.MakeSlice:
		n := x.get(st, v.Len).ts[0]
		c := x.get(st, v.Cap).ts[0]
		x.safe(st, "makeslice", And(Le(I(0), n), Le(n, c)))
		st.assume(Le(c, maxLen))
		el := v.Type().Underlying().(*types.Slice).Elem()
		set(v, x.newSlice(st, el, n, c))
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range v.Bindings {
			bs = append(bs, x.get(st, b))
		}
		fv := &FuncVal{fn: v.Fn.(*ssa.Function), bind: bs}
		id := x.w.funcID(fv)
		x.funcAttrs(st, fv, id)
		set(v, Val{fn: fv, ts: []*Term{id}})
	case *ssa.MakeInterface:
		set(v, x.makeIface(st, x.get(st, v.X), v.X.Type()))
	case *ssa.Slice:
		set(v, x.sliceOp(st, v))
	case *ssa.Store:
		p := x.deref(st, x.get(st, v.Addr))
		x.store(st, p, x.get(st, v.Val))
	case *ssa.Range:
		a := x.get(st, v.X)
		x.w.iterCtr++
		it := &iterVal{str: a, id: x.w.iterCtr}
		if _, ok := a.typ.Underlying().(*types.Map); ok {
			x.unsupported("range over map")
		}
		key := fmt.Sprintf("iter:%d", it.id)
		st.heap[key] = I(0)
		set(v, Val{iter: it})
	case *ssa.Next:
		it := x.get(st, v.Iter).iter
		key := fmt.Sprintf("iter:%d", it.id)
		pos := x.heapGet(st.heap, key, SInt)
		s := it.str
		ok := Lt(pos, s.ts[2])
		st.assume(Le(I(0), pos))
		r := App("decrune", SInt, s.ts[0], Add(s.ts[1], pos), Add(s.ts[1], s.ts[2]))
		w := App("decwidth", SInt, s.ts[0], Add(s.ts[1], pos), Add(s.ts[1], s.ts[2]))
		st.assume(Imp(ok, And(Le(I(1), w), Le(w, I(4)), Le(Add(pos, w), s.ts[2]), Le(I(0), r), Le(r, I(0x10ffff)))))
		x.record(key, nil, SInt)
		st.heap[key] = Ite(ok, Add(pos, w), pos)
		set(v, Val{typ: v.Type(), tuple: []Val{
			{typ: types.Typ[types.Bool], ts: []*Term{ok}},
			{typ: types.Typ[types.Int], ts: []*Term{pos}},
			{typ: types.Typ[types.Rune], ts: []*Term{r}}}})
	default:
		x.unsupported("instruction %T", in)
	}
}

func (x *Exec) newSlice(st *State, el types.Type, n, c *Term) Val {
	r := x.newRef(st)
	for _, l := range leavesOf(el) {
		key := "[]" + tname(el) + l.path
		s := nestSort(2, l.sort)
		a := x.heapGet(st.heap, key, s)
		x.record(key, []*Term{r}, s)
		st.heap[key] = Store(a, r, zeroTerm(ArrSort(l.sort)))
	}
	return Val{typ: types.NewSlice(el), ts: []*Term{r, I(0), n, c}}
}

func mapKey(t types.Type) string { return tname(t.Underlying()) }

func (x *Exec) mapKeyTerm(k Val) *Term {
	k = x.flat(k)
	if len(k.ts) == 1 && k.ts[0].sort == SInt {
		return k.ts[0]
	}
	if len(k.ts) == 3 && k.typ != nil { // strings: keyed by (id,off,len)
		if k.ts[0].isInt() {
			if s, ok := x.strLit(k); ok {
				c := x.w.strConst(s, k.typ)
				return c.ts[0]
			}
		}
		return App("strkey", SInt, k.ts...)
	}
	x.unsupported("map key type %v", k.typ)
	return nil
}

func (x *Exec) mapGet(st *State, h Heap, m Val, mt *types.Map, k Val) (*Term, Val) {
	key := mapKey(m.typ)
	kt := x.mapKeyTerm(k)
	d := Select(Select(x.heapGet(h, key+"#dom", ArrSort(ArrSort(SBool))), m.ts[0]), kt)
	d = And(Ne(m.ts[0], I(0)), d)
	v := Val{typ: mt.Elem()}
	for _, l := range leavesOf(mt.Elem()) {
		a := x.heapGet(h, key+l.path, ArrSort(ArrSort(l.sort)))
		v.ts = append(v.ts, Ite(d, Select(Select(a, m.ts[0]), kt), zeroTerm(l.sort)))
	}
	hasB := false
	for _, t := range v.ts {
		hasB = hasB || t.hasB
	}
	if st != nil && !hasB {
		x.assumeFacts(st, v)
	}
	return d, x.reify(v)
}

func (x *Exec) mapSet(st *State, m Val, mt *types.Map, k Val, v Val) {
	key := mapKey(m.typ)
	kt := x.mapKeyTerm(k)
	s := ArrSort(ArrSort(SBool))
	idx := []*Term{m.ts[0], kt}
	d := x.heapGet(st.heap, key+"#dom", s)
	x.record(key+"#dom", idx, s)
	st.heap[key+"#dom"] = nestedStore(d, idx, True)
	for i, l := range leavesOf(mt.Elem()) {
		ks := ArrSort(ArrSort(l.sort))
		a := x.heapGet(st.heap, key+l.path, ks)
		x.record(key+l.path, idx, ks)
		st.heap[key+l.path] = nestedStore(a, idx, v.ts[i])
	}
}

func (x *Exec) makeIface(st *State, v Val, t types.Type) Val {
	r := Val{}
	tag := I(x.w.typeTag(t))
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		v = x.flat(v)
		r.ts = []*Term{tag, v.ts[0]}
		if v.place != nil {
			x.w.interned[v.ts[0]] = v.place
		}
	default:
		v = x.flat(v)
		if len(v.ts) == 1 && v.ts[0].sort == SInt {
			r.ts = []*Term{tag, v.ts[0]}
			// negative ints are fine: payload facts only for refs; keep an opaque injection
			r.ts[1] = App("box", SInt, v.ts[0])
			st.assume(Eq(App("unbox", SInt, r.ts[1]), v.ts[0]))
			st.assume(Le(I(0), r.ts[1]))
		} else {
			c := Fresh("boxed", SInt)
			x.w.boxed[c] = v
			st.assume(Le(I(0), c))
			r.ts = []*Term{tag, c}
		}
	}
	return r
}

func (x *Exec) typeAssert(st *State, v *ssa.TypeAssert, k func(*State)) bool {
	a := x.get(st, v.X)
	set := func(r Val, ok *Term) {
		if v.CommaOk {
			st.top().env[v] = Val{typ: v.Type(), tuple: []Val{r, {typ: types.Typ[types.Bool], ts: []*Term{ok}}}}
		} else {
			r.typ = v.AssertedType
			st.top().env[v] = r
		}
	}
	if _, isI := v.AssertedType.Underlying().(*types.Interface); isI {
		var ok *Term
		if a.ts[0].isInt() {
			ok = B(x.w.implements(a.ts[0].n.Int64(), v.AssertedType))
		} else {
			ok = App("implements:"+tname(v.AssertedType), SBool, a.ts[0])
		}
		r := Val{typ: v.AssertedType, ts: a.ts}
		if v.CommaOk {
			r = Val{typ: v.AssertedType, ts: []*Term{Ite(ok, a.ts[0], I(0)), Ite(ok, a.ts[1], I(0))}}
		} else {
			x.safe(st, "type-assert", ok)
		}
		set(r, ok)
		return false
	}
	ok := Eq(a.ts[0], I(x.w.typeTag(v.AssertedType)))
	var r Val
	switch v.AssertedType.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		r = x.reify(Val{typ: v.AssertedType, ts: []*Term{a.ts[1]}})
	default:
		if b, ok2 := x.w.boxed[a.ts[1]]; ok2 {
			r = b
		} else if ls := leavesOf(v.AssertedType); len(ls) == 1 && ls[0].sort == SInt {
			r = Val{typ: v.AssertedType, ts: []*Term{App("unbox", SInt, a.ts[1])}}
			x.assumeFacts(st, r)
		} else {
			r = x.freshVal(st, v.AssertedType, "unboxed")
		}
	}
	if v.CommaOk {
		r = Val{typ: v.AssertedType, ts: iteVal(ok, x.flat(r), zeroVal(v.AssertedType)).ts, place: r.place}
		if r.place != nil && ok != True {
			r.place = nil
		}
	} else {
		x.safe(st, "type-assert", ok)
	}
	set(r, ok)
	return false
}

func (x *Exec) sliceOp(st *State, v *ssa.Slice) Val {
	a := x.get(st, v.X)
	opt := func(e ssa.Value) *Term {
		if e == nil {
			return nil
		}
		return x.get(st, e).ts[0]
	}
	lo, hi, mx := opt(v.Low), opt(v.High), opt(v.Max)
	if lo == nil {
		lo = I(0)
	}
	switch u := a.typ.Underlying().(type) {
	case *types.Basic:
		if hi == nil {
			hi = a.ts[2]
		}
		x.safe(st, "slice-bounds", And(Le(I(0), lo), Le(lo, hi), Le(hi, a.ts[2])))
		return Val{ts: []*Term{a.ts[0], Add(a.ts[1], lo), Sub(hi, lo)}}
	case *types.Slice:
		if hi == nil {
			hi = a.ts[2]
		}
		top := a.ts[3]
		if mx != nil {
			x.safe(st, "slice-bounds", And(Le(hi, mx), Le(mx, a.ts[3])))
			top = mx
		}
		x.safe(st, "slice-bounds", And(Le(I(0), lo), Le(lo, hi), Le(hi, a.ts[3])))
		return Val{ts: []*Term{a.ts[0], Add(a.ts[1], lo), Sub(hi, lo), Sub(top, lo)}}
	case *types.Pointer:
		p := x.deref(st, a)
		at := p.typ.Underlying().(*types.Array)
		_ = u
		if !p.rootArr {
			x.unsupported("slicing an array inside a struct")
		}
		n := I(at.Len())
		if hi == nil {
			hi = n
		}
		x.safe(st, "slice-bounds", And(Le(I(0), lo), Le(lo, hi), Le(hi, n)))
		return Val{ts: []*Term{p.idx[0], lo, Sub(hi, lo), Sub(n, lo)}}
	}
	x.unsupported("slice of %v", a.typ)
	return Val{}
}

func (x *Exec) convert(st *State, a Val, from, to types.Type) Val {
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 {
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			lo, hi, k1 := intRange(from)
			lo2, hi2, k2 := intRange(to)
			if k1 && k2 && lo2.Cmp(lo) <= 0 && hi2.Cmp(hi) >= 0 {
				return Val{typ: to, ts: a.ts}
			}
			t := a.ts[0]
			if k2 && !t.isInt() {
				sz := IB(new(big.Int).Add(new(big.Int).Sub(hi2, lo2), big.NewInt(1)))
				t = App2Wrap(t, IB(lo2), IB(hi2), sz)
			} else {
				t = wrapInt(t, to)
			}
			return Val{typ: to, ts: []*Term{t}}
		}
		if fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
			return Val{typ: to, ts: a.ts}
		}
		if tb.Info()&types.IsString != 0 && fb.Info()&types.IsInteger != 0 {
			return x.freshVal(st, to, "runestr")
		}
		if tb.Info()&types.IsFloat != 0 || fb.Info()&types.IsFloat != 0 {
			return x.freshVal(st, to, "float")
		}
	}
	if sl, ok := from.Underlying().(*types.Slice); ok && ok2 { // string([]byte) / string([]rune)
		el := sl.Elem().Underlying().(*types.Basic)
		r := Val{typ: to}
		key := "[]" + tname(sl.Elem())
		mem := Select(x.heapGet(st.heap, key, nestSort(2, SInt)), a.ts[0])
		if el.Kind() == types.Uint8 {
			id := App("bytes2str", SInt, mem, a.ts[1], a.ts[2])
			st.assume(Lt(I(1000000), id))
			r.ts = []*Term{id, I(0), a.ts[2]}
			if !mem.hasB {
				j := Bound("j", SInt)
				st.assume(Forall([]*Term{j}, Imp(And(Le(I(0), j), Lt(j, a.ts[2])), Eq(strByte(id, j), Select(mem, Add(a.ts[1], j)))), strByte(id, j)))
			}
			return r
		}
		id := App("runes2str", SInt, mem, a.ts[1], a.ts[2])
		ln := App("runes2len", SInt, mem, a.ts[1], a.ts[2])
		st.assume(Lt(I(1000000), id))
		st.assume(And(Le(I(0), ln), Le(ln, Mul(I(4), a.ts[2]))))
		r.ts = []*Term{id, I(0), ln}
		return r
	}
	if sl, ok := to.Underlying().(*types.Slice); ok && ok1 {
		el := sl.Elem().Underlying().(*types.Basic)
		if el.Kind() == types.Uint8 {
			r := x.newSlice(st, sl.Elem(), a.ts[2], a.ts[2])
			key := "[]" + tname(sl.Elem())
			id := App("str2bytes", ArrSort(SInt), a.ts[0], a.ts[1], a.ts[2])
			st.heap[key] = Store(st.heap[key], r.ts[0], id)
			j := Bound("j", SInt)
			st.assume(Forall([]*Term{j}, Imp(And(Le(I(0), j), Lt(j, a.ts[2])), Eq(Select(id, j), strByte(a.ts[0], Add(a.ts[1], j)))), Select(id, j)))
			r.typ = to
			return r
		}
		n := Fresh("nrunes", SInt)
		st.assume(And(Le(I(0), n), Le(n, a.ts[2])))
		r := x.newSlice(st, sl.Elem(), n, n)
		key := "[]" + tname(sl.Elem())
		st.heap[key] = Store(st.heap[key], r.ts[0], App("str2runes", ArrSort(SInt), a.ts[0], a.ts[1], a.ts[2]))
		r.typ = to
		return r
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		a.typ = to
		return a
	}
	x.unsupported("conversion %v -> %v", from, to)
	return Val{}
}

func pow2(n *Term) *Term { return App("pow2", SBool, n) }

func (x *Exec) binop(st *State, op token.Token, a, b Val, rt types.Type) Val {
	bo := func(t *Term) Val { return Val{typ: rt, ts: []*Term{t}} }
	switch op {
	case token.EQL, token.NEQ:
		var e *Term
		if bt, ok := a.typ.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			e = x.strEq(st, a, b)
		} else {
			e = valEqGo(x.flat(a), x.flat(b))
		}
		if op == token.NEQ {
			e = Not(e)
		}
		return bo(e)
	}
	if bt, ok := a.typ.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		switch op {
		case token.ADD:
			la, o1 := x.strLit(a)
			lb, o2 := x.strLit(b)
			if o1 && o2 {
				return x.w.strConst(la+lb, rt)
			}
			id := App("strcat", SInt, a.ts[0], a.ts[1], a.ts[2], b.ts[0], b.ts[1], b.ts[2])
			st.assume(Lt(I(1000000), id))
			j := Bound("j", SInt)
			st.assume(Forall([]*Term{j}, Imp(And(Le(I(0), j), Lt(j, a.ts[2])), Eq(strByte(id, j), strByte(a.ts[0], Add(a.ts[1], j)))), strByte(id, j)))
			st.assume(Forall([]*Term{j}, Imp(And(Le(a.ts[2], j), Lt(j, Add(a.ts[2], b.ts[2]))), Eq(strByte(id, j), strByte(b.ts[0], Add(b.ts[1], Sub(j, a.ts[2]))))), strByte(id, j)))
			return Val{typ: rt, ts: []*Term{id, I(0), Add(a.ts[2], b.ts[2])}}
		}
		la, o1 := x.strLit(a)
		lb, o2 := x.strLit(b)
		if o1 && o2 {
			switch op {
			case token.LSS:
				return bo(B(la < lb))
			}
		}
		return bo(App("strcmp"+op.String(), SBool, a.ts[0], a.ts[1], a.ts[2], b.ts[0], b.ts[1], b.ts[2]))
	}
	if bt, ok := a.typ.Underlying().(*types.Basic); ok && bt.Info()&types.IsFloat != 0 {
		if rt != nil {
			return x.freshVal(st, rt, "float")
		}
	}
	p, q := a.ts[0], b.ts[0]
	switch op {
	case token.LSS:
		return bo(Lt(p, q))
	case token.LEQ:
		return bo(Le(p, q))
	case token.GTR:
		return bo(Gt(p, q))
	case token.GEQ:
		return bo(Ge(p, q))
	case token.ADD:
		return bo(wrapInt(Add(p, q), rt))
	case token.SUB:
		return bo(wrapInt(Sub(p, q), rt))
	case token.MUL:
		return bo(wrapInt(Mul(p, q), rt))
	case token.QUO:
		x.safe(st, "div-zero", Ne(q, I(0)))
		return bo(wrapInt(truncDiv(p, q), rt))
	case token.REM:
		x.safe(st, "div-zero", Ne(q, I(0)))
		r := truncMod(p, q)
		if r.op == "app" && r.name == "rem" && !r.hasB {
			st.assume(Imp(And(Gt(q, I(0)), Le(I(0), p)), And(Le(I(0), r), Lt(r, q), Le(r, p))))
			st.assume(Imp(And(Gt(q, I(0)), Lt(p, I(0))), And(Lt(Neg(q), r), Le(r, I(0)), Le(p, r))))
			st.assume(Imp(And(Lt(p, q), Lt(Neg(q), p)), Eq(r, p)))
		}
		return bo(r)
	case token.SHL:
		if q.isInt() && q.n.IsInt64() && q.n.Int64() < 128 {
			return bo(wrapInt(Mul(p, IB(new(big.Int).Lsh(big.NewInt(1), uint(q.n.Int64())))), rt))
		}
		if p.isInt() && p.n.Cmp(big.NewInt(1)) == 0 {
			return bo(wrapInt(App("shl1", SInt, q), rt))
		}
	case token.SHR:
		if q.isInt() && q.n.IsInt64() && q.n.Int64() < 128 {
			return bo(DivE(p, IB(new(big.Int).Lsh(big.NewInt(1), uint(q.n.Int64())))))
		}
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if p.isInt() && q.isInt() {
			r := new(big.Int)
			switch op {
			case token.AND:
				r.And(p.n, q.n)
			case token.OR:
				r.Or(p.n, q.n)
			case token.XOR:
				r.Xor(p.n, q.n)
			case token.AND_NOT:
				r.AndNot(p.n, q.n)
			}
			return bo(wrapInt(IB(r), rt))
		}
		if op == token.AND {
			if p.isInt() {
				p, q = q, p
			}
			// canonical orientation: mask second. In x & m the mask is "n-1".
			if q.isInt() {
				n := new(big.Int).Add(q.n, big.NewInt(1))
				if q.n.Sign() >= 0 && new(big.Int).And(n, q.n).Sign() == 0 {
					return bo(ModE(p, IB(n)))
				}
			}
			r := App("band", SInt, p, q)
			if !r.hasB {
				n := Add(q, I(1))
				st.assume(Imp(Le(I(0), q), And(Le(I(0), r), Le(r, q))))
				st.assume(Imp(pow2(n), And(
					Imp(And(Le(Neg(n), p), Lt(p, I(0))), Eq(r, Add(p, n))),
					Imp(And(Le(I(0), p), Lt(p, n)), Eq(r, p)),
					Imp(And(Le(n, p), Lt(p, Mul(I(2), n))), Eq(r, Sub(p, n))))))
			}
			return bo(r)
		}
		nm := map[token.Token]string{token.OR: "bor", token.XOR: "bxor", token.AND_NOT: "bandnot"}[op]
		r := App(nm, SInt, p, q)
		if !r.hasB && isUnsigned(rt) {
			_, hi, _ := intRange(rt)
			st.assume(And(Le(I(0), r), Le(r, IB(hi))))
		}
		return bo(r)
	}
	x.unsupported("binop %s on %v", op, a.typ)
	return Val{}
}

func valEqGo(a, b Val) *Term {
	if _, ok := a.typ.Underlying().(*types.Slice); ok { // comparison with nil
		if b.ts[0].isInt() && b.ts[0].n.Sign() == 0 {
			return Eq(a.ts[0], I(0))
		}
		return Eq(b.ts[0], I(0))
	}
	return valEq(a, b)
}

func truncDiv(p, q *Term) *Term {
	if p.isInt() && q.isInt() && q.n.Sign() != 0 {
		return IB(new(big.Int).Quo(p.n, q.n))
	}
	return Ite(Le(I(0), p), DivE(p, q), Neg(DivE(Neg(p), q)))
}
func truncMod(p, q *Term) *Term {
	if p.isInt() && q.isInt() && q.n.Sign() != 0 {
		return IB(new(big.Int).Rem(p.n, q.n))
	}
	if !q.isInt() {
		return App("rem", SInt, p, q) // variable divisor: only range facts are used
	}
	return Ite(Le(I(0), p), ModE(p, q), Neg(ModE(Neg(p), q)))
}

// ---------- loops ----------

func (x *Exec) loopEnter(st *State, lp *loopInfo, b, pred *ssa.BasicBlock, k K) {
	fr := st.top()
	back := lp.body[pred]
	if ctx := fr.loops[b]; ctx != nil && back {
		if ctx.dry {
			return // end of dry path
		}
		// back edge: check invariants, stop
		pv := x.phiVals(st, b, pred)
		for p, v := range pv {
			fr.env[p] = v
			if p.Comment != "" {
				fr.names[p.Comment] = v
			}
		}
		x.paths++
		if x.paths > x.maxPaths {
			x.unsupported("path limit")
		}
		x.checkInv(st, lp, ctx, "preserved", pv)
		return
	}
	if back { // unrolled loop
		fr.unr[b]++
		spec := x.loopSpec(fr, lp)
		lim := 70
		if n := fr.unr[b]; (n == 2 || n == 6) && !x.satisfiable(st) {
			return // cannot be reached
		}
		if spec != nil && spec.unroll > 0 {
			lim = spec.unroll
		}
		if fr.unr[b] > lim {
			x.unsupported("loop %d of %s needs an invariant (unrolled %d times)", lp.ord, fr.fn.Name(), lim)
		}
		x.run(st, b, pred, k)
		return
	}
	spec := x.loopSpec(fr, lp)
	fr.unr[b] = 0
	delete(fr.loops, b)
	if spec == nil || (len(spec.inv) == 0 && spec.unroll > 0) {
		x.run(st, b, pred, k)
		return
	}
	// --- cut loop ---
	pv := x.phiVals(st, b, pred)
	for p, v := range pv {
		fr.env[p] = v
		if p.Comment != "" {
			fr.names[p.Comment] = v
		}
	}
	ctx := &loopCtx{spec: spec, entryHp: st.heap.clone(), entryAlc: st.alloc}
	x.checkInv(st, lp, ctx, "init", pv)
	if st.dead() {
		return
	}
	// dry runs to find the modified locations
	keys := x.dryLoop(st, lp, b, pv, spec)
	// havoc
	stamp := TT.stamp
	_ = stamp
	x.havocKeys(st, keys, ctx)
	na := Fresh("alloc", SInt)
	st.assume(Le(st.alloc, na))
	st.alloc = na
	x.havocPhis(st, b, pv)
	fr.loops[b] = ctx
	x.assumeInv(st, lp, ctx)
	if st.dead() {
		return
	}
	if spec.decreases != nil {
		ctx2 := *ctx
		ctx2.decVal = x.loopEnv(st, lp).evalInt(spec.decreases.e)
		fr.loops[b] = &ctx2
	}
	x.runFrom(st, b, 0, k)
}

func (x *Exec) loopSpec(fr *Frame, lp *loopInfo) *LoopSpec {
	c := x.w.contractFor(fr.fn)
	if fr.fn == x.fn {
		c = x.c
	}
	if c == nil {
		return nil
	}
	return c.loops[lp.ord]
}

func (x *Exec) havocPhis(st *State, b *ssa.BasicBlock, pv map[*ssa.Phi]Val) {
	fr := st.top()
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		// closures / interior pointers cannot be havocked
		v := x.freshVal(st, p.Type(), "phi_"+p.Comment)
		if pv[p].place != nil && pv[p].ts == nil {
			x.unsupported("loop-carried interior pointer %s", p.Comment)
		}
		fr.env[p] = v
		if p.Comment != "" {
			fr.names[p.Comment] = v
		}
	}
	// names of variables that may be re-bound inside the loop are refreshed by DebugRefs
}

type modKey struct {
	key   string
	sort  string
	fixed []*Term // loop-invariant first indices
	all   bool
}

func (x *Exec) dryLoop(st *State, lp *loopInfo, b *ssa.BasicBlock, pv map[*ssa.Phi]Val, spec *LoopSpec) []modKey {
	stamp := TT.stamp
	known := map[string]*modKey{}
	for round := 0; round < 6; round++ {
		s2 := st.clone()
		ctx := &loopCtx{dry: true, entryHp: st.heap.clone(), entryAlc: st.alloc}
		ctx.spec = spec
		rec := &recorder{keys: map[string]map[*Term]bool{}, sorts: map[string]string{}}
		x.dry++
		var mk []modKey
		for _, m := range known {
			mk = append(mk, *m)
		}
		sort.Slice(mk, func(i, j int) bool { return mk[i].key < mk[j].key })
		x.havocKeys(s2, mk, ctx)
		na := Fresh("alloc", SInt)
		s2.assume(Le(s2.alloc, na))
		s2.alloc = na
		x.havocPhis(s2, b, pv)
		fr := s2.top()
		fr.loops[b] = ctx
		x.assumeInv(s2, lp, ctx)
		x.recs = append(x.recs, rec)
		savedPaths := x.paths
		func() {
			defer func() {
				x.recs = x.recs[:len(x.recs)-1]
				x.dry--
				x.paths = savedPaths
			}()
			x.runLoopBody(s2, lp, b)
		}()
		changed := false
		for key, refs := range rec.keys {
			m := known[key]
			if m == nil {
				m = &modKey{key: key, sort: rec.sorts[key]}
				known[key] = m
				changed = true
			}
			if strings.HasPrefix(key, "ghost:") || strings.HasPrefix(key, "iter:") || strings.HasPrefix(key, "global:") {
				if !m.all {
					m.all = true
					changed = true
				}
				continue
			}
			var rs []*Term
			for r := range refs {
				rs = append(rs, r)
			}
			sort.Slice(rs, func(i, j int) bool { return rs[i].id < rs[j].id })
			for _, r := range rs {
				if r.maxc > stamp {
					if !m.all {
						m.all = true
						changed = true
					}
				} else {
					dup := false
					for _, f := range m.fixed {
						dup = dup || f == r
					}
					if !dup {
						m.fixed = append(m.fixed, r)
						changed = true
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	var mk []modKey
	for _, m := range known {
		mk = append(mk, *m)
	}
	sort.Slice(mk, func(i, j int) bool { return mk[i].key < mk[j].key })
	return mk
}

// runLoopBody executes one iteration of the loop from its (havocked) header;
// paths that leave the loop are abandoned.
func (x *Exec) runLoopBody(st *State, lp *loopInfo, b *ssa.BasicBlock) {
	fr := st.top()
	depth := len(st.frames)
	fr.loops[b].dry = true
	// exits: mark by intercepting enter via dryStop
	x.w.dryStops = append(x.w.dryStops, dryStop{lp, depth})
	defer func() { x.w.dryStops = x.w.dryStops[:len(x.w.dryStops)-1] }()
	x.runFrom(st, b, 0, func(*State, []Val) {})
}

type dryStop struct {
	lp    *loopInfo
	depth int
}

func (x *Exec) havocKeys(st *State, keys []modKey, ctx *loopCtx) {
	for _, m := range keys {
		h := x.heapGet(st.heap, m.key, m.sort)
		x.recordHavoc(m)
		if m.all || len(m.fixed) == 0 {
			nh := Fresh("H:"+m.key, m.sort)
			if ctx.spec != nil && len(ctx.frameRef) > 0 {
			}
			st.heap[m.key] = nh
			if strings.HasPrefix(m.key, "ghost:") || strings.HasPrefix(m.key, "iter:") || strings.HasPrefix(m.key, "global:") {
				continue
			}
			ctx.keys = append(ctx.keys, m.key)
			continue
		}
		for _, f := range m.fixed {
			h = Store(h, f, Fresh("hv:"+m.key, ElemSort(m.sort)))
		}
		st.heap[m.key] = h
	}
}
func (x *Exec) recordHavoc(m modKey) {
	for _, f := range m.fixed {
		x.record(m.key, []*Term{f}, m.sort)
	}
	if m.all {
		x.record(m.key, []*Term{Fresh("any", SInt)}, m.sort)
	}
	if !m.all && len(m.fixed) == 0 {
		x.record(m.key, nil, m.sort)
	}
}

func (x *Exec) loopEnv(st *State, lp *loopInfo) *SpecEnv {
	fr := st.top()
	env := x.specEnv(st)
	env.locals = fr.names
	env.lp = lp
	env.frame = fr
	if fr.fn == x.fn {
		env.params = x.params
	} else {
		env.params = map[string]Val{}
	}
	env.pkg = fr.fn
	if ctx := fr.loops[lp.header]; ctx != nil {
		env.loopHp = ctx.entryHp
		env.loopAlc = ctx.entryAlc
	}
	return env
}

// frame of a cut loop: heap arrays that are wholly havocked keep the contents of
// references that were allocated before the loop and are not in the frame list.
func (x *Exec) checkInv(st *State, lp *loopInfo, ctx *loopCtx, when string, pv map[*ssa.Phi]Val) {
	fr := st.top()
	save := fr.loops[lp.header]
	fr.loops[lp.header] = ctx
	defer func() { fr.loops[lp.header] = save }()
	env := x.loopEnv(st, lp)
	pre := ""
	if len(st.frames) > 1 {
		pre = "@" + fr.fn.Name()
	}
	for i, c := range ctx.spec.inv {
		lab := c.label
		if lab == "" {
			lab = fmt.Sprint(i)
		}
		x.assert(st, fmt.Sprintf("loop%d%s:inv-%s:%s", lp.ord, pre, when, lab), env.evalBool(c.e))
	}
	if when == "preserved" {
		for _, key := range ctx.keys {
			h1 := st.heap[key]
			h0 := x.heapGet(ctx.entryHp, key, h1.sort)
			if h0 == h1 {
				continue
			}
			refs, all := x.frameRefs(st, ctx, key)
			if all {
				continue
			}
			r := Fresh("fr", SInt)
			g := Imp(And(Lt(I(0), r), Lt(r, ctx.entryAlc), And(x.notIn(r, refs)...)), Eq(Select(h1, r), Select(h0, r)))
			x.assert(st, fmt.Sprintf("loop%d%s:frame:%s", lp.ord, pre, key), g)
		}
		if ctx.decVal != nil {
			d := env.evalInt(ctx.spec.decreases.e)
			x.assert(st, fmt.Sprintf("loop%d%s:decreases", lp.ord, pre), And(Le(I(0), ctx.decVal), Lt(d, ctx.decVal)))
		}
	}
}

func (x *Exec) notIn(r *Term, refs []*Term) []*Term {
	var out []*Term
	for _, f := range refs {
		out = append(out, Ne(r, f))
	}
	return out
}

// frameRefs: references the function may modify (from its modifies clause)
func (x *Exec) frameRefs(st *State, ctx *loopCtx, key string) ([]*Term, bool) {
	var out []*Term
	mods := x.modTargets(x.c, x.preEnv(st))
	for _, m := range mods {
		if m.key == key && m.all {
			return nil, true
		}
		if m.key == key {
			out = append(out, m.ref)
		}
	}
	// references written before the loop by this function (fresh objects) are < entryAlc too:
	// allow the slices/objects named by "hint" clauses of the contract
	for _, h := range x.c.hints {
		env := x.loopEnv2(st, ctx)
		v := env.eval(h.e)
		if len(v.ts) == 0 {
			continue
		}
		if sl, ok := v.typ.Underlying().(*types.Slice); ok {
			n := "[]" + tname(sl.Elem())
			if rest := strings.TrimPrefix(key, n); rest == key || rest != "" && rest[0] != '.' && rest[0] != '#' {
				continue
			}
		}
		out = append(out, v.ts[0])
	}
	return out, false
}
func (x *Exec) loopEnv2(st *State, ctx *loopCtx) *SpecEnv {
	env := x.specEnv(st)
	env.locals = st.top().names
	env.params = x.params
	env.frame = st.top()
	env.loopHp = ctx.entryHp
	env.loopAlc = ctx.entryAlc
	return env
}

func (x *Exec) assumeInv(st *State, lp *loopInfo, ctx *loopCtx) {
	env := x.loopEnv(st, lp)
	for _, c := range ctx.spec.inv {
		st.assume(env.evalBool(c.e))
	}
	for _, key := range ctx.keys {
		h1 := st.heap[key]
		h0 := x.heapGet(ctx.entryHp, key, h1.sort)
		if h0 == h1 {
			continue
		}
		refs, all := x.frameRefs(st, ctx, key)
		if all {
			continue
		}
		r := Bound("fr", SInt)
		st.assume(Forall([]*Term{r}, Imp(And(Lt(I(0), r), Lt(r, ctx.entryAlc), And(x.notIn(r, refs)...)), Eq(Select(h1, r), Select(h0, r))), Select(h1, r)))
	}
}

var debug = os.Getenv("GOVC_DEBUG") != ""

// normOff: an offset known to be zero is written as zero, so that the solvers' triggers see plain indices
func (x *Exec) normOff(st *State, t *Term) *Term {
	if st != nil && !t.isInt() && st.pcset[Eq(t, I(0))] {
		return I(0)
	}
	return t
}
