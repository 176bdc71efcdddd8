package main

// Values, places and the field-based memory model.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Leaf struct {
	path string
	sort string
	typ  types.Type // Go type of the scalar, or nil
	kind string     // scalar kind: "int","bool","ref","arr","off","len","cap","strid","stroff","strlen","tag","val","func","inner"
}

type Place struct {
	key     string  // heap key prefix
	idx     []*Term // index terms
	typ     types.Type
	rootArr bool // typ is an array that is itself an allocated array object
}

type FuncVal struct {
	fn   *ssa.Function
	bind []Val
}

type Val struct {
	typ    types.Type
	ts     []*Term
	place  *Place
	fn     *FuncVal
	tuple  []Val
	iter   *iterVal
	isNilC bool // untyped nil in specs
}

type iterVal struct {
	str Val
	m   Val
	id  int
}

func qual(p *types.Package) string { return p.Name() }
func tname(t types.Type) string    { return types.TypeString(types.Unalias(t), qual) }

var leafCache = map[string][]Leaf{}

func leavesOf(t types.Type) []Leaf {
	k := types.TypeString(t, nil)
	if l, ok := leafCache[k]; ok {
		return l
	}
	l := leaves0(t)
	leafCache[k] = l
	return l
}

func leaves0(t types.Type) []Leaf {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UntypedNil:
			return []Leaf{{"", SInt, t, "ref"}}
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{"", SBool, t, "bool"}}
		case u.Info()&types.IsString != 0:
			return []Leaf{{"#id", SInt, t, "strid"}, {"#off", SInt, t, "stroff"}, {"#len", SInt, t, "strlen"}}
		default: // ints, floats (opaque), unsafe pointer
			return []Leaf{{"", SInt, t, "int"}}
		}
	case *types.Pointer, *types.Map, *types.Chan:
		return []Leaf{{"", SInt, t, "ref"}}
	case *types.Signature:
		return []Leaf{{"", SInt, t, "func"}}
	case *types.Slice:
		return []Leaf{{"#arr", SInt, t, "arr"}, {"#off", SInt, t, "off"}, {"#len", SInt, t, "len"}, {"#cap", SInt, t, "cap"}}
	case *types.Interface:
		return []Leaf{{"#tag", SInt, t, "tag"}, {"#val", SInt, t, "val"}}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range leavesOf(f.Type()) {
				l.path = "." + f.Name() + l.path
				out = append(out, l)
			}
		}
		return out
	case *types.Array:
		var out []Leaf
		for _, l := range leavesOf(u.Elem()) {
			out = append(out, Leaf{"[]" + tname(u.Elem()) + l.path, ArrSort(l.sort), l.typ, "inner"})
		}
		return out
	case *types.Tuple:
		return nil
	}
	panic(unsupported("type " + t.String()))
}

type unsupported string

func (u unsupported) Error() string { return "unsupported: " + string(u) }

func rootKey(t types.Type) (string, bool) {
	if _, ok := t.Underlying().(*types.Array); ok {
		return "", true
	}
	if _, ok := t.Underlying().(*types.Struct); ok {
		return tname(t), false
	}
	return "cell:" + tname(t), false
}

func derefPlace(elem types.Type, ref *Term) *Place {
	k, ra := rootKey(elem)
	return &Place{key: k, idx: []*Term{ref}, typ: elem, rootArr: ra}
}

func fieldPlace(p *Place, i int) *Place {
	st := p.typ.Underlying().(*types.Struct)
	f := st.Field(i)
	return &Place{key: p.key + "." + f.Name(), idx: p.idx, typ: f.Type()}
}
func elemPlace(p *Place, i *Term) *Place {
	at := p.typ.Underlying().(*types.Array)
	idx := append(append([]*Term{}, p.idx...), i)
	return &Place{key: p.key + "[]" + tname(at.Elem()), idx: idx, typ: at.Elem()}
}
func sliceElemPlace(elem types.Type, arr, i *Term) *Place {
	return &Place{key: "[]" + tname(elem), idx: []*Term{arr, i}, typ: elem}
}

func nestSort(n int, s string) string {
	for i := 0; i < n; i++ {
		s = ArrSort(s)
	}
	return s
}

type Heap map[string]*Term

func (h Heap) clone() Heap {
	n := make(Heap, len(h))
	for k, v := range h {
		n[k] = v
	}
	return n
}

func heapInit(key, sort string) *Term { return Const("H:"+key, sort) }

func (h Heap) get(key, sort string) *Term {
	if t, ok := h[key]; ok {
		if t.sort != sort {
			panic(fmt.Sprintf("heap sort clash %s: %s vs %s", key, t.sort, sort))
		}
		return t
	}
	t := heapInit(key, sort)
	h[key] = t
	return t
}

func zeroTerm(sort string) *Term {
	switch sort {
	case SInt:
		return I(0)
	case SBool:
		return False
	}
	return ConstArr(zeroTerm(ElemSort(sort)))
}

func zeroVal(t types.Type) Val {
	v := Val{typ: t}
	if tp, ok := t.(*types.Tuple); ok {
		for i := 0; i < tp.Len(); i++ {
			v.tuple = append(v.tuple, zeroVal(tp.At(i).Type()))
		}
		return v
	}
	for _, l := range leavesOf(t) {
		v.ts = append(v.ts, zeroTerm(l.sort))
	}
	return v
}

func nestedStore(a *Term, idx []*Term, v *Term) *Term {
	if len(idx) == 0 {
		return v
	}
	if len(idx) == 1 {
		return Store(a, idx[0], v)
	}
	return Store(a, idx[0], nestedStore(Select(a, idx[0]), idx[1:], v))
}
func nestedSelect(a *Term, idx []*Term) *Term {
	for _, i := range idx {
		a = Select(a, i)
	}
	return a
}

// placeLeaves: heap keys and sorts of the leaves at p
func placeLeaves(p *Place) []Leaf {
	out := []Leaf{}
	for _, l := range leavesOf(p.typ) {
		out = append(out, Leaf{p.key + l.path, nestSort(len(p.idx), l.sort), l.typ, l.kind})
	}
	return out
}

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return nil, nil, false
	}
	bits := 0
	uns := false
	switch b.Kind() {
	case types.Int8:
		bits = 8
	case types.Int16:
		bits = 16
	case types.Int32, types.UntypedRune:
		bits = 32
	case types.Int, types.Int64:
		bits = 64
	case types.Uint8:
		bits, uns = 8, true
	case types.Uint16:
		bits, uns = 16, true
	case types.Uint32:
		bits, uns = 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		bits, uns = 64, true
	default:
		return nil, nil, false
	}
	one := big.NewInt(1)
	if uns {
		return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one), true
	}
	h := new(big.Int).Lsh(one, uint(bits-1))
	return new(big.Int).Neg(h), new(big.Int).Sub(h, one), true
}

func isUnsigned(t types.Type) bool {
	lo, _, ok := intRange(t)
	return ok && lo.Sign() == 0
}

// wrapInt normalises an arithmetic result to the range of t. 64-bit signed
// arithmetic is treated as mathematical (documented assumption).
func wrapInt(v *Term, t types.Type) *Term {
	lo, hi, ok := intRange(t)
	if !ok {
		return v
	}
	if v.isInt() {
		sz := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
		r := new(big.Int).Sub(v.n, lo)
		r.Mod(r, sz)
		r.Add(r, lo)
		return IB(r)
	}
	if b := t.Underlying().(*types.Basic); b.Kind() == types.Int || b.Kind() == types.Int64 {
		return v
	}
	sz := IB(new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1)))
	// linear form valid whenever one wrap suffices; the exact mod otherwise
	if lo.Sign() == 0 {
		return App2Wrap(v, I(0), IB(hi), sz)
	}
	return App2Wrap(v, IB(lo), IB(hi), sz)
}

func App2Wrap(v, lo, hi, sz *Term) *Term {
	in := And(Le(lo, v), Le(v, hi))
	if in == True {
		return v
	}
	return Ite(in, v, Add(ModE(Sub(v, lo), sz), lo))
}

// typing facts of a value: ranges, slice shape, allocated references
func typeFacts(v Val, alloc *Term) []*Term {
	var out []*Term
	ls := leavesOf(v.typ)
	for i, l := range ls {
		t := v.ts[i]
		switch l.kind {
		case "int":
			if lo, hi, ok := intRange(l.typ); ok && !t.isInt() {
				out = append(out, Le(IB(lo), t), Le(t, IB(hi)))
			}
		case "ref":
			if !t.isInt() {
				out = append(out, Le(I(0), t))
				if alloc != nil {
					out = append(out, Lt(t, alloc))
				}
			}
		case "arr":
			if i+3 < len(v.ts) {
				off, ln, cp := v.ts[i+1], v.ts[i+2], v.ts[i+3]
				out = append(out, Le(I(0), t), Le(I(0), off), Le(I(0), ln), Le(ln, cp), Imp(Eq(t, I(0)), Eq(cp, I(0))), Le(cp, maxLen))
				if alloc != nil {
					out = append(out, Lt(t, alloc))
				}
			}
		case "strlen":
			out = append(out, Le(I(0), t), Le(t, maxLen), Le(I(0), v.ts[i-1]))
		case "tag":
			out = append(out, Le(I(0), t))
			// pointer payloads are allocated or nil
			out = append(out, Le(I(0), v.ts[i+1]), Imp(Eq(t, I(0)), Eq(v.ts[i+1], I(0))))
			if alloc != nil {
				out = append(out, Lt(v.ts[i+1], alloc))
			}
		case "func":
			out = append(out, Le(I(0), t))
		}
	}
	res := out[:0]
	for _, f := range out {
		if f != True {
			res = append(res, f)
		}
	}
	return res
}

var maxLen = IB(new(big.Int).Lsh(big.NewInt(1), 48))

func subVal(v Val, i int) Val { // struct field i
	st := v.typ.Underlying().(*types.Struct)
	off := 0
	for j := 0; j < i; j++ {
		off += len(leavesOf(st.Field(j).Type()))
	}
	ft := st.Field(i).Type()
	n := len(leavesOf(ft))
	return Val{typ: ft, ts: v.ts[off : off+n]}
}

func iteVal(c *Term, a, b Val) Val {
	r := Val{typ: a.typ}
	for i := range a.ts {
		r.ts = append(r.ts, Ite(c, a.ts[i], b.ts[i]))
	}
	return r
}

func valEq(a, b Val) *Term {
	if len(a.ts) != len(b.ts) {
		panic(unsupported(fmt.Sprintf("comparison of %v and %v", a.typ, b.typ)))
	}
	if a.typ != nil {
		if _, ok := a.typ.Underlying().(*types.Slice); ok { // only vs nil in Go; in specs: identity
			var cs []*Term
			for i := 0; i < 3; i++ {
				cs = append(cs, Eq(a.ts[i], b.ts[i]))
			}
			return And(cs...)
		}
	}
	var cs []*Term
	for i := range a.ts {
		cs = append(cs, Eq(a.ts[i], b.ts[i]))
	}
	return And(cs...)
}

func isPtrTo(t types.Type) (types.Type, bool) {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	return p.Elem(), true
}

func trimPkg(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		return s[i+1:]
	}
	return s
}
