package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type loopInfo struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	ord    int
}
type loopsOf struct {
	byHeader map[*ssa.BasicBlock]*loopInfo
	list     []*loopInfo
}

type World struct {
	prog      *ssa.Program
	pkgs      []*ssa.Package
	fset      *token.FileSet
	db        *DB
	loopMemo  map[*ssa.Function]*loopsOf
	interned  map[*Term]*Place
	boxed     map[*Term]Val
	strIDs    map[string]int64
	strOf     map[int64]string
	funIDs    map[string]*Term
	funOf     map[*Term]*FuncVal
	tagIDs    map[string]int64
	tagTypes  map[int64]types.Type
	iterCtr   int
	dryStops  []dryStop
	defAx     map[string]*Term
	axioms    []*Term
	axiomText []string
	usedPow2  bool
	globMemo  map[string]*Val
	globInit  bool
	storedG   map[*ssa.Global]bool
	fnByKey   map[string]*ssa.Function
	trusted   map[string]bool
}

func NewWorld(repo string, patterns []string, db *DB) (*World, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: repo, Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range ps {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("loading: %s", strings.Join(errs, "; "))
	}
	prog, sp := ssautil.Packages(ps, ssa.GlobalDebug|ssa.InstantiateGenerics)
	prog.Build()
	w := &World{prog: prog, pkgs: sp, fset: prog.Fset, db: db,
		loopMemo: map[*ssa.Function]*loopsOf{}, interned: map[*Term]*Place{}, boxed: map[*Term]Val{},
		strIDs: map[string]int64{}, strOf: map[int64]string{}, funIDs: map[string]*Term{}, funOf: map[*Term]*FuncVal{},
		tagIDs: map[string]int64{}, tagTypes: map[int64]types.Type{}, defAx: map[string]*Term{}, globMemo: map[string]*Val{}, fnByKey: map[string]*ssa.Function{}, trusted: map[string]bool{}}
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg != nil && f.Synthetic == "" || f.Parent() != nil && f.Pkg != nil {
			w.fnByKey[fnKey(f)] = f
		}
	}
	// methods that nothing calls are still part of the code
	for _, pk := range sp {
		if pk == nil {
			continue
		}
		for _, m := range pk.Members {
			tn, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				ms := prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					if fo, ok := ms.At(i).Obj().(*types.Func); ok {
						if f := prog.FuncValue(fo); f != nil && f.Pkg == pk && f.Synthetic == "" {
							w.fnByKey[fnKey(f)] = f
						}
					}
				}
			}
		}
	}
	w.scanGlobals()
	return w, nil
}

func fnKey(f *ssa.Function) string {
	if f.Pkg == nil {
		return f.String()
	}
	for _, p := range f.Pkg.Prog.AllPackages() {
		_ = p
		break
	}
	return f.Pkg.Pkg.Name() + "." + f.RelString(f.Pkg.Pkg)
}

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := w.fset.Position(p)
	return fmt.Sprintf("%s:%d", filepath.Base(filepath.Dir(q.Filename))+"/"+filepath.Base(q.Filename), q.Line)
}

func (w *World) loops(f *ssa.Function) *loopsOf {
	if l, ok := w.loopMemo[f]; ok {
		return l
	}
	lo := &loopsOf{byHeader: map[*ssa.BasicBlock]*loopInfo{}}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li := lo.byHeader[s]
				if li == nil {
					li = &loopInfo{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					lo.byHeader[s] = li
					lo.list = append(lo.list, li)
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if li.body[n] {
						continue
					}
					li.body[n] = true
					stack = append(stack, n.Preds...)
				}
			}
		}
	}
	pos := func(l *loopInfo) token.Pos {
		best := token.Pos(1 << 40)
		for b := range l.body {
			for _, in := range b.Instrs {
				if p := in.Pos(); p.IsValid() && p < best {
					best = p
				}
			}
		}
		return best
	}
	sort.SliceStable(lo.list, func(i, j int) bool {
		pi, pj := pos(lo.list[i]), pos(lo.list[j])
		if pi != pj {
			return pi < pj
		}
		return len(lo.list[i].body) > len(lo.list[j].body)
	})
	for i, l := range lo.list {
		l.ord = i
	}
	w.loopMemo[f] = lo
	return lo
}

func (w *World) contractFor(f *ssa.Function) *Contract {
	if f.Pkg != nil {
		if c := w.db.contracts[fnKey(f)]; c != nil {
			return c
		}
	}
	if c := w.db.contracts[f.String()]; c != nil {
		return c
	}
	return nil
}

func (w *World) isPureExt(name string) bool {
	for _, p := range w.db.pureExt {
		if strings.HasSuffix(p, "*") && strings.HasPrefix(name, p[:len(p)-1]) || p == name {
			w.trusted["pure external: "+p] = true
			return true
		}
	}
	return false
}

func (w *World) funcID(f *FuncVal) *Term {
	key := f.fn.String()
	for _, b := range f.bind {
		for _, t := range b.ts {
			key += fmt.Sprintf(":%d", t.id)
		}
		if b.place != nil {
			key += ":" + b.place.key
			for _, t := range b.place.idx {
				key += fmt.Sprintf(":%d", t.id)
			}
		}
	}
	if t, ok := w.funIDs[key]; ok {
		return t
	}
	t := I(int64(len(w.funIDs) + 1))
	w.funIDs[key] = t
	w.funOf[t] = f
	return t
}

func (w *World) typeTag(t types.Type) int64 {
	k := types.TypeString(t, nil)
	if id, ok := w.tagIDs[k]; ok {
		return id
	}
	id := int64(len(w.tagIDs) + 1)
	w.tagIDs[k] = id
	w.tagTypes[id] = t
	return id
}
func (w *World) implements(tag int64, it types.Type) bool {
	t := w.tagTypes[tag]
	if t == nil {
		return false
	}
	return types.Implements(t, it.Underlying().(*types.Interface))
}

// ---------- globals ----------

// scanGlobals records which package-level variables are written outside package
// initialisation (those are genuinely mutable).
func (w *World) scanGlobals() {
	w.storedG = map[*ssa.Global]bool{}
	var root func(v ssa.Value) *ssa.Global
	root = func(v ssa.Value) *ssa.Global {
		switch u := v.(type) {
		case *ssa.Global:
			return u
		case *ssa.FieldAddr:
			return root(u.X)
		case *ssa.IndexAddr:
			return root(u.X)
		}
		return nil
	}
	for f := range ssautil.AllFunctions(w.prog) {
		if f.Pkg == nil {
			continue
		}
		isInit := f.Name() == "init" && f.Synthetic != ""
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && !isInit {
					if g := root(s.Addr); g != nil {
						w.storedG[g] = true
					}
				}
			}
		}
	}
}

// constGlobal: value of a global that is only assigned a constant (or errors.New) in init.
func (w *World) constGlobal(p *Place) *Val {
	if !strings.HasPrefix(p.key, "global:") || len(p.idx) != 0 {
		return nil
	}
	if v, ok := w.globMemo[p.key]; ok {
		return v
	}
	w.globMemo[p.key] = nil
	name := strings.TrimPrefix(p.key, "global:")
	parts := strings.Split(name, ".")
	for _, pk := range w.prog.AllPackages() {
		if pk.Pkg.Name() != parts[0] {
			continue
		}
		g, ok := pk.Members[parts[1]].(*ssa.Global)
		if !ok {
			continue
		}
		el, _ := isPtrTo(g.Type())
		if w.storedG[g] {
			return nil
		}
		// external package variable of interface (error) type: distinct opaque non-nil constant
		if isErrorType(el) && len(parts) == 2 {
			c := Const("gref:"+name, SInt)
			t := Const("gtag:"+name, SInt)
			w.axioms = append(w.axioms, Lt(I(0), c), Lt(I(0), t))
			for k, v := range w.globMemo {
				if v != nil && isErrorType(v.typ) && k != p.key {
					w.axioms = append(w.axioms, Ne(v.ts[1], c))
				}
			}
			v := &Val{typ: el, ts: []*Term{t, c}}
			w.globMemo[p.key] = v
			w.trusted["package-level error variables are distinct, non-nil and never reassigned"] = true
			return v
		}
		v := w.initValue(pk, g, parts[2:], p.typ)
		w.globMemo[p.key] = v
		if v != nil {
			w.trusted["package-level variables initialised with constants are never reassigned by clients"] = true
		}
		return v
	}
	return nil
}

func isErrorType(t types.Type) bool { return t != nil && types.TypeString(t, nil) == "error" }

func (w *World) initValue(pk *ssa.Package, g *ssa.Global, path []string, typ types.Type) *Val {
	init := pk.Func("init")
	if init == nil || len(init.Blocks) == 0 {
		return nil
	}
	res := zeroVal(typ)
	found := false
	// a composite literal is built in a temporary and copied as a whole
	var via *ssa.Alloc
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
				if ld, ok := s.Val.(*ssa.UnOp); ok && ld.Op == token.MUL {
					if al, ok := ld.X.(*ssa.Alloc); ok && via == nil && constTemp(al) {
						via = al
						continue
					}
				}
				if _, isC := s.Val.(*ssa.Const); !isC {
					return nil
				}
			}
		}
	}
	var chain func(v ssa.Value) ([]string, bool)
	chain = func(v ssa.Value) ([]string, bool) {
		switch u := v.(type) {
		case *ssa.Global:
			return nil, u == g
		case *ssa.Alloc:
			return nil, u == via
		case *ssa.FieldAddr:
			c, ok := chain(u.X)
			if !ok {
				return nil, false
			}
			el, _ := isPtrTo(u.X.Type())
			return append(c, el.Underlying().(*types.Struct).Field(u.Field).Name()), true
		}
		return nil, false
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if via != nil && s.Addr == ssa.Value(g) {
				continue
			}
			c, ok := chain(s.Addr)
			if !ok {
				continue
			}
			// relation between c and path
			cs, ps := "."+strings.Join(c, "."), "."+strings.Join(path, ".")
			if len(c) == 0 {
				cs = ""
			}
			if len(path) == 0 {
				ps = ""
			}
			cv, isC := s.Val.(*ssa.Const)
			if !isC {
				if strings.HasPrefix(cs, ps) || strings.HasPrefix(ps, cs) {
					return nil
				}
				continue
			}
			if !strings.HasPrefix(cs, ps) {
				if strings.HasPrefix(ps, cs) {
					return nil
				}
				continue
			}
			var val Val
			if cv.Value == nil {
				val = zeroVal(cv.Type())
			} else {
				val = w.goConst(cv.Value, cv.Type())
			}
			rel := strings.TrimPrefix(cs, ps)
			j := 0
			for i, l := range leavesOf(typ) {
				if l.path == rel || strings.HasPrefix(l.path, rel+".") || strings.HasPrefix(l.path, rel+"#") || rel == "" {
					if j < len(val.ts) {
						res.ts[i] = val.ts[j]
						j++
					}
				}
			}
			found = true
		}
	}
	if !found {
		if _, ok := typ.Underlying().(*types.Basic); !ok {
			return nil
		}
	}
	return &res
}

// constTemp: a temporary used for nothing but storing constants into its fields and one load.
func constTemp(al *ssa.Alloc) bool {
	loads := 0
	var ok func(v ssa.Value) bool
	ok = func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch u := r.(type) {
			case *ssa.FieldAddr:
				if !ok(u) {
					return false
				}
			case *ssa.Store:
				if _, isC := u.Val.(*ssa.Const); !isC || u.Addr != v {
					return false
				}
			case *ssa.UnOp:
				loads++
			case *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	}
	return ok(al) && loads == 1
}

// ---------- axioms ----------

func (w *World) axiomsFor(as []*Term) []*Term {
	syms := map[string]bool{}
	seen := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "app" || t.op == "const" {
			syms[t.name] = true
		}
		for _, a := range t.args {
			visit(a)
		}
		for _, a := range t.pats {
			visit(a)
		}
	}
	for _, a := range as {
		visit(a)
	}
	var out []*Term
	used := map[*Term]bool{}
	for changed := true; changed; {
		changed = false
		for _, n := range sortedKeys(w.defAx) {
			ax := w.defAx[n]
			if syms[n] && !used[ax] {
				used[ax] = true
				out = append(out, ax)
				visit(ax)
				changed = true
			}
		}
		for _, ax := range w.axioms {
			if used[ax] {
				continue
			}
			hit := false
			m := map[*Term]bool{}
			var look func(t *Term)
			look = func(t *Term) {
				if m[t] || hit {
					return
				}
				m[t] = true
				if (t.op == "app" || t.op == "const") && syms[t.name] {
					hit = true
				}
				for _, a := range t.args {
					look(a)
				}
			}
			look(ax)
			if hit {
				used[ax] = true
				out = append(out, ax)
				visit(ax)
				changed = true
			}
		}
	}
	if syms["pow2"] {
		ax := []*Term{pow2(I(1)), pow2(I(64)), pow2(I(128))}
		var gs []*Term
		for t := range seen {
			if t.op == "app" && t.name == "pow2" && !t.hasB {
				gs = append(gs, t)
			}
		}
		sort.Slice(gs, func(i, j int) bool { return gs[i].id < gs[j].id })
		gs = append(gs, pow2(I(64)))
		// ground instances: positivity, halving, doubling (no quantifier: avoids matching loops)
		for _, g := range gs {
			n := g.args[0]
			half := DivE(n, I(2))
			ax = append(ax, Imp(g, Lt(I(0), n)), Imp(g, Or(Eq(n, I(1)), And(Eq(n, Mul(I(2), half)), pow2(half)))))
			for _, h := range gs {
				if g != h {
					ax = append(ax, Imp(And(g, Eq(h.args[0], Mul(I(2), n))), h))
					ax = append(ax, Imp(And(g, h, Lt(n, h.args[0])), Le(Mul(I(2), n), h.args[0])))
					ax = append(ax, Imp(And(g, Lt(I(1), n), Eq(n, Mul(I(2), h.args[0]))), h))
				}
			}
		}
		out = append(out, ax...)
		w.usedPow2 = true
		w.trusted["power-of-two axioms for masks x&(n-1) (re-proved each run as bit-vector lemmas)"] = true
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (w *World) lookupType(pkg *types.Package, name string) types.Type {
	if strings.HasPrefix(name, "*") {
		t := w.lookupType(pkg, name[1:])
		if t == nil {
			return nil
		}
		return types.NewPointer(t)
	}
	if strings.HasPrefix(name, "[]") {
		t := w.lookupType(pkg, name[2:])
		if t == nil {
			return nil
		}
		return types.NewSlice(t)
	}
	if o := types.Universe.Lookup(name); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	if p, n, ok := strings.Cut(name, "."); ok {
		if pk := w.importedPkg(pkg, p); pk != nil {
			if tn, ok := pk.Scope().Lookup(n).(*types.TypeName); ok {
				return tn.Type()
			}
		}
		return nil
	}
	if pkg != nil {
		if tn, ok := pkg.Scope().Lookup(name).(*types.TypeName); ok {
			return tn.Type()
		}
	}
	return nil
}

func (w *World) importedPkg(pkg *types.Package, name string) *types.Package {
	if pkg != nil {
		if pkg.Name() == name {
			return pkg
		}
		for _, i := range pkg.Imports() {
			if i.Name() == name {
				return i
			}
		}
	}
	for _, p := range w.prog.AllPackages() {
		if p.Pkg.Name() == name && strings.Contains(p.Pkg.Path(), "uax") {
			return p.Pkg
		}
	}
	for _, p := range w.prog.AllPackages() {
		if p.Pkg.Name() == name {
			return p.Pkg
		}
	}
	return nil
}

func (w *World) pkgMember(pkg *types.Package, name string) (Val, bool) {
	o := pkg.Scope().Lookup(name)
	switch v := o.(type) {
	case *types.Const:
		if v.Val().Kind() == constant.Int || v.Val().Kind() == constant.Bool || v.Val().Kind() == constant.String {
			return w.goConst(v.Val(), v.Type()), true
		}
	case *types.Var:
		return Val{typ: types.NewPointer(v.Type()), place: &Place{key: "global:" + pkg.Name() + "." + name, typ: v.Type()}}, true
	case *types.Func:
		if f := w.fnByKey[pkg.Name()+"."+name]; f != nil {
			fv := &FuncVal{fn: f}
			return Val{typ: f.Type(), fn: fv, ts: []*Term{w.funcID(fv)}}, true
		}
	}
	return Val{}, false
}
