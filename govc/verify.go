package main

// Per-function verification: entry state, postconditions, frame, panics.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type FuncReport struct {
	Key      string
	Obls     []*Oblig
	Returns  int
	Panics   int
	Paths    int
	Used     []string
	Inlined  []string
	FeasQ    int
	GenTime  time.Duration
	Problem  string // structural failure: unsupported construct, missing function, ...
	Vacuous  bool
	Gone     bool
	Kind     string // "function", "lemma"
	Contract *Contract
	x        *Exec
}

func newExec(w *World, c *Contract, fn *ssa.Function) *Exec {
	return &Exec{w: w, c: c, fn: fn, used: map[string]bool{}, inlined: map[string]bool{}, maxPaths: 4000, params: map[string]Val{}}
}

func verifyFunc(w *World, c *Contract) *FuncReport {
	// renamed locals: when an invariant mentions an unknown name, retry with the
	// names that exist in the function bound to the loop header instead.
	fn := w.fnByKey[c.key]
	rep := &FuncReport{Key: c.key, Kind: "function", Contract: c}
	if fn == nil {
		rep.Problem = "no function " + c.key + " in the current source"
		// an internal helper which is gone (renamed, inlined) leaves its callers' contracts to be proved without it
		rep.Gone = !exportedKey(c.key)
		return rep
	}
	var missing string
	try := func(role map[string]string) *FuncReport {
		return verifyOnce(w, c, fn, role)
	}
	rep = try(nil)
	if !strings.HasPrefix(rep.Problem, "missing name ") {
		return rep
	}
	missing = strings.TrimPrefix(rep.Problem, "missing name ")
	// candidates: names of phi nodes and debug refs in fn
	cand := localNames(fn)
	role := map[string]string{}
	budget := 24
	var search func() *FuncReport
	search = func() *FuncReport {
		r := try(role)
		if !strings.HasPrefix(r.Problem, "missing name ") {
			return r
		}
		m := strings.TrimPrefix(r.Problem, "missing name ")
		if _, has := role[m]; has {
			return r
		}
		best := r
		for _, cn := range cand {
			if budget <= 0 {
				return best
			}
			budget--
			role[m] = cn
			r2 := search()
			if r2.Problem == "" && proveAll(r2, 5, 4) {
				return r2
			}
			delete(role, m)
		}
		return best
	}
	r2 := search()
	if r2.Problem != "" {
		rep.Problem = "contract mentions local name " + missing + " which no longer exists (" + r2.Problem + ")"
		return rep
	}
	return r2
}

// exportedKey: is this a function of the package's API?
func exportedKey(key string) bool {
	_, n, _ := strings.Cut(key, ".")
	up := func(s string) bool { return s != "" && s[0] >= 'A' && s[0] <= 'Z' }
	if strings.HasPrefix(n, "(") {
		t, m, _ := strings.Cut(strings.TrimPrefix(n, "("), ").")
		return up(strings.TrimPrefix(t, "*")) && up(m)
	}
	return up(n)
}

func localNames(fn *ssa.Function) []string {
	m := map[string]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if p, ok := in.(*ssa.Phi); ok && p.Comment != "" {
				m[p.Comment] = true
			}
			if d, ok := in.(*ssa.DebugRef); ok && d.Object() != nil {
				if v, ok := d.Object().(*types.Var); ok && !v.IsField() {
					m[v.Name()] = true
				}
			}
		}
	}
	for _, p := range fn.Params {
		delete(m, p.Name())
	}
	return sortedKeys(m)
}

func verifyOnce(w *World, c *Contract, fn *ssa.Function, role map[string]string) (rep *FuncReport) {
	t0 := time.Now()
	x := newExec(w, c, fn)
	x.roleMap = role
	rep = &FuncReport{Key: c.key, Kind: "function", Contract: c, x: x}
	w.dryStops = nil
	defer func() {
		rep.GenTime = time.Since(t0)
		rep.Obls = x.obls
		rep.Used = sortedKeys(x.used)
		rep.Inlined = sortedKeys(x.inlined)
		rep.FeasQ = x.feasQ
		rep.Paths = x.paths
		if x.z != nil {
			x.z.close()
		}
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupported:
				rep.Problem = e.Error()
			case missingIdent:
				rep.Problem = "missing name " + e.name
			case error:
				if debug {
					panic(r)
				}
				rep.Problem = "internal: " + e.Error()
			default:
				if debug {
					panic(r)
				}
				rep.Problem = fmt.Sprint("internal: ", r)
			}
		}
	}()
	st := &State{heap: Heap{}, alloc: Const("alloc0", SInt), pcset: map[*Term]bool{}}
	st.assume(Le(I(1), st.alloc))
	x.entryAlc = st.alloc
	x.entryHp = Heap{}
	var args, bind []Val
	for i, p := range fn.Params {
		v := x.paramVal(st, p.Type(), p.Name())
		if i == 0 && fn.Signature.Recv() != nil {
			if _, ok := isPtrTo(p.Type()); ok {
				st.assume(Ne(v.ts[0], I(0)))
			}
		}
		args = append(args, v)
		x.params[p.Name()] = v
		x.params[fmt.Sprintf("$%d", i)] = v
		if i < len(c.params) {
			x.params[c.params[i]] = v
		}
	}
	for _, p := range fn.FreeVars {
		v := x.paramVal(st, p.Type(), p.Name())
		if _, ok := isPtrTo(p.Type()); ok {
			st.assume(Ne(v.ts[0], I(0)))
		}
		bind = append(bind, v)
		x.params[p.Name()] = v
		x.params["&"+p.Name()] = v
	}
	if len(c.attrs) > 0 || c.implem != "" {
		self := Val{typ: fn.Signature, ts: []*Term{Const("p:self", SInt)}}
		st.assume(Lt(I(0), self.ts[0]))
		x.params["self"] = self
	}
	env := x.preEnv(st)
	env.heap = st.heap
	for _, r := range append(append([]Clause{}, c.creates...), c.attrs...) {
		st.assume(env.evalBool(r.e))
	}
	for _, r := range c.requires {
		st.assume(env.evalBool(r.e))
	}
	for _, r := range c.assumes {
		st.assume(env.evalBool(r.e))
		x.used["ASSUMED at entry of "+c.key+": "+r.text] = true
	}
	if !x.feasible(st, Eq(I(0), I(0))) || st.dead() || !x.satisfiable(st) {
		rep.Vacuous = true
		rep.Problem = "vacuous: the precondition is contradictory"
		return
	}
	x.entryHp = st.heap.clone()
	x.callFn(st, fn, args, bind, func(s2 *State, res []Val) {
		x.atReturn(s2, c, res)
	})
	rep.Returns = x.returns
	if x.returns == 0 && c.panics == nil {
		rep.Problem = "vacuous: no return is reachable"
	}
	return
}

func (x *Exec) paramVal(st *State, t types.Type, name string) Val {
	v := Val{typ: t}
	for _, l := range leavesOf(t) {
		v.ts = append(v.ts, Const("p:"+name+l.path, l.sort))
	}
	x.assumeFacts(st, v)
	return v
}

func (x *Exec) satisfiable(st *State) bool {
	if st.dead() {
		return false
	}
	as := append([]*Term{}, st.pc...)
	as = append(as, x.w.axiomsFor(as)...)
	if x.z == nil {
		x.z = startZ3()
	}
	return x.z.check(Script(as), 1000) != "unsat"
}

func (x *Exec) atReturn(st *State, c *Contract, res []Val) {
	if st.dead() {
		return
	}
	x.returns++
	pre := x.preEnv(st)
	if c.panics != nil {
		x.assert(st, "panics-exactly-when", Not(pre.evalBool(c.panics.e)))
	}
	env := x.specEnv(st)
	env.params = x.params
	for i := range res {
		res[i] = x.flatKeep(res[i])
	}
	env.results = res
	env.resN = c.results
	if len(c.results) == 0 {
		rt := x.fn.Signature.Results()
		for i := 0; i < rt.Len(); i++ {
			env.resN = append(env.resN, rt.At(i).Name())
		}
	}
	for i, e := range c.ensures {
		lab := e.label
		if lab == "" {
			lab = fmt.Sprint(i)
		}
		// split top-level conjunctions for better diagnostics
		g := env.evalBool(e.e)
		st2 := st
		if g.op == "and" && len(g.args) <= 12 {
			for _, a := range g.args {
				x.assert(st2, "post:"+lab, a)
			}
		} else {
			x.assert(st2, "post:"+lab, g)
		}
	}
	x.checkFrame(st, c)
}

func (x *Exec) flatKeep(v Val) Val {
	if v.place != nil && v.ts == nil {
		p := v.place
		v = x.flat(v)
		v.place = p
	}
	return v
}

func (x *Exec) checkFrame(st *State, c *Contract) {
	mods := x.modTargets(c, x.preEnv(st))
	keys := sortedKeys(st.heap)
	for _, key := range keys {
		h1 := st.heap[key]
		if strings.HasPrefix(key, "iter:") {
			continue
		}
		h0 := x.heapGet(x.entryHp, key, h1.sort)
		if h0 == h1 {
			continue
		}
		var refs []*Term
		all := false
		type sub struct{ r, i *Term }
		var subs []sub
		for _, m := range mods {
			if m.key != key {
				continue
			}
			switch {
			case m.all:
				all = true
			case len(m.idx) == 1:
				refs = append(refs, m.ref)
			default:
				subs = append(subs, sub{m.idx[0], m.idx[1]})
			}
		}
		if all {
			continue
		}
		if strings.HasPrefix(key, "ghost:") || strings.HasPrefix(key, "global:") {
			x.assert(st, "frame:"+key, Eq(h1, h0))
			continue
		}
		r := Fresh("fr", SInt)
		cond := []*Term{Lt(I(0), r), Lt(r, x.entryAlc)}
		cond = append(cond, x.notIn(r, refs)...)
		if len(subs) == 0 {
			x.assert(st, "frame:"+key, Imp(And(cond...), Eq(Select(h1, r), Select(h0, r))))
			continue
		}
		i := Fresh("fri", SInt)
		for _, s := range subs {
			cond = append(cond, Or(Ne(r, s.r), Ne(i, s.i)))
		}
		x.assert(st, "frame:"+key, Imp(And(cond...), Eq(Select(Select(h1, r), i), Select(Select(h0, r), i))))
	}
}

// ---------- lemmas ----------

// lemmaTerm builds (vars, hypothesis, conclusion)
func (w *World) lemmaTerms(l *Lemma, x *Exec) (vars []*Term, hyp, con *Term, ind *Term, pats []*Term) {
	e := &SpecEnv{x: x, bound: map[string]Val{}, heap: Heap{}, oldHeap: Heap{}, inQ: true}
	e.pkgT = w.pkgNamed(l.pkg)
	for i, v := range l.vars {
		b := Bound(fmt.Sprintf("%s_l%d", v.name, i), sortOf(v.typ))
		vars = append(vars, b)
		bv := Val{ts: []*Term{b}}
		if b.sort == SInt {
			bv.typ = intT
		} else if b.sort == SBool {
			bv.typ = boolT
		}
		e.bound[v.name] = bv
		if v.name == l.induct {
			ind = b
		}
	}
	hyp, con = True, True
	for _, r := range l.requires {
		hyp = And(hyp, e.evalBool(r.e))
	}
	for _, r := range l.ensures {
		con = And(con, e.evalBool(r.e))
	}
	for _, p := range l.pats {
		pats = append(pats, e.flat(e.eval(p)).ts[0])
	}
	return
}

func (w *World) pkgNamed(n string) *types.Package {
	for _, p := range w.pkgs {
		if p != nil && p.Pkg.Name() == n {
			return p.Pkg
		}
	}
	return nil
}

// installLemmas proves nothing; it adds axioms and (to be proved separately) lemmas
// to the axiom set in declaration order. Returns proof reports for the lemmas.
func (w *World) installLemmas() []*FuncReport {
	var reps []*FuncReport
	x := newExec(w, &Contract{key: "lemma"}, nil)
	x.entryHp = Heap{}
	for i := range w.db.axioms {
		a := &w.db.axioms[i]
		e := &SpecEnv{x: x, bound: map[string]Val{}, heap: Heap{}, oldHeap: Heap{}, pkgT: w.pkgNamed(a.pkg)}
		for _, c := range a.ensures {
			w.axioms = append(w.axioms, e.evalBool(c.e))
			w.axiomText = append(w.axiomText, a.name+": "+strings.TrimSpace(c.text))
		}
	}
	for i := range w.db.lemmas {
		l := &w.db.lemmas[i]
		if w.pkgNamed(l.pkg) == nil {
			continue // its package is not part of this run
		}
		rep := &FuncReport{Key: "lemma " + l.name, Kind: "lemma", Contract: &Contract{key: "lemma " + l.name, props: l.props}}
		vars, hyp, con, ind, pats := w.lemmaTerms(l, x)
		m := map[*Term]*Term{}
		for _, v := range vars {
			m[v] = Fresh("lm_"+strings.SplitN(v.name, "_l", 2)[0], v.sort)
		}
		h1, c1 := Subst(hyp, m), Subst(con, m)
		asserts := []*Term{h1}
		if ind != nil {
			// strong induction: the lemma holds for all smaller non-negative values
			iv := Bound("ih_"+ind.name, SInt)
			m2 := map[*Term]*Term{ind: iv}
			var qv []*Term
			for _, v := range vars {
				if v == ind {
					qv = append(qv, iv)
				} else {
					qv = append(qv, v)
				}
			}
			var ps []*Term
			for _, p := range pats {
				ps = append(ps, Subst(p, m2))
			}
			ih := Forall(qv, Imp(And(Le(I(0), iv), Lt(iv, m[ind]), Subst(hyp, m2)), Subst(con, m2)), ps...)
			asserts = append(asserts, ih)
			// well-foundedness: only non-negative values are covered
			asserts = append(asserts, Le(I(0), m[ind]))
			c0 := Imp(h1, Le(I(0), m[ind]))
			rep.Obls = append(rep.Obls, &Oblig{Name: rep.Key + "/induction-variable-nonnegative", Goal: c0, Asserts: []*Term{Not(c0)}})
		}
		for k, g := range splitAnd(c1) {
			o := &Oblig{Name: fmt.Sprintf("%s/claim%d", rep.Key, k), Goal: g, Asserts: append(append([]*Term{}, asserts...), Not(g))}
			o.Asserts = append(o.Asserts, w.axiomsFor(o.Asserts)...)
			o.closed = true
			rep.Obls = append(rep.Obls, o)
		}
		rep.Returns = 1
		reps = append(reps, rep)
		if len(pats) > 0 { // a lemma without pattern is proved, but not used elsewhere
			w.axioms = append(w.axioms, Forall(vars, Imp(hyp, con), pats...))
		}
	}
	return reps
}

func splitAnd(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	return []*Term{t}
}

// ---------- discharging ----------

type job struct {
	o            *Oblig
	body         string
	rich, ground string
	plain        []*Term // without shifted indices
	ninst        int
	r            *FuncReport
}

// batches decides runs of obligations of one function that share most of their hypotheses in one solver
// process each (base hypotheses once, every goal in a scope of its own).
func batches(js []*job, workers int) map[*job]bool {
	type batch struct {
		js     []*job
		script string
	}
	var bs []*batch
	for i := 0; i < len(js); {
		if js[i].o.closed || len(js[i].o.all) == 0 {
			i++
			continue
		}
		common := map[*Term]bool{}
		for _, t := range js[i].o.all {
			common[t] = true
		}
		k := i + 1
		for ; k < len(js) && k-i < 20 && js[k].r == js[i].r && len(js[k].o.all) > 0; k++ {
			n := 0
			for _, t := range js[k].o.all {
				if common[t] {
					n++
				}
			}
			if n*10 < 7*len(js[k].o.all) || n*10 < 7*len(common) {
				break
			}
			c2 := map[*Term]bool{}
			for _, t := range js[k].o.all {
				if common[t] {
					c2[t] = true
				}
			}
			common = c2
		}
		if k-i >= 3 {
			var base []*Term
			for _, t := range js[i].o.all {
				if common[t] {
					base = append(base, t)
				}
			}
			var sets [][]*Term
			for _, j := range js[i:k] {
				var d []*Term
				for _, t := range j.o.all {
					if !common[t] {
						d = append(d, t)
					}
				}
				sets = append(sets, d)
			}
			bs = append(bs, &batch{js[i:k], scriptFor(base, sets)})
		}
		i = k
	}
	done := map[*job]bool{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	ch := make(chan *batch)
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for b := range ch {
				_, out, d := runSolver("z3", []string{"-in", "-smt2", "-T:40"}, "(set-option :smt.mbqi false)\n(set-option :timeout 800)\n"+b.script, 40*time.Second)
				Stats.Lock()
				Stats.Queries += len(b.js)
				Stats.Time += d
				Stats.By["z3-4.8.12"] += len(b.js)
				Stats.Unlock()
				cur := -1
				mu.Lock()
				for _, l := range strings.Split(out, "\n") {
					l = strings.TrimSpace(l)
					if n, err := fmt.Sscanf(l, "job %d", &cur); n == 1 && err == nil {
						continue
					}
					if l == "unsat" && cur >= 0 && cur < len(b.js) {
						j := b.js[cur]
						j.o.Res = Result{Status: "unsat", By: "z3-4.8.12", Time: d / time.Duration(len(b.js))}
						done[j] = true
					}
					if strings.HasPrefix(l, "(error") {
						break
					}
					cur = -1
				}
				mu.Unlock()
			}
		}()
	}
	for _, b := range bs {
		ch <- b
	}
	close(ch)
	wg.Wait()
	return done
}

// proveAll discharges the obligations of a report; true when all are proved.
func proveAll(rep *FuncReport, sec, workers int) bool {
	return dischargeAll([]*FuncReport{rep}, sec, workers, 6)
}

func dischargeAll(reps []*FuncReport, sec, workers, maxFail int) bool {
	var jobs []job
	seen := map[string]*Oblig{}
	dup := map[*Oblig]*Oblig{}
	for _, r := range reps {
		for _, o := range r.Obls {
			if o.Trivial || o.Res.Status != "" {
				continue
			}
			if only := os.Getenv("GOVC_ONLY"); only != "" && !strings.Contains(o.Name, only) {
				o.Res.Status = "skipped"
				continue
			}
			as := o.Asserts
			if !o.closed {
				as = append(append([]*Term{}, as...), r.w().axiomsFor(as)...)
			}
			if b := o.Script; b != "" {
				if p, ok := seen[b]; ok {
					dup[o] = p
					continue
				}
				seen[b] = o
				jobs = append(jobs, job{o: o, body: b, r: r})
				continue
			}
			ids := make([]int, len(as))
			for i, t := range as {
				ids[i] = int(t.id)
			}
			sort.Ints(ids)
			b := fmt.Sprint(ids)
			if p, ok := seen[b]; ok {
				dup[o] = p
				continue
			}
			seen[b] = o
			o.all = shifted(as)
			jobs = append(jobs, job{o: o, r: r, plain: as})
		}
	}
	par := func(js []*job, f func(j *job) bool) {
		var mu sync.Mutex
		fails := 0
		var wg sync.WaitGroup
		ch := make(chan *job)
		for i := 0; i < workers; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := range ch {
					mu.Lock()
					stop := fails >= maxFail
					mu.Unlock()
					if stop {
						if j.o.Res.Status == "" {
							j.o.Res.Status = "skipped"
						}
						continue
					}
					if !f(j) {
						mu.Lock()
						fails++
						mu.Unlock()
					}
				}
			}()
		}
		for _, j := range js {
			ch <- j
		}
		close(ch)
		wg.Wait()
	}
	var js []*job
	for i := range jobs {
		js = append(js, &jobs[i])
	}
	open := func() (out []*job) {
		for _, j := range js {
			if s := j.o.Res.Status; s != "unsat" && s != "sat" {
				out = append(out, j)
			}
		}
		return
	}
	// stage 1: the obligation as generated; stage 2: with instances added; stage 3: the slow back end and a model
	mf := maxFail
	maxFail = 1 << 30
	t0 := time.Now()
	tick := func(w string) {
		if os.Getenv("GOVC_TIME") != "" {
			fmt.Printf("  [%s: %d jobs, %d open, %.1fs]\n", w, len(js), len(open()), time.Since(t0).Seconds())
		}
		t0 = time.Now()
	}
	discharged := batches(js, workers)
	js = nil
	for i := range jobs {
		if !discharged[&jobs[i]] {
			js = append(js, &jobs[i])
		}
	}
	for _, j := range js {
		if j.body == "" {
			j.body = Script(j.o.all)
			j.o.Script = j.body
		}
		if d := os.Getenv("GOVC_SMT"); d != "" {
			os.WriteFile(fmt.Sprintf("%s/%s.raw.smt2", d, strings.NewReplacer("/", "_", "*", "", "(", "", ")", "").Replace(j.o.Name)), []byte(j.body), 0o644)
		}
	}
	tick("batches")
	par(js, func(j *job) bool {
		j.o.Res = Result{Status: "unknown"}
		return proveWith(backends[:2], j.body, minInt(sec, 2), &j.o.Res) && j.o.Res.Status == "unsat"
	})
	tick("as generated")
	if os.Getenv("GOVC_TIME") != "" {
		n := map[string]int{}
		for i := range jobs {
			if !discharged[&jobs[i]] {
				n[jobs[i].o.Res.By+" "+jobs[i].o.Res.Status]++
			}
		}
		fmt.Println("   ", n)
		for i := range jobs {
			if st := jobs[i].o.Res.Status; st != "unsat" && os.Getenv("GOVC_TIME") == "2" {
				fmt.Println("   ", st, jobs[i].o.Name, jobs[i].o.Pos)
			}
		}
	}
	maxFail = mf * 4
	js = open()
	if len(js) > maxFail {
		js = js[:maxFail]
	}
	for _, j := range js {
		if len(j.o.Asserts) == 0 || j.o.closed {
			continue
		}
		as := append(j.r.w().axiomsFor(j.o.Asserts), j.o.Asserts...)
		ri := enrich(as, 3, 900, 24, 60)
		if len(ri) > 700 {
			j.rich = Script(append(append([]*Term{}, as...), ri[:700]...))
		} else {
			j.rich = Script(append(append([]*Term{}, as...), ri...))
		}
		j.ground = Script(groundOnly(append(append([]*Term{}, as...), ri...)))
		j.ninst = len(ri)
		if d := os.Getenv("GOVC_SMT"); d != "" {
			os.WriteFile(fmt.Sprintf("%s/%s.ground.smt2", d, strings.NewReplacer("/", "_", "*", "", "(", "", ")", "").Replace(j.o.Name)), []byte(j.ground), 0o644)
			os.WriteFile(fmt.Sprintf("%s/%s.rich.smt2", d, strings.NewReplacer("/", "_", "*", "", "(", "", ")", "").Replace(j.o.Name)), []byte(j.rich), 0o644)
		}
	}
	tick("enrich")
	par(js, func(j *job) bool {
		if j.rich == "" {
			return true
		}
		var r Result
		proveWith(backends[:2], j.ground, minInt(sec, 6), &r)
		j.o.Res.Attempt += fmt.Sprintf("%d ground instances: %s", j.ninst, r.Attempt)
		if r.Status == "unsat" {
			j.o.Res.Time += r.Time
			j.o.Res.Status, j.o.Res.By = r.Status, r.By+"+ground instances"
			return true
		}
		if len(j.plain) > 0 {
			wideMu.Lock()
			plain := Script(j.plain)
			wideMu.Unlock()
			r2 := Result{Time: r.Time}
			proveWith(backends[:2], plain, minInt(sec, 4), &r2)
			j.o.Res.Attempt += "plain: " + r2.Attempt
			if r2.Status == "unsat" {
				j.o.Res.Time += r2.Time
				j.o.Res.Status, j.o.Res.By = r2.Status, r2.By
				return true
			}
		}
		if r.Status != "unsat" { // not enough instances, or not the right ones
			wideMu.Lock()
			as := append(j.r.w().axiomsFor(j.o.Asserts), j.o.Asserts...)
			as = focus(as)
			ri := enrich(as, 3, 6000, 60, 250)
			if d := os.Getenv("GOVC_SMT"); d != "" {
				os.WriteFile(fmt.Sprintf("%s/%s.wide.smt2", d, strings.NewReplacer("/", "_", "*", "", "(", "", ")", "").Replace(j.o.Name)), []byte(Script(groundOnly(append(append([]*Term{}, as...), ri...)))), 0o644)
			}
			wide := Script(groundOnly(append(append([]*Term{}, as...), ri...)))
			wideMu.Unlock()
			r = Result{Time: r.Time}
			proveWith(backends[:2], wide, minInt(sec, 10), &r)
			j.o.Res.Attempt += fmt.Sprintf("%d ground instances: %s", len(ri), r.Attempt)
			if r.Status == "unsat" {
				j.o.Res.Time += r.Time
				j.o.Res.Status, j.o.Res.By = r.Status, r.By+"+ground instances"
				return true
			}
		}
		if proveWith(backends[2:], j.body, 4, &j.o.Res); j.o.Res.Status == "unsat" {
			return true
		}
		j.o.Res.Status = "unknown"
		r = Result{Time: r.Time}
		proveWith(backends[:2], j.rich, sec, &r)
		j.o.Res.Time += r.Time
		j.o.Res.Attempt += "with instances: " + r.Attempt
		if r.Status == "unsat" {
			j.o.Res.Status, j.o.Res.By = r.Status, r.By+"+instances"
			return true
		}
		return false
	})
	if os.Getenv("GOVC_TIME") == "3" {
		for _, j := range js {
			fmt.Printf("    %v %s %s %s\n", j.o.Res.Time, j.o.Res.By, j.o.Name, j.o.Res.Attempt)
		}
	}
	tick("instances")
	js = open()
	maxFail = mf
	par(js, func(j *job) bool {
		if proveWith(backends[2:], j.body, sec, &j.o.Res) && j.o.Res.Status == "unsat" {
			return true
		}
		if j.o.Res.Status != "sat" {
			j.o.Res.Status = "unknown"
		}
		return false
	})
	tick("slow")
	models := 0
	for i := range jobs {
		if s := jobs[i].o.Res.Status; s != "unsat" && models < 8 {
			models++
			counterModel(jobs[i].body, &jobs[i].o.Res)
		}
	}
	for o, p := range dup {
		o.Res = p.Res
		o.Script = p.Script
		o.Dup = true
	}
	ok := true
	for _, r := range reps {
		for _, o := range r.Obls {
			if o.Res.Status != "unsat" {
				ok = false
			}
		}
	}
	return ok
}

var wideMu sync.Mutex // terms are shared

func (r *FuncReport) w() *World { return theWorld }

var theWorld *World

func (r *FuncReport) failed() []*Oblig {
	var out []*Oblig
	for _, o := range r.Obls {
		if o.Res.Status != "unsat" {
			out = append(out, o)
		}
	}
	sort.SliceStable(out, func(i, j int) bool {
		a, b := out[i].Res.Status == "skipped", out[j].Res.Status == "skipped"
		return !a && b
	})
	return out
}

// implementers reports functions that may be values of a function type under contract, but are not known to implement it.
func (w *World) implementers(inProp func([]string) bool) (reps []*FuncReport) {
	seen := map[string]bool{}
	for _, k := range w.db.order {
		c := w.db.contracts[k]
		if c.implem == "" || seen[c.implem] || !inProp(c.props) {
			continue
		}
		seen[c.implem] = true
		pk, tn, _ := strings.Cut(strings.TrimPrefix(c.implem, "functype:"), ".")
		var sig types.Type
		for _, p := range w.pkgs {
			if p != nil && p.Pkg.Name() == pk && p.Pkg.Scope().Lookup(tn) != nil {
				sig = p.Pkg.Scope().Lookup(tn).Type().Underlying()
			}
		}
		var missing []string
		for key, f := range w.fnByKey {
			if sig != nil && f.Signature.Recv() == nil && types.Identical(f.Signature, sig) {
				if d := w.contractFor(f); d == nil || d.implem != c.implem {
					missing = append(missing, key)
				}
			}
		}
		sort.Strings(missing)
		for _, m := range missing {
			reps = append(reps, &FuncReport{Key: m, Kind: "function", Problem: "may be called as " + c.implem + " but has no contract for it"})
		}
	}
	return
}
