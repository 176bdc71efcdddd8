package main

// govc: contract-based deductive verifier for the Go packages of /repo.

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

type DriverCfg struct {
	Pkg   string   `json:"pkg"`   // package directory relative to the repository
	Files []string `json:"files"` // test files relative to /verif/drivers
	Run   string   `json:"run"`
	Bound string   `json:"bound"` // stated bound of the bounded layer
}

type PropCfg struct {
	Patterns    []string    `json:"patterns"`
	Level       string      `json:"level"` // "proof" if empty
	Drivers     []DriverCfg `json:"drivers"`
	Analyses    []string    `json:"analyses"`
	Assumptions []string    `json:"assumptions"`
	Unproved    []string    `json:"not_under_contract"`
	Timeout     int         `json:"timeout"`
}

type Violation struct {
	Key     string `json:"key"`
	What    string `json:"what"`
	Replay  any    `json:"replay,omitempty"`
	HasCase bool   `json:"-"`
}

var (
	flagRepo  = flag.String("repo", "/repo", "repository")
	flagRoot  = flag.String("root", "/verif", "verification root")
	flagProp  = flag.String("prop", "", "property id")
	flagTier  = flag.String("tier", "quick", "quick or thorough")
	flagFunc  = flag.String("func", "", "verify only contracts whose key contains this")
	flagDump  = flag.String("dump", "", "dump SSA of the function with this key")
	flagV     = flag.Bool("v", false, "verbose")
	flagKeys  = flag.Bool("keys", false, "list function keys")
	flagNoDrv = flag.Bool("nodriver", false, "skip the executable replay layer")
	flagNoPrf = flag.Bool("noproof", false, "skip the proof layer (debugging)")
	flagSelf  = flag.Bool("selftest", false, "run the verifier self-test")
)

func main() {
	flag.Parse()
	if p := os.Getenv("GOVC_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
	}
	defer func() {
		if r := recover(); r != nil && !debug {
			fmt.Println("govc: internal error:", r)
			os.Exit(2)
		} else if r != nil {
			panic(r)
		}
	}()
	db, err := LoadDB(filepath.Join(*flagRoot, "contracts"))
	if err != nil {
		fmt.Println("contracts:", err)
		os.Exit(2)
	}
	if *flagSelf {
		os.Exit(selfTest(*flagRoot))
	}
	var props map[string]*PropCfg
	if b, err := os.ReadFile(filepath.Join(*flagRoot, "contracts", "props.json")); err == nil {
		if err := json.Unmarshal(b, &props); err != nil {
			fmt.Println("props.json:", err)
			os.Exit(2)
		}
	}
	if *flagDump != "" || *flagKeys {
		w, err := NewWorld(*flagRepo, allPatterns, db)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for _, k := range sortedKeys(w.fnByKey) {
			if *flagKeys {
				fmt.Println(k)
			}
			if *flagDump != "" && k == *flagDump {
				f := w.fnByKey[k]
				f.WriteTo(os.Stdout)
				for _, l := range w.loops(f).list {
					fmt.Printf("loop %d header block %d\n", l.ord, l.header.Index)
				}
			}
		}
		return
	}
	rc := check(db, props)
	if os.Getenv("GOVC_PROF") != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(rc)
}

var allPatterns = []string{"./", "./bidi", "./bidi/trie", "./emoji", "./grapheme", "./segment", "./uax11", "./uax29", "./internal/ucdparse"}

type analysisFn func(w *World, tier string) (reps []*FuncReport, notes map[string]any)

var analyses = map[string]analysisFn{}

func check(db *DB, props map[string]*PropCfg) int {
	t0 := time.Now()
	id := *flagProp
	cfg := props[id]
	if cfg == nil {
		cfg = &PropCfg{}
	}
	sec := 10
	if *flagTier == "thorough" {
		sec = 40
	}
	if cfg.Timeout > 0 && *flagTier != "thorough" {
		sec = cfg.Timeout
	}
	pats := cfg.Patterns
	if len(pats) == 0 {
		pats = allPatterns
	}
	var viols []Violation
	var reps []*FuncReport
	notes := map[string]any{}
	genStart := time.Now()

	// the executable layer runs concurrently with the proofs
	type drvRes struct {
		v     []Violation
		stats []map[string]any
	}
	dch := make(chan drvRes, 1)
	go func() {
		var d drvRes
		if !*flagNoDrv && *flagFunc == "" {
			for _, dc := range cfg.Drivers {
				v, s := runDriver(id, dc)
				d.v = append(d.v, v...)
				d.stats = append(d.stats, s)
			}
		}
		dch <- d
	}()

	var w *World
	var usedAll = map[string]bool{}
	if !*flagNoPrf {
		var err error
		w, err = NewWorld(*flagRepo, pats, db)
		if err != nil {
			// code that does not type-check is not a property violation; the build gate reports it
			fmt.Println("govc: cannot load the repository:", err)
			return 2
		}
		theWorld = w
		lemReps := w.installLemmas()
		bvReps := bvLemmas()
		inProp := func(ps []string) bool {
			for _, p := range ps {
				if p == id || id == "" {
					return true
				}
			}
			return false
		}
		for _, r := range lemReps {
			if inProp(r.Contract.props) && (*flagFunc == "" || strings.Contains(r.Key, *flagFunc)) {
				reps = append(reps, r)
			}
		}
		for _, k := range db.order {
			c := db.contracts[k]
			if c.extern || c.trusted || !inProp(c.props) {
				continue
			}
			if *flagFunc != "" && !strings.Contains(k, *flagFunc) {
				continue
			}
			r := safeVerify(w, c)
			if r.Gone {
				notes["contracts_without_function"] = append(asStrings(notes["contracts_without_function"]), k)
				if *flagV {
					fmt.Printf("  gone %s\n", k)
				}
				continue
			}
			if *flagV {
				fmt.Printf("  gen %-60s %d obligations, %d returns, %d paths, %d feas %.1fs %s\n", k, len(r.Obls), r.Returns, r.Paths, r.FeasQ, r.GenTime.Seconds(), r.Problem)
			}
			reps = append(reps, r)
		}
		if *flagFunc == "" {
			reps = append(reps, w.implementers(inProp)...)
			for _, a := range cfg.Analyses {
				rs, nt := analyses[a](w, *flagTier)
				reps = append(reps, rs...)
				for k, v := range nt {
					notes[k] = v
				}
			}
		}
		genT := time.Since(genStart)
		dischargeAll(reps, sec, 8, 24)
		if w.usedPow2 {
			dischargeAll(bvReps, sec, 4, 24)
			reps = append(reps, bvReps...)
		}
		notes["generation_s"] = round(genT.Seconds())
		for _, r := range reps {
			for _, u := range r.Used {
				usedAll[u] = true
			}
		}
	}
	d := <-dch
	if !*flagNoPrf && len(reps) == 0 {
		reps = append(reps, &FuncReport{Key: id, Problem: "no function under contract exists in the current source"})
	}

	// collect
	nObl, nDis, nTriv := 0, 0, 0
	by := map[string]int{}
	var funcs []map[string]any
	var problems []string
	for _, r := range reps {
		dis := 0
		for _, o := range r.Obls {
			nObl++
			if o.Res.Status == "unsat" {
				nDis++
				dis++
				by[o.Res.By]++
				if o.Trivial {
					nTriv++
				}
			}
		}
		f := map[string]any{"name": r.Key, "kind": r.Kind, "obligations": len(r.Obls), "discharged": dis, "reachable_returns": r.Returns, "inlined_helpers": r.Inlined}
		if r.Problem != "" {
			f["problem"] = r.Problem
			problems = append(problems, r.Key+": "+r.Problem)
			viols = append(viols, Violation{Key: "obligation:" + r.Key + "/structure", What: r.Key + ": " + r.Problem})
		}
		if r.Problem == "" && len(r.Obls) == 0 {
			viols = append(viols, Violation{Key: "obligation:" + r.Key + "/no-obligations", What: r.Key + ": no obligations were generated"})
		}
		bad := r.failed()
		seenN := map[string]bool{}
		for _, o := range bad {
			if *flagV {
				fmt.Printf("FAILED %s (%s) %s [%s]\n", o.Name, o.Pos, o.Res.Status, o.Res.Attempt)
			}
			if seenN[o.Name] {
				continue
			}
			seenN[o.Name] = true
			viols = append(viols, Violation{Key: "obligation:" + o.Name, What: fmt.Sprintf("obligation %s is not discharged (%s) at %s", o.Name, o.Res.Status, o.Pos),
				Replay: map[string]any{"obligation": o.Name, "position": o.Pos, "goal": trunc(o.Goal.String(), 4000), "solver": o.Res.Attempt, "verifier_output": o.Res.Model, "smt": trunc(o.Script, 60000)}})
		}
		funcs = append(funcs, f)
	}
	for _, v := range d.v {
		v.HasCase = true
		viols = append(viols, v)
	}

	known := loadKnown(filepath.Join(*flagRoot, "known-findings.txt"), id)
	var open []Violation
	printed := map[string]bool{}
	for _, v := range viols {
		hit := false
		for _, k := range known {
			if k.re.MatchString(v.Key) {
				hit = true
				k.hits++
				if !printed[k.text] {
					printed[k.text] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.text)
				}
				break
			}
		}
		if !hit {
			open = append(open, v)
		}
	}

	// assumptions
	var assume []string
	var relies []string
	for u := range usedAll {
		if strings.HasPrefix(u, "TRUSTED ") {
			assume = append(assume, "assumed contract: "+strings.TrimPrefix(u, "TRUSTED "))
		} else if strings.HasPrefix(u, "ASSUMED ") {
			assume = append(assume, "assumed "+strings.TrimPrefix(u, "ASSUMED "))
		} else if c := db.contracts[u]; c != nil && !c.trusted {
			in := false
			for _, p := range c.props {
				in = in || p == id
			}
			if !in {
				relies = append(relies, fmt.Sprintf("%s (proved by %s)", u, strings.Join(c.props, ",")))
			}
		}
	}
	if w != nil {
		for t := range w.trusted {
			assume = append(assume, t)
		}
		for _, t := range w.axiomText {
			assume = append(assume, "axiom "+t)
		}
	}
	assume = append(assume, cfg.Assumptions...)
	assume = append(assume,
		"int and int64 arithmetic is treated as mathematical; narrower integer types wrap exactly",
		"slice and string lengths are below 2^48; allocation never fails",
		"no data race and no concurrent mutation of the objects a call works on",
		"govc itself (SSA construction by golang.org/x/tools, the VC generator) and the SMT solvers are trusted")
	sort.Strings(assume)
	sort.Strings(relies)

	Stats.Lock()
	cov := map[string]any{
		"obligations": nObl, "discharged": nDis, "trivial": nTriv,
		"discharged_by":            by,
		"solver_queries":           Stats.Queries,
		"solver_s":                 round(Stats.Time.Seconds()),
		"functions_under_contract": funcs,
		"checker_cmd":              fmt.Sprintf("/verif/check.sh %s %s", id, *flagTier),
		"trusted_base":             []string{"govc VC generator (/verif/govc)", "golang.org/x/tools/go/ssa v0.52.0", "z3 4.8.12", "z3-new", "cvc5 1.1.2", "Go compiler for the executable layer"},
		"relies_on":                relies,
		"not_under_contract":       cfg.Unproved,
		"bounded_layer":            d.stats,
	}
	Stats.Unlock()
	for k, v := range notes {
		cov[k] = v
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	level := cfg.Level
	if level == "" {
		level = "proof"
	}
	ev := map[string]any{"property": id, "tier": *flagTier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": assume, "wall_s": round(time.Since(t0).Seconds()), "violations": len(open)}
	if id != "" && *flagFunc == "" {
		os.MkdirAll(filepath.Join(*flagRoot, "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(*flagRoot, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Println("evidence:", err)
			return 2
		}
	}
	fmt.Printf("%s: %d contracts, %d obligations, %d discharged (%d trivially), solver %.1fs, wall %.1fs\n", id, len(reps), nObl, nDis, nTriv, Stats.Time.Seconds(), time.Since(t0).Seconds())
	for _, s := range d.stats {
		fmt.Printf("%s: bounded layer: %v\n", id, s["summary"])
	}
	if len(open) == 0 {
		return 0
	}
	// one report; concrete inputs first
	sort.SliceStable(open, func(i, j int) bool { return open[i].HasCase && !open[j].HasCase })
	dir := filepath.Join(*flagRoot, "replays")
	os.MkdirAll(dir, 0o755)
	rp := filepath.Join(dir, id+".json")
	b, _ := json.MarshalIndent(map[string]any{"property": id, "tier": *flagTier, "violations": firstN(open, 12)}, "", " ")
	os.WriteFile(rp, append(b, '\n'), 0o644)
	for _, v := range firstN(open, 12) {
		fmt.Printf("  %s: %s\n", v.Key, trunc(v.What, 600))
	}
	if open[0].HasCase {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", id, rp)
	}
	return 1
}

func asStrings(v any) []string {
	s, _ := v.([]string)
	return s
}

// safeVerify turns an internal error of the generator into a structural failure of that function.
func safeVerify(w *World, c *Contract) (r *FuncReport) {
	if !debug {
		defer func() {
			if e := recover(); e != nil {
				r = &FuncReport{Key: c.key, Kind: "function", Contract: c, Problem: fmt.Sprintf("generator error: %v", e)}
			}
		}()
	}
	return verifyFunc(w, c)
}

func firstN(v []Violation, n int) []Violation {
	if len(v) > n {
		return v[:n]
	}
	return v
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}
func round(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

type knownF struct {
	re   *regexp.Regexp
	text string
	hits int
}

// known-findings.txt: "finding: property=C09 key=<regexp> <text>"; "fixed: ..." lines suppress nothing
func loadKnown(file, id string) []*knownF {
	var out []*knownF
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 3 || f[0] != "finding:" || f[1] != "property="+id || !strings.HasPrefix(f[2], "key=") {
			continue
		}
		re, err := regexp.Compile("^(?:" + strings.TrimPrefix(f[2], "key=") + ")$")
		if err != nil {
			continue
		}
		out = append(out, &knownF{re: re, text: strings.Join(f[3:], " ")})
	}
	return out
}

// ---------- executable layer ----------

func runDriver(id string, dc DriverCfg) ([]Violation, map[string]any) {
	t0 := time.Now()
	st := map[string]any{"pkg": dc.Pkg, "bound": dc.Bound, "kind": "bounded (never counted as proved)"}
	tmp, err := os.MkdirTemp("", "govc-drv")
	if err != nil {
		st["summary"] = "no temp dir: " + err.Error()
		return nil, st
	}
	defer os.RemoveAll(tmp)
	repl := map[string]string{}
	pkgName := ""
	for i, f := range dc.Files {
		src := filepath.Join(*flagRoot, "drivers", f)
		b, err := os.ReadFile(src)
		if err != nil {
			continue
		}
		s := string(b)
		if m := regexp.MustCompile(`(?m)^package (\w+)`).FindStringSubmatch(s); m != nil && i == 0 {
			pkgName = m[1]
		}
		// shared helper files take the package name of the first file
		s = strings.Replace(s, "package VERIFPKG", "package "+pkgName, 1)
		g := filepath.Join(tmp, fmt.Sprintf("f%d_test.go", i))
		os.WriteFile(g, []byte(s), 0o644)
		repl[filepath.Join(*flagRepo, dc.Pkg, fmt.Sprintf("zz_verif%d_test.go", i))] = g
	}
	ob, _ := json.Marshal(map[string]any{"Replace": repl})
	ov := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ov, ob, 0o644)
	bin := filepath.Join(tmp, "drv.test")
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "VERIF_TIER="+*flagTier, "VERIF_DATA="+filepath.Join(*flagRoot, "drivers", "data"), "VERIF_REPO="+*flagRepo)
	c := exec.Command("go", "test", "-vet=off", "-c", "-overlay", ov, "-o", bin, "./"+dc.Pkg)
	c.Dir = *flagRepo
	c.Env = env
	if out, err := c.CombinedOutput(); err != nil {
		st["summary"] = "driver does not build against this tree (proof layer decides): " + trunc(string(out), 800)
		st["built"] = false
		return nil, st
	}
	st["built"] = true
	to := "150s"
	if *flagTier == "thorough" {
		to = "700s"
	}
	r := exec.Command("sh", "-c", "ulimit -v 12000000; exec \"$@\"", "sh", bin, "-test.run", "^("+dc.Run+")$", "-test.v", "-test.timeout", to)
	r.Dir = tmp
	r.Env = env
	out, rerr := r.CombinedOutput()
	var vs []Violation
	eval, dist := 0, 0
	var samples []string
	lastCase := ""
	ran := false
	for _, l := range strings.Split(string(out), "\n") {
		l = strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(l, "=== RUN"):
			ran = true
		case strings.HasPrefix(l, "VERIF-FAIL "):
			var v struct {
				Key, What string
				Input     any
			}
			if json.Unmarshal([]byte(strings.TrimPrefix(l, "VERIF-FAIL ")), &v) == nil {
				vs = append(vs, Violation{Key: v.Key, What: v.What, Replay: map[string]any{"driver": dc.Run, "pkg": dc.Pkg, "input": v.Input}})
			}
		case strings.HasPrefix(l, "VERIF-STAT "):
			var s struct {
				Evaluations, Distinct int
				Samples               []string
			}
			if json.Unmarshal([]byte(strings.TrimPrefix(l, "VERIF-STAT ")), &s) == nil {
				eval += s.Evaluations
				dist += s.Distinct
				samples = append(samples, s.Samples...)
			}
		case strings.HasPrefix(l, "VERIF-CASE "):
			lastCase = l
		}
	}
	if rerr != nil && len(vs) == 0 {
		vs = append(vs, Violation{Key: "driver-crash", What: "the executable layer crashed: " + trunc(lastCase, 300), Replay: map[string]any{"driver": dc.Run, "pkg": dc.Pkg, "case": lastCase, "output": trunc(tail(string(out), 6000), 6000)}})
	}
	if !ran && rerr == nil {
		st["summary"] = "no driver test ran"
	} else {
		st["summary"] = fmt.Sprintf("%s %s: %d evaluations, %d distinct non-trivial, %d failing, %.1fs", dc.Pkg, dc.Run, eval, dist, len(vs), time.Since(t0).Seconds())
	}
	st["evaluations"] = eval
	st["distinct_nontrivial"] = dist
	if len(samples) > 6 {
		samples = samples[:6]
	}
	st["samples"] = samples
	return vs, st
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// ---------- bit-vector lemmas behind pow2/band ----------

func bvLemmas() []*FuncReport {
	rep := &FuncReport{Key: "lemma pow2-mask (64-bit vectors)", Kind: "lemma", Returns: 1, Contract: &Contract{}}
	pre := "(declare-fun x () (_ BitVec 64))\n(declare-fun n () (_ BitVec 64))\n" +
		"(assert (and (bvsgt n (_ bv0 64)) (= (bvand n (bvsub n (_ bv1 64))) (_ bv0 64)) (bvslt n (_ bv4611686018427387904 64))))\n" +
		"(define-fun r () (_ BitVec 64) (bvand x (bvsub n (_ bv1 64))))\n"
	goals := []string{
		"(=> (and (bvsge x (bvneg n)) (bvslt x (_ bv0 64))) (= r (bvadd x n)))",
		"(=> (and (bvsge x (_ bv0 64)) (bvslt x n)) (= r x))",
		"(=> (and (bvsge x n) (bvslt x (bvmul (_ bv2 64) n))) (= r (bvsub x n)))",
		"(or (= n (_ bv1 64)) (and (= (bvmul (_ bv2 64) (bvudiv n (_ bv2 64))) n) (= (bvand (bvudiv n (_ bv2 64)) (bvsub (bvudiv n (_ bv2 64)) (_ bv1 64))) (_ bv0 64))))",
		"(= (bvand (bvmul (_ bv2 64) n) (bvsub (bvmul (_ bv2 64) n) (_ bv1 64))) (_ bv0 64))",
	}
	for i, g := range goals {
		o := &Oblig{Name: fmt.Sprintf("%s/%d", rep.Key, i), Goal: True, closed: true}
		o.Script = pre + "(assert (not " + g + "))\n"
		rep.Obls = append(rep.Obls, o)
	}
	g2 := &Oblig{Name: rep.Key + "/gap", Goal: True, closed: true}
	g2.Script = "(declare-fun k () (_ BitVec 64))\n(declare-fun n () (_ BitVec 64))\n(assert (bvult k (_ bv63 64)))\n(assert (bvult n (_ bv63 64)))\n(assert (bvult (bvshl (_ bv1 64) k) (bvshl (_ bv1 64) n)))\n(assert (not (bvule (bvmul (_ bv2 64) (bvshl (_ bv1 64) k)) (bvshl (_ bv1 64) n))))\n"
	rep.Obls = append(rep.Obls, g2)
	// non-negative masks: 0 <= x & m <= m for 0 <= m
	o := &Oblig{Name: rep.Key + "/mask-range", Goal: True, closed: true}
	o.Script = "(declare-fun x () (_ BitVec 64))\n(declare-fun m () (_ BitVec 64))\n(assert (bvsge m (_ bv0 64)))\n(assert (not (and (bvsge (bvand x m) (_ bv0 64)) (bvsle (bvand x m) m))))\n"
	rep.Obls = append(rep.Obls, o)
	return []*FuncReport{rep}
}
