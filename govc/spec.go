package main

// Contract language: lexer, parser, contract files.

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

type SExpr struct {
	op   string // int, ident, call, field, index, un, bin, quant, old, cond, slice, type
	s    string
	n    string
	args []*SExpr
	vars []SVar
	pats []*SExpr
	pos  string
}
type SVar struct{ name, typ string }

type Clause struct {
	label string
	text  string
	e     *SExpr
	e2    *SExpr
}

type LoopSpec struct {
	inv       []Clause
	decreases *Clause
	unroll    int
	role      map[string]string
}

type Contract struct {
	key      string
	pkg      string
	file     string
	requires []Clause
	ensures  []Clause
	modifies []Clause
	panics   *Clause
	aborts   *Clause  // a panic is allowed in states where this holds (callers get the same obligation)
	admits   []Clause // postconditions callers may use although they are not proved (reported as unchecked)
	loops    map[int]*LoopSpec
	props    []string
	inline   bool // body is inlined at call sites even though it is verified on its own
	trusted  bool // assumed, not verified
	extern   bool
	pureArb  bool // extern without effects and with arbitrary results
	results  []string
	params   []string
	lets     []Clause
	asserts  []string
	timeout  int
	hints    []Clause
	assumes  []Clause // entry conditions callers do not have to establish (reported as unchecked)
	cases    []Clause
	aliasTyp bool
	attrs    []Clause // facts about a function value (self) of this function, fixed when it is created
	creates  []Clause // conditions under which a value of this function may be created (on its captured variables)
	implem   string   // functype contract this function implements
}

type Macro struct {
	name   string
	params []SVar
	body   *SExpr
	opaque bool
	pkg    string
	ret    string
}

type Lemma struct {
	name     string
	vars     []SVar
	requires []Clause
	ensures  []Clause
	props    []string
	pkg      string
	pats     []*SExpr
	induct   string
}

type DB struct {
	contracts map[string]*Contract
	order     []string
	macros    map[string]*Macro
	logics    map[string]*Macro // uninterpreted (params, ret)
	ghosts    map[string]string // name -> type
	axioms    []Lemma
	lemmas    []Lemma
	pureExt   []string
	constGlob []string
}

// ---------- lexer ----------

type tok struct {
	k, s string
}

func lex(src string) ([]tok, error) {
	var out []tok
	rs := []rune(src)
	i := 0
	ops := []string{"<==>", "==>", "::", "&&", "||", "==", "!=", "<=", ">=", "..."}
	for i < len(rs) {
		c := rs[i]
		if unicode.IsSpace(c) {
			i++
			continue
		}
		if unicode.IsLetter(c) || c == '_' || c == '$' {
			j := i + 1
			for j < len(rs) && (unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j]) || rs[j] == '_' || rs[j] == '$') {
				j++
			}
			out = append(out, tok{"id", string(rs[i:j])})
			i = j
			continue
		}
		if unicode.IsDigit(c) {
			j := i + 1
			for j < len(rs) && (unicode.IsDigit(rs[j]) || unicode.IsLetter(rs[j])) {
				j++
			}
			out = append(out, tok{"int", string(rs[i:j])})
			i = j
			continue
		}
		if c == '\'' {
			j := i + 1
			for j < len(rs) && rs[j] != '\'' {
				if rs[j] == '\\' {
					j++
				}
				j++
			}
			r, _, _, err := strconv.UnquoteChar(string(rs[i+1:j]), '\'')
			if err != nil {
				return nil, err
			}
			out = append(out, tok{"int", fmt.Sprint(int(r))})
			i = j + 1
			continue
		}
		if c == '"' {
			j := i + 1
			for j < len(rs) && rs[j] != '"' {
				j++
			}
			out = append(out, tok{"str", string(rs[i+1 : j])})
			i = j + 1
			continue
		}
		done := false
		for _, o := range ops {
			if strings.HasPrefix(string(rs[i:min(len(rs), i+4)]), o) {
				out = append(out, tok{"op", o})
				i += len([]rune(o))
				done = true
				break
			}
		}
		if done {
			continue
		}
		out = append(out, tok{"op", string(c)})
		i++
	}
	return out, nil
}

type parser struct {
	t []tok
	i int
}

func (p *parser) peek() tok {
	if p.i < len(p.t) {
		return p.t[p.i]
	}
	return tok{"eof", ""}
}
func (p *parser) next() tok { t := p.peek(); p.i++; return t }
func (p *parser) is(s string) bool {
	t := p.peek()
	return t.s == s && (t.k == "op" || t.k == "id")
}
func (p *parser) acc(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) exp(s string) {
	if !p.acc(s) {
		panic(fmt.Sprintf("expected %q, got %q", s, p.peek().s))
	}
}

func ParseExpr(s string) (e *SExpr, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v in %q", r, s)
		}
	}()
	t, err := lex(s)
	if err != nil {
		return nil, err
	}
	p := &parser{t: t}
	e = p.cond()
	if p.peek().k != "eof" {
		panic(fmt.Sprintf("trailing %q", p.peek().s))
	}
	return e, nil
}

func (p *parser) cond() *SExpr {
	c := p.impl()
	if p.acc("?") {
		a := p.cond()
		p.exp(":")
		b := p.cond()
		return &SExpr{op: "cond", args: []*SExpr{c, a, b}}
	}
	return c
}
func (p *parser) impl() *SExpr {
	l := p.or()
	if p.acc("==>") {
		r := p.impl()
		return &SExpr{op: "bin", s: "==>", args: []*SExpr{l, r}}
	}
	if p.acc("<==>") {
		r := p.or()
		return &SExpr{op: "bin", s: "<==>", args: []*SExpr{l, r}}
	}
	return l
}
func (p *parser) or() *SExpr {
	l := p.and()
	for p.acc("||") {
		l = &SExpr{op: "bin", s: "||", args: []*SExpr{l, p.and()}}
	}
	return l
}
func (p *parser) and() *SExpr {
	l := p.cmp()
	for p.acc("&&") {
		l = &SExpr{op: "bin", s: "&&", args: []*SExpr{l, p.cmp()}}
	}
	return l
}

var cmpOps = map[string]bool{"==": true, "!=": true, "<": true, "<=": true, ">": true, ">=": true}

func (p *parser) cmp() *SExpr {
	if p.is("forall") || p.is("exists") {
		return p.quant()
	}
	l := p.add()
	var res *SExpr
	for p.peek().k == "op" && cmpOps[p.peek().s] {
		o := p.next().s
		r := p.add()
		c := &SExpr{op: "bin", s: o, args: []*SExpr{l, r}}
		if res == nil {
			res = c
		} else {
			res = &SExpr{op: "bin", s: "&&", args: []*SExpr{res, c}}
		}
		l = r
	}
	if res == nil {
		return l
	}
	return res
}
func (p *parser) quant() *SExpr {
	q := p.next().s
	e := &SExpr{op: "quant", s: q}
	for {
		names := []string{p.next().s}
		for p.acc(",") {
			names = append(names, p.next().s)
			if p.peek().k == "id" && !p.is("::") {
				break
			}
		}
		ty := p.typ()
		for _, n := range names {
			e.vars = append(e.vars, SVar{n, ty})
		}
		if !p.acc(",") {
			break
		}
	}
	for p.acc("{") {
		var group []*SExpr
		for {
			group = append(group, p.cond())
			if !p.acc(",") {
				break
			}
		}
		p.exp("}")
		if len(group) == 1 {
			e.pats = append(e.pats, group[0])
		} else {
			e.pats = append(e.pats, &SExpr{op: "pat", args: group})
		}
	}
	p.exp("::")
	e.args = []*SExpr{p.cond()}
	return e
}
func (p *parser) typ() string {
	s := ""
	for p.is("*") || p.is("[") || p.is("]") {
		s += p.next().s
	}
	s += p.next().s
	for p.acc(".") {
		s += "." + p.next().s
	}
	return s
}
func (p *parser) add() *SExpr {
	l := p.mul()
	for p.is("+") || p.is("-") {
		o := p.next().s
		l = &SExpr{op: "bin", s: o, args: []*SExpr{l, p.mul()}}
	}
	return l
}
func (p *parser) mul() *SExpr {
	l := p.unary()
	for p.is("*") || p.is("/") || p.is("%") {
		o := p.next().s
		l = &SExpr{op: "bin", s: o, args: []*SExpr{l, p.unary()}}
	}
	return l
}
func (p *parser) unary() *SExpr {
	if p.acc("!") {
		return &SExpr{op: "un", s: "!", args: []*SExpr{p.unary()}}
	}
	if p.acc("-") {
		return &SExpr{op: "un", s: "-", args: []*SExpr{p.unary()}}
	}
	if p.acc("*") {
		return &SExpr{op: "un", s: "*", args: []*SExpr{p.unary()}}
	}
	if p.is("forall") || p.is("exists") {
		return p.quant()
	}
	return p.postfix()
}
func (p *parser) postfix() *SExpr {
	e := p.prim()
	for {
		switch {
		case p.acc("."):
			f := p.next()
			e = &SExpr{op: "field", s: f.s, args: []*SExpr{e}}
		case p.acc("["):
			i := p.cond()
			p.exp("]")
			e = &SExpr{op: "index", args: []*SExpr{e, i}}
		case p.is("("):
			p.next()
			var as []*SExpr
			for !p.is(")") {
				as = append(as, p.cond())
				if !p.acc(",") {
					break
				}
			}
			p.exp(")")
			e = &SExpr{op: "call", s: e.s, args: as, vars: nil, pats: []*SExpr{e}}
		default:
			return e
		}
	}
}
func (p *parser) prim() *SExpr {
	t := p.next()
	switch {
	case t.k == "int":
		return &SExpr{op: "int", n: t.s}
	case t.k == "str":
		return &SExpr{op: "str", s: t.s}
	case t.k == "op" && t.s == "(":
		e := p.cond()
		p.exp(")")
		return e
	case t.k == "id" && t.s == "old" && p.is("("):
		p.next()
		e := p.cond()
		p.exp(")")
		return &SExpr{op: "old", args: []*SExpr{e}}
	case t.k == "id":
		return &SExpr{op: "ident", s: t.s}
	}
	panic(fmt.Sprintf("unexpected %q", t.s))
}

// ---------- contract files ----------

func LoadDB(dir string) (*DB, error) {
	db := &DB{contracts: map[string]*Contract{}, macros: map[string]*Macro{}, logics: map[string]*Macro{}, ghosts: map[string]string{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := db.parseFile(f, string(b)); err != nil {
			return nil, err
		}
	}
	// a function that implements a function type has that type's contract, besides its own postconditions
	for _, k := range db.order {
		c := db.contracts[k]
		if c.implem == "" {
			continue
		}
		t := db.contracts[c.implem]
		if t == nil || len(c.requires) > 0 || len(c.assumes) > 0 || len(t.params) == 0 || t.params[0] != "self" {
			return nil, fmt.Errorf("%s cannot implement %s", k, c.implem)
		}
		c.params, c.results = t.params[1:], t.results
		c.requires, c.modifies = t.requires, append(append([]Clause{}, t.modifies...), c.modifies...)
		c.ensures = append(append([]Clause{}, t.ensures...), c.ensures...)
	}
	return db, nil
}

func splitLabel(s string) (string, string) {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "[") {
		if i := strings.Index(s, "]"); i > 0 {
			return s[1:i], strings.TrimSpace(s[i+1:])
		}
	}
	return "", s
}

func (db *DB) parseFile(file, src string) error {
	// join continuation lines: a line ending in '\' or a line starting deeper with "| "
	var lines []string
	var nums []int
	for n, l := range strings.Split(src, "\n") {
		if i := strings.Index(l, "//"); i >= 0 {
			l = l[:i]
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		if strings.HasPrefix(t, "|") && !strings.HasPrefix(t, "||") && len(lines) > 0 {
			lines[len(lines)-1] += " " + strings.TrimSpace(t[1:])
			continue
		}
		lines = append(lines, t)
		nums = append(nums, n+1)
	}
	pkg := ""
	var c *Contract
	var lem *Lemma
	var loop *LoopSpec
	fail := func(i int, err error) error { return fmt.Errorf("%s:%d: %v", file, nums[i], err) }
	clause := func(rest string) (Clause, error) {
		lb, t := splitLabel(rest)
		e, err := ParseExpr(t)
		return Clause{label: lb, text: t, e: e}, err
	}
	for i, l := range lines {
		kw, rest, _ := strings.Cut(l, " ")
		rest = strings.TrimSpace(rest)
		switch kw {
		case "package":
			pkg = rest
			c, lem, loop = nil, nil, nil
		case "ghost":
			n, t, _ := strings.Cut(rest, " ")
			db.ghosts[n] = strings.TrimSpace(t)
		case "logic", "def", "opaque":
			m, err := parseMacro(rest, kw)
			if err != nil {
				return fail(i, err)
			}
			if kw == "logic" {
				db.logics[m.name] = m
			} else {
				m.opaque = kw == "opaque"
				m.pkg = pkg
				if o := db.macros[m.name]; o != nil {
					return fail(i, fmt.Errorf("definition %s already given in package %s", m.name, o.pkg))
				}
				db.macros[m.name] = m
			}
			c, lem, loop = nil, nil, nil
		case "axiom":
			nm, body, _ := strings.Cut(rest, ":")
			e, err := ParseExpr(body)
			if err != nil {
				return fail(i, err)
			}
			db.axioms = append(db.axioms, Lemma{name: strings.TrimSpace(nm), pkg: pkg, ensures: []Clause{{text: body, e: e}}})
		case "lemma":
			// lemma name(vars) [induct v]
			m, err := parseMacro(rest, "lemma")
			if err != nil {
				return fail(i, err)
			}
			db.lemmas = append(db.lemmas, Lemma{name: m.name, vars: m.params, pkg: pkg, induct: m.ret})
			lem = &db.lemmas[len(db.lemmas)-1]
			c, loop = nil, nil
		case "pureextern":
			db.pureExt = append(db.pureExt, strings.Fields(rest)...)
		case "func", "extern":
			c = &Contract{pkg: pkg, file: file, loops: map[int]*LoopSpec{}, extern: kw == "extern"}
			loop, lem = nil, nil
			nm := rest
			if j := strings.Index(rest, "->"); j >= 0 {
				nm = strings.TrimSpace(rest[:j])
				for _, r := range strings.Split(rest[j+2:], ",") {
					c.results = append(c.results, strings.TrimSpace(r))
				}
			}
			if kw == "extern" {
				if j := strings.LastIndex(nm, "("); j > 0 && strings.HasSuffix(nm, ")") && nm[j-1] != '.' && !strings.HasPrefix(nm[j:], "(*") {
					for _, r := range strings.Split(nm[j+1:len(nm)-1], ",") {
						if r = strings.TrimSpace(r); r != "" {
							c.params = append(c.params, r)
						}
					}
					nm = nm[:j]
				}
				c.key = nm
				c.trusted = true
			} else {
				c.key = pkg + "." + nm
			}
			if db.contracts[c.key] != nil {
				return fail(i, fmt.Errorf("duplicate contract %s", c.key))
			}
			db.contracts[c.key] = c
			db.order = append(db.order, c.key)
		case "prop":
			if lem != nil {
				lem.props = strings.Fields(rest)
			} else {
				c.props = strings.Fields(rest)
			}
		case "trigger":
			for _, part := range splitTop(rest) {
				e, err := ParseExpr(part)
				if err != nil {
					return fail(i, err)
				}
				lem.pats = append(lem.pats, e)
			}
		case "inline":
			c.inline = true
		case "trusted":
			c.trusted = true
		case "pure":
			c.pureArb = true
		case "timeout":
			c.timeout, _ = strconv.Atoi(rest)
		case "implements":
			c.implem = "functype:" + rest
		case "attr", "creates", "requires", "assumes", "admits", "aborts", "ensures", "invariant", "decreases", "panics", "modifies", "let", "case", "hint":
			name := ""
			if kw == "let" {
				n, b, ok := strings.Cut(rest, "=")
				if !ok {
					return fail(i, fmt.Errorf("let"))
				}
				name, rest = strings.TrimSpace(n), strings.TrimSpace(b)
			}
			if kw == "modifies" {
				for _, part := range splitTop(rest) {
					cl, err := parseMod(part)
					if err != nil {
						return fail(i, err)
					}
					c.modifies = append(c.modifies, cl)
				}
				continue
			}
			cl, err := clause(rest)
			if err != nil {
				return fail(i, err)
			}
			if name != "" {
				cl.label = name
			}
			switch kw {
			case "requires":
				if lem != nil {
					lem.requires = append(lem.requires, cl)
				} else {
					c.requires = append(c.requires, cl)
				}
			case "ensures":
				if lem != nil {
					lem.ensures = append(lem.ensures, cl)
				} else {
					c.ensures = append(c.ensures, cl)
				}
			case "assumes":
				c.assumes = append(c.assumes, cl)
			case "invariant":
				loop.inv = append(loop.inv, cl)
			case "decreases":
				loop.decreases = &cl
			case "panics":
				c.panics = &cl
			case "aborts":
				c.aborts = &cl
			case "admits":
				c.admits = append(c.admits, cl)
			case "let":
				c.lets = append(c.lets, cl)
			case "case":
				c.cases = append(c.cases, cl)
			case "creates":
				c.creates = append(c.creates, cl)
			case "attr":
				c.attrs = append(c.attrs, cl)
			case "hint":
				c.hints = append(c.hints, cl)
			}
		case "loop":
			f := strings.Fields(rest)
			n, err := strconv.Atoi(f[0])
			if err != nil {
				return fail(i, err)
			}
			loop = &LoopSpec{role: map[string]string{}}
			for _, x := range f[1:] {
				if strings.HasPrefix(x, "unroll=") {
					loop.unroll, _ = strconv.Atoi(x[7:])
				}
			}
			c.loops[n] = loop
		default:
			return fail(i, fmt.Errorf("unknown keyword %q", kw))
		}
	}
	return nil
}

func splitTop(s string) []string {
	var out []string
	d := 0
	last := 0
	for i, r := range s {
		switch r {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[last:i]))
				last = i + 1
			}
		}
	}
	return append(out, strings.TrimSpace(s[last:]))
}

// modifies items:  q.*   q.f   elems(s)   ghost.x   all(T)   map(m)
func parseMod(s string) (Clause, error) {
	cl := Clause{text: s}
	t := s
	switch {
	case strings.HasSuffix(s, ".*"):
		cl.label = "obj"
		t = strings.TrimSuffix(s, ".*")
	case strings.HasPrefix(s, "elems("):
		cl.label = "elems"
		t = s[6 : len(s)-1]
	case strings.HasPrefix(s, "map("):
		cl.label = "map"
		t = s[4 : len(s)-1]
	case strings.HasPrefix(s, "all("):
		cl.label = "all"
		cl.text = s[4 : len(s)-1]
		return cl, nil
	case strings.HasPrefix(s, "ghost "):
		cl.label = "ghost"
		cl.text = strings.TrimSpace(s[6:])
		return cl, nil
	case s == "nothing":
		cl.label = "nothing"
		return cl, nil
	default:
		cl.label = "field"
	}
	e, err := ParseExpr(t)
	cl.e = e
	return cl, err
}

// name(a int, b ref) ret = body
func parseMacro(s, kw string) (m *Macro, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v in %q", r, s)
		}
	}()
	body := ""
	head := s
	if kw == "def" || kw == "opaque" {
		// first '=' outside parens
		d := 0
		for i, r := range s {
			if r == '(' {
				d++
			}
			if r == ')' {
				d--
			}
			if r == '=' && d == 0 {
				head, body = s[:i], s[i+1:]
				break
			}
		}
		if body == "" {
			return nil, fmt.Errorf("missing body in %q", s)
		}
	}
	t, err := lex(head)
	if err != nil {
		return nil, err
	}
	p := &parser{t: t}
	m = &Macro{name: p.next().s}
	p.exp("(")
	for !p.is(")") {
		v := SVar{name: p.next().s}
		if !p.is(",") && !p.is(")") {
			v.typ = p.typ()
		}
		m.params = append(m.params, v)
		if !p.acc(",") {
			break
		}
	}
	p.exp(")")
	if p.peek().k != "eof" {
		m.ret = p.typ()
	}
	if body != "" {
		m.body, err = ParseExpr(body)
	}
	return m, err
}
