package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// ---- syntax of contract files

type Clause struct {
	label string
	tags  []string
	e     *Expr
	src   string
	line  string
}

type Contract struct {
	name     string
	params   []string
	results  []string
	tags     []string
	requires []Clause
	ensures  []Clause
	panics   []Clause // panics iff
	onpanic  []Clause // holds when it panics
	lets     []letDef
	modifies []modItem
	modAll   bool
	names    []nameDef
	loops    []*LoopSpec
	extern   bool
	inline   bool // never used at calls, only verified
	nocover  bool
	noReturn bool
	mayPanic bool // panics are possible at any time
	file     string
	line     int
	pkgHint  string
	why      string
}

// modItem is a place that may change, when the condition holds before
type modItem struct{ e, cond *Expr }

// nameDef names a result at call sites: a function of the history of a world
// that the function advances. A history belongs to one call, so that this says
// nothing about the result.
type nameDef struct {
	res string
	fun string
	e   *Expr
}

type letDef struct {
	name string
	e    *Expr
}

type bindDef struct {
	name string
	ty   *TypeExpr
}

type LoopSpec struct {
	kind   string // loop, or the name of an iterator
	name   string
	binds  []bindDef
	ghosts []letDef // witnesses recorded at entry
	defs   []Clause // ghost definitions assumed at entry
	inv    []Clause
	leave  []Clause // when the loop is left from inside, at the return
	done   []Clause // when the loop ends by its condition, at the return
	step   []Clause // must hold at the end of every iteration
	line   string
}

type FunDecl struct {
	name string
	args []*TypeExpr
	res  *TypeExpr
	smt  string
}

type DefDecl struct {
	name   string
	params []bindDef
	body   *Expr
}

type TypeExpr struct {
	kind string // named ptr slice map array sort
	name string
	a, b *TypeExpr
	// struct
	fields []string
	types  []*TypeExpr
}

type Expr struct {
	op   string // ident int str call sel index un bin forall exists if is as deref let
	name string
	i    int64
	args []*Expr
	bind []bindDef
	ty   *TypeExpr
	pats [][]*Expr
	line string
}

type SpecSet struct {
	contracts  map[string]*Contract // by name as written
	order      []*Contract
	funs       map[string]*FunDecl
	defs       map[string]*DefDecl
	axioms     []Clause
	carried    []carriedDecl
	lemmas     []Clause
	lemmaTags  map[string][]string
	dispatch   map[string][]*TypeExpr
	opaque     map[string]string // interface or func type -> world ("" is pure)
	imports    map[string]string
	consts     map[string]bool   // sentinel globals
	guards     map[string]string // global -> lock global
	onceGuards map[string]string // field -> once field
	// specification-only state of library types, by type key and name
	ghostFields map[string]*TypeExpr
	named       map[string]bool
	files       []string
	cur         string
}

func newSpecs() *SpecSet {
	return &SpecSet{contracts: map[string]*Contract{}, funs: map[string]*FunDecl{}, defs: map[string]*DefDecl{}, dispatch: map[string][]*TypeExpr{}, opaque: map[string]string{}, imports: map[string]string{}, consts: map[string]bool{}, guards: map[string]string{}, onceGuards: map[string]string{}, lemmaTags: map[string][]string{}, ghostFields: map[string]*TypeExpr{}, named: map[string]bool{}}
}

func (s *SpecSet) loadDir(dir string) error {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	for _, f := range fs {
		if err := s.load(f); err != nil {
			return err
		}
	}
	return nil
}

var topKw = map[string]bool{"func": true, "extern": true, "fun": true, "define": true, "axiom": true, "lemma": true, "dispatch": true, "implied": true, "opaque": true, "import": true, "sentinel": true, "guard": true, "ghostfield": true, "carried": true}
var subKw = map[string]bool{"requires": true, "ensures": true, "modifies": true, "let": true, "loop": true, "iter": true, "invariant": true, "step": true, "leave": true, "done": true, "bind": true, "ghost": true, "def": true, "tags": true, "panics": true, "onpanic": true, "inline": true, "noreturn": true, "maypanic": true, "nocover": true, "trust": true, "names": true}

func (s *SpecSet) load(file string) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	s.files = append(s.files, file)
	s.cur = filepath.Base(file)
	// join continuation lines
	type ln struct {
		n int
		t string
	}
	var lines []ln
	for i, l := range strings.Split(string(b), "\n") {
		if j := strings.Index(l, "//"); j >= 0 && !strings.Contains(l[:j], "\"") {
			l = l[:j]
		} else if j == 0 {
			l = ""
		} else if k := strings.Index(l, " // "); k >= 0 {
			l = l[:k]
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		w := t
		if k := strings.IndexFunc(t, func(r rune) bool { return !unicode.IsLetter(r) }); k >= 0 {
			w = t[:k]
		}
		if topKw[w] && l[0] != ' ' && l[0] != '\t' || subKw[w] {
			lines = append(lines, ln{i + 1, t})
		} else if len(lines) > 0 {
			lines[len(lines)-1].t += " " + t
		} else {
			return fmt.Errorf("%s:%d: unexpected %q", file, i+1, t)
		}
	}
	var c *Contract
	var lp *LoopSpec
	for _, l := range lines {
		pos := fmt.Sprintf("%s:%d", s.cur, l.n)
		if err := s.line(l.t, pos, l.n, &c, &lp); err != nil {
			return fmt.Errorf("%s: %v", pos, err)
		}
	}
	return nil
}

func (s *SpecSet) line(t, pos string, n int, cp **Contract, lpp **LoopSpec) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(parseErr); ok {
				err = fmt.Errorf("%s in %q", string(e), t)
				return
			}
			panic(r)
		}
	}()
	p := newParser(t, pos)
	kw := p.ident()
	c := *cp
	switch kw {
	case "import":
		name := p.ident()
		s.imports[name] = p.str()
		return nil
	case "func", "extern":
		nc := &Contract{extern: kw == "extern", file: s.cur, line: n}
		// name up to the parameter list
		rest := strings.TrimSpace(t[len(kw):])
		var name string
		if rest[0] == '(' {
			i := strings.Index(rest, ")")
			name = rest[:i+1]
			rest = rest[i+1:]
		}
		i := strings.Index(rest, "(")
		if b := strings.Index(rest, "]"); b >= 0 && strings.Index(rest, "[") < i {
			i = b + 1
		}
		name += rest[:i]
		p = newParser(rest[i:], pos)
		nc.params = p.nameList()
		if p.peek() == "(" {
			nc.results = p.nameList()
		}
		nc.name = strings.TrimSpace(name)
		if p.tok != "" {
			return fmt.Errorf("unexpected %q", p.tok)
		}
		if s.contracts[nc.name] != nil {
			return fmt.Errorf("second contract for %s", nc.name)
		}
		s.contracts[nc.name] = nc
		s.order = append(s.order, nc)
		*cp = nc
		*lpp = nil
		return nil
	case "fun":
		f := &FunDecl{name: p.ident()}
		p.expect("(")
		for p.tok != ")" {
			f.args = append(f.args, p.typ())
			if p.tok == "," {
				p.next()
			}
		}
		p.expect(")")
		f.res = p.typ()
		f.smt = f.name
		if p.tok == "=" {
			p.next()
			f.smt = p.str()
		}
		p.end()
		if s.defs[f.name] != nil || s.funs[f.name] != nil {
			return fmt.Errorf("%s is defined twice", f.name)
		}
		s.funs[f.name] = f
		return nil
	case "define":
		d := &DefDecl{name: p.ident()}
		p.expect("(")
		for p.tok != ")" {
			nm := p.ident()
			d.params = append(d.params, bindDef{nm, p.typ()})
			if p.tok == "," {
				p.next()
			}
		}
		p.expect(")")
		if p.tok != "=" {
			p.typ()
		}
		p.expect("=")
		d.body = p.expr()
		p.end()
		if s.defs[d.name] != nil || s.funs[d.name] != nil {
			return fmt.Errorf("%s is defined twice", d.name)
		}
		s.defs[d.name] = d
		return nil
	case "axiom", "lemma":
		cl := p.clause(t)
		if kw == "axiom" {
			s.axioms = append(s.axioms, cl)
		} else {
			s.lemmas = append(s.lemmas, cl)
		}
		return nil
	case "dispatch", "implied":
		tn := p.qualIdent()
		if kw == "implied" {
			tn = "implied " + tn
		}
		p.expect(":")
		for p.tok != "" {
			s.dispatch[tn] = append(s.dispatch[tn], p.typ())
			if p.tok == "," {
				p.next()
			}
		}
		return nil
	case "opaque":
		tn := p.qualIdent()
		if p.ident() == "world" {
			s.opaque[tn] = p.ident()
		} else {
			s.opaque[tn] = ""
		}
		return nil
	case "carried": // types whose fields all have a name of their own in JSON
		cd := carriedDecl{cl: Clause{label: "every field has a JSON name of its own", line: pos}}
		if p.tok == "{" {
			p.next()
			for p.tok != "}" {
				cd.cl.tags = append(cd.cl.tags, p.ident())
				if p.tok == "," {
					p.next()
				}
			}
			p.next()
		}
		for p.tok != "" && p.tok != "with" {
			cd.types = append(cd.types, p.typ())
			if p.tok == "," {
				p.next()
			}
		}
		if p.tok == "with" {
			p.next()
			for p.tok != "" {
				cd.with = append(cd.with, p.typ())
				if p.tok == "," {
					p.next()
				}
			}
		}
		s.carried = append(s.carried, cd)
		return nil
	case "ghostfield":
		n := p.qualIdent()
		s.ghostFields[n] = p.typ()
		p.end()
		return nil
	case "guard":
		g := p.qualIdent()
		switch p.ident() {
		case "by":
			s.guards[g] = p.qualIdent()
		case "once": // a field that is only set inside the once function of another field
			s.onceGuards[g] = p.qualIdent()
		default:
			return fmt.Errorf("expected by or once")
		}
		return nil
	case "sentinel":
		for p.tok != "" {
			s.consts[p.qualIdent()] = true
			if p.tok == "," {
				p.next()
			}
		}
		return nil
	}
	if c == nil {
		return fmt.Errorf("%s outside a contract", kw)
	}
	lp := *lpp
	switch kw {
	case "tags":
		for p.tok != "" {
			c.tags = append(c.tags, p.ident())
			if p.tok == "," {
				p.next()
			}
		}
	case "trust":
		c.why = strings.TrimSpace(t[len("trust"):])
	case "inline":
		c.inline = true
	case "maypanic":
		c.mayPanic = true
	case "noreturn":
		c.noReturn = true
	case "nocover":
		c.nocover = true
	case "requires":
		c.requires = append(c.requires, p.clause(t))
	case "names":
		n := nameDef{res: p.ident()}
		e := p.expr()
		p.end()
		// the last argument is the history of a world
		w := ""
		if e.op == "call" && len(e.args) > 1 {
			if o := e.args[len(e.args)-1]; o.op == "call" && o.args[0].name == "old" && len(o.args) == 2 {
				if v := o.args[1]; v.op == "call" && v.args[0].name == "world" {
					w = v.args[1].name
				}
			}
		}
		ok := false
		for _, m := range c.modifies {
			ok = ok || m.cond == nil && m.e.op == "call" && m.e.args[0].name == "world" && m.e.args[1].name == w
		}
		if !ok {
			return fmt.Errorf("names RESULT FUNCTION(..., old(world(W))) with a world W that is modified")
		}
		n.fun, n.e = e.args[0].name, e
		if s.named[n.fun] {
			return fmt.Errorf("%s names a result already", n.fun)
		}
		s.named[n.fun] = true
		c.names = append(c.names, n)
	case "ensures":
		c.ensures = append(c.ensures, p.clause(t))
	case "panics":
		c.panics = append(c.panics, p.clause(t))
	case "onpanic":
		c.onpanic = append(c.onpanic, p.clause(t))
	case "let":
		nm := p.ident()
		p.expect("=")
		e := p.expr()
		p.end()
		c.lets = append(c.lets, letDef{nm, e})
	case "modifies":
		if p.tok == "*" && strings.TrimSpace(t) == "modifies *" {
			c.modAll = true
			return nil
		}
		var cond *Expr
		k := len(c.modifies)
		for p.tok != "" {
			c.modifies = append(c.modifies, modItem{e: p.expr()})
			if p.tok == "," {
				p.next()
			} else if p.tok == "when" {
				p.next()
				cond = p.expr()
			}
		}
		for ; k < len(c.modifies); k++ {
			c.modifies[k].cond = cond
		}
	case "loop", "iter":
		lp = &LoopSpec{kind: "loop", line: pos}
		if kw == "iter" {
			lp.kind = p.qualIdent()
		}
		if p.tok != "" {
			lp.name = p.ident()
		}
		c.loops = append(c.loops, lp)
		*lpp = lp
	case "bind":
		for p.tok != "" {
			nm := p.ident()
			lp.binds = append(lp.binds, bindDef{nm, p.typ()})
			if p.tok == "," {
				p.next()
			}
		}
	case "ghost":
		nm := p.ident()
		p.expect("=")
		e := p.expr()
		p.end()
		lp.ghosts = append(lp.ghosts, letDef{nm, e})
	case "def":
		lp.defs = append(lp.defs, p.clause(t))
	case "invariant":
		lp.inv = append(lp.inv, p.clause(t))
	case "step":
		lp.step = append(lp.step, p.clause(t))
	case "leave":
		lp.leave = append(lp.leave, p.clause(t))
	case "done":
		lp.done = append(lp.done, p.clause(t))
	default:
		return fmt.Errorf("unknown keyword %q", kw)
	}
	return nil
}

// ---- expression parser

type parseErr string

type exprParser struct {
	s    string
	i    int
	tok  string
	kind byte // i ident, n number, s string, o operator
	pos  string
}

func newParser(s, pos string) *exprParser {
	p := &exprParser{s: s, pos: pos}
	p.next()
	return p
}

func (p *exprParser) fail(f string, a ...interface{}) { panic(parseErr(fmt.Sprintf(f, a...))) }

var ops3 = []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", ":="}

func (p *exprParser) next() {
	for p.i < len(p.s) && (p.s[p.i] == ' ' || p.s[p.i] == '\t') {
		p.i++
	}
	if p.i >= len(p.s) {
		p.tok, p.kind = "", 0
		return
	}
	c := p.s[p.i]
	j := p.i
	switch {
	case unicode.IsLetter(rune(c)) || c == '_' || c == '$':
		for j < len(p.s) && (unicode.IsLetter(rune(p.s[j])) || unicode.IsDigit(rune(p.s[j])) || p.s[j] == '_' || p.s[j] == '$') {
			j++
		}
		p.kind = 'i'
	case unicode.IsDigit(rune(c)):
		for j < len(p.s) && unicode.IsDigit(rune(p.s[j])) {
			j++
		}
		p.kind = 'n'
	case c == '"':
		j++
		for j < len(p.s) && p.s[j] != '"' {
			if p.s[j] == '\\' {
				j++
			}
			j++
		}
		j++
		p.kind = 's'
	default:
		p.kind = 'o'
		j++
		for _, o := range ops3 {
			if strings.HasPrefix(p.s[p.i:], o) {
				j = p.i + len(o)
				break
			}
		}
	}
	p.tok = p.s[p.i:j]
	p.i = j
}

func (p *exprParser) peek() string { return p.tok }
func (p *exprParser) expect(t string) {
	if p.tok != t {
		p.fail("expected %q, found %q", t, p.tok)
	}
	p.next()
}
func (p *exprParser) end() {
	if p.tok != "" {
		p.fail("unexpected %q", p.tok)
	}
}
func (p *exprParser) ident() string {
	if p.kind != 'i' {
		p.fail("expected a name, found %q", p.tok)
	}
	t := p.tok
	p.next()
	return t
}
func (p *exprParser) qualIdent() string {
	t := ""
	if p.tok == "*" {
		p.next()
		t = "*"
	}
	t += p.ident()
	for p.tok == "." {
		p.next()
		t += "." + p.ident()
	}
	return t
}
func (p *exprParser) str() string {
	if p.kind != 's' {
		p.fail("expected a string, found %q", p.tok)
	}
	s, err := strconv.Unquote(p.tok)
	if err != nil {
		p.fail("bad string %s", p.tok)
	}
	p.next()
	return s
}
func (p *exprParser) nameList() []string {
	p.expect("(")
	var r []string
	for p.tok != ")" {
		r = append(r, p.ident())
		if p.tok == "," {
			p.next()
		}
	}
	p.expect(")")
	return r
}

func (p *exprParser) clause(src string) Clause {
	c := Clause{src: src, line: p.pos}
	if p.tok == "[" {
		j := strings.Index(p.s[p.i:], "]")
		if j < 0 {
			p.fail("label without ]")
		}
		c.label = strings.TrimSpace(p.s[p.i : p.i+j])
		p.i += j + 1
		p.next()
	}
	if p.tok == "{" {
		p.next()
		for p.tok != "}" {
			c.tags = append(c.tags, p.ident())
			if p.tok == "," {
				p.next()
			}
		}
		p.next()
	}
	if p.tok == ":" {
		p.next()
	}
	c.e = p.expr()
	p.end()
	if c.label == "" {
		c.label = strings.TrimSpace(src)
		if len(c.label) > 100 {
			c.label = c.label[:100]
		}
	}
	return c
}

func (p *exprParser) typ() *TypeExpr {
	switch {
	case p.tok == "*":
		p.next()
		return &TypeExpr{kind: "ptr", a: p.typ()}
	case p.tok == "[":
		p.next()
		p.expect("]")
		return &TypeExpr{kind: "slice", a: p.typ()}
	case p.tok == "map":
		p.next()
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return &TypeExpr{kind: "map", a: k, b: p.typ()}
	case p.tok == "struct": // struct { Name T, ... }
		p.next()
		p.expect("{")
		t := &TypeExpr{kind: "struct"}
		for p.tok != "}" {
			t.fields = append(t.fields, p.ident())
			t.types = append(t.types, p.typ())
			if p.tok == "," {
				p.next()
			}
		}
		p.next()
		return t
	case p.tok == "array":
		p.next()
		p.expect("(")
		k := p.typ()
		p.expect(",")
		v := p.typ()
		p.expect(")")
		return &TypeExpr{kind: "array", a: k, b: v}
	case p.tok == "opt":
		p.next()
		p.expect("(")
		k := p.typ()
		p.expect(")")
		return &TypeExpr{kind: "opt", a: k}
	case p.tok == "sort":
		p.next()
		p.expect("(")
		n := p.ident()
		p.expect(")")
		return &TypeExpr{kind: "sort", name: n}
	}
	return &TypeExpr{kind: "named", name: p.qualIdent()}
}

func (p *exprParser) expr() *Expr { return p.iff() }

func (p *exprParser) mk(op string, args ...*Expr) *Expr {
	return &Expr{op: op, args: args, line: p.pos}
}

func (p *exprParser) iff() *Expr {
	l := p.implies()
	for p.tok == "<==>" {
		p.next()
		r := p.implies()
		e := p.mk("bin", l, r)
		e.name = "<==>"
		l = e
	}
	return l
}

func (p *exprParser) implies() *Expr {
	l := p.binary(0)
	if p.tok == "==>" {
		p.next()
		r := p.implies()
		e := p.mk("bin", l, r)
		e.name = "==>"
		return e
	}
	return l
}

var prec = map[string]int{"||": 1, "&&": 2, "==": 3, "!=": 3, "<": 3, "<=": 3, ">": 3, ">=": 3, "is": 3, "+": 4, "-": 4, "|": 4, "*": 5, "&": 5}

func (p *exprParser) binary(min int) *Expr {
	l := p.unary()
	for {
		op := p.tok
		pr, ok := prec[op]
		if !ok || pr <= min {
			return l
		}
		if op == "is" {
			p.next()
			e := p.mk("is", l)
			e.ty = p.typ()
			l = e
			continue
		}
		p.next()
		r := p.binary(pr)
		e := p.mk("bin", l, r)
		e.name = op
		l = e
	}
}

func (p *exprParser) unary() *Expr {
	switch p.tok {
	case "!", "-":
		op := p.tok
		p.next()
		e := p.mk("un", p.unary())
		e.name = op
		return e
	case "*":
		p.next()
		return p.mk("deref", p.unary())
	case "forall", "exists":
		op := p.ident()
		e := p.mk(op)
		for {
			nm := p.ident()
			e.bind = append(e.bind, bindDef{nm, p.typ()})
			if p.tok != "," {
				break
			}
			p.next()
		}
		for p.tok == "{" {
			p.next()
			var ps []*Expr
			for p.tok != "}" {
				ps = append(ps, p.expr())
				if p.tok == "," {
					p.next()
				}
			}
			p.next()
			e.pats = append(e.pats, ps)
		}
		p.expect("::")
		e.args = []*Expr{p.expr()}
		return e
	case "if":
		p.next()
		c := p.expr()
		p.expect("then")
		a := p.expr()
		p.expect("else")
		b := p.expr()
		return p.mk("if", c, a, b)
	case "let":
		p.next()
		nm := p.ident()
		p.expect("=")
		v := p.expr()
		p.expect("in")
		b := p.expr()
		e := p.mk("let", v, b)
		e.name = nm
		return e
	}
	return p.postfix(p.primary())
}

func (p *exprParser) postfix(e *Expr) *Expr {
	for {
		switch p.tok {
		case ".":
			p.next()
			n := p.mk("sel", e)
			n.name = p.ident()
			e = n
		case "[":
			p.next()
			i := p.expr()
			p.expect("]")
			e = p.mk("index", e, i)
		case "(":
			if e.op != "ident" && e.op != "sel" {
				return e
			}
			p.next()
			n := p.mk("call", e)
			for p.tok != ")" {
				n.args = append(n.args, p.expr())
				if p.tok == "," {
					p.next()
				}
			}
			p.next()
			e = n
		case "as":
			p.next()
			n := p.mk("as", e)
			n.ty = p.typ()
			e = n
		default:
			return e
		}
	}
}

func (p *exprParser) primary() *Expr {
	switch {
	case p.tok == "(":
		p.next()
		e := p.expr()
		p.expect(")")
		// a parenthesised pointer type is not supported, only expressions
		return &Expr{op: "paren", args: []*Expr{e}, line: p.pos}
	case p.kind == 'i':
		nm := p.tok
		p.next()
		if nm == "mk" { // mk T{field: e, ...}
			e := p.mk("mk")
			e.ty = p.typ()
			p.expect("{")
			for p.tok != "}" {
				f := p.ident()
				p.expect(":")
				v := p.expr()
				e.args = append(e.args, v)
				e.bind = append(e.bind, bindDef{f, nil})
				if p.tok == "," {
					p.next()
				}
			}
			p.next()
			return e
		}
		if nm == "typed" { // typed(T, e)
			p.expect("(")
			e := p.mk("typed")
			e.ty = p.typ()
			p.expect(",")
			e.args = []*Expr{p.expr()}
			p.expect(")")
			return e
		}
		if nm == "zero" || nm == "sizeof" || nm == "emptyset" || nm == "none" || nm == "emptymap" {
			p.expect("(")
			e := p.mk(nm)
			e.ty = p.typ()
			p.expect(")")
			return e
		}
		e := p.mk("ident")
		e.name = nm
		return e
	case p.kind == 'n':
		i, _ := strconv.ParseInt(p.tok, 10, 64)
		p.next()
		e := p.mk("int")
		e.i = i
		return e
	case p.kind == 's':
		e := p.mk("str")
		e.name = p.str()
		return e
	}
	p.fail("unexpected %q", p.tok)
	return nil
}

var _ = types.Typ
