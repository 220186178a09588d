package main

import (
	"bytes"
	"context"
	"fmt"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

type printer struct {
	abstract bool
	named    map[int]string // hoisted terms
	lits     map[string]string
}

func (p *printer) sort(s string) string {
	if !p.abstract {
		return s
	}
	return abstractSort(s)
}

func abstractSort(s string) string {
	if !strings.Contains(s, "String") {
		return s
	}
	out := ""
	i := 0
	for i < len(s) {
		j := i
		for j < len(s) && s[j] != ' ' && s[j] != '(' && s[j] != ')' {
			j++
		}
		if j > i {
			w := s[i:j]
			if w == "String" {
				w = "Str"
			}
			out += w
			i = j
			continue
		}
		out += string(s[i])
		i++
	}
	return out
}

func q(name string) string {
	for _, c := range name {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '!' || c == '.' || c == '-' || c == '+' || c == '<' || c == '=') {
			return "|" + strings.Map(func(r rune) rune {
				if r == '|' || r == '\\' {
					return '_'
				}
				return r
			}, name) + "|"
		}
	}
	if name == "" {
		return "|empty|"
	}
	return name
}

func strLit(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"':
			sb.WriteString(`""`)
		case c == '\\' || c < 32 || c > 126:
			fmt.Fprintf(&sb, `\u{%x}`, c)
		default:
			sb.WriteByte(c)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func (p *printer) expr(t *Term) string {
	if n, ok := p.named[t.id]; ok {
		return n
	}
	return p.raw(t)
}

func (p *printer) list(head string, args []*Term) string {
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(head)
	for _, a := range args {
		sb.WriteByte(' ')
		sb.WriteString(p.expr(a))
	}
	sb.WriteByte(')')
	return sb.String()
}

func (p *printer) raw(t *Term) string {
	switch t.op {
	case "true", "false":
		return t.op
	case "int":
		if t.i < 0 {
			return fmt.Sprintf("(- %d)", -t.i)
		}
		return fmt.Sprint(t.i)
	case "str":
		if p.abstract {
			return p.lit(t.name)
		}
		return strLit(t.name)
	case "const", "bvar":
		return q(t.name)
	case "app":
		n := t.name
		if strings.HasPrefix(n, "str.") && p.abstract {
			n = "S_" + n[4:]
			if t.name == "str.++" {
				// binary, right nested
				s := p.expr(t.args[len(t.args)-1])
				for i := len(t.args) - 2; i >= 0; i-- {
					s = "(S_cat " + p.expr(t.args[i]) + " " + s + ")"
				}
				return s
			}
		}
		if len(t.args) == 0 {
			return q(n)
		}
		return p.list(q(n), t.args)
	case "ctor":
		if len(t.args) == 0 {
			return q(t.name)
		}
		return p.list(q(t.name), t.args)
	case "sel":
		return p.list(q(selName(t.name, int(t.i))), t.args)
	case "is":
		return p.list("(_ is "+q(t.name)+")", t.args)
	case "not", "and", "or", "=>", "=", "ite", "+", "*", "<", "<=", "select", "store":
		return p.list(t.op, t.args)
	case "constarr":
		return "((as const " + p.sort(t.sort) + ") " + p.expr(t.args[0]) + ")"
	case "forall", "exists":
		var sb strings.Builder
		sb.WriteString("(" + t.op + " (")
		for _, b := range t.bv {
			sb.WriteString("(" + q(b.name) + " " + p.sort(b.sort) + ")")
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
		}
		sb.WriteString(p.expr(t.args[0]))
		for _, pt := range t.pats {
			sb.WriteString(" :pattern (")
			for i, x := range pt {
				if i > 0 {
					sb.WriteString(" ")
				}
				sb.WriteString(p.expr(x))
			}
			sb.WriteString(")")
		}
		if len(t.pats) > 0 {
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return sb.String()
	}
	return "?" + t.op
}

func (p *printer) lit(s string) string {
	if p.lits == nil {
		p.lits = map[string]string{}
	}
	if n, ok := p.lits[s]; ok {
		return n
	}
	n := fmt.Sprintf("|L%d:%s|", len(p.lits), strings.Map(func(r rune) rune {
		if r == '|' || r == '\\' || r < 32 || r > 126 {
			return '_'
		}
		return r
	}, s))
	p.lits[s] = n
	return n
}

func selName(ctor string, i int) string { return fmt.Sprintf("%s.%d", ctor, i) }

type Axiom struct {
	name string
	t    *Term
	keys []string // function symbols that must all occur
	src  string
}

var axioms []Axiom

type ctx struct {
	seen   map[int]int
	order  []*Term
	sorts  map[string]bool
	consts map[string]*Term
	funs   map[string]*Term
	ctors  map[string]bool // Any constructors
}

func (c *ctx) visit(t *Term) {
	c.seen[t.id]++
	if c.seen[t.id] > 1 {
		return
	}
	for _, a := range t.args {
		c.visit(a)
	}
	for _, p := range t.pats {
		for _, x := range p {
			c.visit(x)
		}
	}
	c.addSort(t.sort)
	switch t.op {
	case "const":
		c.consts[t.name] = t
	case "app":
		c.funs[t.name] = t
	case "ctor", "is", "sel":
		if t.sort == "Any" && t.op == "ctor" || t.op != "ctor" && t.args[0].sort == "Any" {
			c.addAny(t.name)
		}
	}
	c.order = append(c.order, t)
}

func (c *ctx) addAny(name string) {
	if c.ctors[name] {
		return
	}
	c.ctors[name] = true
	if d, ok := anyCtors[name]; ok {
		for _, f := range d.Fields {
			c.addSort(f.Sort)
		}
	} else {
		panic("unknown Any constructor " + name)
	}
}

func (c *ctx) addSort(s string) {
	if c.sorts[s] {
		return
	}
	c.sorts[s] = true
	if strings.HasPrefix(s, "(Array ") {
		k, v := arrSorts(s)
		c.addSort(k)
		c.addSort(v)
		return
	}
	if d, ok := datatypes[s]; ok {
		for _, ct := range d.Ctors {
			for _, f := range ct.Fields {
				c.addSort(f.Sort)
			}
		}
	}
	if s == "Any" {
		for _, n := range []string{"nilAny", "absent", "opaque"} {
			c.addAny(n)
		}
	}
}

func init() {
	anyCtors["nilAny"] = CtorDef{"nilAny", nil}
	anyCtors["absent"] = CtorDef{"absent", nil}
	anyCtors["opaque"] = CtorDef{"opaque", []Field{{"tag", "Int"}, {"id", "Int"}}}
}

var strFuns = map[string][]string{
	"str.++": {"Str", "Str", "Str"}, "str.len": {"Str", "Int"}, "str.substr": {"Str", "Int", "Int", "Str"},
	"str.prefixof": {"Str", "Str", "Bool"}, "str.suffixof": {"Str", "Str", "Bool"}, "str.contains": {"Str", "Str", "Bool"},
	"str.at": {"Str", "Int", "Str"}, "str.<": {"Str", "Str", "Bool"}, "str.<=": {"Str", "Str", "Bool"},
	"str.indexof": {"Str", "Str", "Int", "Int"}, "str.replace_all": {"Str", "Str", "Str", "Str"},
	"str.replace": {"Str", "Str", "Str", "Str"}, "str.to_code": {"Str", "Int"}, "str.from_code": {"Int", "Str"},
}

var smtBuiltin = map[string]bool{"div": true, "mod": true, "abs": true}

// query renders facts |- goal as an SMT problem; unsat means valid.
func query(facts []*Term, goal *Term, abstract bool, wantModel bool, axLimit int) string {
	queryMu.Lock()
	defer queryMu.Unlock()
	c := &ctx{seen: map[int]int{}, sorts: map[string]bool{}, consts: map[string]*Term{}, funs: map[string]*Term{}, ctors: map[string]bool{}}
	for _, f := range facts {
		c.visit(f)
	}
	ng := Not(goal)
	c.visit(ng)
	used := make([]bool, len(axioms))
	var ax []*Term
	for ch := true; ch; {
		ch = false
		for i, a := range axioms {
			if used[i] || axLimit >= 0 && i >= axLimit && !strings.HasPrefix(a.name, "impl_") {
				continue
			}
			ok := true
			for _, k := range a.keys {
				if c.funs[k] == nil && !c.ctors[k] {
					ok = false
					break
				}
			}
			if ok {
				used[i] = true
				ch = true
				c.visit(a.t)
				ax = append(ax, a.t)
			}
		}
	}
	p := &printer{abstract: abstract, named: map[int]string{}}
	var sb strings.Builder
	var defs strings.Builder

	// hoist shared closed terms
	for _, t := range c.order {
		if t.op == "ite" && len(t.fb) == 0 && strings.HasPrefix(t.sort, "(Array") {
			// a constant of its own: ite is not allowed in patterns
			n := fmt.Sprintf("$%d", t.id)
			fmt.Fprintf(&defs, "(declare-fun %s () %s)\n(assert (= %s %s))\n", n, p.sort(t.sort), n, p.raw(t))
			p.named[t.id] = n
			continue
		}
		if c.seen[t.id] > 1 && len(t.args) > 0 && len(t.fb) == 0 && t.op != "forall" && t.op != "exists" {
			n := fmt.Sprintf("$%d", t.id)
			fmt.Fprintf(&defs, "(define-fun %s () %s %s)\n", n, p.sort(t.sort), p.raw(t))
			p.named[t.id] = n
		}
	}
	var asserts strings.Builder
	for _, a := range ax {
		fmt.Fprintf(&asserts, "(assert %s)\n", p.expr(a))
	}
	for _, f := range facts {
		fmt.Fprintf(&asserts, "(assert %s)\n", p.expr(f))
	}
	fmt.Fprintf(&asserts, "(assert %s)\n", p.expr(ng))

	sb.WriteString("(set-logic ALL)\n")
	if wantModel {
		sb.WriteString("(set-option :produce-models true)\n")
	}
	var us []string
	for s := range c.sorts {
		us = append(us, s)
	}
	sort.Strings(us)
	hasStr := c.sorts["String"]
	if abstract {
		sb.WriteString("(declare-sort Str 0)\n")
	}
	var dts []string
	for _, s := range us {
		if _, ok := datatypes[s]; ok || s == "Any" {
			dts = append(dts, s)
			continue
		}
		if s == "Int" || s == "Bool" || s == "String" || strings.HasPrefix(s, "(") {
			continue
		}
		fmt.Fprintf(&sb, "(declare-sort %s 0)\n", q(s))
	}
	if len(dts) > 0 {
		sb.WriteString("(declare-datatypes (")
		for _, d := range dts {
			fmt.Fprintf(&sb, "(%s 0)", q(d))
		}
		sb.WriteString(") (")
		for _, d := range dts {
			var cs []CtorDef
			if d == "Any" {
				var ns []string
				for n := range c.ctors {
					ns = append(ns, n)
				}
				sort.Strings(ns)
				for _, n := range ns {
					cs = append(cs, anyCtors[n])
				}
			} else {
				cs = datatypes[d].Ctors
			}
			sb.WriteString("(")
			for _, ct := range cs {
				sb.WriteString("(" + q(ct.Name))
				for i, f := range ct.Fields {
					fmt.Fprintf(&sb, " (%s %s)", q(selName(ct.Name, i)), qs(p.sort(f.Sort)))
				}
				sb.WriteString(")")
			}
			sb.WriteString(")\n")
		}
		sb.WriteString("))\n")
	}
	if abstract && hasStr {
		for _, n := range sortedKeys(c.funs) {
			if sig, ok := strFuns[n]; ok {
				nm := "S_" + n[4:]
				if n == "str.++" {
					nm = "S_cat"
				}
				fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", q(nm), strings.Join(sig[:len(sig)-1], " "), sig[len(sig)-1])
			}
		}
		var ls []string
		for s := range p.lits {
			ls = append(ls, s)
		}
		sort.Strings(ls)
		for _, s := range ls {
			fmt.Fprintf(&sb, "(declare-const %s Str)\n", p.lits[s])
		}
		if len(ls) > 1 {
			sb.WriteString("(assert (distinct")
			for _, s := range ls {
				sb.WriteString(" " + p.lits[s])
			}
			sb.WriteString("))\n")
		}
		if c.funs["str.len"] != nil {
			for _, s := range ls {
				fmt.Fprintf(&sb, "(assert (= (S_len %s) %d))\n", p.lits[s], len(s))
			}
			sb.WriteString("(assert (forall ((s Str)) (! (<= 0 (S_len s)) :pattern ((S_len s)))))\n")
		}
		if c.funs["str.substr"] != nil && c.funs["str.len"] != nil {
			sb.WriteString("(assert (forall ((s Str) (o Int) (l Int)) (! (=> (and (= o 0) (= l (S_len s))) (= s (S_substr s o l))) :pattern ((S_substr s o l)))))\n")
			sb.WriteString("(assert (forall ((s Str) (o Int) (l Int)) (! (=> (and (<= 0 o) (<= 0 l) (<= (+ o l) (S_len s))) (= l (S_len (S_substr s o l)))) :pattern ((S_substr s o l)))))\n")
		}
		if c.funs["str.prefixof"] != nil && c.funs["str.++"] != nil {
			sb.WriteString("(assert (forall ((s Str) (t Str)) (! (S_prefixof s (S_cat s t)) :pattern ((S_cat s t)))))\n")
		}
		if c.funs["str.<="] != nil {
			sb.WriteString("(assert (forall ((s Str)) (! (S_<= s s) :pattern ((S_<= s s)))))\n")
			sb.WriteString("(assert (forall ((s Str) (t Str)) (! (=> (and (S_<= s t) (S_<= t s)) (= s t)) :pattern ((S_<= s t) (S_<= t s)))))\n")
			sb.WriteString("(assert (forall ((s Str) (t Str)) (! (or (S_<= s t) (S_<= t s)) :pattern ((S_<= s t)))))\n")
			sb.WriteString("(assert (forall ((s Str) (t Str) (u Str)) (! (=> (and (S_<= s t) (S_<= t u)) (S_<= s u)) :pattern ((S_<= s t) (S_<= t u)))))\n")
		}
	}
	for _, n := range sortedKeys(c.consts) {
		fmt.Fprintf(&sb, "(declare-const %s %s)\n", q(n), qs(p.sort(c.consts[n].sort)))
	}
	var dc = map[string][]string{}
	for _, n := range sortedKeys(c.consts) {
		if distinctConst[n] {
			dc[c.consts[n].sort] = append(dc[c.consts[n].sort], q(n))
		}
	}
	for _, ns := range dc {
		if len(ns) > 1 {
			fmt.Fprintf(&sb, "(assert (distinct %s))\n", strings.Join(ns, " "))
		}
	}
	for _, n := range sortedKeys(c.funs) {
		if strings.HasPrefix(n, "str.") || smtBuiltin[n] {
			continue
		}
		f := c.funs[n]
		var as []string
		for _, a := range f.args {
			as = append(as, qs(p.sort(a.sort)))
		}
		fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", q(n), strings.Join(as, " "), qs(p.sort(f.sort)))
	}
	if c.funs["sl.at"] != nil {
		sb.WriteString("(assert (forall ((o Int) (i Int)) (! (= (sl.at o i) (+ o i)) :pattern ((sl.at o i)))))\n")
	}
	sb.WriteString(defs.String())
	sb.WriteString(asserts.String())
	sb.WriteString("(check-sat)\n")
	if wantModel {
		sb.WriteString("(get-model)\n")
	}
	return sb.String()
}

func usesStrings(facts []*Term, goal *Term) bool {
	c := &ctx{seen: map[int]int{}, sorts: map[string]bool{}, consts: map[string]*Term{}, funs: map[string]*Term{}, ctors: map[string]bool{}}
	for _, f := range facts {
		c.visit(f)
	}
	c.visit(goal)
	return c.sorts["String"]
}

// qs quotes a sort; composite sorts are kept as they are (their parts are plain names)
func qs(s string) string {
	if strings.HasPrefix(s, "(") {
		return s
	}
	return q(s)
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

type SolveResult struct {
	status  string // unsat sat unknown
	backend string
	ms      float64
	out     string
	query   string
}

type solverCfg struct {
	name     string
	abstract bool
	cmd      func(to int) []string
}

func z3new(to int) []string { return []string{"z3-new", "-in", fmt.Sprintf("-T:%d", to)} }
func z3old(to int) []string { return []string{"z3", "-in", fmt.Sprintf("-T:%d", to)} }
func cvc5c(to int) []string {
	return []string{"cvc5", "--lang=smt2", "--strings-exp", fmt.Sprintf("--tlimit=%d", to*1000), "-"}
}
func cvc5e(to int) []string {
	return []string{"cvc5", "--lang=smt2", "--strings-exp", "--full-saturate-quant", fmt.Sprintf("--tlimit=%d", to*1000), "-"}
}

var solveSem = make(chan struct{}, 8)

func runSolver(cx context.Context, cmd []string, in string) string {
	solveSem <- struct{}{}
	defer func() { <-solveSem }()
	if cx.Err() != nil {
		return "cancelled"
	}
	c := exec.CommandContext(cx, cmd[0], cmd[1:]...)
	c.Stdin = strings.NewReader(in)
	var out bytes.Buffer
	c.Stdout = &out
	c.Stderr = &out
	c.Run()
	return out.String()
}

func statusOf(out string) string {
	for _, l := range strings.Split(out, "\n") {
		l = strings.TrimSpace(l)
		if l == "unsat" || l == "sat" || l == "unknown" {
			return l
		}
	}
	return "unknown"
}

// solve tries to show facts |- goal.
func solve(facts []*Term, goal *Term, timeout, lim int) SolveResult {
	start := time.Now()
	if goal == True {
		return SolveResult{status: "unsat", backend: "simplifier"}
	}
	for _, f := range facts {
		if f == False || f == goal {
			return SolveResult{status: "unsat", backend: "simplifier"}
		}
	}
	hs := usesStrings(facts, goal)
	ab := query(facts, goal, true, false, lim)
	na := ab
	if hs {
		na = query(facts, goal, false, false, lim)
	}
	ms := func() float64 { return float64(time.Since(start).Microseconds()) / 1000 }
	out := runSolver(context.Background(), z3new(2), ab)
	if st := statusOf(out); st == "unsat" {
		return SolveResult{"unsat", "z3-5 (strings uninterpreted)", ms(), out, ab}
	} else if st == "sat" && !hs {
		return SolveResult{"sat", "z3-5", ms(), out, ab}
	}
	if strings.Contains(out, "error") {
		return SolveResult{"unknown", "z3-5", ms(), out, ab}
	}
	cfgs := []struct {
		name string
		cmd  []string
		in   string
		nat  bool
	}{
		{"z3-5 (strings uninterpreted)", z3new(timeout), ab, !hs},
		{"cvc5 (strings uninterpreted)", cvc5c(timeout), ab, !hs},
		{"z3-4.8 (strings uninterpreted)", z3old(timeout), ab, !hs},
		{"z3-5 (strings uninterpreted, seed 3)", append(z3new(timeout), "smt.random_seed=3"), ab, !hs},
	}
	if hs {
		cfgs = append(cfgs, []struct {
			name string
			cmd  []string
			in   string
			nat  bool
		}{
			{"z3-5", z3new(timeout), na, true},
			{"cvc5", cvc5c(timeout), na, true},
			{"cvc5 (full saturation)", cvc5e(timeout), na, true},
		}...)
	}
	cx, cancel := context.WithTimeout(context.Background(), time.Duration(timeout+3)*time.Second)
	defer cancel()
	type res struct {
		i   int
		out string
	}
	ch := make(chan res, len(cfgs))
	for i := range cfgs {
		go func(i int) { ch <- res{i, runSolver(cx, cfgs[i].cmd, cfgs[i].in)} }(i)
	}
	best := SolveResult{status: "unknown", backend: "portfolio", query: na}
	for range cfgs {
		r := <-ch
		st := statusOf(r.out)
		if st == "unsat" {
			return SolveResult{"unsat", cfgs[r.i].name, ms(), r.out, cfgs[r.i].in}
		}
		if st == "sat" && cfgs[r.i].nat {
			return SolveResult{"sat", cfgs[r.i].name, ms(), r.out, cfgs[r.i].in}
		}
		best.out += cfgs[r.i].name + ": " + strings.TrimSpace(r.out) + "\n"
	}
	best.ms = ms()
	return best
}

// feasible is a cheap check used to prune paths; true if not refuted
var feasMu sync.Mutex
var feasCount, feasPruned int

func feasible(facts []*Term) bool {
	for _, f := range facts {
		if f == False {
			return false
		}
	}
	feasMu.Lock()
	feasCount++
	feasMu.Unlock()
	in := query(facts, False, true, false, -1)
	in = strings.Replace(in, "(check-sat)", "(set-option :timeout 300)\n(check-sat)", 1)
	out := runSolver(context.Background(), append(z3new(1), "auto_config=false", "smt.mbqi=false"), in)
	if strings.Contains(out, "error") {
		panic("feasible: " + out + "\n" + in)
	}
	if statusOf(out) == "unsat" {
		feasMu.Lock()
		feasPruned++
		feasMu.Unlock()
		return false
	}
	return true
}

// modelOf asks for a counterexample; string operations have their meaning
func modelOf(facts []*Term, goal *Term, lim int) string {
	in := query(facts, goal, false, true, lim)
	out := runSolver(context.Background(), z3new(5), "(set-option :produce-models true)\n"+in)
	if len(out) > 20000 {
		out = out[:20000]
	}
	return out
}
