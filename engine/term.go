package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed SMT term.
type Term struct {
	op    string // see below
	name  string // const/app/ctor/sel/is names, string literals
	i     int64  // int literals
	args  []*Term
	sort  string
	id    int
	stamp int   // max creation stamp of the symbols inside
	fb    []int // ids of free bound variables
	bv    []*Term
	pats  [][]*Term
}

// ops: true false int str const bvar app ctor sel is not and or => = ite + * < <= select store constarr forall exists
// string ops are "app" with SMT names: str.++ str.len ...

var (
	termTab   = map[string]*Term{}
	termCount int
	stampCtr  int
)

func nextStamp() int { stampCtr++; return stampCtr }

func mk(op, name string, i int64, sort string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(name)
	sb.WriteByte('|')
	sb.WriteString(strconv.FormatInt(i, 10))
	sb.WriteByte('|')
	sb.WriteString(sort)
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termCount++
	t := &Term{op: op, name: name, i: i, sort: sort, args: args, id: termCount}
	for _, a := range args {
		if a.stamp > t.stamp {
			t.stamp = a.stamp
		}
		t.fb = mergeInts(t.fb, a.fb)
	}
	if op == "bvar" {
		t.fb = []int{t.id}
	}
	if op == "const" {
		t.stamp = stampCtr
	}
	termTab[k] = t
	return t
}

func mergeInts(a, b []int) []int {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	m := map[int]bool{}
	for _, x := range a {
		m[x] = true
	}
	for _, x := range b {
		m[x] = true
	}
	r := make([]int, 0, len(m))
	for x := range m {
		r = append(r, x)
	}
	sort.Ints(r)
	return r
}

var (
	True  = mk("true", "", 0, "Bool")
	False = mk("false", "", 0, "Bool")
)

func Int(i int64) *Term  { return mk("int", "", i, "Int") }
func Str(s string) *Term { return mk("str", s, 0, "String") }
func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}

var symCtr int

// Sym is a globally named constant.
func Sym(name, sort string) *Term { return mk("const", name, 0, sort) }

// Fresh is a new constant.
func Fresh(hint, sort string) *Term {
	symCtr++
	nextStamp()
	return mk("const", fmt.Sprintf("%s!%d", hint, symCtr), 0, sort)
}

func BVar(hint, sort string) *Term {
	symCtr++
	return mk("bvar", fmt.Sprintf("%s?%d", hint, symCtr), 0, sort)
}

// App applies an uninterpreted (or builtin) function.
func App(name, sort string, args ...*Term) *Term {
	switch name {
	case "str.++":
		return Concat(args...)
	case "str.len":
		return StrLen(args[0])
	case "str.substr":
		return Substr(args[0], args[1], args[2])
	case "str.prefixof":
		if args[0].op == "str" && args[1].op == "str" {
			return Bool(strings.HasPrefix(args[1].name, args[0].name))
		}
		if args[0] == args[1] || args[0].op == "str" && args[0].name == "" {
			return True
		}
		if args[1].op == "app" && args[1].name == "str.++" {
			f := args[1].args[0]
			if f == args[0] {
				return True
			}
			if f.op == "str" && args[0].op == "str" {
				if strings.HasPrefix(f.name, args[0].name) {
					return True
				}
				if len(f.name) >= len(args[0].name) {
					return False
				}
			}
		}
	case "str.suffixof":
		if args[0].op == "str" && args[1].op == "str" {
			return Bool(strings.HasSuffix(args[1].name, args[0].name))
		}
	case "str.contains":
		if args[0].op == "str" && args[1].op == "str" {
			return Bool(strings.Contains(args[0].name, args[1].name))
		}
	}
	return mk("app", name, 0, sort, args...)
}

func Concat(args ...*Term) *Term {
	var fl []*Term
	for _, a := range args {
		if a.op == "app" && a.name == "str.++" {
			fl = append(fl, a.args...)
		} else {
			fl = append(fl, a)
		}
	}
	var out []*Term
	for _, a := range fl {
		if a.op == "str" {
			if a.name == "" {
				continue
			}
			if n := len(out); n > 0 && out[n-1].op == "str" {
				out[n-1] = Str(out[n-1].name + a.name)
				continue
			}
		}
		out = append(out, a)
	}
	switch len(out) {
	case 0:
		return Str("")
	case 1:
		return out[0]
	}
	return mk("app", "str.++", 0, "String", out...)
}

func StrLen(s *Term) *Term {
	if s.op == "str" {
		return Int(int64(len(s.name)))
	}
	if s.op == "app" && s.name == "str.++" {
		var xs []*Term
		for _, a := range s.args {
			xs = append(xs, StrLen(a))
		}
		return Add(xs...)
	}
	return mk("app", "str.len", 0, "Int", s)
}

func Substr(s, off, n *Term) *Term {
	if off.op == "int" && off.i == 0 && n == StrLen(s) {
		return s
	}
	if n.op == "int" && n.i == 0 {
		return Str("")
	}
	if s.op == "str" && off.op == "int" && n.op == "int" && off.i >= 0 && n.i >= 0 && off.i+n.i <= int64(len(s.name)) {
		return Str(s.name[off.i : off.i+n.i])
	}
	return mk("app", "str.substr", 0, "String", s, off, n)
}

func Not(a *Term) *Term {
	switch a.op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.args[0]
	}
	return mk("not", "", 0, "Bool", a)
}

func And(xs ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x.op == "true" {
			return true
		}
		if x.op == "false" {
			return false
		}
		if x.op == "and" {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[x.id] {
			return true
		}
		if seen[Not(x).id] {
			return false
		}
		seen[x.id] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return False
		}
	}
	switch len(out) {
	case 0:
		return True
	case 1:
		return out[0]
	}
	return mk("and", "", 0, "Bool", out...)
}

func Or(xs ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x.op == "false" {
			return true
		}
		if x.op == "true" {
			return false
		}
		if x.op == "or" {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[x.id] {
			return true
		}
		if seen[Not(x).id] {
			return false
		}
		seen[x.id] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return True
		}
	}
	switch len(out) {
	case 0:
		return False
	case 1:
		return out[0]
	}
	return mk("or", "", 0, "Bool", out...)
}

func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True || a == b {
		return True
	}
	if b == False {
		return Not(a)
	}
	return mk("=>", "", 0, "Bool", a, b)
}

// split of a linear integer term into base and constant
func lin(t *Term) (*Term, int64) {
	if t.op == "int" {
		return nil, t.i
	}
	if t.op == "+" {
		if l := t.args[len(t.args)-1]; l.op == "int" {
			if len(t.args) == 2 {
				return t.args[0], l.i
			}
			return mk("+", "", 0, "Int", t.args[:len(t.args)-1]...), l.i
		}
	}
	return t, 0
}

// At is the place of element i of a slice that starts at off; it is a function
// of its own because sums don't make good patterns
func At(off, i *Term) *Term {
	if off.op == "int" {
		return Add(off, i)
	}
	return App("sl.at", "Int", off, i)
}

func Add(xs ...*Term) *Term {
	var c int64
	coef := map[int]int64{}
	byid := map[int]*Term{}
	var rec func(t *Term, k int64)
	rec = func(t *Term, k int64) {
		switch {
		case t.op == "int":
			c += k * t.i
		case t.op == "+":
			for _, a := range t.args {
				rec(a, k)
			}
		case t.op == "*" && t.args[0].op == "int":
			rec(t.args[1], k*t.args[0].i)
		default:
			coef[t.id] += k
			byid[t.id] = t
		}
	}
	for _, x := range xs {
		rec(x, 1)
	}
	var ids []int
	for id, k := range coef {
		if k != 0 {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	var out []*Term
	for _, id := range ids {
		if coef[id] == 1 {
			out = append(out, byid[id])
		} else {
			out = append(out, mk("*", "", 0, "Int", Int(coef[id]), byid[id]))
		}
	}
	if c != 0 || len(out) == 0 {
		out = append(out, Int(c))
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("+", "", 0, "Int", out...)
}

func Neg(a *Term) *Term {
	if a.op == "int" {
		return Int(-a.i)
	}
	if a.op == "+" {
		var xs []*Term
		for _, x := range a.args {
			xs = append(xs, Neg(x))
		}
		return Add(xs...)
	}
	if a.op == "*" && a.args[0].op == "int" {
		if a.args[0].i == -1 {
			return a.args[1]
		}
		return mk("*", "", 0, "Int", Int(-a.args[0].i), a.args[1])
	}
	return mk("*", "", 0, "Int", Int(-1), a)
}
func Sub(a, b *Term) *Term { return Add(a, Neg(b)) }
func Mul(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" {
		return Int(a.i * b.i)
	}
	if b.op == "int" {
		a, b = b, a
	}
	if a.op == "int" {
		if a.i == 0 {
			return Int(0)
		}
		if a.i == 1 {
			return b
		}
		if b.op == "+" {
			var xs []*Term
			for _, x := range b.args {
				xs = append(xs, Mul(a, x))
			}
			return Add(xs...)
		}
		if b.op == "*" && b.args[0].op == "int" {
			return Mul(Int(a.i*b.args[0].i), b.args[1])
		}
	}
	return mk("*", "", 0, "Int", a, b)
}

func Lt(a, b *Term) *Term {
	d := Sub(b, a)
	if d.op == "int" {
		return Bool(d.i > 0)
	}
	return mk("<", "", 0, "Bool", a, b)
}
func Le(a, b *Term) *Term {
	d := Sub(b, a)
	if d.op == "int" {
		return Bool(d.i >= 0)
	}
	return mk("<=", "", 0, "Bool", a, b)
}

// newref: constants created by allocation; distinct from everything older
var newRefs = map[int]int{} // term id -> stamp before allocation

func NewRef(hint string) *Term {
	before := stampCtr
	t := Fresh("ref_"+hint, "Int")
	newRefs[t.id] = before
	return t
}

// definitely different values of the same sort
func distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	switch {
	case a.op == "int" && b.op == "int", a.op == "str" && b.op == "str":
		return true
	case a.op == "true" && b.op == "false", a.op == "false" && b.op == "true":
		return true
	}
	if a.sort == "Int" {
		if sa, ok := newRefs[a.id]; ok && refForm(b) && b.stamp <= sa {
			return true
		}
		if sb, ok := newRefs[b.id]; ok && refForm(a) && a.stamp <= sb {
			return true
		}
		d := Sub(a, b)
		return d.op == "int" && d.i != 0
	}
	if a.op == "ctor" && b.op == "ctor" {
		if a.name != b.name {
			return true
		}
		for i := range a.args {
			if distinct(a.args[i], b.args[i]) {
				return true
			}
		}
	}
	if a.op == "const" && b.op == "const" && distinctConst[a.name] && distinctConst[b.name] {
		return true
	}
	if a.sort == "String" {
		// different literal heads
		ha, hb := strHead(a), strHead(b)
		n := len(ha)
		if len(hb) < n {
			n = len(hb)
		}
		if ha[:n] != hb[:n] {
			return true
		}
		if a.op == "str" && len(a.name) < len(hb) || b.op == "str" && len(b.name) < len(ha) {
			return true
		}
	}
	return false
}

func strHead(a *Term) string {
	if a.op == "str" {
		return a.name
	}
	if a.op == "app" && a.name == "str.++" && a.args[0].op == "str" {
		return a.args[0].name
	}
	return ""
}

var distinctConst = map[string]bool{}

// program values of pointer type have one of these forms; newer allocations
// can not be equal to older ones
func refForm(t *Term) bool {
	if len(t.fb) > 0 {
		return false
	}
	switch t.op {
	case "int", "const", "sel", "select":
		return true
	case "ite":
		return refForm(t.args[1]) && refForm(t.args[2])
	}
	return false
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq: sorts %s and %s: %s / %s", a.sort, b.sort, a, b))
	}
	if distinct(a, b) {
		return False
	}
	if a.sort == "Bool" {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if a.op == "ctor" && b.op == "ctor" && a.name == b.name {
		var xs []*Term
		for i := range a.args {
			xs = append(xs, Eq(a.args[i], b.args[i]))
		}
		return And(xs...)
	}
	if a.op == "ite" && (b.op == "ctor" || b.op == "int" || b.op == "str") {
		e1, e2 := Eq(a.args[1], b), Eq(a.args[2], b)
		if isLit(e1) || isLit(e2) {
			return Ite(a.args[0], e1, e2)
		}
	}
	if b.op == "ite" && (a.op == "ctor" || a.op == "int" || a.op == "str") {
		return Eq(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", "", 0, "Bool", a, b)
}

func isLit(t *Term) bool { return t == True || t == False }

func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	if a.sort == "Bool" {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if b == False {
			return And(c, a)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
	}
	return mk("ite", "", 0, a.sort, c, a, b)
}

func arrSorts(s string) (string, string) {
	// "(Array K V)"
	in := s[len("(Array ") : len(s)-1]
	d := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return in[:i], in[i+1:]
			}
		}
	}
	panic("not an array sort: " + s)
}

func Select(a, i *Term) *Term {
	for {
		switch a.op {
		case "store":
			if a.args[1] == i {
				return a.args[2]
			}
			if distinct(a.args[1], i) {
				a = a.args[0]
				continue
			}
		case "constarr":
			return a.args[0]
		case "ite":
			if i.sort == "Any" {
				break // kept for the patterns of quantifiers over table entries
			}
			x, y := Select(a.args[1], i), Select(a.args[2], i)
			return Ite(a.args[0], x, y)
		}
		break
	}
	_, v := arrSorts(a.sort)
	return mk("select", "", 0, v, a, i)
}

func Store(a, i, v *Term) *Term {
	_, vs := arrSorts(a.sort)
	if vs != v.sort {
		panic(fmt.Sprintf("Store: sort %s into %s", v.sort, a.sort))
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if a.op == "select" || a.op == "const" {
		if v.op == "select" && v.args[0] == a && v.args[1] == i {
			return a
		}
	}
	return mk("store", "", 0, a.sort, a, i, v)
}

func ConstArr(sort string, v *Term) *Term { return mk("constarr", "", 0, sort, v) }

// patTerms takes a pattern apart where the solvers do not allow its head
func patTerms(t *Term) []*Term {
	var r []*Term
	switch t.op {
	case "and", "or", "not", "=", "=>", "<", "<=", "is", "+", "*":
		for _, a := range t.args {
			r = append(r, patTerms(a)...)
		}
	case "ite":
		for _, a := range t.args[1:] {
			r = append(r, patTerms(a)...)
		}
	default:
		if len(t.fb) > 0 && t.op != "bvar" {
			r = append(r, t)
		}
	}
	return r
}

func quant(op string, bvs []*Term, body *Term, pats ...[]*Term) *Term {
	if isLit(body) {
		return body
	}
	used := map[int]bool{}
	for _, x := range body.fb {
		used[x] = true
	}
	var keep []*Term
	for _, b := range bvs {
		if used[b.id] {
			keep = append(keep, b)
		}
	}
	if len(keep) == 0 {
		return body
	}
	var ps [][]*Term
	for _, p := range pats {
		var q []*Term
		have := map[int]bool{}
		dup := map[int]bool{}
		for _, t := range p {
			for _, u := range patTerms(t) {
				if dup[u.id] {
					continue
				}
				dup[u.id] = true
				q = append(q, u)
				for _, v := range u.fb {
					have[v] = true
				}
			}
		}
		all := true
		for _, b := range keep {
			all = all && have[b.id]
		}
		if all {
			ps = append(ps, q)
		}
	}
	pats = ps
	args := append([]*Term{body}, keep...)
	nm := ""
	for _, p := range pats {
		nm += "["
		for _, t := range p {
			nm += strconv.Itoa(t.id) + " "
		}
		nm += "]"
	}
	t := mk(op, nm, int64(len(keep)), "Bool", args...)
	t.bv = keep
	t.pats = pats
	var fb []int
	km := map[int]bool{}
	for _, b := range keep {
		km[b.id] = true
	}
	for _, x := range body.fb {
		if !km[x] {
			fb = append(fb, x)
		}
	}
	t.fb = fb
	return t
}

func Forall(bvs []*Term, body *Term, pats ...[]*Term) *Term {
	return quant("forall", bvs, body, pats...)
}
func Exists(bvs []*Term, body *Term, pats ...[]*Term) *Term {
	return quant("exists", bvs, body, pats...)
}

// subst replaces constants / bound variables
func subst(t *Term, m map[int]*Term) *Term {
	memo := map[int]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t.id]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		var r *Term
		if t.op == "forall" || t.op == "exists" {
			var ps [][]*Term
			for _, p := range t.pats {
				var q []*Term
				for _, x := range p {
					q = append(q, rec(x))
				}
				ps = append(ps, q)
			}
			r = quant(t.op, t.bv, rec(t.args[0]), ps...)
		} else {
			as := make([]*Term, len(t.args))
			ch := false
			for i, a := range t.args {
				as[i] = rec(a)
				if as[i] != a {
					ch = true
				}
			}
			if ch {
				r = rebuild(t, as)
			} else {
				r = t
			}
		}
		memo[t.id] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case "app":
		return App(t.name, t.sort, as...)
	case "ctor":
		return Ctor(t.name, t.sort, as...)
	case "sel":
		return Sel(t.name, t.sort, int(t.i), as[0])
	case "is":
		return Is(t.name, as[0])
	case "not":
		return Not(as[0])
	case "and":
		return And(as...)
	case "or":
		return Or(as...)
	case "=>":
		return Implies(as[0], as[1])
	case "=":
		return Eq(as[0], as[1])
	case "ite":
		return Ite(as[0], as[1], as[2])
	case "+":
		return Add(as...)
	case "*":
		return Mul(as[0], as[1])
	case "<":
		return Lt(as[0], as[1])
	case "<=":
		return Le(as[0], as[1])
	case "select":
		return Select(as[0], as[1])
	case "store":
		return Store(as[0], as[1], as[2])
	case "constarr":
		return ConstArr(t.sort, as[0])
	}
	panic("rebuild " + t.op)
}

// ---- datatypes

type Field struct{ Name, Sort string }
type CtorDef struct {
	Name   string
	Fields []Field
}
type DT struct {
	Name  string
	Ctors []CtorDef
}

var datatypes = map[string]*DT{}
var anyCtors = map[string]CtorDef{} // constructors of Any, by name

func Ctor(name, sort string, args ...*Term) *Term {
	// (mk (sel1 x) (sel2 x) ...) == x
	if len(args) > 0 && args[0].op == "sel" {
		x := args[0].args[0]
		ok := x.sort == sort
		for i, a := range args {
			if a.op != "sel" || a.args[0] != x || a.name != name || int(a.i) != i {
				ok = false
				break
			}
		}
		if ok && sort != "Any" && !strings.HasPrefix(sort, "Opt_") {
			return x
		}
	}
	return mk("ctor", name, 0, sort, args...)
}

// Sel selects field i of constructor name
func Sel(name, sort string, i int, t *Term) *Term {
	if t.op == "ctor" {
		if t.name == name {
			return t.args[i]
		}
	}
	if t.op == "ite" {
		a, b := t.args[1], t.args[2]
		if (a.op == "ctor" || a.op == "ite") && (b.op == "ctor" || b.op == "ite") {
			return Ite(t.args[0], Sel(name, sort, i, a), Sel(name, sort, i, b))
		}
	}
	return mk("sel", name, int64(i), sort, t)
}

func Is(name string, t *Term) *Term {
	if t.op == "ctor" {
		return Bool(t.name == name)
	}
	if t.op == "ite" {
		a, b := Is(name, t.args[1]), Is(name, t.args[2])
		if isLit(a) || isLit(b) {
			return Ite(t.args[0], a, b)
		}
	}
	return mk("is", name, 0, "Bool", t)
}

func (t *Term) String() string {
	p := &printer{}
	return p.expr(t)
}
