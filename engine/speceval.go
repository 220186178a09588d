package main

import (
	"fmt"
	"go/token"
	"go/types"
	"golang.org/x/tools/go/ssa"
	"strings"
)

type SV struct {
	t  *Term
	ty types.Type
}

type Env struct {
	vars map[string]SV
	st   *State
	old  *State
	x    *Exec
	lazy func(name string) (SV, bool)
	ghst map[string]SV
	// local variables in the old state
	oldLazy func(name string) (SV, bool)
	start   *Env // where the loop starts
}

func (e *Env) with(name string, v SV) *Env {
	n := *e
	n.vars = map[string]SV{}
	for k, x := range e.vars {
		n.vars[k] = x
	}
	n.vars[name] = v
	return &n
}

type specErr struct{ msg string }

func (s specErr) Error() string { return s.msg }

func (e *Env) fail(x *Expr, f string, a ...interface{}) {
	panic(specErr{fmt.Sprintf("%s: %s", x.line, fmt.Sprintf(f, a...))})
}

// resolve a type expression to a Go type (nil if it is a plain sort) and a sort
func (en *Engine) resolveType(t *TypeExpr) (types.Type, string) {
	switch t.kind {
	case "ptr":
		g, _ := en.resolveType(t.a)
		if g == nil {
			return nil, "Int"
		}
		return types.NewPointer(g), "Int"
	case "slice":
		g, _ := en.resolveType(t.a)
		if g == nil {
			panic(specErr{"slice of a sort"})
		}
		return types.NewSlice(g), "Slice"
	case "map":
		k, _ := en.resolveType(t.a)
		v, _ := en.resolveType(t.b)
		return types.NewMap(k, v), "Int"
	case "struct":
		var fs []*types.Var
		for i, f := range t.fields {
			g, _ := en.resolveType(t.types[i])
			fs = append(fs, types.NewField(token.NoPos, nil, f, g, false))
		}
		g := types.NewStruct(fs, nil)
		return g, sortOf(g)
	case "array":
		_, k := en.resolveType(t.a)
		_, v := en.resolveType(t.b)
		return nil, "(Array " + qs(k) + " " + qs(v) + ")"
	case "opt":
		_, v := en.resolveType(t.a)
		return nil, optSort(v)
	case "sort":
		return nil, t.name
	}
	switch t.name {
	case "any":
		g := types.NewInterfaceType(nil, nil)
		return g, "Any"
	case "ref":
		return nil, "Int"
	case "World":
		return nil, "World"
	}
	if b := types.Universe.Lookup(t.name); b != nil {
		if tn, ok := b.(*types.TypeName); ok {
			return tn.Type(), sortOf(tn.Type())
		}
	}
	if i := strings.LastIndex(t.name, "."); i > 0 {
		o := en.lookup(t.name[:i], t.name[i+1:])
		if tn, ok := o.(*types.TypeName); ok {
			ty := types.Unalias(tn.Type())
			return ty, sortOf(ty)
		}
	}
	panic(specErr{"unknown type " + t.name})
}

// lookup finds an object of a package given by name, import alias or path
func (en *Engine) lookup(pkg, name string) types.Object {
	imp := false
	if p, ok := en.specs.imports[pkg]; ok {
		pkg, imp = p, true
	}
	if !imp {
		for _, p := range en.pkgList {
			if isRepoPkg(p) && p.Name() == pkg {
				return p.Scope().Lookup(name)
			}
		}
	}
	for _, p := range en.pkgList {
		if p.Path() == pkg {
			return p.Scope().Lookup(name)
		}
	}
	for _, p := range en.pkgList {
		if p.Name() == pkg {
			if o := p.Scope().Lookup(name); o != nil {
				return o
			}
		}
	}
	return nil
}

func (e *Env) bool(x *Expr) *Term {
	v := e.eval(x)
	if v.t.sort != "Bool" {
		e.fail(x, "a condition is expected, found %s", v.t.sort)
	}
	return v.t
}

var tBool = types.Typ[types.Bool]
var tInt = types.Typ[types.Int]
var tString = types.Typ[types.String]

func (e *Env) worldComp(name string) string {
	c := "W:" + name
	compSort[c] = "World"
	return c
}

func (e *Env) eval(x *Expr) SV {
	en := e.x.eng
	switch x.op {
	case "paren":
		return e.eval(x.args[0])
	case "int":
		return SV{Int(x.i), tInt}
	case "str":
		return SV{Str(x.name), tString}
	case "ident":
		switch x.name {
		case "true":
			return SV{True, tBool}
		case "false":
			return SV{False, tBool}
		case "nil":
			return SV{Int(0), types.Typ[types.UntypedNil]}
		case "absent":
			return SV{absent, nil}
		}
		if v, ok := e.vars[x.name]; ok {
			return v
		}
		if v, ok := e.ghst[x.name]; ok {
			return v
		}
		if e.lazy != nil {
			if v, ok := e.lazy(x.name); ok {
				return v
			}
		}
		e.fail(x, "unknown name %s", x.name)
	case "let":
		return e.with(x.name, e.eval(x.args[0])).eval(x.args[1])
	case "if":
		c := e.bool(x.args[0])
		a, b := e.coerce(e.eval(x.args[1]), e.eval(x.args[2]), x)
		ty := a.ty
		if ty == nil || ty == types.Typ[types.UntypedNil] {
			ty = b.ty
		}
		return SV{Ite(c, a.t, b.t), ty}
	case "un":
		if x.name == "!" {
			return SV{Not(e.bool(x.args[0])), tBool}
		}
		return SV{Neg(e.eval(x.args[0]).t), tInt}
	case "deref":
		v := e.eval(x.args[0])
		if v.ty == nil {
			e.fail(x, "* of an untyped value")
		}
		et := derefT(v.ty)
		return SV{e.st.loadPure(v.t, et), et}
	case "forall", "exists":
		n := e
		var bvs []*Term
		for _, b := range x.bind {
			ty, so := en.resolveType(b.ty)
			bv := BVar(b.name, so)
			bvs = append(bvs, bv)
			n = n.with(b.name, SV{bv, ty})
		}
		body := n.bool(x.args[0])
		var pats [][]*Term
		for _, ps := range x.pats {
			var q []*Term
			for _, p := range ps {
				q = append(q, n.eval(p).t)
			}
			pats = append(pats, q)
		}
		if x.op == "exists" {
			return SV{Exists(bvs, body, pats...), tBool}
		}
		return SV{Forall(bvs, body, pats...), tBool}
	case "bin":
		return e.bin(x)
	case "is":
		v := e.eval(x.args[0])
		ty, _ := en.resolveType(x.ty)
		if _, ok := ty.Underlying().(*types.Interface); ok {
			return SV{implTerm(ty, v.t), tBool}
		}
		return SV{e.st.known(IsBox(ty, v.t)), tBool}
	case "as":
		v := e.eval(x.args[0])
		ty, so := en.resolveType(x.ty)
		if v.t.sort == "Any" && so != "Any" {
			return SV{Unbox(ty, v.t), ty}
		}
		if v.t.sort != so {
			e.fail(x, "conversion of %s to %s", v.t.sort, so)
		}
		return SV{v.t, ty}
	case "typed":
		v := e.eval(x.args[0])
		ty, so := en.resolveType(x.ty)
		if so != v.t.sort {
			e.fail(x, "typed: sort %s", v.t.sort)
		}
		return SV{v.t, ty}
	case "zero":
		ty, so := en.resolveType(x.ty)
		return SV{zeroSort(so, ty), ty}
	case "emptyset":
		_, so := en.resolveType(x.ty)
		return SV{ConstArr("(Array "+qs(so)+" Bool)", False), nil}
	case "none":
		_, so := en.resolveType(x.ty)
		return SV{None(so), nil}
	case "emptymap":
		return SV{ConstArr("(Array Any Any)", absent), nil}
	case "mk":
		ty, so := en.resolveType(x.ty)
		z := zeroOf(ty)
		s := ty.Underlying().(*types.Struct)
		d := datatypes[so].Ctors[0]
		as := make([]*Term, len(d.Fields))
		for i, f := range d.Fields {
			as[i] = Sel(d.Name, f.Sort, i, z)
		}
		for k, b := range x.bind {
			found := false
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == b.name {
					as[i] = e.conv(e.eval(x.args[k]), s.Field(i).Type(), x)
					found = true
				}
			}
			if !found {
				e.fail(x, "no field %s", b.name)
			}
		}
		return SV{Ctor(d.Name, so, as...), ty}
	case "sel":
		// package level object?
		if x.args[0].op == "ident" {
			if _, ok := e.vars[x.args[0].name]; !ok {
				if v, ok := e.pkgObj(x.args[0].name, x.name); ok {
					return v
				}
			}
		}
		return e.field(e.eval(x.args[0]), x.name, x)
	case "index":
		return e.index(x)
	case "call":
		return e.call(x)
	}
	e.fail(x, "can not evaluate %s", x.op)
	return SV{}
}

func (e *Env) pkgObj(pkg, name string) (SV, bool) {
	o := e.x.eng.lookup(pkg, name)
	if o == nil {
		// members without a type checker object (init$guard)
		for _, p := range e.x.eng.prog.AllPackages() {
			if p.Pkg.Name() != pkg || !isRepoPkg(p.Pkg) {
				continue
			}
			if g, ok := p.Members[name].(*ssa.Global); ok {
				et := g.Type().(*types.Pointer).Elem()
				c := "G:" + p.Pkg.Path() + "." + name
				if _, ok := compSort[c]; !ok {
					compSort[c] = sortOf(et)
				}
				return SV{e.st.get(c), et}, true
			}
		}
	}
	switch o := o.(type) {
	case *types.Var:
		c := "G:" + o.Pkg().Path() + "." + o.Name()
		so := sortOf(o.Type())
		if _, ok := compSort[c]; !ok {
			compSort[c] = so
		}
		e.x.eng.initGlobalByName(c, o)
		return SV{e.st.get(c), o.Type()}, true
	case *types.Const:
		return SV{constTerm(o), o.Type()}, true
	case *types.Func:
		f := e.x.eng.prog.FuncValue(o)
		if f != nil {
			return SV{e.x.term(e.st, &Clo{fn: f}), o.Type()}, true
		}
	}
	return SV{}, false
}

// loadPure loads without adding facts about what it finds
func (s *State) loadPure(ref *Term, ty types.Type) *Term {
	if ip, ok := iptrs[ref.id]; ok {
		c := s.clone()
		return c.load(ip, ty)
	}
	return s.loadObj(ref, ty)
}

func (e *Env) field(v SV, name string, x *Expr) SV {
	if v.ty == nil {
		e.fail(x, "field %s of an untyped value", name)
	}
	ty := types.Unalias(v.ty)
	isPtr := false
	if p, ok := ty.Underlying().(*types.Pointer); ok {
		ty = types.Unalias(p.Elem())
		isPtr = true
	}
	if c, gt := e.x.eng.ghostField(ty, name); c != "" && isPtr {
		return SV{Select(e.st.get(c), v.t), gt}
	}
	if d, ok := datatypes[sortOf(ty)]; ok && opaqueStruct(ty) {
		val := v.t
		if isPtr {
			val = Select(e.st.get(compCell(ty)), v.t)
		}
		for i, f := range d.Ctors[0].Fields {
			if f.Name == name {
				return SV{Sel(d.Ctors[0].Name, f.Sort, i, val), sortType(f.Sort)}
			}
		}
	}
	s, ok := ty.Underlying().(*types.Struct)
	if !ok {
		e.fail(x, "field %s of %s", name, v.ty)
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			ft := s.Field(i).Type()
			if isPtr {
				if ip, ok := iptrs[v.t.id]; ok {
					val := e.st.clone().load(ip, ty)
					return SV{fieldOf(val, i), ft}
				}
				c, _ := compFieldSort(ty, i)
				return SV{Select(e.st.get(c), v.t), ft}
			}
			return SV{fieldOf(v.t, i), ft}
		}
	}
	// promoted through an embedded field
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() {
			et := derefT(s.Field(i).Type())
			if es, ok := et.Underlying().(*types.Struct); ok && !opaqueStruct(et) {
				for j := 0; j < es.NumFields(); j++ {
					if es.Field(j).Name() == name {
						return e.field(e.field(v, s.Field(i).Name(), x), name, x)
					}
				}
			}
		}
	}
	e.fail(x, "%s has no field %s", ty, name)
	return SV{}
}

func (e *Env) index(x *Expr) SV {
	a := e.eval(x.args[0])
	if a.t.sort == "Slice" {
		i := e.eval(x.args[1])
		et := types.Unalias(a.ty).Underlying().(*types.Slice).Elem()
		c := compElems(et)
		if c == "AB" {
			return SV{App("str.to_code", "Int", App("str.at", "String", e.bytes(a.t), i.t)), et}
		}
		return SV{Select(Select(e.st.get(c), sRef(a.t)), At(sOff(a.t), i.t)), et}
	}
	if strings.HasPrefix(a.t.sort, "(Array ") {
		ks, _ := arrSorts(a.t.sort)
		i := e.eval(x.args[1])
		k := i.t
		if ks == "Any" && k.sort != "Any" {
			k = e.box(i, x)
		}
		var ty types.Type
		r := Select(a.t, k)
		if r.sort == "Any" {
			ty = types.NewInterfaceType(nil, nil)
		} else if r.sort == "Bool" {
			ty = tBool
		} else if r.sort == "Int" {
			ty = tInt
		} else if r.sort == "String" {
			ty = tString
		}
		return SV{r, ty}
	}
	if m, ok := types.Unalias(a.ty).Underlying().(*types.Map); ok {
		i := e.conv(e.eval(x.args[1]), m.Key(), x)
		o := Select(Select(e.st.get(compMap(a.ty)), a.t), i)
		return SV{Ite(And(Ne(a.t, Int(0)), IsSome(o)), OptVal(o), zeroOf(m.Elem())), m.Elem()}
	}
	e.fail(x, "index of %s", a.ty)
	return SV{}
}

func (e *Env) bytes(sl *Term) *Term { return e.st.bytesOf(sl) }

func (e *Env) box(v SV, x *Expr) *Term {
	if v.t.sort == "Any" {
		return v.t
	}
	if v.ty == types.Typ[types.UntypedNil] {
		return nilAny
	}
	if v.ty == nil {
		e.fail(x, "box of an untyped value")
	}
	return Box(types.Default(v.ty), v.t)
}

// conv converts for assignment to a Go type
func (e *Env) conv(v SV, ty types.Type, x *Expr) *Term {
	so := sortOf(ty)
	if v.ty == types.Typ[types.UntypedNil] {
		return zeroOf(ty)
	}
	if v.t.sort == so {
		return v.t
	}
	if so == "Any" {
		return e.box(v, x)
	}
	e.fail(x, "sort %s where %s is wanted", v.t.sort, so)
	return nil
}

func (e *Env) convSort(v SV, so string, ty types.Type, x *Expr) *Term {
	if v.ty == types.Typ[types.UntypedNil] {
		return zeroSort(so, ty)
	}
	if v.t.sort == so {
		return v.t
	}
	if so == "Any" {
		return e.box(v, x)
	}
	e.fail(x, "sort %s where %s is wanted", v.t.sort, so)
	return nil
}

// coerce makes both sides have the same sort
func (e *Env) coerce(a, b SV, x *Expr) (SV, SV) {
	un := types.Typ[types.UntypedNil]
	if a.ty == un && b.ty != un {
		return SV{zeroSort(b.t.sort, b.ty), b.ty}, b
	}
	if b.ty == un && a.ty != un {
		return a, SV{zeroSort(a.t.sort, a.ty), a.ty}
	}
	if a.t.sort != b.t.sort {
		if a.t.sort == "Any" {
			return a, SV{e.box(b, x), a.ty}
		}
		if b.t.sort == "Any" {
			return SV{e.box(a, x), b.ty}, b
		}
		e.fail(x, "different sorts %s and %s", a.t.sort, b.t.sort)
	}
	return a, b
}

func (e *Env) bin(x *Expr) SV {
	switch x.name {
	case "&&":
		return SV{And(e.bool(x.args[0]), e.bool(x.args[1])), tBool}
	case "||":
		return SV{Or(e.bool(x.args[0]), e.bool(x.args[1])), tBool}
	case "==>":
		a := e.bool(x.args[0])
		if a == False {
			return SV{True, tBool}
		}
		return SV{Implies(a, e.bool(x.args[1])), tBool}
	case "<==>":
		return SV{Eq(e.bool(x.args[0]), e.bool(x.args[1])), tBool}
	}
	a, b := e.coerce(e.eval(x.args[0]), e.eval(x.args[1]), x)
	switch x.name {
	case "==", "!=":
		l, r := a.t, b.t
		if l.sort == "Slice" && (x.args[0].op == "ident" && x.args[0].name == "nil" || x.args[1].op == "ident" && x.args[1].name == "nil") {
			l, r = sRef(l), sRef(r)
		}
		t := Eq(l, r)
		if x.name == "!=" {
			t = Not(t)
		}
		return SV{t, tBool}
	case "<":
		if a.t.sort == "String" {
			return SV{Not(App("str.<=", "Bool", b.t, a.t)), tBool}
		}
		return SV{Lt(a.t, b.t), tBool}
	case "<=":
		if a.t.sort == "String" {
			return SV{App("str.<=", "Bool", a.t, b.t), tBool}
		}
		return SV{Le(a.t, b.t), tBool}
	case ">":
		return SV{Lt(b.t, a.t), tBool}
	case ">=":
		return SV{Le(b.t, a.t), tBool}
	case "+":
		if a.t.sort == "String" {
			return SV{Concat(a.t, b.t), tString}
		}
		return SV{Add(a.t, b.t), tInt}
	case "-":
		return SV{Sub(a.t, b.t), tInt}
	case "|":
		return SV{BitOr(a.t, b.t), a.ty}
	case "&":
		return SV{BitAnd(a.t, b.t), a.ty}
	case "*":
		return SV{Mul(a.t, b.t), tInt}
	}
	e.fail(x, "operator %s", x.name)
	return SV{}
}

func (e *Env) args(x *Expr) []SV {
	var r []SV
	for _, a := range x.args[1:] {
		r = append(r, e.eval(a))
	}
	return r
}

func (e *Env) call(x *Expr) SV {
	f := x.args[0]
	name := f.name
	if f.op == "sel" {
		if f.args[0].op != "ident" {
			e.fail(x, "call of a method")
		}
		name = f.args[0].name + "." + f.name
	}
	en := e.x.eng
	switch name {
	case "old":
		n := *e
		n.st = e.old
		if e.oldLazy != nil {
			n.lazy = e.oldLazy
		}
		if n.st == nil {
			e.fail(x, "no old state here")
		}
		return n.eval(x.args[1])
	case "start":
		if e.start == nil {
			e.fail(x, "no loop here")
		}
		n := *e
		n.st = e.start.st
		n.lazy = e.start.lazy
		return n.eval(x.args[1])
	case "world":
		return SV{e.st.get(e.worldComp(x.args[1].name)), nil}
	case "fresh":
		v := e.eval(x.args[1])
		t := v.t
		if t.sort == "Slice" {
			t = sRef(t)
		}
		return SV{And(Lt(e.old.alloc, t), Le(t, e.st.alloc)), tBool}
	case "allocated":
		v := e.eval(x.args[1])
		t := v.t
		if t.sort == "Slice" {
			t = sRef(t)
		}
		return SV{And(Le(Int(0), t), Le(t, e.st.alloc)), tBool}
	case "box":
		return SV{e.box(e.eval(x.args[1]), x), types.NewInterfaceType(nil, nil)}
	case "len":
		v := e.eval(x.args[1])
		switch v.t.sort {
		case "Slice":
			return SV{sLen(v.t), tInt}
		case "String":
			return SV{StrLen(v.t), tInt}
		}
		e.fail(x, "len of %s", v.t.sort)
	case "bytes":
		return SV{e.bytes(e.eval(x.args[1]).t), tString}
	case "elems": // inner array and length of a slice starting at offset 0
		v := e.eval(x.args[1])
		et := types.Unalias(v.ty).Underlying().(*types.Slice).Elem()
		return SV{Select(e.st.get(compElems(et)), sRef(v.t)), nil}
	case "ref":
		v := e.eval(x.args[1])
		if v.t.sort == "Slice" {
			return SV{sRef(v.t), nil}
		}
		return SV{v.t, nil}
	case "off":
		return SV{sOff(e.eval(x.args[1]).t), tInt}
	case "has":
		m := e.eval(x.args[1])
		mt := types.Unalias(m.ty).Underlying().(*types.Map)
		k := e.conv(e.eval(x.args[2]), mt.Key(), x)
		return SV{And(Ne(m.t, Int(0)), IsSome(Select(Select(e.st.get(compMap(m.ty)), m.t), k))), tBool}
	case "mapof":
		m := e.eval(x.args[1])
		return SV{Select(e.st.get(compMap(m.ty)), m.t), nil}
	case "some":
		return SV{Some(e.eval(x.args[1]).t), nil}
	case "issome":
		return SV{IsSome(e.eval(x.args[1]).t), tBool}
	case "unopt":
		v := OptVal(e.eval(x.args[1]).t)
		return SV{v, sortType(v.sort)}
	case "upd":
		a := e.eval(x.args[1])
		ks, vs := arrSorts(a.t.sort)
		return SV{Store(a.t, e.convSort(e.eval(x.args[2]), ks, nil, x), e.convSort(e.eval(x.args[3]), vs, nil, x)), nil}
	case "prefix":
		return SV{App("str.prefixof", "Bool", e.eval(x.args[1]).t, e.eval(x.args[2]).t), tBool}
	case "suffix":
		return SV{App("str.suffixof", "Bool", e.eval(x.args[1]).t, e.eval(x.args[2]).t), tBool}
	case "contains":
		return SV{App("str.contains", "Bool", e.eval(x.args[1]).t, e.eval(x.args[2]).t), tBool}
	case "substr":
		return SV{Substr(e.eval(x.args[1]).t, e.eval(x.args[2]).t, e.eval(x.args[3]).t), tString}
	case "replaceall":
		return SV{replaceAll(e.eval(x.args[1]).t, e.eval(x.args[2]).t, e.eval(x.args[3]).t), tString}
	case "trimprefix":
		return SV{trimPrefix(e.eval(x.args[1]).t, e.eval(x.args[2]).t), tString}
	case "join":
		return SV{pathJoin(e.eval(x.args[1]).t, e.eval(x.args[2]).t), tString}
	case "implements":
		v := e.eval(x.args[1])
		ty, _ := en.resolveType(&TypeExpr{kind: "named", name: exprName(x.args[2])})
		return SV{implTerm(ty, v.t), tBool}
	case "unboxed": // a boxed value with the pointed-to metadata instead of its address
		v := e.eval(x.args[1])
		return SV{e.x.snapshot(e.st, v.t), v.ty}
	case "dyncall": // pure call through a function value
		e.fail(x, "dyncall")
	}
	if d, ok := en.specs.defs[name]; ok {
		as := e.args(x)
		if len(as) != len(d.params) {
			e.fail(x, "%s needs %d arguments", name, len(d.params))
		}
		n := *e
		n.vars = map[string]SV{}
		for i, p := range d.params {
			ty, so := en.resolveType(p.ty)
			v := as[i]
			v.t = e.convSort(v, so, ty, x)
			v.ty = ty
			n.vars[p.name] = v
		}
		return n.eval(d.body)
	}
	if fd, ok := en.specs.funs[name]; ok {
		as := e.args(x)
		if len(as) != len(fd.args) {
			e.fail(x, "%s needs %d arguments", name, len(fd.args))
		}
		var ts []*Term
		for i, a := range fd.args {
			ty, so := en.resolveType(a)
			ts = append(ts, e.convSort(as[i], so, ty, x))
		}
		rt, so := en.resolveType(fd.res)
		if t := nativeApp(fd.smt, ts); t != nil {
			return SV{t, rt}
		}
		if len(ts) == 0 {
			return SV{sym0("fun:"+fd.smt, so), rt}
		}
		return SV{App(fd.smt, so, ts...), rt}
	}
	e.fail(x, "unknown function %s", name)
	return SV{}
}

func sortType(so string) types.Type {
	switch so {
	case "Any":
		return types.NewInterfaceType(nil, nil)
	case "Int":
		return tInt
	case "String":
		return tString
	case "Bool":
		return tBool
	}
	return typeOfSort[so]
}

var typeOfSort = map[string]types.Type{}

func exprName(x *Expr) string {
	if x.op == "sel" {
		return exprName(x.args[0]) + "." + x.name
	}
	return x.name
}

// ghostField is the component of specification-only state of a library type
func (en *Engine) ghostField(ty types.Type, name string) (string, types.Type) {
	te, ok := en.specs.ghostFields[typeKey(ty)+"."+name]
	if !ok {
		return "", nil
	}
	gt, so := en.resolveType(te)
	c := "F:ghost:" + tstr(ty) + "." + name
	if _, ok := compSort[c]; !ok {
		compSort[c] = "(Array Int " + qs(so) + ")"
	}
	return c, gt
}
