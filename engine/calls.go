package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func constTerm(o *types.Const) *Term {
	v := o.Val()
	switch v.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(v))
	case constant.String:
		return Str(constant.StringVal(v))
	case constant.Int:
		if i, ok := constant.Int64Val(v); ok {
			return Int(i)
		}
	}
	return Sym("const_"+sane(v.ExactString()), sortOf(o.Type()))
}

type prepared struct {
	builtin *ssa.Builtin
	fn      *ssa.Function
	binds   []Val
	dyn     *Term // function value
	recv    *Term // interface receiver
	method  *types.Func
	itype   types.Type
	args    []Val
	sig     *types.Signature
	pos     token.Pos
	argTys  []types.Type
	call    *ssa.CallCommon
}

func (x *Exec) prepare(fr *Frame, st *State, c *ssa.CallCommon) *prepared {
	p := &prepared{sig: c.Signature(), pos: c.Pos(), call: c}
	for _, a := range c.Args {
		p.args = append(p.args, x.val(fr, a))
		p.argTys = append(p.argTys, a.Type())
	}
	if c.IsInvoke() {
		p.recv = x.tv(fr, st, c.Value)
		p.method = c.Method
		p.itype = c.Value.Type()
		return p
	}
	switch v := c.Value.(type) {
	case *ssa.Builtin:
		p.builtin = v
		return p
	case *ssa.Function:
		p.fn = v
		return p
	}
	switch v := x.val(fr, c.Value).(type) {
	case *Clo:
		p.fn, p.binds = v.fn, v.binds
	case *Term:
		if cl, ok := clos[v.id]; ok {
			p.fn, p.binds = cl.fn, cl.binds
		} else {
			p.dyn = v
		}
	default:
		panic(unsupported("call of %T", v))
	}
	p.itype = c.Value.Type()
	return p
}

func (x *Exec) doCall(fr *Frame, st *State, c *ssa.CallCommon, in ssa.Value) []Outcome {
	p := x.prepare(fr, st, c)
	if in != nil && in.Pos().IsValid() {
		p.pos = in.Pos()
	}
	return x.callPrepared(fr, st, p, p.pos, false)
}

func (x *Exec) callPrepared(fr *Frame, st *State, p *prepared, pos token.Pos, deferred bool) []Outcome {
	if p.builtin != nil {
		return x.builtinCall(fr, st, p, pos)
	}
	if p.fn != nil {
		return x.dispatch(fr, st, p.fn, p.args, p.binds, pos, deferred)
	}
	if p.dyn != nil {
		if n := p.dyn.name; p.dyn.op == "const" && strings.HasPrefix(n, "H_G:") {
			if c := x.eng.contractByName(x.eng.short(n[4:])); c != nil {
				return x.callContract(st, c, nil, p.sig, p.args, p.argTys, pos)
			}
		}
		x.safety(st, "call of a nil function", Ne(p.dyn, Int(0)), pos)
		return x.opaqueCall(st, "fn:"+tstr(p.itype), p.itype, append([]*Term{p.dyn}, x.lower(st, p.args)...), p.sig)
	}
	return x.invoke(fr, st, p, pos, deferred)
}

func (x *Exec) lower(st *State, vs []Val) []*Term {
	var r []*Term
	for _, v := range vs {
		r = append(r, x.term(st, v))
	}
	return r
}

// invoke calls an interface method
func (x *Exec) invoke(fr *Frame, st *State, p *prepared, pos token.Pos, deferred bool) []Outcome {
	x.safety(st, "nil pointer dereference (interface method call)", Ne(p.recv, nilAny), pos)
	if st.dead {
		return nil
	}
	// the dynamic type is known
	if p.recv.op == "ctor" {
		if t, ok := boxTypes[p.recv.name]; ok {
			return x.invokeOn(fr, st, p, t, pos, deferred)
		}
	}
	var cands []types.Type
	key := typeKey(p.itype)
	for _, te := range x.eng.specs.dispatch[key] {
		t, _ := x.eng.resolveType(te)
		cands = append(cands, t)
	}
	var out []Outcome
	rest := st
	// a type that is already known first
	for n := st.pc; n != nil; n = n.up {
		if n.t.op == "is" && n.t.args[0] == p.recv {
			if t, ok := boxTypes[n.t.name]; ok {
				return x.invokeOn(fr, st, p, t, pos, deferred)
			}
		}
		if n.t.op == "=" {
			a, b := n.t.args[0], n.t.args[1]
			if b == p.recv {
				a, b = b, a
			}
			if a == p.recv && b.op == "ctor" {
				if t, ok := boxTypes[b.name]; ok {
					return x.invokeOn(fr, st, p, t, pos, deferred)
				}
			}
		}
	}
	// a type that follows from what is known
	for _, te := range x.eng.specs.dispatch["implied "+key] {
		t, _ := x.eng.resolveType(te)
		s := st.clone()
		s.assume(Not(IsBox(t, p.recv)))
		if s.dead || !x.feas(s) {
			st.assume(IsBox(t, p.recv))
			return x.invokeOn(fr, st, p, t, pos, deferred)
		}
	}
	for _, t := range cands {
		if rest == nil {
			break
		}
		a, b := x.branch(rest, IsBox(t, p.recv))
		if a != nil {
			fr2 := fr
			if b != nil {
				fr2 = fr.clone()
			}
			out = append(out, x.invokeOn(fr2, a, p, t, pos, deferred)...)
		}
		rest = b
	}
	if rest != nil {
		nm := key + "." + p.method.Name()
		if c := x.eng.contractByName("(" + key + ")." + p.method.Name()); c != nil {
			args := append([]Val{p.recv}, p.args...)
			tys := append([]types.Type{p.itype}, p.argTys...)
			out = append(out, x.callContract(rest, c, nil, p.sig, args, tys, pos)...)
		} else {
			out = append(out, x.opaqueCall(rest, nm, p.itype, append([]*Term{p.recv}, x.lower(rest, p.args)...), p.sig)...)
		}
	}
	return out
}

// typeKey is the short name of a named type
func typeKey(t types.Type) string {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return n.Obj().Name()
		}
		return n.Obj().Pkg().Name() + "." + n.Obj().Name()
	}
	return tstr(t)
}

func (x *Exec) invokeOn(fr *Frame, st *State, p *prepared, t types.Type, pos token.Pos, deferred bool) []Outcome {
	fn := x.eng.prog.LookupMethod(t, p.method.Pkg(), p.method.Name())
	if fn == nil {
		panic(unsupported("no method %s on %s", p.method.Name(), t))
	}
	v := Unbox(t, p.recv)
	if p.recv.op != "ctor" {
		st.assume(IsBox(t, p.recv))
		st.wf(v, t)
	}
	args := append([]Val{x.unlower(v)}, p.args...)
	return x.dispatch(fr, st, fn, args, nil, pos, deferred)
}

// dispatch calls a known function
func (x *Exec) dispatch(fr *Frame, st *State, fn *ssa.Function, args []Val, binds []Val, pos token.Pos, deferred bool) []Outcome {
	if st.dead {
		return nil
	}
	name := fn.String()
	if fn.Name() == "init" && fn.Synthetic != "" && fn != x.rootFn {
		return ret(st) // other packages are initialised already
	}
	if in, ok := intrinsics[name]; ok {
		return in(x, &callCtx{fr: fr, st: st, fn: fn, args: args, pos: pos})
	}
	c := x.eng.contractFor(fn)
	if c == nil && !isRepoPkg(fnPkg(fn)) {
		// a contract for the dynamic types of interface arguments
		if o, ok := x.typedContract(st, fn, args, pos); ok {
			return o
		}
	}
	if c != nil && !c.inline {
		known := false
		if !c.extern {
			for _, a := range args {
				if cl, ok := a.(*Clo); ok && cl.fn.Parent() != nil {
					known = true
				}
			}
		}
		if !known {
			var tys []types.Type
			if r := fn.Signature.Recv(); r != nil {
				tys = append(tys, r.Type())
			}
			for i := 0; i < fn.Signature.Params().Len(); i++ {
				tys = append(tys, fn.Signature.Params().At(i).Type())
			}
			return x.callContract(st, c, fn, fn.Signature, args, tys, pos)
		}
	}
	pkg := fnPkg(fn)
	if isRepoPkg(pkg) || fn.Synthetic != "" && fn.Blocks != nil || pkg != nil && x.eng.inlinePkgs[pkg.Path()] {
		if fn.Blocks == nil {
			panic(unsupported("no body for %s", name))
		}
		x.inlined[name] = true
		out := x.inlineCall(fr, st, fn, args, binds, deferred)
		return out
	}
	if pkg != nil && purePkgs[pkg.Path()] && x.pureSig(fn.Signature) {
		return x.pureCall(st, fn, args)
	}
	return x.unknownCall(st, fn, args, pos)
}

func fnPkg(fn *ssa.Function) *types.Package {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if fn.Object() != nil {
		return fn.Object().Pkg()
	}
	if fn.Parent() != nil {
		return fnPkg(fn.Parent())
	}
	return nil
}

func (x *Exec) inlineCall(fr *Frame, st *State, fn *ssa.Function, args, binds []Val, deferred bool) []Outcome {
	depth := 0
	if fr != nil {
		depth = fr.depth + 1
	}
	if depth > 40 {
		panic(unsupported("calls nested too deeply at %s", fn))
	}
	n := 0
	for _, f := range x.stack {
		if f == fn {
			n++
		}
	}
	if n > 1 {
		panic(unsupported("recursion through %s, which has no contract", fn))
	}
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	nf := &Frame{fn: fn, env: map[ssa.Value]Val{}, active: map[*ssa.BasicBlock]*loopActive{}, unroll: map[*ssa.BasicBlock]int{}, depth: depth, parent: fr}
	if deferred {
		nf.inDefer = fr
	}
	if len(args) != len(fn.Params) {
		panic(unsupported("%s: %d args for %d params", fn, len(args), len(fn.Params)))
	}
	for i, p := range fn.Params {
		nf.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		nf.env[f] = binds[i]
	}
	return x.run(nf, fn.Blocks[0], nil, st)
}

var purePkgs = map[string]bool{"strings": true, "path": true, "path/filepath": true, "strconv": true, "unicode": true, "unicode/utf8": true, "errors": true, "fmt": true, "bytes": true, "go/token": true, "html": true, "net/url": true, "math": true, "time": true, "regexp": true}

// pure functions take and return plain values
func (x *Exec) pureSig(sig *types.Signature) bool {
	ok := func(t types.Type, res bool) bool {
		switch u := types.Unalias(t).Underlying().(type) {
		case *types.Basic:
			return true
		case *types.Interface:
			return true
		case *types.Slice:
			if b, k := u.Elem().Underlying().(*types.Basic); k && (b.Kind() == types.String || b.Kind() == types.Uint8) {
				return true
			}
			return !res
		case *types.Struct:
			return true
		}
		return false
	}
	if sig.Recv() != nil && !ok(sig.Recv().Type(), false) {
		return false
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if !ok(sig.Params().At(i).Type(), false) {
			return false
		}
	}
	for i := 0; i < sig.Results().Len(); i++ {
		if !ok(sig.Results().At(i).Type(), true) {
			return false
		}
	}
	return true
}

func (x *Exec) pureCall(st *State, fn *ssa.Function, args []Val) []Outcome {
	sig := fn.Signature
	var ts []*Term
	for _, a := range x.lower(st, args) {
		if a.sort == "Slice" {
			// by content
			pt := fn.Params
			_ = pt
		}
		ts = append(ts, a)
	}
	var tys []types.Type
	if sig.Recv() != nil {
		tys = append(tys, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		tys = append(tys, sig.Params().At(i).Type())
	}
	var us []*Term
	name := fn.String()
	for i, t := range ts {
		if t.sort != "Slice" {
			us = append(us, t)
			continue
		}
		el := types.Unalias(tys[i]).Underlying().(*types.Slice).Elem()
		if isByte(el) {
			us = append(us, st.bytesOf(t))
			continue
		}
		if xs, ok := x.sliceElems(st, t, el); ok {
			name += fmt.Sprintf("/%d", len(xs))
			us = append(us, xs...)
			continue
		}
		us = append(us, Select(st.get(compElems(el)), sRef(t)), sOff(t), sLen(t))
	}
	x.trusted["pure function "+fn.String()+" (deterministic function of its arguments)"] = true
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		nm := name
		if sig.Results().Len() > 1 {
			nm = fmt.Sprintf("%s.%d", name, i)
		}
		if so := sortOf(rt); so == "Slice" {
			el := types.Unalias(rt).Underlying().(*types.Slice).Elem()
			if isByte(el) {
				res = append(res, st.newBytes(App(nm, "String", us...)))
				continue
			}
			r := st.newRef("pure")
			c := compElems(el)
			_, in := arrSorts(st.get(c).sort)
			st.set(c, Store(st.get(c), r, App(nm, in, us...)))
			l := App(nm+".len", "Int", us...)
			st.assume(Le(Int(0), l))
			res = append(res, mkSlice(r, Int(0), l))
		} else if t := nativeApp(nm, us); t != nil {
			res = append(res, t)
		} else if len(us) == 0 {
			res = append(res, Fresh(nm, so))
		} else {
			t := App(nm, so, us...)
			st.wf(t, rt)
			res = append(res, t)
		}
	}
	return []Outcome{{st: st, res: res}}
}

// sliceElems lists the elements of a slice of known length
func (x *Exec) sliceElems(st *State, s *Term, et types.Type) ([]*Term, bool) {
	l := sLen(s)
	if l.op != "int" || l.i > 64 || isByte(et) {
		return nil, false
	}
	in := Select(st.get(compElems(et)), sRef(s))
	var r []*Term
	for i := int64(0); i < l.i; i++ {
		r = append(r, Select(in, At(sOff(s), Int(i))))
	}
	return r, true
}

// unknownCall: an external function without a contract may do anything to the
// worlds and returns anything
func (x *Exec) unknownCall(st *State, fn *ssa.Function, args []Val, pos token.Pos) []Outcome {
	x.trusted["unmodelled call of "+fn.String()+": result and outside effects are arbitrary, this module's objects are not changed"] = true
	for _, w := range x.eng.worlds {
		c := "W:" + w
		compSort[c] = "World"
		st.set(c, Fresh("world_"+w, "World"))
	}
	sig := fn.Signature
	var tys []types.Type
	if sig.Recv() != nil {
		tys = append(tys, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		tys = append(tys, sig.Params().At(i).Type())
	}
	for i, a := range args {
		t, ok := a.(*Term)
		if !ok || i >= len(tys) {
			continue
		}
		ty := tys[i]
		if t.sort == "Any" {
			bt := knownBox(st, t)
			if bt == nil {
				continue
			}
			t, ty = Unbox(bt, t), bt
		}
		x.havocAt(st, t, ty)
	}
	return []Outcome{{st: st, res: x.freshResults(st, fn.Signature, fn.Name())}}
}

func (x *Exec) freshResults(st *State, sig *types.Signature, hint string) []Val {
	st.bumpAlloc()
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		r := Fresh(hint, sortOf(t))
		st.wf(r, t)
		res = append(res, r)
	}
	return res
}

// snapshot replaces the address of file metadata allocated since the entry of
// the function by its value; metadata others hold stays an address
func (x *Exec) snapshot(st *State, a *Term) *Term {
	if a.op == "ctor" && strings.HasPrefix(a.name, "box_*"+modPath+"/pkging.FileInfo") {
		if t, ok := boxTypes[a.name]; ok {
			et := derefT(t)
			v := Box(et, st.loadPure(a.args[0], et))
			if x.entry == nil {
				return v
			}
			return Ite(Lt(x.entry.alloc, a.args[0]), v, a)
		}
	}
	return a
}

// opaqueCall models a call whose target is not known: results are functions of
// the arguments and the world of the interface
func (x *Exec) opaqueCall(st *State, name string, it types.Type, args []*Term, sig *types.Signature) []Outcome {
	key := typeKey(it)
	w, ok := x.eng.specs.opaque[key]
	if !ok {
		if n, isN := types.Unalias(it).(*types.Named); isN && isRepoPkg(n.Obj().Pkg()) {
			w = key
		} else if _, isSig := it.Underlying().(*types.Signature); isSig {
			w = "cb"
		} else {
			w = key
		}
	}
	if sg, isSig := types.Unalias(it).(*types.Signature); isSig {
		key = x.eng.sigKey(sg)
	}
	name = strings.Replace(name, "fn:"+tstr(it), "fn:"+key, 1)
	var us []*Term
	for _, a := range args {
		us = append(us, x.snapshot(st, a))
	}
	x.trusted["opaque call "+name+": results are functions of the arguments and the world"] = true
	pure := w == ""
	if !pure {
		c := "W:" + w
		compSort[c] = "World"
		cur := st.get(c)
		us = append(us, cur)
		st.set(c, App(name+".w", "World", us...))
		st.bumpAlloc()
	}
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		r := App(fmt.Sprintf("%s.%d", name, i), sortOf(t), us...)
		st.wf(r, t)
		res = append(res, x.unlower(r))
	}
	return []Outcome{{st: st, res: res}}
}

// ---- calls through a contract

func (x *Exec) bindParams(c *Contract, args []Val, tys []types.Type, st *State) map[string]SV {
	env := map[string]SV{}
	if len(c.params) != len(args) {
		panic(specErr{fmt.Sprintf("%s:%d: contract of %s names %d parameters, the function has %d", c.file, c.line, c.name, len(c.params), len(args))})
	}
	for i, n := range c.params {
		env[n] = SV{x.term(st, args[i]), tys[i]}
	}
	return env
}

func (x *Exec) callContract(st *State, c *Contract, fn *ssa.Function, sig *types.Signature, args []Val, tys []types.Type, pos token.Pos) []Outcome {
	x.used[c.name] = true
	env := &Env{vars: x.bindParams(c, args, tys, st), st: st, old: st, x: x}
	for _, l := range c.lets {
		env.vars[l.name] = env.eval(l.e)
	}
	if sig.Recv() != nil && len(args) > 0 {
		if _, ok := sig.Recv().Type().Underlying().(*types.Pointer); ok {
			x.safety(st, "nil receiver of "+c.name, Ne(x.term(st, args[0]), Int(0)), pos)
		}
	}
	for _, r := range c.requires {
		x.oblige(st, "requires", "requires of "+c.name+": "+r.label, r.tags, env.bool(r.e), x.pos(pos))
	}
	if st.dead {
		return nil
	}
	var out []Outcome
	// exceptional outcome
	if len(c.panics) > 0 {
		cond := False
		for _, p := range c.panics {
			cond = Or(cond, env.bool(p.e))
		}
		a, b := x.branch(st, cond)
		if a != nil {
			pv := Fresh("panic", "Any")
			env2 := &Env{vars: env.vars, st: a, old: a.clone(), x: x}
			x.havoc(a, c, env2)
			a.bumpAlloc()
			for _, q := range c.onpanic {
				if c.extern || x.relevant(q.tags) {
					a.assume(env2.bool(q.e))
				}
			}
			out = append(out, Outcome{st: a, panic: true, pval: pv})
		}
		if b == nil {
			return out
		}
		st = b
	}
	if c.mayPanic {
		a := st.clone()
		env2 := &Env{vars: env.vars, st: a, old: a.clone(), x: x}
		x.havoc(a, c, env2)
		a.bumpAlloc()
		for _, q := range c.onpanic {
			if c.extern || x.relevant(q.tags) {
				a.assume(env2.bool(q.e))
			}
		}
		out = append(out, Outcome{st: a, panic: true, pval: Fresh("panic", "Any")})
	}
	old := st.clone()
	env.old, env.st = old, st
	x.havoc(st, c, env)
	rs := x.freshContractResults(st, c, sig)
	var res []Val
	for i, r := range rs {
		if i < len(c.results) {
			env.vars[c.results[i]] = SV{r, sig.Results().At(i).Type()}
		}
		_ = i
	}
	env.st = st
	for _, e := range c.ensures {
		if c.extern || x.relevant(e.tags) {
			st.assume(env.bool(e.e))
		}
	}
	for _, n := range c.names {
		st.assume(Eq(env.vars[n.res].t, env.eval(n.e).t))
	}
	if c.noReturn {
		return out
	}
	for i, r := range rs {
		_ = i
		res = append(res, x.unlower(st.simplifyEq(r)))
	}
	if st.dead {
		return out
	}
	return append(out, Outcome{st: st, res: res})
}

// simplifyEq uses an equation of the path condition that defines a fresh result
func (s *State) simplifyEq(t *Term) *Term {
	if t.op != "const" {
		return t
	}
	for n := s.pc; n != nil; n = n.up {
		if n.t.op == "=" {
			a, b := n.t.args[0], n.t.args[1]
			if a == t && b.stamp < t.stamp {
				return b
			}
			if b == t && a.stamp < t.stamp {
				return a
			}
		}
	}
	return t
}

func (x *Exec) freshContractResults(st *State, c *Contract, sig *types.Signature) []*Term {
	st.bumpAlloc()
	var rs []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		r := Fresh("r_"+c.name, sortOf(t))
		st.wf(r, t)
		rs = append(rs, r)
	}
	return rs
}

// modTarget is a place that may be modified
type modTarget struct {
	comp string
	ref  *Term // nil: everything in the component
	cond *Term
}

// modTargets resolves the modifies clauses in the pre-state
func (x *Exec) modTargets(c *Contract, env *Env) []modTarget {
	var r []modTarget
	for _, m := range c.modifies {
		ts := x.modTarget(m.e, env)
		if m.cond != nil {
			cd := env.bool(m.cond)
			for i := range ts {
				ts[i].cond = cd
			}
		}
		r = append(r, ts...)
	}
	return r
}

func (x *Exec) modTarget(m *Expr, env *Env) []modTarget {
	switch m.op {
	case "paren":
		return x.modTarget(m.args[0], env)
	case "call":
		switch m.args[0].name {
		case "world":
			return []modTarget{{comp: env.worldComp(m.args[1].name)}}
		case "bytes", "elems":
			s := env.eval(m.args[1])
			et := types.Unalias(s.ty).Underlying().(*types.Slice).Elem()
			return []modTarget{{comp: compElems(et), ref: sRef(s.t)}}
		case "mapof":
			s := env.eval(m.args[1])
			return []modTarget{{comp: compMap(s.ty), ref: s.t}}
		case "every": // every(T.field)
			t := exprName(m.args[1])
			i := strings.LastIndex(t, ".")
			ty, _ := x.eng.resolveType(&TypeExpr{kind: "named", name: t[:i]})
			s := ty.Underlying().(*types.Struct)
			for k := 0; k < s.NumFields(); k++ {
				if s.Field(k).Name() == t[i+1:] {
					cn, _ := compFieldSort(ty, k)
					return []modTarget{{comp: cn}}
				}
			}
		}
	case "deref":
		v := env.eval(m.args[0])
		et := derefT(v.ty)
		if ip, ok := iptrs[v.t.id]; ok { // into an object
			return []modTarget{{comp: ip.comp, ref: ip.ref}}
		}
		if s, ok := et.Underlying().(*types.Struct); ok && !opaqueStruct(et) {
			var r []modTarget
			for i := 0; i < s.NumFields(); i++ {
				cn, _ := compFieldSort(et, i)
				r = append(r, modTarget{comp: cn, ref: v.t})
			}
			return r
		}
		return []modTarget{{comp: compCell(et), ref: v.t}}
	case "sel":
		if m.args[0].op == "ident" {
			if _, ok := env.vars[m.args[0].name]; !ok {
				if o := x.eng.lookup(m.args[0].name, m.name); o != nil {
					c := "G:" + o.Pkg().Path() + "." + o.Name()
					if _, ok := compSort[c]; !ok {
						compSort[c] = sortOf(o.Type())
					}
					return []modTarget{{comp: c}}
				}
				if v, ok := env.pkgObj(m.args[0].name, m.name); ok {
					return []modTarget{{comp: strings.TrimPrefix(v.t.name, "H_")}}
				}
			}
		}
		v := env.eval(m.args[0])
		ty := derefT(v.ty)
		if c, _ := x.eng.ghostField(ty, m.name); c != "" {
			return []modTarget{{comp: c, ref: v.t}}
		}
		s, ok := ty.Underlying().(*types.Struct)
		if ok {
			for k := 0; k < s.NumFields(); k++ {
				if s.Field(k).Name() == m.name {
					cn, _ := compFieldSort(ty, k)
					return []modTarget{{comp: cn, ref: v.t}}
				}
			}
		}
	}
	panic(specErr{m.line + ": modifies: not a place"})
}

func (x *Exec) havoc(st *State, c *Contract, env *Env) {
	if c.modAll {
		panic(unsupported("call of %s, which may modify anything", c.name))
	}
	dead := map[*Term]bool{}
	for _, t := range x.modTargets(c, &Env{vars: env.vars, st: env.old, old: env.old, x: x}) {
		cur := st.get(t.comp)
		if t.cond != nil {
			d, ok := dead[t.cond]
			if !ok {
				s := env.old.clone()
				s.assume(t.cond)
				d = s.dead || !x.feas(s)
				dead[t.cond] = d
			}
			if d {
				continue
			}
		}
		if t.ref == nil {
			n := Fresh("h_"+t.comp, cur.sort)
			heapBound[n.id] = st.alloc
			st.set(t.comp, n)
			if t.cond != nil {
				st.assume(Or(t.cond, Eq(n, cur)))
			}
			continue
		}
		_, vs := arrSorts(cur.sort)
		n := Fresh("hv", vs)
		st.set(t.comp, Store(cur, t.ref, n))
		if t.cond != nil {
			st.assume(Or(t.cond, Eq(n, Select(cur, t.ref))))
		}
	}
}

// havocAt forgets what a pointer or slice leads to directly
func (x *Exec) havocAt(st *State, t *Term, ty types.Type) {
	set := func(comp string, ref *Term) {
		cur := st.get(comp)
		_, vs := arrSorts(cur.sort)
		st.set(comp, Store(cur, ref, Fresh("hv", vs)))
	}
	switch u := types.Unalias(ty).Underlying().(type) {
	case *types.Pointer:
		et := u.Elem()
		for g := range x.eng.specs.ghostFields {
			if strings.HasPrefix(g, typeKey(et)+".") {
				c, _ := x.eng.ghostField(et, g[strings.LastIndex(g, ".")+1:])
				set(c, t)
			}
		}
		if ip, ok := iptrs[t.id]; ok {
			n := Fresh("hv", sortOf(et))
			st.store(ip, et, n)
			return
		}
		if s, ok := types.Unalias(et).Underlying().(*types.Struct); ok && !opaqueStruct(et) {
			for i := 0; i < s.NumFields(); i++ {
				cn, _ := compFieldSort(et, i)
				set(cn, t)
			}
			return
		}
		set(compCell(et), t)
	case *types.Slice:
		set(compElems(u.Elem()), sRef(t))
	}
}

// knownBox is the dynamic type of an interface value where it is known
func knownBox(st *State, t *Term) types.Type {
	if t.op == "ctor" {
		return boxTypes[t.name]
	}
	for n := st.pc; n != nil; n = n.up {
		if n.t.op == "is" && n.t.args[0] == t {
			if ty, ok := boxTypes[n.t.name]; ok {
				return ty
			}
		}
	}
	return nil
}

func tstr0(t types.Type) string { return types.TypeString(canonType(t), nil) }

// typedContract finds the contract of an external function for the dynamic
// types of its interface arguments: name[T1,T2] or name[T]
func (x *Exec) typedContract(st *State, fn *ssa.Function, args []Val, pos token.Pos) ([]Outcome, bool) {
	nm := x.eng.short(fn.String())
	var tys []types.Type
	if r := fn.Signature.Recv(); r != nil {
		tys = append(tys, r.Type())
	}
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		tys = append(tys, fn.Signature.Params().At(i).Type())
	}
	if len(tys) != len(args) {
		return nil, false
	}
	var idx []int
	var bts []types.Type
	for i, a := range args {
		if t, ok := a.(*Term); ok && t.sort == "Any" {
			if bt := knownBox(st, t); bt != nil {
				idx = append(idx, i)
				bts = append(bts, bt)
			}
		}
	}
	try := func(use []int) ([]Outcome, bool) {
		var ns []string
		as := append([]Val{}, args...)
		ts := append([]types.Type{}, tys...)
		for _, k := range use {
			ns = append(ns, x.eng.short(tstr0(bts[k])))
			as[idx[k]] = x.unlower(Unbox(bts[k], args[idx[k]].(*Term)))
			ts[idx[k]] = bts[k]
		}
		c := x.eng.contractByName(nm + "[" + strings.Join(ns, ",") + "]")
		if c == nil {
			return nil, false
		}
		return x.callContract(st, c, fn, fn.Signature, as, ts, pos), true
	}
	if len(idx) > 1 {
		var all []int
		for k := range idx {
			all = append(all, k)
		}
		if o, ok := try(all); ok {
			return o, true
		}
	}
	for k := range idx {
		if o, ok := try([]int{k}); ok {
			return o, true
		}
	}
	return nil, false
}

// sigKey names a function type without its parameter names
func (en *Engine) sigKey(s *types.Signature) string {
	var as []string
	for i := 0; i < s.Params().Len(); i++ {
		as = append(as, en.short(tstr0(s.Params().At(i).Type())))
	}
	for i := 0; i < s.Results().Len(); i++ {
		as = append(as, "->"+en.short(tstr0(s.Results().At(i).Type())))
	}
	return "func(" + strings.Join(as, ",") + ")"
}
