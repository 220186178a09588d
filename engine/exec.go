package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Outcome struct {
	st    *State
	panic bool
	pval  *Term
	res   []Val
	// writer of the back edge, used when discovering write sets
}

type Oblig struct {
	fn     string
	label  string
	tags   []string
	facts  []*Term
	goal   *Term
	pos    string
	kind   string // ensures requires invariant safety frame cover
	marks  []string
	res    SolveResult
	failed bool
	alts   [][]*Term // cover: one of these must be satisfiable
	why    string
	sum    int
	ax     int
	hasAx  bool
	model  string
	second string
}

type deferred struct {
	run func(st *State, fr *Frame) []Outcome
}

type loopActive struct {
	back func(fr *Frame, st *State, from *ssa.BasicBlock)
	loop *Loop
	dry  *Loop // discovery run: leaving the loop ends the path
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	defers []deferred
	active map[*ssa.BasicBlock]*loopActive
	unroll map[*ssa.BasicBlock]int
	names  map[string]ssa.Value
	parent *Frame
	depth  int
	// panic state while running defers
	panicking *bool
	pval      *Term
	inDefer   *Frame // frame whose defers run this frame (for recover)
	root      bool
}

func (fr *Frame) clone() *Frame {
	n := *fr
	n.env = make(map[ssa.Value]Val, len(fr.env)+8)
	for k, v := range fr.env {
		n.env[k] = v
	}
	n.defers = fr.defers[:len(fr.defers):len(fr.defers)]
	n.active = map[*ssa.BasicBlock]*loopActive{}
	for k, v := range fr.active {
		n.active[k] = v
	}
	n.names = make(map[string]ssa.Value, len(fr.names))
	for k, v := range fr.names {
		n.names[k] = v
	}
	n.unroll = map[*ssa.BasicBlock]int{}
	for k, v := range fr.unroll {
		n.unroll[k] = v
	}
	return &n
}

type Exec struct {
	onceStack  []*Ptr
	eng        *Engine
	cur        *Contract // contract under verification
	curName    string
	obs        []*Oblig
	dry        int
	quiet      int // obligations suppressed
	steps      int
	paths      int
	inlined    map[string]bool
	used       map[string]bool // contracts used
	trusted    map[string]bool
	entry      *State
	entryEnv   map[string]SV
	targets    []modTarget // what the function may change
	framed     bool
	spawnPos   token.Pos
	rootFr     *Frame
	loopUsed   map[*LoopSpec]bool
	loopAssign map[interface{}]*LoopSpec
	prop       string
	rootFn     *ssa.Function
	stack      []*ssa.Function
	iterDepth  int
	covers     map[string]bool
}

const maxSteps = 400000

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := x.eng.fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, x.eng.repo+"/"), ps.Line)
}

// oblige records an obligation and assumes it afterwards
func (x *Exec) oblige(st *State, kind, label string, tags []string, goal *Term, pos string) {
	if st.dead {
		return
	}
	if x.dry == 0 && x.quiet == 0 {
		g := witness(st.known(goal), st)
		for _, g := range splitGoal(g) {
			x.obs = append(x.obs, &Oblig{fn: x.curName, label: label, tags: tags, facts: st.facts(), goal: g, pos: pos, kind: kind, marks: append([]string(nil), st.marks...)})
		}
	}
	st.assume(goal)
}

// splitGoal separates the conjuncts of a goal with quantifiers
func splitGoal(g *Term) []*Term {
	if g.op == "and" && hasQuant(g) {
		var r []*Term
		for _, a := range g.args {
			r = append(r, splitGoal(a)...)
		}
		return r
	}
	if (g.op == "or" || g.op == "=>") && hasQuant(g) {
		k := len(g.args) - 1
		if g.op == "or" {
			for k = 0; k < len(g.args) && !(g.args[k].op == "and" && hasQuant(g.args[k])); k++ {
			}
		}
		if k < len(g.args) && g.args[k].op == "and" {
			var r []*Term
			for _, a := range splitGoal(g.args[k]) {
				if g.op == "=>" {
					r = append(r, Implies(g.args[0], a))
					continue
				}
				o := append([]*Term(nil), g.args...)
				o[k] = a
				r = append(r, Or(o...))
			}
			return r
		}
	}
	return []*Term{g}
}

var quantMemo = map[int]bool{}

func hasQuant(t *Term) bool {
	if t.op == "forall" || t.op == "exists" {
		return true
	}
	if v, ok := quantMemo[t.id]; ok {
		return v
	}
	r := false
	for _, a := range t.args {
		if hasQuant(a) {
			r = true
			break
		}
	}
	quantMemo[t.id] = r
	return r
}

func (x *Exec) fail(st *State, kind, label string, tags []string, pos, why string) {
	if x.dry == 0 && x.quiet == 0 {
		x.obs = append(x.obs, &Oblig{fn: x.curName, label: label, tags: tags, facts: st.facts(), goal: False, pos: pos, kind: kind, why: why, marks: append([]string(nil), st.marks...)})
	}
}

func (x *Exec) safety(st *State, what string, cond *Term, pos token.Pos) {
	if isLit(st.known(cond)) && st.known(cond) == True {
		return
	}
	x.oblige(st, "safety", what, nil, cond, x.pos(pos))
}

// branch forks on a condition; dead sides are nil
func (x *Exec) branch(st *State, c *Term) (*State, *State) {
	if st.dead {
		return nil, nil
	}
	k := st.known(c)
	if k == True {
		st.assume(c)
		return st, nil
	}
	if k == False {
		st.assume(Not(c))
		return nil, st
	}
	a, b := st.clone(), st
	a.assume(c)
	b.assume(Not(c))
	if a.dead || !x.feas(a) {
		a = nil
	}
	if b.dead || a != nil && !x.feas(b) {
		b = nil
	}
	return a, b
}

var feasCache = map[string]bool{}

func (x *Exec) feas(st *State) bool {
	if st.dead {
		return false
	}
	addImplAxioms()
	return feasible(st.facts())
}

// ---- values

func (x *Exec) val(fr *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constant(v)
	case *ssa.Function:
		return &Clo{fn: v}
	case *ssa.Global:
		return x.globalPtr(v)
	case *ssa.Builtin:
		return v
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	panic(unsupported("value %s of %s has not been computed", v.Name(), fr.fn))
}

func (x *Exec) globalPtr(g *ssa.Global) *Ptr {
	c := "G:" + g.String()
	et := derefT(g.Type())
	if _, ok := compSort[c]; !ok {
		compSort[c] = sortOf(et)
	}
	if x.eng.sentinels[c] == nil {
		x.eng.initGlobal(g, c, et)
	}
	return &Ptr{comp: c, elem: et}
}

func (x *Exec) constant(c *ssa.Const) Val {
	t := types.Unalias(c.Type())
	if c.Value == nil {
		return zeroOf(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		return Str(constant.StringVal(c.Value))
	case constant.Int:
		if sortOf(t) == "Int" {
			if i, ok := constant.Int64Val(c.Value); ok {
				return Int(i)
			}
			return Sym("bigint_"+c.Value.ExactString(), "Int")
		}
	}
	return Sym("const_"+sane(c.Value.ExactString()), sortOf(t))
}

var clos = map[int]*Clo{}
var fnConst = map[string]*Term{}

// term lowers a value
func (x *Exec) term(st *State, v Val) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *Clo:
		if len(v.binds) == 0 {
			n := "fn:" + v.fn.String()
			t := sym0(n, "Int")
			distinctConst[n] = true
			clos[t.id] = v
			if st != nil {
				st.assume(Lt(t, Int(0)))
			}
			return t
		}
		t := v.low
		if t == nil {
			t = NewRef("clo")
			v.low = t
		}
		if st != nil {
			st.assume(Lt(t, Int(0)))
		}
		clos[t.id] = v
		return t
	case *Ptr:
		if v.ref == nil && len(v.path) == 0 {
			t := sym0("addr:"+v.comp, "Int")
			iptrs[t.id] = v
			if st != nil {
				st.assume(And(Lt(Int(0), t), Le(t, sym0("A0", "Int"))))
			}
			return t
		}
		n := "iptr:" + v.comp
		for _, e := range v.path {
			n += fmt.Sprintf(".%d", e.i)
		}
		var as []*Term
		if v.ref != nil {
			as = append(as, v.ref)
		}
		if v.idx != nil {
			as = append(as, v.idx)
		}
		var t *Term
		if len(as) == 0 {
			t = sym0(n, "Int")
		} else {
			t = mk("app", n, 0, "Int", as...)
		}
		iptrs[t.id] = v
		if st != nil {
			st.assume(And(Lt(Int(0), t), Le(t, st.alloc)))
		}
		return t
	}
	panic(unsupported("%T as a term", v))
}

func (x *Exec) tv(fr *Frame, st *State, v ssa.Value) *Term { return x.term(st, x.val(fr, v)) }

// ---- calls of known functions

func (x *Exec) callFn(fn *ssa.Function, args []Val, binds []Val, st *State, from *Frame) []Outcome {
	if fn.Blocks == nil {
		panic(unsupported("function %s has no body", fn))
	}
	depth := 0
	if from != nil {
		depth = from.depth + 1
	}
	if depth > 40 {
		panic(unsupported("calls nested too deeply at %s", fn))
	}
	n := 0
	for _, f := range x.stack {
		if f == fn {
			n++
		}
	}
	if n > 1 {
		panic(unsupported("recursion through %s without a contract", fn))
	}
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, active: map[*ssa.BasicBlock]*loopActive{}, unroll: map[*ssa.BasicBlock]int{}, depth: depth, parent: from}
	if from == nil {
		fr.root = true
		x.rootFr = fr
	}
	if len(args) != len(fn.Params) {
		panic(unsupported("%s: %d args for %d params", fn, len(args), len(fn.Params)))
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		fr.env[f] = binds[i]
	}
	return x.run(fr, fn.Blocks[0], nil, st)
}

func (x *Exec) run(fr *Frame, b, prev *ssa.BasicBlock, st *State) []Outcome {
	if st == nil || st.dead {
		return nil
	}
	x.steps++
	if x.steps > maxSteps || x.steps%64 == 0 && time.Until(deadline) < 60*time.Second {
		panic(unsupported("too many steps in %s", x.curName))
	}
	for _, a := range fr.active {
		if a.dry != nil && !a.dry.blocks[b] {
			return nil
		}
	}
	if prev != nil {
		for h, a := range fr.active {
			if a.loop != nil && a.loop.blocks[prev] && !a.loop.blocks[b] {
				st.left = &leftNode{h, prev == h, st.left}
			}
		}
	}
	if lp := x.eng.loopsOf(fr.fn)[b]; lp != nil {
		if act := fr.active[b]; act != nil && lp.blocks[prev] {
			act.back(fr, st, prev)
			return nil
		}
		return x.enterLoop(fr, lp, b, prev, st)
	}
	x.phis(fr, b, prev, st)
	return x.instrs(fr, b, x.firstNonPhi(b), st)
}

func (x *Exec) firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func (x *Exec) phis(fr *Frame, b, prev *ssa.BasicBlock, st *State) {
	if prev == nil {
		return
	}
	pi := -1
	for i, p := range b.Preds {
		if p == prev {
			pi = i
		}
	}
	vals := map[*ssa.Phi]Val{}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[p] = x.val(fr, p.Edges[pi])
	}
	for p, v := range vals {
		fr.env[p] = v
	}
}

func (x *Exec) instrs(fr *Frame, b *ssa.BasicBlock, i int, st *State) []Outcome {
	for ; i < len(b.Instrs); i++ {
		if st.dead {
			return nil
		}
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.DebugRef:
			if id, ok := in.Expr.(*ast.Ident); ok && !in.IsAddr {
				if fr.names == nil {
					fr.names = map[string]ssa.Value{}
				}
				fr.names[id.Name] = in.X
			}
		case *ssa.Jump:
			return x.run(fr, b.Succs[0], b, st)
		case *ssa.If:
			c := x.tv(fr, st, in.Cond)
			t, f := x.branch(st, c)
			var out []Outcome
			if t != nil && f != nil {
				fr2 := fr.clone()
				m := len(t.marks)
				t.marks = append(t.marks[:m:m], x.mark(in, true))
				f.marks = append(f.marks[:len(f.marks):len(f.marks)], x.mark(in, false))
				out = append(out, x.run(fr2, b.Succs[0], b, t)...)
				out = append(out, x.run(fr, b.Succs[1], b, f)...)
				return out
			}
			if t != nil {
				return x.run(fr, b.Succs[0], b, t)
			}
			return x.run(fr, b.Succs[1], b, f)
		case *ssa.Return:
			var rs []Val
			for _, r := range in.Results {
				rs = append(rs, x.val(fr, r))
			}
			x.paths++
			return []Outcome{{st: st, res: rs}}
		case *ssa.Panic:
			pv := x.tv(fr, st, in.X)
			return x.doPanic(fr, st, pv, in.Pos())
		case *ssa.RunDefers:
			return x.runDefers(fr, st, func(fr *Frame, st *State) []Outcome {
				return x.instrs(fr, b, i+1, st)
			})
		case *ssa.Defer:
			d := x.makeDefer(fr, st, in)
			fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], d)
		case *ssa.Call:
			outs := x.doCall(fr, st, in.Common(), in)
			return x.resume(fr, b, i, in, outs)
		case *ssa.Store:
			x.store(fr, st, in)
		case *ssa.MapUpdate:
			m := x.tv(fr, st, in.Map)
			x.safety(st, "assignment to entry in nil map", Ne(m, Int(0)), in.Pos())
			c := compMap(in.Map.Type())
			cur := st.get(c)
			inner := Select(cur, m)
			st.set(c, Store(cur, m, Store(inner, x.tv(fr, st, in.Key), Some(x.tv(fr, st, in.Value)))))
		case *ssa.Go, *ssa.Select, *ssa.Send:
			panic(unsupported("%T", in))
		case ssa.Value:
			outs, forked := x.eval(fr, st, in)
			if forked {
				return x.resume(fr, b, i, in, outs)
			}
		default:
			panic(unsupported("instruction %T", in))
		}
	}
	return nil
}

// resume continues after instruction i for every outcome of it
func (x *Exec) resume(fr *Frame, b *ssa.BasicBlock, i int, in ssa.Value, outs []Outcome) []Outcome {
	var out []Outcome
	for k, o := range outs {
		if o.st == nil || o.st.dead {
			continue
		}
		f := fr
		if k < len(outs)-1 {
			f = fr.clone()
		}
		if o.panic {
			out = append(out, x.doPanic(f, o.st, o.pval, in.Pos())...)
			continue
		}
		switch len(o.res) {
		case 0:
		case 1:
			f.env[in] = o.res[0]
		default:
			f.env[in] = Tuple(o.res)
		}
		out = append(out, x.instrs(f, b, i+1, o.st)...)
	}
	return out
}

func (x *Exec) mark(in *ssa.If, b bool) string {
	p := in.Cond.Pos()
	if !p.IsValid() {
		p = in.Pos()
	}
	s := x.pos(p)
	if s == "" {
		s = in.Cond.Name()
	}
	return fmt.Sprintf("%s(%v)", s, b)
}

// ---- panics and defers

func (x *Exec) doPanic(fr *Frame, st *State, pv *Term, pos token.Pos) []Outcome {
	// run the deferred calls of this frame with panicking set
	if len(fr.defers) == 0 {
		return []Outcome{{st: st, panic: true, pval: pv}}
	}
	p := true
	fr.panicking = &p
	fr.pval = pv
	return x.runDefers(fr, st, func(fr *Frame, st *State) []Outcome {
		if *fr.panicking {
			return []Outcome{{st: st, panic: true, pval: fr.pval}}
		}
		fr.panicking = nil
		if fr.fn.Recover == nil {
			// no named results: zero values are returned
			var rs []Val
			for i := 0; i < fr.fn.Signature.Results().Len(); i++ {
				rs = append(rs, zeroOf(fr.fn.Signature.Results().At(i).Type()))
			}
			return []Outcome{{st: st, res: rs}}
		}
		return x.run(fr, fr.fn.Recover, nil, st)
	})
}

func (x *Exec) runDefers(fr *Frame, st *State, k func(*Frame, *State) []Outcome) []Outcome {
	if len(fr.defers) == 0 {
		return k(fr, st)
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	var out []Outcome
	// the panicking flag must be per path
	if fr.panicking != nil {
		p := *fr.panicking
		fr.panicking = &p
	}
	base := fr
	outs := d.run(st, fr)
	for _, o := range outs {
		f := base.clone()
		if base.panicking != nil {
			p := *base.panicking
			if o.st.recovered(base) {
				p = false
			}
			f.panicking = &p
		}
		if o.panic {
			p := true
			f.panicking = &p
			f.pval = o.pval
			out = append(out, x.runDefers(f, o.st, func(fr *Frame, st *State) []Outcome {
				if *fr.panicking {
					return []Outcome{{st: st, panic: true, pval: fr.pval}}
				}
				return x.run(fr, fr.fn.Recover, nil, st)
			})...)
			continue
		}
		out = append(out, x.runDefers(f, o.st, k)...)
	}
	return out
}

// recovered looks for the mark that recover() left for this frame
func (s *State) recovered(fr *Frame) bool {
	return s.heap[recKey(fr)] == True
}
func recKey(fr *Frame) string { return fmt.Sprintf("R:%p", fr.env) }

func (x *Exec) makeDefer(fr *Frame, st *State, in *ssa.Defer) deferred {
	c := in.Common()
	// evaluate now
	pre := x.prepare(fr, st, c)
	pos := in.Pos()
	return deferred{run: func(st *State, fr *Frame) []Outcome {
		return x.callPrepared(fr, st, pre, pos, true)
	}}
}

func (x *Exec) store(fr *Frame, st *State, in *ssa.Store) {
	p := x.val(fr, in.Addr)
	ty := derefT(in.Addr.Type())
	if t, ok := p.(*Term); ok {
		x.safety(st, "nil pointer dereference", Ne(t, Int(0)), in.Pos())
	}
	x.guarded(st, p, true, in.Pos())
	st.store(p, ty, x.tv(fr, st, in.Val))
}

// guarded checks that the lock of a guarded global is held
func (x *Exec) guarded(st *State, p Val, write bool, pos token.Pos) {
	ip, ok := p.(*Ptr)
	if ok && strings.HasPrefix(ip.comp, "F:") && ip.ref != nil && len(x.eng.specs.onceGuards) > 0 {
		x.onceGuarded(st, ip, write, pos)
		return
	}
	if !ok || !strings.HasPrefix(ip.comp, "G:") || len(x.eng.specs.guards) == 0 {
		return
	}
	lock, ok := x.eng.specs.guards[x.eng.short(ip.comp[2:])]
	if !ok || x.curName == "pkger.init" {
		return
	}
	e := &Env{vars: map[string]SV{}, st: st, old: st, x: x}
	i := strings.LastIndex(lock, ".")
	g, ok := e.pkgObj(lock[:i], lock[i+1:])
	if !ok {
		panic(specErr{"no lock " + lock})
	}
	v := st.loadPure(g.t, derefT(g.ty))
	if write {
		x.safety(st, "write of "+x.eng.short(ip.comp[2:])+" without holding the lock", Eq(v, Int(-1)), pos)
	} else {
		x.safety(st, "read of "+x.eng.short(ip.comp[2:])+" without holding the lock", Ne(v, Int(0)), pos)
	}
}

// eval computes a value; it may fork
func (x *Exec) eval(fr *Frame, st *State, in ssa.Value) ([]Outcome, bool) {
	set := func(v Val) ([]Outcome, bool) { fr.env[in] = v; return nil, false }
	switch in := in.(type) {
	case *ssa.Alloc:
		et := derefT(in.Type())
		r := st.newRef(strings.ReplaceAll(in.Comment, " ", "_"))
		st.zeroInit(r, et)
		return set(r)
	case *ssa.BinOp:
		return set(x.binop(fr, st, in))
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			p := x.val(fr, in.X)
			if t, ok := p.(*Term); ok {
				x.safety(st, "nil pointer dereference", Ne(t, Int(0)), in.Pos())
			}
			x.guarded(st, p, false, in.Pos())
			v := st.load(p, in.Type())
			if c, ok := clos[v.id]; ok {
				return set(c)
			}
			if ip, ok := iptrs[v.id]; ok {
				return set(ip)
			}
			return set(v)
		case token.NOT:
			return set(Not(x.tv(fr, st, in.X)))
		case token.SUB:
			return set(Neg(x.tv(fr, st, in.X)))
		}
		panic(unsupported("operator %s", in.Op))
	case *ssa.ChangeInterface:
		return set(x.val(fr, in.X))
	case *ssa.ChangeType:
		return set(x.val(fr, in.X))
	case *ssa.Convert:
		return set(x.convert(fr, st, in))
	case *ssa.MakeInterface:
		return set(x.makeIface(st, x.val(fr, in.X), in.X.Type()))
	case *ssa.MakeClosure:
		c := &Clo{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			c.binds = append(c.binds, x.val(fr, b))
		}
		return set(c)
	case *ssa.MakeMap:
		r := st.newRef("map")
		c := compMap(in.Type())
		cur := st.get(c)
		_, in2 := arrSorts(cur.sort)
		m := types.Unalias(in.Type()).Underlying().(*types.Map)
		st.set(c, Store(cur, r, ConstArr(in2, None(sortOf(m.Elem())))))
		return set(r)
	case *ssa.MakeSlice:
		l := x.tv(fr, st, in.Len)
		x.safety(st, "makeslice: len out of range", Le(Int(0), l), in.Pos())
		et := types.Unalias(in.Type()).Underlying().(*types.Slice).Elem()
		r := st.newRef("slice")
		c := compElems(et)
		if c == "AB" {
			s := Fresh("zeros", "String")
			if l.op == "int" {
				s = Str(strings.Repeat("\x00", int(l.i)))
			}
			st.assume(Eq(StrLen(s), l))
			st.set(c, Store(st.get(c), r, s))
		} else {
			_, inner := arrSorts(st.get(c).sort)
			st.set(c, Store(st.get(c), r, ConstArr(inner, zeroOf(et))))
		}
		return set(mkSlice(r, Int(0), l))
	case *ssa.FieldAddr:
		return set(x.fieldAddr(fr, st, in))
	case *ssa.Field:
		v := x.tv(fr, st, in.X)
		r := fieldOf(v, in.Field)
		st.wf(r, in.Type())
		if c, ok := clos[r.id]; ok {
			return set(c)
		}
		return set(r)
	case *ssa.IndexAddr:
		i := x.tv(fr, st, in.Index)
		switch u := types.Unalias(in.X.Type()).Underlying().(type) {
		case *types.Pointer: // array
			at := u.Elem().Underlying().(*types.Array)
			p := x.val(fr, in.X)
			x.safety(st, "index out of range", And(Le(Int(0), i), Lt(i, Int(at.Len()))), in.Pos())
			if pt, ok := p.(*Ptr); ok {
				if ip, ok := iptrs[x.term(st, pt).id]; ok && ip.idx == nil && len(ip.path) == 0 {
					np := *ip
					np.idx = i
					np.elem = at.Elem()
					return set(&np)
				}
				panic(unsupported("array inside a structure"))
			}
			return set(&Ptr{comp: compElems(at.Elem()), ref: p.(*Term), idx: i, elem: at.Elem()})
		case *types.Slice:
			s := x.tv(fr, st, in.X)
			x.safety(st, "index out of range", And(Le(Int(0), i), Lt(i, sLen(s))), in.Pos())
			return set(&Ptr{comp: compElems(u.Elem()), ref: sRef(s), idx: At(sOff(s), i), elem: u.Elem()})
		}
		panic(unsupported("IndexAddr on %s", in.X.Type()))
	case *ssa.Index:
		i := x.tv(fr, st, in.Index)
		v := x.tv(fr, st, in.X)
		switch u := types.Unalias(in.X.Type()).Underlying().(type) {
		case *types.Array:
			x.safety(st, "index out of range", And(Le(Int(0), i), Lt(i, Int(u.Len()))), in.Pos())
			return set(Select(v, i))
		case *types.Basic:
			x.safety(st, "index out of range", And(Le(Int(0), i), Lt(i, StrLen(v))), in.Pos())
			return set(App("str.to_code", "Int", App("str.at", "String", v, i)))
		}
		panic(unsupported("Index on %s", in.X.Type()))
	case *ssa.Lookup:
		v := x.tv(fr, st, in.X)
		i := x.tv(fr, st, in.Index)
		switch u := types.Unalias(in.X.Type()).Underlying().(type) {
		case *types.Basic:
			x.safety(st, "index out of range", And(Le(Int(0), i), Lt(i, StrLen(v))), in.Pos())
			return set(App("str.to_code", "Int", App("str.at", "String", v, i)))
		case *types.Map:
			o := Select(Select(st.get(compMap(in.X.Type())), v), i)
			ok := And(Ne(v, Int(0)), IsSome(o))
			ok = st.known(ok)
			val := Ite(ok, OptVal(o), zeroOf(u.Elem()))
			if in.CommaOk {
				return set(Tuple{val, ok})
			}
			st.wf(val, u.Elem())
			return set(val)
		}
		panic(unsupported("Lookup on %s", in.X.Type()))
	case *ssa.Slice:
		return set(x.slice(fr, st, in))
	case *ssa.Extract:
		t, ok := fr.env[in.Tuple].(Tuple)
		if !ok {
			panic(unsupported("extract from %T", fr.env[in.Tuple]))
		}
		v := t[in.Index]
		if tt, ok := v.(*Term); ok {
			st.wf(tt, in.Type())
			if c, ok := clos[tt.id]; ok {
				return set(c)
			}
		}
		return set(v)
	case *ssa.TypeAssert:
		return x.typeAssert(fr, st, in)
	case *ssa.Range:
		switch types.Unalias(in.X.Type()).Underlying().(type) {
		case *types.Map:
			m := x.tv(fr, st, in.X)
			c := compMap(in.X.Type())
			mt := types.Unalias(in.X.Type()).Underlying().(*types.Map)
			g := fmt.Sprintf("V:%d", nextStamp())
			compSort[g] = "(Array " + qs(sortOf(mt.Key())) + " Bool)"
			st.set(g, ConstArr(compSort[g], False))
			return set(&MapIter{comp: c, ref: m, mt: in.X.Type(), visited: g})
		}
		return set(&StrIter{})
	case *ssa.Next:
		return x.next(fr, st, in)
	case *ssa.Phi:
		return nil, false
	}
	panic(unsupported("%T", in))
}

func (x *Exec) makeIface(st *State, v Val, t types.Type) *Term {
	tv := x.term(st, v)
	return Box(t, tv)
}

func (x *Exec) fieldAddr(fr *Frame, st *State, in *ssa.FieldAddr) Val {
	p := x.val(fr, in.X)
	stt := derefT(in.X.Type())
	s := types.Unalias(stt).Underlying().(*types.Struct)
	ft := s.Field(in.Field).Type()
	if t, ok := p.(*Term); ok {
		x.safety(st, "nil pointer dereference", Ne(t, Int(0)), in.Pos())
		if ip, ok := iptrs[t.id]; ok {
			p = ip
		} else {
			c, _ := compFieldSort(stt, in.Field)
			return &Ptr{comp: c, ref: t, elem: ft}
		}
	}
	ip := p.(*Ptr)
	np := &Ptr{comp: ip.comp, ref: ip.ref, idx: ip.idx, elem: ft}
	np.path = append(append([]pathEl{}, ip.path...), pathEl{sortOf(stt), in.Field})
	if opaqueStruct(stt) {
		panic(unsupported("field of opaque %s", stt))
	}
	return np
}

func (x *Exec) slice(fr *Frame, st *State, in *ssa.Slice) Val {
	lo, hi := Int(0), (*Term)(nil)
	if in.Low != nil {
		lo = x.tv(fr, st, in.Low)
	}
	if in.High != nil {
		hi = x.tv(fr, st, in.High)
	}
	switch u := types.Unalias(in.X.Type()).Underlying().(type) {
	case *types.Basic:
		s := x.tv(fr, st, in.X)
		if hi == nil {
			hi = StrLen(s)
		}
		x.safety(st, "slice bounds out of range", And(Le(Int(0), lo), Le(lo, hi), Le(hi, StrLen(s))), in.Pos())
		return Substr(s, lo, Sub(hi, lo))
	case *types.Slice:
		s := x.tv(fr, st, in.X)
		if hi == nil {
			hi = sLen(s)
		}
		// the capacity is not modelled: reslicing beyond the length is rejected
		x.safety(st, "slice bounds out of range", And(Le(Int(0), lo), Le(lo, hi), Le(hi, sLen(s))), in.Pos())
		return mkSlice(sRef(s), Add(sOff(s), lo), Sub(hi, lo))
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		p := x.val(fr, in.X)
		if hi == nil {
			hi = Int(at.Len())
		}
		x.safety(st, "slice bounds out of range", And(Le(Int(0), lo), Le(lo, hi), Le(hi, Int(at.Len()))), in.Pos())
		if pt, ok := p.(*Ptr); ok {
			panic(unsupported("slice of an interior array %s", pt.comp))
		}
		return mkSlice(p.(*Term), lo, Sub(hi, lo))
	}
	panic(unsupported("slice of %s", in.X.Type()))
}

func (x *Exec) convert(fr *Frame, st *State, in *ssa.Convert) Val {
	from, to := types.Unalias(in.X.Type()).Underlying(), types.Unalias(in.Type()).Underlying()
	v := x.tv(fr, st, in.X)
	if fs, ok := from.(*types.Slice); ok && isByte(fs.Elem()) {
		if b, ok := to.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return st.bytesOf(v)
		}
	}
	if b, ok := from.(*types.Basic); ok && b.Info()&types.IsString != 0 {
		if ts, ok := to.(*types.Slice); ok && isByte(ts.Elem()) {
			return st.newBytes(v)
		}
	}
	if sortOf(in.X.Type()) == sortOf(in.Type()) {
		fb, ok1 := from.(*types.Basic)
		tb, ok2 := to.(*types.Basic)
		if ok1 && ok2 && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			return v // machine integers are mathematical here
		}
		return v
	}
	return App("conv_"+sane(tstr(in.X.Type()))+"_"+sane(tstr(in.Type())), sortOf(in.Type()), v)
}

func (x *Exec) binop(fr *Frame, st *State, in *ssa.BinOp) Val {
	a, b := x.tv(fr, st, in.X), x.tv(fr, st, in.Y)
	switch in.Op {
	case token.EQL, token.NEQ:
		if a.sort == "Slice" { // comparison with nil
			a, b = sRef(a), sRef(b)
		}
		r := Eq(a, b)
		if in.Op == token.NEQ {
			r = Not(r)
		}
		return r
	}
	if a.sort == "String" {
		switch in.Op {
		case token.ADD:
			return Concat(a, b)
		case token.LSS:
			return Not(App("str.<=", "Bool", b, a))
		case token.LEQ:
			return App("str.<=", "Bool", a, b)
		case token.GTR:
			return Not(App("str.<=", "Bool", a, b))
		case token.GEQ:
			return App("str.<=", "Bool", b, a)
		}
	}
	if a.sort == "Int" {
		switch in.Op {
		case token.ADD:
			return Add(a, b)
		case token.SUB:
			return Sub(a, b)
		case token.MUL:
			return Mul(a, b)
		case token.LSS:
			return Lt(a, b)
		case token.LEQ:
			return Le(a, b)
		case token.GTR:
			return Lt(b, a)
		case token.GEQ:
			return Le(b, a)
		case token.QUO, token.REM:
			x.safety(st, "division by zero", Ne(b, Int(0)), in.Pos())
			if b.op == "int" && b.i > 0 {
				if in.Op == token.QUO {
					return App("quo", "Int", a, b)
				}
				return App("rem", "Int", a, b)
			}
		case token.OR:
			return BitOr(a, b)
		case token.AND:
			return BitAnd(a, b)
		}
	}
	if a.sort == "Bool" {
		switch in.Op {
		case token.AND:
			return And(a, b)
		case token.OR:
			return Or(a, b)
		}
	}
	return App("op_"+opName(in.Op)+"_"+a.sort, sortOf(in.Type()), a, b)
}

// BitOr and BitAnd are uninterpreted apart from constants, 0 and the order of
// their operands.
func BitOr(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" {
		return Int(a.i | b.i)
	}
	if a.op == "int" {
		a, b = b, a
	}
	if b.op == "int" && b.i == 0 {
		return a
	}
	if a == b {
		return a
	}
	if b.op != "int" && a.String() > b.String() {
		a, b = b, a
	}
	return App("bitor", "Int", a, b)
}

func BitAnd(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" {
		return Int(a.i & b.i)
	}
	if a.op == "int" {
		a, b = b, a
	}
	if b.op == "int" && b.i == 0 {
		return b
	}
	if a == b {
		return a
	}
	if b.op != "int" && a.String() > b.String() {
		a, b = b, a
	}
	return App("bitand", "Int", a, b)
}

func opName(t token.Token) string { return fmt.Sprintf("tok%d", int(t)) }

func (x *Exec) typeAssert(fr *Frame, st *State, in *ssa.TypeAssert) ([]Outcome, bool) {
	v := x.tv(fr, st, in.X)
	t := types.Unalias(in.AssertedType)
	var cond, val *Term
	isIface := false
	if _, ok := t.Underlying().(*types.Interface); ok {
		isIface = true
		cond = implTerm(t, v)
		val = v
	} else {
		cond = IsBox(t, v)
		val = Unbox(t, v)
	}
	if !in.CommaOk {
		x.safety(st, "interface conversion to "+tstr(t), cond, in.Pos())
		st.wf(val, t)
		fr.env[in] = x.unlower(val)
		return nil, false
	}
	a, b := x.branch(st, cond)
	var out []Outcome
	if a != nil {
		if !isIface {
			a.wf(val, t)
		}
		out = append(out, Outcome{st: a, res: []Val{x.unlower(val), True}})
	}
	if b != nil {
		out = append(out, Outcome{st: b, res: []Val{zeroOf(t), False}})
	}
	return out, true
}

func (x *Exec) unlower(t *Term) Val {
	if c, ok := clos[t.id]; ok {
		return c
	}
	if p, ok := iptrs[t.id]; ok {
		return p
	}
	return t
}

func (x *Exec) next(fr *Frame, st *State, in *ssa.Next) ([]Outcome, bool) {
	it, ok := fr.env[in.Iter].(*MapIter)
	if !ok {
		panic(unsupported("range over %T", fr.env[in.Iter]))
	}
	mt := types.Unalias(it.mt).Underlying().(*types.Map)
	inner := Select(st.get(it.comp), it.ref)
	vis := st.get(it.visited)
	// more entries
	a := st.clone()
	k := Fresh("key", sortOf(mt.Key()))
	a.wf(k, mt.Key())
	o := Select(inner, k)
	a.assume(And(Ne(it.ref, Int(0)), IsSome(o), Not(Select(vis, k))))
	v := OptVal(o)
	a.wf(v, mt.Elem())
	a.set(it.visited, Store(vis, k, True))
	// done
	b := st
	bv := BVar("k", sortOf(mt.Key()))
	b.assume(Or(Eq(it.ref, Int(0)), Forall([]*Term{bv}, Implies(IsSome(Select(inner, bv)), Select(vis, bv)), []*Term{Select(inner, bv)}, []*Term{Select(vis, bv)})))
	var out []Outcome
	if !a.dead && x.feas(a) {
		out = append(out, Outcome{st: a, res: []Val{True, x.unlower(k), x.unlower(v)}})
	}
	if !b.dead {
		out = append(out, Outcome{st: b, res: []Val{False, zeroOf(mt.Key()), zeroOf(mt.Elem())}})
	}
	return out, true
}

// onceGuarded checks that a lazily created field is only touched under its once
func (x *Exec) onceGuarded(st *State, ip *Ptr, write bool, pos token.Pos) {
	name := x.eng.short(ip.comp[2:])
	if _, fresh := newRefs[ip.ref.id]; fresh {
		return
	}
	for f, o := range x.eng.specs.onceGuards {
		if name == o && write {
			x.safety(st, "the once-guard "+o+" is overwritten", False, pos)
		}
		if name != f {
			continue
		}
		oc := strings.TrimSuffix(ip.comp, name[strings.LastIndex(name, ".")+1:]) + o[strings.LastIndex(o, ".")+1:]
		if _, ok := compSort[oc]; !ok {
			panic(specErr{"no once field " + o})
		}
		running := false
		for _, r := range x.onceStack {
			if r.comp == oc && r.ref == ip.ref {
				running = true
			}
		}
		if running {
			continue
		}
		if write {
			x.safety(st, "write of "+f+" outside its once-guard", False, pos)
		} else {
			x.safety(st, "read of "+f+" before its once-guard", Select(st.get(oc), ip.ref), pos)
		}
	}
}
