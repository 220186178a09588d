package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var modPath = "github.com/markbates/pkger"

type Engine struct {
	fset       *token.FileSet
	repo       string
	prog       *ssa.Program
	specs      *SpecSet
	pkgList    []*types.Package
	worlds     []string
	inlinePkgs map[string]bool
	sentinels  map[string]*Term
	loops      map[*ssa.Function]map[*ssa.BasicBlock]*Loop
	byName     map[string]*ssa.Function
	names      map[*ssa.Function]string
	all        []*ssa.Function
	constGlob  map[string]bool
	axiomN     int
	assumed    []string
}

func load(repo string) (*Engine, error) {
	en := &Engine{repo: repo, fset: token.NewFileSet(), inlinePkgs: map[string]bool{}, sentinels: map[string]*Term{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}, byName: map[string]*ssa.Function{}, names: map[*ssa.Function]string{}, constGlob: map[string]bool{}}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Fset: en.fset, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off")}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	en.prog = prog
	for _, p := range prog.AllPackages() {
		en.pkgList = append(en.pkgList, p.Pkg)
	}
	sort.Slice(en.pkgList, func(i, j int) bool { return en.pkgList[i].Path() < en.pkgList[j].Path() })
	return en, nil
}

func (en *Engine) build() {
	for _, p := range en.prog.AllPackages() {
		if isRepoPkg(p.Pkg) || en.inlinePkgs[p.Pkg.Path()] {
			p.Build()
		}
	}
	for f := range ssautil.AllFunctions(en.prog) {
		if f.Pkg != nil && (isRepoPkg(f.Pkg.Pkg) || en.inlinePkgs[f.Pkg.Pkg.Path()]) && f.Synthetic == "" {
			en.all = append(en.all, f)
		}
	}
	// functions that nothing calls
	for _, p := range en.prog.AllPackages() {
		if !isRepoPkg(p.Pkg) {
			continue
		}
		for _, m := range p.Members {
			if f, ok := m.(*ssa.Function); ok {
				en.all = append(en.all, f)
			}
			if t, ok := m.(*ssa.Type); ok {
				for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					ms := en.prog.MethodSets.MethodSet(ty)
					for i := 0; i < ms.Len(); i++ {
						if f := en.prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" {
							en.all = append(en.all, f)
						}
					}
				}
			}
		}
	}
	seen := map[*ssa.Function]bool{}
	var fs []*ssa.Function
	for _, f := range en.all {
		if !seen[f] {
			seen[f] = true
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	en.all = fs
	for _, f := range fs {
		n := en.short(f.String())
		en.names[f] = n
		if en.byName[n] == nil {
			en.byName[n] = f
		}
	}
	// globals written outside init
	written := map[string]bool{}
	for _, f := range fs {
		if f.Name() == "init" && f.Parent() == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						if u, isLoad := in.(*ssa.UnOp); isLoad && u.Op == token.MUL {
							continue
						}
						if _, isDbg := in.(*ssa.DebugRef); isDbg {
							continue
						}
						written["G:"+g.String()] = true
					}
				}
			}
		}
	}
	for _, p := range en.prog.AllPackages() {
		if !isRepoPkg(p.Pkg) {
			continue
		}
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok && !written["G:"+g.String()] {
				en.constGlob["G:"+g.String()] = true
			}
		}
	}
	ws := map[string]bool{}
	for _, w := range en.specs.opaque {
		if w != "" {
			ws[w] = true
		}
	}
	en.worlds = sortedKeys(ws)
}

// short replaces import paths by the aliases of the contract files or the package names
func (en *Engine) short(s string) string {
	inv := map[string]string{}
	for a, p := range en.specs.imports {
		inv[p] = a
	}
	var sb strings.Builder
	i := 0
	isPath := func(c byte) bool {
		return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '-' || c == '/' || c == '.' || c == '~'
	}
	for i < len(s) {
		if !isPath(s[i]) || s[i] == '.' {
			sb.WriteByte(s[i])
			i++
			continue
		}
		j := i
		for j < len(s) && isPath(s[j]) {
			j++
		}
		w := s[i:j]
		// longest package path prefix
		k := strings.LastIndex(w, "/")
		d := strings.Index(w[k+1:], ".")
		if d >= 0 {
			pp := w[:k+1+d]
			if a, ok := inv[pp]; ok {
				sb.WriteString(a + w[k+1+d:])
			} else {
				nm := path.Base(pp)
				for _, p := range en.pkgList {
					if p.Path() == pp {
						nm = p.Name()
					}
				}
				sb.WriteString(nm + w[k+1+d:])
			}
		} else {
			sb.WriteString(w[k+1:])
		}
		i = j
	}
	return sb.String()
}

func (en *Engine) contractFor(fn *ssa.Function) *Contract {
	n, ok := en.names[fn]
	if !ok {
		n = en.short(fn.String())
		en.names[fn] = n
	}
	c := en.specs.contracts[n]
	if c == nil {
		return nil
	}
	if !c.extern && en.byName[n] != nil && en.byName[n] != fn {
		return nil
	}
	return c
}

func (en *Engine) contractByName(n string) *Contract { return en.specs.contracts[n] }

var aliasErr = map[string]string{
	"G:path/filepath.SkipDir": "G:io/fs.SkipDir",
	"G:os.ErrInvalid":         "G:io/fs.ErrInvalid",
	"G:os.ErrPermission":      "G:io/fs.ErrPermission",
	"G:os.ErrExist":           "G:io/fs.ErrExist",
	"G:os.ErrNotExist":        "G:io/fs.ErrNotExist",
	"G:os.ErrClosed":          "G:io/fs.ErrClosed",
}

var sentinelNo = map[string]int64{}

func sentinelTerm(c string) *Term {
	if a, ok := aliasErr[c]; ok {
		c = a
	}
	if _, ok := sentinelNo[c]; !ok {
		sentinelNo[c] = int64(len(sentinelNo) + 1)
	}
	return Ctor("opaque", "Any", Int(1), Int(sentinelNo[c]))
}

func (en *Engine) initGlobal(g *ssa.Global, c string, et types.Type) {
	if _, ok := globalInit[c]; ok || en.sentinels[c] != nil {
		return
	}
	en.sentinels[c] = True
	if types.TypeString(et, nil) == "error" && !isRepoPkg(g.Pkg.Pkg) {
		globalInit[c] = sentinelTerm(c)
		return
	}
	if !en.constGlob[c] {
		return
	}
	// a global that is only set by its initialiser
	ini := g.Pkg.Func("init")
	if ini == nil {
		return
	}
	for _, b := range ini.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok || s.Addr != g {
				continue
			}
			switch v := s.Val.(type) {
			case *ssa.Const:
				x := &Exec{eng: en}
				if t, ok := x.constant(v).(*Term); ok {
					globalInit[c] = t
				}
			case *ssa.Function:
				x := &Exec{eng: en}
				globalInit[c] = x.term(nil, &Clo{fn: v})
			case *ssa.Alloc:
				t := sym0("obj:"+c, "Int")
				distinctConst["obj:"+c] = true
				globalInit[c] = t
				en.sentinels[c] = t
			case *ssa.Call:
				if f, ok := v.Call.Value.(*ssa.Function); ok && (f.String() == "errors.New" || f.String() == "fmt.Errorf") {
					globalInit[c] = sentinelTerm(c)
				}
			}
		}
	}
}

func (en *Engine) initGlobalByName(c string, o *types.Var) {
	p := en.prog.Package(o.Pkg())
	if p == nil {
		return
	}
	if g, ok := p.Members[o.Name()].(*ssa.Global); ok {
		en.initGlobal(g, c, o.Type())
	}
}

// installAxioms evaluates the axioms of the contract files
func (en *Engine) axiomTerm(cl Clause) *Axiom {
	x := en.newExec(nil, "axiom")
	st := newState()
	e := &Env{vars: map[string]SV{}, st: st, old: st, x: x}
	t := e.bool(cl.e)
	keys := map[string]bool{}
	if t.op == "forall" && len(t.pats) > 0 {
		for _, p := range t.pats[0] {
			funKeys(p, keys)
		}
	} else {
		funKeys(t, keys)
	}
	return &Axiom{name: cl.label, t: t, keys: sortedKeys(keys), src: cl.line}
}

func funKeys(t *Term, m map[string]bool) {
	if t.op == "app" && !(strings.HasPrefix(t.name, "str.") && strFuns[t.name] != nil) {
		m[t.name] = true
	}
	for _, a := range t.args {
		funKeys(a, m)
	}
}

func (en *Engine) newExec(c *Contract, name string) *Exec {
	return &Exec{eng: en, cur: c, curName: name, inlined: map[string]bool{}, used: map[string]bool{}, trusted: map[string]bool{}, loopUsed: map[*LoopSpec]bool{}, loopAssign: map[interface{}]*LoopSpec{}, entryEnv: map[string]SV{}, covers: map[string]bool{}, prop: curProp}
}

var curProp string

// relevant: does a clause with these tags count for the property being checked
func (x *Exec) relevant(tags []string) bool {
	if len(tags) == 0 || x.prop == "" {
		return true
	}
	for _, t := range tags {
		if t == x.prop {
			return true
		}
	}
	return false
}

type FnResult struct {
	name    string
	obs     []*Oblig
	used    map[string]bool
	inlined map[string]bool
	trusted map[string]bool
	returns int
	steps   int
	pos     string
}

// verify generates the obligations of one function
func (en *Engine) verify(c *Contract) (r *FnResult) {
	fn := en.byName[c.name]
	x := en.newExec(c, c.name)
	r = &FnResult{name: c.name, used: x.used, inlined: x.inlined, trusted: x.trusted}
	done := func() {
		r.obs = x.obs
		r.steps = x.steps
	}
	if fn == nil && !exportedName(c.name) {
		// a helper that is gone: its callers are verified with whatever replaced it
		x.note("the internal function " + c.name + " is not in the current tree")
		done()
		return r
	}
	if fn == nil {
		x.fail(newState(), "exists", "the function under contract exists", nil, fmt.Sprintf("%s:%d", c.file, c.line), "no function "+c.name+" in the current tree")
		done()
		return r
	}
	r.pos = x.pos(fn.Pos())
	if fn.Name() == "init" && fn.Parent() == nil && fn.Pkg != nil {
		initPkg = fn.Pkg.Pkg.Path()
		defer func() { initPkg = "" }()
	}
	defer func() {
		if e := recover(); e != nil {
			switch e := e.(type) {
			case unsupportedErr:
				x.dry, x.quiet = 0, 0
				x.fail(newState(), "unsupported", "the function is within the verifier's reach", nil, r.pos, e.Error())
			case specErr:
				x.dry, x.quiet = 0, 0
				x.fail(newState(), "contract", "the contract can be evaluated on the current code", nil, r.pos, e.Error())
			default:
				panic(e)
			}
			done()
		}
	}()
	st := newState()
	x.rootFn = fn
	var args []Val
	var tys []types.Type
	for i, p := range fn.Params {
		t := sym0(fmt.Sprintf("p_%s", p.Name()), sortOf(p.Type()))
		if p.Name() == "_" || p.Name() == "" {
			t = sym0(fmt.Sprintf("p_%d", i), sortOf(p.Type()))
		}
		st.wf(t, p.Type())
		args = append(args, t)
		tys = append(tys, p.Type())
	}
	if len(fn.Params) > 0 && fn.Signature.Recv() != nil {
		if _, ok := fn.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
			st.assume(Ne(args[0].(*Term), Int(0)))
		}
	}
	x.entryEnv = x.bindParams(c, args, tys, st)
	env := &Env{vars: x.entryEnv, st: st, old: st, x: x}
	for _, l := range c.lets {
		x.entryEnv[l.name] = env.eval(l.e)
	}
	for _, q := range c.requires {
		st.assume(env.bool(q.e))
	}
	x.entry = st.clone()
	env.st, env.old = x.entry, x.entry
	targets := x.modTargets(c, env)
	x.targets, x.framed = targets, !c.modAll
	if !c.nocover && st.pc != nil {
		x.obs = append(x.obs, &Oblig{fn: c.name, label: "the preconditions are satisfiable", facts: st.facts(), goal: False, kind: "cover", pos: r.pos})
	}
	var binds []Val
	outs := x.callFn(fn, args, binds, st, nil)
	var pcond *Term
	if len(c.panics) > 0 {
		pcond = False
		for _, p := range c.panics {
			pcond = Or(pcond, env.bool(p.e))
		}
	}
	var retFacts [][]*Term
	for _, o := range outs {
		s := o.st
		if s.dead {
			continue
		}
		e := &Env{vars: map[string]SV{}, st: s, old: x.entry, x: x}
		for k, v := range x.entryEnv {
			e.vars[k] = v
		}
		if o.panic {
			if c.mayPanic {
				for _, q := range c.onpanic {
					if x.relevant(q.tags) {
						x.oblige(s, "onpanic", "when it panics: "+q.label, q.tags, e.bool(q.e), r.pos)
					}
				}
				if !c.modAll {
					x.frame(s, targets, r.pos)
				}
				continue
			}
			if pcond == nil {
				x.oblige(s, "safety", "no panic", nil, False, r.pos)
				continue
			}
			x.oblige(s, "panics", "panics only if: "+c.panics[0].label, c.panics[0].tags, pcond, r.pos)
			for _, q := range c.onpanic {
				if x.relevant(q.tags) {
					x.oblige(s, "onpanic", "when it panics: "+q.label, q.tags, e.bool(q.e), r.pos)
				}
			}
			continue
		}
		r.returns++
		retFacts = append(retFacts, s.facts())
		if pcond != nil {
			x.oblige(s, "panics", "panics whenever: "+c.panics[0].label, c.panics[0].tags, Not(pcond), r.pos)
		}
		for i, n := range c.results {
			if i < len(o.res) {
				e.vars[n] = SV{x.term(s, o.res[i]), fn.Signature.Results().At(i).Type()}
			}
		}
		for _, q := range c.ensures {
			if x.relevant(q.tags) {
				// every clause on its own
				s2 := s.clone()
				e2 := *e
				e2.st = s2
				x.oblige(s2, "ensures", q.label, q.tags, e2.bool(q.e), r.pos)
			}
		}
		if !c.modAll {
			x.frame(s, targets, r.pos)
		}
	}
	if !c.nocover && !c.noReturn {
		if len(retFacts) == 0 && len(c.panics) == 0 {
			x.fail(newState(), "cover", "some path returns", nil, r.pos, "no path of the function returns")
		} else if len(retFacts) > 0 {
			x.obs = append(x.obs, &Oblig{fn: c.name, label: "some path returns", kind: "coverany", pos: r.pos, alts: retFacts, goal: False})
		}
	}
	for _, l := range c.loops {
		if x.loopUsed[l] {
			continue
		}
		for _, q := range append(append(append([]Clause{}, l.step...), l.leave...), l.done...) {
			if x.relevant(q.tags) {
				x.fail(newState(), "invariant", q.label+" (step)", q.tags, r.pos, "the iteration this contract speaks about was not found")
			}
		}
		if len(l.inv) > 0 && len(x.loopUsed) == 0 { // others may be alternatives
			x.note(fmt.Sprintf("loop specification %s of %s matched no loop", l.line, c.name))
		}
	}
	done()
	return r
}

func (x *Exec) note(s string) { x.trusted["note: "+s] = true }

// frame: nothing outside the modifies clauses is changed
func (x *Exec) frame(st *State, targets []modTarget, pos string) {
	var comps []string
	for c := range st.heap {
		comps = append(comps, c)
	}
	sort.Strings(comps)
	for _, c := range comps {
		if strings.HasPrefix(c, "V:") || strings.HasPrefix(c, "R:") {
			continue
		}
		x.frameOf(st, c, targets, pos, "nothing else changes: ")
	}
}

// framed gives what the modifies clauses allow to change in a component:
// everything (under a condition) and single cells (under conditions)
func framed(targets []modTarget, c string) (whole *Term, refs []*Term, conds map[*Term]*Term) {
	whole = False
	conds = map[*Term]*Term{}
	for _, t := range targets {
		if t.comp == c {
			cd := t.cond
			if cd == nil {
				cd = True
			}
			if t.ref == nil {
				whole = Or(whole, cd)
			} else {
				refs = append(refs, t.ref)
				if o := conds[t.ref]; o != nil {
					cd = Or(cd, o)
				}
				conds[t.ref] = cd
			}
		}
	}
	return
}

func (x *Exec) frameOf(st *State, c string, targets []modTarget, pos, label string) {
	nw, old := st.get(c), x.entry.get(c)
	if nw == old {
		return
	}
	whole, refs, conds := framed(targets, c)
	if whole == True {
		return
	}
	s := st.clone()
	s.assume(Not(whole))
	if !refIndexed(c) {
		x.oblige(s, "frame", label+x.eng.short(c), nil, Eq(nw, old), pos)
		return
	}
	r := Fresh("r", "Int")
	delete(newRefs, r.id)
	s.assume(Lt(Int(0), r))
	s.assume(Le(r, sym0("A0", "Int")))
	for _, t := range refs {
		s.assume(Implies(conds[t], Ne(r, t)))
	}
	// selections from fresh objects
	v := nw
	for v.op == "store" {
		if _, ok := newRefs[v.args[1].id]; ok {
			v = v.args[0]
			continue
		}
		hit := false
		for _, t := range refs {
			if t == v.args[1] && conds[t] == True {
				hit = true
			}
		}
		if !hit {
			break
		}
		v = v.args[0]
	}
	if v == old {
		return
	}
	x.oblige(s, "frame", label+x.eng.short(c), nil, Eq(Select(v, r), Select(old, r)), pos)
}

// frameAt is the frame of a single cell as a fact about a state
func (x *Exec) frameAt(st *State, c string, r *Term, targets []modTarget) *Term {
	nw, old := st.get(c), x.entry.get(c)
	whole, refs, conds := framed(targets, c)
	if _, fresh := newRefs[r.id]; fresh || whole == True || nw == old {
		return True
	}
	pre := []*Term{Not(whole), Lt(Int(0), r), Le(r, sym0("A0", "Int"))}
	for _, t := range refs {
		pre = append(pre, Implies(conds[t], Ne(r, t)))
	}
	return Implies(And(pre...), Eq(Select(nw, r), Select(old, r)))
}

// frameFact is the frame of a component as a fact about a state
func (x *Exec) frameFact(st *State, c string, targets []modTarget) *Term {
	nw, old := st.get(c), x.entry.get(c)
	whole, refs, conds := framed(targets, c)
	if whole == True || nw == old {
		return True
	}
	r := BVar("r", "Int")
	pre := []*Term{Not(whole), Lt(Int(0), r), Le(r, sym0("A0", "Int"))}
	for _, t := range refs {
		pre = append(pre, Implies(conds[t], Ne(r, t)))
	}
	return Forall([]*Term{r}, Implies(And(pre...), Eq(Select(nw, r), Select(old, r))), []*Term{Select(nw, r)})
}

func exportedName(n string) bool {
	i := strings.LastIndex(n, ".")
	return token.IsExported(n[i+1:])
}
