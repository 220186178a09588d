package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func (en *Engine) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	if l, ok := en.loops[fn]; ok {
		return l
	}
	r := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := r[h]
			if l == nil {
				l = &Loop{h, map[*ssa.BasicBlock]bool{h: true}}
				r[h] = l
			}
			var add func(n *ssa.BasicBlock)
			add = func(n *ssa.BasicBlock) {
				if l.blocks[n] {
					return
				}
				l.blocks[n] = true
				for _, p := range n.Preds {
					add(p)
				}
			}
			add(b)
		}
	}
	en.loops[fn] = r
	return r
}

const maxUnroll = 70

// enterLoop handles the arrival at a loop header from outside the loop
func (x *Exec) enterLoop(fr *Frame, lp *Loop, b, prev *ssa.BasicBlock, st *State) []Outcome {
	if fr.unroll[b] < maxUnroll && x.concrete(fr, b, prev, st) {
		fr.unroll[b]++
		x.phis(fr, b, prev, st)
		return x.instrs(fr, b, x.firstNonPhi(b), st)
	}
	fr.unroll[b] = 0
	// entry values
	x.phis(fr, b, prev, st)
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	init := map[*ssa.Phi]*Term{}
	for _, p := range phis {
		init[p] = x.term(st, fr.env[p])
	}
	c := &cut{
		x: x, fr: fr, kind: "loop", key: b, pos: x.loopPos(b),
	}
	seq := rangedSlice(b) // the loop goes over a slice
	var iter *MapIter     // the loop goes over a map
	for _, in := range b.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			iter, _ = fr.env[nx.Iter].(*MapIter)
		}
	}
	c.lookup = func(fr *Frame, st *State, name string) (SV, bool) {
		if name == "$map" && iter != nil {
			return SV{iter.ref, iter.mt}, true
		}
		if name == "$seq" && seq != nil {
			if v, ok := fr.env[seq]; ok {
				return SV{x.term(st, v), seq.Type()}, true
			}
		}
		return x.lookupVar(fr, st, name, b)
	}
	if iter != nil {
		c.dyn = map[string]func(st *State) SV{
			"$visited": func(st *State) SV { return SV{st.get(iter.visited), nil} },
		}
	}
	c.byType = func(fr *Frame, st *State, ty types.Type) (SV, bool) {
		var r []SV
		for _, p := range phis {
			if types.Identical(p.Type(), ty) {
				r = append(r, SV{x.term(st, fr.env[p]), p.Type()})
			}
		}
		if len(r) == 1 {
			return r[0], true
		}
		return SV{}, false
	}
	c.havocVals = func(fr *Frame, st *State, n *Term) {
		for _, p := range phis {
			nm := p.Comment
			if nm == "" {
				nm = p.Name()
			}
			v := Fresh(nm, sortOf(p.Type()))
			st.wf(v, p.Type())
			// unchanged on every back edge
			same := true
			for i, e := range p.Edges {
				if lp.blocks[b.Preds[i]] && e != p {
					same = false
				}
			}
			if same {
				v = init[p]
			}
			if v.sort == "Int" && !same {
				if k, ok := constStep(p, lp, b); ok {
					v = Add(init[p], Mul(Int(k), n))
				}
			}
			fr.env[p] = v
		}
	}
	c.body = func(fr *Frame, st *State, back func(fr *Frame, st *State), dry bool) []Outcome {
		act := &loopActive{loop: lp}
		act.back = func(fr *Frame, st *State, from *ssa.BasicBlock) {
			x.phis(fr, b, from, st)
			back(fr, st)
		}
		if dry {
			act.dry = lp
		}
		fr.active[b] = act
		x.earlierDefers(fr, lp)
		return x.instrs(fr, b, x.firstNonPhi(b), st)
	}
	return c.run(st)
}

// earlierDefers are the deferred calls that earlier iterations have left
// behind: any number of them, on whatever they were deferred for. Only calls
// whose whole effect is on the world of their interface can be accounted for.
func (x *Exec) earlierDefers(fr *Frame, lp *Loop) {
	for _, b := range fr.fn.Blocks {
		if !lp.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			d, ok := in.(*ssa.Defer)
			if !ok {
				continue
			}
			cc := d.Common()
			pos := x.pos(d.Pos())
			if !cc.IsInvoke() {
				panic(unsupported("deferred call in the loop at %s", pos))
			}
			key := typeKey(cc.Value.Type())
			w, ok := x.eng.specs.opaque[key]
			if !ok || len(x.eng.specs.dispatch[key]) > 0 || x.eng.contractByName("("+key+")."+cc.Method.Name()) != nil {
				panic(unsupported("deferred call of (%s).%s in the loop at %s", key, cc.Method.Name(), pos))
			}
			for _, te := range x.eng.specs.dispatch["implied "+key] {
				if t, _ := x.eng.resolveType(te); t != nil && strings.HasPrefix(typeKey(derefT(t)), fr.fn.Pkg.Pkg.Name()+".") {
					panic(unsupported("deferred call of (%s).%s in the loop at %s", key, cc.Method.Name(), pos))
				}
			}
			fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], deferred{run: func(st *State, fr *Frame) []Outcome {
				if w != "" {
					c := "W:" + w
					compSort[c] = "World"
					st.set(c, Fresh("deferred", "World"))
					st.bumpAlloc()
				}
				return []Outcome{{st: st}}
			}})
		}
	}
}

// rangedSlice is the slice whose length bounds the loop
func rangedSlice(b *ssa.BasicBlock) ssa.Value {
	if len(b.Instrs) == 0 {
		return nil
	}
	i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	c, ok := i.Cond.(*ssa.BinOp)
	if !ok || c.Op != token.LSS {
		return nil
	}
	l, ok := c.Y.(*ssa.Call)
	if !ok {
		return nil
	}
	if bi, ok := l.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
		return nil
	}
	if _, ok := l.Call.Args[0].Type().Underlying().(*types.Slice); !ok {
		return nil
	}
	return l.Call.Args[0]
}

// constStep recognises i = i + k on every back edge
func constStep(p *ssa.Phi, lp *Loop, b *ssa.BasicBlock) (int64, bool) {
	var k int64
	seen := false
	for i, e := range p.Edges {
		if !lp.blocks[b.Preds[i]] {
			continue
		}
		op, ok := e.(*ssa.BinOp)
		if !ok || op.Op != token.ADD && op.Op != token.SUB {
			return 0, false
		}
		c, ok := op.Y.(*ssa.Const)
		if !ok || op.X != p || c.Value == nil {
			return 0, false
		}
		v := c.Int64()
		if op.Op == token.SUB {
			v = -v
		}
		if seen && v != k {
			return 0, false
		}
		k, seen = v, true
	}
	return k, seen
}

func (x *Exec) loopPos(b *ssa.BasicBlock) string {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return x.pos(in.Pos())
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return x.pos(in.Pos())
			}
		}
	}
	return x.pos(b.Parent().Pos())
}

// concrete: the exit condition of the header is a literal now
func (x *Exec) concrete(fr *Frame, b, prev *ssa.BasicBlock, st *State) (ok bool) {
	f := fr.clone()
	s := st.clone()
	defer func() {
		if r := recover(); r != nil {
			if _, isU := r.(error); isU {
				ok = false
				return
			}
			panic(r)
		}
	}()
	x.dry++
	defer func() { x.dry-- }()
	x.phis(f, b, prev, s)
	for _, in := range b.Instrs[x.firstNonPhi(b):] {
		switch in := in.(type) {
		case *ssa.DebugRef:
		case *ssa.If:
			c := x.tv(f, s, in.Cond)
			return isLit(c)
		case *ssa.BinOp, *ssa.UnOp, *ssa.Field, *ssa.FieldAddr:
			_, forked := x.eval(f, s, in.(ssa.Value))
			if forked {
				return false
			}
		default:
			return false
		}
	}
	return false
}

// lookupVar finds the current value of a source variable
func (x *Exec) lookupVar(fr *Frame, st *State, name string, header *ssa.BasicBlock) (SV, bool) {
	for f := fr; f != nil; f = f.parent {
		if f == fr && header != nil {
			for _, in := range header.Instrs {
				if p, ok := in.(*ssa.Phi); ok && p.Comment == name {
					if v, ok := f.env[p]; ok {
						return SV{x.term(st, v), p.Type()}, true
					}
				}
			}
		}
		if v, ok := x.frameVar(f, st, name); ok {
			return v, true
		}
	}
	return SV{}, false
}

func (x *Exec) frameVar(f *Frame, st *State, name string) (SV, bool) {
	load := func(v ssa.Value) (SV, bool) {
		et := derefT(v.Type())
		p := f.env[v]
		if p == nil {
			return SV{}, false
		}
		s := st.clone()
		return SV{s.load(p, et), et}, true
	}
	var best ssa.Value
	for v := range f.env {
		if a, ok := v.(*ssa.Alloc); ok && a.Comment == name {
			if best == nil || a.Pos() > best.Pos() {
				best = v
			}
		}
	}
	if best != nil {
		return load(best)
	}
	for _, fv := range f.fn.FreeVars {
		if fv.Name() == name {
			return load(fv)
		}
	}
	if v, ok := f.names[name]; ok {
		if t, ok := f.env[v]; ok {
			if _, isT := t.(Tuple); !isT {
				return SV{x.term(st, t), v.Type()}, true
			}
		}
	}
	// a phi of another block
	var phi *ssa.Phi
	for v := range f.env {
		if p, ok := v.(*ssa.Phi); ok && p.Comment == name {
			if phi == nil || p.Block().Index > phi.Block().Index {
				phi = p
			}
		}
	}
	if phi != nil {
		return SV{x.term(st, f.env[phi]), phi.Type()}, true
	}
	for _, p := range f.fn.Params {
		if p.Name() == name {
			return SV{x.term(st, f.env[p]), p.Type()}, true
		}
	}
	return SV{}, false
}

// capturedOf finds the variable of a type that closures of the function share,
// if there is only one no bound name stands for
func (c *cut) capturedOf(fr *Frame, st *State, ty types.Type) (SV, bool) {
	claimed := map[string]bool{}
	if c.spec != nil {
		for _, b := range c.spec.binds {
			claimed[b.name] = true
		}
	}
	for f := fr; f != nil; f = f.parent {
		shared := map[ssa.Value]bool{}
		for _, b := range f.fn.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					for _, v := range mc.Bindings {
						shared[v] = true
					}
				}
			}
		}
		params := map[string]bool{}
		for _, p := range f.fn.Params {
			params[p.Name()] = true
		}
		var r []*ssa.Alloc
		for v := range f.env {
			a, ok := v.(*ssa.Alloc)
			if ok && shared[v] && !claimed[a.Comment] && !params[a.Comment] && types.Identical(derefT(a.Type()), ty) {
				r = append(r, a)
			}
		}
		if len(r) == 1 {
			s := st.clone()
			return SV{s.load(f.env[r[0]], ty), ty}, true
		}
		if len(r) > 1 {
			break
		}
	}
	return SV{}, false
}

// cut replaces a loop by its invariants
type cut struct {
	start  *Env
	x      *Exec
	fr     *Frame
	kind   string
	key    interface{}
	pos    string
	spec   *LoopSpec
	head   *State // start of the arbitrary iteration
	headFr *Frame
	n      *Term
	gh     map[string]SV

	vars      map[string]SV // extra names ($start ...)
	dyn       map[string]func(st *State) SV
	lookup    func(fr *Frame, st *State, name string) (SV, bool)
	byType    func(fr *Frame, st *State, ty types.Type) (SV, bool)
	havocVals func(fr *Frame, st *State, n *Term)
	body      func(fr *Frame, st *State, back func(fr *Frame, st *State), dry bool) []Outcome
}

func (c *cut) env(fr *Frame, st, old *State, n *Term, extra map[string]SV) *Env {
	x := c.x
	e := &Env{vars: map[string]SV{}, st: st, old: old, x: x}
	for k, v := range x.entryEnv {
		e.vars[k] = v
	}
	for k, v := range c.vars {
		e.vars[k] = v
	}
	for k, f := range c.dyn {
		e.vars[k] = f(st)
	}
	for k, v := range extra {
		e.vars[k] = v
	}
	e.vars["$n"] = SV{n, tInt}
	if c.spec != nil {
		for _, b := range c.spec.binds {
			delete(e.vars, b.name)
		}
	}
	e.lazy = func(name string) (SV, bool) {
		if v, ok := c.lookup(fr, st, name); ok {
			return v, true
		}
		if c.spec != nil {
			for _, b := range c.spec.binds {
				if b.name == name {
					ty, _ := x.eng.resolveType(b.ty)
					if ty != nil && c.byType != nil {
						return c.byType(fr, st, ty)
					}
				}
			}
		}
		return SV{}, false
	}
	e.start = c.start
	return e
}

func (c *cut) pickSpec(fr *Frame, st *State) *LoopSpec {
	x := c.x
	if x.cur == nil {
		return nil
	}
	if s, ok := x.loopAssign[c.key]; ok {
		return s
	}
	taken := map[*LoopSpec]bool{}
	for _, s := range x.loopAssign {
		taken[s] = true
	}
	for _, s := range x.cur.loops {
		if s.kind != c.kind || taken[s] {
			continue
		}
		c.spec = s
		ok := true
		e := c.env(fr, st, st, Int(0), nil)
		for _, b := range s.binds {
			v, found := e.lazy(b.name)
			if !found {
				ok = false
				break
			}
			ty, so := x.eng.resolveType(b.ty)
			if v.t.sort != so {
				ok = false
				break
			}
			if ty != nil && v.ty != nil && !types.Identical(types.Unalias(v.ty), types.Unalias(ty)) && !types.Identical(v.ty.Underlying(), ty.Underlying()) {
				ok = false
				break
			}
		}
		c.spec = nil
		if ok {
			x.loopAssign[c.key] = s
			return s
		}
	}
	x.loopAssign[c.key] = nil
	return nil
}

var debugLoops = os.Getenv("DEBUG_LOOPS") != ""

func (c *cut) run(st *State) []Outcome {
	x := c.x
	fr := c.fr
	if c.spec == nil {
		c.spec = c.pickSpec(fr, st)
	}
	if debugLoops && x.dry == 0 {
		fmt.Fprintf(os.Stderr, "loop %s at %s: spec %v\n", c.kind, c.pos, c.spec != nil)
	}
	spec := c.spec
	ghosts := map[string]SV{}
	start := st.clone()
	c.start = c.env(fr.clone(), start, x.entry, Int(0), nil)
	if spec != nil {
		x.loopUsed[spec] = true
		for _, g := range spec.ghosts {
			e := c.env(fr, st, x.entry, Int(0), ghosts)
			ghosts[g.name] = e.eval(g.e)
		}
		e := c.env(fr, st, x.entry, Int(0), ghosts)
		e.vars["$entry"] = SV{}
		for _, d := range spec.defs {
			if x.relevant(d.tags) {
				st.assume(e.bool(d.e))
			}
		}
		for _, inv := range spec.inv {
			if x.relevant(inv.tags) {
				x.oblige(st, "invariant", inv.label+" (on entry)", inv.tags, e.bool(inv.e), c.pos)
			}
		}
	}
	if st.dead {
		return nil
	}
	stamp := nextStamp()
	// discover what the body changes
	mod := map[string]*modSet{}
	for iter := 0; ; iter++ {
		if iter > 12 {
			panic(unsupported("the write set of the loop at %s does not settle", c.pos))
		}
		changed := false
		s := st.clone()
		f := fr.clone()
		n := Fresh("n", "Int")
		s.assume(Le(Int(0), n))
		c.havocVals(f, s, n)
		c.havocHeap(s, mod)
		before := s.clone()
		x.dry++
		func() {
			defer func() { x.dry-- }()
			c.body(f, s, func(bf *Frame, bs *State) {
				for comp, v := range bs.heap {
					if strings.HasPrefix(comp, "R:") {
						continue
					}
					if _, ok := before.heap[comp]; !ok && strings.HasPrefix(comp, "V:") {
						continue
					}
					o := before.get(comp)
					if v == o {
						continue
					}
					m := mod[comp]
					if m == nil {
						m = &modSet{refs: map[int]*Term{}}
						mod[comp] = m
						changed = true
					}
					if m.all {
						continue
					}
					if !refIndexed(comp) || !m.collect(v, o, stamp, &changed) {
						m.all = true
						changed = true
					}
				}
			}, true)
		}()
		if !changed {
			break
		}
	}
	if debugLoops && x.dry == 0 {
		for _, k := range sortedKeys(mod) {
			fmt.Fprintf(os.Stderr, "   modifies %s all=%v refs=%d\n", k, mod[k].all, len(mod[k].refs))
		}
	}
	// what the function leaves alone, the loop leaves alone as well
	var kept []string
	if x.framed {
		for _, comp := range sortedKeys(mod) {
			if !refIndexed(comp) {
				continue
			}
			if mod[comp].all || len(mod[comp].refs) > 0 {
				kept = append(kept, comp)
				x.frameOf(st, comp, x.targets, c.pos, "nothing else changes before the loop: ")
			}
		}
	}
	// an arbitrary iteration
	n := Fresh("n", "Int")
	st.assume(Le(Int(0), n))
	st.bumpAlloc()
	c.havocVals(fr, st, n)
	c.havocHeap(st, mod)
	_ = start
	for _, comp := range kept {
		if mod[comp].all {
			st.assume(x.frameFact(st, comp, x.targets))
			continue
		}
		var ids []int
		for id := range mod[comp].refs {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			st.assume(x.frameAt(st, comp, mod[comp].refs[id], x.targets))
		}
	}
	if spec != nil {
		e := c.env(fr, st, x.entry, n, ghosts)
		for _, inv := range spec.inv {
			if x.relevant(inv.tags) {
				st.assume(e.bool(inv.e))
			}
		}
	}
	if st.dead {
		return nil
	}
	head := st.clone()
	headFr := fr.clone()
	c.head, c.headFr, c.n, c.gh = head, headFr, n, ghosts
	outs := c.body(fr, st, func(bf *Frame, bs *State) {
		if bs.dead {
			return
		}
		for _, comp := range kept {
			x.frameOf(bs, comp, x.targets, c.pos, "nothing else changes in the loop: ")
		}
		if spec == nil {
			return
		}
		n1 := Add(n, Int(1))
		e := c.env(bf, bs, x.entry, n1, ghosts)
		for _, s := range spec.step {
			if c.kind == "Walk" || c.kind == "Range" || c.kind == "Visit" {
				break // checked at the end of the callback
			}
			if x.relevant(s.tags) {
				es := c.env(bf, bs, head, n1, ghosts)
				es.oldLazy = c.env(headFr, head, head, n, ghosts).lazy
				x.oblige(bs, "invariant", s.label+" (step)", s.tags, es.bool(s.e), c.pos)
			}
		}
		for _, inv := range spec.inv {
			if x.relevant(inv.tags) {
				x.oblige(bs, "invariant", inv.label+" (preserved)", inv.tags, e.bool(inv.e), c.pos)
			}
		}
	}, false)
	if spec == nil || c.kind != "loop" {
		return outs
	}
	for _, o := range outs {
		if o.st == nil || o.st.dead || o.panic {
			continue
		}
		var how *leftNode
		for l := o.st.left; l != nil; l = l.up {
			if l.key == c.key {
				how = l
				break
			}
		}
		if how == nil {
			continue
		}
		cs := spec.leave
		if how.done {
			cs = spec.done
		}
		for _, s := range cs {
			if x.relevant(s.tags) {
				e := c.env(headFr, o.st, head, n, ghosts)
				for i, r := range o.res {
					if i < fr.fn.Signature.Results().Len() {
						e.vars[fmt.Sprintf("$ret%d", i)] = SV{x.term(o.st, r), fr.fn.Signature.Results().At(i).Type()}
					}
				}
				x.oblige(o.st, "invariant", s.label+" (on leaving)", s.tags, e.bool(s.e), c.pos)
			}
		}
	}
	return outs
}

type modSet struct {
	all  bool
	refs map[int]*Term
}

func refIndexed(comp string) bool {
	return strings.HasPrefix(comp, "F:") || strings.HasPrefix(comp, "C:") || strings.HasPrefix(comp, "A:") || comp == "AB" || strings.HasPrefix(comp, "M:")
}

func (m *modSet) collect(v, o *Term, stamp int, changed *bool) bool {
	bases := map[*Term]bool{o: true}
	for b := o; b.op == "store"; {
		b = b.args[0]
		bases[b] = true
	}
	for !bases[v] {
		switch v.op {
		case "store":
			r := v.args[1]
			if sa, ok := newRefs[r.id]; ok && sa >= stamp {
				v = v.args[0]
				continue
			}
			if r.stamp > stamp {
				if debugLoops {
					fmt.Fprintf(os.Stderr, "   collect: late ref %s\n", r)
				}
				return false
			}
			if m.refs[r.id] == nil {
				m.refs[r.id] = r
				*changed = true
			}
			v = v.args[0]
		case "ite":
			return m.collect(v.args[1], o, stamp, changed) && m.collect(v.args[2], o, stamp, changed)
		default:
			if debugLoops {
				fmt.Fprintf(os.Stderr, "   collect: %s\n      base %s\n", v, o)
			}
			return false
		}
	}
	// stores of o that v has overwritten
	for b := o; b != v; b = b.args[0] {
		if m.refs[b.args[1].id] == nil {
			return false
		}
	}
	return true
}

func (c *cut) havocHeap(st *State, mod map[string]*modSet) {
	for _, comp := range sortedKeys(mod) {
		m := mod[comp]
		cur := st.get(comp)
		if m.all {
			n := Fresh("h_"+comp, cur.sort)
			heapBound[n.id] = st.alloc
			st.set(comp, n)
			continue
		}
		_, vs := arrSorts(cur.sort)
		var ids []int
		for id := range m.refs {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			cur = Store(cur, m.refs[id], Fresh("hv", vs))
		}
		st.set(comp, cur)
	}
}
