package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type intrinsic = func(x *Exec, c *callCtx) []Outcome

var intrinsics map[string]intrinsic

func (c *callCtx) recvType() types.Type { return derefT(c.fn.Signature.Recv().Type()) }

// cell reads and writes the special value behind a pointer receiver
func (x *Exec) cellGet(c *callCtx, st *State) *Term {
	if t, ok := c.args[0].(*Term); ok {
		x.safety(st, "nil pointer dereference", Ne(t, Int(0)), c.pos)
	}
	return st.load(c.args[0], c.recvType())
}
func (x *Exec) cellSet(c *callCtx, st *State, v *Term) { st.store(c.args[0], c.recvType(), v) }

func init() {
	intrinsics = map[string]intrinsic{
		"(*sync.Once).Do":      onceDo,
		"(*sync.Map).Load":     syncLoad,
		"(*sync.Map).Store":    syncStore,
		"(*sync.Map).Delete":   syncDelete,
		"(*sync.Map).Range":    syncRange,
		"(*sync.RWMutex).Lock": lock(-1), "(*sync.RWMutex).Unlock": unlock(-1),
		"(*sync.RWMutex).RLock": lock(1), "(*sync.RWMutex).RUnlock": unlock(1),
		"(*sync.Mutex).Lock": lock(-1), "(*sync.Mutex).Unlock": unlock(-1),
		"errors.New":  newError,
		"fmt.Errorf":  newError,
		"fmt.Sprintf": sprintfCall, "fmt.Sprint": sprintCall,
		"fmt.Fprintf": fprintf, "fmt.Fprintln": fprintf, "fmt.Fprint": fprintf,
		"fmt.Println": printCall, "fmt.Printf": printCall, "fmt.Print": printCall,
		"io.WriteString":                 ioWriteString,
		"(*bytes.Buffer).Write":          bufWrite,
		"(*bytes.Buffer).WriteString":    bufWrite,
		"(*strings.Builder).Write":       bufWrite,
		"(*strings.Builder).WriteString": bufWrite,
		"(*bytes.Buffer).Bytes":          bufBytes,
		"(*bytes.Buffer).String":         bufString,
		"(*strings.Builder).String":      bufString,
		"(*bytes.Buffer).Len":            bufLen,
		"(*strings.Builder).Len":         bufLen,
		"(*bytes.Buffer).Reset":          bufReset,
		"(*strings.Builder).Reset":       bufReset,
		"bytes.NewReader":                newReader,
		"strings.NewReader":              newReader,
		"bytes.NewBuffer":                newBuffer,
		"bytes.NewBufferString":          newBuffer,
		"(*bytes.Reader).Read":           readerRead,
		"(*bytes.Reader).Seek":           readerSeek,
		"(*bytes.Reader).Len":            readerLen,
		"sort.Strings":                   sortStrings,
		"sort.Slice":                     sortSlice,
		"sort.SliceStable":               sortSlice,
		"time.Now":                       timeNow,
		"path/filepath.Walk":             fpWalk,
		"go/ast.Walk":                    astWalk,
		"go/ast.Inspect":                 astWalk,
		"strings.Join":                   stringsJoin,
	}
}

func onceDo(x *Exec, c *callCtx) []Outcome {
	d := x.cellGet(c, c.st)
	a, b := x.branch(c.st, d)
	var out []Outcome
	if a != nil {
		out = append(out, Outcome{st: a})
	}
	if b != nil {
		x.cellSet(c, b, True)
		fr := c.fr
		if a != nil {
			fr = fr.clone()
		}
		if ip, ok := c.args[0].(*Ptr); ok {
			x.onceStack = append(x.onceStack, ip)
			defer func() { x.onceStack = x.onceStack[:len(x.onceStack)-1] }()
		}
		for _, o := range x.callVal(fr, b, c.args[1], nil, c) {
			o.res = nil
			out = append(out, o)
		}
	}
	return out
}

// callVal calls a function value
func (x *Exec) callVal(fr *Frame, st *State, f Val, args []Val, c *callCtx) []Outcome {
	if t, ok := f.(*Term); ok {
		if cl, ok := clos[t.id]; ok {
			f = cl
		}
	}
	switch f := f.(type) {
	case *Clo:
		return x.dispatch(fr, st, f.fn, args, f.binds, c.pos, false)
	case *Term:
		x.safety(st, "call of a nil function", Ne(f, Int(0)), c.pos)
		// type of the parameter it was passed as
		var ft types.Type
		sig := c.fn.Signature
		for i, a := range c.args {
			if a == Val(f) {
				k := i
				if sig.Recv() != nil {
					k--
				}
				ft = sig.Params().At(k).Type()
			}
		}
		if ft == nil {
			panic(unsupported("unknown function value"))
		}
		return x.opaqueCall(st, "fn:"+tstr(ft), ft, append([]*Term{f}, x.lower(st, args)...), ft.Underlying().(*types.Signature))
	}
	panic(unsupported("call of %T", f))
}

// ---- sync.Map

func syncLoad(x *Exec, c *callCtx) []Outcome {
	m := x.cellGet(c, c.st)
	v := Select(m, x.term(c.st, c.args[1]))
	ok := c.st.known(Ne(v, absent))
	return ret(c.st, Ite(ok, v, nilAny), ok)
}
func syncStore(x *Exec, c *callCtx) []Outcome {
	m := x.cellGet(c, c.st)
	x.cellSet(c, c.st, Store(m, x.term(c.st, c.args[1]), x.term(c.st, c.args[2])))
	return ret(c.st)
}
func syncDelete(x *Exec, c *callCtx) []Outcome {
	m := x.cellGet(c, c.st)
	x.cellSet(c, c.st, Store(m, x.term(c.st, c.args[1]), absent))
	return ret(c.st)
}

func syncRange(x *Exec, c *callCtx) []Outcome {
	start := x.cellGet(c, c.st)
	any := types.NewInterfaceType(nil, nil)
	g := fmt.Sprintf("V:%d", nextStamp())
	compSort[g] = "(Array Any Bool)"
	c.st.set(g, ConstArr(compSort[g], False))
	mt := c.recvType()
	var curKey, curVal, cont *Term
	k := &cut{x: x, fr: c.fr, kind: "Range", key: fmt.Sprintf("Range@%d", c.pos), pos: x.pos(c.pos)}
	k.vars = map[string]SV{"$start": {start, nil}}
	k.dyn = map[string]func(st *State) SV{
		"$visited": func(st *State) SV { return SV{st.get(g), nil} },
		"$cur":     func(st *State) SV { return SV{st.clone().load(c.args[0], mt), nil} },
		"$key":     func(st *State) SV { return SV{curKey, any} },
		"$val":     func(st *State) SV { return SV{curVal, any} },
		"$cont":    func(st *State) SV { return SV{cont, tBool} },
	}
	nilKey := Fresh("nokey", "Any")
	curKey, curVal, cont = nilKey, nilKey, True
	k.lookup = func(fr *Frame, st *State, name string) (SV, bool) { return x.lookupVar(fr, st, name, nil) }
	k.byType = k.capturedOf
	k.havocVals = func(fr *Frame, st *State, n *Term) {}
	k.body = func(fr *Frame, st *State, back func(fr *Frame, st *State), dry bool) []Outcome {
		var out []Outcome
		cur := st.load(c.args[0], mt)
		vis := st.get(g)
		done := st.clone()
		b := BVar("k", "Any")
		ck := Select(cur, b)
		in := Ne(ck, absent)
		if cur != start {
			in = And(in, Eq(ck, Select(start, b)))
		}
		pats := [][]*Term{{Select(vis, b)}}
		if ck.op == "select" {
			pats = append(pats, []*Term{ck})
		}
		done.assume(Forall([]*Term{b}, Implies(in, Select(vis, b)), pats...))
		out = append(out, Outcome{st: done})
		key := Fresh("key", "Any")
		st.wf(key, any)
		st.assume(Not(Select(vis, key)))
		var v *Term
		if cur == start {
			v = Select(cur, key)
			st.assume(Ne(v, absent))
		} else {
			v = Fresh("val", "Any")
			st.assume(Ne(v, absent))
			st.assume(Implies(Eq(Select(cur, key), Select(start, key)), Eq(v, Select(cur, key))))
		}
		st.set(g, Store(vis, key, True))
		if st.dead || !x.feas(st) {
			return out
		}
		for _, o := range x.callVal(fr, st, c.args[1], []Val{key, v}, c) {
			if o.st == nil || o.st.dead {
				continue
			}
			if o.panic {
				out = append(out, o)
				continue
			}
			curKey, curVal, cont = key, v, x.term(o.st, o.res[0])
			if x.dry == 0 && k.spec != nil {
				k.visit(fr, o.st)
			}
			go1, stop := x.branch(o.st, x.term(o.st, o.res[0]))
			if go1 != nil {
				back(fr, go1)
			}
			if stop != nil {
				out = append(out, Outcome{st: stop})
			}
		}
		return out
	}
	return k.run(c.st)
}

// ---- locks: 0 free, -1 held for writing, n > 0 readers (as far as this
// thread of control goes)

func lock(how int64) intrinsic {
	return func(x *Exec, c *callCtx) []Outcome {
		v := x.cellGet(c, c.st)
		if how < 0 {
			x.safety(c.st, "lock taken twice", Eq(v, Int(0)), c.pos)
			x.cellSet(c, c.st, Int(-1))
		} else {
			x.safety(c.st, "read lock while holding the write lock", Le(Int(0), v), c.pos)
			x.cellSet(c, c.st, Add(v, Int(1)))
		}
		return ret(c.st)
	}
}
func unlock(how int64) intrinsic {
	return func(x *Exec, c *callCtx) []Outcome {
		v := x.cellGet(c, c.st)
		if how < 0 {
			x.safety(c.st, "unlock of a lock that is not held", Eq(v, Int(-1)), c.pos)
			x.cellSet(c, c.st, Int(0))
		} else {
			x.safety(c.st, "unlock of a read lock that is not held", Le(Int(1), v), c.pos)
			x.cellSet(c, c.st, Sub(v, Int(1)))
		}
		return ret(c.st)
	}
}

// ---- errors and formatting

func newError(x *Exec, c *callCtx) []Outcome {
	return ret(c.st, Ctor("opaque", "Any", Int(2), Fresh("err", "Int")))
}

func (x *Exec) varargs(st *State, v Val) ([]*Term, bool) {
	return x.sliceElems(st, x.term(st, v), types.NewInterfaceType(nil, nil))
}

func (x *Exec) formatted(st *State, f *Term, va Val) *Term {
	as, ok := x.varargs(st, va)
	if !ok {
		return Fresh("formatted", "String")
	}
	if f.op == "str" {
		if t := sprintf(f.name, as); t != nil {
			return t
		}
	}
	return App(fmt.Sprintf("fmt.Sprintf/%d", len(as)), "String", append([]*Term{f}, as...)...)
}

func (x *Exec) printed(st *State, va Val, ln bool) *Term {
	as, ok := x.varargs(st, va)
	if !ok {
		return Fresh("printed", "String")
	}
	var parts []*Term
	for i, a := range as {
		if i > 0 && ln {
			parts = append(parts, Str(" "))
		}
		parts = append(parts, fmtArg('v', x.snapshot(st, a)))
	}
	if ln {
		parts = append(parts, Str("\n"))
	}
	return Concat(parts...)
}

func sprintfCall(x *Exec, c *callCtx) []Outcome {
	return ret(c.st, x.formatted(c.st, x.term(c.st, c.args[0]), c.args[1]))
}
func sprintCall(x *Exec, c *callCtx) []Outcome {
	return ret(c.st, Fresh("sprint", "String"))
}

func fprintf(x *Exec, c *callCtx) []Outcome {
	var content *Term
	if c.fn.Name() == "Fprintf" {
		content = x.formatted(c.st, x.term(c.st, c.args[1]), c.args[2])
	} else {
		content = x.printed(c.st, c.args[1], c.fn.Name() == "Fprintln")
	}
	return x.writeTo(c, x.term(c.st, c.args[0]), content)
}

func ioWriteString(x *Exec, c *callCtx) []Outcome {
	return x.writeTo(c, x.term(c.st, c.args[0]), x.term(c.st, c.args[1]))
}

// writeTo calls w.Write once with the content
func (x *Exec) writeTo(c *callCtx, w, content *Term) []Outcome {
	wt := c.fn.Signature.Params().At(0).Type()
	m, _, _ := types.LookupFieldOrMethod(wt, false, nil, "Write")
	f := m.(*types.Func)
	sl := c.st.newBytes(content)
	p := &prepared{recv: w, method: f, itype: wt, args: []Val{sl}, argTys: []types.Type{types.NewSlice(types.Typ[types.Byte])}, sig: f.Type().(*types.Signature), pos: c.pos}
	return x.invoke(c.fr, c.st, p, c.pos, false)
}

func printCall(x *Exec, c *callCtx) []Outcome {
	var content *Term
	if c.fn.Name() == "Printf" {
		content = x.formatted(c.st, x.term(c.st, c.args[0]), c.args[1])
	} else {
		content = x.printed(c.st, c.args[0], c.fn.Name() == "Println")
	}
	compSort["W:stdout"] = "World"
	c.st.set("W:stdout", App("print.w", "World", content, c.st.get("W:stdout")))
	return ret(c.st, x.freshResults(c.st, c.fn.Signature, "print")...)
}

func stringsJoin(x *Exec, c *callCtx) []Outcome {
	es, ok := x.sliceElems(c.st, x.term(c.st, c.args[0]), types.Typ[types.String])
	if !ok {
		return x.pureCall(c.st, c.fn, c.args)
	}
	sep := x.term(c.st, c.args[1])
	var parts []*Term
	for i, e := range es {
		if i > 0 {
			parts = append(parts, sep)
		}
		parts = append(parts, e)
	}
	return ret(c.st, Concat(parts...))
}

// ---- buffers

func bufWrite(x *Exec, c *callCtx) []Outcome {
	b := x.cellGet(c, c.st)
	t := x.term(c.st, c.args[1])
	n := StrLen(t)
	if t.sort == "Slice" {
		n = sLen(t)
		t = c.st.bytesOf(t)
	}
	x.cellSet(c, c.st, Concat(b, t))
	return ret(c.st, n, nilAny)
}
func bufBytes(x *Exec, c *callCtx) []Outcome {
	return ret(c.st, c.st.newBytes(x.cellGet(c, c.st)))
}
func bufString(x *Exec, c *callCtx) []Outcome { return ret(c.st, x.cellGet(c, c.st)) }
func bufLen(x *Exec, c *callCtx) []Outcome    { return ret(c.st, StrLen(x.cellGet(c, c.st))) }
func bufReset(x *Exec, c *callCtx) []Outcome {
	x.cellSet(c, c.st, Str(""))
	return ret(c.st)
}

func contentOf(x *Exec, c *callCtx) *Term {
	t := x.term(c.st, c.args[0])
	if t.sort == "Slice" {
		return c.st.bytesOf(t)
	}
	return t
}

func newReader(x *Exec, c *callCtx) []Outcome {
	t := contentOf(x, c)
	rt := derefT(c.fn.Signature.Results().At(0).Type())
	if sortOf(rt) != "BReader" {
		panic(unsupported("%s", c.fn))
	}
	r := c.st.newRef("reader")
	c.st.storeObj(r, rt, Ctor("mkreader", "BReader", t, Int(0)))
	return ret(c.st, r)
}

func newBuffer(x *Exec, c *callCtx) []Outcome {
	t := contentOf(x, c)
	rt := derefT(c.fn.Signature.Results().At(0).Type())
	r := c.st.newRef("buffer")
	c.st.storeObj(r, rt, t)
	return ret(c.st, r)
}

func rdContent(r *Term) *Term { return Sel("mkreader", "String", 0, r) }
func rdPos(r *Term) *Term     { return Sel("mkreader", "Int", 1, r) }

// Read of a bytes.Reader: io.EOF at the end, otherwise as much as fits
func readerRead(x *Exec, c *callCtx) []Outcome {
	st := c.st
	r := x.cellGet(c, st)
	p := x.term(st, c.args[1])
	content, pos := rdContent(r), rdPos(r)
	a, b := x.branch(st, Le(StrLen(content), pos))
	var out []Outcome
	eof := sentinelTerm("G:io.EOF")
	if a != nil {
		out = append(out, ret(a, Int(0), eof)...)
	}
	if b != nil {
		left := Sub(StrLen(content), pos)
		n := Ite(Le(sLen(p), left), sLen(p), left)
		b.overwrite(p, Substr(content, pos, n), n)
		x.cellSet(c, b, Ctor("mkreader", "BReader", content, Add(pos, n)))
		out = append(out, ret(b, n, nilAny)...)
	}
	return out
}

// overwrite stores the n bytes of chunk at the start of the slice p
func (b *State) overwrite(p, chunk, n *Term) {
	comp := compElems(types.Typ[types.Byte])
	cur := b.get(comp)
	old := Select(cur, sRef(p))
	end := Add(sOff(p), n)
	nw := Concat(Substr(old, Int(0), sOff(p)), chunk, Substr(old, end, Sub(StrLen(old), end)))
	// consequences that save the solvers work
	b.assume(Eq(StrLen(nw), StrLen(old)))
	b.assume(Eq(Substr(nw, sOff(p), n), chunk))
	b.assume(Eq(Substr(Substr(nw, sOff(p), sLen(p)), Int(0), n), chunk))
	b.set(comp, Store(cur, sRef(p), nw))
}

func readerSeek(x *Exec, c *callCtx) []Outcome {
	st := c.st
	r := x.cellGet(c, st)
	off, wh := x.term(st, c.args[1]), x.term(st, c.args[2])
	abs := Ite(Eq(wh, Int(0)), off, Ite(Eq(wh, Int(1)), Add(rdPos(r), off), Add(StrLen(rdContent(r)), off)))
	ok := And(Or(Eq(wh, Int(0)), Eq(wh, Int(1)), Eq(wh, Int(2))), Le(Int(0), abs))
	a, b := x.branch(st, ok)
	var out []Outcome
	if a != nil {
		x.cellSet(c, a, Ctor("mkreader", "BReader", rdContent(r), abs))
		out = append(out, ret(a, abs, nilAny)...)
	}
	if b != nil {
		out = append(out, ret(b, Int(0), Ctor("opaque", "Any", Int(2), Fresh("err", "Int")))...)
	}
	return out
}

func readerLen(x *Exec, c *callCtx) []Outcome {
	r := x.cellGet(c, c.st)
	l := Sub(StrLen(rdContent(r)), rdPos(r))
	return ret(c.st, Ite(Le(Int(0), l), l, Int(0)))
}

func timeNow(x *Exec, c *callCtx) []Outcome {
	return ret(c.st, Fresh("now", sortOf(c.fn.Signature.Results().At(0).Type())))
}

// ---- sorting

func sortStrings(x *Exec, c *callCtx) []Outcome {
	s := x.term(c.st, c.args[0])
	x.sorted(c, s, types.Typ[types.String], func(a, b, pa, pb *Term) *Term {
		return App("str.<=", "Bool", pa, pb)
	})
	return ret(c.st)
}

func sortSlice(x *Exec, c *callCtx) []Outcome {
	v := x.term(c.st, c.args[0])
	if v.op != "ctor" {
		panic(unsupported("sort.Slice of an unknown value"))
	}
	st, ok := types.Unalias(boxTypes[v.name]).Underlying().(*types.Slice)
	if !ok {
		panic(unsupported("sort.Slice of %s", boxTypes[v.name]))
	}
	less := c.args[1]
	x.sorted(c, v.args[0], st.Elem(), func(i, j, _, _ *Term) *Term {
		return Or(x.pureBool(c, less, i, j), Not(x.pureBool(c, less, j, i)))
	})
	return ret(c.st)
}

// pureBool evaluates a closure of two indices as a term
func (x *Exec) pureBool(c *callCtx, f Val, i, j *Term) *Term {
	fi, fj := Fresh("i", "Int"), Fresh("j", "Int")
	s := c.st.clone()
	base := map[int]bool{}
	for _, t := range s.facts() {
		base[t.id] = true
	}
	x.dry++
	x.quiet++
	outs := x.callVal(c.fr.clone(), s, f, []Val{fi, fj}, c)
	x.dry--
	x.quiet--
	r := False
	for _, o := range outs {
		if o.panic || o.st.dead {
			continue
		}
		var ds []*Term
		if len(outs) > 1 {
			for _, t := range o.st.facts() {
				if !base[t.id] {
					ds = append(ds, t)
				}
			}
		}
		r = Or(r, And(append(ds, x.term(o.st, o.res[0]))...))
	}
	return subst(r, map[int]*Term{fi.id: i, fj.id: j})
}

// sorted replaces the elements by an ordered permutation of them
func (x *Exec) sorted(c *callCtx, s *Term, et types.Type, ord func(i, j, pi, pj *Term) *Term) {
	st := c.st
	comp := compElems(et)
	cur := st.get(comp)
	old := Select(cur, sRef(s))
	nw := Fresh("sorted", old.sort)
	st.set(comp, Store(cur, sRef(s), nw))
	l := sLen(s)
	o := sOff(s)
	id := nextStamp()
	pn, qn := fmt.Sprintf("perm!%d", id), fmt.Sprintf("inv!%d", id)
	perm := func(t *Term) *Term { return App(pn, "Int", t) }
	inv := func(t *Term) *Term { return App(qn, "Int", t) }
	i := BVar("i", "Int")
	in := func(t *Term) *Term { return And(Le(Int(0), t), Lt(t, l)) }
	ni := Select(nw, At(o, i))
	st.assume(Forall([]*Term{i}, Implies(in(i), And(in(perm(i)), Eq(inv(perm(i)), i), Eq(ni, Select(old, At(o, perm(i)))))), []*Term{ni}))
	oi := Select(old, At(o, i))
	body := Implies(in(i), And(in(inv(i)), Eq(perm(inv(i)), i), Eq(Select(nw, At(o, inv(i))), oi)))
	if oi.op == "select" && oi.args[0].op != "store" {
		st.assume(Forall([]*Term{i}, body, []*Term{oi}))
	}
	st.assume(Forall([]*Term{i}, body, []*Term{inv(i)}))
	j := BVar("j", "Int")
	nj := Select(nw, At(o, j))
	st.assume(Forall([]*Term{i, j}, Implies(And(Le(Int(0), i), Lt(i, j), Lt(j, l)), ord(i, j, ni, nj)), []*Term{ni, nj}))
}

// ---- filepath.Walk: the callback is called for an arbitrary sequence of
// entries below the root; what it returns decides how the walk goes on

func fpWalk(x *Exec, c *callCtx) []Outcome {
	root := x.term(c.st, c.args[0])
	sig := c.fn.Signature.Params().At(1).Type().Underlying().(*types.Signature)
	infoT := sig.Params().At(1).Type()
	k := &cut{x: x, fr: c.fr, kind: "Walk", key: fmt.Sprintf("Walk@%d", c.pos), pos: x.pos(c.pos)}
	k.vars = map[string]SV{"$root": {root, tString}}
	var p, info, er, rt *Term
	k.dyn = map[string]func(st *State) SV{
		"$path": func(st *State) SV { return SV{p, tString} },
		"$info": func(st *State) SV { return SV{info, infoT} },
		"$err":  func(st *State) SV { return SV{er, sig.Params().At(2).Type()} },
		"$ret":  func(st *State) SV { return SV{rt, sig.Params().At(2).Type()} },
	}
	k.lookup = func(fr *Frame, st *State, name string) (SV, bool) { return x.lookupVar(fr, st, name, nil) }
	k.byType = k.capturedOf
	k.havocVals = func(fr *Frame, st *State, n *Term) {}
	skip := sentinelTerm("G:io/fs.SkipDir")
	skipAll := sentinelTerm("G:io/fs.SkipAll")
	compSort["W:walk"] = "World"
	prev := c.st.get("W:walk")
	// what is remembered of a walk: its root, its result and the walks before
	finish := func(st *State, r *Term) []Outcome {
		w := Fresh("walked", "World")
		st.assume(Eq(App("Walked_root", "String", w), root))
		st.assume(Eq(App("Walked_err", "Any", w), r))
		st.assume(Eq(App("Walked_before", "World", w), prev))
		st.set("W:walk", w)
		return ret(st, r)
	}
	k.body = func(fr *Frame, st *State, back func(fr *Frame, st *State), dry bool) []Outcome {
		var out []Outcome
		done := st.clone()
		out = append(out, finish(done, nilAny)...)
		p = Fresh("wpath", "String")
		info = Fresh("winfo", "Any")
		er = Fresh("werr", "Any")
		st.wf(info, infoT)
		canon := func(t *Term) *Term { return App("canonical", "Bool", t) }
		st.assume(Implies(canon(root), And(canon(p), Or(Eq(p, root), App("str.prefixof", "Bool", Ite(Eq(root, Str("/")), root, Concat(root, Str("/"))), p)))))
		if tn, ok := x.eng.lookup("pkging", "FileInfo").(*types.TypeName); ok {
			st.assume(Not(IsBox(types.NewPointer(tn.Type()), info)))
		}
		st.wf(er, sig.Params().At(2).Type())
		st.assume(Implies(Eq(er, nilAny), And(Ne(info, nilAny), implTerm(infoT, info))))
		pp, pi, pe := p, info, er
		for _, o := range x.callVal(fr, st, c.args[1], []Val{p, info, er}, c) {
			if o.st == nil || o.st.dead {
				continue
			}
			if o.panic {
				out = append(out, o)
				continue
			}
			p, info, er = pp, pi, pe
			r := x.term(o.st, o.res[0])
			rt = r
			// the contract of one visit holds whatever the callback returns
			if x.dry == 0 && k.spec != nil {
				k.visit(fr, o.st)
			}
			cont, stop := x.branch(o.st, Or(Eq(r, nilAny), Eq(r, skip)))
			if cont != nil {
				back(fr, cont)
			}
			if stop != nil {
				all, other := x.branch(stop, Eq(r, skipAll))
				if all != nil {
					out = append(out, finish(all, nilAny)...)
				}
				if other != nil {
					out = append(out, finish(other, r)...)
				}
			}
		}
		return out
	}
	return k.run(c.st)
}

// astWalk: the visitor is called with nodes of the tree (and nil after their
// children); what is below a node is visited by the visitor that is returned,
// nothing of it if that is nil. $ret tells whether the traversal goes on as it
// is, below the node, too.
func astWalk(x *Exec, c *callCtx) []Outcome {
	inspect := c.fn.Name() == "Inspect"
	vi, ni := 0, 1
	if inspect {
		vi, ni = 1, 0
	}
	nodeT := c.fn.Signature.Params().At(ni).Type()
	root := x.term(c.st, c.args[ni])
	k := &cut{x: x, fr: c.fr, kind: "Visit", key: fmt.Sprintf("Visit@%d", c.pos), pos: x.pos(c.pos)}
	k.vars = map[string]SV{"$root": {root, nodeT}}
	var node, rt *Term
	k.dyn = map[string]func(st *State) SV{
		"$node": func(st *State) SV { return SV{node, nodeT} },
		"$ret":  func(st *State) SV { return SV{rt, tBool} },
	}
	k.lookup = func(fr *Frame, st *State, name string) (SV, bool) { return x.lookupVar(fr, st, name, nil) }
	k.byType = k.capturedOf
	k.havocVals = func(fr *Frame, st *State, n *Term) {}
	isNode := func(t *Term) *Term { return App("syntaxNode", "Bool", t) }
	x.safety(c.st, "traversal of no syntax tree", isNode(root), c.pos)
	k.body = func(fr *Frame, st *State, back func(fr *Frame, st *State), dry bool) []Outcome {
		var out []Outcome
		out = append(out, ret(st.clone())...)
		node = Fresh("node", "Any")
		st.wf(node, nodeT)
		st.assume(Or(Eq(node, nilAny), And(isNode(node), implTerm(nodeT, node))))
		nd := node
		var outs []Outcome
		var visitor *Term
		if inspect {
			outs = x.callVal(fr, st, c.args[vi], []Val{node}, c)
		} else {
			visitor = x.term(st, c.args[vi])
			vt := c.fn.Signature.Params().At(vi).Type()
			m := vt.Underlying().(*types.Interface)
			var meth *types.Func
			for i := 0; i < m.NumMethods(); i++ {
				if m.Method(i).Name() == "Visit" {
					meth = m.Method(i)
				}
			}
			outs = x.invoke(fr, st, &prepared{recv: visitor, method: meth, itype: vt, args: []Val{node}}, c.pos, false)
		}
		for _, o := range outs {
			if o.st == nil || o.st.dead {
				continue
			}
			if o.panic {
				out = append(out, o)
				continue
			}
			node = nd
			r := x.term(o.st, o.res[0])
			rt = r
			if !inspect {
				rt = Eq(r, visitor)
				s := o.st.clone()
				s.assume(Not(Or(rt, Eq(r, nilAny))))
				if !s.dead && x.feas(s) {
					panic(unsupported("a visitor that hands over to another one"))
				}
			}
			if x.dry == 0 && k.spec != nil {
				k.visit(fr, o.st)
			}
			back(fr, o.st)
		}
		return out
	}
	return k.run(c.st)
}

// visit checks the step clauses at the end of a callback
func (c *cut) visit(fr *Frame, st *State) {
	x := c.x
	for _, s := range c.spec.step {
		if x.relevant(s.tags) {
			e := c.env(fr, st, c.head, c.n, c.gh)
			e.oldLazy = c.env(c.headFr, c.head, c.head, c.n, c.gh).lazy
			x.oblige(st, "invariant", s.label+" (visit)", s.tags, e.bool(s.e), c.pos)
		}
	}
}

var _ ssa.Value
