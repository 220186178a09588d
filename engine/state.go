package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type Tuple []Val

// Ptr is an interior pointer
type Ptr struct {
	comp string
	ref  *Term // nil for globals
	idx  *Term // array element
	path []pathEl
	elem types.Type
}

type pathEl struct {
	sort string // struct sort the field is selected from
	i    int
}

type Clo struct {
	low   *Term // the value it is lowered to
	fn    *ssa.Function
	binds []Val
}

type MapIter struct {
	comp    string
	ref     *Term
	mt      types.Type
	visited string // component name of the ghost visited set
}

type StrIter struct{}

type pcNode struct {
	t   *Term
	up  *pcNode
	n   int
	set map[int]bool
}

type State struct {
	heap  map[string]*Term
	pc    *pcNode
	alloc *Term
	dead  bool
	marks []string // path description
	left  *leftNode
}

// leftNode records how a loop was left
type leftNode struct {
	key  interface{}
	done bool // by its condition
	up   *leftNode
}

var heapBound = map[int]*Term{}

func sym0(name, sort string) *Term {
	t := Sym(name, sort)
	t.stamp = 0
	return t
}

func newState() *State {
	st := &State{heap: map[string]*Term{}}
	st.alloc = sym0("A0", "Int")
	st.assume(Le(Int(1), st.alloc))
	return st
}

func (s *State) clone() *State {
	h := make(map[string]*Term, len(s.heap)+4)
	for k, v := range s.heap {
		h[k] = v
	}
	return &State{heap: h, pc: s.pc, alloc: s.alloc, dead: s.dead, marks: s.marks[:len(s.marks):len(s.marks)], left: s.left}
}

func (s *State) assume(t *Term) {
	if t == True {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	if s.has(t) {
		return
	}
	if t == False || s.has(Not(t)) {
		s.dead = true
	}
	n := 1
	if s.pc != nil {
		n = s.pc.n + 1
	}
	s.pc = &pcNode{t: t, up: s.pc, n: n}
}

func (s *State) has(t *Term) bool {
	for n := s.pc; n != nil; n = n.up {
		if n.t == t {
			return true
		}
	}
	return false
}

func (s *State) facts() []*Term {
	var r []*Term
	for n := s.pc; n != nil; n = n.up {
		r = append(r, n.t)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// known decides a condition from the path condition, syntactically
func (s *State) known(c *Term) *Term {
	if isLit(c) {
		return c
	}
	if s.has(c) {
		return True
	}
	if s.has(Not(c)) {
		return False
	}
	switch c.op {
	case "not":
		return Not(s.known(c.args[0]))
	case "and":
		var xs []*Term
		for _, a := range c.args {
			xs = append(xs, s.known(a))
		}
		return And(xs...)
	case "or":
		var xs []*Term
		for _, a := range c.args {
			xs = append(xs, s.known(a))
		}
		return Or(xs...)
	case "ite":
		return Ite(s.known(c.args[0]), s.known(c.args[1]), s.known(c.args[2]))
	case "is":
		// another constructor is known
		for n := s.pc; n != nil; n = n.up {
			if n.t.op == "is" && n.t.args[0] == c.args[0] && n.t.name != c.name {
				return False
			}
			if n.t.op == "=" {
				a, b := n.t.args[0], n.t.args[1]
				if a == c.args[0] && b.op == "ctor" {
					return Bool(b.name == c.name)
				}
				if b == c.args[0] && a.op == "ctor" {
					return Bool(a.name == c.name)
				}
			}
		}
	case "=":
		a, b := c.args[0], c.args[1]
		if b.op == "ctor" || b.op == "int" || b.op == "str" {
			a, b = b, a
		}
		if a.op == "ctor" {
			for n := s.pc; n != nil; n = n.up {
				if n.t.op == "is" && n.t.args[0] == b {
					if n.t.name != a.name {
						return False
					}
				}
				if n.t.op == "=" {
					x, y := n.t.args[0], n.t.args[1]
					if x == b && distinct(y, a) || y == b && distinct(x, a) {
						return False
					}
				}
			}
		}
		if a.op == "str" || a.op == "int" || a.op == "const" || b.op == "const" {
			for n := s.pc; n != nil; n = n.up {
				if n.t.op == "=" {
					x, y := n.t.args[0], n.t.args[1]
					if x == b && distinct(y, a) || y == b && distinct(x, a) || x == a && distinct(y, b) || y == a && distinct(x, b) {
						return False
					}
				}
			}
		}
	case "<", "<=":
		for n := s.pc; n != nil; n = n.up {
			f := n.t
			neg := false
			if f.op == "not" {
				f = f.args[0]
				neg = true
			}
			if f.op != "<" && f.op != "<=" {
				continue
			}
			// c: a<b ~ b-a >= 1 (or 0); f: d-c >= k
			l := Sub(c.args[1], c.args[0])
			var k int64
			if c.op == "<" {
				k = 1
			}
			fl := Sub(f.args[1], f.args[0])
			var fk int64
			if f.op == "<" {
				fk = 1
			}
			if neg { // d-c < fk  ~ c-d >= 1-fk
				fl = Neg(fl)
				fk = 1 - fk
			}
			if d := Sub(l, fl); d.op == "int" && d.i+fk >= k {
				return True
			}
			if d := Add(l, fl); d.op == "int" && d.i-fk < k {
				return False
			}
		}
	}
	return c
}

func (s *State) get(comp string) *Term {
	if t, ok := s.heap[comp]; ok {
		return t
	}
	so, ok := compSort[comp]
	if !ok {
		panic("unknown component " + comp)
	}
	if v, ok := globalInit[comp]; ok && !(initPkg != "" && strings.HasPrefix(comp, "G:"+initPkg+".")) {
		return v
	}
	t := sym0("H_"+comp, so)
	heapBound[t.id] = sym0("A0", "Int")
	return t
}

func (s *State) set(comp string, t *Term) {
	if so := compSort[comp]; so != t.sort {
		panic("component " + comp + ": sort " + t.sort + ", want " + so)
	}
	s.heap[comp] = t
}

// constant globals, computed from the package initialisers
var globalInit = map[string]*Term{}

// initPkg is the package whose initialiser is being verified: its globals have no values yet
var initPkg string

func (s *State) newRef(hint string) *Term {
	r := NewRef(hint)
	s.assume(Lt(s.alloc, r))
	s.alloc = r
	return r
}

// bumpAlloc lets an unknown number of objects be allocated
func (s *State) bumpAlloc() {
	a := Fresh("A", "Int")
	s.assume(Le(s.alloc, a))
	s.alloc = a
}

// wf returns the facts that hold for any value of a type in this state
func (s *State) wf(t *Term, ty types.Type) {
	ty = types.Unalias(ty)
	switch u := ty.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		s.wfRef(t)
	case *types.Signature:
	case *types.Slice:
		s.wfRef(sRef(t))
		if t.op != "ctor" {
			s.assume(Le(Int(0), sOff(t)))
			s.assume(Le(Int(0), sLen(t)))
			s.assume(Implies(Eq(sRef(t), Int(0)), Eq(sLen(t), Int(0))))
			if isByte(u.Elem()) {
				c := Select(s.get(compElems(u.Elem())), sRef(t))
				s.assume(Le(Add(sOff(t), sLen(t)), StrLen(c)))
			}
		}
	case *types.Interface:
		if t.op != "ctor" {
			s.assume(Ne(t, absent))
		}
	case *types.Basic:
		if u.Info()&types.IsUnsigned != 0 && t.op != "int" {
			s.assume(Le(Int(0), t))
		}
	}
}

func (s *State) wfRef(t *Term) {
	if t.op == "int" {
		return
	}
	if _, ok := newRefs[t.id]; ok {
		return
	}
	if t.op == "const" && strings.HasPrefix(t.name, "obj:") {
		s.assume(Lt(Int(0), t))
		s.assume(Le(t, sym0("A0", "Int")))
		return
	}
	s.assume(Le(Int(0), t))
	s.assume(Le(t, s.alloc))
	if h, ok := leafSelect(t); ok {
		if b := heapBound[h.args[0].id]; b != nil {
			s.assume(Implies(Le(h.args[1], b), Le(t, b)))
		}
	}
}

// leafSelect finds the select from a heap symbol below selectors
func leafSelect(t *Term) (*Term, bool) {
	for {
		switch t.op {
		case "sel":
			t = t.args[0]
			continue
		case "select":
			if t.args[0].op == "const" && t.args[1].sort == "Int" {
				return t, true
			}
			t = t.args[0]
			continue
		}
		return nil, false
	}
}

var iptrs = map[int]*Ptr{}

func (s *State) load(p Val, ty types.Type) *Term {
	switch p := p.(type) {
	case *Term:
		if ip, ok := iptrs[p.id]; ok {
			return s.load(ip, ty)
		}
		t := s.loadObj(p, ty)
		s.wf(t, ty)
		return t
	case *Ptr:
		v := s.get(p.comp)
		if p.ref != nil {
			v = Select(v, p.ref)
		}
		if p.idx != nil {
			if p.comp == "AB" {
				return App("str.to_code", "Int", App("str.at", "String", v, p.idx))
			}
			v = Select(v, p.idx)
		}
		for _, e := range p.path {
			v = Sel("mk"+e.sort, datatypes[e.sort].Ctors[0].Fields[e.i].Sort, e.i, v)
		}
		s.wf(v, ty)
		return v
	}
	panic(unsupported("load from %T", p))
}

func (s *State) loadObj(ref *Term, ty types.Type) *Term {
	ty = types.Unalias(ty)
	switch u := ty.Underlying().(type) {
	case *types.Struct:
		if !opaqueStruct(ty) {
			so := sortOf(ty)
			var as []*Term
			for i := 0; i < u.NumFields(); i++ {
				c, _ := compFieldSort(ty, i)
				as = append(as, Select(s.get(c), ref))
			}
			return Ctor("mk"+so, so, as...)
		}
	case *types.Array:
		return Select(s.get(compElems(u.Elem())), ref)
	}
	return Select(s.get(compCell(ty)), ref)
}

func (s *State) store(p Val, ty types.Type, v *Term) {
	switch p := p.(type) {
	case *Term:
		if ip, ok := iptrs[p.id]; ok {
			s.store(ip, ty, v)
			return
		}
		s.storeObj(p, ty, v)
		return
	case *Ptr:
		base := s.get(p.comp)
		var cur []*Term
		cur = append(cur, base)
		if p.ref != nil {
			cur = append(cur, Select(base, p.ref))
		}
		if p.idx != nil {
			if p.comp == "AB" {
				old := cur[len(cur)-1]
				nv := Concat(Substr(old, Int(0), p.idx), App("str.from_code", "String", v), Substr(old, Add(p.idx, Int(1)), Sub(StrLen(old), Add(p.idx, Int(1)))))
				s.set(p.comp, Store(base, p.ref, nv))
				return
			}
			cur = append(cur, Select(cur[len(cur)-1], p.idx))
		}
		nv := s.updPath(cur[len(cur)-1], p.path, v)
		if p.idx != nil {
			nv = Store(cur[len(cur)-2], p.idx, nv)
		}
		if p.ref != nil {
			nv = Store(base, p.ref, nv)
		}
		s.set(p.comp, nv)
		return
	}
	panic(unsupported("store to %T", p))
}

func (s *State) updPath(old *Term, path []pathEl, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	e := path[0]
	d := datatypes[e.sort].Ctors[0]
	as := make([]*Term, len(d.Fields))
	for i, f := range d.Fields {
		as[i] = Sel(d.Name, f.Sort, i, old)
	}
	as[e.i] = s.updPath(as[e.i], path[1:], v)
	return Ctor(d.Name, e.sort, as...)
}

func (s *State) storeObj(ref *Term, ty types.Type, v *Term) {
	ty = types.Unalias(ty)
	switch u := ty.Underlying().(type) {
	case *types.Struct:
		if !opaqueStruct(ty) {
			so := sortOf(ty)
			for i := 0; i < u.NumFields(); i++ {
				c, _ := compFieldSort(ty, i)
				f := datatypes[so].Ctors[0].Fields[i]
				s.set(c, Store(s.get(c), ref, Sel("mk"+so, f.Sort, i, v)))
			}
			return
		}
	case *types.Array:
		c := compElems(u.Elem())
		if c == "AB" {
			panic(unsupported("byte array store"))
		}
		s.set(c, Store(s.get(c), ref, v))
		return
	}
	c := compCell(ty)
	s.set(c, Store(s.get(c), ref, v))
}

// zeroInit initialises a fresh object
func (s *State) zeroInit(ref *Term, ty types.Type) {
	ty = types.Unalias(ty)
	if a, ok := ty.Underlying().(*types.Array); ok && isByte(a.Elem()) {
		z := strings.Repeat("\x00", int(a.Len()))
		c := compElems(a.Elem())
		s.set(c, Store(s.get(c), ref, Str(z)))
		return
	}
	s.storeObj(ref, ty, zeroOf(ty))
}

// bytesOf is the content of a []byte value
func (s *State) bytesOf(sl *Term) *Term {
	c := compElems(types.Typ[types.Byte])
	return Substr(Select(s.get(c), sRef(sl)), sOff(sl), sLen(sl))
}

// newBytes allocates a []byte
func (s *State) newBytes(content *Term) *Term {
	c := compElems(types.Typ[types.Byte])
	r := s.newRef("bytes")
	s.set(c, Store(s.get(c), r, content))
	return mkSlice(r, Int(0), StrLen(content))
}

// a field of a struct value
func fieldOf(v *Term, i int) *Term {
	d, ok := datatypes[v.sort]
	if !ok {
		panic(unsupported("field of %s", v.sort))
	}
	return Sel(d.Ctors[0].Name, d.Ctors[0].Fields[i].Sort, i, v)
}
