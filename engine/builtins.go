package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callCtx struct {
	fr   *Frame
	st   *State
	fn   *ssa.Function
	args []Val
	pos  token.Pos
}

func ret(st *State, vs ...Val) []Outcome { return []Outcome{{st: st, res: vs}} }

func (x *Exec) builtinCall(fr *Frame, st *State, p *prepared, pos token.Pos) []Outcome {
	switch p.builtin.Name() {
	case "len":
		v := p.args[0]
		t := x.term(st, v)
		switch u := types.Unalias(p.argTys[0]).Underlying().(type) {
		case *types.Basic:
			return ret(st, StrLen(t))
		case *types.Slice:
			return ret(st, sLen(t))
		case *types.Array:
			return ret(st, Int(u.Len()))
		case *types.Map:
			l := App("maplen_"+sane(tstr(u)), "Int", Select(st.get(compMap(p.argTys[0])), t))
			st.assume(Le(Int(0), l))
			return ret(st, Ite(Eq(t, Int(0)), Int(0), l))
		case *types.Pointer:
			if a, ok := u.Elem().Underlying().(*types.Array); ok {
				return ret(st, Int(a.Len()))
			}
		}
	case "cap":
		t := x.term(st, p.args[0])
		if t.sort == "Slice" {
			c := Fresh("cap", "Int")
			st.assume(Le(sLen(t), c))
			return ret(st, c)
		}
	case "append":
		return ret(st, x.append(st, p))
	case "copy":
		d, s := x.term(st, p.args[0]), x.term(st, p.args[1])
		et := types.Unalias(p.argTys[0]).Underlying().(*types.Slice).Elem()
		if isByte(et) {
			src := s
			if s.sort == "Slice" {
				src = st.bytesOf(s)
			}
			n := Ite(Le(sLen(d), StrLen(src)), sLen(d), StrLen(src))
			st.overwrite(d, Substr(src, Int(0), n), n)
			return ret(st, n)
		}
	case "delete":
		m, k := x.term(st, p.args[0]), x.term(st, p.args[1])
		a, b := x.branch(st, Eq(m, Int(0)))
		var out []Outcome
		if a != nil {
			out = append(out, Outcome{st: a})
		}
		if b != nil {
			c := compMap(p.argTys[0])
			cur := b.get(c)
			mt := types.Unalias(p.argTys[0]).Underlying().(*types.Map)
			b.set(c, Store(cur, m, Store(Select(cur, m), k, None(sortOf(mt.Elem())))))
			out = append(out, Outcome{st: b})
		}
		return out
	case "recover":
		d := fr.inDefer
		if d != nil && d.panicking != nil && *d.panicking && !st.recovered(d) {
			st.heap[recKey(d)] = True
			pv := d.pval
			st.assume(Ne(pv, nilAny))
			return ret(st, pv)
		}
		return ret(st, nilAny)
	case "print", "println":
		return ret(st)
	case "ssa:wrapnilchk":
		t := x.term(st, p.args[0])
		x.safety(st, "nil receiver of a value method", Ne(t, Int(0)), pos)
		return ret(st, p.args[0])
	}
	panic(unsupported("builtin %s", p.builtin.Name()))
}

func (x *Exec) append(st *State, p *prepared) *Term {
	s := x.term(st, p.args[0])
	et := types.Unalias(p.argTys[0]).Underlying().(*types.Slice).Elem()
	if len(p.args) == 1 {
		return s
	}
	t := x.term(st, p.args[1])
	c := compElems(et)
	if isByte(et) {
		tc := t
		if t.sort == "Slice" {
			tc = st.bytesOf(t)
		}
		r := st.newBytes(Concat(st.bytesOf(s), tc))
		return r
	}
	if l := sLen(t); l.op == "int" && l.i == 0 {
		return s
	}
	return x.appendElems(st, c, et, s, t)
}

func (x *Exec) appendElems(st *State, c string, et types.Type, s, t *Term) *Term {
	cur := st.get(c)
	ls, lt := sLen(s), sLen(t)
	sin := Select(cur, sRef(s))
	tin := Select(cur, sRef(t))
	var base *Term
	_, inner := arrSorts(cur.sort)
	known := lt.op == "int" && lt.i <= 64
	if ls.op == "int" && ls.i == 0 {
		base = ConstArr(inner, zeroOf(et))
		if !known && sOff(t) == Int(0) {
			r := st.newRef("append")
			st.set(c, Store(st.get(c), r, tin))
			return mkSlice(Ite(Eq(lt, Int(0)), sRef(s), r), Int(0), lt)
		}
	} else if sOff(s) == Int(0) {
		base = sin
	}
	if base == nil || !known {
		f := Fresh("app", inner)
		i := BVar("i", "Int")
		si := Select(sin, At(sOff(s), i))
		st.assume(Forall([]*Term{i}, Implies(And(Le(Int(0), i), Lt(i, ls)), Eq(Select(f, i), si)), []*Term{Select(f, i)}))
		if si.args[0].op != "store" {
			st.assume(Forall([]*Term{i}, Implies(And(Le(Int(0), i), Lt(i, ls)), Eq(Select(f, i), si)), []*Term{si}))
		}
		base = f
		if !known {
			j := BVar("j", "Int")
			st.assume(Forall([]*Term{j}, Implies(And(Le(ls, j), Lt(j, Add(ls, lt))), Eq(Select(f, j), Select(tin, At(sOff(t), Sub(j, ls))))), []*Term{Select(f, j)}))
			st.assume(Forall([]*Term{j}, Implies(And(Le(Int(0), j), Lt(j, lt)), Eq(Select(f, Add(ls, j)), Select(tin, At(sOff(t), j)))), []*Term{Select(tin, At(sOff(t), j))}))
		}
	}
	if known {
		for k := int64(0); k < lt.i; k++ {
			v := Select(tin, At(sOff(t), Int(k)))
			if base.op == "const" && strings.HasPrefix(base.name, "app!") {
				// of its own: nothing else is known about these places
				st.assume(Eq(Select(base, Add(ls, Int(k))), v))
				continue
			}
			base = Store(base, Add(ls, Int(k)), v)
		}
	}
	r := st.newRef("append")
	st.set(c, Store(st.get(c), r, base))
	tot := Add(ls, lt)
	rr := r
	if !known {
		rr = Ite(Eq(tot, Int(0)), sRef(s), r)
	}
	return mkSlice(rr, Int(0), tot)
}
