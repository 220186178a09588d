package main

import (
	"fmt"
	"go/types"
	"strings"
)

const nilRef = 0

var qual = func(p *types.Package) string { return p.Path() }

func tstr(t types.Type) string { return types.TypeString(canonType(t), qual) }

// canonType removes aliases inside composite types
func canonType(t types.Type) types.Type {
	t = types.Unalias(t)
	switch u := t.(type) {
	case *types.Pointer:
		return types.NewPointer(canonType(u.Elem()))
	case *types.Slice:
		return types.NewSlice(canonType(u.Elem()))
	case *types.Array:
		return types.NewArray(canonType(u.Elem()), u.Len())
	case *types.Map:
		return types.NewMap(canonType(u.Key()), canonType(u.Elem()))
	case *types.Chan:
		return types.NewChan(u.Dir(), canonType(u.Elem()))
	case *types.Signature:
		tup := func(t *types.Tuple) *types.Tuple {
			var vs []*types.Var
			for i := 0; i < t.Len(); i++ {
				vs = append(vs, types.NewVar(t.At(i).Pos(), t.At(i).Pkg(), t.At(i).Name(), canonType(t.At(i).Type())))
			}
			return types.NewTuple(vs...)
		}
		return types.NewSignatureType(nil, nil, nil, tup(u.Params()), tup(u.Results()), u.Variadic())
	}
	return t
}

// special value sorts of library types
var specialSort = map[string]string{
	"sync.Once":       "Bool",
	"sync.RWMutex":    "Int",
	"sync.Mutex":      "Int",
	"bytes.Buffer":    "String",
	"strings.Builder": "String",
	"bytes.Reader":    "BReader",
	"sync.Map":        "(Array Any Any)",
}

func init() {
	datatypes["Slice"] = &DT{"Slice", []CtorDef{{"mkslice", []Field{{"ref", "Int"}, {"off", "Int"}, {"len", "Int"}}}}}
	datatypes["BReader"] = &DT{"BReader", []CtorDef{{"mkreader", []Field{{"content", "String"}, {"pos", "Int"}}}}}
}

func isRepoPkg(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

// opaque struct types are external structs with unexported fields
func opaqueStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	if _, ok := specialSort[tstr(t)]; ok {
		return true
	}
	if isRepoPkg(n.Obj().Pkg()) {
		// type ModTime time.Time
		if s.NumFields() > 0 && s.Field(0).Pkg() != nil && s.Field(0).Pkg() != n.Obj().Pkg() && !s.Field(0).Exported() {
			return true
		}
		return false
	}
	if n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "github.com/gobuffalo/here" {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if !s.Field(i).Exported() {
			return true
		}
	}
	return false
}

var sortCache = map[string]string{}

func sortOf(t types.Type) string {
	t = types.Unalias(t)
	switch u := t.(type) {
	case *types.Named:
		if _, ok := u.Underlying().(*types.Struct); ok {
			if s, ok := specialSort[tstr(t)]; ok {
				return s
			}
			if opaqueStruct(t) {
				// types defined from one another share the representation
				return "O_" + structKey(u)
			}
			return structSort(t, u.Underlying().(*types.Struct))
		}
		return sortOf(u.Underlying())
	case *types.Basic:
		i := u.Info()
		switch {
		case i&types.IsBoolean != 0:
			return "Bool"
		case i&types.IsInteger != 0:
			return "Int"
		case i&types.IsString != 0:
			return "String"
		case u.Kind() == types.UnsafePointer:
			return "Int"
		case u.Kind() == types.UntypedNil:
			return "Int"
		}
		return "O_" + u.Name()
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "Int"
	case *types.Interface:
		return "Any"
	case *types.Slice:
		return "Slice"
	case *types.Array:
		return "(Array Int " + qs(sortOf(u.Elem())) + ")"
	case *types.Struct:
		return structSort(t, u)
	case *types.Tuple:
		return "O_tuple"
	}
	panic(unsupported("type " + tstr(t)))
}

// the opaque sort of a struct is keyed by where its fields are declared
func structKey(n *types.Named) string {
	s := n.Underlying().(*types.Struct)
	if s.NumFields() > 0 && s.Field(0).Pkg() != nil && s.Field(0).Pkg() != n.Obj().Pkg() {
		if p := s.Field(0).Pkg(); p.Path() == "time" {
			return "time.Time"
		}
		return s.Field(0).Pkg().Path() + "." + s.Field(0).Name()
	}
	return sane(tstr(n))
}

func sane(s string) string {
	return strings.Map(func(r rune) rune {
		switch r {
		case ' ', '(', ')', '{', '}', ';', '"', '\\', '|', '*', '[', ']', ',', '/', ':', '`':
			return '_'
		}
		return r
	}, s)
}

var structDT = map[string]*types.Struct{}

func structSort(t types.Type, s *types.Struct) string {
	name := "S_" + sane(tstr(t))
	if _, ok := structDT[name]; ok {
		return name
	}
	structDT[name] = s
	typeOfSort[name] = t
	d := &DT{Name: name, Ctors: []CtorDef{{Name: "mk" + name}}}
	datatypes[name] = d
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		d.Ctors[0].Fields = append(d.Ctors[0].Fields, Field{f.Name(), sortOf(f.Type())})
	}
	return name
}

func optSort(v string) string {
	name := "Opt_" + sane(v)
	if _, ok := datatypes[name]; !ok {
		datatypes[name] = &DT{name, []CtorDef{{"none_" + name, nil}, {"some_" + name, []Field{{"v", v}}}}}
	}
	return name
}

func None(v string) *Term { n := optSort(v); return Ctor("none_"+n, n) }
func Some(t *Term) *Term  { n := optSort(t.sort); return Ctor("some_"+n, n, t) }
func IsSome(t *Term) *Term {
	return Is("some_"+t.sort, t)
}
func OptVal(t *Term) *Term {
	d := datatypes[t.sort]
	return Sel("some_"+t.sort, d.Ctors[1].Fields[0].Sort, 0, t)
}

func zeroOf(t types.Type) *Term {
	t = types.Unalias(t)
	s := sortOf(t)
	return zeroSort(s, t)
}

func zeroSort(s string, t types.Type) *Term {
	switch s {
	case "Bool":
		return False
	case "Int":
		return Int(0)
	case "String":
		return Str("")
	case "Any":
		return nilAny
	case "Slice":
		return mkSlice(Int(0), Int(0), Int(0))
	case "BReader":
		return Ctor("mkreader", "BReader", Str(""), Int(0))
	case "(Array Any Any)":
		return ConstArr(s, absent)
	}
	if d, ok := datatypes[s]; ok && strings.HasPrefix(s, "S_") {
		st := structDT[s]
		var as []*Term
		for i := range d.Ctors[0].Fields {
			as = append(as, zeroOf(st.Field(i).Type()))
		}
		return Ctor(d.Ctors[0].Name, s, as...)
	}
	if strings.HasPrefix(s, "(Array Int ") && t != nil {
		if a, ok := t.Underlying().(*types.Array); ok {
			return ConstArr(s, zeroOf(a.Elem()))
		}
	}
	return Sym("zero_"+s, s)
}

var (
	nilAny = Ctor("nilAny", "Any")
	absent = Ctor("absent", "Any")
)

func mkSlice(r, o, l *Term) *Term { return Ctor("mkslice", "Slice", r, o, l) }
func sRef(s *Term) *Term          { return Sel("mkslice", "Int", 0, s) }
func sOff(s *Term) *Term          { return Sel("mkslice", "Int", 1, s) }
func sLen(s *Term) *Term          { return Sel("mkslice", "Int", 2, s) }

func boxName(t types.Type) string {
	t = types.Unalias(t)
	n := "box_" + sane2(tstr(t))
	if _, ok := anyCtors[n]; !ok {
		anyCtors[n] = CtorDef{n, []Field{{"v", sortOf(t)}}}
		boxTypes[n] = t
	}
	return n
}

func sane2(s string) string { return strings.NewReplacer(" ", "_", "|", "_", "\\", "_").Replace(s) }

var boxTypes = map[string]types.Type{}

func Box(t types.Type, v *Term) *Term { return Ctor(boxName(t), "Any", v) }
func Unbox(t types.Type, v *Term) *Term {
	return Sel(boxName(t), sortOf(t), 0, v)
}
func IsBox(t types.Type, v *Term) *Term { return Is(boxName(t), v) }

// implements is the term "the dynamic type of v implements it"
func implTerm(it types.Type, v *Term) *Term {
	iface := it.Underlying().(*types.Interface)
	if iface.NumMethods() == 0 {
		return Ne(v, nilAny)
	}
	if v.op == "ctor" {
		if bt, ok := boxTypes[v.name]; ok {
			return Bool(types.Implements(bt, iface))
		}
		if v.name == "nilAny" || v.name == "absent" {
			return False
		}
	}
	if v.op == "ite" {
		return Ite(v.args[0], implTerm(it, v.args[1]), implTerm(it, v.args[2]))
	}
	fn := "impl_" + sane2(tstr(it))
	if !implSeen[fn] {
		implSeen[fn] = true
		implIfaces[fn] = it
		axioms = append(axioms, Axiom{name: fn + "(nil)", keys: []string{fn}, t: Not(mk("app", fn, 0, "Bool", nilAny))})
	}
	return mk("app", fn, 0, "Bool", v)
}

var implSeen = map[string]bool{}
var implIfaces = map[string]types.Type{}
var implAx = map[string]bool{}

// addImplAxioms relates the implements predicates with all known concrete types
func addImplAxioms() {
	for _, fn := range sortedKeys(implIfaces) {
		it := implIfaces[fn]
		for _, b := range sortedKeys(boxTypes) {
			k := fn + "/" + b
			if implAx[k] {
				continue
			}
			implAx[k] = true
			bt := boxTypes[b]
			v := BVar("v", sortOf(bt))
			app := mk("app", fn, 0, "Bool", Box(bt, v))
			body := app
			if !types.Implements(bt, it.Underlying().(*types.Interface)) {
				body = Not(app)
			}
			axioms = append(axioms, Axiom{name: k, keys: []string{fn, b}, t: Forall([]*Term{v}, body, []*Term{app})})
		}
	}
}

type unsupportedErr struct{ msg string }

func (u unsupportedErr) Error() string { return "unsupported: " + u.msg }
func unsupported(f string, a ...interface{}) error {
	return unsupportedErr{fmt.Sprintf(f, a...)}
}

func derefT(t types.Type) types.Type {
	if p, ok := types.Unalias(t).Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func fieldComp(t types.Type, i int) string {
	s := types.Unalias(t).Underlying().(*types.Struct)
	return "F:" + tstr(t) + "." + s.Field(i).Name()
}

func isByte(t types.Type) bool {
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func elemComp(t types.Type) string {
	if isByte(t) {
		return "AB"
	}
	return "A:" + tstr(t)
}

func mapComp(t types.Type) string {
	m := types.Unalias(t).Underlying().(*types.Map)
	return "M:" + tstr(m.Key()) + ":" + tstr(m.Elem())
}

// registry of component sorts (created on demand)
var compSort = map[string]string{}

func compFieldSort(t types.Type, i int) (string, string) {
	c := fieldComp(t, i)
	s := types.Unalias(t).Underlying().(*types.Struct)
	if _, ok := compSort[c]; !ok {
		compSort[c] = "(Array Int " + qs(sortOf(s.Field(i).Type())) + ")"
	}
	return c, compSort[c]
}
func compCell(t types.Type) string {
	c := "C:" + tstr(t)
	if _, ok := compSort[c]; !ok {
		compSort[c] = "(Array Int " + qs(sortOf(t)) + ")"
	}
	return c
}
func compElems(t types.Type) string {
	c := elemComp(t)
	if _, ok := compSort[c]; !ok {
		if c == "AB" {
			compSort[c] = "(Array Int String)"
		} else {
			compSort[c] = "(Array Int (Array Int " + qs(sortOf(t)) + "))"
		}
	}
	return c
}
func compMap(t types.Type) string {
	c := mapComp(t)
	if _, ok := compSort[c]; !ok {
		m := types.Unalias(t).Underlying().(*types.Map)
		compSort[c] = "(Array Int (Array " + qs(sortOf(m.Key())) + " " + optSort(sortOf(m.Elem())) + "))"
	}
	return c
}
