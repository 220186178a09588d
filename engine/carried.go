package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"
)

// A carriedDecl names struct types that encoding/json is trusted to carry
// field by field, which it does if every field has a name of its own and none
// of the types involved brings its own encoding (with lists the ones that do
// and are under contract).
type carriedDecl struct {
	cl    Clause
	types []*TypeExpr
	with  []*TypeExpr
}

var jsonMethods = []string{"MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText"}

// carried gives the reason why a declaration does not hold, or ""
func (en *Engine) carried(cd carriedDecl) (why string) {
	defer func() {
		if e := recover(); e != nil {
			if se, ok := e.(specErr); ok {
				why = se.Error()
				return
			}
			panic(e)
		}
	}()
	var listed, with []types.Type
	for _, t := range cd.types {
		ty, _ := en.resolveType(t)
		if ty == nil {
			return fmt.Sprintf("no type %v", t)
		}
		listed = append(listed, ty)
	}
	for _, t := range cd.with {
		if ty, _ := en.resolveType(t); ty != nil {
			with = append(with, ty)
		}
	}
	in := func(t types.Type, l []types.Type) bool {
		for _, o := range l {
			if types.Identical(types.Unalias(t), types.Unalias(o)) {
				return true
			}
		}
		return false
	}
	custom := func(t types.Type) string {
		ms := types.NewMethodSet(types.NewPointer(t))
		for _, m := range jsonMethods {
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Name() == m {
					return m
				}
			}
		}
		return ""
	}
	var plain func(t types.Type) string
	plain = func(t types.Type) string {
		t = types.Unalias(t)
		if in(t, with) {
			return ""
		}
		if _, ok := t.(*types.Named); ok {
			if m := custom(t); m != "" {
				return fmt.Sprintf("%s has a method %s", t, m)
			}
		}
		switch u := t.Underlying().(type) {
		case *types.Basic:
			if u.Kind() == types.UnsafePointer || u.Info()&types.IsComplex != 0 {
				return fmt.Sprintf("%s is not carried", t)
			}
		case *types.Pointer:
			return plain(u.Elem())
		case *types.Slice:
			return plain(u.Elem())
		case *types.Map:
			if why := plain(u.Elem()); why != "" {
				return why
			}
			if b, ok := u.Key().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
				return fmt.Sprintf("the keys of %s are not strings", t)
			}
			return plain(u.Key())
		case *types.Struct:
			if !in(t, listed) {
				return fmt.Sprintf("%s is not looked at", t)
			}
		case *types.Interface:
			// a value of no particular type, not promised to come back
			if u.NumMethods() > 0 {
				return fmt.Sprintf("%s is not carried", t)
			}
		default:
			return fmt.Sprintf("%s is not carried", t)
		}
		return ""
	}
	for _, t := range listed {
		if m := custom(t); m != "" {
			return fmt.Sprintf("%s has a method %s", t, m)
		}
		s, ok := types.Unalias(t).Underlying().(*types.Struct)
		if !ok {
			return fmt.Sprintf("%s is not a struct", t)
		}
		seen := map[string]bool{}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			tag := reflect.StructTag(s.Tag(i)).Get("json")
			name := strings.Split(tag, ",")[0]
			if !f.Exported() || tag == "-" {
				return fmt.Sprintf("%s.%s is left out", t, f.Name())
			}
			if name == "" {
				if f.Anonymous() {
					return fmt.Sprintf("%s.%s has no name", t, f.Name())
				}
				name = f.Name()
			}
			if l := strings.ToLower(name); seen[l] {
				return fmt.Sprintf("two fields of %s are called %s", t, name)
			} else {
				seen[l] = true
			}
			if why := plain(f.Type()); why != "" {
				return fmt.Sprintf("%s.%s: %s", t, f.Name(), why)
			}
		}
	}
	return ""
}
