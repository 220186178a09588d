package main

import (
	"go/types"
	"path"
	"strconv"
	"strings"
)

func replaceAll(s, a, b *Term) *Term {
	if s.op == "str" && a.op == "str" && b.op == "str" {
		return Str(strings.ReplaceAll(s.name, a.name, b.name))
	}
	if a.op == "str" && a.name != "" {
		return mk("app", "str.replace_all", 0, "String", s, a, b)
	}
	return mk("app", "strings.ReplaceAll", 0, "String", s, a, b)
}

func trimPrefix(s, p *Term) *Term {
	return Ite(App("str.prefixof", "Bool", p, s), Substr(s, StrLen(p), Sub(StrLen(s), StrLen(p))), s)
}

func trimSuffix(s, p *Term) *Term {
	return Ite(App("str.suffixof", "Bool", p, s), Substr(s, Int(0), Sub(StrLen(s), StrLen(p))), s)
}

func pathClean(s *Term) *Term {
	if s.op == "str" {
		return Str(path.Clean(s.name))
	}
	return mk("app", "path.Clean", 0, "String", s)
}

// pathJoin is path.Join (on Unix filepath.Join is the same function), element
// by element
func pathJoin(elems ...*Term) *Term {
	r := Str("")
	for _, e := range elems {
		switch {
		case r.op == "str" && e.op == "str":
			r = Str(path.Join(r.name, e.name))
		case r.op == "str" && r.name == "":
			r = Ite(Eq(e, Str("")), Str(""), pathClean(e))
			if len(elems) > 1 {
				r = e // cleaned with what follows
			}
		default:
			r = mk("app", "path.Join2", 0, "String", r, e)
		}
	}
	return r
}

// nativeApp gives library functions of plain values their meaning where the
// logic has it; nil means an uninterpreted function
func nativeApp(name string, a []*Term) *Term {
	base := name
	if i := strings.LastIndex(name, "/"); i > 0 {
		if _, err := strconv.Atoi(name[i+1:]); err == nil {
			base = name[:i]
		}
	}
	switch base {
	case "strings.HasPrefix":
		return App("str.prefixof", "Bool", a[1], a[0])
	case "strings.HasSuffix":
		return App("str.suffixof", "Bool", a[1], a[0])
	case "strings.Contains":
		return App("str.contains", "Bool", a[0], a[1])
	case "strings.TrimPrefix":
		return trimPrefix(a[0], a[1])
	case "strings.TrimSuffix":
		return trimSuffix(a[0], a[1])
	case "strings.ReplaceAll":
		return replaceAll(a[0], a[1], a[2])
	case "strings.Replace":
		if a[3].op == "int" && a[3].i < 0 {
			return replaceAll(a[0], a[1], a[2])
		}
	case "path.Clean", "path/filepath.Clean":
		return pathClean(a[0])
	case "path.Join", "path/filepath.Join":
		if base != name {
			return pathJoin(a...)
		}
	case "path/filepath.ToSlash", "path/filepath.FromSlash":
		return a[0]
	case "path/filepath.Base", "path.Base":
		if a[0].op == "str" {
			return Str(path.Base(a[0].name))
		}
		return mk("app", "path.Base", 0, "String", a[0])
	case "path/filepath.Dir", "path.Dir":
		if a[0].op == "str" {
			return Str(path.Dir(a[0].name))
		}
		return mk("app", "path.Dir", 0, "String", a[0])
	case "path/filepath.Ext", "path.Ext":
		if a[0].op == "str" {
			return Str(path.Ext(a[0].name))
		}
		return mk("app", "path.Ext", 0, "String", a[0])
	case "path/filepath.IsAbs", "path.IsAbs":
		return App("str.prefixof", "Bool", Str("/"), a[0])
	case "strconv.Quote":
		if a[0].op == "str" {
			return Str(strconv.Quote(a[0].name))
		}
	}
	return nil
}

// sprintf formats with a literal format of simple verbs
func sprintf(format string, args []*Term) *Term {
	var parts []*Term
	i, n := 0, 0
	lit := ""
	for i < len(format) {
		ch := format[i]
		if ch != '%' {
			lit += string(ch)
			i++
			continue
		}
		if i+1 >= len(format) {
			return nil
		}
		v := format[i+1]
		i += 2
		if v == '%' {
			lit += "%"
			continue
		}
		if n >= len(args) || !strings.ContainsRune("svqd", rune(v)) {
			return nil
		}
		parts = append(parts, Str(lit))
		lit = ""
		t := fmtArg(v, args[n])
		if t == nil {
			return nil
		}
		parts = append(parts, t)
		n++
	}
	if n != len(args) {
		return nil
	}
	parts = append(parts, Str(lit))
	return Concat(parts...)
}

func fmtArg(v byte, a *Term) *Term {
	if a.op == "ctor" {
		if bt, ok := boxTypes[a.name]; ok {
			b, isB := bt.(*types.Basic)
			if isB && b.Info()&types.IsString != 0 && (v == 's' || v == 'v') {
				return a.args[0]
			}
			if isB && b.Info()&types.IsString != 0 && v == 'q' {
				if t := nativeApp("strconv.Quote", a.args); t != nil {
					return t
				}
				return App("strconv.Quote", "String", a.args[0])
			}
		}
	}
	return App("fmt.arg%"+string(v), "String", a)
}
