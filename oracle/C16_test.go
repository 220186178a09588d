package oracle

import (
	"fmt"
	"go/ast"
	goparser "go/parser"
	"go/token"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/parser"
)

//verif:with diskfs_test.go

var kinds16 = []string{"MkdirAll", "Create", "Include", "Stat", "Open", "Dir", "Walk"}

func kindOf16(d parser.Decl) string {
	switch d.(type) {
	case parser.MkdirAllDecl:
		return "MkdirAll"
	case parser.CreateDecl:
		return "Create"
	case parser.IncludeDecl:
		return "Include"
	case parser.StatDecl:
		return "Stat"
	case parser.OpenDecl:
		return "Open"
	case parser.HTTPDecl:
		return "Dir"
	case parser.WalkDecl:
		return "Walk"
	}
	return fmt.Sprintf("%T", d)
}

type call16 struct {
	kind  string
	off   int
	value string
	must  bool // has to be found; otherwise it may be, with this value
}

// src16 writes a source file and keeps account of the calls in it
type src16 struct {
	r      *rand.Rand
	b      strings.Builder
	calls  []call16
	consts []const16
	uniq   int
}

type const16 struct {
	name  string
	value string
	must  bool
	may   bool
}

func (s *src16) p(f string, a ...interface{}) { fmt.Fprintf(&s.b, f, a...) }

func (s *src16) val() string {
	v := []string{"/a", "/a/b.txt", "a", "/", "", "/ä b", "verif.test/app:/x", "verif.test/app:x/y", "/a\tb", "/q\"q", "/x`y", "/a/../b", ":/x", "//"}
	if s.r.Intn(4) == 0 {
		return "/" + word(s.r) + "/" + word(s.r)
	}
	return v[s.r.Intn(len(v))]
}

func (s *src16) quote(v string) string {
	if s.r.Intn(3) == 0 && strconv.CanBackquote(v) {
		return "`" + v + "`"
	}
	if s.r.Intn(4) == 0 {
		return strconv.QuoteToASCII(v)
	}
	return strconv.Quote(v)
}

// arg writes an argument; scope are the constants that are visible
func (s *src16) arg(kind string, scope []const16) {
	off := s.b.Len()
	add := func(v string, must bool) { s.calls = append(s.calls, call16{kind, off, v, must}) }
	switch k := s.r.Intn(12); {
	case k < 4:
		v := s.val()
		s.p("%s", s.quote(v))
		add(v, true)
	case k < 9 && len(scope) > 0:
		c := scope[s.r.Intn(len(scope))]
		s.p("%s", c.name)
		if c.must || c.may {
			add(c.value, c.must)
		}
	default:
		v := []string{"vr", "fn()", "nowhere", "1", "vr + vr", "struct{}{}", "func() string { return \"/no\" }()", "map[string]string{}[\"/no\"]", "[]string{\"/no\"}[0]", "x.y.z", "*ptr", "elsewhere", "nil", "fn", "string(raw)", "vrs[0]", "st", "param", "fnn.c1"}
		s.p("%s", v[s.r.Intn(len(v))])
	}
}

func (s *src16) callExpr(scope []const16, depth int) {
	switch s.r.Intn(14) {
	case 0:
		// not one of those
		q := []string{"pkger.Parse(%s)", "other.Open(%s)", "a.pkger.Open(%s)", "Open(%s)", "pkger.open(%s)", "pkger.Opener(%s)", "Pkger.Open(%s)", "pkger().Open(%s)", "pkger.Open.Open(%s)", "pkger.Walkie(%s)", "pkger[0](%s)", "pkger.Remove(%s)"}
		s.p(q[s.r.Intn(len(q))], s.quote("/no"))
	case 1:
		s.p("pkger.%s()", kinds16[s.r.Intn(7)])
	case 2:
		s.p("_ = pkger.%s", kinds16[s.r.Intn(7)])
	case 3:
		if depth > 0 {
			// below one that can't be resolved
			s.p("pkger.%s(wrap(", kinds16[s.r.Intn(7)])
			s.callExpr2(scope, depth-1)
			s.p("), nil)")
			return
		}
		s.callExpr2(scope, depth)
	default:
		s.callExpr2(scope, depth)
	}
}

func (s *src16) callExpr2(scope []const16, depth int) {
	k := kinds16[s.r.Intn(7)]
	s.p("pkger.%s(", k)
	if s.r.Intn(8) == 0 {
		s.p("\n\t\t")
	}
	s.arg(k, scope)
	switch s.r.Intn(5) {
	case 0:
		s.p(", 0644")
	case 1:
		if depth > 0 {
			s.p(", func() { ")
			s.stmt(scope, depth-1)
			s.p(" }")
		}
	case 2:
		s.p(", %s", s.quote("/second"))
	}
	s.p(")")
}

func (s *src16) stmt(scope []const16, depth int) {
	switch s.r.Intn(12) {
	case 0:
		s.p("defer ")
		s.callExpr2(scope, depth)
	case 1:
		s.p("go ")
		s.callExpr2(scope, depth)
	case 2:
		s.p("if f, err := ")
		s.callExpr2(scope, depth)
		s.p("; err != nil { _ = f }")
	case 3:
		s.p("for { ")
		s.callExpr(scope, depth)
		s.p(" }")
	case 4:
		s.p("_ = []interface{}{")
		s.callExpr2(scope, depth)
		s.p(", ")
		s.callExpr2(scope, depth)
		s.p("}")
	case 5:
		s.p("switch ")
		s.callExpr2(scope, depth)
		s.p(" { case ")
		s.callExpr2(scope, depth)
		s.p(": }")
	case 6:
		s.callExpr2(scope, depth)
		s.p(".Method(")
		s.callExpr2(scope, depth)
		s.p(").Other()")
	case 7:
		s.p("{\n")
		// a constant of the block hides the others of its name
		var inner []const16
		name := "c0"
		if s.r.Intn(2) == 0 {
			name = "loc"
		}
		v := s.val()
		s.p("\tconst %s = %s\n\t", name, s.quote(v))
		for _, c := range scope {
			if c.name != name {
				inner = append(inner, c)
			}
		}
		inner = append(inner, const16{name, v, true, true})
		s.callExpr(inner, depth)
		s.p("\n}")
	case 8:
		s.p("{\n")
		// and so does a variable
		var inner []const16
		s.p("\tc0 := %s\n\t_ = c0\n\t", s.quote("/no"))
		for _, c := range scope {
			if c.name != "c0" {
				inner = append(inner, c)
			}
		}
		inner = append(inner, const16{name: "c0"})
		s.callExpr(inner, depth)
		s.p("\n}")
	default:
		s.callExpr(scope, depth)
	}
}

// global writes the constants of the file
func (s *src16) global() {
	n := s.r.Intn(6)
	add := func(name, v string, must, may bool) { s.consts = append(s.consts, const16{name, v, must, may}) }
	s.p("var vr, st = \"/no\", \"/no\"\nvar raw []byte\n")
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("c%d", i)
		v, w := s.val(), s.val()
		switch s.r.Intn(11) {
		case 0, 1, 2:
			s.p("const %s = %s\n", name, s.quote(v))
			add(name, v, true, true)
		case 3:
			s.p("const %s string = %s\n", name, s.quote(v))
			add(name, v, true, true)
		case 4:
			s.p("const %s, %sb = %s, %s\n", name, name, s.quote(v), s.quote(w))
			add(name, v, true, true)
			add(name+"b", w, true, true)
		case 5:
			s.p("const (\n\t%s = %s\n\t%sb\n\t%sc = %s\n)\n", name, s.quote(v), name, name, s.quote(w))
			add(name, v, true, true)
			add(name+"b", v, false, true)
			add(name+"c", w, true, true)
		case 6:
			s.p("const (\n\t%s = iota\n\t%sb\n)\n", name, name)
			add(name, "", false, false)
			add(name+"b", "", false, false)
		case 7:
			s.p("const %s, %sb = %sb, %s\n", name, name, name, name)
			add(name, "", false, false)
			add(name+"b", "", false, false)
		case 8:
			s.p("const %s = %s\n", name, name)
			add(name, "", false, false)
		case 9:
			if len(s.consts) > 0 {
				c := s.consts[s.r.Intn(len(s.consts))]
				s.p("const %s = %s\n", name, c.name)
				add(name, c.value, false, c.may)
			} else {
				s.p("const %s = nowhere\n", name)
				add(name, "", false, false)
			}
		case 10:
			s.p("const %s = %s + %s\n", name, s.quote(v), s.quote(w))
			add(name, v+w, false, true)
		}
	}
	add("elsewhere", "/no", false, false)
}

func (s *src16) file() {
	s.p("// Package app ä\npackage app\n\nimport \"github.com/markbates/pkger\"\n\n")
	early := s.r.Intn(2) == 0
	if early {
		s.global()
	} else {
		// declared below their use
		t := &src16{r: s.r}
		t.global()
		s.consts = t.consts
		defer func() { s.p("%s", t.b.String()) }()
	}
	if s.r.Intn(3) == 0 {
		s.p("var _ = ")
		s.callExpr2(s.consts, 1)
		s.p("\n")
	}
	for k := s.r.Intn(3) + 1; k > 0; k-- {
		s.uniq++
		s.p("func f%d(param string) {\n", s.uniq)
		for l := s.r.Intn(4); l >= 0; l-- {
			s.p("\t")
			s.stmt(s.consts, 2)
			s.p("\n")
		}
		s.p("}\n")
	}
}

// check compares what is found with what there is to find
func (s *src16) check(x *disk, name string, m map[string]parser.Decls) string {
	src := s.b.String()
	type key struct {
		kind string
		off  int
	}
	left := map[key]call16{}
	for _, c := range s.calls {
		left[key{c.kind, c.off}] = c
	}
	for k, ds := range m {
		for _, d := range ds {
			if g := kindOf16(d); g != k {
				return fmt.Sprintf("a declaration of kind %s is found as %s", g, k)
			}
			pos, err := d.Position()
			if err != nil {
				return "no position"
			}
			c, ok := left[key{k, pos.Offset}]
			if !ok {
				return fmt.Sprintf("%s at %v (%+v) is no call, can't be resolved, or is found twice", k, pos, d)
			}
			delete(left, key{k, pos.Offset})
			line := 1 + strings.Count(src[:c.off], "\n")
			col := c.off - strings.LastIndex(src[:c.off], "\n")
			if pos.Filename != name || pos.Line != line || pos.Column != col {
				return fmt.Sprintf("%s of %q: position %v, want %s:%d:%d", k, c.value, pos, name, line, col)
			}
			v, err := d.Value()
			if v != c.value || err != nil && c.value != "" {
				return fmt.Sprintf("%s at %v: value %q (%v), want %q", k, pos, v, err, c.value)
			}
			pt, err := x.her.Parse(c.value)
			f, ferr := d.File()
			if err != nil || ferr != nil {
				return fmt.Sprintf("%s at %v: %q is found though it can't be resolved (%v, %v)", k, pos, c.value, err, ferr)
			}
			if f.Path != pt || f.Here.Module.Path != x.her.Module.Path || f.Abs != filepath.Join(x.her.Module.Dir, pt.Name) {
				return fmt.Sprintf("%s at %v: %q resolves to %v at %s of %s, want %v", k, pos, c.value, f.Path, f.Abs, f.Here.Module.Path, pt)
			}
		}
	}
	for _, c := range left {
		if _, err := x.her.Parse(c.value); err == nil && c.must {
			pt, _ := x.her.Parse(c.value)
			if pt.Pkg != x.her.Module.Path {
				continue // of another module, which there may not be
			}
			return fmt.Sprintf("%s of %q at offset %d is not found", c.kind, c.value, c.off)
		}
	}
	return ""
}

func TestVerifC16(t *testing.T) {
	r := rng()
	x := newDisk(t, r)
	x.reset()
	if her, err := here.Dir(x.work); err == nil {
		x.her = her
	} else {
		t.Fatal(err)
	}
	n := budget(2500, 40000)
	p, _ := parser.New(x.her)
	for i := 0; i < n && !x.bad; i++ {
		s := &src16{r: r}
		s.file()
		name := filepath.Join(x.work, []string{"app.go", "app_test.go", "ä b.go"}[r.Intn(3)])
		ioutil.WriteFile(name, []byte(s.b.String()), 0644)
		if _, err := goparser.ParseFile(token.NewFileSet(), name, nil, 0); err != nil {
			continue // such as a variable that hides something in a place where it can't
		}
		step("a source file: %s", s.b.String())
		var src *parser.ParsedSource
		var m map[string]parser.Decls
		var err error
		if msg := guard(func() {
			src, err = p.ParseSource(parser.Source{Abs: name}, 0)
			if err == nil {
				m, err = src.DeclsMap()
			}
		}); msg != "" {
			fail(t, "%s when this is parsed:\n%s", msg, s.b.String())
			return
		}
		if err != nil {
			fail(t, "error %v when this is parsed:\n%s", err, s.b.String())
			return
		}
		if msg := s.check(x, name, m); msg != "" {
			fail(t, "%s; the source is:\n%s", msg, s.b.String())
			return
		}
		again, err := src.DeclsMap()
		if err != nil || fmt.Sprint(len(again)) != fmt.Sprint(len(m)) {
			fail(t, "the second answer is %d kinds (%v), the first one was %d; the source is:\n%s", len(again), err, len(m), s.b.String())
			return
		}
		os.Remove(name)
	}
	module16(t, x, r)
	real16(t, x, r)
}

// module16: all files of a module, by kind
func module16(t *testing.T, x *disk, r *rand.Rand) {
	for i, n := 0, budget(3, 20); i < n && !x.bad; i++ {
		x.reset()
		want := map[string]int{}
		must := map[string]int{}
		text := ""
		var made []string
		for _, f := range []string{"x1.go", "x2.go", "sub/x3.go", "vendor/x4.go", ".hid/x5.go", "_under/x6.go", "testdata/x7.go", "node_modules/x8.go", "more/in/x9.go"} {
			if r.Intn(4) == 0 {
				continue
			}
			s := &src16{r: r}
			s.file()
			abs := filepath.Join(x.work, f)
			if _, err := goparser.ParseFile(token.NewFileSet(), abs, s.b.String(), 0); err != nil {
				continue
			}
			os.MkdirAll(filepath.Dir(abs), 0755)
			ioutil.WriteFile(abs, []byte(s.b.String()), 0644)
			made = append(made, abs)
			text += "// " + f + "\n" + s.b.String()
			if strings.ContainsAny(f[:1], "v._t") || strings.HasPrefix(f, "node_modules") {
				continue
			}
			for _, c := range s.calls {
				pt, err := x.her.Parse(c.value)
				if err != nil || pt.Pkg != x.her.Module.Path {
					continue
				}
				k := fmt.Sprintf("%s:%d:%s %s", abs, c.off, c.kind, c.value)
				want[k]++
				if c.must {
					must[k]++
				}
			}
		}
		step("a module with %s", text)
		var ds parser.Decls
		var err error
		inc := []string{"/inc", "/inc2"}[:r.Intn(3)]
		if msg := guard(func() { ds, err = parser.Parse(x.her, inc...) }); msg != "" || err != nil {
			fail(t, "%s %v when a module is parsed:\n%s", msg, err, text)
			return
		}
		rank := -1
		incs := 0
		for _, d := range ds {
			q := -1
			for j, k := range kinds16 {
				if kindOf16(d) == k {
					q = j
				}
			}
			if q < rank {
				fail(t, "a declaration of kind %s comes after one of kind %s; the module is:\n%s", kindOf16(d), kinds16[rank], text)
				return
			}
			rank = q
			pos, _ := d.Position()
			v, _ := d.Value()
			if pos.Filename == "" && kindOf16(d) == "Include" {
				if incs >= len(inc) || v != inc[incs] {
					fail(t, "%q is included, want %q", v, inc)
					return
				}
				incs++
				continue
			}
			if filepath.Dir(pos.Filename) == filepath.Join(x.work, "sub") && !strings.HasSuffix(pos.Filename, "x3.go") {
				continue
			}
			k := fmt.Sprintf("%s:%d:%s %s", pos.Filename, pos.Offset, kindOf16(d), v)
			if !strings.HasPrefix(pos.Filename, x.work) || !strings.Contains(filepath.Base(pos.Filename), "x") {
				continue
			}
			if want[k] == 0 {
				fail(t, "%s is declared nowhere, or found twice; the module is:\n%s", k, text)
				return
			}
			want[k]--
			must[k]--
		}
		if incs != len(inc) {
			fail(t, "%d of the inclusions %q are declared", incs, inc)
			return
		}
		for k, c := range must {
			if c > 0 {
				fail(t, "%s isn't found; the module is:\n%s", k, text)
				return
			}
		}
		for _, f := range made {
			os.Remove(f)
		}
	}
}

// real16: source files of the standard library, with calls in them
func real16(t *testing.T, x *disk, r *rand.Rand) {
	var files []string
	for _, d := range []string{"go/types", "fmt", "net/http", "text/template", "encoding/json", "os", "cmd/go/internal/load", "testing"} {
		g, _ := filepath.Glob(filepath.Join(runtime.GOROOT(), "src", d, "*.go"))
		files = append(files, g...)
	}
	sort.Strings(files)
	r.Shuffle(len(files), func(i, j int) { files[i], files[j] = files[j], files[i] })
	if n := budget(60, 600); len(files) > n {
		files = files[:n]
	}
	p, _ := parser.New(x.her)
	for _, f := range files {
		b, err := ioutil.ReadFile(f)
		if err != nil {
			continue
		}
		src := string(b)
		for _, fn := range []string{"Sprintf", "Errorf", "Fprintf", "New", "Error", "Fatalf", "Errorf", "Println", "Run", "Join"} {
			for _, q := range []string{"fmt.", "t.", "errors.", "check.", "strings.", "s.", "b."} {
				src = strings.Replace(src, q+fn+"(", "pkger."+kinds16[r.Intn(7)]+"(", -1)
			}
		}
		name := filepath.Join(x.work, "real.go")
		ioutil.WriteFile(name, []byte(src), 0644)
		fset := token.NewFileSet()
		tree, err := goparser.ParseFile(fset, name, src, 0)
		if err != nil {
			continue
		}
		step("%s with calls in it", f)
		var m map[string]parser.Decls
		if msg := guard(func() {
			var ps *parser.ParsedSource
			ps, err = p.ParseSource(parser.Source{Abs: name}, 0)
			if err == nil {
				m, err = ps.DeclsMap()
			}
		}); msg != "" || err != nil {
			fail(t, "%s %v when %s (with calls in it) is parsed", msg, err, f)
			return
		}
		found := map[string]bool{}
		for k, ds := range m {
			for _, d := range ds {
				pos, _ := d.Position()
				v, _ := d.Value()
				key := fmt.Sprintf("%s at %d: %q", k, pos.Offset, v)
				if found[key] {
					fail(t, "%s: %s is found twice", f, key)
					return
				}
				found[key] = true
			}
		}
		bad := ""
		n := 0
		ast.Inspect(tree, func(nd ast.Node) bool {
			ce, ok := nd.(*ast.CallExpr)
			if !ok || len(ce.Args) == 0 {
				return true
			}
			se, ok := ce.Fun.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			id, ok := se.X.(*ast.Ident)
			if !ok || id.Name != "pkger" {
				return true
			}
			lit, ok := ce.Args[0].(*ast.BasicLit)
			if !ok || lit.Kind != token.STRING {
				return true
			}
			known := false
			for _, k := range kinds16 {
				known = known || k == se.Sel.Name
			}
			v, err := strconv.Unquote(lit.Value)
			if !known || err != nil {
				return true
			}
			pt, err := x.her.Parse(v)
			if err != nil || pt.Pkg != x.her.Module.Path {
				return true
			}
			n++
			key := fmt.Sprintf("%s at %d: %q", se.Sel.Name, fset.Position(lit.Pos()).Offset, v)
			if !found[key] {
				bad = key
			}
			return true
		})
		if bad != "" {
			fail(t, "%s, with calls in it: %s is not found", f, bad)
			return
		}
		os.Remove(name)
	}
}
