package oracle

import (
	"errors"
	"fmt"
	"go/ast"
	goparser "go/parser"
	"go/token"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/cmd/pkger/cmds"
	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/stdos"
)

// tree18 is all there is below a directory, but for the output
func tree18(dir, but string) string {
	var r []string
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if p == but {
			if fi != nil && fi.IsDir() {
				return filepath.SkipDir
			}
			return nil
		}
		if err != nil {
			r = append(r, p+" "+diskErr(err))
			return nil
		}
		s := fmt.Sprintf("%s %v", p, fi.Mode())
		if fi.Mode().IsRegular() {
			b, _ := ioutil.ReadFile(p)
			s += fmt.Sprintf(" %v %q", fi.ModTime().UnixNano(), b)
		}
		r = append(r, s)
		return nil
	})
	sort.Strings(r)
	return strings.Join(r, "\n")
}

// payload18 is what a generated file applies
func payload18(out, pkg string) (string, string) {
	b, err := ioutil.ReadFile(out)
	if err != nil {
		return "", "it can't be read: " + err.Error()
	}
	if len(b) == 0 || b[len(b)-1] != '\n' {
		return "", "it isn't written to its end"
	}
	f, err := goparser.ParseFile(token.NewFileSet(), out, b, goparser.ParseComments)
	if err != nil {
		return "", "it is no Go file: " + err.Error()
	}
	if f.Name.Name != pkg {
		return "", fmt.Sprintf("it is of package %s, want %s", f.Name.Name, pkg)
	}
	gen, tag := false, false
	for _, c := range f.Comments {
		gen = gen || strings.HasPrefix(c.Text(), "Code generated ") && strings.HasSuffix(strings.TrimSpace(c.Text()), " DO NOT EDIT.")
		for _, l := range c.List {
			tag = tag || c.Pos() < f.Package && (strings.HasPrefix(l.Text, "// +build !skippkger") || strings.HasPrefix(l.Text, "//go:build !skippkger"))
		}
	}
	if !gen || !tag {
		return "", "it isn't marked as generated, or not to be skipped"
	}
	imps := map[string]bool{}
	for _, i := range f.Imports {
		s, _ := strconv.Unquote(i.Path.Value)
		imps[s] = i.Name == nil
	}
	if len(imps) != 2 || !imps["github.com/markbates/pkger"] || !imps["github.com/markbates/pkger/pkging/mem"] {
		return "", fmt.Sprintf("it imports %v", imps)
	}
	var vals []ast.Expr
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok {
			return "", "it declares a function"
		}
		for _, s := range g.Specs {
			if v, ok := s.(*ast.ValueSpec); ok {
				vals = append(vals, v.Values...)
			}
		}
	}
	call := func(e ast.Expr, fn string) ast.Expr {
		c, ok := e.(*ast.CallExpr)
		if !ok || len(c.Args) != 1 {
			return nil
		}
		switch x := c.Fun.(type) {
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok && id.Name+"."+x.Sel.Name == fn {
				return c.Args[0]
			}
		case *ast.ArrayType:
			if id, ok := x.Elt.(*ast.Ident); ok && x.Len == nil && "[]"+id.Name == fn {
				return c.Args[0]
			}
		}
		return nil
	}
	if len(vals) != 1 {
		return "", fmt.Sprintf("it has %d values", len(vals))
	}
	lit, ok := call(call(call(vals[0], "pkger.Apply"), "mem.UnmarshalEmbed"), "[]byte").(*ast.BasicLit)
	if !ok {
		return "", "it doesn't apply a payload"
	}
	s, err := strconv.Unquote(lit.Value)
	if err != nil {
		return "", "its payload: " + err.Error()
	}
	return s, ""
}

func differ18(a, b string) string {
	as, bs := map[string]bool{}, map[string]bool{}
	for _, l := range strings.Split(a, "\n") {
		as[l] = true
	}
	for _, l := range strings.Split(b, "\n") {
		bs[l] = true
		if !as[l] {
			return "+" + l
		}
	}
	for l := range as {
		if !bs[l] {
			return "-" + l
		}
	}
	return ""
}

// child runs the command with the current directory's module
func child() {
	if k := os.Getenv("VERIF_FAULT"); k != "" {
		her, _ := here.Current()
		d, _ := stdos.New(her)
		pkger.Apply(broken20{d, k}, nil)
	}
	c, err := cmds.New()
	if err == nil {
		err = c.Route(strings.Split(os.Getenv("VERIF_CHILD"), "\x01")[1:])
	}
	if err != nil {
		fmt.Println("ERROR:", err)
		os.Exit(3)
	}
	os.Exit(0)
}

// broken20 is the disk with one kind of operation that fails
type broken20 struct {
	pkging.Pkger
	kind string
}

type file20 struct {
	pkging.File
	kind string
}

func (b broken20) fault(k string) error {
	if k == b.kind {
		fmt.Println("FAULT")
		return errors.New("broken disk")
	}
	return nil
}

func (b broken20) Current() (here.Info, error) {
	if err := b.fault("current"); err != nil {
		return here.Info{}, err
	}
	return b.Pkger.Current()
}

func (b broken20) Info(p string) (here.Info, error) {
	if err := b.fault("info"); err != nil {
		return here.Info{}, err
	}
	return b.Pkger.Info(p)
}

func (b broken20) Parse(p string) (here.Path, error) {
	if err := b.fault("parse"); err != nil {
		return here.Path{}, err
	}
	return b.Pkger.Parse(p)
}

func (b broken20) Open(p string) (pkging.File, error) {
	if err := b.fault("open"); err != nil {
		return nil, err
	}
	f, err := b.Pkger.Open(p)
	if err != nil {
		return nil, err
	}
	return file20{f, b.kind}, nil
}

func (f file20) Stat() (os.FileInfo, error) {
	if err := (broken20{nil, f.kind}).fault("stat"); err != nil {
		return nil, err
	}
	return f.File.Stat()
}

func (f file20) Readdir(n int) ([]os.FileInfo, error) {
	if err := (broken20{nil, f.kind}).fault("readdir"); err != nil {
		return nil, err
	}
	if f.kind == "readdir1" { // fails after the first
		fmt.Println("FAULT")
		l, _ := f.File.Readdir(1)
		return l, errors.New("broken disk")
	}
	return f.File.Readdir(n)
}

// run18 is the command in a directory
func run18(test, dir string, args ...string) (string, bool) {
	c := exec.Command(os.Args[0], "-test.run=^"+test+"$")
	c.Dir = dir
	if strings.HasPrefix(test, "fault:") {
		p := strings.Split(test, ":")
		c = exec.Command(os.Args[0], "-test.run=^"+p[2]+"$")
		c.Dir = dir
		os.Setenv("VERIF_FAULT", p[1])
		defer os.Unsetenv("VERIF_FAULT")
	}
	c.Env = append(os.Environ(), "VERIF_CHILD="+"\x01"+strings.Join(args, "\x01"))
	if len(args) == 0 {
		c.Env[len(c.Env)-1] = "VERIF_CHILD=none"
	}
	b, err := c.CombinedOutput()
	return string(b), err == nil
}
