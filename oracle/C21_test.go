package oracle

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"os"
	"path"
	"path/filepath"
	"strings"
	"testing"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/parser"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/mem"
	"github.com/markbates/pkger/pkging/pkgutil"
	"github.com/markbates/pkger/pkging/stdos"
)

//verif:with memfs_test.go
//verif:with diskfs_test.go

func TestVerifC21(t *testing.T) {
	r := rng()
	pieces := []string{"/", "/", "/", "..", ".", "a", "b.txt", ":", "\\", " ", "app.test/app", "app.test/app:", "dep.test/dep:", "dep.test/dep", "/nowhere/app", "C:", "ä", "", "\t", "a b", "%2e", "\x00", "\n", "../", "..\\", "...", "~"}
	dirs := []string{"", "/nowhere/app", "/nowhere", "/", "C:\\app", "/nowhere/app/"}
	paths := []string{"app.test/app", "app.test", ""}
	for i := 0; i < budget(60000, 600000) && !t.Failed(); i++ {
		inf := here.Info{Dir: dirs[r.Intn(len(dirs))], ImportPath: paths[r.Intn(len(paths))]}
		inf.Module.Path = paths[r.Intn(len(paths))]
		inf.Module.Dir = dirs[r.Intn(len(dirs))]
		s := ""
		for n := r.Intn(8); n > 0; n-- {
			if r.Intn(8) == 0 {
				s += word(r)
			} else {
				s += pieces[r.Intn(len(pieces))]
			}
		}
		c := step("%q in the module %s at %q", s, inf.Module.Path, inf.Dir)
		if m := guard(func() {
			a, _ := mem.New(inf)
			b, _ := stdos.New(inf)
			p1, e1 := a.Parse(s)
			p2, e2 := b.Parse(s)
			if (e1 == nil) != (e2 == nil) || e1 != nil && e1.Error() != e2.Error() {
				fail(t, "%s: error %v in memory, %v on disk", c, e1, e2)
				return
			}
			if e1 != nil {
				return
			}
			if p1 != p2 {
				fail(t, "%s: %v in memory, %v on disk", c, p1, p2)
			}
			for _, p := range []here.Path{p1, p2} {
				if !strings.HasPrefix(p.Name, "/") || path.Clean(p.Name) != p.Name || strings.Contains(p.Name+"/", "/../") {
					fail(t, "%s: gives the name %q", c, p.Name)
				}
			}
			// history does not matter
			a.MkdirAll("/a", 0755)
			a.Create("/a/b.txt")
			a.Create(s)
			a.RemoveAll("/a")
			if p3, e3 := a.Parse(s); p3 != p1 || e3 != nil {
				fail(t, "%s: gives %v, later %v, %v", c, p1, p3, e3)
			}
			if p4, e4 := a.Parse(s); p4 != p1 || e4 != nil {
				fail(t, "%s: gives %v, then %v, %v", c, p1, p4, e4)
			}
		}); m != "" {
			fail(t, "%s: %s", c, m)
		}
	}
	// plain names mean what they say
	for i := 0; i < budget(5000, 50000) && !t.Failed(); i++ {
		x := &memfs{t: t, r: r, mod: "app.test/app", infos: map[string]here.Info{"app.test/app": {}, "dep.test/dep": {}}, m: map[here.Path]*ment{}}
		inf := here.Info{Dir: "/nowhere/app", ImportPath: x.mod}
		inf.Module.Path = x.mod
		pt := x.path()
		s := x.spell(pt)
		c := step("%q", s)
		a, _ := mem.New(inf)
		b, _ := stdos.New(inf)
		p1, e1 := a.Parse(s)
		p2, e2 := b.Parse(s)
		if e1 != nil || e2 != nil || p1 != pt || p2 != pt {
			fail(t, "%s: %v %v, %v %v, want %v", c, p1, e1, p2, e2, pt)
		}
	}
	memRun(t, "C21", budget(300, 3000), 40)
	packaged21(t)
}

// packaged21 compares what a name opens during development with what it opens
// once the declaration of the name is packaged
func packaged21(t *testing.T) {
	x := newDisk(t, rng())
	r := x.r
	her, err := here.Dir(x.work)
	if err != nil {
		t.Fatal(err)
	}
	ioutil.WriteFile(filepath.Join(x.work, "sub/b"), []byte("another b"), 0644)
	ioutil.WriteFile(filepath.Join(x.work, "only"), []byte("only here"), 0644)
	prs, _ := parser.New(her)
	known := false
	for i := 0; i < budget(300, 3000) && !t.Failed(); i++ {
		name := []string{"/a/b.txt", "/a/b/c.txt", "/b", "/a b/x y", "/dd/..a", "/sub/b", "/missing", "/only", "/sub/only", "/a", "/empty", "/"}[r.Intn(12)]
		switch r.Intn(8) {
		case 0:
			name = "/." + name
		case 1:
			name = strings.Replace(name, "/", "//", 1)
		case 2:
			name = "/x/.." + name
		case 3:
			name = "/.." + name
		case 4:
			name += "/"
		case 5:
			name = strings.Replace(name, "/", "\\", -1)
		}
		pkg := ""
		switch r.Intn(5) {
		case 0:
			pkg = "verif.test/app"
		case 1:
			pkg = "verif.test/app/sub"
		}
		if pkg != "" {
			name = pkg + ":" + name
		}
		kind := []string{"Open", "Stat", "Include", "Dir"}[r.Intn(4)]
		c := step("pkger.%s(%q)", kind, name)
		src := filepath.Join(x.work, "app2.go")
		ioutil.WriteFile(src, []byte(fmt.Sprintf("package app\n\nvar _ = pkger.%s(%q)\n", kind, name)), 0644)
		dev, _ := stdos.New(her)
		want, werr := read21(dev, name)
		got, gerr := "", error(nil)
		if m := guard(func() {
			var ps *parser.ParsedSource
			var ds parser.Decls
			if ps, gerr = prs.ParseSource(parser.Source{Abs: src}, 0); gerr != nil {
				return
			}
			var mm map[string]parser.Decls
			if mm, gerr = ps.DeclsMap(); gerr != nil {
				return
			}
			ds = mm[kind]
			bb := &bytes.Buffer{}
			if gerr = pkgutil.Stuff(bb, her, ds); gerr != nil {
				return
			}
			var fs *mem.Pkger
			if fs, gerr = mem.UnmarshalEmbed(bb.Bytes()); gerr != nil {
				return
			}
			got, gerr = read21(fs, name)
		}); m != "" {
			fail(t, "%s: %s", c, m)
		}
		os.Remove(src)
		if (werr == nil) == (gerr == nil) && got == want {
			continue
		}
		if plain := strings.TrimPrefix(name, pkg+":"); pkg == "verif.test/app/sub" {
			// the listed finding: a package that isn't at the root of its module
			root := func(dir string) (string, error) {
				inf := here.Info{Dir: dir, ImportPath: pkg, Module: here.Module{Path: pkg, Dir: dir}}
				fs, _ := stdos.New(inf)
				return read21(fs, plain)
			}
			below, berr := root(filepath.Join(x.work, "sub"))
			above, aerr := root(x.work)
			if want == below && (werr == nil) == (berr == nil) && got == above && (gerr == nil) == (aerr == nil) {
				if !known {
					fmt.Printf("FAILING-INPUT: [subpackage] %s: during development %q %v, packaged %q %v\n", c, want, werr, got, gerr)
				}
				known = true
				continue
			}
		}
		fail(t, "%s: during development %q %v, packaged %q %v", c, want, werr, got, gerr)
	}
}

func read21(fs pkging.Pkger, name string) (string, error) {
	f, err := fs.Open(name)
	if err != nil {
		return "", err
	}
	defer f.Close()
	fi, err := f.Stat()
	if err != nil {
		return "", err
	}
	if fi.IsDir() {
		return "directory " + fi.Name() + f.Path().String(), nil
	}
	b, err := ioutil.ReadAll(f)
	return fi.Name() + " " + f.Path().String() + " " + string(b), err
}
