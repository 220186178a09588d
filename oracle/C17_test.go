package oracle

import (
	"fmt"
	"io/ioutil"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/parser"
)

//verif:with diskfs_test.go

type want17 struct {
	paths map[here.Path]bool
}

// resolve is what the declarations stand for
func resolve(ds parser.Decls) (map[string]want17, error) {
	res := map[string]want17{}
	virtual := map[string]bool{}
	add := func(abs string, pt here.Path) {
		pt.Name = path.Clean("/" + pt.Name)
		if res[abs].paths == nil {
			res[abs] = want17{map[here.Path]bool{}}
		}
		res[abs].paths[pt] = true
	}
	for _, d := range ds {
		val, _ := d.Value()
		walk := false
		switch d.(type) {
		case parser.CreateDecl, parser.MkdirAllDecl:
			virtual[val] = true
			continue
		case parser.WalkDecl:
			walk = true
		}
		f, _ := d.File()
		if !walk && virtual[val] {
			continue
		}
		root := filepath.Join(f.Here.Module.Dir, f.Path.Name)
		var fi os.FileInfo
		var err error
		if !walk {
			fi, err = os.Stat(root)
			if err != nil {
				return nil, err
			}
		}
		if !walk && !fi.IsDir() {
			add(f.Abs, f.Path)
			continue
		}
		err = filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			n := strings.TrimPrefix(p, f.Here.Module.Dir)
			if virtual[n] {
				if fi.IsDir() {
					return filepath.SkipDir
				}
				return nil
			}
			add(p, here.Path{Pkg: f.Path.Pkg, Name: n})
			return nil
		})
		if err != nil {
			return nil, err
		}
	}
	return res, nil
}

func TestVerifC17(t *testing.T) {
	r := rng()
	x := newDisk(t, r)
	src := filepath.Join(x.work, "app.go")
	p, _ := parser.New(x.her)
	n := budget(1200, 12000)
	for i := 0; i < n && !x.bad; i++ {
		x.reset()
		var made []string
		for k := r.Intn(6); k > 0; k-- {
			var es []string
			for l := r.Intn(3); l >= 0; l-- {
				es = append(es, word(r))
			}
			q := filepath.Join(es...)
			if r.Intn(10) == 0 { // the module's own directory once more
				q = filepath.Join("a", x.work, q)
			}
			if r.Intn(4) == 0 {
				os.MkdirAll(filepath.Join(x.work, q), 0755)
			} else {
				os.MkdirAll(filepath.Dir(filepath.Join(x.work, q)), 0755)
				if r.Intn(8) == 0 {
					os.Symlink([]string{"/nowhere/at/all", "sub", "sub/sub.go", "missing"}[r.Intn(4)], filepath.Join(x.work, q))
				} else {
					ioutil.WriteFile(filepath.Join(x.work, q), []byte("x"), 0644)
				}
			}
			made = append(made, q)
		}
		shut := ""
		if r.Intn(8) == 0 {
			shut = filepath.Join(x.work, []string{"a", "ab", "empty"}[r.Intn(3)])
			os.Chmod(shut, 0)
		}
		// some declarations are those of another module
		other := filepath.Join(x.work, "m")
		two := r.Intn(3) == 0
		b, b2 := "package app\n", "package m\n"
		names := []string{"/a", "/ab", "/a/b", "/a/b.txt", "/b", "/a b", "/empty", "/dd/..a", "/a/b/c.txt", "/", "a", "/a/", "//a", x.work + "/b", x.work + "/a"}
		for k := r.Intn(6) + 1; k > 0; k-- {
			nm := names[r.Intn(len(names))]
			switch r.Intn(12) {
			case 0:
				nm = "verif.test/app/sub:" + nm
			case 1:
				nm = "verif.test/app:" + nm
			case 2:
				nm = "/" + word(r)
			case 3:
				if len(made) > 0 {
					nm = "/" + made[r.Intn(len(made))]
				}
			}
			kind := []string{"MkdirAll", "Create", "Include", "Stat", "Open", "Dir", "Walk", "Open", "Walk"}[r.Intn(9)]
			d := fmt.Sprintf("var _ = pkger.%s(%q)\n", kind, nm)
			if two && r.Intn(2) == 0 && !strings.Contains(nm, x.work) {
				b2 += d
				continue
			}
			b += d
		}
		ioutil.WriteFile(src, []byte(b), 0644)
		ps, err := p.ParseSource(parser.Source{Abs: src}, 0)
		if err != nil {
			t.Fatal(err)
		}
		var ds parser.Decls
		mm, _ := ps.DeclsMap()
		if two {
			ioutil.WriteFile(filepath.Join(other, "go.mod"), []byte("module verif.test/m\n"), 0644)
			ioutil.WriteFile(filepath.Join(other, "m.go"), []byte(b2), 0644)
			if r.Intn(2) == 0 {
				os.Remove(filepath.Join(other, "a/b.txt"))
			}
			ps, err := p.ParseSource(parser.Source{Abs: filepath.Join(other, "m.go")}, 0)
			if err != nil {
				t.Fatal(err)
			}
			m2, _ := ps.DeclsMap()
			for k, l := range m2 {
				if r.Intn(2) == 0 {
					mm[k] = append(mm[k], l...)
				} else {
					mm[k] = append(l[:len(l):len(l)], mm[k]...)
				}
			}
		}
		if r.Intn(2) == 0 {
			for _, k := range []string{"MkdirAll", "Create", "Include", "Stat", "Open", "Dir", "Walk"} {
				ds = append(ds, mm[k]...)
			}
		} else {
			// any other order
			var ks []string
			for k := range mm {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				ds = append(ds, mm[k]...)
			}
			r.Shuffle(len(ds), func(i, j int) { ds[i], ds[j] = ds[j], ds[i] })
		}
		var txt []string
		for _, d := range ds {
			v, _ := d.Value()
			in := ""
			if f, err := d.File(); err == nil && f.Here.Module.Dir == other {
				in = " of module m"
			}
			txt = append(txt, fmt.Sprintf("%T(%q)%s", d, v, in))
		}
		what := step("tree with %q, unreadable %q, files of %s", made, strings.TrimPrefix(shut, x.work), strings.Join(txt, ", "))
		var fl []*parser.File
		if msg := guard(func() { fl, err = ds.Files() }); msg != "" {
			fail(t, "%s: %s", what, msg)
			return
		}
		want, werr := resolve(ds)
		if shut != "" {
			os.Chmod(shut, 0755)
		}
		if (err != nil) != (werr != nil) {
			fail(t, "%s: error %v, want %v", what, err, werr)
			return
		}
		if err != nil {
			continue
		}
		seen := map[string]bool{}
		for k, f := range fl {
			pt := f.Path
			pt.Name = path.Clean("/" + pt.Name)
			switch {
			case seen[f.Abs]:
				fail(t, "%s: %s comes twice", what, f.Abs)
			case want[f.Abs].paths == nil:
				fail(t, "%s: %s isn't declared", what, f.Abs)
			case !want[f.Abs].paths[pt]:
				fail(t, "%s: %s comes as %s, want %v", what, f.Abs, f.Path, want[f.Abs].paths)
			case k > 0 && fl[k-1].Path.String() > f.Path.String():
				fail(t, "%s: %s comes after %s", what, f.Path, fl[k-1].Path)
			case f.Here.Module.Dir != map[bool]string{false: x.work, true: other}[f.Path.Pkg == "verif.test/m"]:
				fail(t, "%s: %s comes with the package in %q", what, f.Path, f.Here.Module.Dir)
			}
			if t.Failed() {
				return
			}
			seen[f.Abs] = true
		}
		for abs := range want {
			if !seen[abs] {
				fail(t, "%s: %s is missing", what, abs)
				return
			}
		}
	}
}
