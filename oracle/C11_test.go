package oracle

import (
	"fmt"
	"io/ioutil"
	"math/rand"
	"net/http"
	"os"
	"path"
	"strings"
	"testing"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/mem"
	"github.com/markbates/pkger/pkging/stdos"
)

//verif:with diskfs_test.go

func handleName(x *disk) string {
	n := x.name()
	switch x.r.Intn(6) {
	case 0:
		n = strings.Repeat("../", x.r.Intn(4)) + n
	case 1:
		n = strings.Repeat("..\\", x.r.Intn(4)) + n
	case 2:
		n = "/" + x.elem() + ":/" + x.elem()
	case 3:
		n = "/../" + x.elem()
	}
	return n
}

// checks what was opened as name below dir
func (x *disk) below(kind string, her here.Info, dir here.Path, name string, f http.File, err error, has func(here.Path) (bool, bool, string)) {
	want := here.Path{Pkg: dir.Pkg, Name: path.Join(dir.Name, path.Clean("/"+strings.Replace(name, "\\", "/", -1)))}
	if p, e := x.her.Parse(want.String()); e != nil || p.Pkg != want.Pkg || path.Clean("/"+p.Name) != want.Name {
		return // not a plain name
	}
	ok, isDir, data := has(want)
	what := fmt.Sprintf("%s: handle of %s, Open(%q)", kind, dir, name)
	if (err == nil) != ok {
		fail(x.t, "%s: error %v, but %s exists: %v", what, err, want, ok)
		x.bad = true
		return
	}
	if err != nil {
		return
	}
	pf, isFile := f.(pkging.File)
	if !isFile || pf.Path() != want {
		fail(x.t, "%s: opened %v, want %s", what, f, want)
		x.bad = true
		return
	}
	fi, e := f.Stat()
	if e != nil || fi.IsDir() != isDir {
		fail(x.t, "%s: Stat %v, want a directory: %v", what, e, isDir)
		x.bad = true
		return
	}
	if !isDir {
		b, e := ioutil.ReadAll(f)
		if e != nil || string(b) != data {
			fail(x.t, "%s: delivers %q, %v, want %q", what, b, e, data)
			x.bad = true
		}
	}
}

func TestVerifC11(t *testing.T) {
	r := rng()
	x := newDisk(t, r)
	fs, _ := stdos.New(x.her)
	// the same tree in memory
	ms, _ := mem.New(x.her)
	pkgs := map[string]here.Info{"verif.test/m": x.her, x.sub.ImportPath: x.sub}
	ref := map[here.Path]string{}
	dirs := map[here.Path]bool{}
	for p, her := range pkgs {
		var add func(rel string)
		add = func(rel string) {
			pt := here.Path{Pkg: p, Name: rel}
			fi, err := os.Stat(her.Dir + rel)
			if err != nil {
				t.Fatal(err)
			}
			f, err := os.Open(her.Dir + rel)
			if err != nil {
				t.Fatal(err)
			}
			defer f.Close()
			if err := ms.AddAs(pt, her, f); err != nil {
				t.Fatal(err)
			}
			if !fi.IsDir() {
				b, _ := ioutil.ReadFile(her.Dir + rel)
				ref[pt] = string(b)
				return
			}
			if rel != "/" && r.Intn(2) == 0 {
				// made, not copied
				if ms.Remove(pt.String()); ms.MkdirAll(pt.String(), 0755) != nil {
					t.Fatal(pt)
				}
			}
			dirs[pt] = true
			es, _ := ioutil.ReadDir(her.Dir + rel)
			for _, e := range es {
				add(path.Join(rel, e.Name()))
			}
		}
		add("/")
	}
	var ds []here.Path
	for _, p := range []string{"verif.test/m", x.sub.ImportPath} {
		for _, n := range []string{"/", "/a", "/a/b", "/empty", "/dd", "/a b", "/empty/er", "/ab"} {
			ds = append(ds, here.Path{Pkg: p, Name: n})
		}
	}
	onDisk := func(pt here.Path) (bool, bool, string) {
		p := pkgs[pt.Pkg].Dir + pt.Name
		fi, err := os.Stat(p)
		if err != nil {
			return false, false, ""
		}
		if fi.IsDir() {
			return true, true, ""
		}
		b, _ := ioutil.ReadFile(p)
		return true, false, string(b)
	}
	inMem := func(pt here.Path) (bool, bool, string) {
		if dirs[pt] {
			return true, true, ""
		}
		s, ok := ref[pt]
		return ok, false, s
	}
	n := budget(60000, 600000)
	for i := 0; i < n && !x.bad; i++ {
		d := ds[r.Intn(len(ds))]
		name := handleName(x)
		step("handle of %s, Open(%q)", d, name)
		msg := guard(func() {
			if i%3 == 0 {
				h, err := fs.Open(d.String())
				if err != nil {
					t.Fatal(err)
				}
				defer h.Close()
				f, err := h.Open(name)
				if err == nil {
					defer f.Close()
				}
				x.below("disk", x.her, d, name, f, err, onDisk)
				return
			}
			h, err := ms.Open(d.String())
			if err != nil {
				t.Fatal(err)
			}
			if r.Intn(3) == 0 { // a handle that was opened through a handle
				up, err := ms.Open(here.Path{Pkg: d.Pkg, Name: "/"}.String())
				if err != nil {
					t.Fatal(err)
				}
				hh, err := up.Open(d.Name)
				if err != nil {
					fail(t, "handle of %s:/, Open(%q): %v", d.Pkg, d.Name, err)
					x.bad = true
					return
				}
				h = hh.(pkging.File)
			}
			f, err := h.Open(name)
			x.below("memory", x.her, d, name, f, err, inMem)
		})
		if msg != "" {
			fail(t, "handle of %s, Open(%q): %s", d, name, msg)
			x.bad = true
		}
	}
}

var _ = rand.Int
