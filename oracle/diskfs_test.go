package oracle

import (
	"errors"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/stdos"
)

// The disk implementation in a scratch directory, next to a twin of the
// directory that is changed by the operating system's functions directly.

type disk struct {
	t    *testing.T
	r    *rand.Rand
	work string
	her  here.Info
	sub  here.Info
	fs   *stdos.Pkger
	hist []string
	bad  bool
}

func newDisk(t *testing.T, r *rand.Rand) *disk {
	work := os.Getenv("VERIF_SCRATCH")
	x := &disk{t: t, r: r, work: work}
	x.reset()
	m := filepath.Join(work, "m")
	x.her = here.Info{Dir: m, ImportPath: "verif.test/m", Name: "m", Module: here.Module{Path: "verif.test/m", Dir: m}}
	os.Chdir(work)
	s, err := here.Package("verif.test/app/sub")
	if err != nil {
		t.Fatalf("setup: %v", err)
	}
	x.sub = s
	return x
}

func (x *disk) reset() {
	es, _ := ioutil.ReadDir(x.work)
	for _, e := range es {
		if e.Name() != "go.mod" && e.Name() != "app.go" {
			os.RemoveAll(filepath.Join(x.work, e.Name()))
		}
	}
	put := func(name, s string) {
		p := filepath.Join(x.work, name)
		os.MkdirAll(filepath.Dir(p), 0755)
		ioutil.WriteFile(p, []byte(s), 0644)
	}
	for _, d := range []string{"m/", "t/", "sub/", "tsub/", ""} {
		put(d+"a/b/c.txt", "c")
		put(d+"a/b.txt", "b")
		put(d+"ab/c.txt", "abc")
		put(d+"b", "just b")
		put(d+"dd/..a", "dots")
		put(d+"a b/x y", "blanks")
		os.MkdirAll(filepath.Join(x.work, d, "empty/er"), 0755)
	}
	put("sub/sub.go", "package sub\n")
	put("tsub/sub.go", "package sub\n")
}

func (x *disk) snap(dir string) string {
	var r []string
	filepath.Walk(filepath.Join(x.work, dir), func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			r = append(r, strings.TrimPrefix(p, filepath.Join(x.work, dir))+" "+diskErr(err))
			return nil
		}
		rel := strings.TrimPrefix(p, filepath.Join(x.work, dir))
		s := fmt.Sprintf("%s %v", rel, fi.Mode())
		if fi.Mode().IsRegular() {
			b, _ := ioutil.ReadFile(p)
			s += fmt.Sprintf(" %q", b)
		}
		r = append(r, s)
		return nil
	})
	sort.Strings(r)
	return strings.Join(r, "\n")
}

func (x *disk) outside() string {
	var r []string
	es, _ := ioutil.ReadDir(x.work)
	for _, e := range es {
		switch e.Name() {
		case "m", "t", "sub", "tsub":
		default:
			r = append(r, e.Name()+x.snap(e.Name()))
		}
	}
	return strings.Join(r, "\n")
}

func (x *disk) elem() string {
	switch x.r.Intn(14) {
	case 0, 1:
		return ".."
	case 2:
		return "."
	case 3:
		return ""
	case 4:
		return []string{"a b", "dd", "..a", "x y", "...", "a..b", "-", "m", "t", "sub", "a*", "?b", "[a]b"}[x.r.Intn(13)]
	case 5, 6, 7, 8:
		return []string{"a", "b", "ab", "c.txt", "b.txt", "empty", "er"}[x.r.Intn(7)]
	case 9:
		return "a"
	case 10:
		return "b"
	}
	return word(x.r)
}

func (x *disk) name() string {
	var es []string
	for i := x.r.Intn(5); i >= 0; i-- {
		es = append(es, x.elem())
	}
	sep := "/"
	if x.r.Intn(12) == 0 {
		sep = "\\"
	}
	n := strings.Join(es, sep)
	if x.r.Intn(8) != 0 {
		n = sep + n
	}
	switch x.r.Intn(12) {
	case 0:
		n = x.her.ImportPath + ":" + n
	case 1, 2:
		n = x.sub.ImportPath + ":" + n
	case 3:
		n = filepath.Join(x.her.Dir) + n
	case 4:
		n = n + "/"
	case 5:
		if x.r.Intn(4) == 0 {
			n = []string{"", ":", ".", "/", "..", "verif.test/none:/a", "/..", "/../..", "verif.test/m", "verif.test/m:", "verif.test/app/sub:"}[x.r.Intn(11)]
		}
	}
	return n
}

func diskErr(err error) string {
	var pe *os.PathError
	if errors.As(err, &pe) {
		return pe.Err.Error()
	}
	if err != nil {
		return "error"
	}
	return "ok"
}

func (x *disk) fail(f string, a ...interface{}) {
	x.bad = true
	fail(x.t, "%s: %s", strings.Join(x.hist, "; "), fmt.Sprintf(f, a...))
}

// where does the name lead to
func (x *disk) where(name string) (here.Path, here.Info, string, string, bool) {
	pt, err := x.her.Parse(name)
	if err != nil {
		return pt, here.Info{}, "", "", false
	}
	pt.Name = path.Clean("/" + pt.Name)
	switch pt.Pkg {
	case x.her.ImportPath:
		return pt, x.her, filepath.Join(x.work, "m", pt.Name), filepath.Join(x.work, "t", pt.Name), true
	case x.sub.ImportPath:
		return pt, x.sub, filepath.Join(x.work, "sub", pt.Name), filepath.Join(x.work, "tsub", pt.Name), true
	}
	return pt, here.Info{}, "", "", false
}

func sameInfo(a, b os.FileInfo, top bool) string {
	if !top && a.Name() != b.Name() || a.Size() != b.Size() || a.Mode() != b.Mode() || a.IsDir() != b.IsDir() || !a.ModTime().Equal(b.ModTime()) {
		return fmt.Sprintf("metadata %s %d %v %v %v, on disk %s %d %v %v %v", a.Name(), a.Size(), a.Mode(), a.IsDir(), a.ModTime(), b.Name(), b.Size(), b.Mode(), b.IsDir(), b.ModTime())
	}
	return ""
}

func (x *disk) op() {
	name := x.name()
	kind := []string{"Open", "Create", "Stat", "MkdirAll", "Remove", "RemoveAll"}[x.r.Intn(6)]
	pt, her, loc, twin, ok := x.where(name)
	if !ok && pt.Pkg != "" && pt.Pkg != "verif.test/none" {
		return // does not lead anywhere, go list is slow
	}
	x.hist = append(x.hist, fmt.Sprintf("%s(%q)", kind, name))
	step("%s", strings.Join(x.hist, "; "))
	out := x.outside()
	perm := []os.FileMode{0755, 0700, 0777, 0750}[x.r.Intn(4)]
	data := fmt.Sprint(x.r.Intn(1000))
	var err, want error
	msg := guard(func() {
		switch kind {
		case "Open", "Create":
			var f pkging.File
			var tf *os.File
			if kind == "Open" {
				f, err = x.fs.Open(name)
			} else {
				f, err = x.fs.Create(name)
			}
			if ok && kind == "Open" {
				tf, want = os.Open(twin)
			} else if ok {
				tf, want = os.Create(twin)
			}
			if tf != nil {
				defer tf.Close()
			}
			if err != nil {
				return
			}
			defer f.Close()
			if !ok || want != nil {
				return
			}
			if f.Path() != pt || f.Name() != pt.String() || f.Info().Dir != her.Dir {
				x.fail("the handle has path %v, name %s, directory %s", f.Path(), f.Name(), f.Info().Dir)
			}
			fi, e := f.Stat()
			di, e2 := os.Stat(loc)
			if e != nil || e2 != nil {
				x.fail("Stat of the handle: %v, of the location: %v", e, e2)
				return
			}
			if m := sameInfo(fi, di, false); m != "" {
				x.fail("%s", m)
			}
			if kind == "Create" {
				f.Write([]byte(data))
				tf.Write([]byte(data))
			} else if !fi.IsDir() {
				b, e := ioutil.ReadAll(f)
				w, _ := ioutil.ReadFile(loc)
				if e != nil || string(b) != string(w) {
					x.fail("read %q, %v, want %q", b, e, w)
				}
			}
		case "Stat":
			var fi, di os.FileInfo
			fi, err = x.fs.Stat(name)
			if ok {
				_, want = os.Stat(twin)
				di, _ = os.Stat(loc)
			}
			if err == nil && ok && want == nil {
				if m := sameInfo(fi, di, false); m != "" {
					x.fail("%s", m)
				}
			}
		case "MkdirAll":
			err = x.fs.MkdirAll(name, perm)
			if ok {
				want = os.MkdirAll(twin, perm)
			}
		case "Remove":
			err = x.fs.Remove(name)
			if ok {
				want = os.Remove(twin)
			}
		case "RemoveAll":
			err = x.fs.RemoveAll(name)
			if ok {
				want = os.RemoveAll(twin)
			}
		}
	})
	if msg != "" {
		x.fail("%s", msg)
		return
	}
	if !ok {
		if err == nil {
			x.fail("no error for a name that leads nowhere")
		}
	} else if diskErr(err) != diskErr(want) {
		x.fail("gives %v, the operation at %s gives %v", err, loc, want)
	}
	if a, b := x.snap("m"), x.snap("t"); a != b {
		x.fail("the module is\n%s\nwant\n%s", a, b)
	}
	if a, b := x.snap("sub"), x.snap("tsub"); a != b {
		x.fail("the other package is\n%s\nwant\n%s", a, b)
	}
	if x.outside() != out {
		x.fail("something outside of the packages has changed")
	}
}

func diskRun(t *testing.T, histories, ops int) {
	r := rng()
	x := newDisk(t, r)
	for i := 0; i < histories && !x.bad; i++ {
		x.reset()
		x.hist = nil
		// the other package is of the same module or of another one
		x.her.ImportPath = []string{"verif.test/m", "verif.test/app"}[r.Intn(2)]
		x.her.Module.Path = x.her.ImportPath
		x.hist = append(x.hist, "in "+x.her.ImportPath)
		fs, err := stdos.New(x.her)
		if err != nil {
			t.Fatal(err)
		}
		x.fs = fs
		for j := 0; j < ops && !x.bad; j++ {
			x.op()
		}
	}
}
