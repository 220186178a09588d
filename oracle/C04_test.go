package oracle

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/mem"
)

//verif:with diskfs_test.go
//verif:with copy_test.go

func TestVerifC04(t *testing.T) {
	x := newDisk(t, rng())
	r := x.r
	her, err := here.Dir(x.work)
	if err != nil {
		t.Fatalf("setup: %v", err)
	}
	n := budget(600, 3000)
	start := time.Now()
	for i := 0; i < n && !x.bad && time.Since(start) < time.Minute; i++ {
		x.reset()
		var all []string
		for k := r.Intn(8); k > 0; k-- {
			var es []string
			for l := r.Intn(3); l >= 0; l-- {
				es = append(es, word(r))
			}
			p := filepath.Join(x.work, []string{"a", "dd", "n"}[r.Intn(3)], filepath.Join(es...))
			if r.Intn(4) == 0 {
				os.MkdirAll(p, 0755)
			} else {
				os.MkdirAll(filepath.Dir(p), 0755)
				b := make([]byte, []int{0, 1, 7, 511, 512, 513, 4096, 40000}[r.Intn(8)])
				r.Read(b)
				ioutil.WriteFile(p, b, os.FileMode([]int{0644, 0600, 0755, 0444}[r.Intn(4)]))
				os.Chtimes(p, time.Unix(1e9, 0), time.Unix(1e9+int64(r.Intn(1e6)), int64(r.Intn(1e9))))
			}
		}
		for k := r.Intn(3) - 1; k > 0; k-- { // links to files
			to := []string{"a/b/c.txt", "a/b.txt", "b", "dd/..a"}[r.Intn(4)]
			p := filepath.Join(x.work, []string{"a", "dd", "n"}[r.Intn(3)], word(r)+"~")
			os.MkdirAll(filepath.Dir(p), 0755)
			os.Symlink(filepath.Join(x.work, to), p)
		}
		filepath.Walk(x.work, func(p string, fi os.FileInfo, err error) error {
			if err == nil && p != x.work && filepath.Base(p) != "go.mod" && !strings.HasSuffix(p, ".go") {
				all = append(all, p)
			}
			return nil
		})
		fs, err := mem.New(her)
		if err != nil {
			t.Fatal(err)
		}
		key := func(p string) string {
			return here.Path{Pkg: her.ImportPath, Name: strings.TrimPrefix(p, x.work)}.String()
		}
		want := map[string]onDisk{}
		hist := []string{}
		for c := 1 + r.Intn(3); c > 0 && !x.bad; c-- {
			var fl []*os.File
			var given []string
			broken := ""
			touched := map[string]bool{}
			exp := map[string]onDisk{}
			note := func(p string, stat func(string) (os.FileInfo, error), skip int) {
				fi, err := stat(p)
				if err != nil {
					return
				}
				touched[key(p)] = true
				e := onDisk{fi: pkging.NewFileInfo(fi)}
				if !fi.IsDir() {
					b, _ := ioutil.ReadFile(p)
					e.data = b[skip:]
				}
				exp[key(p)] = e
			}
			for k := 1 + r.Intn(4); k > 0; k-- {
				p := all[r.Intn(len(all))]
				f, err := os.Open(p)
				if err != nil {
					continue
				}
				fi, _ := f.Stat()
				how := ""
				skip := 0
				switch {
				case broken == "" && r.Intn(12) == 0:
					f.Close()
					how = " (closed)"
					broken = p
				case broken == "" && !fi.IsDir() && r.Intn(12) == 0:
					if g, err := os.OpenFile(p, os.O_WRONLY, 0); err == nil {
						f.Close()
						f = g
						how = " (not readable)"
						broken = p
					}
				case !fi.IsDir() && fi.Size() > 0 && r.Intn(6) == 0:
					skip = r.Intn(int(fi.Size()))
					f.Seek(int64(skip), 0)
					how = fmt.Sprintf(" (from %d)", skip)
				case broken == "" && fi.IsDir() && r.Intn(8) == 0:
					var fs []string
					for _, q := range all {
						if qi, err := os.Lstat(q); err == nil && strings.HasPrefix(q, p+"/") && (!qi.IsDir() || r.Intn(2) == 0) {
							fs = append(fs, q)
						}
					}
					if len(fs) > 0 {
						q := fs[r.Intn(len(fs))]
						os.Chmod(q, 0)
						how = fmt.Sprintf(" (with unreadable %s)", strings.TrimPrefix(q, x.work))
						broken = q
						defer os.Chmod(q, 0755)
					}
				}
				given = append(given, strings.TrimPrefix(p, x.work)+how)
				fl = append(fl, f)
				if fi.IsDir() {
					filepath.Walk(p, func(q string, _ os.FileInfo, err error) error {
						note(q, os.Lstat, 0)
						return nil
					})
				} else {
					note(p, os.Stat, skip)
				}
			}
			for _, f := range fl {
				d := f.Name()
				if fi, err := os.Stat(d); err == nil && !fi.IsDir() {
					d = filepath.Dir(d)
				}
				if _, err := here.Dir(d); err != nil && broken == "" {
					broken = d // not a name for a package
				}
			}
			if broken != "" {
				// others that are affected by the same fault
				for _, f := range fl {
					touched[key(f.Name())] = true
				}
			}
			hist = append(hist, fmt.Sprintf("Add(%s)", strings.Join(given, ", ")))
			what := step("%s", strings.Join(hist, "; "))
			var err error
			if msg := guard(func() { err = fs.Add(fl...) }); msg != "" {
				fail(t, "%s: %s", what, msg)
				x.bad = true
				break
			}
			for _, f := range fl {
				f.Close()
			}
			got, bad := contents(fs)
			if bad != "" {
				fail(t, "%s: %s", what, bad)
				x.bad = true
				break
			}
			if broken != "" {
				if err == nil {
					fail(t, "%s: no error", what)
					x.bad = true
				}
				for k, w := range want {
					if !touched[k] {
						if d := differs(map[string]onDisk{k: got[k]}, map[string]onDisk{k: w}); got[k].fi == nil || d != "" {
							fail(t, "%s: %q was not among the files, but changed: %s", what, k, d)
							x.bad = true
						}
					}
				}
				for k := range got {
					if _, ok := want[k]; !ok && !touched[k] {
						fail(t, "%s: %q was not among the files, but was added", what, k)
						x.bad = true
					}
				}
				break
			}
			if err != nil {
				fail(t, "%s: error %v", what, err)
				x.bad = true
				break
			}
			for k, e := range exp {
				want[k] = e
			}
			if d := differs(got, want); d != "" {
				fail(t, "%s: %s", what, d)
				x.bad = true
			}
		}
		filepath.Walk(x.work, func(p string, fi os.FileInfo, err error) error {
			if fi != nil && fi.IsDir() {
				os.Chmod(p, 0755)
			}
			return nil
		})
	}
}

// files whose size isn't what reading them gives
func TestVerifC04Sizes(t *testing.T) {
	for _, p := range []string{"/proc/version", "/proc/filesystems", "/proc/self/cmdline"} {
		want, err := ioutil.ReadFile(p)
		f, e := os.Open(p)
		if err != nil || e != nil {
			continue
		}
		what := step("AddAs(%s)", p)
		pt := here.Path{Pkg: "app.test/app", Name: "/x"}
		fs, err := mem.New(here.Info{ImportPath: "app.test/app", Module: here.Module{Path: "app.test/app"}})
		if err != nil {
			t.Fatal(err)
		}
		if msg := guard(func() { err = fs.AddAs(pt, here.Info{ImportPath: "app.test/app"}, f) }); msg != "" || err != nil {
			fail(t, "%s: %s %v", what, msg, err)
			continue
		}
		f.Close()
		g, err := fs.Open(pt.String())
		if err != nil {
			fail(t, "%s: %v", what, err)
			continue
		}
		if b, err := ioutil.ReadAll(g); err != nil || string(b) != string(want) {
			fail(t, "%s: %d bytes are stored, there are %d (%v)", what, len(b), len(want), err)
		}
	}
}
