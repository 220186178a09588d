package oracle

import (
	"errors"
	"fmt"
	"go/token"
	"io"
	"io/ioutil"
	"os"
	"path"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/parser"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/mem"
	"github.com/markbates/pkger/pkging/pkgutil"
)

//verif:with diskfs_test.go
//verif:with copy_test.go

// decl03 stands for any files
type decl03 struct {
	files []*parser.File
	err   error
}

func (d decl03) File() (*parser.File, error)                     { return nil, os.ErrNotExist }
func (d decl03) Position() (token.Position, error)               { return token.Position{}, nil }
func (d decl03) Value() (string, error)                          { return "", nil }
func (d decl03) Files(map[string]string) ([]*parser.File, error) { return d.files, d.err }

var errDisk = errors.New("no space left")

// sink fails after some bytes or at some call
type sink struct {
	b     []byte
	limit int
	call  int
	calls int
	fail  bool
}

func (s *sink) Write(b []byte) (int, error) {
	s.calls++
	if s.limit >= 0 && len(s.b)+len(b) > s.limit {
		k := s.limit - len(s.b)
		s.b = append(s.b, b[:k]...)
		s.fail = true
		return k, errDisk
	}
	s.b = append(s.b, b...)
	return len(b), nil
}

func TestVerifC03(t *testing.T) {
	x := newDisk(t, rng())
	r := x.r
	p, _ := parser.New(x.her)
	n := budget(2500, 20000)
	start := time.Now()
	for i := 0; i < n && !t.Failed() && time.Since(start) < 80*time.Second; i++ {
		if i%5 == 0 {
			x.reset()
			for k := r.Intn(8); k > 0; k-- {
				var es []string
				for l := r.Intn(3); l >= 0; l-- {
					es = append(es, word(r))
				}
				q := filepath.Join(x.work, []string{"a", "dd", "n"}[r.Intn(3)], filepath.Join(es...))
				if r.Intn(5) == 0 {
					os.MkdirAll(q, 0755)
				} else {
					os.MkdirAll(filepath.Dir(q), 0755)
					b := make([]byte, []int{0, 1, 7, 511, 512, 513, 4096, 40000}[r.Intn(8)])
					r.Read(b)
					ioutil.WriteFile(q, b, os.FileMode([]int{0644, 0600, 0755, 0444}[r.Intn(4)]))
					os.Chtimes(q, time.Unix(1e9, 0), time.Unix(1e9+int64(r.Intn(1e6)), int64(r.Intn(1e9))))
				}
			}
		}
		var all []string
		filepath.Walk(x.work, func(p string, fi os.FileInfo, err error) error {
			if err == nil && p != x.work {
				all = append(all, p)
			}
			return nil
		})
		var ds parser.Decls
		var txt []string
		for k := 1 + r.Intn(3); k > 0; k-- {
			var d decl03
			if r.Intn(25) == 0 {
				d.err = []error{errDisk, os.ErrNotExist, os.ErrPermission, &os.PathError{Op: "stat", Path: "/gone", Err: syscall.ENOENT}, filepath.SkipDir, io.EOF}[r.Intn(6)]
				txt = append(txt, "a declaration that fails")
			}
			for l := r.Intn(6); l > 0; l-- {
				abs := all[r.Intn(len(all))]
				switch r.Intn(60) {
				case 0:
					abs += ".missing"
				case 1:
					abs += ".tmp"
				case 2:
					abs = "/proc/self/mem"
				}
				her := []here.Info{x.her, x.sub}[r.Intn(2)]
				pt := here.Path{Pkg: her.ImportPath, Name: strings.TrimPrefix(abs, x.work)}
				switch r.Intn(8) {
				case 0:
					pt.Name = "/other" + pt.Name
				case 1:
					pt.Name = pt.Name + "/"
				case 2:
					pt.Name = strings.TrimPrefix(pt.Name, "/")
				case 3:
					pt.Pkg = "verif.test/else"
				}
				d.files = append(d.files, &parser.File{Abs: abs, Path: pt, Here: her})
				txt = append(txt, fmt.Sprintf("%s as %s", strings.TrimPrefix(abs, x.work), pt))
			}
			ds = append(ds, d)
		}
		if r.Intn(3) == 0 {
			// declarations of a source file
			src := "package app\n"
			for k := r.Intn(3); k >= 0; k-- {
				nm := strings.TrimPrefix(all[r.Intn(len(all))], x.work)
				if r.Intn(6) == 0 {
					nm = "verif.test/app/sub:" + nm
				}
				kind := []string{"MkdirAll", "Create", "Include", "Stat", "Open", "Dir", "Walk", "Open", "Walk"}[r.Intn(9)]
				src += fmt.Sprintf("var _ = pkger.%s(%q)\n", kind, nm)
				txt = append(txt, fmt.Sprintf("%s(%q)", kind, nm))
			}
			f := filepath.Join(x.work, "app.go")
			ioutil.WriteFile(f, []byte(src), 0644)
			ps, err := p.ParseSource(parser.Source{Abs: f}, 0)
			if err != nil {
				t.Fatal(err)
			}
			mm, _ := ps.DeclsMap()
			for _, k := range []string{"MkdirAll", "Create", "Include", "Stat", "Open", "Dir", "Walk"} {
				ds = append(ds, mm[k]...)
			}
		}
		shut := ""
		if r.Intn(10) == 0 {
			shut = all[r.Intn(len(all))]
			if fi, err := os.Stat(shut); err != nil || fi.IsDir() {
				shut = ""
			} else {
				os.Chmod(shut, 0)
			}
		}
		out := &sink{limit: -1}
		what := step("packaging %s, unreadable %q", strings.Join(txt, ", "), strings.TrimPrefix(shut, x.work))

		// what has to come out of it
		wantErr := ""
		want := map[string][]onDisk{}
		pkgs := map[string][]string{}
		fl, err := ds.Files()
		if err != nil {
			wantErr = err.Error()
		}
		// what each of the declarations stands for
		virtual, listed := map[string]string{}, map[string]bool{}
		for _, f := range fl {
			listed[f.Abs] = true
		}
		for _, d := range ds {
			if v, ok := d.(parser.Virtualer); ok {
				for _, s := range v.VirtualPaths() {
					virtual[s] = s
				}
			}
			f, ok := d.(parser.Filer)
			if !ok {
				continue
			}
			fs, e := f.Files(virtual)
			if e != nil && err == nil {
				fail(t, "%s: the files of a declaration can't be told (%v), no error", what, e)
				return
			}
			if e != nil {
				break
			}
			for _, f := range fs {
				virtual[f.Abs] = f.Abs
				if err == nil && !listed[f.Abs] {
					fail(t, "%s: %s is left out", what, f.Abs)
					return
				}
			}
		}
		for _, f := range fl {
			if strings.HasSuffix(f.Abs, ".tmp") {
				continue
			}
			fi, err := os.Stat(f.Abs)
			if err != nil {
				wantErr = err.Error()
				break
			}
			e := onDisk{fi: pkging.NewFileInfo(fi)}
			if fi.IsDir() {
				if _, err := ioutil.ReadDir(f.Abs); err != nil {
					wantErr = err.Error()
				}
			} else {
				e.data, err = ioutil.ReadFile(f.Abs)
				if err != nil {
					wantErr = err.Error()
				}
			}
			k := here.Path{Pkg: f.Path.Pkg, Name: path.Clean("/" + f.Path.Name)}.String()
			want[k] = append(want[k], e)
			pkgs[k] = append(pkgs[k], f.Here.ImportPath)
		}
		if msg := guard(func() { err = pkgutil.Stuff(out, x.her, ds) }); msg != "" {
			fail(t, "%s: %s", what, msg)
			return
		}
		if r.Intn(3) == 0 && len(out.b) > 0 {
			// again, into a file that fills up
			lim := r.Intn(len(out.b))
			if r.Intn(3) == 0 {
				lim = len(out.b) - 1
			}
			full := &sink{limit: lim}
			what2 := step("%s, into a writer that fails after %d of %d bytes", what, lim, len(out.b))
			if e := pkgutil.Stuff(full, x.her, ds); e == nil {
				fail(t, "%s: no error", what2)
			}
		}
		if shut != "" {
			os.Chmod(shut, 0644)
		}
		if (err != nil) != (wantErr != "") {
			fail(t, "%s: error %v, want %s", what, err, wantErr)
			return
		}
		if err != nil {
			continue
		}
		fs, err := mem.UnmarshalEmbed(out.b)
		if err != nil {
			fail(t, "%s: the payload can't be read: %v", what, err)
			return
		}
		if cur, err := fs.Current(); err != nil || cur.ImportPath != x.her.ImportPath || cur.Dir != x.her.Dir || cur.Module != x.her.Module {
			fail(t, "%s: the payload is for %v", what, cur)
		}
		got, bad := contents(fs)
		if bad != "" {
			fail(t, "%s: %s", what, bad)
			return
		}
		for k := range want {
			if _, ok := got[k]; !ok {
				fail(t, "%s: %s is missing", what, k)
			}
		}
		for k, g := range got {
			why := "it isn't declared"
			for l, w := range want[k] {
				if why = differs(map[string]onDisk{k: g}, map[string]onDisk{k: w}); why != "" {
					continue
				}
				f, err := fs.Open(k)
				if err != nil {
					why = err.Error()
				} else if f.Info().ImportPath != pkgs[k][l] {
					why = "its package is " + f.Info().ImportPath
				}
				if why == "" {
					break
				}
			}
			if why != "" {
				fail(t, "%s: entry %s: %s", what, k, why)
			}
		}
	}
}
