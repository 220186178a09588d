package oracle

import (
	"errors"
	"fmt"
	"go/token"
	"io/ioutil"
	"os"
	"path"
	"path/filepath"
	"strings"
	"syscall"
	"testing"

	"github.com/markbates/pkger/cmd/pkger/cmds"
	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/parser"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/mem"
)

//verif:with diskfs_test.go
//verif:with copy_test.go
//verif:with child_test.go

// decl18 stands for any files, fails, or panics
type decl18 struct {
	files []*parser.File
	err   error
	pan   interface{}
	do    func()
}

func (d decl18) File() (*parser.File, error)       { return nil, os.ErrNotExist }
func (d decl18) Position() (token.Position, error) { return token.Position{}, nil }
func (d decl18) Value() (string, error)            { return "", nil }
func (d decl18) Files(map[string]string) ([]*parser.File, error) {
	if d.do != nil {
		d.do()
	}
	if d.pan != nil {
		panic(d.pan)
	}
	return d.files, d.err
}

// want18 is what the declarations stand for
func want18(ds parser.Decls) (map[string]onDisk, bool) {
	want := map[string]onDisk{}
	var ok bool
	if msg := guard(func() {
		fl, err := ds.Files()
		if err != nil {
			return
		}
		for _, f := range fl {
			if strings.HasSuffix(f.Abs, ".tmp") {
				continue
			}
			fi, err := os.Stat(f.Abs)
			if err != nil {
				return
			}
			e := onDisk{fi: pkging.NewFileInfo(fi)}
			if !fi.IsDir() {
				if e.data, err = ioutil.ReadFile(f.Abs); err != nil {
					return
				}
			} else if _, err := ioutil.ReadDir(f.Abs); err != nil {
				return
			}
			want[here.Path{Pkg: f.Path.Pkg, Name: path.Clean("/" + f.Path.Name)}.String()] = e
		}
		ok = true
	}); msg != "" {
		return nil, false
	}
	return want, ok
}

func sameContents(payload string, her here.Info, want map[string]onDisk) string {
	fs, err := mem.UnmarshalEmbed([]byte(payload))
	if err != nil {
		return "the payload can't be read: " + err.Error()
	}
	if cur, err := fs.Current(); err != nil || cur.ImportPath != her.ImportPath || cur.Dir != her.Dir || cur.Module != her.Module {
		return fmt.Sprintf("the payload is for %v", cur)
	}
	got, bad := contents(fs)
	if bad != "" {
		return bad
	}
	return differs(got, want)
}

func TestVerifC18(t *testing.T) {
	if os.Getenv("VERIF_CHILD") != "" {
		child()
		return
	}
	x := newDisk(t, rng())
	r := x.r
	x.reset()
	os.MkdirAll(filepath.Join(x.work, "gone"), 0755)
	os.MkdirAll(filepath.Join(x.work, "shut"), 0755)
	ioutil.WriteFile(filepath.Join(x.work, "shut/shut.go"), []byte("package closed\n"), 0644)
	os.MkdirAll(filepath.Join(x.work, "cmd-x"), 0755)
	ioutil.WriteFile(filepath.Join(x.work, "cmd-x/main.go"), []byte("package main\n"), 0644)
	// more than any buffer, and not to be compressed
	big := make([]byte, 200000)
	r.Read(big)
	ioutil.WriteFile(filepath.Join(x.work, "big.bin"), big, 0644)
	names := map[string]string{"": "app", "sub": "sub", "shut": "closed", "cmd-x": "main", "nodir": "", "b/below": ""}
	for d := range names {
		// once and for all
		here.Dir(filepath.Join(x.work, d))
	}
	var all []string
	filepath.Walk(x.work, func(p string, fi os.FileInfo, err error) error {
		if err == nil && p != x.work {
			all = append(all, p)
		}
		return nil
	})
	n := budget(1500, 15000)
	for i := 0; i < n && !t.Failed(); i++ {
		dir := []string{"", "", "sub", "sub", "cmd-x", "shut", "nodir", "b/below"}[r.Intn(8)]
		out := filepath.Join(x.work, dir, []string{"pkged.go", "pkged.go", "other.go"}[r.Intn(3)])
		var ds parser.Decls
		var txt []string
		for k := r.Intn(4); k > 0; k-- {
			var d decl18
			switch r.Intn(14) {
			case 0:
				d.err = errors.New("can't be resolved")
				txt = append(txt, "a declaration that fails")
			case 1:
				d.pan = []interface{}{"a panic", errors.New("a panic"), 1}[r.Intn(3)]
				txt = append(txt, fmt.Sprintf("one that panics with %v", d.pan))
			case 2:
				d.files = []*parser.File{nil}
				txt = append(txt, "one with a missing entry")
			}
			for l := r.Intn(4); l > 0 && len(d.files) == 0; l-- {
				abs := all[r.Intn(len(all))]
				if abs == filepath.Dir(out) || abs == filepath.Join(x.work, "shut") {
					continue // changed by what is done
				}
				if r.Intn(30) == 0 {
					abs += ".missing"
				}
				d.files = append(d.files, &parser.File{Abs: abs, Path: here.Path{Pkg: x.her.ImportPath, Name: strings.TrimPrefix(abs, x.work)}, Here: x.her})
				txt = append(txt, strings.TrimPrefix(abs, x.work))
			}
			ds = append(ds, d)
		}
		stale := r.Intn(2) == 0
		if stale {
			ioutil.WriteFile(out, []byte("package stale\n"), 0644)
		}
		if r.Intn(6) == 0 {
			// it appears while the declarations are resolved
			ds = append(ds, decl18{do: func() { ioutil.WriteFile(out, []byte("package late\n"), 0644) }})
			txt = append(txt, "an output that appears meanwhile")
		}
		shut := dir == "shut"
		before := tree18(x.work, out)
		if shut {
			os.Chmod(filepath.Join(x.work, dir), 0555)
		}
		limit := -1
		if r.Intn(4) == 0 && !shut {
			limit = []int{0, 1, 100, 400, 600, 800, 1000}[r.Intn(7)] + r.Intn(100)
		}
		what := step("generating %s (stale: %v, space for %d bytes) from %s", strings.TrimPrefix(out, x.work), stale, limit, strings.Join(txt, ", "))
		want, ok := want18(ds)
		var old syscall.Rlimit
		if limit >= 0 {
			syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
			syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(limit), Max: old.Max})
		}
		var err error
		msg := guard(func() { err = cmds.Package(x.her, out, ds) })
		if limit >= 0 {
			syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
		}
		if shut {
			os.Chmod(filepath.Join(x.work, dir), 0755)
		}
		if msg != "" {
			fail(t, "%s: %s", what, msg)
			return
		}
		if after := tree18(x.work, out); after != before {
			fail(t, "%s: more than the output is changed: %s", what, differ18(before, after))
			return
		}
		_, serr := os.Lstat(out)
		switch {
		case err != nil:
			if serr == nil && !shut {
				fail(t, "%s: error %v, but there is an output", what, err)
			}
			if ok && !shut && names[dir] != "" && limit < 0 {
				fail(t, "%s: error %v", what, err)
			}
		case !ok || shut && !stale || names[dir] == "":
			fail(t, "%s: no error", what)
		default:
			p, msg := payload18(out, names[dir])
			if msg == "" {
				msg = sameContents(p, x.her, want)
			}
			if msg != "" {
				fail(t, "%s: %s", what, msg)
			}
		}
		os.RemoveAll(out)
	}
	command18(t, x)
}

// command18 is the whole command
func command18(t *testing.T, x *disk) {
	r := x.r
	for i, n := 0, budget(12, 80); i < n && !t.Failed(); i++ {
		x.reset()
		os.MkdirAll(filepath.Join(x.work, "gen"), 0755)
		ioutil.WriteFile(filepath.Join(x.work, "gen/gen.go"), []byte("package gen\n"), 0644)
		src := "package app\nimport \"github.com/markbates/pkger\"\n"
		nm := []string{"/a", "/ab", "/a/b.txt", "/b", "/a b", "/empty", "/dd/..a"}
		for k := r.Intn(4); k > 0; k-- {
			src += fmt.Sprintf("var _ = pkger.%s(%q)\n", kinds18[r.Intn(len(kinds18))], nm[r.Intn(len(nm))])
		}
		broken := r.Intn(4)
		switch broken {
		case 0:
			src += "var _ = pkger.Open(\"/missing\")\n"
		case 1:
			src += "this is no Go file\n"
		}
		if broken != 1 {
			ioutil.WriteFile(filepath.Join(x.work, "app2.go"), []byte(src), 0644)
		} else {
			ioutil.WriteFile(filepath.Join(x.work, "sub/broken.go"), []byte(src), 0644)
		}
		o := []string{"", "gen", "sub"}[r.Intn(3)]
		out := filepath.Join(x.work, o, "pkged.go")
		stale := r.Intn(2) == 0
		if stale {
			ioutil.WriteFile(out, []byte("package "+map[string]string{"": "app", "gen": "gen", "sub": "sub"}[o]+"\n"), 0644)
		}
		args := []string{"-o", o}
		if o == "" && r.Intn(2) == 0 {
			args = nil
		}
		inc := ""
		if r.Intn(2) == 0 {
			inc = nm[r.Intn(len(nm))]
			args = append(args, "-include", inc)
		}
		// it is the module that counts, not the current directory
		from := []string{"", "", "sub", "a/b"}[r.Intn(4)]
		what := step("pkger %q in /%s (stale: %v) with %s", args, from, stale, src)
		before := tree18(x.work, out)
		txt, ok := run18("TestVerifC18", filepath.Join(x.work, from), args...)
		if after := tree18(x.work, out); after != before {
			fail(t, "%s: more than the output is changed: %s", what, differ18(before, after))
			return
		}
		_, serr := os.Lstat(out)
		switch {
		case broken < 2 && ok:
			fail(t, "%s: no error: %s", what, txt)
		case broken < 2 && serr == nil:
			fail(t, "%s: it fails, but there is an output: %s", what, txt)
		case broken >= 2 && !ok:
			fail(t, "%s: it fails: %s", what, txt)
		case broken >= 2:
			p, msg := payload18(out, map[string]string{"": "app", "gen": "gen", "sub": "sub"}[o])
			if msg == "" {
				fs, err := mem.UnmarshalEmbed([]byte(p))
				if err != nil {
					msg = err.Error()
				} else if inc != "" {
					if _, err := fs.Stat(inc); err != nil {
						msg = "what is included is missing: " + err.Error()
					}
				}
			}
			if msg != "" {
				fail(t, "%s: %s", what, msg)
			}
		}
		for _, f := range []string{"app2.go", "sub/broken.go", "pkged.go", "sub/pkged.go", "gen/pkged.go"} {
			os.Remove(filepath.Join(x.work, f))
		}
	}
}

var kinds18 = []string{"Include", "Stat", "Open", "Dir", "Walk"}
