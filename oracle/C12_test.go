package oracle

import (
	"errors"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging/stdos"
)

//verif:with diskfs_test.go

type visit struct {
	path string
	fi   os.FileInfo
	err  error
}

func TestVerifC12(t *testing.T) {
	x := newDisk(t, rng())
	r := x.r
	boom := errors.New("boom")
	n := budget(1500, 15000)
	for i := 0; i < n && !x.bad; i++ {
		x.reset()
		fs, _ := stdos.New(x.her)
		var made []string
		for k := r.Intn(12); k > 0; k-- { // more files
			d := []string{"m", "sub"}[r.Intn(2)]
			var es []string
			for l := r.Intn(4); l >= 0; l-- {
				es = append(es, word(r))
			}
			if r.Intn(5) == 0 { // the directory's own path once more, inside it
				es = append([]string{strings.TrimPrefix(filepath.Join(x.work, d), "/")}, es...)
			}
			p := filepath.Join(x.work, d, filepath.Join(es...))
			if r.Intn(4) == 0 {
				os.MkdirAll(p, 0755)
			} else {
				os.MkdirAll(filepath.Dir(p), 0755)
				ioutil.WriteFile(p, []byte("x"), os.FileMode([]int{0644, 0600, 0755}[r.Intn(3)]))
			}
			made = append(made, d+"/"+strings.Join(es, "/"))
		}
		if r.Intn(3) == 0 { // links are visited, not followed
			for _, d := range []string{"m", "sub"} {
				to := []string{"a", "b", "a b", "/", filepath.Join(x.work, d, "ab"), "nowhere"}[r.Intn(6)]
				if os.Symlink(to, filepath.Join(x.work, d, "ln")) == nil {
					made = append(made, d+"/ln -> "+to)
				}
			}
		}
		shut := ""
		if r.Intn(8) == 0 {
			shut = filepath.Join(x.work, []string{"m", "sub"}[r.Intn(2)], []string{"a", "a/b", "empty"}[r.Intn(3)])
			os.Chmod(shut, 0)
		}
		var name string
		var pt here.Path
		var her here.Info
		var loc string
		var ok bool
		for {
			name = x.name()
			if r.Intn(3) == 0 {
				name = []string{"", x.sub.ImportPath + ":"}[r.Intn(2)] + "/" + []string{"", "a", "ab", "a/b", "a b", "ln"}[r.Intn(6)]
			}
			pt, her, loc, _, ok = x.where(name)
			if ok || pt.Pkg == "" || pt.Pkg == "verif.test/none" {
				break
			}
		}
		skipAt, failAt, skipDirs := -1, -1, r.Intn(4) == 0
		if r.Intn(3) == 0 {
			skipAt = r.Intn(8)
		}
		if r.Intn(3) == 0 {
			failAt = r.Intn(12)
		}
		cb := func(vs *[]visit, conv func(string) string) filepath.WalkFunc {
			return func(p string, fi os.FileInfo, err error) error {
				k := len(*vs)
				*vs = append(*vs, visit{conv(p), fi, err})
				if k == failAt {
					return boom
				}
				if k == skipAt || skipDirs && fi != nil && fi.IsDir() && k > 2 {
					return filepath.SkipDir
				}
				return nil
			}
		}
		what := step("tree with %q, unreadable %q, Walk(%q), SkipDir at %d, error at %d, skipping directories %v", made, shut, name, skipAt, failAt, skipDirs)
		var got, want []visit
		var err, werr error
		msg := guard(func() { err = fs.Walk(name, cb(&got, func(s string) string { return s })) })
		if msg != "" {
			fail(t, "%s: %s", what, msg)
			x.bad = true
		}
		if !ok {
			if err == nil || len(got) > 0 {
				fail(t, "%s: the name leads nowhere, error %v, %d callbacks", what, err, len(got))
				x.bad = true
			}
			continue
		}
		inner := cb(&want, func(p string) string {
			rel := strings.TrimPrefix(p, her.Dir)
			return here.Path{Pkg: pt.Pkg, Name: rel}.String()
		})
		werr = filepath.Walk(loc, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			return inner(p, fi, nil)
		})
		if shut != "" {
			os.Chmod(shut, 0755)
		}
		if err != werr && (err == nil || werr == nil || err.Error() != werr.Error()) {
			fail(t, "%s: error %v, want %v", what, err, werr)
			x.bad = true
		}
		d := ""
		for k := 0; k < len(got) || k < len(want); k++ {
			switch {
			case k >= len(got):
				d = "no callback for " + want[k].path
			case k >= len(want):
				d = "callback for " + got[k].path
			case got[k].path != want[k].path:
				d = fmt.Sprintf("callback for %s, want %s", got[k].path, want[k].path)
			case got[k].err != nil:
				d = fmt.Sprintf("callback for %s with error %v", got[k].path, got[k].err)
			default:
				d = sameInfo(got[k].fi, want[k].fi, false)
				if d != "" {
					d = got[k].path + ": " + d
				}
			}
			if d != "" {
				fail(t, "%s: %s", what, d)
				x.bad = true
				break
			}
		}
	}
}
