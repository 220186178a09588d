package oracle

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/parser"
	"github.com/markbates/pkger/pkging/mem"
)

//verif:with diskfs_test.go
//verif:with copy_test.go
//verif:with child_test.go

func run20(dir string, args ...string) (string, bool) {
	return run18("TestVerifC20", dir, args...)
}

func TestVerifC20(t *testing.T) {
	if os.Getenv("VERIF_CHILD") != "" {
		child()
		return
	}
	x := newDisk(t, rng())
	r := x.r
	for i, n := 0, budget(14, 80); i < n && !t.Failed(); i++ {
		x.reset()
		for _, f := range []string{"a/x.tmp", "a/y.tmp.txt", "x.tmp", "b/.tmp", "tmp", "p,q.txt", "k=v", "gen/gen.go", "bad/bad.go"} {
			os.MkdirAll(filepath.Dir(filepath.Join(x.work, f)), 0755)
			c := "some\n"
			switch f {
			case "gen/gen.go":
				c = "package gen\n"
			case "bad/bad.go":
				c = "package bad\n"
				if r.Intn(4) == 0 {
					c = "no Go file\n"
				}
			}
			ioutil.WriteFile(filepath.Join(x.work, f), []byte(c), 0644)
		}
		bad := false
		if b, _ := ioutil.ReadFile(filepath.Join(x.work, "bad/bad.go")); string(b) != "package bad\n" {
			bad = true
		}
		listed20(t, x, r, bad)
		for k := 0; k < 6 && !t.Failed(); k++ {
			other20(t, x, r, bad)
		}
		for _, f := range []string{"pkged.go", "app2.go", "gen/pkged.go", "x.tmp", "tmp"} {
			os.Remove(filepath.Join(x.work, f))
		}
		os.RemoveAll(filepath.Join(x.work, "bad"))
	}
}

var names20 = []string{"/a", "/ab", "/a/b.txt", "/b", "/a b", "/empty", "/x.tmp", "/a/x.tmp", "/a/y.tmp.txt", "/tmp", "/", "/sub", "/b/.tmp", "/p,q.txt", "/k=v", "/p,q.txt"}

// listed20 compares what is listed with what is packaged
func listed20(t *testing.T, x *disk, r *rand.Rand, bad bool) {
	src := "package app\nimport \"github.com/markbates/pkger\"\n"
	made := map[string]bool{}
	missing := false
	stat := func(n string) {
		if _, err := os.Stat(filepath.Join(x.work, n)); err != nil {
			missing = true
		}
	}
	for k := r.Intn(4); k > 0; k-- {
		n := names20[r.Intn(len(names20))]
		if r.Intn(20) == 0 {
			n = "/missing"
		}
		call := []string{"Include", "Stat", "Open", "Dir", "Walk", "Create"}[r.Intn(6)]
		stat(n)
		made[n] = made[n] || call == "Create"
		src += fmt.Sprintf("var _ = pkger.%s(%q)\n", call, n)
	}
	ioutil.WriteFile(filepath.Join(x.work, "app2.go"), []byte(src), 0644)
	var args []string
	for k := r.Intn(3); k > 0; k-- {
		n := names20[r.Intn(len(names20))]
		if r.Intn(15) == 0 {
			n = "/missing"
		}
		stat(n)
		args = append(args, "-include", n)
	}
	what := step("with the include flags %q (bad: %v) and %s", args, bad, src)
	out := filepath.Join(x.work, "pkged.go")
	before := tree18(x.work, out)
	ptxt, pok := run20(x.work, args...)
	if !pok && !missing && !bad {
		fail(t, "%s: packaging fails: %s", what, ptxt)
		return
	}
	var want []string
	if pok {
		p, msg := payload18(out, "app")
		if msg != "" {
			fail(t, "%s: %s", what, msg)
			return
		}
		fs, err := mem.UnmarshalEmbed([]byte(p))
		if err != nil {
			fail(t, "%s: %v", what, err)
			return
		}
		got, msg := contents(fs)
		if msg != "" {
			fail(t, "%s: %s", what, msg)
			return
		}
		for k := range got {
			want = append(want, k)
		}
		sort.Strings(want)
		for _, n := range args {
			if n == "-include" || made[n] || strings.HasSuffix(n, ".tmp") {
				continue
			}
			if _, ok := got["verif.test/app:"+n]; !ok {
				fail(t, "%s: %s is not packaged: %q", what, n, want)
				return
			}
		}
	}
	for _, asJSON := range []bool{false, true} {
		a := []string{"list"}
		if asJSON {
			a = append(a, "-json")
		}
		txt, ok := run20(x.work, append(a, args...)...)
		if ok != pok {
			fail(t, "%s: packaging succeeds: %v, listing: %v: %s %s", what, pok, ok, ptxt, txt)
			return
		}
		if after := tree18(x.work, out); after != before {
			fail(t, "%s: files are changed: %s", what, differ18(before, after))
			return
		}
		if !ok {
			continue
		}
		var got []string
		if asJSON {
			var j struct {
				ImportPath string
				Files      []*parser.File
			}
			if err := json.Unmarshal([]byte(txt), &j); err != nil || j.ImportPath != "verif.test/app" {
				fail(t, "%s: listed as %s: %v", what, txt, err)
				return
			}
			for _, f := range j.Files {
				got = append(got, f.Path.String())
			}
		} else {
			ls := strings.Split(strings.TrimSuffix(txt, "\n"), "\n")
			if ls[0] != "verif.test/app" {
				fail(t, "%s: listed as %s", what, txt)
				return
			}
			for _, l := range ls[1:] {
				if !strings.HasPrefix(l, " > ") {
					fail(t, "%s: listed as %s", what, txt)
					return
				}
				got = append(got, strings.TrimPrefix(l, " > "))
			}
		}
		sort.Strings(got)
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
			fail(t, "%s: packaged: %q, listed: %q", what, want, got)
			return
		}
	}
}

// other20 runs something else
func other20(t *testing.T, x *disk, r *rand.Rand, bad bool) {
	out := filepath.Join(x.work, "pkged.go")
	ioutil.WriteFile(out, []byte("package app\n"), 0644)
	before := tree18(x.work, "")
	pick := func(l ...string) string { return l[r.Intn(len(l))] }
	check := func(ok bool, has string, not string, args ...string) {
		what := step("pkger %q", args)
		txt, good := run20(x.work, args...)
		if good != ok {
			fail(t, "%s: succeeds: %v, want %v: %s", what, good, ok, txt)
			return
		}
		if has != "" && !strings.Contains(txt, has) {
			fail(t, "%s: %q is missing in %s", what, has, txt)
		}
		if not != "" && strings.Contains(txt, not) {
			fail(t, "%s: there is %q in %s", what, not, txt)
		}
		if after := tree18(x.work, ""); after != before {
			fail(t, "%s: files are changed: %s", what, differ18(before, after))
		}
	}
	switch r.Intn(8) {
	case 0: // an unknown name
		w := pick("lis", "List", "list ", "lists", "pack", "pkger", "", "help", "-", "./list", "h", "stats", "inf", "a", "go", word(r))
		switch w {
		case "list", "stat", "info", "path", "parse", "serve":
			return
		}
		if strings.HasPrefix(w, "-") && w != "-" {
			return
		}
		args := []string{w}
		for k := r.Intn(3); k > 0; k-- {
			args = append(args, pick("list", "stat", "-h", "help", "/a", ".", "-json", word(r)))
		}
		if r.Intn(3) == 0 {
			args = append([]string{"-o", "gen"}, args...)
		}
		check(false, "ERROR:", "", args...)
	case 1: // help
		c := pick("list", "stat", "info", "path", "parse", "serve")
		switch r.Intn(4) {
		case 0:
			check(true, "Usage:", "ERROR", "-h")
		case 1:
			check(true, "Usage:", "ERROR", append([]string{"-o", "gen", "-h"}, []string{}...)...)
		case 2:
			check(true, "pkger "+c+" ", "ERROR", c, "-h")
		case 3:
			check(true, "pkger "+c+" ", "ERROR", c, pick("a", "-json", "-x", "/missing"), pick("-h", "x"), "-h")
		}
	case 2: // paths
		a, b := pick("/a", "/b/c", "/", "/x.go"), pick("/d", "/missing", "/e f", "verif.test/app:/x")
		if r.Intn(4) == 0 {
			check(false, "ERROR:", "", "path")
			return
		}
		if r.Intn(4) == 0 {
			check(false, "ERROR:", "", "path", a, "::", b)
			return
		}
		if r.Intn(4) == 0 { // all of them count
			args := []string{"path"}
			for k := 0; k < 3+r.Intn(20); k++ {
				args = append(args, fmt.Sprintf("/n%d", k))
			}
			last := args[len(args)-1]
			check(true, fmt.Sprintf("%q: {", last), "ERROR", args...)
			return
		}
		args := []string{"path", a, b}
		what := step("pkger %q", args)
		txt, ok := run20(x.work, args...)
		m := map[string]here.Path{}
		err := json.Unmarshal([]byte(txt), &m)
		if !ok || err != nil || len(m) != 2 || !strings.HasPrefix(m[a].Name, "/") || !strings.HasPrefix(m[b].Name, "/") || m[a].Pkg != "verif.test/app" {
			fail(t, "%s: %s", what, txt)
		}
		check(true, "", "", args...)
	case 3: // metadata
		switch r.Intn(4) {
		case 3: // the name of a package there isn't
			check(false, "ERROR:", "", "stat", pick("help", "version", "/a/b.txt"), "help")
		case 0:
			check(false, "ERROR:", "", "stat", "/missing")
		case 1:
			check(false, "ERROR:", "", "stat", "/a/b.txt", "/missing")
		case 2:
			stat20(t, x, r)
		}
	case 4:
		switch r.Intn(3) {
		case 0, 1:
			check(true, `"verif.test/app"`, "ERROR", "info", "verif.test/app", "verif.test/app")
		case 2:
			check(false, "ERROR:", "", "info", "verif.test/app", "verif.test/missing")
		}
	case 5:
		ioutil.WriteFile(filepath.Join(x.work, "app2.go"), []byte("package app\n\nimport \"github.com/markbates/pkger\"\n\nvar _ = pkger.Include(\"/a\")\n"), 0644)
		before = tree18(x.work, "")
		if bad {
			check(false, "ERROR:", "", append([]string{"parse"}, [][]string{{"."}, {".", "verif.test/app/sub"}, {"verif.test/app/sub", "."}}[r.Intn(3)]...)...)
			return
		}
		check(true, `"."`, "ERROR", "parse")
		check(false, "ERROR:", "", "parse", ".", "verif.test/missing")
	case 6:
		if r.Intn(2) == 0 { // no such flag
			check(false, "not defined", "ERROR", pick("list", "path", "parse"), pick("-hx", "-help2", "-h2"))
			return
		}
		check(false, "ERROR:", "", "serve", "/missing")
		for k := 0; k < 3; k++ {
			fault20(t, x, r)
		}
	case 7: // the flags of a command aren't those of another
		before = tree18(x.work, out)
		txt, ok := run20(x.work, "list", "-o", "gen")
		if ok {
			fail(t, "%s: %s", step("pkger list -o gen"), txt)
		}
		if after := tree18(x.work, out); after != before {
			fail(t, "%s: files are changed: %s", step("pkger list -o gen"), differ18(before, after))
		}
	}
}

// fault20 lets one kind of operation fail: a command that hits it reports it
func fault20(t *testing.T, x *disk, r *rand.Rand) {
	before := tree18(x.work, "")
	kind := []string{"current", "info", "parse", "open", "stat", "readdir", "readdir1"}[r.Intn(7)]
	args := [][]string{{"stat"}, {"stat", "/a"}, {"stat", "/a/b.txt", "/a"}, {"stat", "/a", "/a/b.txt"}, {"stat", "/b", "/a/b.txt"}, {"stat", "/gen", "/a", "/b"}, {"info", "verif.test/app"}, {"path", "/a"}, {"path", "/a", "/b"}, {"serve", "/missing"}, {"list"}, {"list", "-json"}, {}}[r.Intn(13)]
	if len(args) == 0 || args[0] == "list" {
		kind = "current" // before anything is removed
	}
	if args != nil && len(args) > 0 && args[0] == "serve" {
		kind = "open"
	}
	what := step("pkger %q on a disk whose %s fails", args, kind)
	txt, ok := run18("fault:"+kind+":TestVerifC20", x.work, args...)
	hit := strings.Contains(txt, "FAULT")
	if hit && (ok || !strings.Contains(txt, "ERROR:")) {
		fail(t, "%s: no error is reported: %s", what, txt)
	}
	if !hit && !ok && (len(args) == 0 || args[0] != "serve") {
		fail(t, "%s: it fails without one: %s", what, txt)
	}
	if after := tree18(x.work, ""); after != before {
		fail(t, "%s: files are changed: %s", what, differ18(before, after))
	}
}

// stat20 compares what stat reports with the disk
func stat20(t *testing.T, x *disk, r *rand.Rand) {
	args := []string{"stat"}
	type meta struct {
		Name  string
		Size  int64
		Mode  os.FileMode
		IsDir bool `json:"is_dir"`
	}
	var want []meta
	add := func(fi os.FileInfo) { want = append(want, meta{fi.Name(), fi.Size(), fi.Mode(), fi.IsDir()}) }
	names := []string{"/a/b.txt", "/b", "/a", "/x.tmp", "/a/x.tmp", "/gen", "/tmp", "/app.go", "/a/b.txt"}
	k := r.Intn(4)
	for i := 0; i < k; i++ {
		n := names[r.Intn(len(names))]
		if _, err := os.Stat(filepath.Join(x.work, n)); err == nil {
			args = append(args, n)
		}
	}
	of := args[1:]
	if len(of) == 0 {
		of = []string{"/"}
	}
	for _, n := range of {
		p := filepath.Join(x.work, n)
		fi, _ := os.Stat(p)
		if !fi.IsDir() {
			add(fi)
			continue
		}
		l, _ := ioutil.ReadDir(p)
		for _, fi := range l {
			add(fi)
		}
	}
	what := step("pkger %q", args)
	txt, ok := run20(x.work, args...)
	if !ok || strings.Contains(txt, "ERROR") {
		fail(t, "%s: fails: %s", what, txt)
		return
	}
	var got []meta
	i := strings.Index(txt, "{")
	if i < 0 {
		i = len(txt)
	}
	for dec := json.NewDecoder(strings.NewReader(txt[i:])); ; {
		var d struct{ Details meta }
		if dec.Decode(&d) != nil {
			break
		}
		d.Details.Name = filepath.Base(d.Details.Name)
		got = append(got, d.Details)
	}
	key := func(l []meta) string {
		var s []string
		for _, m := range l {
			s = append(s, fmt.Sprintf("%+v", m))
		}
		sort.Strings(s)
		return strings.Join(s, "\n")
	}
	if key(got) != key(want) {
		fail(t, "%s: reports\n%s\nthe disk\n%s\n(%s)", what, key(got), key(want), txt)
	}
}
