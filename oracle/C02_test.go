package oracle

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/embed"
	"github.com/markbates/pkger/pkging/mem"
)

//verif:with memfs_test.go

func c02list(r *rand.Rand) []string {
	var l []string
	for n := r.Intn(3); n > 0; n-- {
		l = append(l, word(r))
	}
	return l
}

func c02info(r *rand.Rand, p string) here.Info {
	i := here.Info{ImportPath: p}
	if r.Intn(3) > 0 {
		i.Dir = "/nowhere/" + word(r)
		i.Name = word(r)
		i.Module = here.Module{Path: p, Main: r.Intn(2) == 0, Dir: "/nowhere", GoMod: "/nowhere/go.mod", GoVersion: "1.13"}
	}
	if r.Intn(3) == 0 {
		i.Doc, i.Target, i.Root, i.Stale, i.StaleReason = word(r), word(r), "/"+word(r), true, word(r)
		i.Match, i.GoFiles, i.Imports, i.Deps, i.TestGoFiles, i.TestImports = c02list(r), c02list(r), c02list(r), c02list(r), c02list(r), c02list(r)
	}
	return i
}

func c02norm(i here.Info) string {
	b, _ := json.Marshal(i)
	var m map[string]interface{}
	json.Unmarshal(b, &m)
	for k, v := range m {
		if l, ok := v.([]interface{}); ok && len(l) == 0 {
			m[k] = nil
		}
	}
	b, _ = json.Marshal(m)
	return string(b)
}

// c02same compares what two filesystems show
func c02same(a, b *mem.Pkger, pkgs []string, paths []here.Path) string {
	x, _ := a.Current()
	y, _ := b.Current()
	if c02norm(x) != c02norm(y) {
		return fmt.Sprintf("the module is %s, was %s", c02norm(y), c02norm(x))
	}
	for _, p := range pkgs {
		x, e1 := a.Info(p)
		y, e2 := b.Info(p)
		if (e1 == nil) != (e2 == nil) || e1 == nil && c02norm(x) != c02norm(y) {
			return fmt.Sprintf("package %q is %s (%v), was %s (%v)", p, c02norm(y), e2, c02norm(x), e1)
		}
	}
	for _, pt := range paths {
		f, e1 := a.Open(pt.String())
		g, e2 := b.Open(pt.String())
		if (e1 == nil) != (e2 == nil) {
			return fmt.Sprintf("Open(%s): %v, was %v", pt, e2, e1)
		}
		if e1 != nil {
			continue
		}
		if f.Path() != g.Path() || c02norm(f.Info()) != c02norm(g.Info()) {
			return fmt.Sprintf("%s is %s of %s, was %s of %s", pt, g.Path(), c02norm(g.Info()), f.Path(), c02norm(f.Info()))
		}
		s, e1 := f.Stat()
		t, e2 := g.Stat()
		if e1 != nil || e2 != nil {
			return fmt.Sprintf("Stat(%s): %v, was %v", pt, e2, e1)
		}
		if s.Name() != t.Name() || s.Size() != t.Size() || s.Mode() != t.Mode() || s.IsDir() != t.IsDir() || !s.ModTime().Equal(t.ModTime()) {
			return fmt.Sprintf("%s has metadata %s %d %v %v dir=%v, had %s %d %v %v dir=%v", pt, t.Name(), t.Size(), t.Mode(), t.ModTime(), t.IsDir(), s.Name(), s.Size(), s.Mode(), s.ModTime(), s.IsDir())
		}
		if s.IsDir() {
			continue
		}
		c, e1 := ioutil.ReadAll(f)
		d, e2 := ioutil.ReadAll(g)
		if e1 != nil || e2 != nil || !bytes.Equal(c, d) {
			return fmt.Sprintf("%s has %d bytes (%v), had %d (%v)", pt, len(d), e2, len(c), e1)
		}
	}
	w := func(fs *mem.Pkger, pkg string) []string {
		var l []string
		fs.Walk(pkg+":/", func(p string, _ os.FileInfo, _ error) error {
			l = append(l, p)
			return nil
		})
		return l
	}
	for _, p := range pkgs {
		if x, y := w(a, p), w(b, p); !reflect.DeepEqual(x, y) {
			return fmt.Sprintf("the paths of %q are %q, were %q", p, y, x)
		}
	}
	return ""
}

// c02back takes a filesystem there and back
func c02back(r *rand.Rand, fs *mem.Pkger) (*mem.Pkger, []byte, string) {
	var b []byte
	var err error
	if r.Intn(2) == 0 {
		b, err = json.Marshal(fs)
	} else {
		b, err = fs.MarshalJSON()
	}
	if err != nil {
		return nil, nil, fmt.Sprintf("cannot be marshaled: %v", err)
	}
	switch r.Intn(3) {
	case 0:
		g := &mem.Pkger{}
		if r.Intn(2) == 0 { // not an empty one
			g, _ = mem.New(here.Info{ImportPath: "old.test/old", Dir: "/nowhere/old", Module: here.Module{Path: "old.test/old"}})
			if f, err := g.Create("/left.txt"); err == nil {
				f.Close()
			}
		}
		if err := json.Unmarshal(b, g); err != nil {
			return nil, b, fmt.Sprintf("cannot be unmarshaled: %v", err)
		}
		return g, b, ""
	case 1:
		g := &mem.Pkger{}
		if err := g.UnmarshalJSON(append([]byte{}, b...)); err != nil {
			return nil, b, fmt.Sprintf("cannot be unmarshaled: %v", err)
		}
		return g, b, ""
	}
	e, err := embed.Encode(b)
	if err != nil {
		return nil, b, fmt.Sprintf("cannot be encoded: %v", err)
	}
	g, err := mem.UnmarshalEmbed(e)
	if err != nil || g == nil {
		return nil, b, fmt.Sprintf("cannot be rehydrated: %v", err)
	}
	return g, b, ""
}

func c02random(r *rand.Rand) (*mem.Pkger, []string, []here.Path, string, string) {
	names := []string{"app.test/app", "dep.test/dep", "app.test/app2", "std", word(r)}
	n0 := 1 + r.Intn(len(names))
	d := embed.Data{Infos: map[string]here.Info{}, Files: map[string]embed.File{}}
	for _, p := range names[:n0] {
		if r.Intn(4) > 0 {
			d.Infos[p] = c02info(r, p)
		}
	}
	d.Here = c02info(r, names[0])
	if r.Intn(4) > 0 {
		d.Infos[names[0]] = d.Here
	}
	var pts []here.Path
	for k := r.Intn(7); k > 0; k-- {
		pt := here.Path{Pkg: names[r.Intn(n0)], Name: "/"}
		for j := r.Intn(4); j > 0; j-- {
			pt.Name = path.Join(pt.Name, word(r))
		}
		if r.Intn(8) == 0 && len(pts) > 0 {
			pt.Name = path.Join(pts[0].Name, word(r))
		}
		f := embed.File{Path: pt, Here: d.Infos[pt.Pkg]}
		if r.Intn(3) == 0 {
			f.Parent = here.Path{Pkg: pt.Pkg, Name: path.Dir(pt.Name)}
		}
		det := pkging.Details{Name: path.Base(pt.Name), Mode: os.FileMode(r.Uint32()), Size: int64(r.Intn(1 << 20))}
		if r.Intn(2) == 0 {
			det.IsDir, det.Mode = true, os.ModeDir|0755
		} else {
			det.Mode &^= os.ModeDir
			f.Data = make([]byte, []int{0, 1, 3, 255, 4000}[r.Intn(5)])
			r.Read(f.Data)
			if r.Intn(4) > 0 {
				det.Size = int64(len(f.Data))
			}
		}
		switch r.Intn(4) {
		case 0:
			det.ModTime = pkging.ModTime(time.Unix(r.Int63n(1<<32), int64(r.Intn(1e9))).UTC())
		case 1:
			det.ModTime = pkging.ModTime(time.Unix(r.Int63n(1<<34), int64(r.Intn(1000))).In(time.FixedZone("", (r.Intn(20)-10)*1800)))
		case 2:
			det.ModTime = pkging.ModTime(time.Now())
		}
		f.Info = &pkging.FileInfo{Details: det}
		pts = append(pts, pt)
		d.Files[pt.String()] = f
	}
	odd := map[here.Path]bool{}
	for k := r.Intn(3); k > 0; k-- { // names that nothing opens are kept, too
		n := "/" + word(r)
		switch r.Intn(6) {
		case 0:
			n += " "
		case 1:
			n = "/ " + n[1:]
		case 2:
			n += ":/" + word(r)
		case 3:
			n = d.Here.Dir + n
		case 4:
			n = strings.Replace(n, "a", "\\", 1)
		default:
			n += "\t"
		}
		pt := here.Path{Pkg: names[r.Intn(n0)], Name: n}
		if _, ok := d.Files[pt.String()]; ok {
			continue
		}
		odd[pt] = true
		d.Files[pt.String()] = embed.File{Path: pt, Here: d.Infos[pt.Pkg], Data: []byte(n), Info: &pkging.FileInfo{Details: pkging.Details{Name: path.Base(n), Size: int64(len(n))}}}
	}
	b, err := json.Marshal(d)
	if err != nil {
		return nil, nil, nil, "", err.Error()
	}
	fs := &mem.Pkger{}
	if err := fs.UnmarshalJSON(b); err != nil {
		return nil, nil, nil, string(b), fmt.Sprintf("cannot be loaded: %v", err)
	}
	// what was written is there
	if c, err := fs.MarshalJSON(); err != nil {
		return nil, nil, nil, string(b), fmt.Sprintf("cannot be marshaled: %v", err)
	} else if bad := c02parents(b, c); bad != "" {
		return nil, nil, nil, string(b), bad
	}
	for _, f := range d.Files {
		if odd[f.Path] {
			continue
		}
		g, err := fs.Open(f.Path.String())
		if err != nil {
			return nil, nil, nil, string(b), fmt.Sprintf("%s cannot be opened: %v", f.Path, err)
		}
		s, err := g.Stat()
		if err != nil || s.Size() != f.Info.Size() || s.Mode() != f.Info.Mode() || !s.ModTime().Equal(f.Info.ModTime()) || s.IsDir() != f.Info.IsDir() || s.Name() != f.Info.Name() {
			return nil, nil, nil, string(b), fmt.Sprintf("%s has other metadata: %v", f.Path, s)
		}
		if c02norm(g.Info()) != c02norm(f.Here) {
			return nil, nil, nil, string(b), fmt.Sprintf("%s is of %s, want %s", f.Path, c02norm(g.Info()), c02norm(f.Here))
		}
		if !f.Info.IsDir() {
			if c, err := ioutil.ReadAll(g); err != nil || !bytes.Equal(c, f.Data) {
				return nil, nil, nil, string(b), fmt.Sprintf("%s has %d bytes, want %d (%v)", f.Path, len(c), len(f.Data), err)
			}
		}
	}
	for p, i := range d.Infos {
		if g, err := fs.Info(p); err != nil || c02norm(g) != c02norm(i) {
			return nil, nil, nil, string(b), fmt.Sprintf("package %q: %s (%v), want %s", p, c02norm(g), err, c02norm(i))
		}
	}
	if c, _ := fs.Current(); c02norm(c) != c02norm(d.Here) {
		return nil, nil, nil, string(b), "another current module: " + c02norm(c)
	}
	sort.Slice(pts, func(i, j int) bool { return pts[i].String() < pts[j].String() })
	return fs, append(names, "no.such/package"), append(pts, here.Path{Pkg: names[0], Name: "/missing"}), string(b), ""
}

// parents compares what cannot be seen through operations
func c02parents(a, b []byte) string {
	var x, y embed.Data
	if json.Unmarshal(a, &x) != nil || json.Unmarshal(b, &y) != nil {
		return "not readable as data"
	}
	if len(x.Files) != len(y.Files) || len(x.Infos) != len(y.Infos) {
		return fmt.Sprintf("%d files and %d packages, had %d and %d", len(y.Files), len(y.Infos), len(x.Files), len(x.Infos))
	}
	for k, f := range x.Files {
		if g, ok := y.Files[k]; !ok || g.Parent != f.Parent || g.Path != f.Path {
			return fmt.Sprintf("%s is %s in %s, was %s in %s", k, g.Path, g.Parent, f.Path, f.Parent)
		}
	}
	return ""
}

func TestVerifC02(t *testing.T) {
	r := rng()
	for i := 0; i < budget(1500, 20000) && !t.Failed(); i++ {
		var fs *mem.Pkger
		var pkgs []string
		var pts []here.Path
		var what, bad string
		m := guard(func() {
			if i%2 == 0 {
				fs, pkgs, pts, what, bad = c02random(r)
				return
			}
			x := newMemfs(t, r, "C02")
			for j := r.Intn(12); j >= 0 && !x.bad; j-- {
				x.op()
			}
			if x.bad {
				return
			}
			fs = x.fs
			for _, k := range x.sorted() {
				pts = append(pts, k)
			}
			for p := range x.infos {
				pkgs = append(pkgs, p)
			}
			sort.Strings(pkgs)
			what = fmt.Sprint(x.hist)
		})
		step("%s", what)
		if bad != "" || m != "" {
			fail(t, "%s: %s%s", what, bad, m)
			return
		}
		if fs == nil {
			continue
		}
		var b []byte
		m = guard(func() {
			var g *mem.Pkger
			g, b, bad = c02back(r, fs)
			if bad == "" {
				bad = c02same(fs, g, pkgs, pts)
			}
			if bad == "" {
				if c, err := g.MarshalJSON(); err != nil {
					bad = err.Error()
				} else {
					bad = c02parents(b, c)
				}
			}
		})
		if bad != "" || m != "" {
			fail(t, "%s: after marshaling and unmarshaling %s%s", what, bad, m)
			return
		}
		c02broken(t, r, b)
		c02onto(t, r, b, fs, pkgs, pts)
	}
}

// c02onto loads a damaged payload into a filesystem that has something
func c02onto(t *testing.T, r *rand.Rand, b []byte, fs *mem.Pkger, pkgs []string, pts []here.Path) {
	g := &mem.Pkger{}
	if err := g.UnmarshalJSON(append([]byte{}, b...)); err != nil {
		return // reported before
	}
	in := append([]byte{}, b...)
	switch r.Intn(4) {
	case 0:
		in = in[:r.Intn(len(in))]
	case 1:
		in = []byte([]string{"null", "[]", "7", `{"files":[]}`, `{"infos":3}`, `{"infos":{},"files":{},"here":[]}`, `{"files":{"a":7}}`, ""}[r.Intn(8)])
	case 2:
		in = append(in[:len(in)-1], `,"files":{"a:/b":3}}`...)
	default:
		in[r.Intn(len(in))] = byte(r.Intn(256))
	}
	step("payload %q into the filesystem of %q", in, b)
	m := guard(func() {
		if g.UnmarshalJSON(in) != nil {
			if bad := c02same(fs, g, pkgs, pts); bad != "" {
				fail(t, "payload %q into the filesystem of %q: an error, but afterwards %s", in, b, bad)
			}
		}
	})
	if m != "" {
		fail(t, "payload %q into the filesystem of %q: %s", in, b, m)
	}
}

// c02broken tries damaged payloads
func c02broken(t *testing.T, r *rand.Rand, b []byte) {
	var in []byte
	var sure bool // it must be refused
	switch r.Intn(6) {
	case 0:
		in, sure = b[:r.Intn(len(b))], true
	case 1:
		in, sure = append(append([]byte{}, b...), '}'), true
	case 2:
		in, sure = []byte([]string{"null", " null ", "[]", "7", `"x"`, "true", `{"files":[]}`, `{"infos":3}`, `{"here":[]}`, `{"files":{"a":7}}`, `{"files":{"a":{"data":"%"}}}`, ""}[r.Intn(12)]), true
	default:
		in = append([]byte{}, b...)
		in[r.Intn(len(in))] = byte(r.Intn(256))
		sure = !json.Valid(in)
	}
	step("payload %q", in)
	e, err := embed.Encode(in)
	if err != nil {
		fail(t, "%q: Encode: %v", in, err)
		return
	}
	if m := guard(func() {
		fs, err := mem.UnmarshalEmbed(e)
		if (err == nil) != (fs != nil) {
			fail(t, "payload %q: UnmarshalEmbed gives %v and %v", in, fs != nil, err)
		}
		if sure && err == nil {
			fail(t, "payload %q: UnmarshalEmbed accepts it", in)
		}
		if e2 := (&mem.Pkger{}).UnmarshalJSON(in); sure && e2 == nil {
			fail(t, "payload %q: UnmarshalJSON accepts it", in)
		}
	}); m != "" {
		fail(t, "payload %q: %s", in, m)
	}
	// damage of the encoded form
	e = append([]byte{}, e...)
	if r.Intn(2) == 0 {
		e = e[:r.Intn(len(e))]
	} else {
		e = append(e, 'x')
	}
	if m := guard(func() {
		if fs, err := mem.UnmarshalEmbed(e); err == nil || fs != nil {
			fail(t, "encoded payload %q: UnmarshalEmbed gives %v and %v", e, fs != nil, err)
		}
	}); m != "" {
		fail(t, "encoded payload %q: %s", e, m)
	}
}
