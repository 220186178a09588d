package oracle

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/embed"
	"github.com/markbates/pkger/pkging/mem"
)

// A random history of operations on an in-memory filesystem, compared with a
// model after every operation.

type ment struct {
	dir  bool
	data string
	mode os.FileMode
	name string
	her  string // import path of the info
}

type mhandle struct {
	f    pkging.File
	pt   here.Path
	ent  ment
	off  int
	pend []byte // written, not yet published
	wrt  bool
	made bool  // the stored file itself (from Create)
	of   *ment // the entry it was created as
	list []string
	pos  int
	dead bool
}

type memfs struct {
	t     *testing.T
	r     *rand.Rand
	ids   string // the properties whose failures count
	fs    *mem.Pkger
	m     map[here.Path]*ment
	infos map[string]here.Info
	mod   string
	hs    []*mhandle
	hist  []string
	bad   bool
	orc   bool // inspect after every operation
}

func (x *memfs) fail(id, f string, a ...interface{}) {
	x.t.Helper()
	x.bad = true
	if strings.Contains(x.ids, id) {
		fail(x.t, "%s: %s", strings.Join(x.hist, "; "), fmt.Sprintf(f, a...))
	}
}

func (x *memfs) note(f string, a ...interface{}) {
	x.hist = append(x.hist, fmt.Sprintf(f, a...))
	step("%s", strings.Join(x.hist, "; "))
}

// do runs an operation
func (x *memfs) do(id string, f func()) {
	if m := guard(f); m != "" {
		for _, i := range strings.Split(id, ",") {
			x.fail(i, "%s", m)
		}
	}
}

func newMemfs(t *testing.T, r *rand.Rand, ids string) *memfs {
	x := &memfs{t: t, r: r, ids: ids, m: map[here.Path]*ment{}, infos: map[string]here.Info{}}
	x.mod = "app.test/app"
	dirs := []string{"/nowhere/app", "", "/q"}
	for i, p := range []string{x.mod, "dep.test/dep", "app.test/app2", "std"} {
		inf := here.Info{ImportPath: p, Name: path.Base(p), Dir: dirs[r.Intn(len(dirs))], Module: here.Module{Path: p, Main: i == 0}}
		x.infos[p] = inf
	}
	first := x.infos[x.mod]
	if first.Dir == "" {
		first.Dir = "/nowhere/app"
		x.infos[x.mod] = first
	}
	if r.Intn(3) == 0 {
		x.infos = map[string]here.Info{x.mod: first}
		fs, err := mem.New(first)
		if err != nil {
			x.fail("C07", "mem.New: %v", err)
			return x
		}
		x.note("mem.New")
		x.fs = fs
		return x
	}
	// several packages can only come from an embedded filesystem
	d := embed.Data{Infos: x.infos, Files: map[string]embed.File{}, Here: first}
	n := r.Intn(6)
	for i := 0; i < n; i++ {
		pt := x.path()
		if pt.Name == "/" {
			continue
		}
		if _, ok := x.m[pt]; ok {
			continue
		}
		ok := true
		for k, e := range x.m {
			if k.Pkg == pt.Pkg && (strings.HasPrefix(pt.Name, k.Name+"/") && !e.dir || strings.HasPrefix(k.Name, pt.Name+"/")) {
				ok = false
			}
		}
		if !ok {
			continue
		}
		e := &ment{dir: r.Intn(3) == 0, mode: 0600, name: path.Base(pt.Name), her: pt.Pkg}
		if e.dir {
			e.mode = os.ModeDir | 0700
		} else {
			e.data = x.bytes()
		}
		x.m[pt] = e
		d.Files[pt.String()] = embed.File{Info: &pkging.FileInfo{Details: pkging.Details{Name: e.name, Mode: e.mode, IsDir: e.dir, Size: int64(len(e.data))}}, Here: x.infos[pt.Pkg], Path: pt, Data: []byte(e.data)}
	}
	b, err := json.Marshal(d)
	if err != nil {
		t.Fatal(err)
	}
	var names []string
	for k, e := range x.m {
		s := k.String()
		if e.dir {
			s += "/"
		}
		names = append(names, s)
	}
	sort.Strings(names)
	x.note("embedded %q", names)
	x.fs = &mem.Pkger{}
	if err := json.Unmarshal(b, x.fs); err != nil {
		x.fail("C02", "cannot load: %v", err)
	}
	return x
}

func (x *memfs) bytes() string {
	n := []int{0, 1, 2, 5, 17, 300, 600, 5000}[x.r.Intn(8)]
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(x.r.Intn(256))
	}
	return string(b)
}

var memWords = []string{"a", "b", "ab", "a.b", "a-b", "b.txt", "A", "ä", "a b", "..a", "0", "abc"}

func (x *memfs) word() string {
	if x.r.Intn(6) == 0 {
		return word(x.r)
	}
	return memWords[x.r.Intn(len(memWords))]
}

// path is a canonical path
func (x *memfs) path() here.Path {
	pt := here.Path{Pkg: x.mod, Name: "/"}
	if len(x.infos) > 1 && x.r.Intn(3) == 0 {
		var ps []string
		for p := range x.infos {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		pt.Pkg = ps[x.r.Intn(len(ps))]
	}
	// near what there is
	if len(x.m) > 0 && x.r.Intn(3) > 0 {
		pt = x.known()
		switch x.r.Intn(5) {
		case 0:
			pt.Name = path.Dir(pt.Name)
		case 1, 2:
			pt.Name = path.Join(pt.Name, x.word())
		case 3:
			if pt.Name != "/" {
				pt.Name += x.word()
			}
		}
		return pt
	}
	for n := x.r.Intn(4); n > 0; n-- {
		pt.Name = path.Join(pt.Name, x.word())
	}
	return pt
}

func (x *memfs) known() here.Path {
	var ks []here.Path
	for k := range x.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].String() < ks[j].String() })
	return ks[x.r.Intn(len(ks))]
}

// spell writes a path in one of the ways that mean it
func (x *memfs) spell(pt here.Path) string {
	n := pt.Name
	switch x.r.Intn(12) {
	case 0:
		n = strings.Replace(n, "/", "//", 1)
	case 1:
		n = "/x/.." + n
	case 2:
		n = n + "/."
	case 3:
		n = "/./" + n
	case 4:
		n = n + "/"
	case 5:
		n = n + "/y/.."
	case 6:
		n = "/../.." + n
	}
	if pt.Pkg != x.mod || x.r.Intn(3) == 0 {
		if strings.HasPrefix(path.Clean(pt.Pkg+":"+n), "..") || !strings.HasPrefix(path.Clean(pt.Pkg+":"+n), pt.Pkg+":/") {
			n = pt.Name
		}
		n = pt.Pkg + ":" + n
		if x.r.Intn(20) == 0 {
			n = " " + n + " "
		}
	}
	return n
}

func (x *memfs) root() here.Path { return here.Path{Pkg: x.mod, Name: "/"} }

func under(root, k here.Path) bool {
	return root.Pkg == k.Pkg && (root.Name == "/" || root.Name == k.Name || strings.HasPrefix(k.Name, root.Name+"/"))
}

func (x *memfs) sorted() []here.Path {
	var ks []here.Path
	for k := range x.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].String() < ks[j].String() })
	return ks
}

func (x *memfs) infoOK(e *ment, fi os.FileInfo) string {
	if fi == nil {
		return "no metadata"
	}
	if fi.Name() != e.name || fi.IsDir() != e.dir || fi.Mode() != e.mode || (!e.dir && fi.Size() != int64(len(e.data))) {
		return fmt.Sprintf("metadata %s %v %d dir=%v, want %s %v %d dir=%v", fi.Name(), fi.Mode(), fi.Size(), fi.IsDir(), e.name, e.mode, len(e.data), e.dir)
	}
	return ""
}

// inspect compares the whole filesystem with the model
func (x *memfs) inspect(id string) {
	if x.bad {
		return
	}
	b, err := json.Marshal(x.fs)
	if err != nil {
		x.fail("C02", "cannot be marshaled: %v", err)
		return
	}
	var d embed.Data
	if err := json.Unmarshal(b, &d); err != nil {
		x.fail("C02", "cannot be unmarshaled: %v", err)
		return
	}
	got := map[here.Path]embed.File{}
	for _, f := range d.Files {
		got[f.Path] = f
	}
	for _, k := range x.sorted() {
		e := x.m[k]
		f, ok := got[k]
		if !ok {
			x.fail(id, "%s is gone", k)
			return
		}
		if m := x.infoOK(e, f.Info); m != "" {
			x.fail(id, "%s has %s", k, m)
			return
		}
		if string(f.Data) != e.data {
			x.fail(id, "%s has %d bytes of other content", k, len(f.Data))
			return
		}
		if f.Here.ImportPath != e.her && !e.dir {
			x.fail(id, "%s is of package %q, want %q", k, f.Here.ImportPath, e.her)
			return
		}
	}
	for k := range got {
		if x.m[k] == nil {
			x.fail(id, "%s is there", k)
			return
		}
	}
}

func (x *memfs) isdir(pt here.Path) bool { return x.m[pt] != nil && x.m[pt].dir }

func (x *memfs) op() {
	r := x.r
	pt := x.path()
	if pt.Name != "/" && r.Intn(2) == 0 && len(x.m) > 0 {
		pt = x.known()
	}
	s := x.spell(pt)
	switch n := r.Intn(20); {
	case n < 4:
		x.create(pt, s)
	case n < 6:
		x.mkdir(pt, s)
	case n == 6:
		x.note("Remove(%q)", s)
		want := x.m[pt] != nil
		for k := range x.m {
			if k != pt && under(pt, k) {
				want = false
			}
		}
		x.do("C07", func() {
			err := x.fs.Remove(s)
			if (err == nil) != want {
				x.fail("C07", "error %v", err)
			}
		})
		if want {
			delete(x.m, pt)
		}
		x.inspect("C07")
	case n == 7 && r.Intn(2) == 0:
		x.note("RemoveAll(%q)", s)
		x.do("C07", func() {
			if err := x.fs.RemoveAll(s); err != nil {
				x.fail("C07", "error %v", err)
			}
		})
		for k := range x.m {
			if under(pt, k) {
				delete(x.m, k)
			}
		}
		x.inspect("C07")
	case n < 11:
		x.open(pt, s)
	case n == 11:
		x.note("Stat(%q)", s)
		x.do("C07,C06,C21", func() {
			fi, err := x.fs.Stat(s)
			if (err == nil) != (x.m[pt] != nil) {
				x.fail("C07", "error %v", err)
				x.fail("C21", "error %v", err)
			} else if err == nil {
				if m := x.infoOK(x.m[pt], fi); m != "" {
					x.fail("C06", "%s", m)
					x.fail("C05", "%s", m)
				}
			}
		})
	case n == 12:
		x.walk(pt, s)
	case n == 13:
		x.note("Info(%q)", pt.Pkg)
		x.do("C07", func() {
			i, err := x.fs.Info(pt.Pkg)
			if err != nil || i.ImportPath != pt.Pkg {
				x.fail("C07", "%v %v", i.ImportPath, err)
			}
			if _, err := x.fs.Info("no.such/package"); err == nil {
				x.fail("C07", "Info of an unknown package")
			}
		})
	default:
		x.use()
	}
}

func (x *memfs) create(pt here.Path, s string) {
	x.note("Create(%q)", s)
	dir := here.Path{Pkg: pt.Pkg, Name: path.Dir(pt.Name)}
	want := pt.Name != "/" && !x.isdir(pt) && (dir.Name == "/" || x.isdir(dir))
	hadRoot := x.m[x.root()] != nil
	x.do("C07", func() {
		f, err := x.fs.Create(s)
		if (err == nil) != want {
			x.fail("C07", "error %v", err)
			return
		}
		// the root of the module comes with it
		_, nr := x.fs.Stat("/")
		if nr != nil && err == nil {
			x.fail("C07", "the root directory is not there: %v", nr)
		}
		if nr == nil && !hadRoot && !x.bad {
			x.m[x.root()] = &ment{dir: true, mode: os.ModeDir | 0755, name: "", her: x.mod}
		}
		if err != nil {
			return
		}
		if f.Path() != pt {
			x.fail("C07", "path %s", f.Path())
		}
		// old handles of a replaced file keep what they have
		e := &ment{mode: 0644, name: path.Base(pt.Name), her: pt.Pkg}
		x.m[pt] = e
		h := &mhandle{f: f, pt: pt, ent: *e, made: true, of: e}
		x.hs = append(x.hs, h)
		x.inspect("C07")
		if x.r.Intn(4) > 0 && !x.bad {
			for k := x.r.Intn(4); k > 0; k-- {
				x.write(h)
			}
			x.close(h)
		}
	})
	x.inspect("C07")
}

func (x *memfs) write(h *mhandle) {
	b := []byte(x.bytes())
	x.note("h(%s).Write(%d bytes)", h.pt, len(b))
	x.do("C05", func() {
		n, err := h.f.Write(b)
		if n != len(b) || err != nil {
			x.fail("C05", "%d %v", n, err)
		}
	})
	h.wrt = true
	h.pend = append(h.pend, b...)
	// the caller may reuse its buffer
	for i := range b {
		b[i] = 'Z'
	}
}

func (x *memfs) close(h *mhandle) {
	x.note("h(%s).Close()", h.pt)
	x.do("C05,C06", func() {
		if err := h.f.Close(); err != nil {
			x.fail("C05", "%v", err)
		}
	})
	if h.wrt {
		h.ent.data = string(h.pend)
		if h.made {
			if e := x.m[h.pt]; e != nil && h.current(x) {
				e.data = h.ent.data
			}
		}
	}
	// what is created can be written again: that replaces its content
	h.dead = !h.made
	h.wrt, h.pend = false, nil
	if h.made {
		x.inspect("C05")
		if e := x.m[h.pt]; e != nil && h.current(x) && !x.bad {
			x.do("C05", func() {
				fi, err := x.fs.Stat(h.pt.String())
				if err != nil || fi.Size() != int64(len(e.data)) {
					x.fail("C05", "Stat after the write: %v, %v", fi, err)
				}
			})
		}
	} else {
		x.inspect("C06")
	}
}

// current tells whether the handle, which was created, is still the stored file
func (h *mhandle) current(x *memfs) bool {
	return h.of != nil && x.m[h.pt] == h.of
}

func (x *memfs) open(pt here.Path, s string) {
	x.note("Open(%q)", s)
	x.do("C05,C06,C21", func() {
		f, err := x.fs.Open(s)
		if (err == nil) != (x.m[pt] != nil) {
			x.fail("C06", "error %v", err)
			x.fail("C21", "error %v", err)
			x.fail("C05", "error %v", err)
			return
		}
		if err != nil {
			return
		}
		e := *x.m[pt]
		h := &mhandle{f: f, pt: pt, ent: e}
		fi, err := f.Stat()
		if err != nil {
			x.fail("C06", "Stat: %v", err)
			return
		}
		if m := x.infoOK(&e, fi); m != "" {
			x.fail("C06", "%s", m)
			x.fail("C05", "%s", m)
		}
		if f.Path() != pt || f.Name() != pt.String() {
			x.fail("C21", "the handle is of %s", f.Path())
		}
		if f.Info().ImportPath != e.her && !e.dir {
			x.fail("C06", "the handle is of package %q", f.Info().ImportPath)
			x.fail("C05", "the handle is of package %q", f.Info().ImportPath)
		}
		if e.dir {
			x.listing(h)
		}
		x.hs = append(x.hs, h)
		x.use()
	})
}

// use does something with an open handle
func (x *memfs) use() {
	if len(x.hs) == 0 {
		return
	}
	h := x.hs[x.r.Intn(len(x.hs))]
	if x.r.Intn(2) == 0 {
		h = x.hs[len(x.hs)-1]
	}
	if h.dead {
		return
	}
	if h.made {
		switch x.r.Intn(4) {
		case 0:
			x.write(h)
		case 1:
			x.close(h)
		case 2: // what was written is read after the file is closed
			if h.wrt {
				x.close(h)
			}
			x.close(h)
			x.note("h(%s): read all after the close", h.pt)
			x.do("C05", func() {
				b, err := ioutil.ReadAll(h.f)
				if err != nil || string(b) != h.ent.data {
					x.fail("C05", "%d of %d bytes, %v", len(b), len(h.ent.data), err)
				}
			})
		}
		return
	}
	if h.ent.dir {
		x.readdir(h)
		return
	}
	if h.wrt {
		x.close(h)
		return
	}
	switch n := x.r.Intn(10); {
	case n < 5:
		b := make([]byte, []int{0, 1, 2, 7, 512, 6000}[x.r.Intn(6)])
		x.note("h(%s).Read(%d)", h.pt, len(b))
		x.do("C05,C06", func() {
			n, err := h.f.Read(b)
			left := ""
			if h.off < len(h.ent.data) {
				left = h.ent.data[h.off:]
			}
			want := len(b)
			if want > len(left) {
				want = len(left)
			}
			var werr error
			if left == "" {
				werr = io.EOF
			}
			if n != want || err != werr || string(b[:n]) != left[:n] {
				x.fail("C05", "at offset %d of %d: %d, %v", h.off, len(h.ent.data), n, err)
				x.fail("C06", "at offset %d of %d: %d, %v", h.off, len(h.ent.data), n, err)
			}
			h.off += n
		})
		for i := range b {
			b[i] = 'Y'
		}
	case n < 7:
		w := x.r.Intn(4)
		if w == 3 && x.r.Intn(3) > 0 {
			w = 0
		}
		o := x.r.Intn(len(h.ent.data)+8) - 3
		if w == 2 {
			o -= len(h.ent.data)
		}
		to := []int{o, h.off + o, len(h.ent.data) + o, -1}[w]
		x.note("h(%s).Seek(%d, %d)", h.pt, o, w)
		x.do("C05,C06", func() {
			n, err := h.f.Seek(int64(o), w)
			if to < 0 {
				if err == nil {
					x.fail("C05", "no error, %d", n)
				}
				return
			}
			if err != nil || n != int64(to) {
				x.fail("C05", "%d, %v", n, err)
				x.fail("C06", "%d, %v", n, err)
			}
			h.off = to
		})
	case n == 7:
		x.note("h(%s): read all", h.pt)
		x.do("C05,C06", func() {
			b, err := ioutil.ReadAll(h.f)
			left := ""
			if h.off < len(h.ent.data) {
				left = h.ent.data[h.off:]
			}
			if err != nil || !bytes.Equal(b, []byte(left)) {
				x.fail("C05", "at offset %d of %d: %d bytes, %v", h.off, len(h.ent.data), len(b), err)
				x.fail("C06", "at offset %d of %d: %d bytes, %v", h.off, len(h.ent.data), len(b), err)
			}
			h.off += len(b)
		})
	case n == 8:
		x.write(h)
		x.inspect("C06")
	case n == 9:
		x.close(h)
	}
}

func (x *memfs) listing(h *mhandle) {
	for _, k := range x.sorted() {
		if k != h.pt && k.Pkg == h.pt.Pkg && path.Dir(k.Name) == h.pt.Name {
			h.list = append(h.list, k.String())
		}
	}
}

func (x *memfs) readdir(h *mhandle) {
	// the listing is of the moment of the call
	h.list = nil
	x.listing(h)
	if h.pos > 0 {
		// only look on while nothing moves
		h.pos = 0
		h.dead = true
		return
	}
	n := []int{-1, 0, 1, 2, 3, 100}[x.r.Intn(6)]
	pos := 0
	for calls := 0; calls < 12; calls++ {
		x.note("h(%s).Readdir(%d)", h.pt, n)
		var got []string
		var err error
		x.do("C09", func() {
			var l []os.FileInfo
			l, err = h.f.Readdir(n)
			for _, fi := range l {
				got = append(got, fi.Name())
				for k, e := range x.m {
					if k.Pkg == h.pt.Pkg && path.Dir(k.Name) == h.pt.Name && e.name == fi.Name() && k.Name != h.pt.Name {
						if m := x.infoOK(e, fi); m != "" {
							x.fail("C09", "%s: %s", k, m)
						}
					}
				}
			}
		})
		want := h.list[pos:]
		var werr error
		if n > 0 {
			if len(want) == 0 {
				werr = io.EOF
			}
			if len(want) > n {
				want = want[:n]
			}
		}
		var ws []string
		for _, k := range want {
			ws = append(ws, path.Base(k))
		}
		if strings.Join(ws, "|") != strings.Join(got, "|") || len(ws) != len(got) || err != werr {
			x.fail("C09", "gives %q, %v, want %q, %v", got, err, ws, werr)
		}
		if x.bad {
			return
		}
		pos += len(want)
		h.pos = 1
		// the end is the end
		if n <= 0 && calls > 0 || werr != nil && x.r.Intn(3) > 0 {
			break
		}
		if x.r.Intn(4) == 0 {
			n = []int{-1, 0, 1, 2, 3, 100}[x.r.Intn(6)]
		}
	}
}

func (x *memfs) walk(pt here.Path, s string) {
	skip := map[here.Path]bool{}
	stop := here.Path{}
	boom := []error{fmt.Errorf("boom"), io.EOF, os.ErrNotExist, &os.PathError{Op: "walk", Path: "x", Err: os.ErrExist}, fmt.Errorf("no: %w", filepath.SkipDir), os.ErrInvalid, pkgErr{}}[x.r.Intn(7)]
	if len(x.m) > 0 {
		for n := []int{0, 1, 1, 2, 4}[x.r.Intn(5)]; n > 0; n-- {
			skip[x.known()] = true
		}
		if x.r.Intn(4) == 0 {
			stop = x.known()
		}
	}
	var sk []string
	for k := range skip {
		sk = append(sk, k.String())
	}
	sort.Strings(sk)
	x.note("Walk(%q) skip %q stop %s with %v", s, sk, stop, boom)
	var want []string
	var werr error
	var out []here.Path
	for _, k := range x.sorted() {
		if !under(pt, k) {
			continue
		}
		gone := false
		for _, o := range out {
			gone = gone || under(o, k)
		}
		if gone {
			continue
		}
		want = append(want, k.String())
		if skip[k] {
			if !x.m[k].dir {
				k.Name = path.Dir(k.Name)
			}
			out = append(out, k)
			continue
		}
		if k == stop {
			werr = boom
			break
		}
	}
	var got []string
	var err error
	x.do("C08", func() {
		err = x.fs.Walk(s, func(p string, fi os.FileInfo, err error) error {
			got = append(got, p)
			if err != nil {
				x.fail("C08", "error at %s: %v", p, err)
			}
			for k, e := range x.m {
				if k.String() == p {
					if m := x.infoOK(e, fi); m != "" {
						x.fail("C08", "%s: %s", p, m)
					}
				}
			}
			if i, ok := fi.(*pkging.FileInfo); ok {
				i.Details.Name = "changed"
				i.Details.Size = 99
			}
			for k := range skip {
				if p == k.String() {
					return filepath.SkipDir
				}
			}
			if p == stop.String() {
				return boom
			}
			return nil
		})
	})
	if !x.bad && (strings.Join(got, "|") != strings.Join(want, "|") || err != werr) {
		x.fail("C08", "visits %q, %v, want %q, %v", got, err, want, werr)
	}
	x.inspect("C08")
}

// pkgErr is an error that is no pointer
type pkgErr struct{}

func (pkgErr) Error() string { return "file does not exist" }

// memRun runs random histories; only failures of the given properties count
func memRun(t *testing.T, ids string, n, ops int) {
	r := rng()
	for i := 0; i < n && !t.Failed(); i++ {
		x := newMemfs(t, r, ids)
		for j := 0; j < ops && !x.bad; j++ {
			x.op()
			if len(x.hist) > 400 {
				break
			}
		}
	}
}

func (x *memfs) mkdir(pt here.Path, s string) {
	perm := []os.FileMode{0755, 0700, 0, 0777, 0666, 0123}[x.r.Intn(6)]
	x.note("MkdirAll(%q, %o)", s, uint32(perm))
	var add []here.Path
	ok := true
	for k := pt; ; k.Name = path.Dir(k.Name) {
		if e := x.m[k]; e != nil {
			ok = e.dir
			break
		}
		add = append(add, k)
		if k.Name == "/" || path.Dir(k.Name) == "/" {
			break
		}
	}
	x.do("C07", func() {
		err := x.fs.MkdirAll(s, perm)
		if (err == nil) != ok {
			x.fail("C07", "error %v", err)
		}
	})
	if ok {
		for _, k := range add {
			_, n := path.Split(k.Name)
			x.m[k] = &ment{dir: true, mode: os.ModeDir | perm, name: n, her: x.mod}
		}
	}
	x.inspect("C07")
}

// directories with siblings that are sorted before what is in them
func siblings(t *testing.T, ids string, look func(x *memfs)) {
	r := rng()
	names := []string{"a", "a-", "a b", "a.b", "ab", "a0", "b", "a\x01", "a+", "a~"}
	for i, n := 0, budget(400, 4000); i < n && !t.Failed(); i++ {
		x := newMemfs(t, r, ids)
		if x.bad {
			continue
		}
		for k := 2 + r.Intn(5); k > 0 && !x.bad; k-- {
			pt := here.Path{Pkg: x.mod, Name: "/" + names[r.Intn(3+r.Intn(len(names)-2))]}
			for l := r.Intn(3); l > 0; l-- {
				pt.Name = path.Join(pt.Name, names[r.Intn(len(names))])
			}
			x.mkdir(here.Path{Pkg: pt.Pkg, Name: path.Dir(pt.Name)}, path.Dir(pt.Name))
			if r.Intn(2) == 0 {
				x.mkdir(pt, pt.Name)
			} else {
				x.create(pt, pt.Name)
			}
		}
		for k := 0; k < 8 && !x.bad && len(x.m) > 0; k++ {
			look(x)
		}
	}
}
