package oracle

import (
	"fmt"
	"io/ioutil"
	"math/rand"
	"testing"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/mem"
)

//verif:with memfs_test.go

func TestVerifC06(t *testing.T) {
	memRun(t, "C06", budget(1500, 20000), 40)
	r := rng()
	for i := 0; i < budget(1500, 20000) && !t.Failed(); i++ {
		apart(t, r)
	}
}

type hop struct {
	h, n int
	op   string
	off  int64
	path string
}

// apart runs operations on several handles twice, the second time without
// those on one of the handles that were opened: all others do the same.
func apart(t *testing.T, r *rand.Rand) {
	names := []string{"/a", "/b", "/d/a"}
	var ops []hop
	var open []int // handles
	made := map[int]bool{}
	next := 0
	for k := 3 + r.Intn(14); k > 0; k-- {
		if len(open) == 0 || r.Intn(4) == 0 {
			kind := "open"
			if r.Intn(3) == 0 || next == 0 {
				kind = "create"
			}
			made[next] = kind == "create"
			ops = append(ops, hop{h: next, op: kind, path: names[r.Intn(1+r.Intn(len(names)))]})
			open = append(open, next)
			next++
			continue
		}
		h := open[r.Intn(len(open))]
		o := hop{h: h, n: []int{0, 1, 3, 9, 700}[r.Intn(5)], off: int64(r.Intn(12) - 2)}
		o.op = []string{"write", "write", "close", "read", "read", "seek0", "seek1", "seek2", "stat", "readall"}[r.Intn(10)]
		ops = append(ops, o)
	}
	for h := 0; h < next; h++ {
		if made[h] && r.Intn(2) == 0 {
			ops = append(ops, hop{h: h, op: "close"})
		}
	}
	var can []int
	for _, o := range ops {
		if o.op == "open" {
			can = append(can, o.h)
		}
	}
	if len(can) == 0 {
		return
	}
	skip := can[r.Intn(len(can))]
	what := step("%v, with and without handle %d", ops, skip)
	var a, b []string
	if m := guard(func() { a = apartRun(ops, skip, true); b = apartRun(ops, skip, false) }); m != "" {
		fail(t, "%s: %s", what, m)
		return
	}
	for i := range a {
		if a[i] != b[i] {
			fail(t, "%s: with what is done on handle %d %s, without it %s", what, skip, a[i], b[i])
			return
		}
	}
}

func apartRun(ops []hop, skip int, do bool) []string {
	fs, _ := mem.New(here.Info{ImportPath: "app.test/app", Dir: "/nowhere", Module: here.Module{Path: "app.test/app", Dir: "/nowhere"}})
	fs.MkdirAll("/d", 0755)
	for _, n := range []string{"/a", "/d/a"} {
		f, _ := fs.Create(n)
		f.Write([]byte("what is in " + n))
		f.Close()
	}
	hs := map[int]pkging.File{}
	var out []string
	for i, o := range ops {
		if o.h == skip && !do {
			continue
		}
		f := hs[o.h]
		res := ""
		if f == nil && o.op != "open" && o.op != "create" {
			continue
		}
		switch o.op {
		case "open", "create":
			var err error
			if o.op == "open" {
				f, err = fs.Open(o.path)
			} else {
				f, err = fs.Create(o.path)
			}
			if err == nil {
				hs[o.h] = f
			}
			res = fmt.Sprint(err)
		case "write":
			b := make([]byte, o.n)
			for k := range b {
				b[k] = byte('a' + i%26)
			}
			n, err := f.Write(b)
			res = fmt.Sprint(n, err)
		case "close":
			res = fmt.Sprint(f.Close())
		case "read":
			b := make([]byte, o.n)
			n, err := f.Read(b)
			res = fmt.Sprintf("%q %v", b[:n], err)
			for k := range b {
				b[k] = '!'
			}
		case "readall":
			b, err := ioutil.ReadAll(f)
			res = fmt.Sprintf("%q %v", b, err)
		case "seek0", "seek1", "seek2":
			if sk, ok := f.(interface {
				Seek(int64, int) (int64, error)
			}); ok {
				n, err := sk.Seek(o.off, int(o.op[4]-'0'))
				res = fmt.Sprint(n, err)
			}
		case "stat":
			fi, err := f.Stat()
			if err == nil {
				res = fmt.Sprint(fi.Name(), fi.Size(), fi.Mode(), fi.IsDir())
			}
		}
		if o.h != skip {
			out = append(out, fmt.Sprintf("step %d (%s of handle %d) gives %s", i, o.op, o.h, res))
		}
	}
	for _, n := range []string{"/a", "/b", "/d/a"} {
		res := "nothing"
		if f, err := fs.Open(n); err == nil {
			b, err := ioutil.ReadAll(f)
			fi, _ := fs.Stat(n)
			res = fmt.Sprintf("%q %v %d %v", b, err, fi.Size(), fi.Mode())
		}
		out = append(out, fmt.Sprintf("%s has %s", n, res))
	}
	return out
}
