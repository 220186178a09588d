package oracle

//verif:with fake_test.go

//verif:race

import (
	"fmt"
	"os"
	"reflect"
	"sort"
	"sync"
	"testing"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/internal/maps"
	"github.com/markbates/pkger/pkging"
)

func TestVerifC19(t *testing.T) {
	r := rng()
	// concurrent first use
	for i := 0; i < budget(60, 1500) && !t.Failed(); i++ {
		n := 2 + r.Intn(7)
		c := step("%d goroutines use a fresh table first, all at once", n)
		fm, im := &maps.Files{}, &maps.Infos{}
		start := make(chan bool)
		var wg sync.WaitGroup
		datas := make([]interface{}, n)
		for g := 0; g < n; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				<-start
				k := fmt.Sprintf("/f%d", g)
				switch g % 3 {
				case 0:
					datas[g] = [2]interface{}{fm.Data(), im.Data()}
					fallthrough
				case 1:
					fm.Store(here.Path{Pkg: "p", Name: k}, &fakeFile{name: k})
					im.Store(k, here.Info{Dir: k})
				case 2:
					fm.Load(here.Path{Pkg: "p", Name: "/nothing"})
					im.Load("/nothing")
					fm.Keys()
					im.Keys()
					fm.Store(here.Path{Pkg: "p", Name: k}, &fakeFile{name: k})
					im.Store(k, here.Info{Dir: k})
				}
				datas[g] = [2]interface{}{fm.Data(), im.Data()}
			}(g)
		}
		close(start)
		wg.Wait()
		for g := 0; g < n; g++ {
			k := fmt.Sprintf("/f%d", g)
			if datas[g] != datas[0] {
				fail(t, "%s: the underlying map was replaced", c)
				return
			}
			if f, ok := fm.Load(here.Path{Pkg: "p", Name: k}); !ok || f.Name() != k {
				fail(t, "%s: %s is lost from the table of files", c, k)
				return
			}
			if f, ok := im.Load(k); !ok || f.Dir != k {
				fail(t, "%s: %s is lost from the table of infos", c, k)
				return
			}
		}
	}
	// sequences of operations against a plain map
	for i := 0; i < budget(150, 6000) && !t.Failed(); i++ {
		fm, im := &maps.Files{}, &maps.Infos{}
		model := map[here.Path]pkging.File{}
		imodel := map[string]here.Info{}
		log := ""
		fresh := true
		var data, idata interface{}
		names := []string{"/", "/a", "/a/b", "", "/A", "/b", "/b:c"}
		pkgs := []string{"p", "", "q/r"}
		for j := 0; j < 1+r.Intn(12); j++ {
			k := here.Path{Pkg: pkgs[r.Intn(len(pkgs))], Name: names[r.Intn(len(names))]}
			op := r.Intn(6)
			log += fmt.Sprintf(" %s(%s|%s)", []string{"Store", "Delete", "Load", "Keys", "Range", "Data"}[op], k.Pkg, k.Name)
			c := step("table:%s", log)
			m := guard(func() {
				switch op {
				case 0:
					f := &fakeFile{name: fmt.Sprint(j)}
					fm.Store(k, f)
					im.Store(k.Name, here.Info{Dir: fmt.Sprint(j)})
					model[k] = f
					imodel[k.Name] = here.Info{Dir: fmt.Sprint(j)}
				case 1:
					fm.Delete(k)
					im.Delete(k.Name)
					delete(model, k)
					delete(imodel, k.Name)
				case 2:
					f, ok := fm.Load(k)
					w, wok := model[k]
					if ok != wok || f != w {
						fail(t, "%s: got %v %v want %v %v", c, f, ok, w, wok)
					}
					n, ok := im.Load(k.Name)
					nw, wok := imodel[k.Name]
					if ok != wok || !reflect.DeepEqual(n, nw) {
						fail(t, "%s: got %v %v want %v %v", c, n, ok, nw, wok)
					}
				case 3:
					ks := fm.Keys()
					var want, got []string
					seen := map[here.Path]bool{}
					for _, k := range ks {
						got = append(got, k.String())
						seen[k] = true
					}
					for k := range model {
						want = append(want, k.String())
						if !seen[k] {
							fail(t, "%s: the key %q is missing", c, k)
						}
					}
					sort.Strings(want)
					if !reflect.DeepEqual(got, want) {
						fail(t, "%s: keys %q, want %q", c, got, want)
					}
					want = nil
					for k := range imodel {
						want = append(want, k)
					}
					sort.Strings(want)
					if iks := im.Keys(); !reflect.DeepEqual(iks, want) {
						fail(t, "%s: keys %q, want %q", c, iks, want)
					}
				case 4:
					stop := r.Intn(4)
					seen := map[here.Path]bool{}
					fm.Range(func(k here.Path, v pkging.File) bool {
						if w, ok := model[k]; !ok || w != v || seen[k] {
							fail(t, "%s: unexpected %q", c, k)
						}
						seen[k] = true
						return len(seen) != stop
					})
					iseen := map[string]bool{}
					im.Range(func(k string, v here.Info) bool {
						if w, ok := imodel[k]; !ok || !reflect.DeepEqual(w, v) || iseen[k] {
							fail(t, "%s: unexpected %q", c, k)
						}
						iseen[k] = true
						return len(iseen) != stop
					})
					lim := func(n int) int {
						if stop > 0 && stop < n {
							return stop
						}
						return n
					}
					if len(seen) != lim(len(model)) || len(iseen) != lim(len(imodel)) {
						fail(t, "%s: %d, %d entries visited of %d, %d, told to stop after %d", c, len(seen), len(iseen), len(model), len(imodel), stop)
					}
				}
				if !fresh && (fm.Data() != data || im.Data() != idata) {
					fail(t, "%s: the underlying map was replaced", c)
				}
				data, idata, fresh = fm.Data(), im.Data(), false
			})
			if m != "" {
				fail(t, "%s: %s", c, m)
			}
			if t.Failed() {
				return
			}
		}
	}
}

// fakeFile is a file with a name only
type fakeFile struct {
	pkging.File
	name string
}

func (f *fakeFile) Name() string { return f.name }

var _ = os.ErrNotExist
