package oracle

//verif:with fake_test.go

//verif:race

import (
	"errors"
	"fmt"
	"os"
	"reflect"
	"sync"
	"testing"
	"time"

	"github.com/markbates/pkger"
	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging"
	"path/filepath"
)

// api is the package level API as an implementation
type api struct{}

func (api) Parse(p string) (here.Path, error)         { return pkger.Parse(p) }
func (api) Current() (here.Info, error)               { return pkger.Current() }
func (api) Info(p string) (here.Info, error)          { return pkger.Info(p) }
func (api) Create(p string) (pkging.File, error)      { return pkger.Create(p) }
func (api) Open(p string) (pkging.File, error)        { return pkger.Open(p) }
func (api) Stat(p string) (os.FileInfo, error)        { return pkger.Stat(p) }
func (api) MkdirAll(p string, m os.FileMode) error    { return pkger.MkdirAll(p, m) }
func (api) Walk(p string, wf filepath.WalkFunc) error { return pkger.Walk(p, wf) }
func (api) Remove(p string) error                     { return pkger.Remove(p) }
func (api) RemoveAll(p string) error                  { return pkger.RemoveAll(p) }

func within(t *testing.T, c string, f func()) bool {
	done := make(chan string, 1)
	go func() { done <- guard(f) }()
	select {
	case m := <-done:
		if m != "" {
			fail(t, "%s: %s", c, m)
			return false
		}
	case <-time.After(20 * time.Second):
		fail(t, "%s: does not return (the lock is not released)", c)
		return false
	}
	return true
}

func TestVerifC14(t *testing.T) {
	// before anything is applied: the disk of the current module
	c := step("nothing applied: pkger.Current")
	her, _ := here.Current()
	got, err := pkger.Current()
	if err != nil || got.Dir != her.Dir || got.ImportPath != her.ImportPath || got.Module.Path != her.Module.Path {
		fail(t, "%s: %v %v, want %v", c, got.Dir, err, her.Dir)
		return
	}
	c = step("nothing applied: pkger.Open of go.mod reads the file of the module")
	if f, err := pkger.Open("/go.mod"); err != nil {
		fail(t, "%s: %v", c, err)
		return
	} else {
		f.Close()
	}
	// an error
	c = step("Apply with an error")
	var log []string
	bad := &fake{name: "bad", log: &log}
	if m := guard(func() { pkger.Apply(bad, errors.New("broken")) }); m == "" {
		fail(t, "%s: no panic", c)
		return
	}
	if !within(t, c+", then Stat", func() { pkger.Stat("/go.mod") }) {
		return
	}
	if len(log) > 0 {
		fail(t, "%s: the implementation was used: %v", c, log)
		return
	}
	// layers
	r := rng()
	var layers []*fake
	for n := 0; n < 5; n++ {
		f := &fake{name: fmt.Sprintf("L%d", n), log: &log, res: fakeResults(fmt.Sprintf("L%d", n))}
		if r.Intn(2) == 0 {
			guard(func() { pkger.Apply(bad, errors.New("broken")) })
		}
		if !within(t, "Apply", func() { pkger.Apply(f, nil) }) {
			return
		}
		layers = append([]*fake{f}, layers...)
		for _, op := range fakeOps {
			for m := 0; m < 1<<len(layers); m++ {
				c := step("%d layers, %s, failures %b (bit 0 is the layer applied last)", len(layers), op.name, m)
				for i, l := range layers {
					l.fail = nil
					if m&(1<<i) != 0 {
						l.fail = errors.New(l.name)
					}
				}
				args := op.args
				arg := fmt.Sprintf("/x%d", m)
				if args != "[]" {
					args = fmt.Sprintf(op.args, arg)
				}
				var wl []string
				var we error
				var want interface{}
				for _, l := range layers {
					var scratch []string
					k := *l
					k.log = &scratch
					want, we = op.run(&k, arg)
					wl = append(wl, l.name+"."+op.name+args)
					if op.read == (l.fail == nil) {
						break
					}
				}
				log = nil
				var got interface{}
				var err error
				if !within(t, c, func() { got, err = op.run(api{}, arg) }) {
					return
				}
				if !reflect.DeepEqual(log, wl) || err != we || err == nil && !reflect.DeepEqual(got, want) {
					fail(t, "%s: result %v %v calls %v, want %v %v calls %v", c, got, err, log, want, we, wl)
					return
				}
			}
		}
		// Dir
		layers[0].fail = errors.New("closed")
		for _, l := range layers {
			l.fail = errors.New("closed")
		}
		c := step("Dir.Open when the directory can not be opened")
		if _, err := pkger.Dir("/d").Open("x"); err == nil {
			fail(t, "%s: no error", c)
			return
		}
		for _, l := range layers {
			l.fail = nil
		}
	}
	if pkger.Include("/a:b") != "/a:b" {
		fail(t, "Include(/a:b) gives %q", pkger.Include("/a:b"))
	}
	// concurrent use; the race detector watches
	step("concurrent Apply and Parse")
	pkger.Apply(quiet{}, nil)
	var mu sync.Mutex
	seen := map[string]bool{}
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for k := 0; k < 50; k++ {
				if i == 0 {
					pkger.Apply(quiet{}, nil)
					continue
				}
				mu.Lock()
				seen[pkger.Include("x")] = true
				mu.Unlock()
				quiet{}.use()
			}
		}(i)
	}
	wg.Wait()
	step("concurrent Apply and Parse, nothing between the calls")
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for k := 0; k < 3000; k++ {
				if i == 0 {
					if k%10 == 0 {
						pkger.Apply(quiet{}, nil)
						time.Sleep(10 * time.Microsecond)
					}
					continue
				}
				pkger.Parse("/x")
			}
		}(i)
	}
	wg.Wait()
}

// quiet is an implementation without state
type quiet struct{ pkging.Pkger }

func (quiet) Parse(p string) (here.Path, error) { return here.Path{Name: p}, nil }
func (quiet) use()                              { pkger.Parse("/x") }
