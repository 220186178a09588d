package oracle

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"

	"github.com/markbates/pkger/here"
	"github.com/markbates/pkger/pkging"
	"github.com/markbates/pkger/pkging/mem"
)

// fake records every call and answers as told
type fake struct {
	name string
	log  *[]string
	fail error
	part bool // give a result beside the error
	res  results
}

type results struct {
	path here.Path
	info here.Info
	file pkging.File
	fi   os.FileInfo
}

func (f *fake) say(op string, a ...interface{}) {
	*f.log = append(*f.log, fmt.Sprintf("%s.%s%v", f.name, op, a))
}
func (f *fake) on() bool { return f.fail == nil || f.part }
func (f *fake) Parse(p string) (r here.Path, e error) {
	f.say("Parse", p)
	if f.on() {
		r = f.res.path
	}
	return r, f.fail
}
func (f *fake) Current() (r here.Info, e error) {
	f.say("Current")
	if f.on() {
		r = f.res.info
	}
	return r, f.fail
}
func (f *fake) Info(p string) (r here.Info, e error) {
	f.say("Info", p)
	if f.on() {
		r = f.res.info
	}
	return r, f.fail
}
func (f *fake) Create(p string) (r pkging.File, e error) {
	f.say("Create", p)
	if f.on() {
		r = f.res.file
	}
	return r, f.fail
}
func (f *fake) Open(p string) (r pkging.File, e error) {
	f.say("Open", p)
	if f.on() {
		r = f.res.file
	}
	return r, f.fail
}
func (f *fake) Stat(p string) (r os.FileInfo, e error) {
	f.say("Stat", p)
	if f.on() {
		r = f.res.fi
	}
	return r, f.fail
}
func (f *fake) MkdirAll(p string, m os.FileMode) error { f.say("MkdirAll", p, m); return f.fail }
func (f *fake) Walk(p string, wf filepath.WalkFunc) error {
	f.say("Walk", p, reflect.ValueOf(wf).Pointer())
	return f.fail
}
func (f *fake) Remove(p string) error    { f.say("Remove", p); return f.fail }
func (f *fake) RemoveAll(p string) error { f.say("RemoveAll", p); return f.fail }

// ops runs every operation and describes what it gave
var fakeWalk = func(string, os.FileInfo, error) error { return nil }
var fakeOps = []struct {
	name string
	read bool
	args string
	run  func(pkging.Pkger, string) (interface{}, error)
}{
	{"Parse", true, "[%s]", func(p pkging.Pkger, s string) (interface{}, error) { return p.Parse(s) }},
	{"Current", true, "[]", func(p pkging.Pkger, s string) (interface{}, error) { return p.Current() }},
	{"Info", true, "[%s]", func(p pkging.Pkger, s string) (interface{}, error) { return p.Info(s) }},
	{"Create", true, "[%s]", func(p pkging.Pkger, s string) (interface{}, error) { return p.Create(s) }},
	{"Open", true, "[%s]", func(p pkging.Pkger, s string) (interface{}, error) { return p.Open(s) }},
	{"Stat", true, "[%s]", func(p pkging.Pkger, s string) (interface{}, error) { return p.Stat(s) }},
	{"MkdirAll", false, "[%s -rwxr-x--x]", func(p pkging.Pkger, s string) (interface{}, error) { return nil, p.MkdirAll(s, 0751) }},
	{"Walk", false, "[%s " + fmt.Sprint(reflect.ValueOf(fakeWalk).Pointer()) + "]", func(p pkging.Pkger, s string) (interface{}, error) { return nil, p.Walk(s, fakeWalk) }},
	{"Remove", false, "[%s]", func(p pkging.Pkger, s string) (interface{}, error) { return nil, p.Remove(s) }},
	{"RemoveAll", false, "[%s]", func(p pkging.Pkger, s string) (interface{}, error) { return nil, p.RemoveAll(s) }},
}

func fakeResults(n string) results {
	m, _ := mem.New(here.Info{Dir: "/" + n, ImportPath: n})
	f, err := m.Create("/" + n)
	if err != nil {
		f = nil
	}
	r := results{path: here.Path{Pkg: n, Name: "/" + n}, info: here.Info{Dir: n}, fi: pkging.NewFileInfo(&pkging.FileInfo{Details: pkging.Details{Name: n}})}
	if f != nil {
		r.file = f
	}
	return r
}
