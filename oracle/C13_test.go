package oracle

//verif:with fake_test.go

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"syscall"
	"testing"

	"github.com/markbates/pkger/pkging"
)

func TestVerifC13(t *testing.T) {
	errs := []error{nil, errors.New("no"), os.ErrNotExist, fmt.Errorf("x: %w", os.ErrNotExist), filepath.SkipDir, &os.PathError{Op: "open", Path: "x", Err: os.ErrExist}}
	errs = append(errs, os.ErrPermission, os.ErrExist, os.ErrInvalid, os.ErrClosed, io.EOF, io.ErrUnexpectedEOF, context.Canceled, filepath.SkipAll,
		&os.PathError{Op: "stat", Path: "x", Err: syscall.EACCES}, &os.PathError{Op: "stat", Path: "x", Err: syscall.ENOENT}, &os.PathError{Op: "stat", Path: "x", Err: syscall.ENOTDIR})
	names := []string{"", "/", "/a/b", "m:/x", "..", "a b"}
	basic := len(names)
	for _, w := range dictWords() {
		names = append(names, "/"+w, "/x/"+w+"/y", "m:/"+w)
	}
	ru, rl := fakeResults("up"), fakeResults("low")
	for _, op := range fakeOps {
		for iu, eu := range errs {
			for il := -1; il < len(errs); il++ {
				for part := 0; part < 4; part++ {
					for k, arg := range names {
						if k > 0 && (iu > 5 || il > 5) || k >= basic && (part > 0 || iu > 1 || il > 1) {
							break
						}
						ru := ru
						if k%3 == 2 { // nothing is a result, too
							ru = results{file: ru.file, fi: ru.fi}
						}
						var log []string
						up := &fake{name: "up", log: &log, fail: eu, part: part&1 == 1, res: ru}
						low := &fake{name: "low", log: &log, part: part&2 == 2, res: rl}
						var w pkging.Pkger
						if il < 0 {
							w = pkging.Wrap(nil, up)
						} else {
							low.fail = errs[il]
							w = pkging.Wrap(low, up)
						}
						c := step("%s(%q): upper error %d (%v), lower %d, results beside errors %d", op.name, arg, iu, eu, il, part)
						var got interface{}
						var err error
						if m := guard(func() { got, err = op.run(w, arg) }); m != "" {
							fail(t, "%s: %s", c, m)
							return
						}
						args := op.args
						if args != "[]" {
							args = fmt.Sprintf(op.args, arg)
						}
						wantLog := []string{"up." + op.name + args}
						var want interface{}
						var wantErr error
						var scratch []string
						uu := &fake{name: "up", log: &scratch, fail: eu, part: up.part, res: ru}
						ll := &fake{name: "low", log: &scratch, fail: low.fail, part: low.part, res: rl}
						want, wantErr = op.run(uu, arg)
						if il >= 0 && (op.read && eu != nil || !op.read && eu == nil) {
							wantLog = append(wantLog, "low."+op.name+args)
							want, wantErr = op.run(ll, arg)
						}
						if !reflect.DeepEqual(log, wantLog) {
							fail(t, "%s: calls %v, want %v", c, log, wantLog)
							return
						}
						if err != wantErr {
							fail(t, "%s: error %v, want %v", c, err, wantErr)
							return
						}
						if wantErr == nil && !reflect.DeepEqual(got, want) {
							fail(t, "%s: result %v, want %v", c, got, want)
							return
						}
					}
				}
			}
		}
	}
	// three layers
	for _, op := range fakeOps {
		for m := 0; m < 8; m++ {
			var log []string
			mk := func(n string, b int) *fake {
				f := &fake{name: n, log: &log, res: ru}
				if m&b != 0 {
					f.fail = errors.New(n)
				}
				return f
			}
			a, b, d := mk("a", 1), mk("b", 2), mk("c", 4)
			w := pkging.Wrap(pkging.Wrap(pkging.Wrap(nil, d), b), a)
			c := step("%s through three layers, failures %03b", op.name, m)
			_, err := op.run(w, "/x")
			var wl []string
			var we error
			args := op.args
			if args != "[]" {
				args = fmt.Sprintf(op.args, "/x")
			}
			for _, f := range []*fake{a, b, d} {
				wl = append(wl, f.name+"."+op.name+args)
				we = f.fail
				if op.read == (f.fail == nil) {
					break
				}
			}
			if err != we || !reflect.DeepEqual(log, wl) {
				fail(t, "%s: error %v calls %v, want %v %v", c, err, log, we, wl)
				return
			}
		}
	}
}
