package oracle

import (
	"testing"

	"github.com/markbates/pkger/here"
)

//verif:with memfs_test.go

func TestVerifC08(t *testing.T) {
	memRun(t, "C08", budget(1500, 20000), 40)
}

func TestVerifC08Siblings(t *testing.T) {
	siblings(t, "C08", func(x *memfs) {
		pt := here.Path{Pkg: x.mod, Name: "/"}
		if x.r.Intn(3) == 0 {
			pt = x.known()
		}
		x.walk(pt, pt.String())
	})
}
