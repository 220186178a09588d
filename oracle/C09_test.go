package oracle

import "testing"

//verif:with memfs_test.go

func TestVerifC09(t *testing.T) {
	memRun(t, "C09", budget(1500, 20000), 40)
}

func TestVerifC09Siblings(t *testing.T) {
	siblings(t, "C09", func(x *memfs) {
		pt := x.known()
		if !x.m[pt].dir {
			return
		}
		x.open(pt, pt.String())
	})
}
