package oracle

import "testing"

//verif:with memfs_test.go

func TestVerifC05(t *testing.T) {
	memRun(t, "C05", budget(1500, 20000), 40)
}
