package oracle

import "testing"

//verif:with memfs_test.go

func TestVerifC07(t *testing.T) {
	memRun(t, "C07", budget(1500, 20000), 40)
}
