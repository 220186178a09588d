package oracle

import "testing"

//verif:with diskfs_test.go

func TestVerifC10(t *testing.T) {
	diskRun(t, budget(350, 4000), 25)
}
