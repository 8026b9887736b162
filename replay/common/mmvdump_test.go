package mmvdump_test

import (
	"fmt"
	"math/rand"
	"testing"
)

// vfail reports a failing input of the real code
func vfail(t *testing.T, f string, a ...interface{}) {
	t.Helper()
	fmt.Println("FAILING-INPUT: " + fmt.Sprintf(f, a...))
	t.FailNow()
}

// vcatch runs f and returns the recovered panic value
func vcatch(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

var vrng = rand.New(rand.NewSource(1))
