package binding

// Shared helpers of the replay harness, laid into the package by an overlay.

import (
	"math/rand"
	"os"
	"strconv"
	"testing"
)

func vbRand() *rand.Rand {
	s, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(s + 17))
}

func vbN(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return n * 10
	}
	return n
}

func vbTry(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

var vbFails int

func vbFail(t *testing.T, f string, a ...interface{}) {
	t.Helper()
	t.Errorf("FAILING "+f, a...)
	if vbFails++; vbFails > 12 {
		t.FailNow()
	}
}
