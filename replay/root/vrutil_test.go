package appdash_test

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"

	"sourcegraph.com/sourcegraph/appdash"
)

// vr drives one replay: concrete inputs against the compiled code.
type vr struct {
	t       *testing.T
	rnd     *rand.Rand
	n       int
	samples int
	cur     string
}

func vrStart(t *testing.T) *vr {
	seed, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		seed = 1
	}
	r := &vr{t: t, rnd: rand.New(rand.NewSource(int64(seed)))}
	t.Cleanup(func() {
		fmt.Printf("REPLAY-CASES: %d\n", r.n)
		if e := recover(); e != nil {
			panic(e)
		}
	})
	return r
}

// scale: how many random cases to try.
func (r *vr) scale(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return n * 10
	}
	return n
}

// do runs one case; a panic of the code under test is a failure of the case.
func (r *vr) do(desc string, f func()) {
	r.n++
	r.cur = desc
	if r.samples < 6 && r.n%7 == 1 {
		r.samples++
		fmt.Printf("REPLAY-SAMPLE: %s\n", desc)
	}
	defer func() {
		if e := recover(); e != nil {
			r.fail("panic: %v", e)
		}
	}()
	f()
}

func (r *vr) fail(format string, args ...interface{}) {
	fmt.Printf("REPLAY-INPUT: %s: %s\n", r.cur, fmt.Sprintf(format, args...))
	fmt.Printf("REPLAY-CASES: %d\n", r.n)
	os.Exit(1)
}

func sameAnns(a, b []appdash.Annotation) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Key != b[i].Key || string(a[i].Value) != string(b[i].Value) {
			return false
		}
	}
	return true
}

func ann(k, v string) appdash.Annotation { return appdash.Annotation{Key: k, Value: []byte(v)} }
