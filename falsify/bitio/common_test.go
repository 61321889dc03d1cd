package bitio

import (
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"testing"
	"time"
)

// vctx collects the cases of one executable contract.
type vctx struct {
	t     *testing.T
	r     *rand.Rand
	n     int
	seen  map[string]bool
	shown int
	bad   int
	end   time.Time
}

func newV(t *testing.T) *vctx {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	d := 6 * time.Second
	if os.Getenv("VERIF_TIER") == "thorough" {
		d = 120 * time.Second
	}
	return &vctx{t: t, r: rand.New(rand.NewSource(seed + 1)), seen: map[string]bool{}, end: time.Now().Add(d)}
}

func (v *vctx) rounds(quick int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return quick * 20
	}
	return quick
}

func (v *vctx) late() bool { return time.Now().After(v.end) }

// eval counts one evaluated case.
func (v *vctx) eval(format string, a ...interface{}) {
	v.n++
	if v.n < 20000 {
		s := fmt.Sprintf(format, a...)
		if !v.seen[s] {
			v.seen[s] = true
			if v.shown < 2 {
				v.shown++
				fmt.Printf("VERIF-SAMPLE %s: %.250s\n", v.t.Name(), strings.ReplaceAll(s, "\n", " "))
			}
		}
	}
}

func (v *vctx) fail(key, format string, a ...interface{}) {
	v.bad++
	if v.bad > 5 {
		return
	}
	s := strings.ReplaceAll(fmt.Sprintf(format, a...), "\n", " ")
	fmt.Printf("VERIF-FALSIFIED %s %s\n", key, s)
	v.t.Errorf("%s: %s", key, s)
}

func (v *vctx) done() { fmt.Printf("VERIF-EVALS %d %d\n", v.n, len(v.seen)) }

// guard runs f; a panic or a hang refutes the property.
func (v *vctx) guard(key, desc string, f func()) {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				done <- fmt.Sprintf("panic: %v at %.600s", e, string(debug.Stack()))
				return
			}
			done <- ""
		}()
		f()
	}()
	select {
	case m := <-done:
		if m != "" {
			v.fail(key, "%s: %s", desc, m)
		}
	case <-time.After(25 * time.Second):
		v.fail(key, "%s: does not return", desc)
	}
}

var vInts = []uint64{0, 1, 2, 7, 8, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffff, 0x800000, 0xffffff, 0x1000000,
	0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff}

func (v *vctx) u64() uint64 {
	if v.r.Intn(2) == 0 {
		return vInts[v.r.Intn(len(vInts))]
	}
	return v.r.Uint64() >> uint(v.r.Intn(64))
}
