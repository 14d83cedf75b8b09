// Package gopoet_test: replays of the properties on the real code. These files are
// laid over /repo as test files when a proof fails (and on the thorough tier).
package gopoet_test

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"
)

type replay struct {
	t     *testing.T
	rng   *rand.Rand
	n     int
	seen  map[string]bool
	rule  string
	samp  []string
	stop  time.Time
	scale int
}

func newReplay(t *testing.T, rule string) *replay {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := &replay{t: t, rng: rand.New(rand.NewSource(int64(seed) + 1)), seen: map[string]bool{}, rule: rule, scale: 1}
	r.stop = time.Now().Add(25 * time.Second)
	if os.Getenv("VERIF_TIER") == "thorough" {
		r.scale = 10
		r.stop = time.Now().Add(120 * time.Second)
	}
	t.Cleanup(r.done)
	return r
}

func (r *replay) out() string { return os.Getenv("VERIF_REPLAY_OUT") }

func (r *replay) late() bool { return time.Now().After(r.stop) }

// fail records a failing input and ends the test.
func (r *replay) fail(format string, args ...interface{}) {
	r.t.Helper()
	msg := fmt.Sprintf(format, args...)
	if o := r.out(); o != "" {
		os.WriteFile(o, []byte(msg+"\n"), 0644)
	}
	r.t.Fatal(msg)
}

// tried counts one case.
func (r *replay) tried(desc string) {
	r.n++
	if !r.seen[desc] {
		r.seen[desc] = true
		if len(r.samp) < 5 && len(r.seen)%7 == 1 {
			r.samp = append(r.samp, desc)
		}
	}
}

func (r *replay) done() {
	if o := r.out(); o != "" {
		b, _ := json.Marshal(map[string]interface{}{"evaluations": r.n, "distinct_nontrivial": len(r.seen), "rule": r.rule, "samples": r.samp})
		os.WriteFile(o+".stats", b, 0644)
	}
}

// catch runs f and returns what it panicked with, or nil.
func catch(f func()) (p interface{}) {
	defer func() {
		if e := recover(); e != nil {
			p = e
		}
	}()
	f()
	return nil
}

func (r *replay) pick(ss []string) string { return ss[r.rng.Intn(len(ss))] }
