package notify

// Shared parts of the failing-input searches. They run only after an
// obligation has failed; what they find is replayed on the real code.

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"
)

type vrun struct {
	t   *testing.T
	r   *rand.Rand
	end time.Time
}

func newVrun(t *testing.T) *vrun {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	secs, _ := strconv.Atoi(os.Getenv("VERIF_REPLAY_SECS"))
	if secs == 0 {
		secs = 20
	}
	fmt.Println("VERIF-RUN search started")
	return &vrun{t: t, r: rand.New(rand.NewSource(int64(seed))), end: time.Now().Add(time.Duration(secs) * time.Second)}
}

func (v *vrun) more() bool { return time.Now().Before(v.end) }

func (v *vrun) fail(format string, args ...interface{}) {
	fmt.Printf("FAILING-INPUT "+format+"\n", args...)
	v.t.FailNow()
}

// guard runs f; a panic of the code under test is a failing input.
func (v *vrun) guard(what func() string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			v.fail("%s: panic: %v", what(), r)
		}
	}()
	f()
}

// vmask draws event sets: single bits, small unions, arbitrary words.
func (v *vrun) vmask(bits []Event) Event {
	var e Event
	switch v.r.Intn(4) {
	case 0:
		return bits[v.r.Intn(len(bits))]
	case 1, 2:
		for n := v.r.Intn(4); n >= 0; n-- {
			e |= bits[v.r.Intn(len(bits))]
		}
	default:
		for _, b := range bits {
			if v.r.Intn(2) == 0 {
				e |= b
			}
		}
	}
	return e
}

// within runs f; not returning in time is a failing input.
func (v *vrun) within(d time.Duration, what func() string, f func()) {
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case r := <-done:
		if r != nil {
			v.fail("%s: panic: %v", what(), r)
		}
	case <-time.After(d):
		v.fail("%s: has not returned after %v", what(), d)
	}
}
