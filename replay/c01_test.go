package notify

import (
	"fmt"
	"strings"
	"testing"
)

// TestVerifC01 searches histories of Add and Del on one watchpoint that break
// the union law, the reported change, or another channel's set.
func TestVerifC01(t *testing.T) {
	v := newVrun(t)
	bits := []Event{Create, Remove, Write, Rename, recursive, omit, Create | omit, recursive | omit, 1, 2, 1 << 10, 1 << 31}
	chs := make([]chan EventInfo, 4)
	for i := range chs {
		chs[i] = make(chan EventInfo, 1)
	}
	for v.more() {
		wp := make(watchpoint)
		ref := map[int]Event{}
		var hist []string
		what := func() string { return strings.Join(hist, "; ") }
		for step := 0; step < 12; step++ {
			i, e := v.r.Intn(len(chs)), v.vmask(bits)
			c := chan<- EventInfo(chs[i])
			var before, after, touch Event
			for _, m := range ref {
				before |= m
			}
			v.guard(what, func() {
				var diff eventDiff
				if v.r.Intn(3) != 0 {
					hist = append(hist, fmt.Sprintf("Add(c%d, %#x)", i, uint32(e)))
					dry := wp.dryAdd(c, e)
					if want := e&^internal&^ref[i] == 0; want != (dry == none) {
						v.fail("%s: dryAdd=%v for a channel holding %#x", what(), dry, uint32(ref[i]))
					} else if !want {
						// the change that would be made to the channel's own set
						old := ref[i] &^ internal
						if dry != (eventDiff{old, old | e&^internal}) {
							v.fail("%s: dryAdd=%v", what(), dry)
						}
					}
					ref[i] |= e
					diff = wp.Add(c, e)
				} else {
					hist = append(hist, fmt.Sprintf("Del(c%d, %#x)", i, uint32(e)))
					ref[i] &^= e
					if ref[i] == 0 {
						delete(ref, i)
					}
					diff = wp.Del(c, e)
				}
				touch = 0
				for _, m := range ref {
					after |= m
				}
				_ = touch
				want := eventDiff{before &^ internal, after &^ internal}
				if want[0] == want[1] {
					want = none
				}
				if diff != want {
					v.fail("%s: reported change %v, want %v", what(), diff, want)
				}
				if got := wp[nil]; got != after&^omit {
					v.fail("%s: overall set %#x, want %#x", what(), uint32(got), uint32(after&^omit))
				}
				if wp.Total() != after&^internal {
					v.fail("%s: Total()=%v", what(), wp.Total())
				}
				if wp.IsRecursive() != (after&recursive != 0) {
					v.fail("%s: IsRecursive()=%v", what(), wp.IsRecursive())
				}
				for j := range chs {
					if m, ok := wp[chs[j]]; m != ref[j] || ok != (ref[j] != 0 || ok && ref[j] == 0 && hasEntry(ref, j)) {
						v.fail("%s: channel c%d holds %#x (present %v), want %#x", what(), j, uint32(m), ok, uint32(ref[j]))
					}
				}
				if len(ref) == 0 && len(wp) != 0 {
					v.fail("%s: %d entries left with no channel registered", what(), len(wp))
				}
			})
		}
	}
}

func hasEntry(m map[int]Event, k int) bool { _, ok := m[k]; return ok }
