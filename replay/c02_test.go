package notify

import (
	"fmt"
	"testing"
	"time"
)

type vinfo struct {
	e Event
	p string
}

func (v vinfo) Event() Event     { return v.e }
func (v vinfo) Path() string     { return v.p }
func (v vinfo) Sys() interface{} { return nil }

// TestVerifC02 offers events to watchpoints built through Add and Del and
// compares what each channel got with the filter of the property.
func TestVerifC02(t *testing.T) {
	v := newVrun(t)
	bits := []Event{Create, Remove, Write, Rename, recursive, omit, 1, 2, 1 << 10, 1 << 31}
	for v.more() {
		const n = 5
		wp := make(watchpoint)
		chs := make([]chan EventInfo, n)
		ref := make([]Event, n)
		capa := make([]int, n)
		fill := make([]int, n)
		for i := range chs {
			capa[i] = v.r.Intn(3)
			chs[i] = make(chan EventInfo, capa[i])
			fill[i] = v.r.Intn(capa[i] + 1)
			for j := 0; j < fill[i]; j++ {
				chs[i] <- vinfo{}
			}
		}
		for k := v.r.Intn(8); k >= 0; k-- {
			i, e := v.r.Intn(n), v.vmask(bits)
			if e == 0 {
				continue
			}
			if v.r.Intn(5) == 0 {
				ref[i] &^= e
				wp.Del(chs[i], e)
			} else {
				ref[i] |= e
				wp.Add(chs[i], e)
			}
		}
		ei := vinfo{e: v.vmask(bits) &^ internal, p: "/a/b"}
		if ei.e == 0 {
			continue
		}
		var extra Event
		if v.r.Intn(2) == 0 {
			extra = recursive
		}
		what := func() string {
			return fmt.Sprintf("sets %v with room %v of %v, event %v extra %v", ref, fill, capa, ei.e, extra)
		}
		done := make(chan bool, 1)
		go func() {
			defer func() {
				if r := recover(); r != nil {
					fmt.Printf("FAILING-INPUT %s: panic: %v\n", what(), r)
					done <- false
				}
			}()
			wp.Dispatch(ei, extra)
			done <- true
		}()
		select {
		case ok := <-done:
			if !ok {
				t.FailNow()
			}
		case <-time.After(3 * time.Second):
			v.fail("%s: Dispatch blocks", what())
		}
		for i := range chs {
			want := 0
			if ref[i]&omit == 0 && (ei.e|extra)&^ref[i] == 0 && fill[i] < capa[i] {
				want = 1
			}
			if ref[i] == 0 {
				want = 0
			}
			got := len(chs[i]) - fill[i]
			if got != want {
				v.fail("%s: channel %d got %d copies, want %d", what(), i, got, want)
			}
			for j := 0; len(chs[i]) > 0; j++ {
				if x := <-chs[i]; j >= fill[i] && x != EventInfo(ei) {
					v.fail("%s: channel %d got %v", what(), i, x)
				}
			}
		}
	}
}
