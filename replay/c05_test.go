package notify

import (
	"reflect"
	"testing"
)

// TestVerifC05 compares the registrations left after Stop with a model.
func TestVerifC05(t *testing.T) {
	v := newVrun(t)
	base, dirs := vfixture(v)
	for v.more() {
		s := newVtree(v, v.r.Intn(2) == 0, base, dirs)
		for k := v.r.Intn(14); k >= 0; k-- {
			if !s.coin(4) {
				s.randomWatch()
				continue
			}
			before := s.kept()
			c := s.few()
			s.stop(c)
			want := map[string]map[int]Event{}
			for p, m := range before {
				for i, e := range m {
					if i != c {
						if want[p] == nil {
							want[p] = map[int]Event{}
						}
						want[p][i] = e
					}
				}
			}
			if got := s.kept(); !reflect.DeepEqual(got, want) {
				s.fail("registered %s, want %s", vshow(got), vshow(want))
			}
			if at := s.inactive(c); at != "" {
				s.fail("c%d is still counted at %s", c, at)
			}
			for _, d := range []string{base + "/a", s.dir(), s.dir() + "/f"} {
				s.event(vuser[v.r.Intn(len(vuser))], d, false)
			}
			for i := range s.chs {
				if n, _ := s.drain(i); n > 0 && i == c {
					s.fail("c%d got an event after Stop", c)
				}
			}
		}
		s.close()
	}
}
