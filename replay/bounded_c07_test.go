package notify

import (
	"reflect"
	"testing"
)

// the last operation is refused
func TestBoundedC07(t *testing.T) {
	for _, rec := range []bool{true, false} {
		what := "recursive tree, refused Watch"
		if !rec {
			what = "non-recursive tree, refused Watch"
		}
		vbounded(t, rec, what, depth(3), func(s *vtree, o vop) {
			if o.dir < 0 {
				return
			}
			before := s.kept()
			s.b.failAt = s.b.n + 1
			err := s.do(o)
			got := s.kept()
			p := s.dirs[o.dir]
			switch {
			case err != nil:
				if !reflect.DeepEqual(got, before) {
					s.fail("refused, registered %s, before %s", vshow(got), vshow(before))
				}
			case s.b.refused && (s.rec || !o.rec || s.b.refpath == p):
				s.fail("the backend refused, Watch returned nil")
			case got[p][o.ch]&o.e != o.e:
				s.fail("returned nil, registered %s", vshow(got))
			}
		})
	}
}
