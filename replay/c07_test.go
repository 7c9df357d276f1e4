package notify

import (
	"reflect"
	"testing"
)

// TestVerifC07 makes the backend refuse requests at random points and
// compares the registrations before and after.
func TestVerifC07(t *testing.T) {
	v := newVrun(t)
	base, dirs := vfixture(v)
	for v.more() {
		s := newVtree(v, v.r.Intn(2) == 0, base, dirs)
		for k := v.r.Intn(10); k >= 0; k-- {
			if s.coin(7) {
				s.stop(s.few())
				continue
			}
			before := s.kept()
			p, rec, ch, e := s.dir(), s.coin(3), s.few(), s.set()
			if s.coin(3) {
				s.b.failAt = s.b.n + 1 + v.r.Intn(2)
			} else if s.coin(8) {
				p += "/missing/" + string(rune('a'+v.r.Intn(3)))
			}
			s.b.refused = false
			err := s.watch(p, rec, ch, e)
			s.b.failAt = 0
			refused := s.b.refused
			got := s.kept()
			switch {
			case err != nil:
				if !reflect.DeepEqual(got, before) {
					s.fail("refused, registered %s, before %s", vshow(got), vshow(before))
				}
			case refused && (s.rec || !rec || s.b.refpath == p):
				s.fail("the backend refused, Watch returned nil")
			case got[p][ch]&e != e:
				s.fail("returned nil, registered %s", vshow(got))
			default:
				if !reflect.DeepEqual(got, s.reg) {
					s.fail("registered %s, want %s", vshow(got), vshow(s.reg))
				}
			}
			if refused {
				break
			}
		}
		s.close()
	}
}
