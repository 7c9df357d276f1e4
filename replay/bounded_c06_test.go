package notify

import "testing"

// least looks for backend watches that no registration asks for.
func (s *vtree) least() {
	for p, i := range s.b.installed() {
		var need Event
		for q, m := range s.reg {
			for _, e := range m {
				if q == p {
					need |= e
				}
				if vabove(q, p) && e&recursive != 0 {
					need |= e | Create
				}
			}
		}
		if i.e&^need != 0 {
			s.fail("registered %s: %s is watched with %#x, which nothing asks for", vshow(s.reg), p, uint32(i.e&^need))
		}
	}
}

func TestBoundedC06(t *testing.T) {
	vbounded(t, false, "non-recursive tree, backend in step and nothing left", depth(4), func(s *vtree, o vop) {
		s.do(o)
		s.synced()
		s.least()
	})
}
