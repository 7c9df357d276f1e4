package notify

import "testing"

func TestBoundedC08(t *testing.T) {
	vbounded(t, true, "recursive tree, coverage by the installed watches", depth(4), func(s *vtree, o vop) {
		s.do(o)
		s.covered()
	})
}
