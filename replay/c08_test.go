package notify

import (
	"testing"
)

// covered compares the watches of a recursive backend with what is asked for.
func (s *vtree) covered() {
	s.badcalls()
	inst := s.b.installed()
	for p := range inst {
		for q := range inst {
			if p != q && vabove(q, p) {
				s.fail("nested watches %s and %s", q, p)
			}
		}
		need := false
		for q := range s.reg {
			need = need || vabove(p, q)
		}
		if !need {
			s.fail("%s is still watched although nothing at or below it is registered", p)
		}
	}
	for p, m := range s.reg {
		at := ""
		for q := range inst {
			if vabove(q, p) {
				at = q
			}
		}
		if at == "" {
			s.fail("registered %s: %s is not covered", vshow(s.reg), p)
		}
		for c, e := range m {
			if e&^internal&^inst[at].e != 0 {
				s.fail("registered %s: set %#x of c%d on %s is watched at %s with %#x", vshow(s.reg), uint32(e), c, p, at, uint32(inst[at].e))
			}
			if (p != at || e&recursive != 0) && !inst[at].rec {
				s.fail("registered %s: set %#x of c%d on %s: the watch at %s is not recursive", vshow(s.reg), uint32(e), c, p, at)
			}
		}
	}
}

func TestVerifC08(t *testing.T) {
	v := newVrun(t)
	base, dirs := vfixture(v)
	for v.more() {
		s := newVtree(v, true, base, dirs)
		for k := v.r.Intn(14); k >= 0; k-- {
			if s.coin(4) {
				s.stop(s.few())
			} else {
				s.randomWatch()
			}
			s.covered()
		}
		s.close()
	}
}
