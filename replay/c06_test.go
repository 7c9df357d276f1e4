package notify

import (
	"testing"
)

// synced compares the watches of a non-recursive backend with the sets kept
// in the tree.
func (s *vtree) synced() {
	s.badcalls()
	inst := s.b.installed()
	var walk func(p string, nd node)
	walk = func(p string, nd node) {
		want := nd.Watch.Total()
		if got := inst[p].e; got != want {
			s.fail("%s is watched with %#x, want %#x", p, uint32(got), uint32(want))
		}
		delete(inst, p)
		for k, c := range nd.Child {
			walk(p+"/"+k, c)
		}
	}
	walk("", s.root())
	for p := range inst {
		s.fail("%s is still watched", p)
	}
	inst = s.b.installed()
	if len(s.reg) == 0 {
		for p, i := range inst {
			s.fail("%s is still watched with %#x although nothing is registered", p, uint32(i.e))
		}
	}
	for p, m := range s.reg {
		var u Event
		for _, e := range m {
			u |= e &^ internal
		}
		if u&^inst[p].e != 0 {
			s.fail("%s is watched with %#x, registered is %#x", p, uint32(inst[p].e), uint32(u))
		}
	}
}

func TestVerifC06(t *testing.T) {
	v := newVrun(t)
	base, dirs := vfixture(v)
	for v.more() {
		s := newVtree(v, false, base, dirs)
		for k := v.r.Intn(14); k >= 0; k-- {
			switch v.r.Intn(8) {
			case 0, 1:
				s.stop(s.few())
			case 2:
				s.event(Create, s.dir(), true)
			case 3:
				d := s.dir()
				if s.coin(3) {
					s.event(Remove, d, true)
					s.forget(d)
				}
			default:
				s.randomWatch()
			}
			for i := range s.chs {
				s.drain(i)
			}
			s.synced()
		}
		s.close()
	}
}
