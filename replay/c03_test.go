package notify

import (
	"strings"
	"testing"
)

// TestVerifC03 registers channels on random directories, sends events on
// random paths and counts what each channel gets.
func TestVerifC03(t *testing.T) {
	v := newVrun(t)
	base, dirs := vfixture(v)
	for v.more() {
		s := newVtree(v, v.r.Intn(2) == 0, base, dirs)
		for k := v.r.Intn(8); k >= 0; k-- {
			if s.coin(6) {
				s.stop(s.few())
			} else {
				s.randomWatch()
			}
		}
		for k := 0; k < 6; k++ {
			p := s.dir()
			if s.coin(3) {
				p += "/" + []string{"f", "a", "a/f", "ab/b/f"}[v.r.Intn(4)]
			}
			if s.coin(8) {
				p = p[:strings.LastIndex(base, "/")]
			}
			e := vuser[v.r.Intn(len(vuser))]
			if s.coin(4) {
				e |= vuser[v.r.Intn(len(vuser))]
			}
			s.event(e, p, false)
			dir := p[:strings.LastIndex(p, "/")]
			for c := range s.chs {
				want := 0
				for q, m := range s.reg {
					x := e
					switch {
					case q == p || q == dir:
					case vabove(q, dir):
						x |= recursive
					default:
						continue
					}
					if m[c]&x == x {
						want++
					}
				}
				if got, _ := s.drain(c); got != want {
					s.fail("registered %s: channel c%d got %d copies, want %d", vshow(s.reg), c, got, want)
				}
			}
		}
		s.close()
	}
}
