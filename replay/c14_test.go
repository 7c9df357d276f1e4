package notify

import (
	"os"
	"path/filepath"
	"reflect"
	"testing"
)

// TestVerifC14 creates and removes directories below random registrations
// and looks at what the backend is asked to watch.
func TestVerifC14(t *testing.T) {
	v := newVrun(t)
	base, dirs := vfixture(v)
	for v.more() {
		s := newVtree(v, false, base, dirs)
		var made []string
		for k := v.r.Intn(6); k >= 0; k-- {
			if s.coin(6) {
				s.stop(s.few())
			} else {
				s.randomWatch()
			}
		}
		for k := v.r.Intn(6); k >= 0; k-- {
			if s.coin(3) && len(made) > 0 {
				d := made[v.r.Intn(len(made))]
				if s.coin(2) {
					s.watch(d, s.coin(2), s.few(), s.set())
				}
				isrec := false
				for q, m := range s.kept() {
					for _, e := range m {
						if vabove(q, d) && e&recursive != 0 {
							isrec = true
						}
					}
				}
				before, keep := s.b.installed(), s.kept()
				s.event(Remove, d, true)
				s.forget(d)
				for p, i := range s.b.installed() {
					if vabove(d, p) && isrec {
						s.fail("%s is still watched", p)
					}
					if !vabove(d, p) && before[p] != i {
						s.fail("watch of %s changed", p)
					}
					delete(before, p)
				}
				for p := range before {
					if !vabove(d, p) {
						s.fail("watch of %s is gone", p)
					}
				}
				for p, m := range keep {
					if !vabove(d, p) && !reflect.DeepEqual(m, s.kept()[p]) {
						s.fail("registration of %s is gone", p)
					}
				}
				continue
			}
			d, err := os.MkdirTemp(s.dir(), "n")
			if err != nil {
				continue
			}
			made = append(made, d)
			new := []string{d}
			for _, x := range []string{"x", "x/y", "z", "z/w/u"} {
				if s.coin(2) {
					os.MkdirAll(filepath.Join(d, x), 0755)
				}
			}
			os.Symlink(s.dir(), filepath.Join(d, "l"))
			os.WriteFile(filepath.Join(d, "f"), nil, 0644)
			filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
				if err == nil && fi.IsDir() && p != d {
					new = append(new, p)
					if s.coin(4) { // found by the user before the event is handled
						s.watch(p, s.coin(2), s.few(), s.set())
					}
				}
				return nil
			})
			if s.coin(4) {
				s.watch(d, s.coin(2), s.few(), s.set())
			}
			before, keep := s.b.installed(), s.kept()
			s.event(Create, d, true)
			after := s.b.installed()
			for _, n := range new {
				var want Event
				for q, m := range s.deep {
					for _, e := range m {
						if vabove(q, d) && e&recursive != 0 {
							want |= e &^ internal
						}
					}
				}
				if want&^after[n].e != 0 {
					s.fail("registered %s: new directory %s is watched with %#x, want %#x", vshow(s.reg), n, uint32(after[n].e), uint32(want))
				}
				delete(after, n)
				delete(before, n)
			}
			if !reflect.DeepEqual(before, after) {
				s.fail("other watches changed: %v, before %v", after, before)
			}
			if !reflect.DeepEqual(keep, s.kept()) {
				s.fail("registered %s, before %s", vshow(s.kept()), vshow(keep))
			}
		}
		s.close()
		for _, d := range made {
			if filepath.Dir(d) != "" && vabove(base, d) && base != d {
				os.RemoveAll(d)
			}
		}
	}
}
