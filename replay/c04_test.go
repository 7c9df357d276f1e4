package notify

import (
	"fmt"
	"sort"
	"strings"
	"testing"
)

// TestVerifC04 drives the registry with random paths and compares it with a
// set of paths.
func TestVerifC04(t *testing.T) {
	v := newVrun(t)
	comp := []string{"a", "b", "ab", "a.b", "ba", "\u00e9", "a b"}
	for v.more() {
		r := root{nd: newnode("")}
		type entry struct {
			wp watchpoint
			n  int
		}
		model := map[string]entry{}
		model[""] = entry{wp: r.nd.Watch}
		var log []string
		what := func() string { return strings.Join(log, "; ") }
		path := func() string {
			p := ""
			for n := v.r.Intn(5); n >= 0; n-- {
				p += "/" + comp[v.r.Intn(len(comp))]
			}
			return p
		}
		any := func() string {
			if v.r.Intn(3) > 0 {
				var l []string
				for p := range model {
					if p != "" {
						l = append(l, p)
					}
				}
				sort.Strings(l)
				if len(l) > 0 {
					return l[v.r.Intn(len(l))]
				}
			}
			return path()
		}
		for k := v.r.Intn(14); k >= 0; k-- {
			p := any()
			switch v.r.Intn(4) {
			case 0, 1:
				log = append(log, "Add("+p+")")
				var nd node
				v.guard(what, func() { nd = r.Add(p) })
				if nd.Name != p {
					v.fail("%s: returned the entry of %q", what(), nd.Name)
				}
				for i := 1; i <= len(p); i++ {
					if i == len(p) || p[i] == '/' {
						if _, ok := model[p[:i]]; !ok {
							model[p[:i]] = entry{}
						}
					}
				}
				if m := model[p]; v.r.Intn(2) == 0 {
					nd.Watch.Add(make(chan EventInfo), Create)
					m.n++
					model[p] = m
				}
				if v.r.Intn(6) == 0 { // the recursive tree keeps merged watchpoints this way
					log[len(log)-1] += "+inactive"
					nd.Child[""] = newnode("")
				}
			case 2:
				log = append(log, "Del("+p+")")
				var err error
				v.guard(what, func() { err = r.Del(p) })
				if _, ok := model[p]; ok != (err == nil) {
					v.fail("%s: %v, stored: %v", what(), err, ok)
				}
				if err == nil {
					for q := range model {
						if vabove(p, q) {
							delete(model, q)
						}
					}
				}
			default:
				log = append(log, "Get("+p+")")
				var nd node
				var err error
				v.guard(what, func() { nd, err = r.Get(p) })
				m, ok := model[p]
				if ok != (err == nil) {
					v.fail("%s: %v, stored: %v", what(), err, ok)
				}
				if ok && (nd.Name != p || m.wp != nil && !vsamewp(m.wp, nd.Watch)) {
					v.fail("%s: got the entry of %s", what(), nd.Name)
				}
			}
			// what is there now
			got := map[string]node{}
			var walk func(p string, nd node)
			walk = func(p string, nd node) {
				if nd.Name != p {
					v.fail("%s: entry of %s is named %s", what(), p, nd.Name)
				}
				got[p] = nd
				for k, c := range nd.Child {
					if k == "" {
						continue
					}
					walk(p+"/"+k, c)
				}
			}
			walk("", r.nd)
			for q, nd := range got {
				m, ok := model[q]
				if !ok {
					v.fail("%s: entry %s is there", what(), q)
				}
				if m.wp != nil && !vsamewp(m.wp, nd.Watch) || m.n > 0 && len(nd.Watch) != m.n+1 {
					v.fail("%s: entry %s was replaced or lost registrations", what(), q)
				}
				m.wp = nd.Watch
				model[q] = m
			}
			for q, m := range model {
				if _, ok := got[q]; !ok {
					// only an empty ancestor of a deleted path may go with it
					if !strings.HasPrefix(log[len(log)-1], "Del(") || !vabove(q, p) || m.n > 0 {
						v.fail("%s: entry %s is gone", what(), q)
					}
					for x := range got {
						if vabove(q, x) {
							v.fail("%s: entry %s is gone but not %s", what(), q, x)
						}
					}
					delete(model, q)
				}
			}
			// walks
			from := any()
			cut := any()
			seen := map[string]int{}
			err := r.Walk(from, func(nd node) error {
				seen[nd.Name]++
				if nd.Name == cut {
					return errSkip
				}
				return nil
			})
			if _, ok := model[from]; ok != (err == nil) {
				v.fail("%s: Walk(%s): %v", what(), from, err)
			}
			for q := range model {
				want := 0
				if err == nil && vabove(from, q) && !(vabove(cut, q) && cut != q && vabove(from, cut)) {
					want = 1
				}
				if seen[q] != want {
					v.fail("%s: Walk(%s) skipping %s: %s was visited %d times, want %d", what(), from, cut, q, seen[q], want)
				}
			}
			to := any()
			if v.r.Intn(3) == 0 {
				to += "/x"
			}
			var order []string
			err = r.WalkPath(to, func(nd node, isbase bool) error {
				order = append(order, fmt.Sprint(nd.Name, isbase))
				if nd.Name == cut {
					return errSkip
				}
				return nil
			})
			var want []string
			reach := true
			for i := 0; i <= len(to) && reach; i++ {
				if i == len(to) || to[i] == '/' {
					if _, ok := model[to[:i]]; !ok {
						reach = false
						break
					}
					want = append(want, fmt.Sprint(to[:i], i == len(to)))
					if to[:i] == cut {
						break
					}
				}
			}
			if fmt.Sprint(order) != fmt.Sprint(want) {
				v.fail("%s: WalkPath(%s) skipping %s visited %q, want %q", what(), to, cut, order, want)
			}
			if reach != (err == nil) {
				v.fail("%s: WalkPath(%s) skipping %s: %v", what(), to, cut, err)
			}
		}
	}
}

func vsamewp(a, b watchpoint) bool { return fmt.Sprintf("%p", a) == fmt.Sprintf("%p", b) }
