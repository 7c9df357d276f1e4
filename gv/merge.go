package main

import (
	"fmt"
	"sort"
	"strings"
)

// Merging of the states in which an inlined call returns. What the states
// disagree on becomes arbitrary, except for locks and function values, which
// keep their states apart. It forgets facts, so it never makes an obligation
// easier; it is used where only the lock state matters (C13).

type retState struct {
	st  *State
	res []Val
}

func (fv *FV) merging() bool { return fv.t.prop == "C13" }

func valKey(v Val) string {
	var b strings.Builder
	var rec func(v Val)
	rec = func(v Val) {
		switch {
		case v.E != nil:
			b.WriteByte('(')
			for _, e := range v.E {
				rec(e)
			}
			b.WriteByte(')')
		case v.T != nil:
			fmt.Fprintf(&b, "%p,", v.T)
		default:
			b.WriteString(opaqueKey(v) + ",")
		}
	}
	rec(v)
	return b.String()
}

func opaqueKey(v Val) string {
	s := "?"
	if v.Fn != nil {
		s = fmt.Sprintf("fn %p %s", v.Fn.Fn, v.Fn.Key)
		for _, x := range v.Fn.Bind {
			s += valKey(x)
		}
		if v.Fn.Cb != nil {
			s += v.Fn.Cb.Name
		}
	}
	if v.Ptr != nil {
		s += fmt.Sprintf(" ptr %s %s %v %p %p %p", v.Ptr.Kind, v.Ptr.FPath, v.Ptr.Path, v.Ptr.Ref, v.Ptr.Base, v.Ptr.Idx)
		if v.Ptr.Cell != nil {
			s += v.Ptr.Cell.key
		}
	}
	if v.It != nil {
		s += " it " + v.It.Cell.key
	}
	return s
}

func (fv *FV) mergeReturns(base *State, nb int, name string, rs []retState) []retState {
	groups := map[string][]retState{}
	for _, r := range rs {
		if r.st.dead {
			continue
		}
		var ks []string
		for c, t := range r.st.heap {
			if strings.HasPrefix(c, "L:") {
				ks = append(ks, fmt.Sprintf("%s=%p", c, t))
			}
		}
		for c, n := range r.st.acq {
			ks = append(ks, fmt.Sprintf("acq %s=%d", c, n))
		}
		for c, v := range r.st.cells {
			if hasOpaque(v) {
				ks = append(ks, c+"="+valKey(v))
			}
		}
		sort.Strings(ks)
		for i, v := range r.res {
			if hasOpaque(v) {
				ks = append(ks, fmt.Sprintf("res%d=%s", i, valKey(v)))
			}
		}
		k := strings.Join(ks, ";")
		groups[k] = append(groups[k], r)
	}
	var ks []string
	for k := range groups {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []retState
	for _, k := range ks {
		g := groups[k]
		if len(g) == 1 {
			out = append(out, g[0])
			continue
		}
		st := g[0].st.clone()
		st.pc = base.pc[:nb:nb]
		st.trace = append(base.trace[:len(base.trace):len(base.trace)], name)
		al := fv.get(base, "alloc", SInt)
		n := Fresh("alloc", SInt)
		st.heap["alloc"] = n
		st.assume(Le(al, n))
		comps := map[string]bool{}
		for _, r := range g {
			for c := range r.st.heap {
				comps[c] = true
			}
		}
		for c := range comps {
			if c == "alloc" {
				continue
			}
			t := fv.get(g[0].st, c, compSort[c])
			same := true
			for _, r := range g[1:] {
				if fv.get(r.st, c, compSort[c]) != t {
					same = false
				}
			}
			if same {
				st.heap[c] = t
			} else {
				st.heap[c] = Fresh("J:"+c, compSort[c])
			}
		}
		mv := func(nm string, vs []Val) Val {
			k0 := valKey(vs[0])
			for _, v := range vs[1:] {
				if valKey(v) != k0 {
					return fv.havocVal(st, nm, vs[0])
				}
			}
			return vs[0]
		}
		cells := map[string]Val{}
		for c := range g[0].st.cells {
			var vs []Val
			for _, r := range g {
				if v, ok := r.st.cells[c]; ok {
					vs = append(vs, v)
				}
			}
			if len(vs) == len(g) {
				cells[c] = mv("j:"+c, vs)
			}
		}
		st.cells = cells
		var res []Val
		for i := range g[0].res {
			var vs []Val
			for _, r := range g {
				vs = append(vs, r.res[i])
			}
			res = append(res, mv(fmt.Sprintf("j:%s.%d", name, i), vs))
		}
		out = append(out, retState{st, res})
	}
	return out
}
