package main

import (
	"fmt"
	"go/types"
	"runtime"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func sortedCands(m map[string]*Cand) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return m[ks[i]].ord < m[ks[j]].ord })
	return ks
}

func sortedSet(m map[string]bool) []string {
	var ks []string
	for k, v := range m {
		if v {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return ks
}

type place struct {
	b   Binding
	typ types.Type
	nm  string
	it  bool
	par bool
	res bool // a value computed before the loop
}

func (fv *FV) places(st *State, fr *Frame, h *ssa.BasicBlock, phis []*ssa.Phi) []place {
	var out []place
	for _, p := range phis {
		out = append(out, place{b: Binding{reg: p}, typ: p.Type(), nm: p.Name()})
	}
	d := 0
	for f := fr; f != nil; f = f.parent {
		pre := f.ctx + "|" + fnKey(f.fn, fv.t.tpkg) + "."
		for _, b := range f.fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Alloc:
					k := pre + in.Name()
					if _, ok := st.cells[k]; ok {
						out = append(out, place{b: Binding{cell: k}, typ: in.Type().(*types.Pointer).Elem(), nm: fmt.Sprintf("%d.%s", d, in.Name())})
					}
				case *ssa.Range:
					if v, ok := f.regs[in]; ok && v.It != nil {
						if _, ok := st.cells[v.It.Cell.key]; ok {
							out = append(out, place{b: Binding{reg: in, depth: d}, typ: in.X.Type(), nm: fmt.Sprintf("%d.%s", d, in.Name()), it: true})
						}
					}
				case *ssa.Call, *ssa.Extract:
					v := in.(ssa.Value)
					if _, ok := f.regs[v]; ok && f == fr && b != h && b.Dominates(h) {
						out = append(out, place{b: Binding{reg: v, depth: d}, typ: v.Type(), nm: fmt.Sprintf("%d.%s", d, v.Name()), res: true})
					}
				case *ssa.Phi:
					if f != fr || in.Block() != h {
						// header values of enclosing loops
						if v, ok := f.regs[in]; ok && f.loops[in.Block()] != nil {
							_ = v
							if isHeader(in.Block()) {
								out = append(out, place{b: Binding{reg: in, depth: d}, typ: in.Type(), nm: fmt.Sprintf("%d.%s", d, in.Name())})
							}
						}
					}
				}
			}
		}
		for _, p := range f.fn.Params {
			if _, ok := f.regs[p]; ok {
				out = append(out, place{b: Binding{reg: p, depth: d}, typ: p.Type(), nm: fmt.Sprintf("%d.%s", d, p.Name()), par: true})
			}
		}
		d++
	}
	return out
}

func hasNodeSlice(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	return ok && typeHasNode(s.Elem())
}

func (fv *FV) matches(q QV, p place) bool {
	ty := q.typ
	if strings.HasPrefix(ty, "param ") {
		return p.par && types.Identical(fv.t.typ(ty[6:]), p.typ)
	}
	if strings.HasPrefix(ty, "val ") || strings.HasPrefix(ty, "val[") {
		return p.res && types.Identical(fv.t.typ(strings.TrimSpace(ty[3:])), p.typ)
	}
	if p.par || p.res {
		return false
	}
	switch ty {
	case "iter":
		return p.it
	case "hasnodes":
		return !p.it && hasNodeSlice(p.typ)
	case "hasnode":
		return !p.it && typeHasNode(p.typ)
	}
	if ty == "count" { // number of elements an index loop has handled
		b, ok := under(p.typ).(*types.Basic)
		return ok && b.Kind() == types.Int
	}
	if strings.HasPrefix(ty, "iter ") {
		return p.it && types.Identical(under(fv.t.typ(ty[5:])), under(p.typ))
	}
	return !p.it && types.Identical(fv.t.typ(ty), p.typ)
}

var candOrd int

func (fv *FV) addCand(li *LoopInfo, cd *Cand) {
	if _, ok := li.cands[cd.key]; ok {
		return
	}
	candOrd++
	cd.ord = candOrd
	cd.loop = li.key
	if fv.dead[li.key+"|"+cd.key] {
		cd.dead = true
	}
	li.cands[cd.key] = cd
}

func (fv *FV) instantiate(st *State, fr *Frame, h *ssa.BasicBlock, phis []*ssa.Phi, li *LoopInfo) {
	ps := fv.places(st, fr, h, phis)
	// generic candidates
	for _, p := range phis {
		if !li.cells["phi:"+p.Name()] || fv.merging() {
			continue
		}
		v := fr.regs[p]
		if isSlice(p.Type()) && len(v.E) == 4 {
			fv.addCand(li, &Cand{key: "gen own " + p.Name(), kind: "own", bind: map[string]Binding{"x": {reg: p}}})
		}
		if b, ok := under(p.Type()).(*types.Basic); ok && b.Info()&types.IsInteger != 0 && v.T != nil && !v.T.sort.isBV() {
			fv.addCand(li, &Cand{key: "gen -1<=" + p.Name(), kind: "lb", num: -1, bind: map[string]Binding{"x": {reg: p}}})
			fv.addCand(li, &Cand{key: "gen 0<=" + p.Name(), kind: "lb", num: 0, bind: map[string]Binding{"x": {reg: p}}})
		}
	}
	for _, c := range sortedSet(li.cells) {
		if v, ok := st.cells[c]; ok && len(v.E) == 4 && v.Typ != nil && isSlice(v.Typ) {
			fv.addCand(li, &Cand{key: "gen own " + c, kind: "own", bind: map[string]Binding{"x": {cell: c}}})
		}
	}
	fv.frameCands(li)
	fv.instTpls(fr, li, ps, append(append([]LoopTpl(nil), fv.c.loops...), fv.t.sf.global...))
}

func (fv *FV) frameCands(li *LoopInfo) {
	for _, c := range sortedSet(li.comps) {
		so, ok := compSort[c]
		if !ok || !so.isArr() || strings.HasPrefix(c, "G:") || strings.HasPrefix(c, "V:") {
			continue
		}
		if ks, _ := so.split(); ks != SRef {
			continue
		}
		if fv.merging() && !strings.HasPrefix(c, "L:") {
			continue
		}
		if full, _ := fv.modsOf(c); !full {
			fv.addCand(li, &Cand{key: "frame " + c, kind: "frame", comp: c})
		}
		fv.addCand(li, &Cand{key: "preframe " + c, kind: "preframe", comp: c})
	}
}

func (fv *FV) instTpls(fr *Frame, li *LoopInfo, ps []place, tpls []LoopTpl) {
	for ti := range tpls {
		tp := tpls[ti]
		if !inProps(tp.props, fv.t.prop) {
			continue
		}
		if l, ok := fv.loopOpt(tp); ok && !strings.Contains(fr.ctx+"@"+fnKey(fr.fn, fv.t.tpkg), l) {
			continue
		}
		var rec func(i int, bind map[string]Binding, nm string)
		rec = func(i int, bind map[string]Binding, nm string) {
			if i == len(tp.ph) {
				b2 := map[string]Binding{}
				for k, v := range bind {
					b2[k] = v
				}
				n := 0
				for _, o := range tpls[:ti] {
					if o.label == tp.label {
						n++
					}
				}
				key := fmt.Sprintf("%s.%d(%s)", tp.label, n, nm)
				fv.addCand(li, &Cand{key: key, tpl: &tp, bind: b2})
				return
			}
			for _, p := range ps {
				if fv.matches(tp.ph[i], p) {
					dup := false
					for _, b := range bind {
						b.count = false
						if b == p.b {
							dup = true
						}
					}
					if dup {
						continue
					}
					pb := p.b
					pb.count = tp.ph[i].typ == "count"
					bind[tp.ph[i].name] = pb
					rec(i+1, bind, nm+" "+tp.ph[i].name+"="+p.nm)
					delete(bind, tp.ph[i].name)
				}
			}
		}
		rec(0, map[string]Binding{}, "")
	}
}

func (fv *FV) loopOpt(tp LoopTpl) (string, bool) { return "", false }

// modsOf tells whether the contract lets the function change a component
// freely, or else at which references.
func (fv *FV) modsOf(comp string) (full bool, refs []*Term) {
	env := &Env{fv: fv, names: fv.env0, st: fv.entry, old: fv.entry}
	for _, m := range fv.c.mods {
		if !inProps(m.props, fv.t.prop) || m.allo {
			continue
		}
		for _, cd := range fv.t.comps(m.comp) {
			if cd.name != comp {
				continue
			}
			if m.refs == nil {
				return true, nil
			}
			for _, r := range m.refs {
				refs = append(refs, modRef(env.ev(r)))
			}
		}
	}
	return false, refs
}

func (fv *FV) frameTerm(cur, old *Term, lim *Term, refs []*Term) *Term {
	if cur == old {
		return tTrue
	}
	q := BVar("r", SRef)
	g := []*Term{Lt(q, lim)}
	for _, r := range refs {
		g = append(g, Not(Eq(q, r)))
	}
	return Quant("forall", []*Term{q}, Implies(And(g...), Eq(Select(cur, q), Select(old, q))), [][]*Term{{Select(cur, q)}})
}

func (fv *FV) resolve(st *State, fr *Frame, b Binding) (Val, bool) {
	v, ok := fv.resolve0(st, fr, b)
	if ph, isPhi := b.reg.(*ssa.Phi); ok && isPhi && b.count && v.T != nil {
		for _, e := range ph.Edges {
			if c, isC := e.(*ssa.Const); isC && c.Value != nil && c.Value.ExactString() == "-1" {
				v.T = Add(v.T, IntC(1))
			}
		}
	}
	return v, ok
}

func (fv *FV) resolve0(st *State, fr *Frame, b Binding) (Val, bool) {
	if b.cell != "" {
		v, ok := st.cells[b.cell]
		return v, ok
	}
	f := fr
	for i := 0; i < b.depth && f != nil; i++ {
		f = f.parent
	}
	if f == nil {
		return Val{}, false
	}
	v, ok := f.regs[b.reg]
	return v, ok
}

func (fv *FV) candEnv(st *State, fr *Frame, cd *Cand, act *LoopAct) (*Env, bool) {
	env := fv.env(st)
	env.names = copyNames(fv.env0)
	for n, b := range cd.bind {
		v, ok := fv.resolve(st, fr, b)
		if !ok {
			return nil, false
		}
		env.names[n] = v
	}
	env.pre = st
	if act != nil {
		env.pre = act.pre
		for n, v := range act.names {
			env.names[n] = v
		}
	}
	return env, true
}

func (fv *FV) candTerm(st *State, fr *Frame, cd *Cand, act *LoopAct) (t *Term, ok bool) {
	if cd.tpl != nil && cd.tpl.dec {
		return nil, false
	}
	defer func() {
		if r := recover(); r != nil {
			if e, isS := r.(specErr); isS {
				if fv.t.verbose {
					fmt.Println("candidate not applicable:", cd.key, e.msg)
				}
				cd.dead = true
				t, ok = nil, false
				return
			}
			if e, isR := r.(runtime.Error); isR && cd.tpl != nil { // operands of another kind
				if fv.t.verbose {
					fmt.Println("candidate not applicable:", cd.key, e)
				}
				cd.dead = true
				t, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	switch cd.kind {
	case "lb":
		v, ok := fv.resolve(st, fr, cd.bind["x"])
		if !ok || v.T == nil {
			return nil, false
		}
		return Le(IntC(cd.num), v.T), true
	case "own": // the slice is nil or made by this function
		v, ok := fv.resolve(st, fr, cd.bind["x"])
		if !ok || len(v.E) != 4 {
			return nil, false
		}
		return Or(Eq(v.E[0].T, RefC(0)), Le(fv.get(fv.entry, "alloc", SInt), v.E[0].T)), true
	case "frame":
		_, refs := fv.modsOf(cd.comp)
		so := compSort[cd.comp]
		return fv.frameTerm(fv.get(st, cd.comp, so), fv.get(fv.entry, cd.comp, so), fv.get(fv.entry, "alloc", SInt), refs), true
	case "preframe":
		if act == nil {
			return tTrue, true
		}
		so := compSort[cd.comp]
		return fv.frameTerm(fv.get(st, cd.comp, so), fv.get(act.pre, cd.comp, so), fv.get(act.pre, "alloc", SInt), nil), true
	}
	env, ok := fv.candEnv(st, fr, cd, act)
	if !ok {
		return nil, false
	}
	return fv.spec(env, cd.tpl.e), true
}

func (fv *FV) candDec(st *State, fr *Frame, cd *Cand) (t *Term, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, isS := r.(specErr); isS {
				cd.dead = true
				t, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	env, ok := fv.candEnv(st, fr, cd, nil)
	if !ok {
		return nil, false
	}
	return fv.intOf(env.ev(cd.tpl.e)), true
}
