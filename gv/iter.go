package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// realCb finds the function argument whose calls the contract describes, when
// it is a function of the program.
func (fv *FV) realCb(c *Contract, args []Val) int {
	at := -1
	for i, n := range c.params {
		if c.cbs[n] == nil {
			continue
		}
		if at >= 0 || i >= len(args) || args[i].Fn == nil || args[i].Fn.Cb != nil || args[i].Fn.Fn == nil {
			return -1
		}
		at = i
	}
	return at
}

// hasWalks: the contract under verification gives invariants for calls that
// are described by a callee's callback contract.
func (fv *FV) hasWalks() bool {
	for _, w := range fv.c.walks {
		if inProps(w.props, fv.t.prop) {
			return true
		}
	}
	return false
}

// applyIter is a call of a function that calls its argument repeatedly, as its
// contract describes.  The calls are treated as a loop: the invariants of the
// caller hold before the first one, one arbitrary call that the contract
// allows keeps them, and after the last one they hold together with the
// postcondition.  Between two calls the callee may change what it alone
// modifies, in the way the callback's preconditions say.
func (fv *FV) applyIter(st *State, fr *Frame, in ssa.Instruction, c *Contract, ai int, args []Val, k func(*State, []Val)) {
	cs := c.cbs[c.params[ai]]
	cl := args[ai].Fn
	csig := cl.Fn.Signature
	pos := fv.t.pos(in.Pos())
	call := st.clone()
	isSet := map[string]bool{}
	for _, s := range cs.sets {
		if inProps(s.props, fv.t.prop) {
			isSet["G:"+s.label] = true
			fv.get(call, "G:"+s.label, ghostSort(fv.t.ghostT[s.label]))
			st.heap["G:"+s.label] = Fresh("W:"+s.label, ghostSort(fv.t.ghostT[s.label]))
		}
	}
	env := fv.callEnv(st, st.clone(), c, args, nil)
	for _, r := range c.requires {
		if !inProps(r.props, fv.t.prop) {
			continue
		}
		g := fv.spec(env, r.e)
		if r.label != "start" { // the record of the calls starts anew
			fv.obl(st, "requires", c.name+": "+clauseName(r), pos, g, nil)
		}
		st.assume(g)
	}
	fv.guardCall(st, in, c, args)
	old := st.clone()

	// what the callee changes itself, and what its argument may change
	cbComp := map[string]bool{}
	for _, m := range cs.mods {
		if inProps(m.props, fv.t.prop) && !m.allo {
			for _, cd := range fv.t.comps(m.comp) {
				cbComp[cd.name] = true
			}
		}
	}
	own := map[string]Sort{}
	for _, m := range c.mods {
		if inProps(m.props, fv.t.prop) && !m.allo {
			for _, cd := range fv.t.comps(m.comp) {
				if !cbComp[cd.name] && !isSet[cd.name] {
					own[cd.name] = cd.sort
				}
			}
		}
	}
	ownStep := func(s *State) {
		a := fv.get(s, "alloc", SInt)
		n := Fresh("alloc", SInt)
		s.heap["alloc"] = n
		s.assume(Le(a, n))
		if len(own) == 0 {
			return
		}
		for _, cn := range sortedKeysS(own) {
			s.heap[cn] = Fresh("W:"+cn, own[cn])
		}
		for cn := range cbComp {
			so, ok := compSort[cn]
			if !ok {
				continue
			}
			cur := fv.get(s, cn, so)
			nw := Fresh("W:"+cn, so)
			s.heap[cn] = nw
			s.assume(fv.frameTerm(nw, cur, a, nil))
		}
	}
	mkenv := func(s, o *State, cargs, res []Val) *Env {
		e := fv.callEnv(s, o, &Contract{params: cs.params, results: cs.results}, cargs, res)
		for i, p := range c.params {
			if i < len(args) && p != "_" {
				if _, ok := e.names[p]; !ok {
					e.names[p] = args[i]
				}
			}
		}
		return e
	}

	key := fr.ctx + "/" + siteKey(in) + "#calls"
	li := fv.loops[key]
	if li == nil {
		li = &LoopInfo{key: key, comps: map[string]bool{}, cells: map[string]bool{}, cands: map[string]*Cand{}, dead: map[string]bool{}}
		fv.loops[key] = li
		fv.again = true
	}
	for g := range isSet {
		li.comps[g] = true
	}
	for cn := range own {
		li.comps[cn] = true
	}
	act := &LoopAct{info: li, dec: map[string]*Term{}, pre: call, names: map[string]Val{}}
	for i, a := range args {
		act.names["arg"+string(rune('0'+i))] = a
	}
	fv.frameCands(li)
	fv.instTpls(fr, li, fv.places(st, fr, in.Block(), nil), fv.c.walks)
	for _, ck := range sortedCands(li.cands) {
		cd := li.cands[ck]
		if cd.dead {
			continue
		}
		if g, ok := fv.candTerm(st, fr, cd, act); ok {
			fv.obl(st, "inv-entry", cd.key, pos, g, cd)
		}
	}
	// some calls have been made
	a := fv.get(st, "alloc", SInt)
	n := Fresh("alloc", SInt)
	st.heap["alloc"] = n
	st.assume(Le(a, n))
	for _, cn := range sortedSet(li.comps) {
		if cn == "alloc" {
			continue
		}
		so, ok := compSort[cn]
		if !ok {
			panic(execErr{"no sort for " + cn})
		}
		st.heap[cn] = Fresh("W:"+cn, so)
	}
	for _, cn := range sortedSet(li.cells) {
		if v, ok := st.cells[cn]; ok {
			st.cells[cn] = fv.havocPart(st, "c:"+cn, v, li, cn)
		}
	}
	for _, ck := range sortedCands(li.cands) {
		if cd := li.cands[ck]; !cd.dead {
			if g, ok := fv.candTerm(st, fr, cd, act); ok {
				st.assume(g)
			}
		}
	}
	act.snap = st.clone()

	// one more
	body := st.clone()
	bfr := fr.clone()
	body.trace = append(body.trace[:len(body.trace):len(body.trace)], pos+":call")
	ownStep(body)
	var cargs []Val
	for i := 0; i < csig.Params().Len(); i++ {
		v := build(csig.Params().At(i).Type(), func(l Leaf) *Term { return Fresh("cbarg", l.Sort) })
		fv.wf(body, v)
		cargs = append(cargs, v)
	}
	before := body.clone()
	for _, r := range cs.requires {
		if inProps(r.props, fv.t.prop) {
			body.assume(fv.spec(mkenv(body, before, cargs, nil), r.e))
		}
	}
	start := body.clone()
	if !body.dead {
		fv.callFunc(body, bfr, in, cl.Fn, cl.Bind, cargs, csig, func(s *State, res []Val) {
			if s.dead {
				return
			}
			for _, cn := range sortedKeys(s.heap) {
				if cn == "alloc" || strings.HasPrefix(cn, "S:") || cbComp[cn] || strings.HasPrefix(cn, "G:") && !isSet[cn] && own[cn] == "" {
					continue
				}
				so := compSort[cn]
				if fv.get(s, cn, so) != fv.get(start, cn, so) {
					fv.obl(s, "frame", "function passed to "+c.name+" leaves "+cn+" alone", pos, tFalse, nil)
				}
			}
			e := mkenv(s, start, cargs, res)
			for _, m := range cs.mods {
				if !inProps(m.props, fv.t.prop) || m.allo || len(m.refs) == 0 {
					continue
				}
				var refs []*Term
				me := mkenv(start, start, cargs, nil)
				for _, r := range m.refs {
					refs = append(refs, modRef(me.ev(r)))
				}
				for _, cd := range fv.t.comps(m.comp) {
					cur, was := fv.get(s, cd.name, cd.sort), fv.get(start, cd.name, cd.sort)
					if cur != was {
						fv.obl(s, "frame", "function passed to "+c.name+" changes "+m.comp+" only where it may", pos, fv.frameTerm(cur, was, fv.get(start, "alloc", SInt), refs), nil)
					}
				}
			}
			fv.runSets(s, e, cs.sets)
			for _, r := range cs.ensures {
				if inProps(r.props, fv.t.prop) {
					fv.obl(s, "requires", "function passed to "+c.name+": "+clauseName(r), pos, fv.spec(e, r.e), nil)
				}
			}
			for cn, t := range s.heap {
				o := act.snap.heap[cn]
				if o == nil && t.op == "const" && t.name == "H0:"+cn {
					continue
				}
				if o != t && !li.comps[cn] && cn != "alloc" {
					li.comps[cn] = true
					fv.again = true
				}
			}
			for cn, v := range act.snap.cells {
				if nv, ok := s.cells[cn]; ok {
					fv.markParts(li, cn, nv, v)
				}
			}
			for _, ck := range sortedCands(li.cands) {
				cd := li.cands[ck]
				if cd.dead {
					continue
				}
				if g, ok := fv.candTerm(s, fr, cd, act); ok {
					fv.obl(s, "inv-keep", cd.key, pos, g, cd)
				}
			}
			fv.paths++
		})
	}

	// and the return
	ownStep(st)
	res := resultVals(c.name, in.(ssa.CallInstruction).Common().Signature())
	for _, r := range res {
		fv.wf(st, r)
	}
	env = fv.callEnv(st, old, c, args, res)
	fv.runSets(st, env, c.sets)
	for _, r := range c.ensures {
		if inProps(r.props, fv.t.prop) {
			st.assume(fv.spec(env, r.e))
		}
	}
	for g := range isSet {
		if t, ok := call.heap[g]; ok {
			st.heap[g] = t
		} else {
			delete(st.heap, g)
		}
	}
	if !st.dead {
		k(st, res)
	}
}

func sortedKeysS(m map[string]Sort) []string {
	s := map[string]bool{}
	for k := range m {
		s[k] = true
	}
	return sortedSet(s)
}
