package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (t *Tool) contract(kind, name string) *Contract {
	c := t.sf.contracts[kind+":"+name]
	if c != nil && kind == "func" && t.prop == "C13" && !inList(c.props, "C13") {
		return nil // the locking proof goes through the body
	}
	if c != nil && kind == "func" && t.prop != "C13" && len(c.props) == 1 && c.props[0] == "C13" {
		return nil // says nothing about what the function computes
	}
	if c != nil && kind == "func" && c.opts["aux"] != "" && !t.fits(c) {
		return nil
	}
	return c
}

// fits: an auxiliary contract is only a step of a proof; when its function is
// gone or has another shape the callers are verified through the body instead.
func (t *Tool) fits(c *Contract) bool {
	f := t.funcs[c.name]
	return f != nil && len(f.Blocks) > 0 && len(f.Params) == len(c.params) && (len(c.results) == 0 || f.Signature.Results().Len() == len(c.results))
}

func (fv *FV) call(st *State, fr *Frame, in ssa.Instruction, cc *ssa.CallCommon, k func(*State, []Val)) {
	var args []Val
	if cc.IsInvoke() {
		args = append(args, fv.val(st, fr, cc.Value))
	}
	for _, a := range cc.Args {
		args = append(args, fv.val(st, fr, a))
	}
	fv.callWith(st, fr, in, cc, args, k)
}

// callWith performs a call with evaluated arguments (receiver first for interface calls).
func (fv *FV) callWith(st *State, fr *Frame, in ssa.Instruction, cc *ssa.CallCommon, args []Val, k func(*State, []Val)) {
	sig := cc.Signature()
	if cc.IsInvoke() {
		rt := cc.Method.Type().(*types.Signature).Recv().Type()
		name := typeKey(rt) + "." + cc.Method.Name()
		if c := fv.t.contract("iface", name); c != nil {
			fv.applyContract(st, fr, in, c, args, sig, k)
			return
		}
		fv.unknownCall(st, in, "interface method "+name, args, sig, k)
		return
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		fv.builtin(st, fr, in, b, cc, args, k)
		return
	}
	if f := cc.StaticCallee(); f != nil {
		var bind []Val
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			for _, x := range mc.Bindings {
				bind = append(bind, fv.val(st, fr, x))
			}
		}
		fv.callFunc(st, fr, in, f, bind, args, sig, k)
		return
	}
	v := fv.val(st, fr, cc.Value)
	fv.callValue(st, fr, in, v, cc.Value.Type(), args, sig, k)
}

func (fv *FV) callValue(st *State, fr *Frame, in ssa.Instruction, v Val, ty types.Type, args []Val, sig *types.Signature, k func(*State, []Val)) {
	if v.Fn != nil {
		if v.Fn.Cb != nil {
			fv.callCb(st, fr, in, v.Fn.Cb, args, sig, k)
			return
		}
		fv.callFunc(st, fr, in, v.Fn.Fn, v.Fn.Bind, args, sig, k)
		return
	}
	if v.T != nil {
		n := strings.TrimPrefix(strings.TrimPrefix(v.T.name, "glob:"), "H0:V:")
		if v.T.op == "const" && n != v.T.name {
			if c := fv.t.contract("gvar", n); c != nil {
				fv.applyContract(st, fr, in, c, args, sig, k)
				return
			}
			fv.unknownCall(st, in, "function variable "+n, args, sig, k)
			return
		}
	}
	fv.unknownCall(st, in, "function value of type "+typeKey(ty), args, sig, k)
}

func fullName(f *ssa.Function) string {
	if f.Pkg != nil && f.Signature.Recv() == nil && f.Parent() == nil {
		return f.Pkg.Pkg.Name() + "." + f.Name()
	}
	if r := f.Signature.Recv(); r != nil {
		return "(" + types.TypeString(r.Type(), qual) + ")." + f.Name()
	}
	return f.String()
}

func (fv *FV) callFunc(st *State, fr *Frame, in ssa.Instruction, f *ssa.Function, bind, args []Val, sig *types.Signature, k func(*State, []Val)) {
	own := f.Pkg == fv.t.pkg || f.Parent() != nil && f.Parent().Pkg == fv.t.pkg || f.Pkg == nil && len(f.Blocks) > 0 && f.Synthetic != ""
	if own && len(f.Blocks) > 0 {
		key := fnKey(f, fv.t.tpkg)
		if c := fv.t.contract("func", key); c != nil && !c.inline && !(fv.c.opts != nil && strings.Contains(" "+fv.c.opts["inline"]+" ", " "+key+" ")) {
			if ai := fv.realCb(c, args); ai >= 0 && fv.hasWalks() {
				fv.t.dep(fv, c)
				fv.applyIter(st, fr, in, c, ai, args, k)
				return
			}
			if !fv.passable(c, args) {
				fv.inlineCall(st, fr, in, f, bind, args, k)
				return
			}
			fv.t.dep(fv, c)
			fv.applyContract(st, fr, in, c, args, sig, k)
			return
		}
		fv.inlineCall(st, fr, in, f, bind, args, k)
		return
	}
	if fv.syncCall(st, fr, in, f, args, k) {
		return
	}
	if c := fv.t.contract("extern", fullName(f)); c != nil {
		fv.applyContract(st, fr, in, c, args, sig, k)
		return
	}
	fv.unknownCall(st, in, fullName(f), args, sig, k)
}

func (fv *FV) inlineCall(st *State, fr *Frame, in ssa.Instruction, f *ssa.Function, bind, args []Val, k func(*State, []Val)) {
	d, again := 0, 0
	for p := fr; p != nil; p = p.parent {
		if p.fn == f {
			again++
		}
		if p.fn == f && (again > 2 || !hasFuncParam(f)) {
			fv.unsupported(in, "recursive call of %s without a contract", fnKey(f, fv.t.tpkg))
		}
		d++
	}
	if d > 12 {
		fv.unsupported(in, "inlining too deep")
	}
	fv.t.inlined[fnKey(f, fv.t.tpkg)] = true
	nf := &Frame{fn: f, regs: map[ssa.Value]Val{}, ctx: fr.ctx + "/" + siteKey(in), parent: fr, loops: map[*ssa.BasicBlock]*LoopAct{}}
	for i, p := range f.Params {
		nf.regs[p] = args[i]
	}
	for i, p := range f.FreeVars {
		if i < len(bind) {
			nf.regs[p] = bind[i]
		}
	}
	if fv.merging() {
		base, nb := st.clone(), len(st.pc)
		var rs []retState
		nf.ret = func(s *State, res []Val) { rs = append(rs, retState{s, res}) }
		fv.block(st, nf, f.Blocks[0], 0)
		for _, r := range fv.mergeReturns(base, nb, fnKey(f, fv.t.tpkg), rs) {
			k(r.st, r.res)
		}
		return
	}
	nf.ret = func(s *State, res []Val) { k(s, res) }
	fv.block(st, nf, f.Blocks[0], 0)
}

// hasFuncParam: a traversal may be used by the function it is given.
func hasFuncParam(f *ssa.Function) bool {
	for _, p := range f.Params {
		if _, ok := under(p.Type()).(*types.Signature); ok {
			return true
		}
	}
	return false
}

// siteKey names a call site inside its function.
func siteKey(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	for i, x := range in.Block().Instrs {
		if x == in {
			return fmt.Sprintf("%s.%d.%d", in.Parent().Name(), in.Block().Index, i)
		}
	}
	return "?"
}

func resultVals(name string, sig *types.Signature) []Val {
	var rs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, freshVal(fmt.Sprintf("r:%s.%d", name, i), sig.Results().At(i).Type()))
	}
	return rs
}

func (fv *FV) unknownCall(st *State, in ssa.Instruction, name string, args []Val, sig *types.Signature, k func(*State, []Val)) {
	fv.t.unknown[name] = true
	rs := resultVals(name, sig)
	for _, r := range rs {
		fv.wf(st, r)
	}
	k(st, rs)
}

func (fv *FV) callEnv(st, old *State, c *Contract, args []Val, res []Val) *Env {
	names := map[string]Val{}
	for i, p := range c.params {
		if i < len(args) && p != "_" {
			names[p] = args[i]
		}
	}
	for i, p := range c.results {
		if i < len(res) && p != "_" {
			names[p] = res[i]
		}
	}
	return &Env{fv: fv, names: names, st: st, old: old, acq: st.acqSt}
}

func (fv *FV) applyContract(st *State, fr *Frame, in ssa.Instruction, c *Contract, args []Val, sig *types.Signature, k func(*State, []Val)) {
	if c.kind != "func" || c.trusted {
		fv.t.trusted[c.kind+" "+c.name] = true
	}
	if len(c.params) != len(args) && len(c.params) != 0 {
		panic(execErr{fmt.Sprintf("%s: contract of %s has %d parameters, call has %d", c.pos, c.name, len(c.params), len(args))})
	}
	pos := fv.t.pos(in.Pos())
	if c.blocks {
		fv.blocking(st, in, "call of "+c.name)
	}
	old := st.clone()
	env := fv.callEnv(st, old, c, args, nil)
	for _, r := range c.requires {
		if !inProps(r.props, fv.t.prop) {
			continue
		}
		g := fv.spec(env, r.e)
		fv.obl(st, "requires", c.name+": "+clauseName(r), pos, g, nil)
		st.assume(g)
	}
	fv.guardCall(st, in, c, args)
	for i, n := range c.params {
		if cs := c.cbs[n]; cs != nil && i < len(args) {
			fv.passCb(st, in, c, cs, args[i].Fn.Cb, args)
		}
	}
	var res []Val
	for _, m := range c.mods {
		if !m.allo && inProps(m.props, fv.t.prop) && (m.refs != nil || fv.realCb(c, args) < 0 && !hasCb(c)) {
			for _, cd := range fv.t.comps(m.comp) {
				fv.ownComp(st, in, cd.name)
			}
		}
	}
	if c.pure {
		var fl []*Term
		for _, a := range args {
			for _, x := range a.flat() {
				if x != nil {
					fl = append(fl, x)
				}
			}
		}
		for i := 0; i < sig.Results().Len(); i++ {
			ty := sig.Results().At(i).Type()
			res = append(res, build(ty, func(l Leaf) *Term { return UF(fmt.Sprintf("pure:%s.%d%s", c.name, i, l.Path), l.Sort, fl...) }))
		}
	} else {
		for _, m := range c.mods {
			if !inProps(m.props, fv.t.prop) {
				continue
			}
			fv.havocMod(st, old, m, env)
		}
		if c.kind == "func" || c.opts["allocs"] != "" {
			a := fv.get(st, "alloc", SInt)
			n := Fresh("alloc", SInt)
			st.heap["alloc"] = n
			st.assume(Le(a, n))
		}
		res = resultVals(c.name, sig)
	}
	for _, r := range res {
		fv.wf(st, r)
	}
	env = fv.callEnv(st, old, c, args, res)
	fv.runSets(st, env, c.sets)
	for _, r := range c.ensures {
		if inProps(r.props, fv.t.prop) {
			st.assume(fv.spec(env, r.e))
		}
	}
	if st.dead {
		return
	}
	k(st, res)
}

func clauseName(c Clause) string {
	if c.label != "" {
		return c.label
	}
	t := c.text
	if len(t) > 60 {
		t = t[:60] + "..."
	}
	return t
}

func (fv *FV) runSets(st *State, env *Env, sets []Clause) {
	for _, s := range sets {
		if !inProps(s.props, fv.t.prop) {
			continue
		}
		gt, ok := fv.t.ghostT[s.label]
		if !ok {
			panic(specErr{s.pos + ": set of unknown ghost " + s.label})
		}
		so := ghostSort(gt)
		v := env.ev(s.e)
		fv.get(st, "G:"+s.label, so)
		st.heap["G:"+s.label] = litTo(v, so)
	}
}

type compDecl struct {
	name string
	sort Sort
}

// comps lists the heap components a modifies pattern stands for.
func (t *Tool) comps(pat string) []compDecl {
	if r, ok := t.compCache[pat]; ok {
		return r
	}
	var out []compDecl
	switch {
	case strings.HasPrefix(pat, "M:"):
		ty := t.typ(pat[2:])
		m := under(ty).(*types.Map)
		ks := keySort(m.Key())
		d, ls, p := mapLeafComps(ty)
		out = append(out, compDecl{d, Arr(SRef, Arr(ks, SBool))})
		for _, l := range ls {
			out = append(out, compDecl{p + l.Path, Arr(SRef, Arr(ks, l.Sort))})
		}
	case strings.HasPrefix(pat, "S:"):
		ty := t.typ(pat[2:])
		for _, l := range leaves(ty) {
			out = append(out, compDecl{sliceComp(ty, l), Arr(SRef, Arr(SInt, l.Sort))})
		}
	case strings.HasPrefix(pat, "F:"):
		n, f, _ := strings.Cut(pat[2:], ".")
		ty := t.typ(n)
		for _, l := range leaves(ty) {
			if (f == "" || l.Path == "."+f || strings.HasPrefix(l.Path, "."+f+".")) && !isBigArr(l.Typ) {
				out = append(out, compDecl{"F:" + typeKey(ty) + l.Path, Arr(SRef, l.Sort)})
			}
		}
	case strings.HasPrefix(pat, "V:"):
		g := t.pkg.Members[pat[2:]].(*ssa.Global)
		for _, l := range leaves(g.Type().(*types.Pointer).Elem()) {
			out = append(out, compDecl{pat + l.Path, l.Sort})
		}
	case strings.HasPrefix(pat, "G:"):
		gt, ok := t.ghostT[pat[2:]]
		if !ok {
			panic(specErr{"modifies of unknown ghost " + pat})
		}
		out = append(out, compDecl{pat, ghostSort(gt)})
	case strings.HasPrefix(pat, "L:"):
		out = append(out, compDecl{pat, Arr(SRef, SInt)})
	default:
		panic(specErr{"bad modifies pattern " + pat})
	}
	if len(out) == 0 {
		panic(specErr{"modifies pattern matches nothing: " + pat})
	}
	t.compCache[pat] = out
	return out
}

func (fv *FV) havocMod(st, old *State, m Mod, env *Env) {
	if m.allo {
		return
	}
	var refs []*Term
	e2 := *env
	e2.st = old
	for _, r := range m.refs {
		refs = append(refs, modRef(e2.ev(r)))
	}
	for _, cd := range fv.t.comps(m.comp) {
		cur := fv.get(st, cd.name, cd.sort)
		if m.refs == nil {
			st.heap[cd.name] = Fresh("M:"+cd.name, cd.sort)
			continue
		}
		_, vs := cd.sort.split()
		for _, r := range refs {
			cur = Store(cur, r, Fresh("M:"+cd.name, vs))
		}
		st.heap[cd.name] = cur
	}
}

func modRef(v Val) *Term {
	if v.E != nil { // slices: the backing array
		return v.E[0].T
	}
	if v.T.sort == SInt {
		return v.T
	}
	return v.T
}

// passable: a contract that describes the calls of a function argument is used
// only when that argument is itself described by the contract of the caller.
func (fv *FV) passable(c *Contract, args []Val) bool {
	for i, n := range c.params {
		if c.cbs[n] != nil && (i >= len(args) || args[i].Fn == nil || args[i].Fn.Cb == nil) {
			return false
		}
	}
	return true
}

// passCb: the callee calls the function argument as its contract says; every
// such call must be one the caller's contract allows, with the same effects.
func (fv *FV) passCb(st0 *State, in ssa.Instruction, c *Contract, cs *CbSpec, cb *Callback, args []Val) {
	st := st0.clone()
	old := st0.clone()
	pos := fv.t.pos(in.Pos())
	env := fv.callEnv(st, old, c, args, nil)
	for _, m := range c.mods {
		if inProps(m.props, fv.t.prop) {
			fv.havocMod(st, old, m, env)
		}
	}
	for _, cl := range cs.sets {
		if inProps(cl.props, fv.t.prop) {
			fv.havocMod(st, old, Mod{comp: "G:" + cl.label}, env)
		}
	}
	a := fv.get(st, "alloc", SInt)
	n := Fresh("alloc", SInt)
	st.heap["alloc"] = n
	st.assume(Le(a, n))
	sig := cb.Sig
	var cargs []Val
	for i := 0; i < sig.Params().Len(); i++ {
		v := build(sig.Params().At(i).Type(), func(l Leaf) *Term { return Fresh("cbarg", l.Sort) })
		fv.wf(st, v)
		cargs = append(cargs, v)
	}
	mk := func(s, old *State, sp *CbSpec, outer map[string]Val, res []Val) *Env {
		e := fv.callEnv(s, old, &Contract{params: sp.params, results: sp.results}, cargs, res)
		for k, v := range outer {
			if _, ok := e.names[k]; !ok {
				e.names[k] = v
			}
		}
		return e
	}
	outer := map[string]Val{}
	for i, p := range c.params {
		if i < len(args) && p != "_" {
			outer[p] = args[i]
		}
	}
	before := st.clone()
	for _, r := range cs.requires {
		if inProps(r.props, fv.t.prop) {
			st.assume(fv.spec(mk(st, before, cs, outer, nil), r.e))
		}
	}
	for _, r := range cb.Spec.requires {
		if inProps(r.props, fv.t.prop) {
			fv.obl(st, "requires", "callback "+cb.Name+" in "+c.name+": "+clauseName(r), pos, fv.spec(mk(st, before, cb.Spec, fv.env0, nil), r.e), nil)
		}
	}
	have := map[string]bool{}
	for _, m := range cs.mods {
		have[m.comp] = len(m.refs) == 0
	}
	for _, m := range cb.Spec.mods {
		if inProps(m.props, fv.t.prop) {
			if !have[m.comp] {
				fv.obl(st, "frame", "callback "+cb.Name+" in "+c.name+": "+m.comp, pos, tFalse, nil)
			}
			fv.havocMod(st, before, m, mk(st, before, cb.Spec, fv.env0, nil))
		}
	}
	res := resultVals("callback "+cb.Name, sig)
	for _, r := range res {
		fv.wf(st, r)
	}
	s2 := st.clone()
	fv.runSets(st, mk(st, before, cb.Spec, fv.env0, res), cb.Spec.sets)
	fv.runSets(s2, mk(s2, before, cs, outer, res), cs.sets)
	for _, r := range cb.Spec.ensures {
		if inProps(r.props, fv.t.prop) {
			st.assume(fv.spec(mk(st, before, cb.Spec, fv.env0, res), r.e))
		}
	}
	for _, r := range cs.ensures {
		if inProps(r.props, fv.t.prop) {
			fv.obl(st, "requires", "callback "+cb.Name+" in "+c.name+": "+clauseName(r), pos, fv.spec(mk(st, before, cs, outer, res), r.e), nil)
		}
	}
	seen := map[string]bool{}
	for _, cl := range append(append([]Clause{}, cs.sets...), cb.Spec.sets...) {
		if seen[cl.label] || !inProps(cl.props, fv.t.prop) {
			continue
		}
		seen[cl.label] = true
		so := ghostSort(fv.t.ghostT[cl.label])
		x, y := fv.get(st, "G:"+cl.label, so), fv.get(s2, "G:"+cl.label, so)
		fv.obl(st, "requires", "callback "+cb.Name+" in "+c.name+": sets "+cl.label, pos, Eq(x, y), nil)
	}
}

// callCb calls an abstract function parameter.
func (fv *FV) callCb(st *State, fr *Frame, in ssa.Instruction, cb *Callback, args []Val, sig *types.Signature, k func(*State, []Val)) {
	c := &Contract{kind: "func", name: "callback " + cb.Name, params: cb.Spec.params, results: cb.Spec.results}
	old := st.clone()
	pos := fv.t.pos(in.Pos())
	mkenv := func(s *State, res []Val) *Env {
		env := fv.callEnv(s, old, c, args, res)
		for n, v := range fv.env0 {
			if _, ok := env.names[n]; !ok {
				env.names[n] = v
			}
		}
		return env
	}
	env := mkenv(st, nil)
	for _, r := range cb.Spec.requires {
		if inProps(r.props, fv.t.prop) {
			g := fv.spec(env, r.e)
			fv.obl(st, "requires", c.name+": "+clauseName(r), pos, g, nil)
			st.assume(g)
		}
	}
	for _, m := range cb.Spec.mods {
		if inProps(m.props, fv.t.prop) {
			fv.havocMod(st, old, m, env)
		}
	}
	a := fv.get(st, "alloc", SInt)
	n := Fresh("alloc", SInt)
	st.heap["alloc"] = n
	st.assume(Le(a, n))
	res := resultVals(c.name, sig)
	for _, r := range res {
		fv.wf(st, r)
	}
	env = mkenv(st, res)
	fv.runSets(st, env, cb.Spec.sets)
	for _, r := range cb.Spec.ensures {
		if inProps(r.props, fv.t.prop) {
			st.assume(fv.spec(env, r.e))
		}
	}
	if !st.dead {
		k(st, res)
	}
}

// ---- builtins

func (fv *FV) builtin(st *State, fr *Frame, in ssa.Instruction, b *ssa.Builtin, cc *ssa.CallCommon, args []Val, k func(*State, []Val)) {
	one := func(v Val) { k(st, []Val{v}) }
	switch b.Name() {
	case "len", "cap":
		x := args[0]
		switch u := under(cc.Args[0].Type()).(type) {
		case *types.Basic:
			one(intV(StrLen(x.T)))
		case *types.Slice:
			if b.Name() == "cap" {
				one(x.E[3])
			} else {
				one(x.E[2])
			}
		case *types.Map:
			fv.guardMap(st, in, cc.Args[0].Type(), x.T, false)
			n := Card(fv.mapDom(st, cc.Args[0].Type(), x.T))
			if !st.nonNil(x.T) {
				n = Ite(Eq(x.T, RefC(0)), IntC(0), n)
			}
			one(intV(n))
		case *types.Array:
			one(intV(IntC(u.Len())))
		case *types.Pointer:
			one(intV(IntC(under(u.Elem()).(*types.Array).Len())))
		case *types.Chan:
			r := Fresh("chanlen", SInt)
			st.assume(Le(IntC(0), r))
			one(intV(r))
		default:
			fv.unsupported(in, "len of %v", u)
		}
	case "append":
		one(fv.appendSlice(st, in, cc, args))
	case "copy":
		fv.unsupported(in, "copy")
	case "delete":
		fv.guardMap(st, in, cc.Args[0].Type(), args[0].T, true)
		fv.ownWrite(st, in, cc.Args[0].Type())
		for _, od := range fv.c.ondel {
			if !inProps(od.props, fv.t.prop) || mapKey(fv.t.typ(od.typ)) != mapKey(cc.Args[0].Type()) {
				continue
			}
			env := fv.env(st)
			env.names = copyNames(fv.env0)
			env.names[od.vars[0]] = args[0]
			env.names[od.vars[1]] = args[1]
			t := fv.spec(env, od.e)
			fv.obl(st, "lemma-at-delete", clauseName(od.Clause), fv.t.pos(in.Pos()), t, nil)
			st.assume(t)
		}
		fv.mapDelete(st, cc.Args[0].Type(), args[0].T, args[1].T)
		k(st, nil)
	case "close":
		if gt, ok := fv.t.ghostT["closed"]; ok {
			so := ghostSort(gt)
			g := fv.get(st, "G:closed", so)
			st.heap["G:closed"] = Store(g, args[0].T, tTrue)
		}
		k(st, nil)
	case "print", "println":
		k(st, nil)
	case "min", "max":
		a, c := args[0].T, args[1].T
		cond := Le(a, c)
		if a.sort.isBV() {
			cond = BVCmp("bvule", a, c)
		}
		if b.Name() == "max" {
			cond = Not(cond)
		}
		one(Val{Typ: args[0].Typ, T: Ite(cond, a, c)})
	case "ssa:wrapnilchk":
		one(args[0])
	case "recover":
		one(Val{Typ: cc.Signature().Results().At(0).Type(), T: Fresh("recover", SRef)})
	default:
		fv.unsupported(in, "builtin %s", b.Name())
	}
}

// appendSlice: elements are written after the old ones, in place when the
// capacity suffices (an unconstrained choice decides nothing else) and into a
// fresh array otherwise.
func (fv *FV) appendSlice(st *State, in ssa.Instruction, cc *ssa.CallCommon, args []Val) Val {
	sl := under(cc.Args[0].Type()).(*types.Slice)
	el := sl.Elem()
	s, x := args[0], args[1]
	if x.T != nil && x.T.sort == SStr {
		fv.unsupported(in, "append of string")
	}
	n := x.E[2].T
	newlen := Add(s.E[2].T, n)
	fits := Le(newlen, s.E[3].T)
	fresh := fv.alloc(st)
	base := Ite(fits, s.E[0].T, fresh)
	ncap := Fresh("cap", SInt)
	st.assume(Le(newlen, ncap))
	cap2 := Ite(fits, s.E[3].T, ncap)
	// contents of the array written to: the old elements are at the same offsets
	konst := n.op == "int" && n.num.IsInt64() && n.num.Int64() <= 8
	for _, l := range leaves(el) {
		c := sliceComp(el, l)
		so := Arr(SInt, l.Sort)
		H := fv.get(st, c, Arr(SRef, so))
		row := Select(H, s.E[0].T)
		src := Select(H, x.E[0].T)
		if konst {
			for i := int64(0); i < n.num.Int64(); i++ {
				row = Store(row, Add(s.E[1].T, Add(s.E[2].T, IntC(i))), Select(src, Add(x.E[1].T, IntC(i))))
			}
		} else {
			nr := Fresh("app", so)
			q := BVar("i", SInt)
			start := Add(s.E[1].T, s.E[2].T)
			st.assume(Quant("forall", []*Term{q}, Eq(Select(nr, q), Ite(And(Le(start, q), Lt(q, Add(start, n))), Select(src, Add(Sub(q, start), x.E[1].T)), Select(row, q))), [][]*Term{{Select(nr, q)}}))
			// the same facts, found from the elements copied and kept
			st.assume(Quant("forall", []*Term{q}, Implies(And(Le(x.E[1].T, q), Lt(q, Add(x.E[1].T, n))), Eq(Select(nr, Add(Sub(q, x.E[1].T), start)), Select(src, q))), [][]*Term{{Select(src, q)}}))
			st.assume(Quant("forall", []*Term{q}, Implies(Lt(q, start), Eq(Select(nr, q), Select(row, q))), [][]*Term{{Select(row, q)}}))
			row = nr
		}
		st.heap[c] = Store(H, base, row)
	}
	// appending nothing to nil stays nil
	if !(n.op == "int" && n.num.Sign() > 0) {
		st.assume(Le(IntC(0), n))
		base = Ite(And(Eq(s.E[0].T, RefC(0)), Eq(n, IntC(0))), RefC(0), base)
	}
	return Val{Typ: cc.Args[0].Type(), E: []Val{{T: base, Typ: cc.Args[0].Type()}, s.E[1], intV(newlen), intV(cap2)}}
}

// ---- sync, atomic, runtime

func (fv *FV) lockAddr(in ssa.Instruction, st *State, v Val) *Addr {
	a := v.Ptr
	if a == nil {
		a = fv.ptrAddr(in, st, v)
	}
	return a
}

func lockComp(a *Addr) string {
	p := a.FPath
	for _, s := range []string{".RWMutex", ".Mutex"} {
		p = strings.TrimSuffix(p, s)
	}
	return "L:" + typeKey(a.Styp) + p
}

func (fv *FV) lockState(st *State, a *Addr) *Term {
	return Select(fv.get(st, lockComp(a), Arr(SRef, SInt)), a.Ref)
}

func (fv *FV) setLock(st *State, a *Addr, n int64) {
	c := lockComp(a)
	st.heap[c] = Store(fv.get(st, c, Arr(SRef, SInt)), a.Ref, IntC(n))
}

func (fv *FV) lockProp() bool { return fv.t.prop == "C13" || fv.t.prop == "*" }

func (fv *FV) syncCall(st *State, fr *Frame, in ssa.Instruction, f *ssa.Function, args []Val, k func(*State, []Val)) bool {
	n := fullName(f)
	pos := fv.t.pos(in.Pos())
	lock := func(want int64, op string) bool {
		a := fv.lockAddr(in, st, args[0])
		if a.Kind != "heap" {
			fv.unsupported(in, "lock that is not a field")
		}
		cur := fv.lockState(st, a)
		switch op {
		case "acquire":
			if fv.lockProp() {
				fv.obl(st, "lock", "lock acquired while it is not held by this goroutine", pos, Eq(cur, IntC(0)), nil)
			}
			st.assume(Eq(cur, IntC(0)))
			fv.acquire(st, a, want)
		case "release":
			if fv.lockProp() {
				fv.obl(st, "lock", "lock released in the mode it is held", pos, Eq(cur, IntC(want)), nil)
			}
			st.assume(Eq(cur, IntC(want)))
			if want == 2 {
				fv.lockInv(st, a, func(iv Clause, g *Term) { fv.obl(st, "lockinv", iv.label, pos, g, nil) })
			}
			fv.setLock(st, a, 0)
		}
		if !st.dead {
			k(st, nil)
		}
		return true
	}
	switch n {
	case "(*sync.RWMutex).Lock", "(*sync.Mutex).Lock":
		return lock(2, "acquire")
	case "(*sync.RWMutex).RLock":
		return lock(1, "acquire")
	case "(*sync.RWMutex).Unlock", "(*sync.Mutex).Unlock":
		return lock(2, "release")
	case "(*sync.RWMutex).RUnlock":
		return lock(1, "release")
	case "(*sync.WaitGroup).Wait":
		fv.blocking(st, in, "wait group")
		k(st, nil)
		return true
	case "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "runtime.SetFinalizer", "runtime.Gosched", "runtime.KeepAlive":
		k(st, nil)
		return true
	case "atomic.LoadInt32", "atomic.LoadUint32", "atomic.LoadInt64":
		a := args[0].Ptr
		if a == nil {
			return false
		}
		v := fv.load(st, a)
		k(st, []Val{v})
		return true
	case "atomic.StoreInt32", "atomic.StoreUint32", "atomic.StoreInt64":
		a := args[0].Ptr
		if a == nil {
			return false
		}
		fv.store(st, a, args[1])
		k(st, nil)
		return true
	case "atomic.AddInt32":
		a := args[0].Ptr
		if a == nil {
			return false
		}
		v := fv.load(st, a)
		v.T = wrapInt(Add(v.T, args[1].T), 32)
		fv.store(st, a, v)
		k(st, []Val{v})
		return true
	}
	// promoted wrappers such as (*inotify).Lock
	if f.Synthetic != "" && len(f.Blocks) > 0 {
		fv.inlineCall(st, fr, in, f, nil, args, k)
		return true
	}
	return false
}

// acquire: what the lock protects may have been changed by others since this
// goroutine last held it; the state at the first acquisition is the state the
// contract calls old().
func (fv *FV) acquire(st *State, a *Addr, mode int64) {
	c := lockComp(a)
	st.acq[c]++
	{
		for _, g := range fv.guards() {
			if g.comp != c || !g.vol && st.acq[c] <= 1 {
				continue
			}
			for _, p := range g.pats {
				for _, cd := range fv.t.comps(p) {
					cur := fv.get(st, cd.name, cd.sort)
					if g.vol {
						_, vs := cd.sort.split()
						st.heap[cd.name] = Store(cur, g.addr.Ref, Fresh("A:"+cd.name, vs))
						continue
					}
					st.heap[cd.name] = Fresh("A:"+cd.name, cd.sort)
				}
			}
			al := fv.get(st, "alloc", SInt)
			n := Fresh("alloc", SInt)
			st.heap["alloc"] = n
			st.assume(Le(al, n))
		}
	}
	fv.lockInv(st, a, func(_ Clause, g *Term) { st.assume(g) })
	fv.setLock(st, a, mode)
	st.acqSt = st.clone()
}

// lockInv visits the invariants of what a lock guards.
func (fv *FV) lockInv(st *State, a *Addr, f func(Clause, *Term)) {
	for _, g := range fv.guards() {
		if g.comp == lockComp(a) {
			env := fv.env(st)
			for _, iv := range fv.c.lockinv {
				if inProps(iv.props, fv.t.prop) {
					f(iv, fv.spec(env, iv.e))
				}
			}
			return
		}
	}
}

type guardInfo struct {
	addr *Addr
	comp string
	pats []string
	vol  bool
}

func (fv *FV) guards() []guardInfo {
	if fv.guardMemo != nil {
		return fv.guardMemo
	}
	env := &Env{fv: fv, names: fv.env0, st: fv.entry, old: fv.entry}
	out := []guardInfo{}
	for _, g := range fv.c.guarded {
		if !inProps(g.props, fv.t.prop) {
			continue
		}
		var a *Addr
		if g.lock.op == "sel" {
			a = env.addr(g.lock)
		} else {
			v := env.ev(g.lock)
			a = &Addr{Kind: "heap", Ref: v.T, Styp: types.Unalias(under(v.Typ).(*types.Pointer).Elem()).(*types.Named)}
		}
		out = append(out, guardInfo{a, lockComp(a), g.comps, g.vol})
	}
	fv.guardMemo = out
	return out
}

func (fv *FV) guardAccess(st *State, in ssa.Instruction, comp string, ref *Term, write bool) {
	if !fv.lockProp() {
		return
	}
	for _, g := range fv.guards() {
		if g.vol {
			continue
		}
		for _, p := range g.pats {
			if comp != p && !strings.HasPrefix(comp, p+".") {
				continue
			}
			ls := fv.lockState(st, g.addr)
			need, what := IntC(1), "read of "+p+" under its lock"
			if write {
				need, what = IntC(2), "write of "+p+" under its exclusive lock"
			}
			ok := Le(need, ls)
			if ref != nil {
				ok = Or(ok, Le(fv.get(fv.entry, "alloc", SInt), ref), Eq(ref, RefC(0)))
			}
			fv.obl(st, "guard", what, fv.t.pos(in.Pos()), ok, nil)
			return
		}
	}
}

func (fv *FV) guardAddr(st *State, in ssa.Instruction, a *Addr, write bool) {
	if a.Kind == "heap" {
		fv.guardAccess(st, in, "F:"+typeKey(a.Styp)+a.FPath, a.Ref, write)
	}
}

func (fv *FV) guardMap(st *State, in ssa.Instruction, mt types.Type, ref *Term, write bool) {
	fv.guardAccess(st, in, mapKey(mt), ref, write)
}

// guardCall: a call of a function under contract that changes a protected
// component counts as a write, one that gets hold of protected data as a read.
func (fv *FV) guardCall(st *State, in ssa.Instruction, c *Contract, args []Val) {
	if !fv.lockProp() || c.kind != "func" || c.opts["locks"] == "own" {
		return
	}
	for _, g := range fv.guards() {
		if g.vol {
			continue
		}
		w, r := false, false
		for _, m := range c.mods {
			for _, p := range g.pats {
				if !m.allo && (m.comp == p || strings.HasPrefix(m.comp, p+".")) {
					w = true
				}
			}
		}
		for _, a := range args {
			if a.Typ == nil {
				continue
			}
			for _, p := range g.pats {
				if touches(a.Typ, p, 0) {
					r = true
				}
			}
		}
		ls := fv.lockState(st, g.addr)
		switch {
		case w:
			fv.obl(st, "guard", "call of "+c.name+" under the exclusive lock", fv.t.pos(in.Pos()), Le(IntC(2), ls), nil)
		case r:
			fv.obl(st, "guard", "call of "+c.name+" under the lock", fv.t.pos(in.Pos()), Le(IntC(1), ls), nil)
		}
	}
}

func touches(t types.Type, pat string, d int) bool {
	if d > 3 {
		return false
	}
	switch u := under(t).(type) {
	case *types.Map:
		return mapKey(t) == pat
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if touches(u.Field(i).Type(), pat, d+1) {
				return true
			}
		}
	}
	return false
}

func (fv *FV) blocking(st *State, in ssa.Instruction, what string) {
	if nb := strings.Fields(fv.c.opts["nonblocking"]); inList(nb, fv.t.prop) {
		fv.obl(st, "nonblocking", "no operation that may wait ("+what+")", fv.t.pos(in.Pos()), tFalse, nil)
	}
	if !fv.lockProp() {
		return
	}
	for _, g := range fv.guards() {
		fv.obl(st, "lock", "no lock held while waiting ("+what+")", fv.t.pos(in.Pos()), Eq(fv.lockState(st, g.addr), IntC(0)), nil)
	}
}

// exitLocks: every lock is as it was on entry.
func (fv *FV) exitLocks(st *State, where string) {
	if !fv.lockProp() {
		return
	}
	for _, g := range fv.guards() {
		fv.obl(st, "lock", "lock state restored at "+where, "", Eq(fv.lockState(st, g.addr), fv.lockState(fv.entry, g.addr)), nil)
	}
}

// ---- channels

func (fv *FV) ghostSend(st *State, in ssa.Instruction, ch, x Val) {
	if _, ok := fv.t.ghostT["sent"]; ok {
		so := ghostSort(fv.t.ghostT["sent"])
		g := fv.get(st, "G:sent", so)
		st.heap["G:sent"] = Store(g, ch.T, Add(Select(g, ch.T), IntC(1)))
	}
	if len(fv.c.onsend)+len(fv.c.sendSet) > 0 {
		env := fv.env(st)
		env.names = copyNames(fv.env0)
		env.names[fv.c.onvars[0]] = ch
		if len(fv.c.onvars) > 1 {
			env.names[fv.c.onvars[1]] = x
		}
		for _, c := range fv.c.onsend {
			if inProps(c.props, fv.t.prop) {
				fv.obl(st, "send", clauseName(c), fv.t.pos(in.Pos()), fv.spec(env, c.e), nil)
			}
		}
		fv.runSets(st, env, fv.c.sendSet)
	}
}

func (fv *FV) selectInstr(st *State, fr *Frame, in *ssa.Select) {
	if in.Blocking {
		fv.blocking(st, in, "select")
	}
	idx := Fresh("sel", SInt)
	lo := int64(0)
	if !in.Blocking {
		lo = -1
	}
	st.assume(And(Le(IntC(lo), idx), Lt(idx, IntC(int64(len(in.States))))))
	e := []Val{intV(idx), boolV(Fresh("recvok", SBool))}
	for i, s := range in.States {
		ch := fv.val(st, fr, s.Chan)
		if s.Dir == types.SendOnly {
			x := fv.val(st, fr, s.Send)
			if in.Blocking && len(in.States) > 1 {
				// offered only when chosen: count it on that outcome
				if _, ok := fv.t.ghostT["sent"]; ok {
					so := ghostSort(fv.t.ghostT["sent"])
					g := fv.get(st, "G:sent", so)
					st.heap["G:sent"] = Ite(Eq(idx, IntC(int64(i))), Store(g, ch.T, Add(Select(g, ch.T), IntC(1))), g)
				}
				continue
			}
			fv.ghostSend(st, in, ch, x)
		} else {
			v := freshVal("recv", under(s.Chan.Type()).(*types.Chan).Elem())
			fv.wf(st, v)
			e = append(e, v)
		}
	}
	fr.regs[in] = Val{Typ: in.Type(), E: e}
}

func (fv *FV) deferCall(st *State, fr *Frame, in *ssa.Defer) {
	var args []Val
	if in.Call.IsInvoke() {
		args = append(args, fv.val(st, fr, in.Call.Value))
	}
	for _, a := range in.Call.Args {
		args = append(args, fv.val(st, fr, a))
	}
	fr0 := fr.clone()
	fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], func(s *State, k func(*State)) {
		fv.callWith(s, fr0.clone(), in, &in.Call, args, func(s2 *State, _ []Val) { k(s2) })
	})
}

// goCall: a spawned function runs from an arbitrary later state. Its body is
// verified separately: as a function of its own when it has a contract, or
// against the spawn clauses of the function that starts it.
func (fv *FV) goCall(st *State, fr *Frame, in *ssa.Go) {
	cc := &in.Call
	var args []Val
	if cc.IsInvoke() {
		args = append(args, fv.val(st, fr, cc.Value))
	}
	for _, a := range cc.Args {
		args = append(args, fv.val(st, fr, a))
	}
	f := cc.StaticCallee()
	var bind []Val
	if f == nil && !cc.IsInvoke() {
		if v := fv.val(st, fr, cc.Value); v.Fn != nil && v.Fn.Fn != nil {
			f, bind = v.Fn.Fn, v.Fn.Bind
		}
	} else if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		for _, x := range mc.Bindings {
			bind = append(bind, fv.val(st, fr, x))
		}
	}
	if f == nil {
		fv.unsupported(in, "go of an unknown function")
	}
	if c := fv.t.contract("func", fnKey(f, fv.t.tpkg)); c != nil {
		fv.t.dep(fv, c)
		env := fv.callEnv(st, st, c, args, nil)
		for _, r := range c.requires {
			if inProps(r.props, fv.t.prop) && !strings.Contains(r.text, "lockstate") {
				fv.obl(st, "requires", "go "+c.name+": "+clauseName(r), fv.t.pos(in.Pos()), fv.spec(env, r.e), nil)
			}
		}
		return
	}
	if !fv.c.hasSpawn {
		fv.t.unknown["goroutine "+fnKey(f, fv.t.tpkg)] = true
		return
	}
	// bind the spawn parameters by type
	names := copyNames(fv.env0)
	for _, p := range fv.c.spawnP {
		n, ty, _ := strings.Cut(p, ":")
		done := false
		for _, a := range args {
			if a.Typ != nil && (ty == "" || typeKey(a.Typ) == ty) {
				names[n] = a
				done = true
				break
			}
		}
		for _, b := range bind {
			if !done && b.Ptr != nil && b.Ptr.Kind == "cell" && len(b.Ptr.Path) == 0 && typeKey(b.Ptr.Typ) == ty {
				names[n] = st.cells[b.Ptr.Cell.key]
				if !fv.onceStored(fr, b.Ptr.Cell.key) {
					names[n] = freshVal("shared."+n, b.Ptr.Typ)
				}
				done = true
			}
		}
		if !done {
			names[n] = freshVal("spawn."+n, fv.t.typ(ty))
		}
	}
	// ghost effect in the spawning function
	env := fv.env(st)
	env.names = names
	fv.runSets(st, env, fv.c.spawnSet)
	if fv.inSpawn {
		return
	}
	key := siteKey(in)
	if fv.spawned[key] {
		return
	}
	fv.spawned[key] = true
	// the goroutine itself
	g := &State{heap: map[string]*Term{}, cells: map[string]Val{}, acq: map[string]int{}, trace: []string{"go"}}
	for k, v := range st.heap {
		if strings.HasPrefix(k, "G:") || strings.HasPrefix(k, "L:") || strings.HasPrefix(k, "V:") {
			continue
		}
		_ = v
	}
	// cells of the spawner are visible through captured variables
	for k, v := range st.cells {
		if fv.onceStored(fr, k) {
			g.cells[k] = v
		} else if !hasOpaque(v) && !v.Gh {
			g.cells[k] = fv.havocVal(g, "shared", v)
		}
	}
	saved := fv.entry
	savedEnv := fv.env0
	savedMemo := fv.guardMemo
	fv.guardMemo = nil
	fv.inSpawn = true
	fv.assumeEntry(g)
	fv.env0 = names
	fv.entry = g.clone()
	env = fv.env(g)
	for _, r := range fv.c.spawnReq {
		if inProps(r.props, fv.t.prop) {
			g.assume(fv.spec(env, r.e))
		}
	}
	fv.entry = g.clone()
	nf := &Frame{fn: f, regs: map[ssa.Value]Val{}, ctx: fr.ctx + "/go." + key, parent: fr, loops: map[*ssa.BasicBlock]*LoopAct{}, entry: false}
	for i, p := range f.Params {
		nf.regs[p] = args[i]
	}
	for i, p := range f.FreeVars {
		nf.regs[p] = bind[i]
	}
	nf.ret = func(s *State, res []Val) {
		env := fv.env(s)
		for _, e := range fv.c.spawnEns {
			if inProps(e.props, fv.t.prop) {
				fv.obl(s, "ensures", "goroutine: "+clauseName(e), e.pos, fv.spec(env, e.e), nil)
			}
		}
		fv.exitLocks(s, "end of goroutine")
		fv.obls = append(fv.obls, &Obl{Kind: "cover", Func: fv.c.name, unf: fv.unf, Label: "exit", Name: fv.c.name + "/cover/exit", Path: strings.Join(s.trace, " "), Hyps: s.pc[:len(s.pc):len(s.pc)], Goal: tFalse, Cover: true})
		fv.exits++
	}
	fv.block(g, nf, f.Blocks[0], 0)
	fv.entry, fv.env0, fv.guardMemo = saved, savedEnv, savedMemo
	fv.inSpawn = false
}

// onceStored reports whether the variable behind a cell is assigned once only.
func (fv *FV) onceStored(fr *Frame, key string) bool {
	for p := fr; p != nil; p = p.parent {
		pre := p.ctx + "|" + fnKey(p.fn, fv.t.tpkg) + "."
		if !strings.HasPrefix(key, pre) {
			continue
		}
		for _, b := range p.fn.Blocks {
			for _, in := range b.Instrs {
				a, ok := in.(*ssa.Alloc)
				if !ok || pre+a.Name() != key {
					continue
				}
				n, loop := countStores(a, 0), false
				for _, r := range *a.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == a && inLoop(s.Block()) {
						loop = true
					}
				}
				return n <= 1 && (!loop || inLoop(b))
			}
		}
	}
	return false
}

func inLoop(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(x *ssa.BasicBlock) bool
	dfs = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if dfs(s) {
					return true
				}
			}
		}
		return false
	}
	return dfs(b)
}

func countStores(v ssa.Value, d int) int {
	n := 0
	if v.Referrers() == nil || d > 3 {
		return 0
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == v {
				n++
			}
		case *ssa.MakeClosure:
			for i, b := range r.Bindings {
				if b == v {
					n += countStores(r.Fn.(*ssa.Function).FreeVars[i], d+1)
				}
			}
		case *ssa.FieldAddr:
			n += 2 * countStores(r, d+1)
		case *ssa.IndexAddr:
			n += 2 * countStores(r, d+1)
		}
	}
	return n
}

var _ = token.NoPos

// ownWrite: a function whose contract describes the calls it makes to its
// argument leaves the maps that those calls may change to them.
func (fv *FV) ownWrite(st *State, in ssa.Instruction, mt types.Type) {
	d, _, _ := mapLeafComps(mt)
	fv.ownComp(st, in, d)
}

func (fv *FV) ownComp(st *State, in ssa.Instruction, comp string) {
	if strings.HasPrefix(comp, "G:") {
		return
	}
	for _, n := range sortedCbs(fv.c.cbs) {
		for _, m := range fv.c.cbs[n].mods {
			if m.allo || !inProps(m.props, fv.t.prop) {
				continue
			}
			for _, cd := range fv.t.comps(m.comp) {
				if cd.name == comp {
					fv.obl(st, "frame", "changes "+m.comp+" only through "+n, fv.t.pos(in.Pos()), tFalse, nil)
				}
			}
		}
	}
}

func hasCb(c *Contract) bool { return len(c.cbs) > 0 }

func sortedCbs(m map[string]*CbSpec) []string {
	s := map[string]bool{}
	for k := range m {
		s[k] = true
	}
	return sortedSet(s)
}
