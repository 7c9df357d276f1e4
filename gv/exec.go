package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// FV verifies one function against its contract.
type FV struct {
	t         *Tool
	c         *Contract
	fn        *ssa.Function
	entry     *State
	env0      map[string]Val // parameters at entry
	obls      []*Obl
	loops     map[string]*LoopInfo
	paths     int
	exits     int
	again     bool // mod sets grew: run again
	errs      []string
	depth     int
	limit     int
	frid      int
	disc      bool // discovery round: no obligations
	inSpawn   bool
	spawned   map[string]bool
	guardMemo []guardInfo
	folded    map[string]bool // lock obligations that were true after constant folding
	unf       []*LemAx
	dead      map[string]bool // candidates already refuted
}

type LoopInfo struct {
	key   string
	comps map[string]bool
	cells map[string]bool
	cands map[string]*Cand
	dead  map[string]bool
	inst  bool
}

type Cand struct {
	key  string
	tpl  *LoopTpl
	bind map[string]Binding
	dead bool
	loop string
	kind string // "" template, "frame", "nonneg", "ub"
	comp string
	num  int64
	ord  int
}

type Binding struct {
	count bool
	reg   ssa.Value
	cell  string
	depth int
}

type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Val
	defers []func(st *State, k func(*State))
	ctx    string
	parent *Frame
	loops  map[*ssa.BasicBlock]*LoopAct
	ret    func(st *State, res []Val)
	entry  bool
	lexpar *Frame
}

type LoopAct struct {
	info *LoopInfo
	snap *State
	pre  *State // state on entry to the loop
	regs map[ssa.Value]Val
	dec  map[string]*Term
	names map[string]Val
}

func (fr *Frame) clone() *Frame {
	n := *fr
	n.regs = make(map[ssa.Value]Val, len(fr.regs))
	for k, v := range fr.regs {
		n.regs[k] = v
	}
	n.defers = fr.defers[:len(fr.defers):len(fr.defers)]
	n.loops = make(map[*ssa.BasicBlock]*LoopAct, len(fr.loops))
	for k, v := range fr.loops {
		n.loops[k] = v
	}
	return &n
}

type execErr struct{ msg string }

func (fv *FV) unsupported(in ssa.Instruction, f string, a ...interface{}) {
	pos := ""
	if in != nil {
		pos = fv.t.pos(in.Pos())
	}
	panic(execErr{fmt.Sprintf("%s: unsupported: %s", pos, fmt.Sprintf(f, a...))})
}

func (t *Tool) pos(p token.Pos) string {
	q := t.prog.Fset.Position(p)
	if q.Filename == "" {
		return ""
	}
	return fmt.Sprintf("%s:%d", q.Filename[strings.LastIndex(q.Filename, "/")+1:], q.Line)
}

func (fv *FV) obl(st *State, kind, label, pos string, goal *Term, cand *Cand) {
	if fv.disc || st.dead {
		return
	}
	if goal.op == "true" && kind != "ensures" {
		if kind == "guard" || kind == "lock" {
			fv.folded[kind+" "+label+" "+pos] = true
		}
		return
	}
	o := &Obl{Kind: kind, Func: fv.c.name, Label: label, Pos: pos, Hyps: st.pc[:len(st.pc):len(st.pc)], Goal: goal, cand: cand, unf: fv.unf, Path: strings.Join(st.trace, " ")}
	o.Name = fmt.Sprintf("%s/%s/%s", fv.c.name, kind, label)
	fv.obls = append(fv.obls, o)
}

func (fv *FV) safetyOn() bool {
	for _, p := range fv.c.safety {
		if p == fv.t.prop || p == "*" || fv.t.prop == "*" {
			return true
		}
	}
	return false
}

func (fv *FV) safe(st *State, what string, in ssa.Instruction, goal *Term) {
	if fv.safetyOn() {
		fv.obl(st, "safety", what, fv.t.pos(in.Pos()), goal, nil)
	}
	st.assume(goal)
}

func (fv *FV) constVal(c QV) Val {
	ty := fv.t.typ(c.typ)
	return build(ty, func(l Leaf) *Term { return Const("any:"+c.name+l.Path, l.Sort) })
}

// ---- memory

func (fv *FV) loadGlobal(st *State, g *ssa.Global) Val {
	ty := g.Type().(*types.Pointer).Elem()
	if fv.t.constG[g.Name()] && g.Pkg == fv.t.pkg {
		return build(ty, func(l Leaf) *Term { return Const("glob:"+g.Name()+l.Path, l.Sort) })
	}
	if g.Pkg != fv.t.pkg { // other packages' variables: treated as constants
		return build(ty, func(l Leaf) *Term { return Const("glob:"+g.Pkg.Pkg.Name()+"."+g.Name()+l.Path, l.Sort) })
	}
	return build(ty, func(l Leaf) *Term {
		return fv.get(st, "V:"+g.Name()+l.Path, l.Sort)
	})
}

func (fv *FV) heapLeafComp(n *types.Named, path string, l Leaf) (string, Sort) {
	return "F:" + typeKey(n) + path + l.Path, Arr(SRef, l.Sort)
}

func (fv *FV) load(st *State, a *Addr) Val {
	switch a.Kind {
	case "cell":
		v, ok := st.cells[a.Cell.key]
		if !ok {
			panic(execErr{"load of unknown cell " + a.Cell.key})
		}
		return getPath(v, a.Path)
	case "heap":
		ls := leaves(a.Typ)
		i := 0
		v := build(a.Typ, func(Leaf) *Term {
			l := ls[i]
			i++
			if l.Path != "" && strings.HasSuffix(l.Path, ".arr") || isBigArr(l.Typ) {
				return fv.bigArrBase(a.Styp, a.FPath+l.Path, a.Ref)
			}
			c, so := fv.heapLeafComp(a.Styp, a.FPath, l)
			return Select(fv.get(st, c, so), a.Ref)
		})
		fv.refFacts(st, v)
		return v
	case "slice":
		v := fv.sliceElem(st, a.Elem, a.Base, a.Idx)
		v = getPath(v, a.EPath)
		fv.refFacts(st, v)
		return v
	case "bytes":
		return fv.loadBytes(st, a)
	}
	panic(execErr{"load kind " + a.Kind})
}

func isBigArr(t types.Type) bool {
	if t == nil {
		return false
	}
	a, ok := under(t).(*types.Array)
	return ok && !isSmallArray(a)
}

func (fv *FV) bigArrBase(n *types.Named, path string, ref *Term) *Term {
	return UF("arr:"+typeKey(n)+strings.TrimSuffix(path, ".arr"), SRef, ref)
}

// refFacts: references stored anywhere are allocated (heap closedness), slices are well formed.
func (fv *FV) refFacts(st *State, v Val) {
	if st == nil {
		return
	}
	fv.wf(st, v)
}

func (fv *FV) wf(st *State, v Val) {
	if v.Typ == nil {
		return
	}
	if v.E != nil {
		if _, ok := under(v.Typ).(*types.Slice); ok && len(v.E) == 4 {
			b, o, l, c := v.E[0].T, v.E[1].T, v.E[2].T, v.E[3].T
			if b == nil || b.bound {
				return
			}
			fv.fact(st, And(Le(IntC(0), b), Lt(b, fv.get(st, "alloc", SInt)), Le(IntC(0), o), Le(IntC(0), l), Le(l, c), Implies(Eq(b, RefC(0)), Eq(c, IntC(0)))))
			return
		}
		for _, e := range v.E {
			fv.wf(st, e)
		}
		return
	}
	if v.T == nil || v.T.isLit() || v.T.bound {
		return
	}
	if isRefType(v.Typ) {
		fv.fact(st, And(Le(IntC(0), v.T), Lt(v.T, fv.get(st, "alloc", SInt))))
	} else if v.T.sort == SRef {
		fv.fact(st, Le(IntC(0), v.T))
	} else if b, ok := under(v.Typ).(*types.Basic); ok && v.T.sort == SInt {
		switch b.Kind() {
		case types.Int32:
			fv.fact(st, And(Le(IntC(-1<<31), v.T), Le(v.T, IntC(1<<31-1))))
		case types.Int8:
			fv.fact(st, And(Le(IntC(-128), v.T), Le(v.T, IntC(127))))
		case types.Int16:
			fv.fact(st, And(Le(IntC(-1<<15), v.T), Le(v.T, IntC(1<<15-1))))
		}
	}
}

func (fv *FV) fact(st *State, t *Term) {
	ts := []*Term{t}
	if t.op == "and" {
		ts = t.args
	}
	for _, x := range ts {
		if x.op != "true" && !st.has(x) {
			st.pc = append(st.pc, x)
		}
	}
}

func (fv *FV) store(st *State, a *Addr, v Val) {
	switch a.Kind {
	case "cell":
		st.cells[a.Cell.key] = setPath(st.cells[a.Cell.key], a.Path, v)
	case "heap":
		fl := v.flat()
		for i, l := range leaves(a.Typ) {
			c, so := fv.heapLeafComp(a.Styp, a.FPath, l)
			if isBigArr(l.Typ) {
				continue
			}
			x := fl[i]
			if x == nil {
				x = Fresh("opaque", l.Sort)
			}
			st.heap[c] = Store(fv.get(st, c, so), a.Ref, x)
		}
	case "slice":
		cur := fv.sliceElem(st, a.Elem, a.Base, a.Idx)
		fv.sliceStore(st, a.Elem, a.Base, a.Idx, setPath(cur, a.EPath, v))
	default:
		panic(execErr{"store kind " + a.Kind})
	}
}

func (fv *FV) loadBytes(st *State, a *Addr) Val {
	// little endian view of bytes a.Base[a.Idx...]
	A := Select(fv.get(st, "S:uint8", Arr(SRef, Arr(SInt, BV(8)))), a.Base)
	if s, ok := under(a.Typ).(*types.Struct); ok {
		offs := fv.t.sizes.Offsetsof(structFields(s))
		v := Val{Typ: a.Typ}
		for i := 0; i < s.NumFields(); i++ {
			n := *a
			n.Typ = s.Field(i).Type()
			n.Idx = Add(a.Idx, IntC(offs[i]))
			if ar, ok := under(n.Typ).(*types.Array); ok && ar.Len() == 0 {
				v.E = append(v.E, Val{Typ: n.Typ, E: []Val{}})
				continue
			}
			v.E = append(v.E, fv.loadBytes(st, &n))
		}
		return v
	}
	b, ok := under(a.Typ).(*types.Basic)
	if !ok {
		panic(execErr{"byte view of " + a.Typ.String()})
	}
	return Val{Typ: a.Typ, T: leBytes(A, a.Idx, int(fv.t.sizes.Sizeof(a.Typ)), sortOfBasic(b).isBV())}
}

// leBytes reads n bytes of a row as a little endian number.
func leBytes(A, idx *Term, n int, bv bool) *Term {
	t := Select(A, idx)
	for i := 1; i < n; i++ {
		t = App("concat", BV(8*(i+1)), Select(A, Add(idx, IntC(int64(i)))), t)
	}
	if bv {
		return t
	}
	return signed(t)
}

// ptrAddr turns a pointer value into an address.
func (fv *FV) ptrAddr(in ssa.Instruction, st *State, v Val) *Addr {
	if v.Ptr != nil {
		return v.Ptr
	}
	p, ok := under(v.Typ).(*types.Pointer)
	if !ok {
		fv.unsupported(in, "dereference of %v", v.Typ)
	}
	if n, ok := types.Unalias(p.Elem()).(*types.Named); ok {
		if _, ok := under(n).(*types.Struct); ok && v.T != nil {
			return &Addr{Kind: "heap", Ref: v.T, Styp: n, Typ: n}
		}
	}
	fv.unsupported(in, "dereference of pointer type %v", v.Typ)
	return nil
}

func (fv *FV) val(st *State, fr *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zeroVal(v.Type())
		}
		return constVal(v.Value, v.Type())
	case *ssa.Function:
		return Val{Typ: v.Type(), Fn: &Closure{Fn: v}}
	case *ssa.Global:
		ty := v.Type().(*types.Pointer).Elem()
		return Val{Typ: v.Type(), Ptr: &Addr{Kind: "global", FPath: v.Name(), Typ: ty}}
	case *ssa.Builtin:
		return Val{Typ: v.Type()}
	}
	r, ok := fr.regs[v]
	if !ok {
		panic(execErr{fmt.Sprintf("register %s of %s undefined", v.Name(), fr.fn)})
	}
	return r
}

// ---- control flow

func isHeader(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

func loopBlocks(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	in := map[*ssa.BasicBlock]bool{h: true}
	var stack []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) && !in[p] {
			in[p] = true
			stack = append(stack, p)
		}
	}
	for len(stack) > 0 {
		b := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		for _, p := range b.Preds {
			if !in[p] {
				in[p] = true
				stack = append(stack, p)
			}
		}
	}
	return in
}

func (fv *FV) jump(st *State, fr *Frame, from, to *ssa.BasicBlock) {
	if st.dead {
		return
	}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	var phis []*ssa.Phi
	vals := map[ssa.Value]Val{}
	for _, in := range to.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
			vals[p] = fv.val(st, fr, p.Edges[pi])
		} else {
			break
		}
	}
	for p, v := range vals {
		fr.regs[p] = v
	}
	if !isHeader(to) {
		fv.block(st, fr, to, len(phis))
		return
	}
	if to.Dominates(from) {
		fv.backEdge(st, fr, to, phis)
		return
	}
	fv.loopEntry(st, fr, to, phis)
}

func (fv *FV) loopKey(fr *Frame, h *ssa.BasicBlock) string {
	return fmt.Sprintf("%s@%s#%d", fr.ctx, fnKey(fr.fn, fv.t.tpkg), h.Index)
}

func (fv *FV) loopEntry(st *State, fr *Frame, h *ssa.BasicBlock, phis []*ssa.Phi) {
	key := fv.loopKey(fr, h)
	li := fv.loops[key]
	if li == nil {
		li = &LoopInfo{key: key, comps: map[string]bool{}, cells: map[string]bool{}, cands: map[string]*Cand{}, dead: map[string]bool{}}
		fv.loops[key] = li
		fv.again = true
	}
	// instantiate candidates
	fv.instantiate(st, fr, h, phis, li)
	for _, k := range sortedCands(li.cands) {
		cd := li.cands[k]
		if cd.dead {
			continue
		}
		g, ok := fv.candTerm(st, fr, cd, nil)
		if !ok {
			continue
		}
		fv.obl(st, "inv-entry", cd.key, fv.t.pos(h.Instrs[0].Pos()), g, cd)
	}
	// havoc
	entrySt := st.clone()
	act := &LoopAct{info: li, dec: map[string]*Term{}, pre: entrySt}
	if li.comps["alloc"] {
		a := fv.get(st, "alloc", SInt)
		n := Fresh("alloc", SInt)
		st.heap["alloc"] = n
		st.assume(Le(a, n))
	}
	for _, c := range sortedSet(li.comps) {
		if c == "alloc" {
			continue
		}
		so, ok := compSort[c]
		if !ok {
			panic(execErr{"no sort for " + c})
		}
		st.heap[c] = Fresh("L:"+c, so)
	}
	for _, c := range sortedSet(li.cells) {
		if v, ok := st.cells[c]; ok {
			st.cells[c] = fv.havocPart(st, "c:"+c, v, li, c)
		}
	}
	for _, p := range phis {
		v := fr.regs[p]
		fr.regs[p] = fv.havocPhi(st, p, v, li)
	}
	if fr.loops == nil {
		fr.loops = map[*ssa.BasicBlock]*LoopAct{}
	}
	fr.loops[h] = act
	for _, k := range sortedCands(li.cands) {
		cd := li.cands[k]
		if cd.dead {
			continue
		}
		if cd.tpl != nil && cd.tpl.dec {
			if g, ok := fv.candDec(st, fr, cd); ok {
				act.dec[cd.key] = g
			}
			continue
		}
		if g, ok := fv.candTerm(st, fr, cd, act); ok {
			st.assume(g)
		}
	}
	act.snap = st.clone()
	act.regs = map[ssa.Value]Val{}
	for _, p := range phis {
		act.regs[p] = fr.regs[p]
	}
	if !fv.disc && fr.entry {
		fv.obls = append(fv.obls, &Obl{Kind: "cover", Func: fv.c.name, Label: "loop-header", Name: fv.c.name + "/cover/loop " + key, Hyps: st.pc[:len(st.pc):len(st.pc)], Goal: tFalse, Cover: true, Pos: fv.t.pos(h.Instrs[0].Pos())})
	}
	fv.block(st, fr, h, len(phis))
}

func (fv *FV) havocPhi(st *State, p *ssa.Phi, v Val, li *LoopInfo) Val {
	if li.cells["phi:"+p.Name()] || true {
		if hasOpaque(v) {
			// closures and cell pointers are kept when the loop does not change them
			if li.cells["phi:"+p.Name()] {
				panic(execErr{"loop changes a function or pointer value " + p.Name()})
			}
			return v
		}
		if !li.cells["phi:"+p.Name()] {
			return v
		}
		return fv.havocPart(st, p.Comment, v, li, "phi:"+p.Name())
	}
	return v
}

// havocPart forgets only the components of a variable that the loop changes.
func (fv *FV) havocPart(st *State, name string, v Val, li *LoopInfo, key string) Val {
	if v.E == nil || v.Gh || hasOpaque(v) {
		return fv.havocVal(st, name, v)
	}
	r := Val{Typ: v.Typ, E: make([]Val, len(v.E))}
	for i, e := range v.E {
		k := fmt.Sprintf("%s.%d", key, i)
		if li.cells[k] {
			r.E[i] = fv.havocPart(st, fmt.Sprintf("%s.%d", name, i), e, li, k)
		} else {
			r.E[i] = e
		}
	}
	if isSlice(v.Typ) {
		fv.wf(st, r)
	}
	return r
}

// markParts records which components of a variable differ.
func (fv *FV) markParts(li *LoopInfo, key string, a, b Val) {
	if sameVal(a, b) {
		return
	}
	if !li.cells[key] {
		li.cells[key] = true
		fv.again = true
	}
	if a.E != nil && len(a.E) == len(b.E) {
		for i := range a.E {
			fv.markParts(li, fmt.Sprintf("%s.%d", key, i), a.E[i], b.E[i])
		}
	}
}

func hasOpaque(v Val) bool {
	if v.E != nil {
		for _, e := range v.E {
			if hasOpaque(e) {
				return true
			}
		}
		return false
	}
	return v.T == nil
}

func (fv *FV) havocVal(st *State, name string, v Val) Val {
	if v.Gh { // raw term (iterator sets)
		return Val{Typ: v.Typ, Gh: true, T: Fresh(name, v.T.sort)}
	}
	if v.E != nil {
		r := Val{Typ: v.Typ, E: make([]Val, len(v.E))}
		for i, e := range v.E {
			r.E[i] = fv.havocVal(st, fmt.Sprintf("%s.%d", name, i), e)
		}
		if v.Typ != nil {
			if _, ok := under(v.Typ).(*types.Slice); ok {
				fv.wf(st, r)
			}
		}
		return r
	}
	if v.T == nil {
		panic(execErr{"loop changes an opaque value " + name})
	}
	r := Val{Typ: v.Typ, T: Fresh(name, v.T.sort)}
	fv.wf(st, r)
	return r
}

func (fv *FV) backEdge(st *State, fr *Frame, h *ssa.BasicBlock, phis []*ssa.Phi) {
	act := fr.loops[h]
	if act == nil {
		panic(execErr{"back edge without loop"})
	}
	li := act.info
	// discover modifications
	for c, t := range st.heap {
		o := act.snap.heap[c]
		if o == nil {
			if t.op == "const" && t.name == "H0:"+c {
				continue
			}
			o = nil
		}
		if o != t && !li.comps[c] {
			li.comps[c] = true
			fv.again = true
		}
	}
	for c, v := range act.snap.cells {
		if n, ok := st.cells[c]; ok {
			fv.markParts(li, c, n, v)
		}
	}
	for _, p := range phis {
		fv.markParts(li, "phi:"+p.Name(), fr.regs[p], act.regs[p])
	}
	pos := fv.t.pos(h.Instrs[0].Pos())
	ends := false
	for _, k := range sortedCands(li.cands) {
		cd := li.cands[k]
		if cd.dead {
			continue
		}
		if cd.tpl != nil && cd.tpl.dec {
			if g, ok := fv.candDec(st, fr, cd); ok {
				if o := act.dec[cd.key]; o != nil {
					ends = true
					fv.obl(st, "inv-keep", cd.key, pos, And(Le(IntC(0), o), Lt(g, o)), cd)
				}
			}
			continue
		}
		g, ok := fv.candTerm(st, fr, cd, act)
		if !ok {
			continue
		}
		fv.obl(st, "inv-keep", cd.key, pos, g, cd)
	}
	if inList(strings.Fields(fv.c.opts["terminates"]), fv.t.prop) && !ends && !isRangeLoop(h) {
		fv.obl(st, "terminates", "the loop ends", pos, tFalse, nil)
	}
	// step clauses: one iteration of a receiving loop
	if fr.entry && st.recv != nil {
		env := fv.env(st)
		env.old = act.snap
		env.names = copyNames(fv.env0)
		env.names["received"] = *st.recv
		for _, s := range fv.c.steps {
			if inProps(s.props, fv.t.prop) {
				fv.obl(st, "step", s.label, s.pos, fv.spec(env, s.e), nil)
			}
		}
	}
	if fr.entry && st.recv != nil {
		fv.exitLocks(st, "iteration")
	}
	fv.paths++
}

func copyNames(m map[string]Val) map[string]Val {
	n := map[string]Val{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (fv *FV) env(st *State) *Env {
	return &Env{fv: fv, names: fv.env0, st: st, old: fv.entry, acq: st.acqSt}
}

func (fv *FV) spec(env *Env, e *SE) *Term {
	return env.bool(e)
}

func (fv *FV) block(st *State, fr *Frame, b *ssa.BasicBlock, from int) {
	if st.dead {
		return
	}
	fv.instrs(st, fr, b, from)
}

func (fv *FV) instrs(st *State, fr *Frame, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		if st.dead {
			return
		}
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.If:
			c := fv.val(st, fr, in.Cond).T
			fv.branch(st, fr, b, c)
			return
		case *ssa.Jump:
			fv.jump(st, fr, b, b.Succs[0])
			return
		case *ssa.Return:
			var res []Val
			for _, r := range in.Results {
				res = append(res, fv.val(st, fr, r))
			}
			fr.ret(st, res)
			return
		case *ssa.Panic:
			if !fv.c.maypanic {
				if fv.safetyOn() {
					fv.obl(st, "safety", "panic unreachable", fv.t.pos(in.Pos()), tFalse, nil)
				}
			}
			return
		case *ssa.RunDefers:
			ds := fr.defers
			fr.defers = nil
			next := i + 1
			var run func(st *State, n int)
			run = func(st *State, n int) {
				if n < 0 {
					fr2 := fr.clone()
					fv.instrs(st, fr2, b, next)
					return
				}
				ds[n](st, func(st2 *State) { run(st2, n-1) })
			}
			run(st, len(ds)-1)
			return
		case *ssa.Call:
			next := i + 1
			fv.call(st, fr, in, &in.Call, func(st2 *State, res []Val) {
				fr2 := fr.clone()
				fr2.regs[in] = packResults(in.Type(), res)
				fv.instrs(st2, fr2, b, next)
			})
			return
		default:
			fv.simple(st, fr, in)
		}
	}
}

func packResults(t types.Type, res []Val) Val {
	if tp, ok := t.(*types.Tuple); ok {
		if tp.Len() == 0 {
			return Val{Typ: t, E: []Val{}}
		}
		return Val{Typ: t, E: res}
	}
	if len(res) == 1 {
		return res[0]
	}
	return Val{Typ: t, E: res}
}

func (fv *FV) branch(st *State, fr *Frame, b *ssa.BasicBlock, c *Term) {
	fv.paths++
	if fv.paths > fv.limit {
		panic(execErr{"path limit"})
	}
	if c.op == "true" || st.has(c) {
		fv.jump(st, fr, b, b.Succs[0])
		return
	}
	if c.op == "false" || st.has(Not(c)) {
		fv.jump(st, fr, b, b.Succs[1])
		return
	}
	st2, fr2 := st.clone(), fr.clone()
	st.assume(c)
	st2.assume(Not(c))
	ln := fv.t.pos(b.Instrs[len(b.Instrs)-1].(*ssa.If).Cond.Pos())
	st.trace = append(st.trace, ln+":T")
	st2.trace = append(st2.trace, ln+":F")
	if fv.feasible(st, c) {
		fv.jump(st, fr, b, b.Succs[0])
	}
	if fv.feasible(st2, Not(c)) {
		fv.jump(st2, fr2, b, b.Succs[1])
	}
}

// feasible is a cheap refutation test (sound to answer true).
func (fv *FV) feasible(st *State, c *Term) bool {
	if st.dead {
		return false
	}
	// x == lit1 together with x == lit2
	for _, p := range st.pc {
		if p.op == "=" && c.op == "=" && p != c {
			for i := 0; i < 2; i++ {
				for j := 0; j < 2; j++ {
					if p.args[i] == c.args[j] && distinctLit(p.args[1-i], c.args[1-j]) {
						return false
					}
				}
			}
		}
	}
	return true
}

func (fv *FV) simple(st *State, fr *Frame, in ssa.Instruction) {
	set := func(v ssa.Value, x Val) {
		if x.Typ == nil {
			x.Typ = v.Type()
		}
		fr.regs[v] = x
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		ty := in.Type().(*types.Pointer).Elem()
		if in.Heap && escapes(in) {
			n, ok := types.Unalias(ty).(*types.Named)
			if !ok {
				// escaping scalar or array: opaque object
				r := fv.alloc(st)
				set(in, Val{Typ: in.Type(), T: r})
				if _, ok := under(ty).(*types.Struct); !ok {
					key := fr.ctx + "|" + fnKey(fr.fn, fv.t.tpkg) + "." + in.Name()
					st.cells[key] = zeroVal(ty)
					set(in, Val{Typ: in.Type(), Ptr: &Addr{Kind: "cell", Cell: &Cell{key: key, typ: ty, name: in.Comment}, Typ: ty}})
				}
				return
			}
			r := fv.alloc(st)
			if _, ok := under(ty).(*types.Struct); ok {
				fv.store(st, &Addr{Kind: "heap", Ref: r, Styp: n, Typ: n}, zeroVal(ty))
				set(in, Val{Typ: in.Type(), T: r})
				return
			}
		}
		key := fr.ctx + "|" + fnKey(fr.fn, fv.t.tpkg) + "." + in.Name()
		st.cells[key] = zeroVal(ty)
		set(in, Val{Typ: in.Type(), Ptr: &Addr{Kind: "cell", Cell: &Cell{key: key, typ: ty, name: in.Comment}, Typ: ty}})
	case *ssa.Store:
		v := fv.val(st, fr, in.Val)
		p := fv.val(st, fr, in.Addr)
		if p.Ptr != nil && p.Ptr.Kind == "global" {
			for i, l := range leaves(p.Ptr.Typ) {
				fv.get(st, "V:"+p.Ptr.FPath+l.Path, l.Sort)
				st.heap["V:"+p.Ptr.FPath+l.Path] = v.flat()[i]
			}
			return
		}
		a := fv.ptrAddr(in, st, p)
		fv.nilCheck(st, in, a)
		fv.guardAddr(st, in, a, true)
		fv.store(st, a, v)
	case *ssa.UnOp:
		set(in, fv.unop(st, fr, in))
	case *ssa.BinOp:
		set(in, fv.binop(st, fr, in))
	case *ssa.FieldAddr:
		p := fv.val(st, fr, in.X)
		stt := under(under(in.X.Type()).(*types.Pointer).Elem()).(*types.Struct)
		f := stt.Field(in.Field)
		a := fv.ptrAddr(in, st, p)
		fv.nilCheck(st, in, a)
		n := *a
		n.Typ = f.Type()
		switch a.Kind {
		case "cell":
			n.Path = append(append([]int(nil), a.Path...), in.Field)
		case "heap":
			n.FPath = a.FPath + "." + f.Name()
		case "slice":
			n.EPath = append(append([]int(nil), a.EPath...), in.Field)
		case "bytes":
			offs := fv.t.sizes.Offsetsof(structFields(stt))
			n.Idx = Add(a.Idx, IntC(offs[in.Field]))
		}
		set(in, Val{Typ: in.Type(), Ptr: &n})
	case *ssa.Field:
		v := fv.val(st, fr, in.X)
		set(in, v.E[in.Field])
	case *ssa.IndexAddr:
		x := fv.val(st, fr, in.X)
		i := fv.intOf(fv.val(st, fr, in.Index))
		switch u := under(in.X.Type()).(type) {
		case *types.Slice:
			fv.safe(st, "index in range", in, And(Le(IntC(0), i), Lt(i, x.E[2].T)))
			set(in, Val{Typ: in.Type(), Ptr: &Addr{Kind: "slice", Lim: Add(x.E[1].T, x.E[2].T), Base: x.E[0].T, Idx: Add(x.E[1].T, i), Elem: u.Elem(), Typ: u.Elem()}})
		case *types.Pointer:
			ar := under(u.Elem()).(*types.Array)
			fv.safe(st, "index in range", in, And(Le(IntC(0), i), Lt(i, IntC(ar.Len()))))
			a := fv.ptrAddrAny(in, st, x)
			switch {
			case a.Kind == "cell" && i.op == "int":
				n := *a
				n.Path = append(append([]int(nil), a.Path...), int(i.num.Int64()))
				n.Typ = ar.Elem()
				set(in, Val{Typ: in.Type(), Ptr: &n})
			case a.Kind == "heap" && !isSmallArray(ar):
				set(in, Val{Typ: in.Type(), Ptr: &Addr{Kind: "slice", Lim: IntC(ar.Len()), Base: fv.bigArrBase(a.Styp, a.FPath, a.Ref), Idx: i, Elem: ar.Elem(), Typ: ar.Elem()}})
			default:
				fv.unsupported(in, "index of array")
			}
		default:
			fv.unsupported(in, "IndexAddr %v", u)
		}
	case *ssa.Index:
		x := fv.val(st, fr, in.X)
		i := fv.intOf(fv.val(st, fr, in.Index))
		if x.T != nil && x.T.sort == SStr {
			fv.safe(st, "string index in range", in, And(Le(IntC(0), i), Lt(i, StrLen(x.T))))
			set(in, Val{Typ: in.Type(), T: ByteAt(x.T, i)})
			return
		}
		if x.E != nil && i.op == "int" {
			set(in, x.E[int(i.num.Int64())])
			return
		}
		if x.E != nil {
			r := x.E[len(x.E)-1]
			for j := len(x.E) - 2; j >= 0; j-- {
				r, _ = iteVal(Eq(i, IntC(int64(j))), x.E[j], r)
			}
			fv.safe(st, "array index in range", in, And(Le(IntC(0), i), Lt(i, IntC(int64(len(x.E))))))
			set(in, r)
			return
		}
		fv.unsupported(in, "index")
	case *ssa.Lookup:
		x := fv.val(st, fr, in.X)
		k := fv.val(st, fr, in.Index)
		if x.T != nil && x.T.sort == SStr {
			i := fv.intOf(k)
			fv.safe(st, "string index in range", in, And(Le(IntC(0), i), Lt(i, StrLen(x.T))))
			set(in, Val{Typ: in.Type(), T: ByteAt(x.T, i)})
			return
		}
		fv.guardMap(st, in, in.X.Type(), x.T, false)
		v, ok := fv.mapLookup(st, in.X.Type(), x.T, k.T)
		fv.wf(st, v)
		if in.CommaOk {
			set(in, Val{Typ: in.Type(), E: []Val{v, boolV(ok)}})
		} else {
			set(in, v)
		}
	case *ssa.MapUpdate:
		x := fv.val(st, fr, in.Map)
		k := fv.val(st, fr, in.Key)
		v := fv.val(st, fr, in.Value)
		fv.safe(st, "write to nil map", in, Not(Eq(x.T, RefC(0))))
		fv.guardMap(st, in, in.Map.Type(), x.T, true)
		fv.ownWrite(st, in, in.Map.Type())
		fv.mapUpdate(st, in.Map.Type(), x.T, k.T, v)
	case *ssa.MakeMap:
		r := fv.alloc(st)
		m := under(in.Type()).(*types.Map)
		d, _, _ := mapLeafComps(in.Type())
		so := Arr(keySort(m.Key()), SBool)
		st.heap[d] = Store(fv.get(st, d, Arr(SRef, so)), r, ConstArr(so, tFalse))
		set(in, Val{Typ: in.Type(), T: r})
	case *ssa.MakeChan:
		set(in, Val{Typ: in.Type(), T: fv.alloc(st)})
	case *ssa.MakeSlice:
		sl := under(in.Type()).(*types.Slice)
		n := fv.intOf(fv.val(st, fr, in.Len))
		c := fv.intOf(fv.val(st, fr, in.Cap))
		r := fv.alloc(st)
		for _, l := range leaves(sl.Elem()) {
			cn := sliceComp(sl.Elem(), l)
			so := Arr(SInt, l.Sort)
			st.heap[cn] = Store(fv.get(st, cn, Arr(SRef, so)), r, ConstArr(so, zeroTerm(l.Sort)))
		}
		fv.safe(st, "make slice length", in, And(Le(IntC(0), n), Le(n, c)))
		set(in, Val{Typ: in.Type(), E: []Val{{T: r, Typ: in.Type()}, intV(IntC(0)), intV(n), intV(c)}})
	case *ssa.MakeClosure:
		var b []Val
		for _, x := range in.Bindings {
			b = append(b, fv.val(st, fr, x))
		}
		set(in, Val{Typ: in.Type(), Fn: &Closure{Fn: in.Fn.(*ssa.Function), Bind: b}})
	case *ssa.MakeInterface:
		v := fv.val(st, fr, in.X)
		set(in, fv.box(st, in.X.Type(), v, in.Type()))
	case *ssa.ChangeInterface:
		v := fv.val(st, fr, in.X)
		v.Typ = in.Type()
		set(in, v)
	case *ssa.ChangeType:
		v := fv.val(st, fr, in.X)
		v.Typ = in.Type()
		set(in, v)
	case *ssa.Convert:
		set(in, fv.convert(st, in, fv.val(st, fr, in.X), in.X.Type(), in.Type()))
	case *ssa.Extract:
		v := fv.val(st, fr, in.Tuple)
		set(in, v.E[in.Index])
	case *ssa.Slice:
		set(in, fv.slice(st, fr, in))
	case *ssa.TypeAssert:
		v := fv.val(st, fr, in.X)
		var r Val
		if _, ok := under(in.AssertedType).(*types.Interface); ok {
			r = Val{Typ: in.AssertedType, T: v.T}
		} else {
			r = build(in.AssertedType, func(l Leaf) *Term { return UF("unbox:"+typeKey(in.AssertedType)+l.Path, l.Sort, v.T) })
		}
		if in.CommaOk {
			ok := UF("is:"+typeKey(in.AssertedType), SBool, v.T)
			z, _ := iteVal(ok, r, zeroVal(in.AssertedType))
			set(in, Val{Typ: in.Type(), E: []Val{z, boolV(ok)}})
		} else {
			set(in, r)
		}
	case *ssa.Range:
		x := fv.val(st, fr, in.X)
		m, ok := under(in.X.Type()).(*types.Map)
		if !ok {
			fv.unsupported(in, "range over %v", in.X.Type())
		}
		fv.guardMap(st, in, in.X.Type(), x.T, false)
		key := fr.ctx + "|" + fnKey(fr.fn, fv.t.tpkg) + "." + in.Name() + "#iter"
		so := Arr(keySort(m.Key()), SBool)
		st.cells[key] = Val{Gh: true, T: ConstArr(so, tFalse)}
		dom := fv.domOrEmpty(st, in.X.Type(), x.T)
		set(in, Val{Typ: in.Type(), It: &Iter{Cell: &Cell{key: key, iter: true}, Map: Val{Typ: in.X.Type(), T: x.T}, MTyp: m, Dom0: dom}})
	case *ssa.Next:
		it := fv.val(st, fr, in.Iter).It
		if it == nil {
			fv.unsupported(in, "next")
		}
		fv.guardMap(st, in, it.Map.Typ, it.Map.T, false)
		ks := keySort(it.MTyp.Key())
		vis := st.cells[it.Cell.key].T
		k := Fresh("key", ks)
		ok := Fresh("more", SBool)
		dom := fv.domOrEmpty(st, it.Map.Typ, it.Map.T)
		st.assume(Implies(ok, And(Select(dom, k), Not(Select(vis, k)))))
		q := BVar("k", ks)
		st.assume(Implies(Not(ok), Quant("forall", []*Term{q}, Implies(And(Select(dom, q), Select(it.Dom0, q)), Select(vis, q)), [][]*Term{{Select(vis, q)}, {Select(it.Dom0, q)}})))
		if dom != it.Dom0 {
			// entries present at the start and never removed are all produced
		}
		st.cells[it.Cell.key] = Val{Gh: true, T: Ite(ok, Store(vis, k, tTrue), vis)}
		kv := Val{Typ: it.MTyp.Key(), T: k}
		fv.wf(st, kv)
		v, _ := fv.mapLookup(st, it.Map.Typ, it.Map.T, k)
		fv.wf(st, v)
		set(in, Val{Typ: in.Type(), E: []Val{boolV(ok), kv, v}})
	case *ssa.Select:
		fv.selectInstr(st, fr, in)
	case *ssa.Send:
		c := fv.val(st, fr, in.Chan)
		x := fv.val(st, fr, in.X)
		fv.blocking(st, in, "send")
		fv.ghostSend(st, in, c, x)
	case *ssa.Defer:
		fv.deferCall(st, fr, in)
	case *ssa.Go:
		fv.goCall(st, fr, in)
	case *ssa.Phi:
		// handled in jump
	default:
		fv.unsupported(in, "instruction %T", in)
	}
}

func (fv *FV) domOrEmpty(st *State, mt types.Type, ref *Term) *Term {
	d := fv.mapDom(st, mt, ref)
	if st.nonNil(ref) {
		return d
	}
	return Ite(Eq(ref, RefC(0)), ConstArr(d.sort, tFalse), d)
}

func structFields(s *types.Struct) []*types.Var {
	var fs []*types.Var
	for i := 0; i < s.NumFields(); i++ {
		fs = append(fs, s.Field(i))
	}
	return fs
}

func (fv *FV) ptrAddrAny(in ssa.Instruction, st *State, v Val) *Addr {
	if v.Ptr != nil {
		return v.Ptr
	}
	return fv.ptrAddr(in, st, v)
}

func (fv *FV) intOf(v Val) *Term {
	if v.T.sort.isBV() {
		return bv2int(v.T)
	}
	return v.T
}

func (fv *FV) nilCheck(st *State, in ssa.Instruction, a *Addr) {
	if a.Kind == "heap" {
		fv.safe(st, "nil dereference", in, Not(Eq(a.Ref, RefC(0))))
	}
}

// escapes reports whether the address of an allocation is used as a value
// (rather than only loaded from, stored to, indexed, or captured).
func escapes(a *ssa.Alloc) bool {
	var esc func(v ssa.Value, depth int) bool
	esc = func(v ssa.Value, depth int) bool {
		if v.Referrers() == nil {
			return false
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Val == v {
					return true
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.FieldAddr, *ssa.IndexAddr:
				// address of a part: only an escape if that part escapes
				if depth < 4 && esc(r.(ssa.Value), depth+1) {
					return false // parts are stored as cell addresses
				}
			case *ssa.Slice, *ssa.MakeClosure, *ssa.Call, *ssa.Defer, *ssa.Go:
				if c, ok := r.(*ssa.Call); ok {
					_ = c
				}
			case *ssa.Phi, *ssa.MakeInterface, *ssa.Return, *ssa.MapUpdate, *ssa.Send, *ssa.ChangeType, *ssa.Convert:
				return true
			default:
				return true
			}
		}
		return false
	}
	return esc(a, 0)
}

func (fv *FV) box(st *State, from types.Type, v Val, to types.Type) Val {
	args := []*Term{}
	for _, x := range v.flat() {
		if x == nil {
			x = Fresh("opaque", SRef)
		}
		args = append(args, x)
	}
	t := UF("box:"+typeKey(from), SRef, args...)
	fv.fact(st, Lt(IntC(0), t))
	for i, l := range leaves(from) {
		if i < len(args) {
			fv.fact(st, Eq(UF("unbox:"+typeKey(from)+l.Path, l.Sort, t), args[i]))
		}
	}
	fv.fact(st, UF("is:"+typeKey(from), SBool, t))
	return Val{Typ: to, T: t}
}

func (fv *FV) unop(st *State, fr *Frame, in *ssa.UnOp) Val {
	x := fv.val(st, fr, in.X)
	switch in.Op {
	case token.MUL:
		if x.Ptr != nil && x.Ptr.Kind == "global" {
			g := fv.t.pkg.Members[x.Ptr.FPath]
			if gl, ok := in.X.(*ssa.Global); ok {
				return fv.loadGlobal(st, gl)
			}
			return fv.loadGlobal(st, g.(*ssa.Global))
		}
		a := fv.ptrAddr(in, st, x)
		fv.nilCheck(st, in, a)
		fv.guardAddr(st, in, a, false)
		if a.Kind == "bytes" {
			g := tFalse
			if a.Lim != nil {
				g = Le(Add(a.Idx, IntC(fv.t.sizes.Sizeof(a.Typ))), a.Lim)
			}
			fv.safe(st, "byte view within its array", in, g)
		}
		v := fv.load(st, a)
		if v.Typ == nil {
			v.Typ = in.Type()
		}
		return v
	case token.NOT:
		return boolV(Not(x.T))
	case token.SUB:
		if x.T.sort.isBV() {
			return Val{Typ: in.Type(), T: BVOp("bvsub", BVC(0, x.T.sort.bits()), x.T)}
		}
		return Val{Typ: in.Type(), T: Sub(IntC(0), x.T)}
	case token.XOR:
		if x.T.sort.isBV() {
			return Val{Typ: in.Type(), T: BVNot(x.T)}
		}
		return Val{Typ: in.Type(), T: Sub(IntC(-1), x.T)}
	case token.ARROW:
		fv.blocking(st, in, "receive")
		ty := under(in.X.Type()).(*types.Chan).Elem()
		v := freshVal("recv", ty)
		fv.wf(st, v)
		if in.CommaOk {
			ok := Fresh("open", SBool)
			st.recv = &v
			return Val{Typ: in.Type(), E: []Val{v, boolV(ok)}}
		}
		st.recv = &v
		return v
	}
	fv.unsupported(in, "unary %v", in.Op)
	return Val{}
}

func (fv *FV) binop(st *State, fr *Frame, in *ssa.BinOp) Val {
	x, y := fv.val(st, fr, in.X), fv.val(st, fr, in.Y)
	switch in.Op {
	case token.EQL, token.NEQ:
		var r *Term
		switch {
		case len(x.E) == 4 && isSlice(x.Typ):
			r = Eq(x.E[0].T, RefC(0))
		case x.Fn != nil && y.Fn == nil, y.Fn != nil && x.Fn == nil:
			r = tFalse
		case x.Ptr != nil && y.T != nil, y.Ptr != nil && x.T != nil:
			r = tFalse
		default:
			r = eqVal(x, y)
		}
		if in.Op == token.NEQ {
			r = Not(r)
		}
		return boolV(r)
	}
	a, b := x.T, y.T
	if a == nil || b == nil {
		fv.unsupported(in, "operator on compound")
	}
	ty := in.Type()
	if a.sort == SStr {
		if in.Op == token.ADD {
			return strV(StrCat(a, b))
		}
		switch in.Op {
		case token.LSS:
			return boolV(App("str.<", SBool, a, b))
		case token.LEQ:
			return boolV(App("str.<=", SBool, a, b))
		case token.GTR:
			return boolV(App("str.<", SBool, b, a))
		case token.GEQ:
			return boolV(App("str.<=", SBool, b, a))
		}
		fv.unsupported(in, "string %v", in.Op)
	}
	if a.sort.isBV() {
		n := a.sort.bits()
		switch in.Op {
		case token.AND:
			return Val{Typ: ty, T: BVOp("bvand", a, b)}
		case token.OR:
			return Val{Typ: ty, T: BVOp("bvor", a, b)}
		case token.XOR:
			return Val{Typ: ty, T: BVOp("bvxor", a, b)}
		case token.AND_NOT:
			return Val{Typ: ty, T: BVOp("bvand", a, BVNot(b))}
		case token.ADD:
			return Val{Typ: ty, T: BVOp("bvadd", a, b)}
		case token.SUB:
			return Val{Typ: ty, T: BVOp("bvsub", a, b)}
		case token.MUL:
			return Val{Typ: ty, T: BVOp("bvmul", a, b)}
		case token.SHL, token.SHR:
			op := "bvshl"
			if in.Op == token.SHR {
				op = "bvlshr"
			}
			if !b.sort.isBV() {
				if b.op != "int" {
					fv.unsupported(in, "shift by symbolic int")
				}
				b = BVBig(b.num, n)
			} else if b.sort.bits() != n {
				if b.op == "bv" {
					b = BVBig(b.num, n)
				} else if b.sort.bits() < n {
					b = mk("zext", fmt.Sprint(n-b.sort.bits()), BV(n), nil, b)
				} else {
					fv.unsupported(in, "shift width")
				}
			}
			return Val{Typ: ty, T: BVOp(op, a, b)}
		case token.LSS:
			return boolV(BVCmp("bvult", a, b))
		case token.LEQ:
			return boolV(BVCmp("bvule", a, b))
		case token.GTR:
			return boolV(BVCmp("bvugt", a, b))
		case token.GEQ:
			return boolV(BVCmp("bvuge", a, b))
		}
		fv.unsupported(in, "bit vector %v", in.Op)
	}
	if a.sort == SBool {
		switch in.Op {
		case token.AND:
			return boolV(And(a, b))
		case token.OR:
			return boolV(Or(a, b))
		}
	}
	switch in.Op {
	case token.ADD:
		return Val{Typ: ty, T: Add(a, b)}
	case token.SUB:
		return Val{Typ: ty, T: Sub(a, b)}
	case token.MUL:
		return Val{Typ: ty, T: Mul(a, b)}
	case token.LSS:
		return boolV(Lt(a, b))
	case token.LEQ:
		return boolV(Le(a, b))
	case token.GTR:
		return boolV(Lt(b, a))
	case token.GEQ:
		return boolV(Le(b, a))
	}
	// bit operations on mathematical integers: opaque
	switch in.Op {
	case token.AND, token.OR, token.XOR, token.AND_NOT, token.SHL, token.SHR, token.QUO, token.REM:
		if in.Op == token.QUO && b.op == "int" && b.num.Sign() > 0 && false {
			return Val{Typ: ty, T: App("div", SInt, a, b)}
		}
		return Val{Typ: ty, T: UF("int"+in.Op.String(), SInt, a, b)}
	}
	fv.unsupported(in, "int %v", in.Op)
	return Val{}
}

func isSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := under(t).(*types.Slice)
	return ok
}

func (fv *FV) convert(st *State, in ssa.Instruction, v Val, from, to types.Type) Val {
	fu, tu := under(from), under(to)
	fb, ok1 := fu.(*types.Basic)
	tb, ok2 := tu.(*types.Basic)
	if ok2 && tb.Kind() == types.UnsafePointer {
		v.Typ = to
		return v
	}
	if ok1 && fb.Kind() == types.UnsafePointer {
		if v.Ptr != nil && v.Ptr.Kind == "slice" && leaves(v.Ptr.Elem)[0].Sort == BV(8) {
			el := tu.(*types.Pointer).Elem()
			n := *v.Ptr
			n.Kind = "bytes"
			n.Typ = el
			return Val{Typ: to, Ptr: &n}
		}
		fv.unsupported(in, "unsafe conversion")
	}
	if ok1 && ok2 {
		fs, ts := sortOfBasic(fb), sortOfBasic(tb)
		switch {
		case fs.isBV() && ts.isBV():
			n, m := fs.bits(), ts.bits()
			switch {
			case n == m:
				return Val{Typ: to, T: v.T}
			case n < m:
				if v.T.op == "bv" {
					return Val{Typ: to, T: BVBig(v.T.num, m)}
				}
				return Val{Typ: to, T: mk("zext", fmt.Sprint(m-n), BV(m), nil, v.T)}
			default:
				if v.T.op == "bv" {
					return Val{Typ: to, T: BVBig(v.T.num, m)}
				}
				return Val{Typ: to, T: mk("extract", fmt.Sprintf("%d 0", m-1), BV(m), nil, v.T)}
			}
		case fs.isBV() && ts == SInt:
			if fs.bits() == intBits(tb) {
				return Val{Typ: to, T: signed(v.T)}
			}
			if fs.bits() > intBits(tb) {
				return Val{Typ: to, T: wrapInt(bv2int(v.T), intBits(tb))}
			}
			return Val{Typ: to, T: bv2int(v.T)}
		case fs == SInt && ts.isBV():
			return Val{Typ: to, T: int2bv(v.T, ts.bits())}
		case fs == SInt && ts == SInt:
			if intBits(tb) < intBits(fb) {
				return Val{Typ: to, T: wrapInt(v.T, intBits(tb))}
			}
			return Val{Typ: to, T: v.T}
		case fs == ts:
			return Val{Typ: to, T: v.T}
		case ts == SStr:
			return Val{Typ: to, T: UF("runestr", SStr, fv.intOf(v))}
		}
	}
	if ok2 && sortOfBasic(tb) == SStr && isSlice(from) {
		el := fu.(*types.Slice).Elem()
		if ls := leaves(el); len(ls) == 1 && ls[0].Sort == BV(8) {
			A := Select(fv.get(st, sliceComp(el, ls[0]), Arr(SRef, Arr(SInt, BV(8)))), v.E[0].T)
			r := UF("bytes2str", SStr, A, v.E[1].T, v.E[2].T)
			st.assume(Eq(StrLen(r), v.E[2].T))
			st.assume(Implies(Eq(v.E[2].T, IntC(0)), Eq(r, StrC(""))))
			return Val{Typ: to, T: r}
		}
	}
	if ok1 && sortOfBasic(fb) == SStr && isSlice(to) {
		r := fv.alloc(st)
		l := StrLen(v.T)
		return Val{Typ: to, E: []Val{{T: r, Typ: to}, intV(IntC(0)), intV(l), intV(l)}}
	}
	fv.unsupported(in, "conversion %v to %v", from, to)
	return Val{}
}

func intBits(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8:
		return 8
	case types.Int16:
		return 16
	case types.Int32:
		return 32
	}
	return 64
}

func (fv *FV) slice(st *State, fr *Frame, in *ssa.Slice) Val {
	x := fv.val(st, fr, in.X)
	lo := IntC(0)
	if in.Low != nil {
		lo = fv.intOf(fv.val(st, fr, in.Low))
	}
	var hi *Term
	if in.High != nil {
		hi = fv.intOf(fv.val(st, fr, in.High))
	}
	if x.T != nil && x.T.sort == SStr {
		n := StrLen(x.T)
		if hi == nil {
			hi = n
		}
		fv.safe(st, "slice bounds", in, And(Le(IntC(0), lo), Le(lo, hi), Le(hi, n)))
		return Val{Typ: in.Type(), T: GoSub(x.T, lo, hi)}
	}
	if isSlice(in.X.Type()) {
		if hi == nil {
			hi = x.E[2].T
		}
		mx := x.E[3].T
		if in.Max != nil {
			mx = fv.intOf(fv.val(st, fr, in.Max))
		}
		fv.safe(st, "slice bounds", in, And(Le(IntC(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, x.E[3].T)))
		return Val{Typ: in.Type(), E: []Val{x.E[0], intV(Add(x.E[1].T, lo)), intV(Sub(hi, lo)), intV(Sub(mx, lo))}}
	}
	// pointer to array
	p := under(in.X.Type()).(*types.Pointer)
	ar := under(p.Elem()).(*types.Array)
	n := IntC(ar.Len())
	if hi == nil {
		hi = n
	}
	fv.safe(st, "slice bounds", in, And(Le(IntC(0), lo), Le(lo, hi), Le(hi, n)))
	a := fv.ptrAddrAny(in, st, x)
	if a.Kind == "heap" && !isSmallArray(ar) {
		b := fv.bigArrBase(a.Styp, a.FPath, a.Ref)
		fv.fact(st, And(Lt(IntC(0), b), Lt(b, fv.get(st, "alloc", SInt))))
		return Val{Typ: in.Type(), E: []Val{{T: b, Typ: in.Type()}, intV(lo), intV(Sub(hi, lo)), intV(Sub(n, lo))}}
	}
	if a.Kind == "cell" && isSmallArray(ar) {
		v := fv.load(st, a)
		r := fv.alloc(st)
		for i, e := range v.E {
			fv.sliceStore(st, ar.Elem(), r, IntC(int64(i)), e)
		}
		return Val{Typ: in.Type(), E: []Val{{T: r, Typ: in.Type()}, intV(lo), intV(Sub(hi, lo)), intV(Sub(n, lo))}}
	}
	fv.unsupported(in, "slice of %v", in.X.Type())
	return Val{}
}

var _ = constant.MakeBool

// isRangeLoop: a loop over the elements of a slice, string or map.
func isRangeLoop(h *ssa.BasicBlock) bool {
	if strings.HasPrefix(h.Comment, "rangeindex") {
		return true
	}
	for _, in := range h.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return true
		}
	}
	return false
}
