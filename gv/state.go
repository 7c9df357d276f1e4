package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Obl struct {
	Name  string
	Kind  string // ensures, requires, safety, inv-entry, inv-keep, frame, lock, step, cover, lemma
	Func  string
	Label string
	Pos   string
	Path  string
	Hyps  []*Term
	Goal  *Term
	cand  *Cand
	unf   []*LemAx
	Cover bool // must be satisfiable

	Status string // proved, failed, unknown
	Solver string
	Time   float64
	Detail string
	Model  string
}

type Tool struct {
	prog       *ssa.Program
	pkg        *ssa.Package
	tpkg       *types.Package
	sf         *SpecFile
	prop       string
	sizes      types.Sizes
	funcs      map[string]*ssa.Function
	ghostT     map[string]types.Type // ghost name -> declared type
	trusted    map[string]bool
	unknown    map[string]bool
	inlined    map[string]bool
	constG     map[string]bool // globals never reassigned
	addrTaken  map[string]bool // globals whose address is used other than to load or store them
	initStored map[string]bool
	axs        []*Term
	axnames    []string
	solver     *SolverPool
	verbose    bool
	tyCache    map[string]types.Type
	compCache  map[string][]compDecl
	deps       []string // contracts used, in order of discovery
	depSet     map[string]bool
	hints      map[string]bool
	initSet    map[*Term]bool
	lemAx      []*LemAx
	deadline   time.Time
}

// dep records that a verification relied on the contract of a function.
func (t *Tool) dep(fv *FV, c *Contract) {
	k := c.kind + ":" + c.name
	if !t.depSet[k] {
		t.depSet[k] = true
		t.deps = append(t.deps, k)
	}
}

func loadTool(repo, goos string) (*Tool, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "CGO_ENABLED=0")
	if goos != "" {
		env = append(env, "GOOS="+goos)
	}
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps | packages.NeedTypesSizes | packages.NeedModule,
		Dir: repo, Env: env}
	ps, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(ps) != 1 {
		return nil, fmt.Errorf("expected one package, got %d", len(ps))
	}
	if len(ps[0].Errors) > 0 {
		return nil, fmt.Errorf("package errors: %v", ps[0].Errors)
	}
	prog, sp := ssautil.Packages(ps, ssa.InstantiateGenerics)
	sp[0].Build()
	t := &Tool{prog: prog, pkg: sp[0], tpkg: ps[0].Types, sizes: ps[0].TypesSizes, funcs: map[string]*ssa.Function{}, ghostT: map[string]types.Type{},
		trusted: map[string]bool{}, unknown: map[string]bool{}, inlined: map[string]bool{}, constG: map[string]bool{}, addrTaken: map[string]bool{}, initStored: map[string]bool{}, tyCache: map[string]types.Type{}, compCache: map[string][]compDecl{}, depSet: map[string]bool{}, hints: map[string]bool{}}
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg == sp[0] || f.Parent() != nil && f.Parent().Pkg == sp[0] {
			t.funcs[fnKey(f, t.tpkg)] = f
		}
	}
	for _, m := range sp[0].Members {
		switch m := m.(type) {
		case *ssa.Function:
			t.funcs[fnKey(m, t.tpkg)] = m
		case *ssa.Type:
			for _, ty := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := prog.MethodSets.MethodSet(ty)
				for i := 0; i < ms.Len(); i++ {
					if f := prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" {
						t.funcs[fnKey(f, t.tpkg)] = f
					}
				}
			}
		}
	}
	// globals assigned only in init
	for _, m := range sp[0].Members {
		if g, ok := m.(*ssa.Global); ok {
			t.constG[g.Name()] = true
		}
	}
	for _, f := range t.funcs {
		t.scanGlobals(f)
	}
	return t, nil
}

// scanGlobals finds the package variables that only the initializer assigns.
func (t *Tool) scanGlobals(f *ssa.Function) {
	ini := f.Synthetic == "package initializer"
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if g, ok := s.Addr.(*ssa.Global); ok {
					if ini {
						t.initStored[g.Name()] = true
					} else {
						t.constG[g.Name()] = false
					}
				}
			}
			for _, op := range in.Operands(nil) {
				g, ok := (*op).(*ssa.Global)
				if !ok {
					continue
				}
				switch in := in.(type) {
				case *ssa.UnOp:
					continue
				case *ssa.Store:
					if in.Addr == g && in.Val != g {
						continue
					}
				}
				t.addrTaken[g.Name()] = true
				if !ini {
					t.constG[g.Name()] = false
				}
			}
		}
	}
	for _, a := range f.AnonFuncs {
		t.scanGlobals(a)
	}
}

func fnKey(f *ssa.Function, p *types.Package) string {
	return f.RelString(p)
}

// parse a type written in a spec
func (t *Tool) typ(s string) types.Type {
	if r, ok := t.tyCache[s]; ok {
		return r
	}
	var r types.Type
	switch s {
	case "bool":
		r = types.Typ[types.Bool]
	case "int":
		r = types.Typ[types.Int]
	case "string":
		r = types.Typ[types.String]
	case "ref":
		r = types.Typ[types.UnsafePointer]
	default:
		if strings.HasPrefix(s, "bv") {
			switch s {
			case "bv8":
				r = types.Typ[types.Uint8]
			case "bv32":
				r = types.Typ[types.Uint32]
			}
		}
	}
	if strings.HasPrefix(s, "gset ") { // a set of values, as a value
		r = types.NewNamed(types.NewTypeName(token.NoPos, t.tpkg, "gset", nil), types.NewMap(t.typ(s[5:]), types.Typ[types.Bool]), nil)
	} else if strings.HasPrefix(s, "map[ref]") {
		r = types.NewMap(types.Typ[types.UnsafePointer], t.typ(s[8:]))
	} else if strings.HasPrefix(s, "map[") && strings.HasSuffix(s, "]ref") {
		r = types.NewMap(t.typ(s[4:len(s)-4]), types.Typ[types.UnsafePointer])
	}
	if r == nil {
		tv, err := types.Eval(t.prog.Fset, t.tpkg, 0, s)
		if err != nil { // a name of an imported package: look from inside the files
			for i := 0; i < t.tpkg.Scope().NumChildren() && err != nil; i++ {
				tv, err = types.Eval(t.prog.Fset, t.tpkg, t.tpkg.Scope().Child(i).End()-1, s)
			}
		}
		if err != nil || !tv.IsType() {
			// map[..].. inside a ghost type
			panic(fmt.Sprintf("spec type %q: %v", s, err))
		}
		r = tv.Type
	}
	t.tyCache[s] = r
	return r
}

// ghost maps may be nested: map[K]map[K2]V is encoded as nested SMT arrays
func ghostSort(ty types.Type) Sort {
	if m, ok := under(ty).(*types.Map); ok {
		return Arr(keySort(m.Key()), ghostSort(m.Elem()))
	}
	ls := leaves(ty)
	if len(ls) != 1 {
		panic("ghost of compound type " + ty.String())
	}
	return ls[0].Sort
}

type State struct {
	pc    []*Term
	heap  map[string]*Term
	cells map[string]Val
	recv  *Val
	acq   map[string]int
	acqSt *State
	trace []string
	dead  bool
}

func (s *State) clone() *State {
	n := &State{pc: s.pc[:len(s.pc):len(s.pc)], heap: make(map[string]*Term, len(s.heap)), cells: make(map[string]Val, len(s.cells)), recv: s.recv, acq: map[string]int{}, acqSt: s.acqSt, trace: s.trace[:len(s.trace):len(s.trace)], dead: s.dead}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.acq {
		n.acq[k] = v
	}
	return n
}

func (s *State) assume(ts ...*Term) {
	for _, t := range ts {
		if t.op == "true" {
			continue
		}
		if t.op == "and" {
			s.assume(t.args...)
			continue
		}
		if t.op == "false" {
			s.dead = true
		}
		s.pc = append(s.pc, t)
	}
}

// nonNil: the path condition says so syntactically.
func (s *State) nonNil(ref *Term) bool { return s.has(Not(Eq(ref, RefC(0)))) }

func (s *State) has(t *Term) bool {
	for _, p := range s.pc {
		if p == t {
			return true
		}
	}
	return false
}

// component sorts
var compSort = map[string]Sort{}

func (fv *FV) get(s *State, comp string, so Sort) *Term {
	if t, ok := s.heap[comp]; ok {
		return t
	}
	compSort[comp] = so
	t := Const("H0:"+comp, so)
	// lazily created components have the same initial value in every state
	s.heap[comp] = t
	return t
}

func sortedKeys(m map[string]*Term) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// ---- map heap

func mapLeafComps(mt types.Type) (dom string, vals []Leaf, prefix string) {
	m := under(mt).(*types.Map)
	p := mapKey(mt)
	return p + ".dom", leaves(m.Elem()), p + ".v"
}

func (fv *FV) mapDom(s *State, mt types.Type, ref *Term) *Term {
	m := under(mt).(*types.Map)
	d, _, _ := mapLeafComps(mt)
	return Select(fv.get(s, d, Arr(SRef, Arr(keySort(m.Key()), SBool))), ref)
}

func (fv *FV) mapVal(s *State, mt types.Type, ref, key *Term) Val {
	m := under(mt).(*types.Map)
	_, ls, p := mapLeafComps(mt)
	i := 0
	_ = ls
	return build(m.Elem(), func(l Leaf) *Term {
		a := fv.get(s, p+ls[i].Path, Arr(SRef, Arr(keySort(m.Key()), ls[i].Sort)))
		i++
		return Select(Select(a, ref), key)
	})
}

func (fv *FV) mapLookup(s *State, mt types.Type, ref, key *Term) (Val, *Term) {
	ok := Select(fv.mapDom(s, mt, ref), key)
	if !s.nonNil(ref) {
		ok = And(Not(Eq(ref, RefC(0))), ok)
	}
	v := fv.mapVal(s, mt, ref, key)
	z := zeroVal(v.Typ)
	r, _ := iteVal(ok, v, z)
	return r, ok
}

func (fv *FV) mapUpdate(s *State, mt types.Type, ref, key *Term, v Val) {
	m := under(mt).(*types.Map)
	d, ls, p := mapLeafComps(mt)
	H := fv.get(s, d, Arr(SRef, Arr(keySort(m.Key()), SBool)))
	s.heap[d] = Store(H, ref, Store(Select(H, ref), key, tTrue))
	fl := v.flat()
	for i, l := range ls {
		c := p + l.Path
		A := fv.get(s, c, Arr(SRef, Arr(keySort(m.Key()), l.Sort)))
		s.heap[c] = Store(A, ref, Store(Select(A, ref), key, fl[i]))
	}
	fv.runHooks(s, mt, false, ref, key, v)
}

// runHooks runs the ghost code attached to a map type; it sees the state after
// the update, old() the state before.
func (fv *FV) runHooks(s *State, mt types.Type, del bool, ref, key *Term, v Val) {
	for _, h := range fv.t.sf.hooks {
		if h.del != del || mapKey(fv.t.typ(h.typ)) != mapKey(mt) {
			continue
		}
		old := s.clone()
		names := map[string]Val{h.params[0]: {Typ: mt, T: ref}, h.params[1]: {Typ: under(mt).(*types.Map).Key(), T: key}}
		if len(h.params) > 2 {
			names[h.params[2]] = v
		}
		env := &Env{fv: fv, names: names, st: old, old: old}
		// all right-hand sides are evaluated before any is assigned
		n := s.clone()
		for _, c := range h.sets {
			if !inProps(c.props, fv.t.prop) {
				continue
			}
			gt, ok := fv.t.ghostT[c.label]
			if !ok {
				panic(specErr{c.pos + ": hook sets unknown ghost " + c.label})
			}
			fv.get(n, "G:"+c.label, ghostSort(gt))
			n.heap["G:"+c.label] = litTo(env.ev(c.e), ghostSort(gt))
		}
		for k, t := range old.heap {
			if _, ok := s.heap[k]; !ok {
				s.heap[k] = t
			}
		}
		for _, c := range h.sets {
			if t, ok := n.heap["G:"+c.label]; ok {
				s.heap["G:"+c.label] = t
			}
		}
	}
}

func (fv *FV) mapDelete(s *State, mt types.Type, ref, key *Term) {
	m := under(mt).(*types.Map)
	d, _, _ := mapLeafComps(mt)
	H := fv.get(s, d, Arr(SRef, Arr(keySort(m.Key()), SBool)))
	// delete on a nil map is a no-op; the nil map's domain is empty by convention
	s.heap[d] = Store(H, ref, Store(Select(H, ref), key, tFalse))
	fv.runHooks(s, mt, true, ref, key, Val{})
}

func Card(dom *Term) *Term { return UF("card:"+string(dom.sort), SInt, dom) }

// ---- slices

func sliceComp(el types.Type, l Leaf) string { return "S:" + typeKey(el) + l.Path }

func (fv *FV) sliceElem(s *State, el types.Type, base, idx *Term) Val {
	ls := leaves(el)
	i := 0
	return build(el, func(Leaf) *Term {
		l := ls[i]
		i++
		return Select(Select(fv.get(s, sliceComp(el, l), Arr(SRef, Arr(SInt, l.Sort))), base), idx)
	})
}
func (fv *FV) sliceStore(s *State, el types.Type, base, idx *Term, v Val) {
	fl := v.flat()
	for i, l := range leaves(el) {
		c := sliceComp(el, l)
		A := fv.get(s, c, Arr(SRef, Arr(SInt, l.Sort)))
		x := fl[i]
		if x == nil {
			x = Fresh("opaque", l.Sort)
		}
		s.heap[c] = Store(A, base, Store(Select(A, base), idx, x))
	}
}

// ---- heap structs

func fieldComp(named string, l Leaf) string { return "F:" + named + l.Path }

func (fv *FV) alloc(s *State) *Term {
	a := fv.get(s, "alloc", SInt)
	s.heap["alloc"] = Add(a, IntC(1))
	return mk2ref(a)
}
func mk2ref(a *Term) *Term { return a }
