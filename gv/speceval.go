package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Env struct {
	fv    *FV
	names map[string]Val
	st    *State
	old   *State
	pre   *State
	acq   *State
	inq   int
	open  bool // defined functions are replaced by their bodies
}

func (e *Env) with(n string, v Val) *Env {
	m := make(map[string]Val, len(e.names)+1)
	for k, x := range e.names {
		m[k] = x
	}
	m[n] = v
	r := *e
	r.names = m
	return &r
}

type specErr struct{ msg string }

func (e *Env) fail(se *SE, f string, a ...interface{}) {
	panic(specErr{fmt.Sprintf("%s: %s", se.pos, fmt.Sprintf(f, a...))})
}

func (e *Env) bool(se *SE) *Term {
	v := e.ev(se)
	if v.T == nil || v.T.sort != SBool {
		e.fail(se, "not a boolean: %s %v", se.op, se.name)
	}
	return v.T
}

func litTo(v Val, s Sort) *Term {
	t := v.T
	if t == nil {
		return nil
	}
	if t.op == "int" && !sameSort(t.sort, s) {
		if s.isBV() {
			return BVBig(t.num, s.bits())
		}
	}
	if t.op == "int" && s == SRef {
		return mk("int", "", SRef, t.num)
	}
	return t
}

func boolV(t *Term) Val { return Val{Typ: types.Typ[types.Bool], T: t} }
func intV(t *Term) Val  { return Val{Typ: types.Typ[types.Int], T: t} }
func strV(t *Term) Val  { return Val{Typ: types.Typ[types.String], T: t} }

func (e *Env) unify(a, b Val) (Val, Val) {
	if a.T != nil && b.T != nil {
		if a.T.op == "int" && b.T.sort.isBV() {
			a = Val{Typ: b.Typ, T: litTo(a, b.T.sort)}
		} else if b.T.op == "int" && a.T.sort.isBV() {
			b = Val{Typ: a.Typ, T: litTo(b, a.T.sort)}
		}
	}
	return a, b
}

func constVal(c constant.Value, ty types.Type) Val {
	switch u := under(ty).(type) {
	case *types.Basic:
		so := sortOfBasic(u)
		switch {
		case so == SBool:
			return Val{Typ: ty, T: Bool(constant.BoolVal(c))}
		case so == SStr:
			return Val{Typ: ty, T: StrC(constant.StringVal(c))}
		}
		i := constant.ToInt(c)
		n, ok := new(big.Int).SetString(i.ExactString(), 10)
		if !ok {
			panic("const " + c.String())
		}
		if so.isBV() {
			return Val{Typ: ty, T: BVBig(n, so.bits())}
		}
		return Val{Typ: ty, T: BigC(n)}
	}
	panic("const type " + ty.String())
}

func (e *Env) ident(se *SE) (Val, bool) {
	n := se.name
	if v, ok := e.names[n]; ok {
		return v, true
	}
	switch n {
	case "true":
		return boolV(tTrue), true
	case "false":
		return boolV(tFalse), true
	case "nil":
		return Val{Typ: types.Typ[types.UntypedNil], T: RefC(0)}, true
	case "alloc":
		return intV(e.fv.get(e.st, "alloc", SInt)), true
	}
	t := e.fv.t
	if gt, ok := t.ghostT[n]; ok {
		return Val{Typ: gt, T: e.fv.get(e.st, "G:"+n, ghostSort(gt)), Gh: true}, true
	}
	for _, c := range t.sf.consts {
		if c.name == n {
			return e.fv.constVal(c), true
		}
	}
	if o := t.tpkg.Scope().Lookup(n); o != nil {
		switch o := o.(type) {
		case *types.Const:
			return constVal(o.Val(), o.Type()), true
		case *types.Var:
			if g, ok := t.pkg.Members[n].(*ssa.Global); ok {
				return e.fv.loadGlobal(e.st, g), true
			}
		}
	}
	return Val{}, false
}

func (e *Env) ev(se *SE) Val {
	fv := e.fv
	switch se.op {
	case "ident":
		v, ok := e.ident(se)
		if !ok {
			e.fail(se, "unknown name %q", se.name)
		}
		return v
	case "int":
		n, ok := new(big.Int).SetString(se.name, 0)
		if !ok {
			e.fail(se, "bad int %s", se.name)
		}
		return Val{Typ: types.Typ[types.UntypedInt], T: BigC(n)}
	case "str":
		return strV(StrC(se.name))
	case "chr":
		s, err := strconv.Unquote("'" + se.name + "'")
		if err != nil {
			e.fail(se, "bad char")
		}
		return Val{Typ: types.Typ[types.Uint8], T: BVC(uint64(s[0]), 8)}
	case "ite":
		c := e.bool(se.args[0])
		a, b := e.unify(e.ev(se.args[1]), e.ev(se.args[2]))
		r, ok := iteVal(c, a, b)
		if !ok {
			e.fail(se, "cannot merge")
		}
		return r
	case "let":
		return e.with(se.name, e.ev(se.args[0])).ev(se.args[1])
	case "un":
		switch se.name {
		case "!":
			return boolV(Not(e.bool(se.args[0])))
		case "-":
			v := e.ev(se.args[0])
			return Val{Typ: v.Typ, T: Sub(IntC(0), v.T)}
		case "^":
			v := e.ev(se.args[0])
			return Val{Typ: v.Typ, T: BVNot(v.T)}
		}
	case "bin":
		return e.bin(se)
	case "quant":
		var vars []*Term
		var guards []*Term
		e2 := e
		for _, q := range se.vars {
			ty := fv.t.typ(q.typ)
			if strings.HasPrefix(q.typ, "gset ") {
				v := BVar(q.name, ghostSort(ty))
				vars = append(vars, v)
				e2 = e2.with(q.name, Val{Typ: ty, T: v, Gh: true})
				continue
			}
			ls := leaves(ty)
			if len(ls) != 1 {
				e.fail(se, "quantified compound type %s", q.typ)
			}
			v := BVar(q.name, ls[0].Sort)
			vars = append(vars, v)
			e2 = e2.with(q.name, Val{Typ: ty, T: v})
		}
		e3 := *e2
		e3.inq++
		body := e3.bool(se.args[0])
		_ = guards
		var pats [][]*Term
		for _, p := range se.pats {
			// a struct value stands for any of its parts
			var qs [][]*Term
			n := 1
			for _, x := range p {
				f := e3.ev(x).flat()
				if len(f) > n {
					n = len(f)
				}
				qs = append(qs, f)
			}
			for i := 0; i < n; i++ {
				var q []*Term
				for _, f := range qs {
					if len(f) > 0 {
						q = append(q, f[i%len(f)])
					}
				}
				pats = append(pats, q)
			}
		}
		body, pats = shiftIndexes(vars, body, pats)
		return boolV(Quant(se.name, vars, body, pats))
	case "sel":
		// package constant?
		if se.args[0].op == "ident" {
			if _, ok := e.ident(se.args[0]); !ok {
				for _, im := range fv.t.tpkg.Imports() {
					if im.Name() == se.args[0].name {
						if c, ok := im.Scope().Lookup(se.name).(*types.Const); ok {
							v := constVal(c.Val(), c.Type())
							return v
						}
						if g := im.Scope().Lookup(se.name); g != nil {
							return Val{Typ: g.Type(), T: Const("glob:"+im.Name()+"."+se.name, SRef)}
						}
					}
				}
			}
		}
		x := e.ev(se.args[0])
		return e.field(se, x, se.name)
	case "index":
		x := e.ev(se.args[0])
		i := e.ev(se.args[1])
		return e.index(se, x, i)
	case "slice":
		x := e.ev(se.args[0])
		lo := intV(IntC(0))
		if se.args[1] != nil {
			lo = e.ev(se.args[1])
		}
		if x.T != nil && x.T.sort == SStr {
			hi := intV(StrLen(x.T))
			if se.args[2] != nil {
				hi = e.ev(se.args[2])
			}
			return strV(GoSub(x.T, lo.T, hi.T))
		}
		if len(x.E) == 4 {
			hi := x.E[2]
			if se.args[2] != nil {
				hi = e.ev(se.args[2])
			}
			return Val{Typ: x.Typ, E: []Val{x.E[0], intV(Add(x.E[1].T, lo.T)), intV(Sub(hi.T, lo.T)), intV(Sub(x.E[3].T, lo.T))}}
		}
	case "call":
		return e.call(se)
	}
	e.fail(se, "cannot evaluate %s %s", se.op, se.name)
	return Val{}
}

func (e *Env) field(se *SE, x Val, name string) Val {
	t := x.Typ
	if t == nil {
		e.fail(se, "field %s of untyped", name)
	}
	if p, ok := under(t).(*types.Pointer); ok {
		n, ok2 := types.Unalias(p.Elem()).(*types.Named)
		if x.Ptr != nil {
			v := e.fv.load(e.st, x.Ptr)
			return e.field(se, v, name)
		}
		if ok2 && x.T != nil {
			st := under(n).(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					a := &Addr{Kind: "heap", Ref: x.T, Styp: n, FPath: "." + name, Typ: st.Field(i).Type()}
					return e.fv.load(e.st, a)
				}
			}
		}
		e.fail(se, "no field %s", name)
	}
	if st, ok := under(t).(*types.Struct); ok && x.E != nil {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return x.E[i]
			}
		}
	}
	e.fail(se, "no field %s in %v", name, t)
	return Val{}
}

func (e *Env) index(se *SE, x, i Val) Val {
	if x.Gh {
		ks, vs := x.T.sort.split()
		r := Select(x.T, litTo(i, ks))
		m, ok := under(x.Typ).(*types.Map)
		if !ok { // a raw row
			var ty types.Type = types.Typ[types.UnsafePointer]
			switch {
			case vs == SInt:
				ty = types.Typ[types.Int]
			case vs == SStr:
				ty = types.Typ[types.String]
			case vs == SBool:
				ty = types.Typ[types.Bool]
			case vs == BV(8):
				ty = types.Typ[types.Uint8]
			case vs == BV(32):
				ty = types.Typ[types.Uint32]
			}
			return Val{Typ: ty, T: r}
		}
		_, isM := under(m.Elem()).(*types.Map)
		return Val{Typ: m.Elem(), T: r, Gh: isM}
	}
	if x.T != nil && x.T.sort == SStr {
		return Val{Typ: types.Typ[types.Uint8], T: ByteAt(x.T, i.T)}
	}
	if len(x.E) == 4 {
		if sl, ok := under(x.Typ).(*types.Slice); ok {
			return e.fv.sliceElem(e.st, sl.Elem(), x.E[0].T, Add(x.E[1].T, i.T))
		}
	}
	if _, ok := under(x.Typ).(*types.Map); ok {
		v, _ := e.fv.mapLookup(e.st, x.Typ, x.T, litTo(i, keySort(under(x.Typ).(*types.Map).Key())))
		return v
	}
	if x.E != nil && i.T.op == "int" {
		return x.E[int(i.T.num.Int64())]
	}
	e.fail(se, "cannot index %v", x.Typ)
	return Val{}
}

func (e *Env) bin(se *SE) Val {
	switch se.name {
	case "==>":
		return boolV(Implies(e.bool(se.args[0]), e.bool(se.args[1])))
	case "&&":
		return boolV(And(e.bool(se.args[0]), e.bool(se.args[1])))
	case "||":
		return boolV(Or(e.bool(se.args[0]), e.bool(se.args[1])))
	case "<==>":
		return boolV(Eq(e.bool(se.args[0]), e.bool(se.args[1])))
	case "in":
		k, m := e.ev(se.args[0]), e.ev(se.args[1])
		if m.Gh {
			ks, _ := m.T.sort.split()
			return boolV(Select(m.T, litTo(k, ks)))
		}
		mt := under(m.Typ).(*types.Map)
		_, ok := e.fv.mapLookup(e.st, m.Typ, m.T, litTo(k, keySort(mt.Key())))
		return boolV(ok)
	}
	a, b := e.unify(e.ev(se.args[0]), e.ev(se.args[1]))
	switch se.name {
	case "==", "!=":
		a, b = boxed(a, b), boxed(b, a)
		var r *Term
		switch {
		case len(a.E) == 4 && b.T != nil: // slice == nil
			r = Eq(a.E[0].T, RefC(0))
		case a.T != nil && b.T != nil:
			r = Eq(a.T, b.T)
		case a.Fn != nil || b.Fn != nil:
			r = tFalse
		default:
			r = eqVal(a, b)
		}
		if se.name == "!=" {
			r = Not(r)
		}
		return boolV(r)
	}
	if a.T == nil || b.T == nil {
		e.fail(se, "operator %s on compound values", se.name)
	}
	bv := a.T.sort.isBV()
	switch se.name {
	case "<", "<=", ">", ">=":
		if bv {
			op := map[string]string{"<": "bvult", "<=": "bvule", ">": "bvugt", ">=": "bvuge"}[se.name]
			return boolV(BVCmp(op, a.T, b.T))
		}
		switch se.name {
		case "<":
			return boolV(Lt(a.T, b.T))
		case "<=":
			return boolV(Le(a.T, b.T))
		case ">":
			return boolV(Lt(b.T, a.T))
		default:
			return boolV(Le(b.T, a.T))
		}
	case "+":
		if a.T.sort == SStr {
			return strV(StrCat(a.T, b.T))
		}
		if bv {
			return Val{Typ: a.Typ, T: BVOp("bvadd", a.T, b.T)}
		}
		return intV(Add(a.T, b.T))
	case "-":
		if bv {
			return Val{Typ: a.Typ, T: BVOp("bvsub", a.T, b.T)}
		}
		return intV(Sub(a.T, b.T))
	case "*":
		if bv {
			return Val{Typ: a.Typ, T: BVOp("bvmul", a.T, b.T)}
		}
		return intV(Mul(a.T, b.T))
	case "|", "&", "^", "&^":
		if !bv {
			e.fail(se, "bit operator on %s", a.T.sort)
		}
		ty := a.Typ
		switch se.name {
		case "|":
			return Val{Typ: ty, T: BVOp("bvor", a.T, b.T)}
		case "&":
			return Val{Typ: ty, T: BVOp("bvand", a.T, b.T)}
		case "^":
			return Val{Typ: ty, T: BVOp("bvxor", a.T, b.T)}
		default:
			return Val{Typ: ty, T: BVOp("bvand", a.T, BVNot(b.T))}
		}
	}
	e.fail(se, "operator %s", se.name)
	return Val{}
}

// boxed is v as an interface value when it is compared with one.
func boxed(v, w Val) Val {
	isIf := func(x Val) bool {
		if x.Typ == nil {
			return false
		}
		_, ok := under(x.Typ).(*types.Interface)
		return ok
	}
	if n, ok := types.Unalias(v.Typ).(*types.Named); ok && isIf(w) && !isIf(v) {
		return Val{Typ: w.Typ, T: UF("box:"+typeKey(n), SRef, v.flat()...)}
	}
	return v
}

// nodeOf finds the unique component of type node.
func nodeOf(v Val) (Val, bool) {
	if n, ok := types.Unalias(v.Typ).(*types.Named); ok && n.Obj().Name() == "node" {
		return v, true
	}
	if _, ok := under(v.Typ).(*types.Struct); ok && v.E != nil {
		for _, x := range v.E {
			if r, ok := nodeOf(x); ok {
				return r, true
			}
		}
	}
	return Val{}, false
}

func typeHasNode(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Name() == "node" {
		return true
	}
	if s, ok := under(t).(*types.Struct); ok {
		c := 0
		for i := 0; i < s.NumFields(); i++ {
			if typeHasNode(s.Field(i).Type()) {
				c++
			}
		}
		return c == 1
	}
	return false
}

func eventOf(v Val) (Val, bool) {
	if n, ok := types.Unalias(v.Typ).(*types.Named); ok && n.Obj().Name() == "Event" {
		return v, true
	}
	if _, ok := under(v.Typ).(*types.Struct); ok {
		for _, x := range v.E {
			if r, ok := eventOf(x); ok && r.T != nil {
				return r, true
			}
		}
	}
	return Val{}, false
}

func (e *Env) call(se *SE) Val {
	fv := e.fv
	f := se.args[0]
	args := se.args[1:]
	if f.op == "sel" {
		// a pure interface method
		rv := e.ev(f.args[0])
		c := fv.t.contract("iface", typeKey(rv.Typ)+"."+f.name)
		it, ok := under(rv.Typ).(*types.Interface)
		if c == nil || !c.pure || !ok {
			e.fail(se, "%s is not a pure interface method of %v", f.name, rv.Typ)
		}
		fv.t.trusted["iface "+c.name] = true
		fl := rv.flat()
		for _, a := range args {
			fl = append(fl, e.ev(a).flat()...)
		}
		for i := 0; i < it.NumMethods(); i++ {
			if m := it.Method(i); m.Name() == f.name {
				ty := m.Type().(*types.Signature).Results().At(0).Type()
				return build(ty, func(l Leaf) *Term { return UF(fmt.Sprintf("pure:%s.%d%s", c.name, 0, l.Path), l.Sort, fl...) })
			}
		}
	}
	if f.op != "ident" {
		e.fail(se, "call of non-name")
	}
	switch f.name {
	case "old":
		if e.old == nil {
			e.fail(se, "old() not available here")
		}
		e2 := *e
		e2.st = e.old
		return e2.ev(args[0])
	case "pre":
		if e.pre == nil {
			e.fail(se, "pre() not available here")
		}
		e2 := *e
		e2.st = e.pre
		return e2.ev(args[0])
	case "acq": // state right after the last lock acquisition
		e2 := *e
		if e.acq != nil {
			e2.st = e.acq
		} else {
			e2.st = e.old
		}
		return e2.ev(args[0])
	case "len":
		v := e.ev(args[0])
		if v.T != nil && v.T.sort == SStr {
			return intV(StrLen(v.T))
		}
		if len(v.E) == 4 {
			return v.E[2]
		}
		if _, ok := under(v.Typ).(*types.Map); ok {
			n := Card(fv.mapDom(e.st, v.Typ, v.T))
			if e.st.nonNil(v.T) {
				return intV(n)
			}
			return intV(Ite(Eq(v.T, RefC(0)), IntC(0), n))
		}
		e.fail(se, "len")
	case "le32": // le32(row, i): four bytes as a number
		return Val{Typ: types.Typ[types.Uint32], T: leBytes(e.ev(args[0]).T, fv.intOf(e.ev(args[1])), 4, true)}
	case "les32":
		return Val{Typ: types.Typ[types.Int32], T: leBytes(e.ev(args[0]).T, fv.intOf(e.ev(args[1])), 4, false)}
	case "bstr": // bstr(row, off, n): string made of n bytes
		return strV(UF("bytes2str", SStr, e.ev(args[0]).T, fv.intOf(e.ev(args[1])), fv.intOf(e.ev(args[2]))))
	case "cap":
		return e.ev(args[0]).E[3]
	case "base":
		return Val{Typ: types.Typ[types.UnsafePointer], T: e.ev(args[0]).E[0].T}
	case "off":
		return e.ev(args[0]).E[1]
	case "bytearr":
		v := e.ev(args[0])
		el := under(v.Typ).(*types.Slice).Elem()
		l := leaves(el)[0]
		return Val{Typ: types.Typ[types.UnsafePointer], T: Select(fv.get(e.st, sliceComp(el, l), Arr(SRef, Arr(SInt, l.Sort))), v.E[0].T), Gh: true}
	case "nodeOf":
		v := e.ev(args[0])
		r, ok := nodeOf(v)
		if !ok {
			e.fail(se, "nodeOf %v", v.Typ)
		}
		return r
	case "eventOf":
		v := e.ev(args[0])
		r, ok := eventOf(v)
		if !ok {
			e.fail(se, "eventOf %v", v.Typ)
		}
		return r
	case "prefix":
		return boolV(App("str.prefixof", SBool, e.ev(args[0]).T, e.ev(args[1]).T))
	case "suffix":
		return boolV(App("str.suffixof", SBool, e.ev(args[0]).T, e.ev(args[1]).T))
	case "contains":
		return boolV(App("str.contains", SBool, e.ev(args[0]).T, e.ev(args[1]).T))
	case "indexof":
		return intV(App("str.indexof", SInt, e.ev(args[0]).T, e.ev(args[1]).T, e.ev(args[2]).T))
	case "at":
		return strV(App("str.at", SStr, e.ev(args[0]).T, e.ev(args[1]).T))
	case "visited":
		v := e.ev(args[0])
		if v.It == nil {
			e.fail(se, "visited of non-iterator")
		}
		k := e.ev(args[1])
		ks, _ := v.It.Dom0.sort.split()
		return boolV(Select(e.st.cells[v.It.Cell.key].T, litTo(k, ks)))
	case "itermap":
		v := e.ev(args[0])
		return v.It.Map
	case "iterdom":
		v := e.ev(args[0])
		ks, _ := v.It.Dom0.sort.split()
		return boolV(Select(v.It.Dom0, litTo(e.ev(args[1]), ks)))
	case "store":
		m, k, v := e.ev(args[0]), e.ev(args[1]), e.ev(args[2])
		ks, vs := m.T.sort.split()
		return Val{Typ: m.Typ, Gh: true, T: Store(m.T, litTo(k, ks), litTo(v, vs))}
	case "fresh":
		v := e.ev(args[0])
		return boolV(And(Le(fv.get(e.old, "alloc", SInt), v.T), Lt(v.T, fv.get(e.st, "alloc", SInt))))
	case "allocated":
		v := e.ev(args[0])
		return boolV(And(Lt(IntC(0), v.T), Lt(v.T, fv.get(e.st, "alloc", SInt))))
	case "ref":
		v := e.ev(args[0])
		if v.T == nil {
			e.fail(se, "ref of non-scalar")
		}
		return Val{Typ: types.Typ[types.UnsafePointer], T: v.T}
	case "cast": // cast("type", e): view a ref as a value of a type
		v := e.ev(args[1])
		return Val{Typ: fv.t.typ(args[0].name), T: v.T, E: v.E}
	case "unbox": // unbox("type", iface): the value in an interface
		v := e.ev(args[1])
		ty := fv.t.typ(args[0].name)
		return build(ty, func(l Leaf) *Term { return UF("unbox:"+typeKey(ty)+l.Path, l.Sort, v.T) })
	case "dyn": // dyn("type", iface): it holds a value of that type
		return boolV(UF("is:"+typeKey(fv.t.typ(args[0].name)), SBool, e.ev(args[1]).T))
	case "u32":
		v := e.ev(args[0])
		return Val{Typ: types.Typ[types.Uint32], T: litTo(v, BV(32))}
	case "bv8":
		v := e.ev(args[0])
		return Val{Typ: types.Typ[types.Uint8], T: litTo(v, BV(8))}
	case "event":
		v := e.ev(args[0])
		return Val{Typ: fv.t.typ("Event"), T: litTo(v, BV(32))}
	case "nat": // unsigned bit vector to int
		v := e.ev(args[0])
		return intV(bv2int(v.T))
	case "i32": // value of int->int32 conversion
		v := e.ev(args[0])
		return Val{Typ: types.Typ[types.Int32], T: wrapInt(v.T, 32)}
	case "u32toi32": // value of uint32->int32 conversion
		v := e.ev(args[0])
		return Val{Typ: types.Typ[types.Int32], T: signed(litTo(v, BV(32)))}
	case "i32tou32":
		v := e.ev(args[0])
		return Val{Typ: types.Typ[types.Uint32], T: int2bv(v.T, 32)}
	case "lockstate":
		if args[0].op != "sel" {
			v := e.ev(args[0])
			return intV(fv.lockState(e.st, &Addr{Kind: "heap", Ref: v.T, Styp: types.Unalias(under(v.Typ).(*types.Pointer).Elem()).(*types.Named), FPath: ""}))
		}
		a := e.addr(args[0])
		return intV(fv.lockState(e.st, a))
	case "result": // never used outside
	case "comp": // comp("name", ref): row of a raw heap component
		so, ok := compSort[args[0].name]
		if !ok {
			e.fail(se, "unknown component %s", args[0].name)
		}
		r := Select(fv.get(e.st, args[0].name, so), e.ev(args[1]).T)
		return Val{Typ: types.Typ[types.UnsafePointer], T: r, Gh: true}
	case "same": // same("comp"): component unchanged since old
		n := args[0].name
		a, b := e.st.heap[n], e.old.heap[n]
		if a == nil && b == nil {
			return boolV(tTrue)
		}
		if a == nil || b == nil {
			if a == nil {
				a = b
			}
			b = Const("H0:"+n, a.sort)
		}
		return boolV(Eq(a, b))
	}
	if d, ok := fv.t.sf.defs[f.name]; ok {
		if len(d.params) != len(args) {
			e.fail(se, "%s wants %d arguments", f.name, len(d.params))
		}
		e2 := *e
		e2.names = map[string]Val{}
		for k, v := range e.names {
			if strings.HasPrefix(k, "$") || v.It != nil {
				e2.names[k] = v
			}
		}
		for i, p := range d.params {
			e2.names[p] = e.ev(args[i])
		}
		return e2.ev(d.body)
	}
	if d, ok := fv.t.sf.defns[f.name]; ok {
		if len(d.vars) != len(args) {
			e.fail(se, "%s wants %d arguments", f.name, len(d.vars))
		}
		var vs []Val
		for i, a := range args {
			v := e.ev(a)
			ty := fv.t.typ(d.vars[i].typ)
			vs = append(vs, Val{Typ: ty, T: litTo(v, ghostSort(ty)), Gh: isMapType(ty)})
		}
		return e.defn(d, vs)
	}
	if u, ok := fv.t.sf.ufuns[f.name]; ok {
		var as []*Term
		for i, a := range args {
			v := e.ev(a)
			if v.T == nil {
				for _, x := range v.flat() {
					as = append(as, x)
				}
				continue
			}
			if i < len(u.args) {
				if strings.HasPrefix(u.args[i], "$") {
					as = append(as, v.T)
					continue
				}
				as = append(as, litTo(v, ghostSort(fv.t.typ(u.args[i]))))
			}
		}
		rt := fv.t.typ(u.ret)
		_, gh := under(rt).(*types.Map)
		if gh {
			return Val{Typ: rt, T: UF("sp:"+u.name, ghostSort(rt), as...), Gh: true}
		}
		ls := leaves(rt)
		if len(ls) == 1 {
			return Val{Typ: rt, T: UF("sp:"+u.name, ls[0].Sort, as...)}
		}
		i := 0
		return build(rt, func(l Leaf) *Term { i++; return UF("sp:"+u.name+ls[i-1].Path, l.Sort, as...) })
	}
	e.fail(se, "unknown function %q", f.name)
	return Val{}
}

func isMapType(ty types.Type) bool {
	_, ok := under(ty).(*types.Map)
	return ok
}

func (e *Env) defn(d *Defn, vs []Val) Val {
	if e.open {
		return e.defnBody(d, vs)
	}
	rt := e.fv.t.typ(d.ret)
	var as []*Term
	for _, v := range vs {
		as = append(as, v.T)
	}
	return Val{Typ: rt, T: UF("d:"+d.name, ghostSort(rt), as...), Gh: isMapType(rt)}
}

func (e *Env) defnBody(d *Defn, vs []Val) Val {
	e2 := *e
	e2.names = map[string]Val{}
	for i, v := range d.vars {
		e2.names[v.name] = vs[i]
	}
	r := e2.ev(d.body)
	r.T = litTo(r, ghostSort(e.fv.t.typ(d.ret)))
	return r
}

// addr evaluates a selector expression as an address (locks).
func (e *Env) addr(se *SE) *Addr {
	if se.op != "sel" {
		e.fail(se, "not an address")
	}
	x := e.ev(se.args[0])
	p, ok := under(x.Typ).(*types.Pointer)
	if !ok {
		e.fail(se, "address of field of non-pointer")
	}
	n := types.Unalias(p.Elem()).(*types.Named)
	return &Addr{Kind: "heap", Ref: x.T, Styp: n, FPath: "." + se.name}
}

func bv2int(t *Term) *Term {
	if t.op == "bv" {
		return BigC(t.num)
	}
	return App("bv2nat", SInt, t)
}

// signed is the value of an n-bit vector read as a two's complement number.
func signed(t *Term) *Term {
	n := t.sort.bits()
	if t.op == "int2bv" {
		return wrapInt(t.args[0], n)
	}
	if t.op == "bv" {
		v := new(big.Int).Set(t.num)
		if v.Bit(n-1) == 1 {
			v.Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(n)))
		}
		return BigC(v)
	}
	return UF(fmt.Sprintf("sint%d", n), SInt, t)
}
func int2bv(t *Term, n int) *Term {
	if t.op == "uf" && t.name == fmt.Sprintf("sint%d", n) {
		return t.args[0]
	}
	if t.op == "int" {
		return BVBig(t.num, n)
	}
	if t.op == "bv2nat" && t.args[0].sort.bits() == n {
		return t.args[0]
	}
	return mk("int2bv", fmt.Sprint(n), BV(n), nil, t)
}

// wrapInt is the conversion of a mathematical integer to a signed n-bit one.
func wrapInt(t *Term, n int) *Term {
	lim := new(big.Int).Lsh(big.NewInt(1), uint(n-1))
	lo := new(big.Int).Neg(lim)
	hi := new(big.Int).Sub(lim, big.NewInt(1))
	if t.op == "int" {
		if t.num.Cmp(lo) >= 0 && t.num.Cmp(hi) <= 0 {
			return t
		}
	}
	return Ite(And(Le(BigC(lo), t), Le(t, BigC(hi))), t, UF(fmt.Sprintf("wrap%d", n), SInt, t))
}

// shiftIndexes makes quantified slice indexes absolute: where the first
// pattern mentioning v selects at X+v, v is replaced by v-X, so that the
// pattern matches any select of that row.
func shiftIndexes(vars []*Term, body *Term, pats [][]*Term) (*Term, [][]*Term) {
	sub := map[*Term]*Term{}
	for _, v := range vars {
		if v.sort != SInt {
			continue
		}
		var find func(t *Term) *Term
		find = func(t *Term) *Term {
			if t.op == "select" && t.args[1] != v && t.args[1].sort == SInt {
				l := &lin{big.NewInt(0), map[*Term]*big.Int{}}
				toLin(t.args[1], 1, l)
				if k, ok := l.m[v]; ok && k.IsInt64() && k.Int64() == 1 {
					delete(l.m, v)
					rest := fromLin(l, SInt)
					clean := true
					for _, w := range vars {
						if occurs(rest, w) {
							clean = false
						}
					}
					if clean {
						return rest
					}
				}
			}
			for _, a := range t.args {
				if r := find(a); r != nil {
					return r
				}
			}
			return nil
		}
		for _, ps := range pats {
			for _, x := range ps {
				if sub[v] == nil {
					if r := find(x); r != nil {
						sub[v] = Sub(v, r)
					}
				}
			}
		}
	}
	if len(sub) == 0 {
		return body, pats
	}
	memo := map[*Term]*Term{}
	var np [][]*Term
	for _, ps := range pats {
		var q []*Term
		for _, x := range ps {
			q = append(q, subst(x, sub, memo))
		}
		np = append(np, q)
	}
	return subst(body, sub, memo), np
}

func occurs(t, v *Term) bool {
	if t == v {
		return true
	}
	if !t.bound {
		return false
	}
	for _, a := range t.args {
		if occurs(a, v) {
			return true
		}
	}
	return false
}
