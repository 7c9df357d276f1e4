package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// initFacts: facts about package variables that only the package initializer
// assigns: error values are distinct and not nil, map literals hold exactly
// their entries (when nothing else in the package updates maps of that type).
func (t *Tool) initFacts(fv *FV, st *State) []*Term {
	var out []*Term
	ini := t.pkg.Func("init")
	if ini == nil {
		return nil
	}
	var errs []*Term
	type ent struct{ k, v *ssa.Const }
	maps := map[ssa.Value][]ent{}
	bad := map[ssa.Value]bool{}
	gl := map[string]ssa.Value{}
	for _, b := range ini.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.MapUpdate:
				k, ok1 := in.Key.(*ssa.Const)
				v, ok2 := in.Value.(*ssa.Const)
				if ok1 && ok2 {
					maps[in.Map] = append(maps[in.Map], ent{k, v})
				} else {
					bad[in.Map] = true
				}
			case *ssa.Store:
				if g, ok := in.Addr.(*ssa.Global); ok && t.constG[g.Name()] {
					gl[g.Name()] = in.Val
				}
			}
		}
	}
	// never assigned at all and never handed out by address: zero
	for n, m := range t.pkg.Members {
		g, ok := m.(*ssa.Global)
		if !ok || !t.constG[n] || t.addrTaken[n] || n == "init$guard" {
			continue
		}
		if _, ok := gl[n]; ok || t.initStored[n] {
			continue
		}
		for _, l := range leaves(g.Type().(*types.Pointer).Elem()) {
			if !isBigArr(l.Typ) {
				out = append(out, Eq(Const("glob:"+n+l.Path, l.Sort), zeroTerm(l.Sort)))
			}
		}
	}
	var names []string
	for n := range gl {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		v := gl[n]
		g := t.pkg.Members[n].(*ssa.Global)
		ty := g.Type().(*types.Pointer).Elem()
		switch x := v.(type) {
		case *ssa.Call:
			if f := x.Call.StaticCallee(); f != nil && fullName(f) == "errors.New" {
				errs = append(errs, Const("glob:"+n, SRef))
			}
			_ = ty
		case *ssa.MakeMap:
			if bad[v] || t.mapTypeUpdated(ty) {
				continue
			}
			m := under(ty).(*types.Map)
			if len(leaves(m.Elem())) != 1 || len(leaves(m.Key())) != 1 {
				continue
			}
			ref := Const("glob:"+n, SRef)
			out = append(out, Lt(RefC(0), ref), Lt(ref, fv.get(st, "alloc", SInt)))
			ks, vs := keySort(ty.Underlying().(*types.Map).Key()), leaves(m.Elem())[0].Sort
			d := ConstArr(Arr(ks, SBool), tFalse)
			for _, e := range maps[v] {
				k := constVal(e.k.Value, m.Key()).T
				d = Store(d, k, tTrue)
				_, _, p := mapLeafComps(ty)
				A := fv.get(st, p, Arr(SRef, Arr(ks, vs)))
				out = append(out, Eq(Select(Select(A, ref), k), constVal(e.v.Value, m.Elem()).T))
			}
			out = append(out, Eq(fv.mapDom(st, ty, ref), d))
		}
	}
	for i, a := range errs {
		out = append(out, Not(Eq(a, RefC(0))))
		for _, b := range errs[:i] {
			out = append(out, Not(Eq(a, b)))
		}
	}
	return out
}

func (t *Tool) mapTypeUpdated(ty types.Type) bool {
	key := mapKey(ty)
	found := false
	var scan func(f *ssa.Function)
	scan = func(f *ssa.Function) {
		if f.Synthetic == "package initializer" {
			return
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.MapUpdate:
					if mapKey(in.Map.Type()) == key {
						found = true
					}
				case *ssa.Call:
					if bi, ok := in.Call.Value.(*ssa.Builtin); ok && bi.Name() == "delete" && mapKey(in.Call.Args[0].Type()) == key {
						found = true
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			scan(a)
		}
	}
	for _, f := range t.funcs {
		scan(f)
	}
	return found
}
