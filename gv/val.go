package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic Go value.
type Val struct {
	Typ types.Type
	T   *Term // scalar
	E   []Val // components of structs, small arrays, tuples and slices (base, off, len, cap)
	Fn  *Closure
	Ptr *Addr
	It  *Iter
	Gh  bool // ghost map: T is an SMT array
}

type Closure struct {
	Fn   *ssa.Function
	Bind []Val
	Cb   *Callback // abstract callback parameter
	Key  string
}

type Callback struct {
	Name string
	Spec *CbSpec
	Sig  *types.Signature
}

type Iter struct {
	Cell *Cell // holds visited set (array term)
	Map  Val
	MTyp *types.Map
	Dom0 *Term
}

type Cell struct {
	key   string
	typ   types.Type
	name  string
	frame int // frame id
	iter  bool
	ord   int
}

// Addr denotes a memory location.
type Addr struct {
	Kind string // "cell", "heap", "slice", "bytes"
	Cell *Cell
	Path []int
	// heap: struct object
	Ref   *Term
	Styp  *types.Named // struct type of the object
	FPath string
	Typ   types.Type // type of the location
	// slice element
	Base, Idx *Term
	Lim       *Term // byte views stay below
	Elem      types.Type
	EPath     []int // path within the element
}

type Leaf struct {
	Path string
	Sort Sort
	Typ  types.Type
}

func under(t types.Type) types.Type { return t.Underlying() }

func sortOfBasic(b *types.Basic) Sort {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return SBool
	case types.String, types.UntypedString:
		return SStr
	case types.Uint8:
		return BV(8)
	case types.Uint16:
		return BV(16)
	case types.Uint32:
		return BV(32)
	case types.Uint64, types.Uint, types.Uintptr:
		return BV(64)
	case types.UnsafePointer, types.UntypedNil:
		return SRef
	}
	return SInt
}

func isSmallArray(a *types.Array) bool { return a.Len() <= 8 }

// leaves flattens a type.
func leaves(t types.Type) []Leaf {
	switch u := under(t).(type) {
	case *types.Basic:
		return []Leaf{{"", sortOfBasic(u), t}}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range leaves(u.Field(i).Type()) {
				out = append(out, Leaf{"." + u.Field(i).Name() + l.Path, l.Sort, l.Typ})
			}
		}
		return out
	case *types.Array:
		if isSmallArray(u) {
			var out []Leaf
			for i := int64(0); i < u.Len(); i++ {
				for _, l := range leaves(u.Elem()) {
					out = append(out, Leaf{fmt.Sprintf(".%d%s", i, l.Path), l.Sort, l.Typ})
				}
			}
			return out
		}
		return []Leaf{{".arr", SRef, t}}
	case *types.Slice:
		return []Leaf{{".base", SRef, t}, {".off", SInt, nil}, {".len", SInt, nil}, {".cap", SInt, nil}}
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			for _, l := range leaves(u.At(i).Type()) {
				out = append(out, Leaf{fmt.Sprintf(".%d%s", i, l.Path), l.Sort, l.Typ})
			}
		}
		return out
	}
	return []Leaf{{"", SRef, t}}
}

// build makes a Val of type t from a leaf source.
func build(t types.Type, next func(Leaf) *Term) Val {
	ls := leaves(t)
	i := 0
	var rec func(t types.Type) Val
	rec = func(t types.Type) Val {
		switch u := under(t).(type) {
		case *types.Struct:
			v := Val{Typ: t}
			for j := 0; j < u.NumFields(); j++ {
				v.E = append(v.E, rec(u.Field(j).Type()))
			}
			if v.E == nil {
				v.E = []Val{}
			}
			return v
		case *types.Array:
			if isSmallArray(u) {
				v := Val{Typ: t, E: []Val{}}
				for j := int64(0); j < u.Len(); j++ {
					v.E = append(v.E, rec(u.Elem()))
				}
				return v
			}
		case *types.Tuple:
			v := Val{Typ: t, E: []Val{}}
			for j := 0; j < u.Len(); j++ {
				v.E = append(v.E, rec(u.At(j).Type()))
			}
			return v
		case *types.Slice:
			v := Val{Typ: t}
			for j := 0; j < 4; j++ {
				v.E = append(v.E, Val{T: next(ls[i]), Typ: types.Typ[types.Int]})
				i++
			}
			return v
		}
		v := Val{Typ: t, T: next(ls[i])}
		i++
		return v
	}
	return rec(t)
}

func (v Val) flat() []*Term {
	if v.E != nil {
		var out []*Term
		for _, e := range v.E {
			out = append(out, e.flat()...)
		}
		return out
	}
	if v.T == nil {
		return []*Term{nil}
	}
	return []*Term{v.T}
}

func zeroTerm(s Sort) *Term {
	switch {
	case s == SBool:
		return tFalse
	case s == SInt:
		return IntC(0)
	case s == SRef:
		return RefC(0)
	case s == SStr:
		return StrC("")
	case s.isBV():
		return BVC(0, s.bits())
	case s.isArr():
		_, v := s.split()
		return ConstArr(s, zeroTerm(v))
	}
	panic("zeroTerm " + s)
}

func zeroVal(t types.Type) Val {
	return build(t, func(l Leaf) *Term { return zeroTerm(l.Sort) })
}

func freshVal(name string, t types.Type) Val {
	return build(t, func(l Leaf) *Term { return Fresh(name+l.Path, l.Sort) })
}

func eqVal(a, b Val) *Term {
	x, y := a.flat(), b.flat()
	if len(x) != len(y) {
		panic(fmt.Sprintf("eqVal shape %v %v", a.Typ, b.Typ))
	}
	var cs []*Term
	for i := range x {
		if x[i] == nil || y[i] == nil {
			if sameVal(a, b) {
				return tTrue
			}
			return Fresh("opaqueeq", SBool)
		}
		cs = append(cs, Eq(x[i], y[i]))
	}
	return And(cs...)
}

func sameVal(a, b Val) bool {
	if (a.E != nil) != (b.E != nil) {
		return false
	}
	if a.E != nil {
		if len(a.E) != len(b.E) {
			return false
		}
		for i := range a.E {
			if !sameVal(a.E[i], b.E[i]) {
				return false
			}
		}
		return true
	}
	if a.T != b.T {
		return false
	}
	if a.T == nil {
		if (a.Fn == nil) != (b.Fn == nil) || (a.Ptr == nil) != (b.Ptr == nil) {
			return false
		}
		if a.Fn != nil && (a.Fn.Fn != b.Fn.Fn || a.Fn.Cb != b.Fn.Cb || len(a.Fn.Bind) != len(b.Fn.Bind)) {
			return false
		}
		if a.Fn != nil {
			for i := range a.Fn.Bind {
				if !sameVal(a.Fn.Bind[i], b.Fn.Bind[i]) {
					return false
				}
			}
		}
		if a.Ptr != nil {
			p, q := a.Ptr, b.Ptr
			if p.Kind != q.Kind || p.Cell != q.Cell || fmt.Sprint(p.Path) != fmt.Sprint(q.Path) || p.Ref != q.Ref || p.FPath != q.FPath || p.Base != q.Base || p.Idx != q.Idx || fmt.Sprint(p.EPath) != fmt.Sprint(q.EPath) {
				return false
			}
		}
	}
	return true
}

// iteVal merges two values of the same shape.
func iteVal(c *Term, a, b Val) (Val, bool) {
	if a.E != nil && b.E != nil && len(a.E) == len(b.E) {
		r := Val{Typ: a.Typ, E: make([]Val, len(a.E))}
		for i := range a.E {
			x, ok := iteVal(c, a.E[i], b.E[i])
			if !ok {
				return Val{}, false
			}
			r.E[i] = x
		}
		return r, true
	}
	if a.T != nil && b.T != nil {
		return Val{Typ: a.Typ, T: Ite(c, a.T, b.T), Gh: a.Gh}, true
	}
	if sameVal(a, b) {
		return a, true
	}
	return Val{}, false
}

func getPath(v Val, path []int) Val {
	for _, i := range path {
		v = v.E[i]
	}
	return v
}

func setPath(v Val, path []int, x Val) Val {
	if len(path) == 0 {
		return x
	}
	r := v
	r.E = append([]Val(nil), v.E...)
	r.E[path[0]] = setPath(v.E[path[0]], path[1:], x)
	return r
}

var qual = func(p *types.Package) string { return p.Name() }

func typeKey(t types.Type) string {
	t = types.Unalias(t)
	if b, ok := t.(*types.Basic); ok {
		t = types.Typ[b.Kind()] // byte is uint8
	}
	s := types.TypeString(t, qual)
	return strings.ReplaceAll(strings.ReplaceAll(s, "notify.", ""), "interface{}", "any")
}

func mapKey(t types.Type) string {
	m := under(t).(*types.Map)
	return "M:map[" + typeKey(m.Key()) + "]" + typeKey(m.Elem())
}

func keySort(t types.Type) Sort {
	ls := leaves(t)
	if len(ls) != 1 {
		panic("compound map key " + t.String())
	}
	return ls[0].Sort
}

func isRefType(t types.Type) bool {
	if t == nil {
		return false
	}
	switch under(t).(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Slice:
		return true
	}
	return false
}
