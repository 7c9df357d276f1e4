package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Sort is the SMT-LIB text of a sort. "Ref" is an alias of Int.
type Sort string

const (
	SBool Sort = "Bool"
	SInt  Sort = "Int"
	SStr  Sort = "Str!"
	SRef  Sort = "Ref"
)

func BV(n int) Sort        { return Sort(fmt.Sprintf("(_ BitVec %d)", n)) }
func Arr(k, v Sort) Sort   { return Sort("(Array " + string(k) + " " + string(v) + ")") }
func (s Sort) isBV() bool  { return strings.HasPrefix(string(s), "(_ BitVec") }
func (s Sort) isArr() bool { return strings.HasPrefix(string(s), "(Array") }
func (s Sort) bits() int {
	var n int
	fmt.Sscanf(string(s), "(_ BitVec %d)", &n)
	return n
}
func (s Sort) split() (Sort, Sort) {
	// (Array K V)
	in := string(s)[len("(Array ") : len(s)-1]
	d := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return Sort(in[:i]), Sort(in[i+1:])
			}
		}
	}
	panic("bad array sort " + s)
}

type Term struct {
	id    int
	op    string // "const" (uninterpreted), "var" (bound), "int", "bv", "str", "true","false", or operator
	name  string
	sort  Sort
	args  []*Term
	num   *big.Int // int / bv literal
	bound bool     // contains bound variables
	qvars []*Term  // quantifiers
	pats  [][]*Term
}

var termTab = map[string]*Term{}
var termCnt int

func mk(op, name string, s Sort, num *big.Int, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(name)
	b.WriteByte('|')
	b.WriteString(string(s))
	if num != nil {
		b.WriteByte('#')
		b.WriteString(num.String())
	}
	for _, a := range args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	k := b.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	termCnt++
	t := &Term{id: termCnt, op: op, name: name, sort: s, args: args, num: num}
	if op == "var" {
		t.bound = true
	}
	for _, a := range args {
		if a.bound {
			t.bound = true
		}
	}
	termTab[k] = t
	return t
}

var tTrue = mk("true", "", SBool, nil)
var tFalse = mk("false", "", SBool, nil)

func Bool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func IntC(n int64) *Term        { return mk("int", "", SInt, big.NewInt(n)) }
func BigC(n *big.Int) *Term     { return mk("int", "", SInt, new(big.Int).Set(n)) }
func RefC(n int64) *Term        { return mk("int", "", SRef, big.NewInt(n)) }
func BVC(v uint64, n int) *Term { return BVBig(new(big.Int).SetUint64(v), n) }
func BVBig(v *big.Int, n int) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), uint(n))
	x := new(big.Int).Mod(v, m)
	return mk("bv", "", BV(n), x)
}
func StrC(s string) *Term { return mk("str", s, SStr, nil) }

func Const(name string, s Sort) *Term { return mk("const", name, s, nil) }

var freshCnt = map[string]int{}

func Fresh(base string, s Sort) *Term {
	freshCnt[base]++
	return mk("const", fmt.Sprintf("%s!%d", base, freshCnt[base]), s, nil)
}

var varCnt int

func BVar(base string, s Sort) *Term {
	varCnt++
	return mk("var", fmt.Sprintf("%s?%d", base, varCnt), s, nil)
}

func (t *Term) isLit() bool {
	switch t.op {
	case "int", "bv", "str", "true", "false":
		return true
	}
	return false
}

func Not(a *Term) *Term {
	switch a.op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.args[0]
	}
	return mk("not", "", SBool, nil, a)
}

func And(xs ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x.op == "true" || seen[x.id] {
			return true
		}
		if x.op == "false" {
			return false
		}
		if x.op == "and" {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[Not(x).id] {
			return false
		}
		seen[x.id] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return tFalse
		}
	}
	switch len(out) {
	case 0:
		return tTrue
	case 1:
		return out[0]
	}
	return mk("and", "", SBool, nil, out...)
}

func Or(xs ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, x := range xs {
		ys := []*Term{x}
		if x.op == "or" {
			ys = x.args
		}
		for _, y := range ys {
			if y.op == "false" || seen[y.id] {
				continue
			}
			if y.op == "true" || seen[Not(y).id] {
				return tTrue
			}
			seen[y.id] = true
			out = append(out, y)
		}
	}
	switch len(out) {
	case 0:
		return tFalse
	case 1:
		return out[0]
	}
	return mk("or", "", SBool, nil, out...)
}

func Implies(a, b *Term) *Term {
	if a.op == "true" {
		return b
	}
	if a.op == "false" || b.op == "true" {
		return tTrue
	}
	if b.op == "false" {
		return Not(a)
	}
	if a == b {
		return tTrue
	}
	return mk("=>", "", SBool, nil, a, b)
}

func Ite(c, a, b *Term) *Term {
	if c.op == "true" || a == b {
		return a
	}
	if c.op == "false" {
		return b
	}
	if a.sort == SBool {
		if a.op == "true" && b.op == "false" {
			return c
		}
		if a.op == "false" && b.op == "true" {
			return Not(c)
		}
		if a.op == "true" {
			return Or(c, b)
		}
		if b.op == "false" {
			return And(c, a)
		}
		if a.op == "false" {
			return And(Not(c), b)
		}
		if b.op == "true" {
			return Or(Not(c), a)
		}
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	return mk("ite", "", a.sort, nil, c, a, b)
}

func sameSort(a, b Sort) bool {
	n := func(s Sort) string { return strings.ReplaceAll(string(s), "Ref", "Int") }
	return a == b || n(a) == n(b)
}

func Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if !sameSort(a.sort, b.sort) {
		panic(fmt.Sprintf("Eq sort mismatch: %s:%s vs %s:%s", a.short(), a.sort, b.short(), b.sort))
	}
	if a.isLit() && b.isLit() {
		if a.num != nil && b.num != nil {
			return Bool(a.num.Cmp(b.num) == 0)
		}
		if a.op == "str" && b.op == "str" {
			return Bool(a.name == b.name)
		}
		if a.sort == SBool {
			return Bool(a.op == b.op)
		}
		return tFalse
	}
	if a.sort == SBool {
		if a.op == "true" {
			return b
		}
		if b.op == "true" {
			return a
		}
		if a.op == "false" {
			return Not(b)
		}
		if b.op == "false" {
			return Not(a)
		}
	}
	if a.sort == SInt || a.sort == SRef {
		d := Sub(a, b)
		if d.op == "int" {
			return Bool(d.num.Sign() == 0)
		}
	}
	// byteAt(s,i) == lit  ->  str.at(s,i) == "c"
	if a.op == "bv" && b.op == "byteat" {
		a, b = b, a
	}
	if a.op == "byteat" && b.op == "bv" {
		return mk("=", "", SBool, nil, App("str.at", SStr, a.args[0], a.args[1]), StrC(string([]byte{byte(b.num.Uint64())})))
	}
	if a.op == "ite" && b.isLit() && (a.args[1].isLit() || a.args[2].isLit()) {
		return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
	}
	if b.op == "ite" && a.isLit() && (b.args[1].isLit() || b.args[2].isLit()) {
		return Ite(b.args[0], Eq(b.args[1], a), Eq(b.args[2], a))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", "", SBool, nil, a, b)
}

// ---- integers: linear normal form

type lin struct {
	c *big.Int
	m map[*Term]*big.Int
}

func toLin(t *Term, sgn int64, l *lin) {
	switch t.op {
	case "int":
		l.c.Add(l.c, new(big.Int).Mul(big.NewInt(sgn), t.num))
	case "+":
		for _, a := range t.args {
			toLin(a, sgn, l)
		}
	case "-":
		toLin(t.args[0], sgn, l)
		toLin(t.args[1], -sgn, l)
	case "*":
		if t.args[0].op == "int" {
			l2 := &lin{big.NewInt(0), map[*Term]*big.Int{}}
			toLin(t.args[1], sgn, l2)
			k := t.args[0].num
			l.c.Add(l.c, new(big.Int).Mul(k, l2.c))
			for x, v := range l2.m {
				addCoef(l, x, new(big.Int).Mul(k, v))
			}
			return
		}
		addCoef(l, t, big.NewInt(sgn))
	default:
		addCoef(l, t, big.NewInt(sgn))
	}
}
func addCoef(l *lin, t *Term, v *big.Int) {
	if o, ok := l.m[t]; ok {
		n := new(big.Int).Add(o, v)
		if n.Sign() == 0 {
			delete(l.m, t)
		} else {
			l.m[t] = n
		}
	} else if v.Sign() != 0 {
		l.m[t] = v
	}
}
func fromLin(l *lin, s Sort) *Term {
	var ts []*Term
	for t := range l.m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var parts []*Term
	for _, t := range ts {
		k := l.m[t]
		if k.Cmp(big.NewInt(1)) == 0 {
			parts = append(parts, t)
		} else {
			parts = append(parts, mk("*", "", SInt, nil, BigC(k), t))
		}
	}
	if l.c.Sign() != 0 || len(parts) == 0 {
		parts = append(parts, mk("int", "", s, new(big.Int).Set(l.c)))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return mk("+", "", s, nil, parts...)
}

func Add(a, b *Term) *Term {
	l := &lin{big.NewInt(0), map[*Term]*big.Int{}}
	toLin(a, 1, l)
	toLin(b, 1, l)
	return fromLin(l, a.sort)
}
func Sub(a, b *Term) *Term {
	l := &lin{big.NewInt(0), map[*Term]*big.Int{}}
	toLin(a, 1, l)
	toLin(b, -1, l)
	return fromLin(l, a.sort)
}
func Mul(a, b *Term) *Term {
	if b.op == "int" {
		a, b = b, a
	}
	if a.op == "int" {
		t := mk("*", "", SInt, nil, a, b)
		l := &lin{big.NewInt(0), map[*Term]*big.Int{}}
		toLin(t, 1, l)
		return fromLin(l, SInt)
	}
	return mk("*", "", SInt, nil, a, b)
}
func Le(a, b *Term) *Term {
	d := Sub(b, a)
	if d.op == "int" {
		return Bool(d.num.Sign() >= 0)
	}
	return mk("<=", "", SBool, nil, a, b)
}
func Lt(a, b *Term) *Term {
	d := Sub(b, a)
	if d.op == "int" {
		return Bool(d.num.Sign() > 0)
	}
	return mk("<", "", SBool, nil, a, b)
}

// ---- arrays

func distinctLit(a, b *Term) bool {
	if a.isLit() && b.isLit() && a != b {
		return true
	}
	if a.sort == SInt || a.sort == SRef {
		d := Sub(a, b)
		return d.op == "int" && d.num.Sign() != 0
	}
	return false
}

func Select(a, i *Term) *Term {
	_, v := a.sort.split()
	for a.op == "store" {
		if a.args[1] == i {
			return a.args[2]
		}
		if !distinctLit(a.args[1], i) {
			break
		}
		a = a.args[0]
	}
	if a.op == "constarr" {
		return a.args[0]
	}
	if i.bound {
		// under a quantifier: read through updates, so that triggers are plain reads
		switch a.op {
		case "store":
			if !a.args[1].bound || true {
				return Ite(Eq(i, a.args[1]), a.args[2], Select(a.args[0], i))
			}
		case "ite":
			return Ite(a.args[0], Select(a.args[1], i), Select(a.args[2], i))
		}
	}
	return mk("select", "", v, nil, a, i)
}
func Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return mk("store", "", a.sort, nil, a, i, v)
}
func ConstArr(s Sort, v *Term) *Term { return mk("constarr", "", s, nil, v) }

// ---- generic application

func App(op string, s Sort, args ...*Term) *Term { return mk(op, "", s, nil, args...) }
func UF(name string, s Sort, args ...*Term) *Term {
	if len(args) == 0 {
		return Const(name, s)
	}
	return mk("uf", name, s, nil, args...)
}

// ---- bit vectors

func bvLit(t *Term) (*big.Int, bool) {
	if t.op == "bv" {
		return t.num, true
	}
	return nil, false
}
func BVOp(op string, a, b *Term) *Term {
	n := a.sort.bits()
	x, xo := bvLit(a)
	y, yo := bvLit(b)
	zero := BVC(0, n)
	ones := Sub0ones(n)
	if xo && yo {
		r := new(big.Int)
		switch op {
		case "bvand":
			return BVBig(r.And(x, y), n)
		case "bvor":
			return BVBig(r.Or(x, y), n)
		case "bvxor":
			return BVBig(r.Xor(x, y), n)
		case "bvadd":
			return BVBig(r.Add(x, y), n)
		case "bvsub":
			return BVBig(r.Sub(x, y), n)
		case "bvmul":
			return BVBig(r.Mul(x, y), n)
		case "bvshl":
			if y.Cmp(big.NewInt(int64(n))) >= 0 {
				return zero
			}
			return BVBig(r.Lsh(x, uint(y.Uint64())), n)
		case "bvlshr":
			if y.Cmp(big.NewInt(int64(n))) >= 0 {
				return zero
			}
			return BVBig(r.Rsh(x, uint(y.Uint64())), n)
		}
	}
	switch op {
	case "bvand":
		if a == b {
			return a
		}
		if a == zero || b == zero {
			return zero
		}
		if a == ones {
			return b
		}
		if b == ones {
			return a
		}
	case "bvor":
		if a == b {
			return a
		}
		if a == zero {
			return b
		}
		if b == zero {
			return a
		}
	case "bvxor", "bvadd":
		if a == zero {
			return b
		}
		if b == zero {
			return a
		}
	case "bvsub":
		if b == zero {
			return a
		}
	}
	return mk(op, "", a.sort, nil, a, b)
}
func Sub0ones(n int) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), uint(n))
	return BVBig(m.Sub(m, big.NewInt(1)), n)
}
func BVNot(a *Term) *Term {
	if x, ok := bvLit(a); ok {
		n := a.sort.bits()
		m := new(big.Int).Lsh(big.NewInt(1), uint(n))
		m.Sub(m, big.NewInt(1))
		return BVBig(m.Xor(m, x), n)
	}
	if a.op == "bvnot" {
		return a.args[0]
	}
	return mk("bvnot", "", a.sort, nil, a)
}
func BVCmp(op string, a, b *Term) *Term {
	x, xo := bvLit(a)
	y, yo := bvLit(b)
	if xo && yo {
		c := x.Cmp(y)
		switch op {
		case "bvult":
			return Bool(c < 0)
		case "bvule":
			return Bool(c <= 0)
		case "bvugt":
			return Bool(c > 0)
		case "bvuge":
			return Bool(c >= 0)
		}
	}
	return mk(op, "", SBool, nil, a, b)
}

// ---- strings

func StrLen(s *Term) *Term {
	if s.op == "str" {
		return IntC(int64(len(s.name)))
	}
	if s.op == "gosub" {
		return Sub(s.args[2], s.args[1])
	}
	if s.op == "str.++" {
		r := IntC(0)
		for _, a := range s.args {
			r = Add(r, StrLen(a))
		}
		return r
	}
	return App("str.len", SInt, s)
}

// GoSub is s[lo:hi] for lo,hi already known to be in range.
func GoSub(s, lo, hi *Term) *Term {
	if s.op == "gosub" {
		return GoSub(s.args[0], Add(s.args[1], lo), Add(s.args[1], hi))
	}
	if s.op == "str" && lo.op == "int" && hi.op == "int" {
		l, h := lo.num.Int64(), hi.num.Int64()
		if 0 <= l && l <= h && h <= int64(len(s.name)) {
			return StrC(s.name[l:h])
		}
	}
	if lo.op == "int" && lo.num.Sign() == 0 && hi == StrLen(s) {
		return s
	}
	return mk("gosub", "", SStr, nil, s, lo, hi)
}
func StrCat(xs ...*Term) *Term {
	var out []*Term
	for _, x := range xs {
		ys := []*Term{x}
		if x.op == "str.++" {
			ys = x.args
		}
		for _, y := range ys {
			if y.op == "str" && y.name == "" {
				continue
			}
			if n := len(out); n > 0 && y.op == "str" && out[n-1].op == "str" {
				out[n-1] = StrC(out[n-1].name + y.name)
				continue
			}
			out = append(out, y)
		}
	}
	switch len(out) {
	case 0:
		return StrC("")
	case 1:
		return out[0]
	}
	return mk("str.++", "", SStr, nil, out...)
}
func ByteAt(s, i *Term) *Term {
	if s.op == "gosub" {
		return ByteAt(s.args[0], Add(s.args[1], i))
	}
	if s.op == "str" && i.op == "int" && i.num.Sign() >= 0 && i.num.Cmp(big.NewInt(int64(len(s.name)))) < 0 {
		return BVC(uint64(s.name[i.num.Int64()]), 8)
	}
	return mk("byteat", "", BV(8), nil, s, i)
}

// ---- quantifiers

func Quant(q string, vars []*Term, body *Term, pats [][]*Term) *Term {
	if body.isLit() || len(vars) == 0 {
		return body
	}
	var nm []string
	for _, v := range vars {
		nm = append(nm, v.name)
	}
	pats = fullPats(vars, cleanPats(pats, vars))
	termCnt++
	t := &Term{id: termCnt, op: q, name: strings.Join(nm, ","), sort: SBool, args: []*Term{body}, qvars: vars, pats: pats}
	// bound flag: free bound vars other than vars
	own := map[*Term]bool{}
	for _, v := range vars {
		own[v] = true
	}
	t.bound = hasFreeBound(body, own, map[*Term]bool{})
	return t
}

func hasFreeBound(t *Term, own map[*Term]bool, memo map[*Term]bool) bool {
	if !t.bound {
		return false
	}
	if v, ok := memo[t]; ok {
		return v
	}
	r := false
	if t.op == "var" {
		r = !own[t]
	} else if len(t.qvars) > 0 {
		o2 := map[*Term]bool{}
		for k := range own {
			o2[k] = true
		}
		for _, v := range t.qvars {
			o2[v] = true
		}
		r = hasFreeBound(t.args[0], o2, map[*Term]bool{})
	} else {
		for _, a := range t.args {
			if hasFreeBound(a, own, memo) {
				r = true
				break
			}
		}
	}
	memo[t] = r
	return r
}

// rebuild reconstructs t with new args through the smart constructors.
func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "=>":
		return Implies(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "=":
		return Eq(args[0], args[1])
	case "+":
		r := args[0]
		for _, a := range args[1:] {
			r = Add(r, a)
		}
		return r
	case "-":
		return Sub(args[0], args[1])
	case "*":
		return Mul(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "<":
		return Lt(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "bvand", "bvor", "bvxor", "bvadd", "bvsub", "bvmul", "bvshl", "bvlshr":
		return BVOp(t.op, args[0], args[1])
	case "bvnot":
		return BVNot(args[0])
	case "bvult", "bvule", "bvugt", "bvuge":
		return BVCmp(t.op, args[0], args[1])
	}
	return mk(t.op, t.name, t.sort, t.num, args...)
}

// Subst replaces terms (keys) by values.
func Subst(t *Term, m map[*Term]*Term) *Term { return subst(t, m, map[*Term]*Term{}) }
func subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	var r *Term
	if len(t.qvars) > 0 {
		b := subst(t.args[0], m, memo)
		if b == t.args[0] {
			r = t
		} else {
			var ps [][]*Term
			for _, p := range t.pats {
				var q []*Term
				for _, x := range p {
					q = append(q, subst(x, m, memo))
				}
				ps = append(ps, q)
			}
			r = Quant(t.op, t.qvars, b, ps)
		}
	} else {
		ch := false
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = subst(a, m, memo)
			if args[i] != a {
				ch = true
			}
		}
		r = t
		if ch {
			r = rebuild(t, args)
		}
	}
	memo[t] = r
	return r
}

// ---- printing

func smtStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"':
			b.WriteString(`""`)
		case c < 32 || c > 126 || c == '\\':
			fmt.Fprintf(&b, "\\u{%x}", c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func sym(n string) string {
	ok := true
	for i := 0; i < len(n); i++ {
		c := n[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '!' || c == '.' || c == '?' || c == '$' || c == '@') {
			ok = false
		}
	}
	if ok && n != "" {
		return n
	}
	return "|" + strings.ReplaceAll(n, "|", "/") + "|"
}

func intLit(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

type printer struct {
	names map[*Term]string
	out   *strings.Builder
	abs   bool // operations on strings are uninterpreted
}

func strOp(op string) bool {
	return strings.HasPrefix(op, "str.") || op == "gosub" || op == "byteat"
}

func (p *printer) head(t *Term, arg func(*Term) string) string {
	as := func() string {
		var b strings.Builder
		for _, a := range t.args {
			b.WriteByte(' ')
			b.WriteString(arg(a))
		}
		return b.String()
	}
	if p.abs && strOp(t.op) {
		return "(|" + absName(t) + "|" + as() + ")"
	}
	switch t.op {
	case "true", "false":
		return t.op
	case "int":
		return intLit(t.num)
	case "bv":
		return fmt.Sprintf("(_ bv%s %d)", t.num, t.sort.bits())
	case "str":
		return smtStr(t.name)
	case "const", "var":
		return sym(t.name)
	case "uf":
		return "(" + sym(t.name) + as() + ")"
	case "constarr":
		return "((as const " + string(t.sort) + ")" + as() + ")"
	case "gosub":
		lo, hi := t.args[1], t.args[2]
		return "(str.substr " + arg(t.args[0]) + " " + arg(lo) + " " + arg(Sub(hi, lo)) + ")"
	case "byteat":
		return "((_ int2bv 8) (str.to_code (str.at" + as() + ")))"
	case "extract":
		return "((_ extract " + t.name + ")" + as() + ")"
	case "zext":
		return "((_ zero_extend " + t.name + ")" + as() + ")"
	case "int2bv":
		return "((_ int2bv " + t.name + ")" + as() + ")"
	case "forall", "exists":
		var b strings.Builder
		b.WriteString("(" + t.op + " (")
		for _, v := range t.qvars {
			b.WriteString("(" + sym(v.name) + " " + string(v.sort) + ")")
		}
		b.WriteString(") ")
		if len(t.pats) > 0 {
			b.WriteString("(! ")
		}
		b.WriteString(arg(t.args[0]))
		for _, pt := range t.pats {
			b.WriteString(" :pattern (")
			for i, x := range pt {
				if i > 0 {
					b.WriteByte(' ')
				}
				b.WriteString(arg(x))
			}
			b.WriteString(")")
		}
		if len(t.pats) > 0 {
			b.WriteString(")")
		}
		b.WriteString(")")
		return b.String()
	}
	return "(" + t.op + as() + ")"
}

func (t *Term) String() string {
	p := &printer{}
	var f func(*Term) string
	f = func(x *Term) string { return p.head(x, f) }
	return f(t)
}
func (t *Term) short() string {
	s := t.String()
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}

// Query renders assertions as an SMT-LIB script with sharing.
func Query(asserts []*Term, logic string, abs bool) (text string, strs bool) {
	var out strings.Builder
	uses := map[*Term]int{}
	size := map[*Term]int{}
	var order []*Term
	type decl struct {
		name string
		args []Sort
		ret  Sort
	}
	decls := map[string]decl{}
	var dorder []string
	strop := false
	var lits []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		uses[t]++
		if uses[t] > 1 {
			return
		}
		switch t.op {
		case "const", "uf":
			if _, ok := decls[t.name]; !ok {
				var as []Sort
				for _, a := range t.args {
					as = append(as, a.sort)
				}
				decls[t.name] = decl{t.name, as, t.sort}
				dorder = append(dorder, t.name)
			}
		}
		if strOp(t.op) {
			strop = true
			if n := absName(t); abs {
				if _, ok := decls[n]; !ok {
					var as []Sort
					for _, a := range t.args {
						as = append(as, a.sort)
					}
					decls[n] = decl{n, as, t.sort}
					dorder = append(dorder, n)
				}
			}
		}
		if t.op == "str" {
			lits = append(lits, t)
		}
		sz := 1
		args := t.args
		if t.op == "gosub" && !abs {
			args = []*Term{t.args[0], t.args[1], Sub(t.args[2], t.args[1])}
		}
		for _, a := range args {
			visit(a)
			sz += size[a]
		}
		for _, pt := range t.pats {
			for _, x := range pt {
				visit(x)
			}
		}
		size[t] = sz
		order = append(order, t)
	}
	for _, a := range asserts {
		visit(a)
	}
	// strings that are only compared need no theory of strings
	out.WriteString("(set-logic " + logic + ")\n(define-sort Ref () Int)\n")
	p := &printer{names: map[*Term]string{}, abs: abs}
	if strop && !abs {
		out.WriteString("(define-sort Str! () String)\n")
	} else {
		out.WriteString("(declare-sort Str! 0)\n")
		for i, l := range lits {
			n := fmt.Sprintf("lit!%d", i)
			fmt.Fprintf(&out, "(declare-fun %s () Str!)\n", n)
			p.names[l] = n
		}
		if len(lits) > 1 {
			out.WriteString("(assert (distinct")
			for _, l := range lits {
				out.WriteString(" " + p.names[l])
			}
			out.WriteString("))\n")
		}
	}
	if _, ok := decls["u!str.len"]; ok {
		defer func() {
			var b strings.Builder
			b.WriteString("(assert (forall ((s Str!)) (! (<= 0 (|u!str.len| s)) :pattern ((|u!str.len| s)))))\n")
			for _, l := range lits {
				fmt.Fprintf(&b, "(assert (= (|u!str.len| %s) %d))\n", p.names[l], len(l.name))
			}
			text = strings.Replace(text, "(check-sat)\n", b.String()+"(check-sat)\n", 1)
		}()
	}
	for _, n := range dorder {
		d := decls[n]
		var as []string
		for _, a := range d.args {
			as = append(as, string(a))
		}
		fmt.Fprintf(&out, "(declare-fun %s (%s) %s)\n", sym(d.name), strings.Join(as, " "), d.ret)
	}
	var f func(x *Term) string
	f = func(x *Term) string {
		if n, ok := p.names[x]; ok {
			return n
		}
		return p.head(x, f)
	}
	for _, t := range order {
		if uses[t] > 1 && size[t] > 3 && !t.bound && len(t.args) > 0 {
			s := p.head(t, f)
			n := fmt.Sprintf("$t%d", t.id)
			fmt.Fprintf(&out, "(define-fun %s () %s %s)\n", n, t.sort, s)
			p.names[t] = n
		}
	}
	for _, a := range asserts {
		fmt.Fprintf(&out, "(assert %s)\n", f(a))
	}
	out.WriteString("(check-sat)\n")
	return out.String(), strop
}

// namedTerms gives names to ground terms that cannot stand in a trigger.
var namedTerms = map[*Term]*Term{}

func patOK(op string) bool {
	switch op {
	case "select", "uf", "const", "var", "int", "bv", "str", "store", "constarr", "+", "*", "-", "str.len", "gosub", "str.++":
		return true
	}
	return false
}

func patClean(t *Term) (*Term, bool) {
	if t.op == "var" {
		return t, true
	}
	if !t.bound {
		if groundOK(t) {
			return t, true
		}
		n := Const(fmt.Sprintf("named!%d", t.id), t.sort)
		namedTerms[n] = t
		return n, true
	}
	if t.op != "select" && t.op != "uf" && t.op != "store" && t.op != "+" && !strOp(t.op) {
		return nil, false
	}
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		x, ok := patClean(a)
		if !ok {
			return nil, false
		}
		args[i] = x
	}
	return mk(t.op, t.name, t.sort, t.num, args...), true
}

var groundMemo = map[*Term]bool{}

func groundOK(t *Term) bool {
	if r, ok := groundMemo[t]; ok {
		return r
	}
	r := patOK(t.op)
	for _, a := range t.args {
		r = r && groundOK(a)
	}
	groundMemo[t] = r
	return r
}

// triggers finds the outermost usable trigger terms inside t.
func triggers(t *Term, out []*Term) []*Term {
	if !t.bound || len(t.qvars) > 0 {
		return out
	}
	if t.op == "select" || t.op == "uf" || strOp(t.op) {
		if x, ok := patClean(t); ok {
			return append(out, x)
		}
	}
	for _, a := range t.args {
		out = triggers(a, out)
	}
	return out
}

func cleanPats(pats [][]*Term, vars []*Term) [][]*Term {
	var out [][]*Term
	for _, p := range pats {
		var q []*Term
		ok := true
		for _, t := range p {
			ts := triggers(t, nil)
			if len(ts) == 0 {
				ok = false
				break
			}
			// several reads of one term: alternatives when the pattern is a single term
			if len(p) == 1 {
				for _, x := range ts {
					out = append(out, []*Term{x})
				}
				ok = false
				break
			}
			best, bn := ts[0], -1
			for _, x := range ts {
				n := 0
				for _, v := range vars {
					if occurs(x, v) {
						n++
					}
				}
				if n > bn {
					best, bn = x, n
				}
			}
			q = append(q, best)
		}
		if ok && len(q) > 0 {
			out = append(out, q)
		}
	}
	seen := map[string]bool{}
	var uniq [][]*Term
	for _, p := range out {
		k := ""
		for _, t := range p {
			k += fmt.Sprint(t.id, ",")
		}
		if !seen[k] {
			seen[k] = true
			uniq = append(uniq, p)
		}
	}
	return uniq
}

// fullPats drops the patterns that do not mention every bound variable when
// some others do.
func fullPats(vars []*Term, pats [][]*Term) [][]*Term {
	var out [][]*Term
	for _, p := range pats {
		ok := true
		for _, v := range vars {
			in := false
			for _, t := range p {
				in = in || occurs(t, v)
			}
			ok = ok && in
		}
		if ok {
			out = append(out, p)
		}
	}
	if len(out) == 0 {
		return pats
	}
	return out
}

func absName(t *Term) string {
	if t.op == "str.++" && len(t.args) != 2 {
		return fmt.Sprintf("u!str.++%d", len(t.args))
	}
	return "u!" + t.op
}
