package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"
)

// ---- contract files -------------------------------------------------------

type SE struct { // spec expression
	op   string // ident,int,str,call,index,slice,sel,un,bin,quant,ite,let
	name string
	args []*SE
	vars []QV
	pats [][]*SE
	pos  string
}
type QV struct{ name, typ string }

type Clause struct {
	label string
	props []string // empty: all
	e     *SE
	text  string
	pos   string
}

type LoopTpl struct {
	Clause
	ph  []QV
	dec bool
}

type Mod struct {
	comp  string
	refs  []*SE
	allo  bool
	props []string
}

type CbSpec struct {
	name     string
	params   []string
	results  []string
	requires []Clause
	ensures  []Clause
	sets     []Clause
	mods     []Mod
}

type Contract struct {
	kind     string // func, extern, iface, var
	name     string
	params   []string
	results  []string
	props    []string
	safety   []string
	requires []Clause
	ensures  []Clause
	sets     []Clause // label = ghost name
	mods     []Mod
	loops    []LoopTpl
	walks    []LoopTpl // invariants of calls that a callee's callback contract describes
	steps    []Clause
	onsend   []Clause
	ondel    []OnDel
	onvars   []string
	cbs      map[string]*CbSpec
	spawnP   []string
	spawnReq []Clause
	spawnEns []Clause
	spawnSet []Clause
	sendSet  []Clause
	hasSpawn bool
	guarded  []Guard
	pure     bool
	inline   bool
	mayblock bool
	maypanic bool
	blocks   bool // calling it may block
	opts     map[string]string
	trusted  bool
	pos      string
	uselib   []string
	lockinv  []Clause
}

type Guard struct {
	lock  *SE
	comps []string
	pos   string
	props []string
	vol   bool // others may change it at any time: arbitrary at every acquisition
}

type SpecFile struct {
	ghosts    []QV
	consts    []QV
	defs      map[string]*Def
	ufuns     map[string]*UFun
	axioms    []Clause
	contracts map[string]*Contract // key kind:name
	order     []string
	lockinv   []Clause
	immut     []string
	global    []LoopTpl
	lemmas    []*Lemma
	defns     map[string]*Defn
	hooks     []*Hook
	libs      map[string][]item
}

type item struct{ kw, rest, pos string }

// Defn is a defined function on values: uninterpreted in function
// verification except where its definition is asked for.
type Defn struct {
	name string
	vars []QV
	ret  string
	body *SE
	pos  string
}

// OnDel is a lemma stated (proved, then used) before every delete from a map type.
type OnDel struct {
	typ  string
	vars []string
	Clause
}

// Hook is ghost code run at every update of a map type.
type Hook struct {
	del    bool
	typ    string
	params []string
	sets   []Clause
	pos    string
}
type Def struct {
	name   string
	params []string
	body   *SE
}
type UFun struct {
	name string
	args []string
	ret  string
}
type Lemma struct {
	name  string
	props []string
	vars  []QV
	pats  [][]*SE
	e     *SE
	text  string
	pos   string
}

// lexer
type tok struct{ k, s string }

func lex(s string) []tok {
	var out []tok
	ops := []string{"<==>", "==>", "&^", "&&", "||", "==", "!=", "<=", ">=", "::", ":=", "<", ">", "+", "-", "*", "/", "&", "|", "^", "!", "(", ")", "[", "]", "{", "}", ",", ".", ":", "?", "=", "~", ";"}
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n':
			i++
		case c == '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			u, err := strconv.Unquote(s[i : j+1])
			if err != nil {
				panic("bad string in spec: " + s[i:j+1])
			}
			out = append(out, tok{"str", u})
			i = j + 1
		case c == '\'':
			j := i + 1
			for s[j] != '\'' {
				j++
			}
			out = append(out, tok{"chr", s[i+1 : j]})
			i = j + 1
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] == 'x' || s[j] >= 'a' && s[j] <= 'f' || s[j] >= 'A' && s[j] <= 'F') {
				j++
			}
			out = append(out, tok{"int", s[i:j]})
			i = j
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '$':
			j := i
			for j < len(s) && (s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] >= '0' && s[j] <= '9' || s[j] == '_' || s[j] == '$') {
				j++
			}
			out = append(out, tok{"id", s[i:j]})
			i = j
		default:
			ok := false
			for _, o := range ops {
				if strings.HasPrefix(s[i:], o) {
					out = append(out, tok{"op", o})
					i += len(o)
					ok = true
					break
				}
			}
			if !ok {
				panic("spec lex error at: " + s[i:])
			}
		}
	}
	return append(out, tok{"eof", ""})
}

type sparser struct {
	t   []tok
	i   int
	pos string
	src string
}

func (p *sparser) peek() tok { return p.t[p.i] }
func (p *sparser) next() tok { t := p.t[p.i]; p.i++; return t }
func (p *sparser) isOp(s string) bool {
	t := p.peek()
	return t.k == "op" && t.s == s
}
func (p *sparser) accept(s string) bool {
	if p.isOp(s) {
		p.i++
		return true
	}
	return false
}
func (p *sparser) expect(s string) {
	if !p.accept(s) {
		panic(fmt.Sprintf("%s: spec parse error: expected %q got %q in %q", p.pos, s, p.peek().s, p.src))
	}
}

func parseExpr(src, pos string) *SE {
	p := &sparser{t: lex(src), pos: pos, src: src}
	e := p.expr(0)
	if p.peek().k != "eof" {
		panic(fmt.Sprintf("%s: trailing %q in %q", pos, p.peek().s, src))
	}
	return e
}

var binPrec = map[string]int{"<==>": 1, "==>": 2, "||": 4, "&&": 5, "==": 6, "!=": 6, "<": 6, "<=": 6, ">": 6, ">=": 6, "in": 6, "+": 8, "-": 8, "|": 8, "^": 8, "*": 9, "&": 9, "&^": 9}

func (p *sparser) expr(min int) *SE {
	l := p.unary()
	for {
		t := p.peek()
		o := t.s
		if !(t.k == "op" || t.k == "id" && o == "in") {
			return l
		}
		if o == "?" && min <= 3 {
			p.next()
			a := p.expr(0)
			p.expect(":")
			b := p.expr(3)
			l = &SE{op: "ite", args: []*SE{l, a, b}, pos: p.pos}
			continue
		}
		pr, ok := binPrec[o]
		if !ok || pr < min {
			return l
		}
		p.next()
		var r *SE
		if o == "==>" {
			r = p.expr(pr)
		} else {
			r = p.expr(pr + 1)
		}
		l = &SE{op: "bin", name: o, args: []*SE{l, r}, pos: p.pos}
	}
}

func (p *sparser) typeText(stop ...string) string {
	var b strings.Builder
	d := 0
	for {
		t := p.peek()
		if t.k == "eof" {
			break
		}
		if d == 0 && t.k == "op" {
			for _, s := range stop {
				if t.s == s {
					return strings.TrimSpace(b.String())
				}
			}
		}
		if t.s == "(" || t.s == "[" || t.s == "{" {
			d++
		}
		if t.s == ")" || t.s == "]" || t.s == "}" {
			d--
		}
		p.next()
		if t.s == "<" && p.isOp("-") {
			p.next()
			t.s = "<-"
		}
		b.WriteString(t.s)
		if t.k == "id" {
			n := p.peek()
			if n.k == "id" || n.s == "<" {
				b.WriteByte(' ')
			}
		}
		if strings.HasSuffix(b.String(), "<-") {
			b.WriteByte(' ')
		}
	}
	return strings.TrimSpace(b.String())
}

func (p *sparser) unary() *SE {
	t := p.peek()
	if t.k == "op" && (t.s == "!" || t.s == "-" || t.s == "^") {
		p.next()
		return &SE{op: "un", name: t.s, args: []*SE{p.unary()}, pos: p.pos}
	}
	if t.k == "id" && (t.s == "forall" || t.s == "exists") {
		p.next()
		e := &SE{op: "quant", name: t.s, pos: p.pos}
		for {
			n := p.next().s
			ty := p.typeText(",", "::", "{")
			e.vars = append(e.vars, QV{n, ty})
			if p.accept(",") {
				continue
			}
			break
		}
		for p.accept("{") {
			var ps []*SE
			for {
				ps = append(ps, p.expr(0))
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			e.pats = append(e.pats, ps)
		}
		p.expect("::")
		e.args = []*SE{p.expr(0)}
		return e
	}
	if t.k == "id" && t.s == "let" {
		p.next()
		n := p.next().s
		p.expect("=")
		v := p.expr(0)
		p.expect(";")
		b := p.expr(0)
		return &SE{op: "let", name: n, args: []*SE{v, b}, pos: p.pos}
	}
	return p.postfix(p.primary())
}

func (p *sparser) primary() *SE {
	t := p.next()
	switch t.k {
	case "int":
		return &SE{op: "int", name: t.s, pos: p.pos}
	case "str":
		return &SE{op: "str", name: t.s, pos: p.pos}
	case "chr":
		return &SE{op: "chr", name: t.s, pos: p.pos}
	case "id":
		return &SE{op: "ident", name: t.s, pos: p.pos}
	case "op":
		if t.s == "(" {
			e := p.expr(0)
			p.expect(")")
			return e
		}
	}
	panic(fmt.Sprintf("%s: spec parse error at %q in %q", p.pos, t.s, p.src))
}

func (p *sparser) postfix(e *SE) *SE {
	for {
		switch {
		case p.accept("."):
			e = &SE{op: "sel", name: p.next().s, args: []*SE{e}, pos: p.pos}
		case p.accept("("):
			c := &SE{op: "call", args: []*SE{e}, pos: p.pos}
			for !p.isOp(")") {
				c.args = append(c.args, p.expr(0))
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			e = c
		case p.accept("["):
			if p.accept(":") {
				hi := p.expr(0)
				p.expect("]")
				e = &SE{op: "slice", args: []*SE{e, nil, hi}, pos: p.pos}
				continue
			}
			i := p.expr(0)
			if p.accept(":") {
				var hi *SE
				if !p.isOp("]") {
					hi = p.expr(0)
				}
				p.expect("]")
				e = &SE{op: "slice", args: []*SE{e, i, hi}, pos: p.pos}
				continue
			}
			p.expect("]")
			e = &SE{op: "index", args: []*SE{e, i}, pos: p.pos}
		default:
			return e
		}
	}
}

// ---- file parser: a clause starts on a line whose first word is a keyword.

var keywords = map[string]bool{"ghost": true, "const": true, "def": true, "ufun": true, "axiom": true, "func": true, "extern": true, "iface": true, "gvar": true,
	"props": true, "safety": true, "requires": true, "ensures": true, "modifies": true, "allocs": true, "set": true, "loop": true, "walk": true, "decreases": true, "step": true,
	"callback": true, "spawn": true, "guarded": true, "volatile": true, "pure": true, "inline": true, "mayblock": true, "maypanic": true, "blocks": true, "onsend": true, "ondel": true, "opt": true,
	"lockinv": true, "immutable": true, "}": true, "cbrequires": true, "cbensures": true, "cbmodifies": true, "cbset": true, "spawnrequires": true, "spawnensures": true, "spawnset": true, "sendset": true, "trusted": true, "lemma": true, "defn": true, "hook": true, "hookset": true, "use": true, "lib": true}

func (sf *SpecFile) parseFile(path string) {
	data, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	var items []item
	for n, line := range strings.Split(string(data), "\n") {
		if i := strings.Index(line, "//"); i >= 0 && !strings.Contains(line[:i], "\"") {
			line = line[:i]
		}
		s := strings.TrimSpace(line)
		if s == "" {
			continue
		}
		f := s
		if i := strings.IndexAny(s, " \t[("); i > 0 {
			f = s[:i]
		}
		if keywords[f] {
			items = append(items, item{f, strings.TrimSpace(s[len(f):]), fmt.Sprintf("%s:%d", path[strings.LastIndex(path, "/")+1:], n+1)})
		} else if len(items) > 0 {
			items[len(items)-1].rest += " " + s
		} else {
			panic(path + ": text before first clause")
		}
	}
	var cur *Contract
	var cb *CbSpec
	lib := sf.libs
	var libname string
	handle := func(it item) {}
	handle = func(it item) {
		props, label, rest := tagsOf(it.rest)
		mkClause := func() Clause {
			return Clause{label: label, props: props, e: parseExpr(rest, it.pos), text: rest, pos: it.pos}
		}
		switch it.kw {
		case "ghost":
			n, ty, _ := strings.Cut(it.rest, " ")
			sf.ghosts = append(sf.ghosts, QV{n, strings.TrimSpace(ty)})
		case "const":
			n, ty, _ := strings.Cut(it.rest, " ")
			sf.consts = append(sf.consts, QV{n, strings.TrimSpace(ty)})
		case "def":
			i := strings.Index(it.rest, "(")
			j := strings.Index(it.rest, ")")
			k := strings.Index(it.rest[j:], "=") + j
			d := &Def{name: strings.TrimSpace(it.rest[:i])}
			for _, x := range strings.Split(it.rest[i+1:j], ",") {
				if x = strings.TrimSpace(x); x != "" {
					d.params = append(d.params, strings.Fields(x)[0])
				}
			}
			d.body = parseExpr(it.rest[k+1:], it.pos)
			sf.defs[d.name] = d
		case "ufun":
			i := strings.Index(it.rest, "(")
			j := strings.LastIndex(it.rest, ")")
			u := &UFun{name: strings.TrimSpace(it.rest[:i]), ret: strings.TrimSpace(it.rest[j+1:])}
			for _, x := range strings.Split(it.rest[i+1:j], ",") {
				if x = strings.TrimSpace(x); x != "" {
					u.args = append(u.args, x)
				}
			}
			sf.ufuns[u.name] = u
		case "axiom":
			sf.axioms = append(sf.axioms, mkClause())
		case "lemma":
			// lemma[props] name(x T, y U): expr
			i := strings.Index(rest, "(")
			p := &sparser{t: lex(rest[i+1:]), pos: it.pos, src: rest}
			lm := &Lemma{name: strings.TrimSpace(rest[:i]), props: props, pos: it.pos, text: rest}
			for !p.accept(")") {
				n := p.next().s
				ty := p.typeText(",", ")")
				lm.vars = append(lm.vars, QV{n, ty})
				p.accept(",")
			}
			for p.accept("{") {
				var ps []*SE
				for {
					ps = append(ps, p.expr(0))
					if !p.accept(",") {
						break
					}
				}
				p.expect("}")
				lm.pats = append(lm.pats, ps)
			}
			p.expect(":")
			lm.e = p.expr(0)
			if p.peek().k != "eof" {
				panic(it.pos + ": trailing in lemma: " + p.peek().s)
			}
			sf.lemmas = append(sf.lemmas, lm)
		case "defn":
			// defn name(x T, y U) R = expr
			i := strings.Index(it.rest, "(")
			p := &sparser{t: lex(it.rest[i+1:]), pos: it.pos, src: it.rest}
			d := &Defn{name: strings.TrimSpace(it.rest[:i]), pos: it.pos}
			for !p.accept(")") {
				n := p.next().s
				d.vars = append(d.vars, QV{n, p.typeText(",", ")")})
				p.accept(",")
			}
			d.ret = p.typeText("=")
			p.expect("=")
			d.body = p.expr(0)
			if p.peek().k != "eof" {
				panic(it.pos + ": trailing in defn: " + p.peek().s)
			}
			sf.defns[d.name] = d
		case "hook":
			// hook set|del TYPE (m, k, v)
			k, r, _ := strings.Cut(it.rest, " ")
			i := strings.LastIndex(r, "(")
			h := &Hook{del: k == "del", typ: strings.TrimSpace(r[:i]), params: splitList(strings.Trim(r[i:], "()")), pos: it.pos}
			sf.hooks = append(sf.hooks, h)
		case "hookset":
			n, ex, ok := strings.Cut(rest, ":=")
			if !ok {
				panic(it.pos + ": hookset needs :=")
			}
			h := sf.hooks[len(sf.hooks)-1]
			h.sets = append(h.sets, Clause{label: strings.TrimSpace(n), props: props, e: parseExpr(ex, it.pos), text: rest, pos: it.pos})
		case "lockinv":
			cur.lockinv = append(cur.lockinv, mkClause())
		case "immutable":
			sf.immut = append(sf.immut, strings.Fields(it.rest)...)
		case "lib":
			libname = strings.Fields(it.rest)[0]
			lib[libname] = nil
		case "func", "extern", "iface", "gvar":
			cur = parseHeader(it.kw, it.rest, it.pos)
			cb = nil
			key := it.kw + ":" + cur.name
			if sf.contracts[key] != nil {
				panic(it.pos + ": duplicate contract " + key)
			}
			sf.contracts[key] = cur
			sf.order = append(sf.order, key)
			libname = ""
		case "use":
			tag := ""
			if strings.HasPrefix(it.rest, "[") {
				j := strings.Index(it.rest, "]")
				tag, it.rest = it.rest[:j+1]+" ", it.rest[j+1:]
			}
			for _, n := range strings.Fields(it.rest) {
				if _, ok := lib[n]; !ok {
					panic(it.pos + ": use of unknown lib " + n)
				}
				for _, x := range lib[n] {
					x.rest = tag + x.rest
					handle(x)
				}
			}
		case "props":
			cur.props = splitList(it.rest)
		case "safety":
			cur.safety = splitList(it.rest)
		case "requires":
			cur.requires = append(cur.requires, mkClause())
		case "ensures":
			cur.ensures = append(cur.ensures, mkClause())
		case "set", "spawnset", "cbset":
			n, ex, ok := strings.Cut(rest, ":=")
			if !ok {
				panic(it.pos + ": set needs :=")
			}
			c := Clause{label: strings.TrimSpace(n), props: props, e: parseExpr(ex, it.pos), text: rest, pos: it.pos}
			if it.kw == "cbset" {
				cb.sets = append(cb.sets, c)
			} else if it.kw == "set" {
				cur.sets = append(cur.sets, c)
			} else {
				cur.spawnSet = append(cur.spawnSet, c)
			}
		case "modifies", "allocs", "cbmodifies":
			for _, m := range splitTop(rest) {
				md := Mod{allo: it.kw == "allocs", props: props}
				m = strings.TrimSpace(m)
				if i := strings.Index(m, "@["); i >= 0 {
					md.comp = strings.TrimSpace(m[:i])
					for _, r := range splitTop(m[i+2 : len(m)-1]) {
						md.refs = append(md.refs, parseExpr(r, it.pos))
					}
				} else {
					md.comp = m
				}
				if it.kw == "cbmodifies" {
					cb.mods = append(cb.mods, md)
				} else {
					cur.mods = append(cur.mods, md)
				}
			}
		case "loop", "walk", "decreases":
			var ph []QV
			if strings.HasPrefix(rest, "(") {
				p := &sparser{t: lex(rest[1:]), pos: it.pos, src: rest}
				for !p.accept(")") {
					n := p.next().s
					ty := p.typeText(",", ")")
					ph = append(ph, QV{n, ty})
					p.accept(",")
				}
				if p.peek().k == "id" && p.t[p.i+1].k == "op" && p.t[p.i+1].s == ":" {
					label = p.next().s
					p.next()
				}
				e := p.expr(0)
				if p.peek().k != "eof" {
					panic(it.pos + ": trailing in loop clause: " + p.peek().s)
				}
				lt := LoopTpl{Clause: Clause{label: label, props: props, e: e, text: rest, pos: it.pos}, ph: ph, dec: it.kw == "decreases"}
				if it.kw == "walk" {
					cur.walks = append(cur.walks, lt)
				} else if cur == nil {
					sf.global = append(sf.global, lt)
				} else {
					cur.loops = append(cur.loops, lt)
				}
			} else {
				lt := LoopTpl{Clause: mkClause(), dec: it.kw == "decreases"}
				if it.kw == "walk" {
					cur.walks = append(cur.walks, lt)
				} else if cur == nil {
					sf.global = append(sf.global, lt)
				} else {
					cur.loops = append(cur.loops, lt)
				}
			}
		case "step":
			cur.steps = append(cur.steps, mkClause())
		case "ondel":
			i, j := strings.Index(rest, "("), strings.Index(rest, ")")
			od := OnDel{typ: strings.TrimSpace(rest[:i]), vars: splitList(rest[i+1 : j])}
			_, label, rest := tagsOf(strings.TrimSpace(rest[j+1:]))
			od.Clause = Clause{label: label, props: props, e: parseExpr(rest, it.pos), text: rest, pos: it.pos}
			cur.ondel = append(cur.ondel, od)
		case "onsend":
			i, j := strings.Index(rest, "("), strings.Index(rest, ")")
			cur.onvars = splitList(rest[i+1 : j])
			_, label, rest = tagsOf(strings.TrimSpace(rest[j+1:]))
			cur.onsend = append(cur.onsend, Clause{label: label, props: props, e: parseExpr(rest, it.pos), text: rest, pos: it.pos})
		case "sendset":
			i, j := strings.Index(rest, "("), strings.Index(rest, ")")
			cur.onvars = splitList(rest[i+1 : j])
			n, ex, ok := strings.Cut(rest[j+1:], ":=")
			if !ok {
				panic(it.pos + ": sendset needs :=")
			}
			cur.sendSet = append(cur.sendSet, Clause{label: strings.TrimSpace(n), props: props, e: parseExpr(ex, it.pos), text: rest, pos: it.pos})
		case "callback":
			h := parseHeader("cb", it.rest, it.pos)
			cb = &CbSpec{name: h.name, params: h.params, results: h.results}
			if cur.cbs == nil {
				cur.cbs = map[string]*CbSpec{}
			}
			cur.cbs[cb.name] = cb
		case "cbrequires":
			cb.requires = append(cb.requires, mkClause())
		case "cbensures":
			cb.ensures = append(cb.ensures, mkClause())
		case "spawn":
			cur.hasSpawn = true
			cur.spawnP = splitList(strings.Trim(it.rest, "()"))
		case "spawnrequires":
			cur.spawnReq = append(cur.spawnReq, mkClause())
		case "spawnensures":
			cur.spawnEns = append(cur.spawnEns, mkClause())
		case "guarded", "volatile":
			ls, cs, _ := strings.Cut(rest, ":")
			g := Guard{lock: parseExpr(ls, it.pos), pos: it.pos, props: props, vol: it.kw == "volatile"}
			for _, c := range splitTop(cs) {
				g.comps = append(g.comps, strings.TrimSpace(c))
			}
			cur.guarded = append(cur.guarded, g)
		case "pure":
			cur.pure = true
		case "inline":
			cur.inline = true
		case "mayblock":
			cur.mayblock = true
		case "maypanic":
			cur.maypanic = true
		case "blocks":
			cur.blocks = true
		case "trusted":
			cur.trusted = true
		case "opt":
			k, v, _ := strings.Cut(it.rest, " ")
			if cur.opts == nil {
				cur.opts = map[string]string{}
			}
			cur.opts[k] = strings.TrimSpace(v)
		case "}":
		}
	}
	for _, it := range items {
		if libname != "" && it.kw != "func" && it.kw != "extern" && it.kw != "iface" && it.kw != "gvar" && it.kw != "lib" {
			lib[libname] = append(lib[libname], it)
			continue
		}
		handle(it)
	}
}

// tagsOf splits "[C01 C02] label: expr".
func tagsOf(s string) (props []string, label, rest string) {
	if strings.HasPrefix(s, "[") {
		j := strings.Index(s, "]")
		props = strings.Fields(s[1:j])
		s = strings.TrimSpace(s[j+1:])
	}
	// label: identifier followed by ':' (not '::' or ':=')
	i := 0
	for i < len(s) && (s[i] >= 'a' && s[i] <= 'z' || s[i] >= 'A' && s[i] <= 'Z' || s[i] >= '0' && s[i] <= '9' || s[i] == '_' || s[i] == '-') {
		i++
	}
	if i > 0 && i+1 < len(s) && s[i] == ':' && s[i+1] != ':' && s[i+1] != '=' && !(i == 1 && strings.ContainsAny(s[:1], "MSFVGL") && s[i+1] != ' ') {
		return props, s[:i], strings.TrimSpace(s[i+1:])
	}
	return props, "", s
}

func splitList(s string) []string {
	return strings.FieldsFunc(s, func(r rune) bool { return r == ' ' || r == ',' || r == '\t' })
}
func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				out = append(out, s[st:i])
				st = i + 1
			}
		}
	}
	if strings.TrimSpace(s[st:]) != "" {
		out = append(out, s[st:])
	}
	return out
}

func parseHeader(kind, s, pos string) *Contract {
	c := &Contract{kind: kind, pos: pos}
	s = strings.TrimSpace(strings.TrimSuffix(strings.TrimSpace(s), "{"))
	// name(params) (results); the name may itself start with "(" as in (*T).m
	i := 0
	if strings.HasPrefix(s, "(") {
		i = strings.Index(s, ")")
	}
	j := strings.Index(s[i:], "(")
	if strings.HasPrefix(s, "(") {
		j = strings.Index(s[i+1:], "(")
		if j >= 0 {
			j++
		}
	}
	if j < 0 {
		c.name = s
		return c
	}
	j += i
	c.name = strings.TrimSpace(s[:j])
	k := strings.Index(s[j:], ")") + j
	c.params = splitList(s[j+1 : k])
	r := strings.TrimSpace(s[k+1:])
	r = strings.Trim(r, "()")
	c.results = splitList(r)
	return c
}

func loadSpecs(dir string, files []string) *SpecFile {
	sf := &SpecFile{libs: map[string][]item{}, defns: map[string]*Defn{}, defs: map[string]*Def{}, ufuns: map[string]*UFun{}, contracts: map[string]*Contract{}}
	for _, f := range files {
		sf.parseFile(dir + "/" + f)
	}
	return sf
}

func inProps(ps []string, p string) bool {
	if len(ps) == 0 || p == "*" {
		return true
	}
	for _, x := range ps {
		if x == p {
			return true
		}
	}
	return false
}
