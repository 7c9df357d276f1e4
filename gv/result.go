package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"
)

type FuncRes struct {
	Name        string  `json:"name"`
	Obligations int     `json:"obligations"`
	Proved      int     `json:"proved"`
	Invariants  int     `json:"loop_invariant_obligations"`
	Dropped     int     `json:"candidates_dropped"`
	Paths       int     `json:"paths"`
	Seconds     float64 `json:"seconds"`
	Error       string  `json:"error,omitempty"`
}

type OpenObl struct {
	Name, Kind, Func, Label, Pos, Path, Detail, Status string
}

type Result struct {
	Hinted bool `json:"hinted"`
	Prop, Tier    string
	Functions     []FuncRes
	Obligations   int
	Proved        int
	Covers        int
	ByKind        map[string]int
	Open          []OpenObl
	Seconds       float64
	SolverSeconds float64
	Queries       int
	Backends      map[string]int
	Trusted       []string
	Unknown       []string
	Inlined       []string
	Samples       []string
	Lemmas        int
	CrossChecked  int
	LoadError     string
}

func (r *Result) add(t *Tool, fr *FuncResult, obls []*Obl) {
	if r.ByKind == nil {
		r.ByKind = map[string]int{}
	}
	f := FuncRes{}
	if fr != nil {
		f = FuncRes{Name: fr.c.name, Invariants: fr.invs, Dropped: fr.dropped, Paths: fr.paths, Seconds: fr.secs, Error: fr.err}
		if fr.err != "" {
			r.Obligations++
			r.Open = append(r.Open, OpenObl{Name: fr.c.name + "/encode", Kind: "encode", Func: fr.c.name, Label: "function within the verifier's reach", Detail: fr.err, Status: "unknown"})
		}
	}
	coverBad := map[string][2]int{}
	for _, o := range obls {
		if o.Cover {
			c := coverBad[o.Name]
			c[0]++
			if o.Status == "failed" {
				c[1]++
			}
			coverBad[o.Name] = c
			continue
		}
		r.Obligations++
		f.Obligations++
		r.ByKind[o.Kind]++
		if o.Kind == "lemma" {
			r.Lemmas++
		}
		if o.Status == "proved" {
			r.Proved++
			f.Proved++
			if len(r.Samples) < 12 && o.Kind != "safety" && o.Solver != "simplifier" {
				r.Samples = append(r.Samples, fmt.Sprintf("%s %s (%s, %.2fs)", o.Name, o.Pos, o.Solver, o.Time))
			}
			continue
		}
		r.Open = append(r.Open, OpenObl{o.Name, o.Kind, o.Func, o.Label, o.Pos, o.Path, o.Detail, o.Status})
	}
	// a contract is vacuous when its entry, or every exit, is unreachable
	for n, c := range coverBad {
		r.Covers++
		if c[1] == c[0] {
			r.Obligations++
			r.Open = append(r.Open, OpenObl{Name: n, Kind: "cover", Func: f.Name, Detail: "assumptions are contradictory: nothing is really checked here", Status: "failed"})
		}
	}
	if fr != nil {
		r.Functions = append(r.Functions, f)
	}
}

func (r *Result) write(path string) {
	b, _ := json.MarshalIndent(r, "", " ")
	os.WriteFile(path, b, 0o644)
}

// loadAxioms evaluates the axioms of the contract files.
func (t *Tool) loadAxioms() (err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(specErr); ok {
				err = fmt.Errorf("axiom: %s", e.msg)
				return
			}
			panic(r)
		}
	}()
	fv := &FV{t: t, c: &Contract{}, env0: map[string]Val{}}
	for _, a := range t.sf.axioms {
		if !inProps(a.props, t.prop) {
			continue
		}
		st := &State{heap: map[string]*Term{}, cells: map[string]Val{}}
		fv.entry = st
		env := &Env{fv: fv, names: map[string]Val{}, st: st, old: st}
		t.axs = append(t.axs, fv.spec(env, a.e))
	}
	return nil
}

// LemAx is a proved lemma as the functions use it.
type LemAx struct {
	ax   *Term
	only string     // "" or the name under which a contract has to ask for it
	syms [][]string // for each trigger the function symbols that must occur
}

// lemmas proves the lemmas tagged for the property from the definitions of
// the functions they speak about; those with triggers are then available when
// functions are verified.
func (t *Tool) lemmas(b Budget) []*Obl {
	var out []*Obl
	fv := &FV{t: t, c: &Contract{}, env0: map[string]Val{}}
	st := &State{heap: map[string]*Term{}, cells: map[string]Val{}}
	fv.entry = st
	for _, l := range t.sf.lemmas {
		if !inProps(l.props, t.prop) {
			continue
		}
		names := map[string]Val{}
		for _, v := range l.vars {
			names[v.name] = freshVal("lem."+v.name, t.typ(v.typ))
			if ty := t.typ(v.typ); isMapType(ty) {
				names[v.name] = Val{Typ: ty, T: Fresh("lem."+v.name, ghostSort(ty)), Gh: true}
			}
		}
		env := &Env{fv: fv, names: names, st: st, old: st, open: true}
		o := &Obl{Kind: "lemma", Name: "lemma/" + l.name, Label: l.name, Pos: l.pos, Goal: fv.spec(env, l.e)}
		out = append(out, o)
		if len(l.pats) > 0 {
			var vars []*Term
			e2 := &Env{fv: fv, names: map[string]Val{}, st: st, old: st}
			for _, v := range l.vars {
				ty := t.typ(v.typ)
				b := BVar(v.name, ghostSort(ty))
				vars = append(vars, b)
				e2.names[v.name] = Val{Typ: ty, T: b, Gh: isMapType(ty)}
			}
			body := fv.spec(e2, l.e)
			la := &LemAx{}
			if strings.HasPrefix(l.name, "~") {
				la.only = l.name[1:]
			}
			var pats [][]*Term
			for _, p := range l.pats {
				var q []*Term
				var ss []string
				for _, x := range p {
					v := e2.ev(x)
					q = append(q, v.T)
					ss = append(ss, opSyms(v.T)...)
				}
				pats = append(pats, q)
				la.syms = append(la.syms, ss)
			}
			la.ax = Quant("forall", vars, body, pats)
			t.lemAx = append(t.lemAx, la)
		}
	}
	t.solveAll(out, b, b.final)
	return out
}

// opSyms lists the functions a term applies.
func opSyms(t *Term) []string {
	var out []string
	switch {
	case t.op == "uf":
		out = append(out, t.name)
	case strings.HasPrefix(t.op, "str.") || t.op == "gosub" || t.op == "byteat":
		out = append(out, t.op)
	}
	for _, a := range t.args {
		out = append(out, opSyms(a)...)
	}
	return out
}

// unfoldings gives the definitions a contract asks for.
func (t *Tool) unfoldings(c *Contract) []*LemAx {
	var out []*LemAx
	for _, l := range t.lemAx {
		if l.only == "" || inList(strings.Fields(c.opts["lemmas"]), l.only) {
			out = append(out, l)
		}
	}
	for _, n := range strings.Fields(c.opts["unfold"]) {
		d := t.sf.defns[n]
		if d == nil {
			panic(specErr{c.pos + ": unfold of unknown function " + n})
		}
		fv := &FV{t: t, c: &Contract{}, env0: map[string]Val{}}
		st := &State{heap: map[string]*Term{}, cells: map[string]Val{}}
		fv.entry = st
		e := &Env{fv: fv, names: map[string]Val{}, st: st, old: st}
		var vars []*Term
		var vs []Val
		for _, v := range d.vars {
			ty := t.typ(v.typ)
			b := BVar(v.name, ghostSort(ty))
			vars = append(vars, b)
			vs = append(vs, Val{Typ: ty, T: b, Gh: isMapType(ty)})
		}
		l := e.defn(d, vs)
		r := e.defnBody(d, vs)
		out = append(out, &LemAx{ax: Quant("forall", vars, Eq(l.T, r.T), [][]*Term{{l.T}}), syms: [][]string{{"d:" + d.name}}})
	}
	return out
}
