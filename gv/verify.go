package main

import (
	"context"
	"fmt"
	"go/types"
	"os"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type FuncResult struct {
	c         *Contract
	obls      []*Obl
	err       string
	paths     int
	exits     int
	rounds    int
	secs      float64
	invs      int
	dropped   int
	hinted    int
	missing   bool
	deadCands []string
}

func (t *Tool) newFV(c *Contract, fn *ssa.Function) *FV {
	return &FV{t: t, c: c, fn: fn, loops: map[string]*LoopInfo{}, limit: 20000, dead: map[string]bool{}, spawned: map[string]bool{}}
}

// assumeEntry puts the facts that hold in every state of a running program.
func (fv *FV) assumeEntry(st *State) {
	st.assume(Le(IntC(1), fv.get(st, "alloc", SInt)))
	if fv.t.initSet == nil {
		fv.t.initSet = map[*Term]bool{}
	}
	for _, f := range fv.t.initFacts(fv, st) {
		fv.t.initSet[f] = true
		st.assume(f)
	}
}

func (fv *FV) setup() (*State, *Frame) {
	st := &State{heap: map[string]*Term{}, cells: map[string]Val{}, acq: map[string]int{}}
	fr := &Frame{fn: fv.fn, regs: map[ssa.Value]Val{}, loops: map[*ssa.BasicBlock]*LoopAct{}, entry: true}
	fv.env0 = map[string]Val{}
	fv.guardMemo = nil
	fv.entry = st
	fv.assumeEntry(st)
	ps := fv.fn.Params
	if len(fv.c.params) != len(ps) {
		panic(execErr{fmt.Sprintf("%s: contract of %s names %d parameters, the function has %d", fv.c.pos, fv.c.name, len(fv.c.params), len(ps))})
	}
	for i, p := range ps {
		n := fv.c.params[i]
		v := fv.paramVal(st, n, p.Type())
		fr.regs[p] = v
		if n != "_" {
			fv.env0[n] = v
		}
	}
	env := fv.env(st)
	for _, r := range fv.c.requires {
		if inProps(r.props, fv.t.prop) {
			st.assume(fv.spec(env, r.e))
		}
	}
	fv.entry = st.clone()
	return st, fr
}

func (fv *FV) paramVal(st *State, n string, ty types.Type) Val {
	if _, ok := under(ty).(*types.Signature); ok {
		if cb := fv.c.cbs[n]; cb != nil {
			return Val{Typ: ty, Fn: &Closure{Cb: &Callback{Name: n, Spec: cb, Sig: under(ty).(*types.Signature)}}}
		}
	}
	v := build(ty, func(l Leaf) *Term { return Const("p:"+n+l.Path, l.Sort) })
	fv.wf(st, v)
	return v
}

func (fv *FV) exec() (err error) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case execErr:
				err = fmt.Errorf("%s", e.msg)
			case specErr:
				err = fmt.Errorf("spec: %s", e.msg)
			default:
				if os.Getenv("GV_PANIC") != "" {
					panic(r)
				}
				err = fmt.Errorf("internal: %v", r)
			}
		}
	}()
	fv.obls, fv.paths, fv.exits = nil, 0, 0
	fv.spawned = map[string]bool{}
	fv.folded = map[string]bool{}
	fv.inSpawn = false
	st, fr := fv.setup()
	fv.obls = append(fv.obls, &Obl{Kind: "cover", Func: fv.c.name, unf: fv.unf, Label: "entry", Name: fv.c.name + "/cover/entry", Hyps: st.pc[:len(st.pc):len(st.pc)], Goal: tFalse, Cover: true})
	fr.ret = func(s *State, res []Val) { fv.atExit(s, res) }
	fv.block(st, fr, fv.fn.Blocks[0], 0)
	return nil
}

func (fv *FV) atExit(st *State, res []Val) {
	fv.exits++
	env := fv.env(st)
	env.names = copyNames(fv.env0)
	for i, p := range fv.c.results {
		if i < len(res) && p != "_" {
			env.names[p] = res[i]
		}
	}
	pre := map[string]*Term{}
	for k, v := range st.heap {
		pre[k] = v
	}
	fv.runSets(st, env, fv.c.sets)
	setG := map[string]bool{}
	for _, s := range fv.c.sets {
		setG["G:"+s.label] = true
	}
	for _, e := range fv.c.ensures {
		if !inProps(e.props, fv.t.prop) {
			continue
		}
		for i, g := range conjuncts(fv.spec(env, e.e)) {
			lb := clauseName(e)
			if i > 0 {
				lb = fmt.Sprintf("%s#%d", lb, i)
			}
			fv.obl(st, "ensures", lb, e.pos, g, nil)
		}
	}
	// frame
	al := fv.get(fv.entry, "alloc", SInt)
	for _, c := range sortedKeys(pre) {
		if c == "alloc" || strings.HasPrefix(c, "L:") || setG[c] || fv.merging() {
			continue
		}
		so := compSort[c]
		old := fv.get(fv.entry, c, so)
		if pre[c] == old {
			continue
		}
		full, refs := fv.modsOf(c)
		if full {
			continue
		}
		var g *Term
		if strings.HasPrefix(c, "G:") || strings.HasPrefix(c, "V:") {
			if refs == nil {
				g = Eq(pre[c], old)
			} else {
				ks, _ := so.split()
				q := Fresh("frm", ks)
				var d []*Term
				for _, r := range refs {
					d = append(d, Eq(q, r))
				}
				g = Or(Or(d...), Eq(Select(pre[c], q), Select(old, q)))
			}
		} else {
			q := Fresh("frm", SRef)
			d := []*Term{Le(al, q)}
			for _, r := range refs {
				d = append(d, Eq(q, r))
			}
			g = Or(Or(d...), Eq(Select(pre[c], q), Select(old, q)))
		}
		fv.obl(st, "frame", "only the declared parts of "+c+" change", fv.c.pos, g, nil)
	}
	fv.exitLocks(st, "exit")
	fv.obls = append(fv.obls, &Obl{Kind: "cover", Func: fv.c.name, unf: fv.unf, Label: "exit", Name: fv.c.name + "/cover/exit", Path: strings.Join(st.trace, " "), Hyps: st.pc[:len(st.pc):len(st.pc)], Goal: tFalse, Cover: true})
}

func conjuncts(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	return []*Term{t}
}

// verifyFunc verifies one function.  Loop invariant candidates that are known
// to fail (hints) are left out at first; if that leaves anything open, the
// function is verified again with all of them.
func (t *Tool) verifyFunc(c *Contract, budget Budget) *FuncResult {
	r := t.verifyWith(c, budget, true)
	open := r.err != ""
	for _, o := range r.obls {
		open = open || !o.Cover && o.Status != "proved"
	}
	if open && r.hinted > 0 && !r.missing && allCands {
		if t.verbose {
			fmt.Printf("  %s: once more with all candidates\n", c.name)
		}
		r = t.verifyWith(c, budget, false)
	}
	return r
}

func (t *Tool) verifyWith(c *Contract, budget Budget, hinted bool) *FuncResult {
	start := time.Now()
	r := &FuncResult{c: c}
	defer func() { r.secs = time.Since(start).Seconds() }()
	fn := t.funcs[c.name]
	if fn == nil || len(fn.Blocks) == 0 {
		r.missing = true
		r.err = "function not found in the current tree"
		return r
	}
	fv := t.newFV(c, fn)
	fv.unf = t.unfoldings(c)
	if hinted {
		for h := range t.hints {
			if k, ok := strings.CutPrefix(h, t.prop+"|"+c.name+"|"); ok {
				fv.dead[k] = true
				r.hinted++
			}
		}
	}
	for {
		r.rounds++
		if r.rounds > 60 {
			r.err = "invariant search does not converge"
			return r
		}
		// discover what the loops change
		for n := 0; ; n++ {
			fv.again = false
			fv.disc = true
			if err := fv.exec(); err != nil {
				r.err = err.Error()
				return r
			}
			if !fv.again {
				break
			}
			if n > 30 {
				r.err = "loop effects do not converge"
				return r
			}
		}
		fv.disc = false
		if err := fv.exec(); err != nil {
			r.err = err.Error()
			return r
		}
		var inv, rest []*Obl
		for _, o := range fv.obls {
			if o.cand != nil {
				inv = append(inv, o)
			} else {
				rest = append(rest, o)
			}
		}
		if t.verbose {
			fmt.Printf("  %s round %d: %d paths, %d invariant obligations, %d others\n", c.name, r.rounds, fv.paths, len(inv), len(rest))
		}
		// a failing obligation kills its candidate
		kills := t.houdini(fv, inv, budget)
		if kills > 0 {
			r.dropped += kills
			continue
		}
		r.obls = append(rest, inv...)
		for _, k := range sortedSet(fv.folded) {
			kind, label, _ := strings.Cut(k, " ")
			r.obls = append(r.obls, &Obl{Kind: kind, Func: c.name, Label: label, Name: c.name + "/" + kind + "/" + label, Goal: tTrue, Status: "proved", Solver: "simplifier"})
		}
		r.invs = len(inv)
		t.solveAll(rest, budget, budget.final)
		break
	}
	r.paths, r.exits = fv.paths, fv.exits
	for k := range fv.dead {
		r.deadCands = append(r.deadCands, t.prop+"|"+c.name+"|"+k)
	}
	return r
}

var dumpN int

type Budget struct {
	inv, final int // ms
	only       string
	twice      bool
}

func (t *Tool) houdini(fv *FV, inv []*Obl, b Budget) int {
	var mu sync.Mutex
	kills := 0
	kill := func(o *Obl, why string) {
		mu.Lock()
		defer mu.Unlock()
		if o.cand.dead {
			return
		}
		o.cand.dead = true
		fv.dead[o.cand.loop+"|"+o.cand.key] = true
		kills++
		if t.verbose {
			fmt.Printf("    drop %s (%s %s; %s)\n", o.cand.key, o.Kind, o.Pos, why)
		}
	}
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	for _, o := range inv {
		wg.Add(1)
		sem <- struct{}{}
		go func(o *Obl) {
			defer wg.Done()
			defer func() { <-sem }()
			mu.Lock()
			d := o.cand.dead
			mu.Unlock()
			if d {
				return
			}
			t.solveObl(o, b.inv, b.only)
			if o.Status != "proved" {
				kill(o, o.Detail)
			}
		}(o)
	}
	wg.Wait()
	return kills
}

func (t *Tool) solveObl(o *Obl, ms int, only string) {
	if !t.deadline.IsZero() && time.Now().After(t.deadline) {
		o.Status, o.Detail = "unknown", "not tried: the time for this run is used up"
		return
	}
	if o.Goal.op == "true" && !o.Cover {
		o.Status, o.Solver = "proved", "simplifier"
		return
	}
	for _, h := range o.Hyps {
		if h == o.Goal && !o.Cover {
			o.Status, o.Solver = "proved", "simplifier"
			return
		}
	}
	termMu.Lock()
	abs, q := t.query(o)
	termMu.Unlock()
	if d := os.Getenv("GV_DUMP"); d != "" && strings.Contains(o.Name, d) {
		dumpN++
		os.WriteFile(fmt.Sprintf("/tmp/gvdump-%d-abs.smt2", dumpN), []byte(abs), 0o644)
		os.WriteFile(fmt.Sprintf("/tmp/gvdump-%d-full.smt2", dumpN), []byte("; "+o.Name+" "+o.Path+"\n"+q), 0o644)
	}
	if o.Cover {
		r := t.solver.solve(q, 1500, "cvc5")
		o.Solver, o.Time = r.who, r.time
		if r.status == "unsat" {
			o.Status = "failed"
			o.Detail = "the assumptions contradict each other"
		} else {
			o.Status = "proved"
		}
		return
	}
	if abs != "" {
		// first without the theory of strings: fewer facts, so only a proof counts
		n := ms
		if only == "" {
			for _, x := range []string{abs, q} {
				r := t.solver.solve(x, 1500, "=cvc5")
				if r.status == "unsat" {
					o.Solver, o.Time, o.Status = r.who, r.time, "proved"
					return
				}
			}
			// both forms at once
			ctx, cancel := context.WithCancel(context.Background())
			ch := make(chan solveRes, 2)
			go func() {
				r := t.solver.solveCtx(ctx, abs, n, only)
				if r.status == "unsat" {
					ch <- r
				}
			}()
			go func() { ch <- t.solver.solveCtx(ctx, q, ms, only) }()
			r := <-ch
			if r.status != "unsat" {
				select {
				case r2 := <-ch:
					r = r2
				default:
				}
			}
			cancel()
			t.settle(o, r, abs, q)
			return
		}
		r := t.solver.solve(abs, n, only)
		if r.status == "unsat" {
			o.Solver, o.Time, o.Status = r.who, r.time, "proved"
			return
		}
	}
	t.settle(o, t.solver.solve(q, ms, only), abs, q)
}

func (t *Tool) settle(o *Obl, r solveRes, abs, q string) {
	o.Solver, o.Time = r.who, r.time
	switch r.status {
	case "unsat":
		o.Status = "proved"
	case "sat":
		o.Status = "failed"
		o.Detail = "counterexample found by " + r.who
	default:
		o.Status = "unknown"
		o.Detail = strings.Split(r.out+"\n", "\n")[0]
	}
	if keepQueries && o.Status != "proved" {
		nm := o.Name + "-" + o.Pos
		if o.cand != nil {
			nm = o.Kind + "-" + o.cand.key + "-" + o.Pos
		}
		os.WriteFile(fmt.Sprintf("%s/fail-%s.smt2", t.solver.dir, sanitize(nm)), []byte(q), 0o644)
		if abs != "" {
			os.WriteFile(fmt.Sprintf("%s/fail-%s.abs.smt2", t.solver.dir, sanitize(nm)), []byte(abs), 0o644)
		}
	}
}

var termMu sync.Mutex

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' || r == '.' {
			return r
		}
		return '_'
	}, s)
}

func (t *Tool) solveAll(os []*Obl, b Budget, ms int) {
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	for _, o := range os {
		wg.Add(1)
		sem <- struct{}{}
		go func(o *Obl) {
			defer wg.Done()
			defer func() { <-sem }()
			t.solveObl(o, ms, b.only)
		}(o)
	}
	wg.Wait()
	for _, o := range os {
		if t.verbose && o.Status != "proved" {
			fmt.Printf("    %-8s %s %s  [%s]  (%s)\n", o.Status, o.Name, o.Pos, o.Path, o.Detail)
		}
	}
}
