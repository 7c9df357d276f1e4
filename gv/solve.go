package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

type SolverPool struct {
	slots    chan struct{}
	mu       sync.Mutex
	cache    map[[32]byte]solveRes
	inflight map[[32]byte]chan struct{}
	dir      string
	total    float64
	queries  int
	byWho    map[string]int
}

type solveRes struct {
	status string // unsat, sat, unknown
	who    string
	time   float64
	out    string
	to     int
}

func newPool(n int, dir string) *SolverPool {
	return &SolverPool{slots: make(chan struct{}, n), cache: map[[32]byte]solveRes{}, inflight: map[[32]byte]chan struct{}{}, dir: dir, byWho: map[string]int{}}
}

type backend struct {
	name string
	cmd  func(file string, ms int) []string
}

var backends = []backend{
	{"cvc5", func(f string, ms int) []string {
		return []string{"cvc5", "--lang=smt2", "--strings-exp", fmt.Sprintf("--tlimit=%d", ms), f}
	}},
	{"z3-new", func(f string, ms int) []string {
		return []string{"z3-new", fmt.Sprintf("-T:%d", (ms+999)/1000), f}
	}},
	{"z3", func(f string, ms int) []string {
		return []string{"z3", fmt.Sprintf("-T:%d", (ms+999)/1000), f}
	}},
	{"cvc5-fsq", func(f string, ms int) []string {
		return []string{"cvc5", "--lang=smt2", "--strings-exp", "--full-saturate-quant", fmt.Sprintf("--tlimit=%d", ms), f}
	}},
}

func (p *SolverPool) run(ctx context.Context, b backend, file string, ms int) (string, string, float64) {
	select {
	case p.slots <- struct{}{}:
	case <-ctx.Done():
		return "unknown", "cancelled", 0
	}
	defer func() { <-p.slots }()
	if ctx.Err() != nil {
		return "unknown", "cancelled", 0
	}
	a := b.cmd(file, ms)
	c2, cancel := context.WithTimeout(ctx, time.Duration(ms+2000)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(c2, a[0], a[1:]...)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	st := time.Now()
	cmd.Run()
	el := time.Since(st).Seconds()
	p.mu.Lock()
	p.total += el
	p.queries++
	p.mu.Unlock()
	s := strings.TrimSpace(out.String())
	first := s
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		first = s[:i]
	}
	switch first {
	case "unsat", "sat":
		return first, s, el
	}
	return "unknown", s, el
}

// solve decides a query with the portfolio. ms is the budget per back end.
func (p *SolverPool) solve(q string, ms int, only string) solveRes {
	return p.solveCtx(context.Background(), q, ms, only)
}

func (p *SolverPool) solveCtx(ctx0 context.Context, q string, ms int, only string) solveRes {
	key := sha256.Sum256([]byte(q + "|" + only))
	for {
		p.mu.Lock()
		r, ok := p.cache[key]
		if ok && (r.status != "unknown" || r.to >= ms) {
			p.mu.Unlock()
			return r
		}
		ch := p.inflight[key]
		if ch == nil {
			ch = make(chan struct{})
			p.inflight[key] = ch
			p.mu.Unlock()
			defer func() {
				p.mu.Lock()
				delete(p.inflight, key)
				p.mu.Unlock()
				close(ch)
			}()
			break
		}
		p.mu.Unlock()
		<-ch
	}
	file := filepath.Join(p.dir, fmt.Sprintf("q%x.smt2", key[:8]))
	os.WriteFile(file, []byte(q), 0o644)
	if !keepQueries {
		defer os.Remove(file)
	}
	res := solveRes{status: "unknown", to: ms}
	st := time.Now()
	rec := func(name, s, out string) bool {
		if s != "unknown" {
			res.status, res.who, res.out = s, name, out
			return true
		}
		if res.out == "" {
			res.out = name + ": " + out
		}
		return false
	}
	bs := backends
	if only != "" {
		bs = nil
		for _, b := range backends {
			if strings.HasPrefix(b.name, only) || only == "="+b.name {
				bs = append(bs, b)
			}
		}
	}
	done := false
	quick := 1500
	if ms < quick {
		quick = ms
	}
	{
		s, out, _ := p.run(ctx0, bs[0], file, quick)
		done = rec(bs[0].name, s, out)
	}
	if !done && ms > quick || !done && len(bs) > 1 {
		ctx, cancel := context.WithCancel(ctx0)
		type rr struct{ n, s, out string }
		ch := make(chan rr, len(bs))
		for i, b := range bs {
			if i == 0 && ms <= quick {
				ch <- rr{b.name, "unknown", ""}
				continue
			}
			go func(b backend) {
				s, out, _ := p.run(ctx, b, file, ms)
				ch <- rr{b.name, s, out}
			}(b)
		}
		for range bs {
			x := <-ch
			if !done && rec(x.n, x.s, x.out) {
				done = true
				cancel()
			}
		}
		cancel()
	}
	res.time = time.Since(st).Seconds()
	p.mu.Lock()
	if res.status != "unknown" || ctx0.Err() == nil {
		p.cache[key] = res
	}
	if res.status != "unknown" {
		p.byWho[res.who]++
	}
	p.mu.Unlock()
	return res
}

var keepQueries = os.Getenv("GV_KEEP") != ""

// cardFacts gives the ground facts about the sizes of the finite sets that
// occur in the query.
func cardFacts(as []*Term) []*Term {
	seen := map[*Term]bool{}
	var cards []*Term
	sets := map[*Term]bool{}
	var visit func(t *Term)
	var addCard func(d *Term)
	var facts []*Term
	addCard = func(d *Term) {
		if sets[d] || d.bound {
			return
		}
		sets[d] = true
		c := Card(d)
		cards = append(cards, c)
		switch d.op {
		case "constarr":
			if d.args[0].op == "false" {
				facts = append(facts, Eq(c, IntC(0)))
			}
			return
		case "store":
			p := d.args[0]
			addCard(p)
			visit(p)
			was := Select(p, d.args[1])
			is := d.args[2]
			facts = append(facts, Eq(c, Add(Card(p), Sub(Ite(is, IntC(1), IntC(0)), Ite(was, IntC(1), IntC(0))))))
		case "ite":
			addCard(d.args[1])
			addCard(d.args[2])
			facts = append(facts, Eq(c, Ite(d.args[0], Card(d.args[1]), Card(d.args[2]))))
		}
		ks, _ := d.sort.split()
		q := BVar("k", ks)
		w1 := UF("wit1:"+string(ks), ks, d)
		w2 := UF("wit2:"+string(ks), ks, d)
		facts = append(facts, Le(IntC(0), c))
		facts = append(facts, Quant("forall", []*Term{q}, Implies(Select(d, q), Le(IntC(1), c)), [][]*Term{{Select(d, q)}}))
		facts = append(facts, Implies(Le(IntC(1), c), Select(d, w1)))
		facts = append(facts, Implies(Le(IntC(2), c), And(Select(d, w2), Not(Eq(w1, w2)))))
		facts = append(facts, Implies(Eq(c, IntC(1)), Quant("forall", []*Term{q}, Implies(Select(d, q), Eq(q, w1)), [][]*Term{{Select(d, q)}})))
	}
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "uf" && strings.HasPrefix(t.name, "card:") {
			addCard(t.args[0])
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	for _, a := range as {
		visit(a)
	}
	// equal rows have equal sizes: congruence of the function does that
	return facts
}

// query renders an obligation twice: with the operations on strings
// uninterpreted (empty when it has none: the second form is then the same), and in full.
func (t *Tool) query(o *Obl) (abs, full string) {
	var as []*Term
	as = append(as, t.axs...)
	var ini []*Term
	dup := map[*Term]bool{}
	for _, h := range o.Hyps {
		if dup[h] {
			continue
		}
		dup[h] = true
		if t.initSet[h] {
			ini = append(ini, h)
		} else {
			as = append(as, h)
		}
	}
	if !o.Cover {
		as = append(as, Not(instances(o.Goal, map[*Term]*Term{})))
	}
	// facts about package variables are used only where those occur
	syms := map[string]bool{}
	seen := map[*Term]bool{}
	for _, a := range as {
		globSyms(a, syms, seen)
	}
	for _, h := range ini {
		hs := map[string]bool{}
		globSyms(h, hs, map[*Term]bool{})
		use := true
		for s := range hs {
			use = use && syms[s]
		}
		if use {
			as = append(as, h)
		}
	}
	// proved lemmas and definitions, where the functions they speak about occur
	have := map[string]bool{}
	hseen := map[*Term]bool{}
	for _, a := range as {
		collectOps(a, have, hseen)
	}
	if o.Kind != "lemma" {
		pend := append([]*LemAx(nil), o.unf...)
		for again := true; again; {
			again = false
			var rest []*LemAx
			for _, l := range pend {
				use := false
				for _, ss := range l.syms {
					ok := true
					for _, x := range ss {
						ok = ok && have[x]
					}
					use = use || ok
				}
				if use {
					as = append(as, l.ax)
					collectOps(l.ax, have, hseen)
					again = true
				} else {
					rest = append(rest, l)
				}
			}
			pend = rest
		}
	}
	as = append(as, cardFacts(as)...)
	// definitions of named trigger terms
	done := map[*Term]bool{}
	for i := 0; i < len(as); i++ {
		ns := map[*Term]bool{}
		namedIn(as[i], ns, map[*Term]bool{})
		for n := range ns {
			if !done[n] {
				done[n] = true
				as = append(as, Eq(n, namedTerms[n]))
			}
		}
	}
	full, strs := Query(as, "ALL", false)
	if strs && o.Kind != "lemma" {
		abs, _ = Query(as, "ALL", true)
	}
	return abs, full
}

func collectOps(t *Term, out map[string]bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == "uf" {
		out[t.name] = true
	} else if strOp(t.op) {
		out[t.op] = true
	}
	for _, a := range t.args {
		collectOps(a, out, seen)
	}
}

func globSyms(t *Term, out map[string]bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == "const" && strings.HasPrefix(t.name, "glob:") {
		out[t.name] = true
	}
	for _, a := range t.args {
		globSyms(a, out, seen)
	}
	for _, p := range t.pats {
		for _, a := range p {
			globSyms(a, out, seen)
		}
	}
}

func namedIn(t *Term, out map[*Term]bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == "const" && namedTerms[t] != nil {
		out[t] = true
	}
	for _, a := range t.args {
		namedIn(a, out, seen)
	}
	for _, p := range t.pats {
		for _, a := range p {
			namedIn(a, out, seen)
		}
	}
}

// instances adds to every quantified subformula of a goal the instances at
// the ground terms its body compares the bound variable with; the formula
// stays equivalent, and e-matching gets the terms that read-over-write
// simplification removed.
func instances(t *Term, memo map[*Term]*Term) *Term {
	if t.sort != SBool || len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := t
	if len(t.qvars) > 0 {
		if t.op == "exists" && len(t.qvars) == 1 && !t.bound {
			v := t.qvars[0]
			seen := map[*Term]bool{}
			var cands []*Term
			visited := map[*Term]bool{}
			var walk func(x *Term)
			walk = func(x *Term) {
				if visited[x] || !x.bound {
					return
				}
				visited[x] = true
				if x.op == "=" && x.args[0].sort == v.sort {
					for i := 0; i < 2; i++ {
						if x.args[i] == v && !x.args[1-i].bound && !seen[x.args[1-i]] {
							seen[x.args[1-i]] = true
							cands = append(cands, x.args[1-i])
						}
					}
				}
				for _, a := range x.args {
					walk(a)
				}
			}
			walk(t.args[0])
			var ds []*Term
			for i, c := range cands {
				if i == 4 {
					break
				}
				ds = append(ds, Subst(t.args[0], map[*Term]*Term{v: c}))
			}
			if len(ds) > 0 {
				r = Or(append(ds, t)...)
			}
		}
	} else {
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = instances(a, memo)
			if args[i] != a {
				ch = true
			}
		}
		if ch {
			r = rebuild(t, args)
		}
	}
	memo[t] = r
	return r
}
