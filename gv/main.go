package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

func main() {
	prop := flag.String("prop", "", "property to check")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "source tree")
	cdir := flag.String("contracts", "/verif/contracts", "contract files")
	verbose := flag.Bool("v", false, "verbose")
	only := flag.String("func", "", "verify only this function")
	out := flag.String("out", "", "result file (JSON)")
	hints := flag.String("hints", "", "hint file")
	wh := flag.Bool("write-hints", false, "rewrite the hint file")
	goos := flag.String("goos", "linux", "target")
	chk := flag.Bool("check", false, "run the registered check: verify, replay, evidence")
	verif := flag.String("verif", "/verif", "where contracts, replay tests and evidence live")
	flag.Parse()
	if *chk {
		os.Exit(check(*prop, *tier, *repo, *verif))
	}
	os.Exit(run(*prop, *tier, *repo, *cdir, *verbose, *only, *out, *hints, *wh, *goos))
}

func run(prop, tier, repo, cdir string, verbose bool, only, out, hints string, wh bool, goos string) int {
	start := time.Now()
	t, err := loadTool(repo, goos)
	if err != nil {
		fmt.Println("cannot load the source:", err)
		if out != "" {
			(&Result{Prop: prop, Tier: tier, LoadError: err.Error(), Open: []OpenObl{{Name: "source/load", Kind: "load", Label: "the source is within the verifier's reach", Detail: err.Error(), Status: "unknown"}}}).write(out)
		}
		return 2
	}
	t.verbose = verbose
	t.prop = prop
	files, _ := filepath.Glob(cdir + "/*.gvc")
	sort.Strings(files)
	var names []string
	for _, f := range files {
		names = append(names, filepath.Base(f))
	}
	t.sf = loadSpecs(cdir, names)
	for _, g := range t.sf.ghosts {
		t.ghostT[g.name] = t.typ(g.typ)
		compSort["G:"+g.name] = ghostSort(t.ghostT[g.name])
	}
	if hints != "" {
		if b, err := os.ReadFile(hints); err == nil {
			for _, l := range strings.Split(string(b), "\n") {
				if l != "" {
					t.hints[l] = true
				}
			}
		}
	}
	old := t.hints
	add := wh && os.Getenv("GV_ADDHINTS") != ""
	if wh && !add { // search without them
		t.hints = map[string]bool{}
	}
	dir, err := os.MkdirTemp("", "gv")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	if keepQueries {
		fmt.Println("queries in", dir)
	} else {
		defer os.RemoveAll(dir)
	}
	t.solver = newPool(8, dir)
	b := Budget{inv: 8000, final: 20000}
	if tier == "thorough" {
		b = Budget{inv: 20000, final: 60000, twice: true}
	}
	if verbose {
		allCands = true
	}
	if err := t.loadAxioms(); err != nil {
		fmt.Println(err)
		return 2
	}
	if tier != "thorough" && !wh {
		t.deadline = time.Now().Add(300 * time.Second)
	}
	res := &Result{Prop: prop, Tier: tier}
	lem := t.lemmas(b)
	res.add(t, nil, lem)
	done := map[string]bool{}
	var queue []string
	for _, k := range t.sf.order {
		c := t.sf.contracts[k]
		if c.kind == "func" && inList(c.props, prop) {
			queue = append(queue, k)
		}
	}
	var dead []string
	for len(queue) > 0 {
		k := queue[0]
		queue = queue[1:]
		if done[k] {
			continue
		}
		done[k] = true
		c := t.sf.contracts[k]
		if only != "" && c.name != only {
			continue
		}
		if c.opts["aux"] != "" && !t.fits(c) {
			continue
		}
		if c.trusted || c.inline && !inList(c.props, prop) {
			continue
		}
		n0 := len(t.deps)
		fr := t.verifyFunc(c, b)
		res.Hinted = res.Hinted || fr.hinted > 0
		res.add(t, fr, fr.obls)
		dead = append(dead, fr.deadCands...)
		if verbose {
			fmt.Printf("%-40s paths=%d exits=%d rounds=%d obls=%d inv=%d dropped=%d %.1fs %s\n", c.name, fr.paths, fr.exits, fr.rounds, len(fr.obls), fr.invs, fr.dropped, fr.secs, fr.err)
		}
		for _, d := range t.deps[n0:] {
			queue = append(queue, d)
		}
	}
	if wh && hints != "" {
		for k := range old {
			if add || !strings.HasPrefix(k, prop+"|") || only != "" && !strings.HasPrefix(k, prop+"|"+only+"|") {
				dead = append(dead, k)
			}
		}
		sort.Strings(dead)
		var u []string
		for i, d := range dead {
			if i == 0 || dead[i-1] != d {
				u = append(u, d)
			}
		}
		os.WriteFile(hints, []byte(strings.Join(u, "\n")+"\n"), 0o644)
	}
	res.Seconds = time.Since(start).Seconds()
	res.SolverSeconds = t.solver.total
	res.Queries = t.solver.queries
	res.Backends = t.solver.byWho
	for k := range t.trusted {
		res.Trusted = append(res.Trusted, k)
	}
	for k := range t.unknown {
		res.Unknown = append(res.Unknown, k)
	}
	for k := range t.inlined {
		res.Inlined = append(res.Inlined, k)
	}
	sort.Strings(res.Trusted)
	sort.Strings(res.Unknown)
	sort.Strings(res.Inlined)
	if out != "" {
		res.write(out)
	}
	fmt.Printf("%s %s: %d functions, %d obligations, %d proved, %d open, %.1fs (solver %.1fs in %d queries)\n", prop, tier, len(res.Functions), res.Obligations, res.Proved, len(res.Open), res.Seconds, res.SolverSeconds, res.Queries)
	for _, o := range res.Open {
		fmt.Printf("OPEN %s %s %s: %s\n", o.Name, o.Pos, o.Path, o.Detail)
	}
	if len(res.Open) > 0 {
		return 1
	}
	return 0
}

func inList(l []string, p string) bool {
	for _, x := range l {
		if x == p || x == "*" {
			return true
		}
	}
	return false
}
