package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

var allCands bool

// check runs one property the way MANIFEST.json registers it: verify, compare
// with the known findings, look for a failing input when an obligation is
// open, write the evidence file and report.
func check(prop, tier, repo, verif string) int {
	start := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if seed == 0 {
		seed = 1
	}
	resFile := filepath.Join(os.TempDir(), fmt.Sprintf("gv-res-%d.json", os.Getpid()))
	defer os.Remove(resFile)
	known := readKnown(filepath.Join(verif, "known-findings.txt"), prop)
	var res Result
	var violations []OpenObl
	verify := func(again bool) {
		res, violations = Result{}, nil
		os.Remove(resFile)
		allCands = again
		run(prop, tier, repo, filepath.Join(verif, "contracts"), false, "", resFile, filepath.Join(verif, "contracts", "hints.txt"), false, "linux")
		if b, err := os.ReadFile(resFile); err == nil {
			json.Unmarshal(b, &res)
		} else {
			res.Open = append(res.Open, OpenObl{Name: "source/load", Kind: "load", Label: "the source is within the verifier's reach", Detail: res.LoadError, Status: "unknown"})
		}
		for _, o := range res.Open {
			hit := false
			for _, k := range known {
				if k.re.MatchString(o.Name + " " + o.Path) {
					hit = true
					k.seen = true
				}
			}
			if !hit {
				violations = append(violations, o)
			}
		}
	}
	verify(false)
	input, log, bounded := bounded(prop, tier, repo, verif, seed)
	if input != "" {
		violations = append(violations, OpenObl{Name: "bounded/" + prop, Kind: "bounded", Label: "exhaustive run over short histories", Status: "failed", Detail: firstLines(input, 1)})
	}
	if len(violations) > 0 && input == "" {
		input, log = replay(prop, tier, repo, verif, seed)
		if input == "" && res.Hinted {
			fmt.Println("open obligations, no failing input: once more with all invariant candidates")
			verify(true)
		}
	}
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
	}
	evdir := filepath.Join(verif, "evidence")
	os.MkdirAll(evdir, 0o755)
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "proof",
		"wall_s": 0.0, "violations": len(violations),
		"assumptions": assumptions(&res),
		"coverage": map[string]any{
			"obligations": res.Obligations, "discharged": res.Proved,
			"checker_cmd":          "bash /verif/check.sh " + prop + " " + tier,
			"trusted_base":         trustedBase(&res),
			"samples":              res.Samples,
			"functions":            res.Functions,
			"obligations_by_kind":  res.ByKind,
			"discharged_by":        res.Backends,
			"solver_seconds":       res.SolverSeconds,
			"solver_queries":       res.Queries,
			"cover_checks":         res.Covers,
			"lemmas":               res.Lemmas,
			"inlined_into_callers": res.Inlined,
			"open":                 res.Open,
			"cross_checked":        res.CrossChecked,
			"known_findings":       len(known),
			"bounded_not_proved":   bounded,
		},
	}
	ret := 0
	if len(violations) > 0 {
		path := filepath.Join(evdir, "replay-"+prop+".txt")
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s: %d obligation(s) not discharged from the current source\n\n", prop, len(violations))
		for _, o := range violations {
			fmt.Fprintf(&sb, "obligation %s\n  kind %s  at %s  status %s\n  path %s\n  %s\n", o.Name, o.Kind, o.Pos, o.Status, o.Path, o.Detail)
		}
		if input != "" {
			fmt.Fprintf(&sb, "\nfailing input, replayed against the real code:\n%s\n", input)
		} else {
			fmt.Fprintf(&sb, "\nno failing input found\n")
		}
		fmt.Fprintf(&sb, "\nreplay log:\n%s\n", log)
		os.WriteFile(path, []byte(sb.String()), 0o644)
		for i, o := range violations {
			if i == 12 {
				fmt.Printf("... and %d more\n", len(violations)-i)
				break
			}
			fmt.Printf("failed obligation: %s (%s) at %s: %s\n", o.Name, o.Label, o.Pos, o.Status)
		}
		if input != "" {
			fmt.Println(firstLines(input, 12))
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
			ev["coverage"].(map[string]any)["failing_input"] = firstLines(input, 40)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, path)
		}
		ret = 1
	}
	ev["wall_s"] = time.Since(start).Seconds()
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evdir, prop+".json"), append(b, '\n'), 0o644)
	return ret
}

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimRight(s, "\n"), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

type knownFinding struct {
	re   *regexp.Regexp
	text string
	seen bool
}

// readKnown reads the entries "known: property=<id> obligation=<regexp> :: text".
func readKnown(path, prop string) []*knownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []*knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "known: property="+prop+" obligation=")
		if !ok {
			continue
		}
		pat, text, ok := strings.Cut(rest, " :: ")
		if !ok {
			continue
		}
		re, err := regexp.Compile("^(" + pat + ")")
		if err != nil {
			continue
		}
		out = append(out, &knownFinding{re: re, text: text})
	}
	return out
}

// replay searches a failing input on the real code: the in-package tests of
// /verif/replay/<prop>_*.go, laid over /repo.
func replay(prop, tier, repo, verif string, seed int) (string, string) {
	secs := 60
	if tier == "thorough" {
		secs = 300
	}
	return search(prop, "", tier, repo, verif, seed, secs)
}

// bounded runs the exhaustive search over short histories of a property that
// is not proved for all of its functions.
func bounded(prop, tier, repo, verif string, seed int) (string, string, []string) {
	if f, _ := filepath.Glob(filepath.Join(verif, "replay", "bounded_"+strings.ToLower(prop)+"_test.go")); len(f) == 0 {
		return "", "", nil
	}
	secs := 120
	if tier == "thorough" {
		secs = 900
	}
	input, log := search(prop, "bounded_", tier, repo, verif, seed, secs)
	out := []string{}
	for _, l := range strings.Split(log, "\n") {
		if i := strings.Index(l, "BOUNDED-RUN "); i >= 0 {
			out = append(out, l[i+len("BOUNDED-RUN "):])
			fmt.Println(l[i:])
		}
	}
	if len(out) == 0 && input == "" {
		out = append(out, "the bounded run gave no result: "+firstLines(log, 3))
		fmt.Println(out[0])
	}
	return input, log, out
}

// search runs the tests /verif/replay/<kind><prop>*_test.go.
func search(prop, kind, tier, repo, verif string, seed, secs int) (string, string) {
	files, _ := filepath.Glob(filepath.Join(verif, "replay", strings.ToLower(prop)+"*_test.go"))
	test := "^TestVerif"
	if kind != "" {
		more, _ := filepath.Glob(filepath.Join(verif, "replay", kind+strings.ToLower(prop)+"*_test.go"))
		files = append(files, more...)
		test = "^TestBounded"
	}
	if len(files) == 0 {
		return "", "no replay search for this property"
	}
	common, _ := filepath.Glob(filepath.Join(verif, "replay", "common*_test.go"))
	files = append(files, common...)
	dir, err := os.MkdirTemp("", "gvreplay")
	if err != nil {
		return "", err.Error()
	}
	defer os.RemoveAll(dir)
	ov := map[string]map[string]string{"Replace": {}}
	for _, f := range files {
		ov["Replace"][filepath.Join(repo, "zz_verif_"+filepath.Base(f))] = f
	}
	b, _ := json.Marshal(ov)
	of := filepath.Join(dir, "overlay.json")
	os.WriteFile(of, b, 0o644)
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs+90)*time.Second)
	defer cancel()
	args := []string{"test", "-mod=readonly", "-vet=off", "-count=1", "-overlay", of, "-v", "-run", test + prop + "$", "-timeout", fmt.Sprint(secs+30) + "s"}
	if prop == "C13" && kind == "" {
		args = append(args, "-race")
	}
	cmd := exec.CommandContext(ctx, "go", append(args, ".")...)
	cmd.Dir = repo
	os.Mkdir(filepath.Join(dir, "scratch"), 0o755)
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "CGO_ENABLED=1", fmt.Sprintf("VERIF_SEED=%d", seed), fmt.Sprintf("VERIF_REPLAY_SECS=%d", secs), fmt.Sprintf("VERIF_BOUNDED_SECS=%d", secs), "VERIF_TIER="+tier,
		"VERIF_SCRATCH="+filepath.Join(dir, "scratch"), "TMPDIR="+dir, "NOTIFY_TMP="+filepath.Join(dir, "scratch")+"/")
	out, _ := cmd.CombinedOutput()
	log := string(out)
	var found []string
	for _, l := range strings.Split(log, "\n") {
		if i := strings.Index(l, "FAILING-INPUT "); i >= 0 {
			found = append(found, l[i:])
		}
	}
	// a crash of the code under test is a failing run as well, a build failure is not
	if len(found) == 0 && strings.Contains(log, "panic: ") && strings.Contains(log, "VERIF-RUN ") && !strings.Contains(log, "test timed out") {
		lines := strings.Split(log, "\n")
		last := ""
		for _, l := range lines {
			if strings.Contains(l, "VERIF-RUN ") {
				last = l
			}
			if strings.Contains(l, "panic: ") {
				found = append(found, last, "FAILING-INPUT the code panics: "+l)
				break
			}
		}
	}
	if len(found) == 0 && prop == "C13" {
		if i := strings.Index(log, "WARNING: DATA RACE"); i >= 0 {
			found = append(found, "FAILING-INPUT concurrent operations race:", firstLines(log[i:], 30))
		}
	}
	if len(log) > 20000 {
		log = log[:10000] + "\n...\n" + log[len(log)-10000:]
	}
	return strings.Join(found, "\n"), log
}

func trustedBase(r *Result) []string {
	out := []string{
		"gv (verification condition generator, /verif/gv) on go/types and golang.org/x/tools/go/ssa",
		"cvc5 1.1.2, z3 (answers 'unsat')",
		"the Go compiler and runtime implement the language semantics gv encodes",
	}
	for _, t := range r.Trusted {
		out = append(out, "assumed contract: "+t)
	}
	return out
}

func assumptions(r *Result) []string {
	out := []string{
		"sequential semantics inside a lock; other goroutines act only where a contract says so (lock acquisition havocs what the lock guards)",
		"string and slice lengths stay below 2^62; allocation does not fail",
		"partial correctness: termination is not proved",
	}
	for _, u := range r.Unknown {
		out = append(out, "call without contract: any result, no effect on anything a contract mentions: "+u)
	}
	sort.Strings(out)
	return out
}
