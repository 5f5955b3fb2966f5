package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"go/token"

	"golang.org/x/tools/go/ssa"
)

type finding struct {
	Property    string   `json:"property"`
	Seed        int64    `json:"seed"`
	Evaluations int      `json:"evaluations"`
	Distinct    int      `json:"distinct_nontrivial"`
	Rule        string   `json:"rule"`
	Samples     []string `json:"samples"`
	Violation   *struct {
		Case     int    `json:"case"`
		Input    string `json:"input"`
		Observed string `json:"observed"`
		Replay   string `json:"replay"`
	} `json:"violation"`
	Secs float64 `json:"secs"`
	err  string
}

// known is an entry of /verif/known_findings.txt:
// "open: property=C01 <text that identifies the input> | <description>".
type known struct{ match, text string }

func readKnown(verif, prop string) []known {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var ks []known
	for _, l := range strings.Split(string(b), "\n") {
		p := "open: property=" + prop + " "
		if !strings.HasPrefix(l, p) {
			continue
		}
		l = strings.TrimPrefix(l, p)
		m, t, ok := strings.Cut(l, " | ")
		if !ok {
			t = m
		}
		ks = append(ks, known{m, t})
	}
	return ks
}

func check(repo, dir, verif, prop string) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	factor, mul, budget := 2, 1, 8*time.Minute
	if tier == "thorough" {
		factor, mul, budget = 4, 12, 13*time.Minute
	}
	out := filepath.Join(verif, "out", prop)
	os.MkdirAll(out, 0o755)

	// the bounded companion runs on one side
	fch := make(chan finding, 1)
	go func() { fch <- runFinder(verif, out, prop, seed, mul) }()

	// the proof
	deadline := t0.Add(budget)
	var obls []*Obl
	var broken []string
	v, err := newVerifier(repo, dir)
	var xs []*Exec
	if err != nil {
		broken = append(broken, "the contracts or the code cannot be loaded: "+err.Error())
	} else {
		xs = v.generate(func(k string) bool { return true })
		for _, c := range v.missing {
			if c.mentions(prop) {
				broken = append(broken, fmt.Sprintf("%s:%d: the function %s under contract does not exist", shortFile(c.File), c.Line, c.Key))
			}
		}
		obls = append(obls, v.static(prop)...)
		for _, x := range xs {
			any := false
			for _, o := range x.obls {
				if o.Kind != "canary" && (o.Kind == "lemma" || hasLabel(o, prop)) {
					obls = append(obls, o)
					any = true
				}
			}
			if any {
				for _, o := range x.obls {
					if o.Kind == "canary" {
						obls = append(obls, o)
					}
				}
			}
		}
	}
	genSecs := time.Since(t0).Seconds()
	solveAll(obls, factor, runtime.NumCPU(), deadline)
	proveSecs := time.Since(t0).Seconds()

	var failed []*Obl
	total, ok := 0, 0
	by := map[string]int{}
	kinds := map[string]int{}
	solver := 0.0
	fns := map[string]*fnStat{}
	canaries, canaryBad := 0, 0
	for _, o := range obls {
		solver += o.Secs
		if o.Kind == "canary" {
			canaries++
			if o.Status == "discharged" {
				canaryBad++
				broken = append(broken, "the assumptions of "+o.Fn+" are contradictory ("+o.Name+")")
			}
			continue
		}
		total++
		kinds[o.Kind]++
		s := fns[o.Fn]
		if s == nil {
			s = &fnStat{}
			fns[o.Fn] = s
		}
		s.Obligations++
		if o.Status == "discharged" {
			ok++
			by[o.By]++
			s.Discharged++
		} else {
			failed = append(failed, o)
		}
	}
	if v != nil && total == 0 && len(broken) == 0 {
		broken = append(broken, "no obligation for "+prop)
	}
	f := <-fch

	viol := 0
	report := func(path, suffix string) {
		viol++
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, path, suffix)
	}
	var text strings.Builder
	proofFailed := len(failed) > 0 || len(broken) > 0
	if proofFailed {
		fmt.Fprintf(&text, "%s: the proof fails on the current tree: %d of %d obligations are not discharged.\n", prop, len(failed), total)
		for _, b := range broken {
			fmt.Fprintf(&text, "  %s\n", b)
		}
		for _, o := range failed {
			fmt.Fprintf(&text, "\n  obligation %s\n    kind %s, at %s\n", o.Name, o.Kind, strings.TrimPrefix(o.Pos, repo+"/"))
			if o.Text != "" {
				fmt.Fprintf(&text, "    %s\n", o.Text)
			}
			fmt.Fprint(&text, indent(o.Output))
			if o.x != nil {
				p := filepath.Join(out, trunc(sanitize(o.Name), 150)+".smt2")
				os.WriteFile(p, []byte(o.script()+"(check-sat)\n"), 0o644)
				fmt.Fprintf(&text, "    solver input: %s\n", p)
			}
		}
	}
	var knownHit string
	switch {
	case f.Violation != nil:
		in := f.Violation.Input + " => " + f.Violation.Observed
		for _, k := range readKnown(verif, prop) {
			if strings.Contains(in, k.match) {
				knownHit = k.text
			}
		}
		if knownHit == "" || proofFailed {
			path := filepath.Join(out, "violation.txt")
			head := fmt.Sprintf("property: %s\nfailing input:\n  %s\nobserved on the real code:\n  %s\nreplay: cd %s && bin/%s\n\n", prop, f.Violation.Input, f.Violation.Observed, verif, strings.Replace(f.Violation.Replay, "finder -prop", "finder."+prop+" -prop", 1))
			os.WriteFile(path, []byte(head+text.String()), 0o644)
			fmt.Printf("failing input: %s\nobserved: %s\n", trunc(f.Violation.Input, 1500), trunc(f.Violation.Observed, 1500))
			report(path, "")
		}
	case f.err != "" && !proofFailed:
		fmt.Fprintln(os.Stderr, "the input search failed:", f.err)
		fmt.Println("ERROR: the input search failed")
	case proofFailed:
		path := filepath.Join(out, "failed_obligations.txt")
		os.WriteFile(path, []byte(text.String()+"\ninput search: "+fmt.Sprint(f.Evaluations)+" inputs tried, none fails. "+f.err+"\n"), 0o644)
		report(path, " no-failing-input-found")
	}
	for _, k := range readKnown(verif, prop) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
	}
	if proofFailed {
		fmt.Print(text.String())
	}

	ev := evidence(v, xs, prop)
	ev["property"] = prop
	ev["tier"] = tier
	ev["seed"] = seed
	ev["level"] = "proof"
	ev["wall_s"] = time.Since(t0).Seconds()
	ev["violations"] = viol
	cov := ev["coverage"].(map[string]any)
	cov["obligations"] = total
	cov["discharged"] = ok
	cov["checker_cmd"] = "bin/govc check -prop " + prop
	cov["discharged_by"] = by
	cov["obligation_kinds"] = kinds
	cov["functions"] = fns
	cov["solver_seconds"] = solver
	cov["generation_seconds"] = genSecs
	cov["proof_wall_seconds"] = proveSecs
	cov["consistency_canaries"] = map[string]int{"tried": canaries, "contradictory": canaryBad}
	var fn []string
	for _, o := range failed {
		fn = append(fn, o.Name)
	}
	cov["failed_obligations"] = append(fn, broken...)
	cov["bounded_cross_check"] = map[string]any{
		"label": "bounded: concrete inputs run on the real code, never counted as proved",
		"evaluations": f.Evaluations, "distinct_nontrivial": f.Distinct, "rule": f.Rule, "samples": f.Samples, "seconds": f.Secs, "error": f.err,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %d of %d obligations discharged (%d functions), %d inputs tried, %.1fs\n", prop, ok, total, len(fns), f.Evaluations, time.Since(t0).Seconds())
	if viol > 0 {
		return 1
	}
	if f.err != "" {
		return 2
	}
	return 0
}

type fnStat struct {
	Obligations int `json:"obligations"`
	Discharged  int `json:"discharged"`
}

// evidence lists what the proofs of a property rest on.
func evidence(v *Verifier, xs []*Exec, prop string) map[string]any {
	cov := map[string]any{}
	ev := map[string]any{"coverage": cov}
	trusted, assume := map[string]bool{}, map[string]bool{}
	called, inlined := map[string]bool{}, map[string]bool{}
	if v == nil {
		cov["trusted_base"] = []string{}
		return ev
	}
	under := map[string]bool{}
	for _, x := range xs {
		any := false
		for _, o := range x.obls {
			any = any || o.Kind != "canary" && hasLabel(o, prop)
		}
		if !any {
			continue
		}
		under[x.key] = true
		for k := range x.trust {
			trusted[k] = true
		}
		for k := range x.notes {
			assume[k] = true
		}
		for k := range x.called {
			called[k] = true
		}
		for k := range x.inlined {
			inlined[k] = true
		}
	}
	var other []string
	for k := range called {
		c := v.spec.contractFor(k)
		if c != nil && c.Kind != "func" || c != nil && c.Trusted {
			trusted["assumed contract of "+k] = true
		} else if !under[k] {
			other = append(other, k)
		}
	}
	sort.Strings(other)
	base := []string{"go/packages, go/ssa (x/tools 0.52.0): the SSA form is taken as the meaning of the source", "govc: the generator of the obligations", "z3 5.3.2, z3 4.8.12, cvc5 1.1.2"}
	cov["trusted_base"] = append(base, sortedKeys(trusted)...)
	cov["contracts_used_proved_elsewhere"] = other
	cov["inlined_functions"] = sortedKeys(inlined)
	as := append([]string{}, v.spec.Assump...)
	ev["assumptions"] = append(as, sortedKeys(assume)...)
	return ev
}

func sortedKeys(m map[string]bool) []string {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (s *Spec) contractFor(key string) *Contract {
	for _, k := range s.Order {
		if k == key || matchKey(k, key) {
			return s.Contracts[k]
		}
	}
	return nil
}

// mentions says if the contract has anything to do with the property.
func (c *Contract) mentions(p string) bool {
	in := func(ls []string) bool {
		for _, l := range ls {
			if l == p {
				return true
			}
		}
		return false
	}
	if in(c.Labels) || in(c.Safety) || in(c.ModLabel) || in(c.TermL) {
		return true
	}
	for _, cs := range [][]Clause{c.Requires, c.Ensures, c.Inst} {
		for _, e := range cs {
			if in(e.Labels) {
				return true
			}
		}
	}
	return false
}

// runFinder searches for a failing input.
func runFinder(verif, out, prop string, seed int64, mul int) (f finding) {
	bin := filepath.Join(verif, "bin", "finder."+prop)
	os.MkdirAll(filepath.Dir(bin), 0o755)
	build := exec.Command("go", "build", "-o", bin, ".")
	build.Dir = filepath.Join(verif, "finder")
	build.Env = append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GOFLAGS=-mod=mod", "GOSUMDB=off")
	if b, err := build.CombinedOutput(); err != nil {
		f.err = "build: " + string(b)
		return f
	}
	run := func(args ...string) error {
		cmd := exec.Command("timeout", append([]string{"700", bin, "-prop", prop, "-seed", fmt.Sprint(seed), "-mul", fmt.Sprint(mul)}, args...)...)
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		err := cmd.Run()
		if err == nil {
			if err = json.Unmarshal(so.Bytes(), &f); err == nil {
				return nil
			}
		}
		f.err = fmt.Sprintf("%v\n%s", err, trunc(se.String(), 3000))
		return err
	}
	if run() == nil {
		return f
	}
	// the process died: find out on which input
	tr := filepath.Join(out, "trace.txt")
	os.Remove(tr)
	if run("-trace", tr) == nil {
		f.err = ""
		return f
	}
	if strings.Contains(f.err, "generator of case") || strings.Contains(f.err, "exit status 124") {
		return f
	}
	b, err := os.ReadFile(tr)
	if err != nil {
		return f
	}
	ix, desc, _ := strings.Cut(string(b), "\n")
	n, _ := strconv.Atoi(ix)
	f.Violation = &struct {
		Case     int    `json:"case"`
		Input    string `json:"input"`
		Observed string `json:"observed"`
		Replay   string `json:"replay"`
	}{n, desc, "the process died: " + trunc(f.err, 800), fmt.Sprintf("finder.%s -prop %s -seed %d -case %d", prop, prop, seed, n)}
	f.Evaluations = n + 1
	f.err = ""
	return f
}

// static gives the obligations decided by looking at the program.
func (v *Verifier) static(prop string) []*Obl {
	// package variables are only assigned by initialisers
	o := &Obl{Fn: "package variables", Name: "package variables#constant", Kind: "static", Labels: []string{prop}, Goal: "true", Text: "no function but the initialisers assigns a package variable, or takes its address"}
	for _, k := range v.p.keys {
		fn := v.p.funcs[k]
		if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") || fn.Synthetic == "package initializer" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					gl, ok := (*op).(*ssa.Global)
					if !ok || gl.Pkg == nil || !v.p.repo[gl.Pkg.Pkg] {
						continue
					}
					if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
						continue
					}
					o.Goal = "false"
					o.Status = "failed"
					o.Output += fmt.Sprintf("%s: %s\n", k, in)
				}
			}
		}
	}
	return []*Obl{o}
}
