package main

import (
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

var scriptMu sync.Mutex

// script renders an obligation for a solver.
func (o *Obl) script(more ...string) string {
	// the rendering uses shared caches
	scriptMu.Lock()
	defer scriptMu.Unlock()
	x := o.x
	// facts that are only relevant when their key is
	type pend struct {
		f    Fact
		used bool
	}
	var fs []*pend
	for _, f := range x.perm {
		fs = append(fs, &pend{f: f})
	}
	hot := map[string]bool{}
	if o.slim == 2 {
		for _, s := range x.g.syms(o.Goal) {
			if b := stateOf(s); b != "" {
				hot[b] = true
			}
		}
	}
	for i, f := range x.facts[:o.NF] {
		if f.exit != 0 && f.exit != o.exit {
			continue
		}
		if o.exit != 0 && f.exit == 0 && i >= o.early && f.guard != "true" && f.key == "" {
			continue
		}
		if o.slim > 0 && f.key == "" && (f.guard != "true" || len(f.text) > 80 || !strings.HasPrefix(f.text, "(>= ") && !strings.HasPrefix(f.text, "(= ")) && (o.slim == 1 || !o.about(hot, f.text)) {
			continue
		}
		fs = append(fs, &pend{f: f})
	}
	need := map[string]bool{}
	add := func(t string) {
		for _, s := range x.g.syms(t) {
			need[s] = true
		}
	}
	goal := o.Goal
	add(o.Reach)
	add(goal)
	for _, m := range more {
		add(m)
	}
	for {
		more := false
		for _, p := range fs {
			if p.used || p.f.key != "" && !need[p.f.key] || p.f.key2 != "" && !need[p.f.key2] {
				continue
			}
			p.used = true
			more = true
			add(p.f.guard)
			add(p.f.text)
		}
		if !more {
			break
		}
	}
	var body strings.Builder
	var texts []string
	for _, p := range fs {
		if !p.used {
			continue
		}
		t := p.f.text
		if p.f.guard != "true" {
			t = "(=> " + p.f.guard + " " + t + ")"
		}
		texts = append(texts, t)
		body.WriteString("(assert " + t + ")\n")
	}
	texts = append(append(texts, o.Reach, goal), more...)
	for _, m := range more {
		body.WriteString("(assert " + m + ")\n")
	}
	return x.g.prelude(x.consts, texts, x.lem) + body.String() + "(assert " + o.Reach + ")\n(assert (not " + goal + "))\n"
}

func hasQuant(s string) bool { return strings.Contains(s, "(forall") || strings.Contains(s, "(exists") }

// about reports whether a fact is about the given parts of the state.
func (o *Obl) about(hot map[string]bool, text string) bool {
	for _, s := range o.x.g.syms(text) {
		if hot[stateOf(s)] {
			return true
		}
	}
	return false
}

// stateOf is the part of the state that the symbol is a version of, or a
// result; "" for anything else.
func stateOf(s string) string {
	i := strings.IndexAny(s, "!@")
	if i < 0 {
		return ""
	}
	switch b := strings.TrimPrefix(s[:i], "F."); b {
	case "e", "reach", "c", "m", "let", "nxt":
		return ""
	default:
		if !strings.Contains(b, ".") {
			return s
		}
		return b
	}
}

type solverRun struct {
	name string
	args []string
	opts string
	secs int
}

var quickSolvers = []solverRun{
	{"z3-new", []string{"z3-new", "-in"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.solve_eqs false)\n(set-option :smt.array.extensional false)\n(set-option :smt.arith.solver 2)\n", 6},
	{"cvc5", []string{"cvc5", "--lang=smt2", "--quiet"}, "(set-logic ALL)\n", 15},
	{"z3", []string{"z3", "-in"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n", 10},
	{"z3-new", []string{"z3-new", "-in"}, "", 15},
}

func runSolver(s solverRun, script string, factor int) (string, float64) {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(s.secs*factor+2)*time.Second)
	defer cancel()
	args := append([]string(nil), s.args[1:]...)
	if s.args[0] == "cvc5" {
		args = append(args, fmt.Sprintf("--tlimit=%d", s.secs*factor*1000))
	} else {
		args = append(args, fmt.Sprintf("-T:%d", s.secs*factor))
	}
	cmd := exec.CommandContext(ctx, s.args[0], args...)
	cmd.Stdin = strings.NewReader(s.opts + script + "(check-sat)\n")
	t0 := time.Now()
	out, _ := cmd.CombinedOutput()
	var lines []string
	for _, l := range strings.Split(strings.TrimSpace(string(out)), "\n") {
		if !strings.HasPrefix(l, "WARNING") {
			lines = append(lines, l)
		}
	}
	return strings.Join(lines, "\n"), time.Since(t0).Seconds()
}

// discharge tries the solvers one after another.
func (o *Obl) discharge(factor int, deadline time.Time) {
	if o.Goal == "true" {
		o.Status, o.By = "discharged", "generator"
		return
	}
	if o.x == nil {
		return
	}
	script := o.script()
	if d := os.Getenv("GOVC_DUMP"); d != "" {
		os.MkdirAll(d, 0o755)
		os.WriteFile(filepath.Join(d, sanitize(o.Name)+".smt2"), []byte(quickSolvers[0].opts+script+"(check-sat)\n(get-info :reason-unknown)\n"), 0o644)
	}
	solvers := quickSolvers
	if o.Kind == "frame" {
		// frames seldom need more than the frames of the calls
		o.slim = 1
		slim := o.script()
		o.slim = 0
		if d := os.Getenv("GOVC_DUMP"); d != "" {
			os.WriteFile(filepath.Join(d, sanitize(o.Name)+".slim.smt2"), []byte(quickSolvers[0].opts+slim+"(check-sat)\n(get-info :reason-unknown)\n"), 0o644)
		}
		r, secs := runSolver(quickSolvers[0], slim, 1)
		o.Secs += secs
		if strings.HasPrefix(r, "unsat") {
			o.Status, o.By = "discharged", quickSolvers[0].name
			return
		}
	}
	if o.Kind == "canary" {
		solvers = []solverRun{{"z3-new", quickSolvers[0].args, quickSolvers[0].opts, 2}}
		factor = 1
	}
	if os.Getenv("GOVC_FAST") != "" {
		solvers = solvers[:1]
	}
	for i, s := range solvers {
		if i == 1 && o.Kind != "canary" && o.Kind != "frame" && len(o.x.facts) > 600 {
			o.slim = 2
			slim := o.script()
			o.slim = 0
			r, secs := runSolver(quickSolvers[0], slim, 1)
			o.Secs += secs
			if strings.HasPrefix(r, "unsat") {
				o.Status, o.By = "discharged", quickSolvers[0].name
				return
			}
		}
		if i == 1 && o.Kind != "canary" && o.byCases(o.Reach, nil, factor, deadline, 0) {
			o.Status = "discharged"
			o.By += " by cases"
			return
		}
		if time.Now().After(deadline) {
			o.Output += "time budget used up\n"
			break
		}
		r, secs := runSolver(s, script, factor)
		o.Secs += secs
		first := r
		if i := strings.IndexByte(r, '\n'); i >= 0 {
			first = r[:i]
		}
		if first == "unsat" {
			o.Status, o.By = "discharged", s.name
			return
		}
		o.Output += fmt.Sprintf("%s: %s (%.1fs)\n", s.name, trunc(r, 300), secs)
		if first == "sat" && o.Kind != "canary" {
			o.Status = "failed"
			o.By = s.name
			return
		}
		if strings.Contains(r, "(error") && o.Kind == "canary" {
			o.Status = "error"
			return
		}
	}
	if o.Status == "" {
		o.Status = "failed"
	}
}

// noteSplit records the ways that lead to a merge of the control flow.
func (x *Exec) noteSplit(reach string, conds []string) {
	if x.splits == nil {
		x.splits = map[string][]string{}
	}
	if !strings.HasPrefix(reach, "(") {
		x.splits[reach] = conds
	}
}

// byCases discharges the obligation for each way that leads to it.
func (o *Obl) byCases(reach string, more []string, factor int, deadline time.Time, depth int) bool {
	var conds []string
	for _, s := range symbols(reach) {
		if c := o.x.splits[s]; len(c) > 1 && len(c) <= 6 {
			conds = c
			break
		}
	}
	if conds == nil {
		return false
	}
	var before []string
	for _, c := range conds {
		as := append(append([]string(nil), more...), before...)
		as = append(as, c)
		before = append(before, "(not "+c+")")
		script := o.script(as...)
		ok := false
		for _, s := range []solverRun{quickSolvers[0]} {
			if time.Now().After(deadline) {
				return false
			}
			r, secs := runSolver(s, script, factor)
			o.Secs += secs
			if strings.HasPrefix(r, "unsat") {
				o.By = s.name
				ok = true
				break
			}
			if strings.HasPrefix(r, "sat") {
				return false
			}
		}
		if !ok && depth < 2 {
			ok = o.byCases(c, as, factor, deadline, depth+1)
		}
		if !ok {
			return false
		}
	}
	return true
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func solveAll(obls []*Obl, factor int, workers int, deadline time.Time) {
	ch := make(chan *Obl)
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for o := range ch {
				o.discharge(factor, deadline)
			}
		}()
	}
	for _, o := range obls {
		ch <- o
	}
	close(ch)
	wg.Wait()
}
