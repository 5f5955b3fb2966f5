package main

import (
	"flag"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc check|func|keys|dump ...")
		os.Exit(2)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	repo := fs.String("repo", "/repo", "the repository")
	dir := fs.String("contracts", "/verif/contracts", "the contract files")
	verif := fs.String("verif", "/verif", "the verification directory")
	prop := fs.String("prop", "", "the property")
	factor := fs.Int("t", 1, "solver time factor")
	verbose := fs.Bool("v", false, "print every obligation")
	only := fs.String("only", "", "only obligations whose name contains this")
	label := fs.String("label", "", "only obligations with this label")
	fs.Parse(os.Args[2:])
	switch cmd {
	case "keys", "dump":
		p, err := loadProgram(*repo)
		must(err)
		for _, k := range p.keys {
			if fs.NArg() > 0 && !strings.Contains(k, fs.Arg(0)) {
				continue
			}
			fmt.Println("=====", k)
			if cmd == "dump" {
				p.funcs[k].WriteTo(os.Stdout)
			}
		}
	case "func":
		v, err := newVerifier(*repo, *dir)
		must(err)
		xs := v.generate(func(k string) bool {
			if fs.NArg() == 0 {
				return true
			}
			for _, a := range fs.Args() {
				if k == a || strings.HasPrefix(k, a+"[") || strings.HasSuffix(a, "*") && strings.HasPrefix(k, strings.TrimSuffix(a, "*")) {
					return true
				}
			}
			return false
		})
		var obls []*Obl
		for _, x := range xs {
			for _, o := range x.obls {
				if *only != "" && !strings.Contains(o.Name, *only) {
					continue
				}
				if *label != "" && !hasLabel(o, *label) && o.Kind != "canary" {
					continue
				}
				obls = append(obls, o)
			}
			for _, e := range x.errs {
				fmt.Println("SPEC:", e)
			}
		}
		t0 := time.Now()
		solveAll(obls, *factor, runtime.NumCPU(), time.Now().Add(time.Hour))
		ok, bad := 0, 0
		for _, o := range obls {
			good := o.Status == "discharged"
			if o.Kind == "canary" {
				good = !good
			}
			if good {
				ok++
			} else {
				bad++
			}
			if !good || *verbose {
				st := o.Status
				if o.Kind == "canary" {
					st = "canary " + st
				}
				fmt.Printf("%-10s %5.2fs %-8s %s %v %s\n", st, o.Secs, o.By, o.Name, o.Labels, strings.TrimPrefix(o.Pos, *repo+"/"))
				if !good && o.Text != "" {
					fmt.Println("    ", o.Text)
				}
				if !good {
					fmt.Print(indent(o.Output))
				}
			}
		}
		fmt.Printf("%d obligations, %d discharged, %d failed, %.1fs\n", len(obls), ok, bad, time.Since(t0).Seconds())
		if bad > 0 {
			os.Exit(1)
		}
	case "check":
		os.Exit(check(*repo, *dir, *verif, *prop))
	default:
		fmt.Fprintln(os.Stderr, "unknown command", cmd)
		os.Exit(2)
	}
}

func indent(s string) string {
	if s == "" {
		return ""
	}
	return "      " + strings.ReplaceAll(strings.TrimSpace(s), "\n", "\n      ") + "\n"
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func hasLabel(o *Obl, l string) bool {
	for _, x := range o.Labels {
		if x == l {
			return true
		}
	}
	return false
}

// Verifier is the loaded program with its contracts.
type Verifier struct {
	p    *Program
	spec *Spec
	g    *Gen
	// contracts without function
	missing []*Contract
	lemmas  []*Exec
}

func newVerifier(repo, dir string) (v *Verifier, err error) {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				err = se
				return
			}
			panic(r)
		}
	}()
	p, err := loadProgram(repo)
	if err != nil {
		return nil, err
	}
	files, err := filepath.Glob(filepath.Join(dir, "*.vc"))
	if err != nil {
		return nil, err
	}
	sort.Strings(files)
	spec := newSpec()
	for _, f := range files {
		if err := parseSpecFile(spec, f); err != nil {
			return nil, err
		}
	}
	if err := spec.implement(); err != nil {
		return nil, err
	}
	v = &Verifier{p: p, spec: spec, g: newGen(p, spec)}
	v.g.specAxioms()
	for i, l := range spec.Lemmas {
		v.lemmas = append(v.lemmas, v.g.lemma(i, l))
	}
	return v, nil
}

// targets returns the functions of a contract.
func (v *Verifier) targets(c *Contract) []string {
	var ks []string
	for _, k := range v.p.keys {
		if !matchKey(c.Key, k) || len(v.p.funcs[k].Blocks) == 0 && !c.Trusted {
			continue
		}
		// generic functions are verified for any type
		if strings.HasPrefix(v.p.funcs[k].Synthetic, "instantiation wrapper") {
			continue
		}
		ks = append(ks, k)
	}
	return ks
}

func (v *Verifier) generate(sel func(k string) bool) []*Exec {
	var xs []*Exec
	v.missing = nil
	for _, x := range v.lemmas {
		if sel(x.key) {
			xs = append(xs, x)
		}
	}
	for _, key := range v.spec.Order {
		c := v.spec.Contracts[key]
		if c.Kind != "func" {
			continue
		}
		ks := v.targets(c)
		if len(ks) == 0 {
			v.missing = append(v.missing, c)
			continue
		}
		for _, k := range ks {
			if sel(k) {
				xs = append(xs, verify(v.g, k, v.p.funcs[k], c))
			}
		}
	}
	return xs
}

// specAxioms turns the axioms of the specification into declarations.
func (g *Gen) specAxioms() {
	for _, s := range g.spec.Sorts {
		g.declare(s, "(declare-sort "+s+" 0)")
	}
	g.typeFacts()
	for _, bf := range g.spec.BoxFacts {
		if !bf.Req {
			continue
		}
		t, err := g.goType(bf.Type)
		if err != nil {
			panic(specErr{err.Error()})
		}
		_, ub := g.boxFns(t)
		env := &Env{x: g.dummy(), g: g, vars: map[string]TV{bf.V: {S: "(" + ub + " (ival i?))", Sort: g.sortOf(t), T: t}}, q: 1}
		g.axiom(fmt.Sprintf("(forall ((i? Iface)) (! (=> (= (itag i?) %d) %s) :pattern ((%s (ival i?)))))", g.tag(t), env.bool(bf.E), ub), []string{ub})
	}
	for _, a := range g.spec.Axioms {
		env := &Env{x: g.dummy(), g: g, vars: map[string]TV{}, q: 1}
		t := env.bool(a.E)
		g.axiom(t, g.patternKeys(t)...)
	}
}

// lemma makes a fact available, and gives the obligation to prove it.
func (g *Gen) lemma(i int, l *Lemma) *Exec {
	x := newExec(g, nil, "lemma "+l.Name, &Contract{Key: l.Name, Labels: l.Labels})
	x.lem = i + 1
	all := func(sfx string) (*Env, string) {
		env := &Env{x: x, g: g, vars: map[string]TV{}, q: 1}
		var vs []string
		if l.Group != "" {
			gr := g.spec.Groups[l.Group]
			if gr == nil {
				panic(specErr{"unknown group " + l.Group})
			}
			g.initGroup(gr)
			env.group, env.gv = l.Group, "g"+sfx
			vs = append(vs, "(g"+sfx+" GV$"+l.Group+")")
		}
		for _, p := range l.Params {
			s, t := g.specType(p.Type)
			env.vars[p.Name] = TV{S: p.Name + sfx, Sort: s, T: t}
			vs = append(vs, "("+p.Name+sfx+" "+s+")")
		}
		return env, strings.Join(vs, " ")
	}
	quant := func(sfx, guard string) string {
		env, vs := all(sfx)
		body := env.bool(l.E)
		if guard != "" {
			body = "(=> " + guard + " " + body + ")"
		}
		t := "(forall (" + vs + ") (! " + body
		for _, tr := range l.Trigs {
			var ts []string
			for _, e := range tr {
				ts = append(ts, env.eval(e).S)
			}
			t += " :pattern (" + strings.Join(ts, " ") + ")"
		}
		return t + "))"
	}
	folded := func(sfx, guard string) (as []string) {
		for _, tr := range l.Trigs {
			if len(tr) != 1 || tr[0].Op != "call" {
				continue
			}
			d := g.spec.Fns[tr[0].Name]
			if d == nil || !d.Rec {
				continue
			}
			env, vs := all(sfx)
			t := env.eval(tr[0]).S
			if !strings.HasPrefix(t, "("+d.Name+" ") {
				continue
			}
			z := "(" + d.Name + "$0" + strings.TrimPrefix(t, "("+d.Name)
			body := env.bool(l.E)
			if guard != "" {
				body = "(=> " + guard + " " + body + ")"
			}
			as = append(as, fmt.Sprintf("(forall (%s) (! %s :pattern (%s)))", vs, strings.ReplaceAll(body, t, z), z))
		}
		return as
	}
	env, _ := all("!c")
	if l.Group != "" {
		x.consts["g!c"] = "GV$" + l.Group
	}
	for _, p := range l.Params {
		x.consts[p.Name+"!c"] = env.vars[p.Name].Sort
	}
	if l.By != "" {
		n := l.By
		guard := fmt.Sprintf("(and (<= 0 %s!h) (< %s!h %s!c))", n, n, n)
		x.fact("true", quant("!h", guard))
		for _, a := range folded("!h", guard) {
			x.fact("true", a)
		}
	}
	cur := &cursor{&State{v: map[string]string{}}, "true"}
	x.entry = cur.st
	x.oblige(cur, "lemma", "", env.bool(l.E), l.Labels, token.NoPos, shortFile(l.File)+":"+fmt.Sprint(l.Line))
	t := quant("??", "")
	g.axiom(t, g.patternKeys(t)...)
	g.axioms[len(g.axioms)-1].lem = i + 1
	// the same for terms that are not unfolded any further
	for _, a := range folded("??", "") {
		g.axiom(a, g.patternKeys(a)...)
		g.axioms[len(g.axioms)-1].lem = i + 1
	}
	return x
}

// patternKeys returns the declared symbols of each pattern of an axiom.
func (g *Gen) patternKeys(t string) [][]string {
	declared := func(s string) []string {
		var ks []string
		for _, y := range symbols(s) {
			z := y
			if a, ok := g.alias[y]; ok {
				z = a
			}
			if _, ok := g.decl[z]; ok && z != "Slice" {
				ks = append(ks, z)
			}
		}
		return ks
	}
	var out [][]string
	rest := t
	for {
		i := strings.Index(rest, ":pattern (")
		if i < 0 {
			break
		}
		rest = rest[i+len(":pattern "):]
		d := 0
		for j := 0; j < len(rest); j++ {
			if rest[j] == '(' {
				d++
			}
			if rest[j] == ')' {
				d--
				if d == 0 {
					out = append(out, declared(rest[:j+1]))
					rest = rest[j:]
					break
				}
			}
		}
	}
	if len(out) == 0 {
		out = append(out, declared(t))
	}
	return out
}
