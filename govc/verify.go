package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func newExec(g *Gen, fn *ssa.Function, key string, c *Contract) *Exec {
	return &Exec{
		g: g, fn: fn, key: key, c: c,
		consts: map[string]string{}, constIx: map[string]int{}, cache: map[string]string{},
		varSort: map[string]string{"nxt": "Int"}, known: map[string]bool{}, params: map[string]TV{}, ghostT: map[string]TV{},
		allocs: map[string]int{}, varargs: map[string][]TV{}, lr: map[*ssa.BasicBlock]*loopRun{},
		notes: map[string]bool{}, inlined: map[string]bool{}, called: map[string]bool{}, wfDone: map[string]bool{},
		oblN: map[string]int{}, trust: map[string]bool{}, used: map[string]bool{}, hit: map[string]bool{},
	}
}

// verify generates the obligations of a function.
func verify(g *Gen, key string, fn *ssa.Function, c *Contract) (x *Exec) {
	known := map[string]bool{}
	for pass := 0; pass < 8; pass++ {
		x = newExec(g, fn, key, c)
		for k := range known {
			x.known[k] = true
		}
		x.generate()
		if len(x.known) == len(known) {
			break
		}
		for k := range x.known {
			known[k] = true
		}
	}
	return x
}

func (x *Exec) generate() {
	c := x.c
	defer func() {
		if r := recover(); r != nil {
			se, ok := r.(specErr)
			if !ok {
				panic(r)
			}
			x.errs = append(x.errs, x.key+": "+se.msg)
			x.dry = 0
			cur := &cursor{&State{v: map[string]string{}}, "true"}
			x.oblige(cur, "annotation", "spec", "false", c.Labels, token.NoPos, se.msg)
		}
	}()
	x.entry = &State{v: map[string]string{}}
	st := &State{v: map[string]string{}}
	nxt := x.get(st, "nxt")
	x.get(x.entry, "nxt")
	x.fact("true", "(> "+nxt+" 0)")
	// make every known heap available before anything is written
	var ks []string
	for k := range x.known {
		if _, ok := x.g.heapT[k]; ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		x.get(st, k)
		x.get(x.entry, k)
	}
	fr := x.newFrame(x.fn, nil)
	x.top = fr
	var ps []TV
	for _, p := range x.fn.Params {
		s := x.g.sortOf(p.Type())
		n := "p." + sanitize(p.Name())
		for x.consts[n] != "" {
			n += "_"
		}
		x.consts[n] = s
		x.constIx[n] = 0
		v := TV{S: n, Sort: s, T: p.Type()}
		fr.env[p] = v
		ps = append(ps, v)
		x.wf(v, nxt)
	}
	for i, n := range c.Params {
		if i < len(ps) && n != "_" {
			x.params[n] = ps[i]
		}
	}
	if len(c.Params) != len(ps) {
		panic(specErr{fmt.Sprintf("%s:%d: %s has %d parameters, the contract has %d", c.File, c.Line, x.key, len(ps), len(c.Params))})
	}
	for _, fv := range x.fn.FreeVars {
		n := "fv." + sanitize(fv.Name())
		x.consts[n] = "Int"
		x.constIx[n] = 0
		v := TV{S: n, Sort: "Int", T: fv.Type()}
		if _, ok := fv.Type().Underlying().(*types.Pointer); !ok {
			panic(specErr{"free variable " + fv.Name()})
		}
		fr.env[fv] = v
		x.wf(v, nxt)
		x.fact("true", "(not (= "+n+" 0))")
	}
	if c.Self != "" {
		x.consts["p.self"] = "Int"
		x.constIx["p.self"] = 0
		x.params[c.Self] = TV{S: "p.self", Sort: "Int", T: x.fn.Signature}
		var bind []Val
		for _, fv := range x.fn.FreeVars {
			bind = append(bind, fr.env[fv])
		}
		x.defines(&cursor{st, "true"}, &Closure{fn: x.fn, bind: bind}, c, "p.self")
	}
	env := &Env{x: x, g: x.g, st: st, old: x.entry, vars: map[string]TV{}}
	for k, v := range x.params {
		env.vars[k] = v
	}
	for _, l := range c.Lets {
		v := env.eval(l.E)
		v.S = x.def("let", v.Sort, v.S)
		env.vars[l.Title] = v
		x.params[l.Title] = v
	}
	for _, r := range c.Requires {
		x.fact("true", env.bool(r.E))
	}
	for _, r := range c.Assume {
		x.fact("true", env.bool(r.E))
		x.trustNote("assumed in "+x.key+": ", r)
	}
	for _, n := range c.Uses {
		gl := x.g.spec.Globals[n]
		if gl == nil {
			panic(specErr{"unknown global fact " + n})
		}
		x.fact("true", env.bool(gl.E))
		x.used["global "+n] = true
	}
	for _, gv := range c.Ghosts {
		s, t := x.g.specType(gv.Type)
		x.ghostT[gv.Name] = TV{Sort: s, T: t}
		x.varSort["gh."+gv.Name] = s
		v := env.eval(gv.Init)
		if v.Sort == "nil" {
			v = TV{S: nilFor(TV{Sort: s}), Sort: s, T: t}
		}
		st.v["gh."+gv.Name] = v.S
	}
	if c.Term != nil {
		x.term0 = x.def("measure", "Int", env.eval(c.Term).S)
	}
	x.modsC, x.modsAll = x.evalMods(env, c.Mods)
	for _, m := range x.modsC {
		x.get(st, m.heap)
	}
	for i := range x.modsC {
		if x.modsC[i].ref != "" {
			x.modsC[i].ref = x.def("mod", "Int", x.modsC[i].ref)
		}
	}
	if c.Trusted {
		x.trust[c.Key] = true
		return
	}
	entryCur := &cursor{st.clone(), "true"}
	x.canary(entryCur, "entry")
	fr.in[x.fn.Blocks[0]] = []edge{{cond: "true", st: st}}
	x.execFrame(fr)
	var reaches []string
	for _, e := range fr.exits {
		x.exitN++
		reaches = append(reaches, e.cond)
		x.atExit(fr, e)
	}
	if len(fr.exits) > 0 {
		cx := &cursor{x.entry, or(reaches...)}
		x.canary(cx, "exit")
		for _, o := range x.c.OnCalls {
			if !x.hit[o.Callee] {
				x.hit[o.Callee] = true
				x.oblige(&cursor{x.entry, "true"}, "annotation", "never called: "+o.Callee, "false", o.Labels, token.NoPos, "the contract speaks about calls of "+o.Callee+", there is none")
			}
		}
	} else {
		x.oblige(&cursor{x.entry, "true"}, "annotation", "no exit", "false", nil, token.NoPos, "the function never returns")
	}
}

func (x *Exec) trustNote(pre string, c Clause) {
	x.trust[fmt.Sprintf("%s%s:%d", pre, shortFile(c.File), c.Line)] = true
}

func shortFile(f string) string {
	if i := strings.LastIndex(f, "/"); i >= 0 {
		return f[i+1:]
	}
	return f
}

// canary must not be provable.
func (x *Exec) canary(cur *cursor, name string) {
	n := len(x.obls)
	x.oblige(cur, "canary", name, "false", []string{"canary"}, token.NoPos, "the assumptions are consistent")
	_ = n
}

func (x *Exec) atExit(fr *Frame, e exit) {
	x.exits++
	x.exit, x.exitNF = x.exits, e.nf
	defer func() { x.exit = 0 }()
	cur := &cursor{e.st, e.cond}
	env := &Env{x: x, g: x.g, st: e.st, old: x.entry, vars: map[string]TV{}}
	for k, v := range x.params {
		env.vars[k] = v
	}
	bindArgs(env, x.c.Results, x.terms(cur, e.res, e.pos))
	for _, h := range x.c.Inst {
		if v, ok := x.tryEval(env, h.E); ok {
			x.oblige(cur, "hint", h.Title, v.S, h.Labels, e.pos, "")
			x.exitFact = x.exit
			x.fact(cur.reach, v.S)
			x.exitFact = 0
		} else {
			x.oblige(cur, "annotation", "hint", "false", h.Labels, e.pos, x.lastErr())
		}
	}
	for i, c := range x.c.Ensures {
		t := c.Title
		if t == "" {
			t = fmt.Sprint(i + 1)
		}
		v, ok := x.tryEval(env, c.E)
		if !ok {
			x.oblige(cur, "annotation", "ensures."+t, "false", c.Labels, e.pos, x.lastErr())
			continue
		}
		x.oblige(cur, "ensures", t, v.S, c.Labels, e.pos, "")
		x.exitFact = x.exit
		x.fact(cur.reach, v.S)
		x.exitFact = 0
	}
	if x.modsAll {
		return
	}
	var hs []string
	for h, v := range e.st.v {
		if (isHeapName(h) || strings.HasPrefix(h, "V.")) && v != x.get(x.entry, h) {
			hs = append(hs, h)
		}
	}
	sort.Strings(hs)
	for _, h := range hs {
		f := x.frame(h, e.st.v[h], x.get(x.entry, h), false)
		x.oblige(cur, "frame", h, f, x.modLabels(), e.pos, "only the objects named in the modifies clause change")
	}
}

// defines adds the facts that define a function value: what it captured.
func (x *Exec) defines(cur *cursor, v *Closure, c *Contract, self string) {
	env := &Env{x: x, g: x.g, st: cur.st, old: cur.st, vars: map[string]TV{}}
	env.vars[c.Self] = TV{S: self, Sort: "Int", T: v.fn.Signature}
	for i, fv := range v.fn.FreeVars {
		p, ok := v.bind[i].(TV)
		if !ok || !capturedOnce(v.fn, i) {
			panic(specErr{"the captured variable " + fv.Name() + " is not constant"})
		}
		p.T = fv.Type()
		env.vars[fv.Name()] = x.loadPtr(cur, p)
	}
	for _, d := range c.Defines {
		x.fact("true", env.bool(d.E))
	}
}

// capturedOnce tells if the variable captured by a function is written once,
// before the function is made, and nowhere else.
func capturedOnce(fn *ssa.Function, i int) bool {
	for _, r := range *fn.FreeVars[i].Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
		default:
			_ = r
			return false
		}
	}
	parent := fn.Parent()
	if parent == nil {
		return false
	}
	made := 0
	for _, b := range parent.Blocks {
		for _, ins := range b.Instrs {
			mc, ok := ins.(*ssa.MakeClosure)
			if !ok || mc.Fn != fn {
				continue
			}
			made++
			a, ok := mc.Bindings[i].(*ssa.Alloc)
			if !ok || a.Block() != b {
				return false
			}
			stores := 0
			for _, r := range *a.Referrers() {
				switch r := r.(type) {
				case *ssa.DebugRef, *ssa.UnOp:
				case *ssa.MakeClosure:
					if r != mc {
						return false
					}
				case *ssa.Store:
					if r.Addr != a || r.Block() != b {
						return false
					}
					before := false
					for _, x := range b.Instrs {
						if x == ssa.Instruction(r) {
							before = true
						}
						if x == ins {
							break
						}
					}
					if !before {
						return false
					}
					stores++
				default:
					return false
				}
			}
			if stores > 1 {
				return false
			}
		}
	}
	return made == 1
}
