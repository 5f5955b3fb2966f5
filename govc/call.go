package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) callVals(fr *Frame, cur *cursor, c *ssa.CallCommon) (fnv Val, args []Val) {
	if _, b := c.Value.(*ssa.Builtin); !b {
		fnv = x.val(fr, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, x.val(fr, a))
	}
	return
}

func (x *Exec) callInstr(fr *Frame, cur *cursor, c *ssa.CallCommon, v ssa.Value, pos token.Pos) Val {
	fnv, args := x.callVals(fr, cur, c)
	return x.doCall(fr, cur, c, fnv, args, v, pos)
}

func (x *Exec) doCall(fr *Frame, cur *cursor, c *ssa.CallCommon, fnv Val, args []Val, v ssa.Value, pos token.Pos) Val {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, cur, b.Name(), c, args, pos)
	}
	if c.IsInvoke() {
		return x.invoke(fr, cur, c, x.term(cur, fnv, pos), args, pos)
	}
	switch f := fnv.(type) {
	case *Closure:
		return x.callFn(fr, cur, f.fn, f.bind, args, pos)
	case TV:
		return x.dynamic(fr, cur, c, f, args, pos)
	}
	x.unsupported(cur, pos, "call of %T", fnv)
	return x.freshResults(cur, c.Signature(), "r")
}

func (x *Exec) freshResults(cur *cursor, sig *types.Signature, prefix string) Val {
	rs := sig.Results()
	var out Tuple
	nxt := x.get(cur.st, "nxt")
	for i := 0; i < rs.Len(); i++ {
		s := x.g.sortOf(rs.At(i).Type())
		n := rs.At(i).Name()
		if n == "" || n == "_" {
			n = prefix
		}
		r := TV{S: x.fresh(n, s), Sort: s, T: rs.At(i).Type()}
		x.wf(r, nxt)
		out = append(out, r)
	}
	if len(out) == 1 {
		return out[0]
	}
	return out
}

func (x *Exec) contract(key string) *Contract {
	if c := x.g.spec.Contracts[key]; c != nil {
		return c
	}
	if i := strings.Index(key, "["); i > 0 && strings.HasSuffix(key, "]") {
		return x.g.spec.Contracts[key[:i]]
	}
	return nil
}

func matchKey(pat, key string) bool {
	if pat == key {
		return true
	}
	i := strings.Index(key, "[")
	return i > 0 && pat == key[:i]
}

func ifaceKey(t types.Type, m string) string {
	n := tstr(t)
	if nm, ok := types.Unalias(t).(*types.Named); ok {
		n = tstr(nm.Origin())
		if i := strings.Index(n, "["); i > 0 {
			n = n[:i]
		}
	}
	return n + "." + m
}

func (x *Exec) invoke(fr *Frame, cur *cursor, c *ssa.CallCommon, recv TV, args []Val, pos token.Pos) Val {
	if recv.box != nil {
		if sel := x.g.p.prog.MethodSets.MethodSet(recv.box.T).Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
			if fn := x.g.p.prog.MethodValue(sel); fn != nil {
				return x.callFn(fr, cur, fn, nil, append([]Val{*recv.box}, args...), pos)
			}
		}
	}
	t := c.Value.Type()
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		t = tp.Constraint()
	}
	key := ifaceKey(t, c.Method.Name())
	ct := x.contract(key)
	if ct == nil {
		// an embedded interface
		if it, ok := t.Underlying().(*types.Interface); ok {
			for i := 0; i < it.NumEmbeddeds(); i++ {
				if k := ifaceKey(it.EmbeddedType(i), c.Method.Name()); ct == nil && x.contract(k) != nil {
					key, ct = k, x.contract(k)
				}
			}
		}
	}
	x.safety(fr, cur, "(not (= (itag "+recv.S+") 0))", "nil dereference", pos)
	if ct == nil {
		x.unsupported(cur, pos, "no contract for %s", key)
		return x.freshResults(cur, c.Signature(), "r")
	}
	all := append([]Val{recv}, args...)
	if len(ct.Cases) > 0 {
		return x.dispatchIface(fr, cur, ct, recv, args, pos)
	}
	x.at(fr, cur, key, all, pos)
	pre := cur.st.clone()
	r := x.contractCall(fr, cur, ct, nil, c.Signature(), all, pos)
	x.on(fr, cur, key, all, r, pre, pos)
	return r
}

func (x *Exec) dispatchIface(fr *Frame, cur *cursor, ct *Contract, recv TV, args []Val, pos token.Pos) Val {
	var exits []exit
	var conds []string
	for _, k := range ct.Cases {
		fn := x.g.p.funcs[k]
		if fn == nil {
			x.unsupported(cur, pos, "case %s does not exist", k)
			continue
		}
		rt := fn.Signature.Recv().Type()
		box, unbox := x.g.boxFns(rt)
		cond := fmt.Sprintf("(= (itag %s) %d)", recv.S, x.g.tag(rt))
		conds = append(conds, cond)
		s := x.g.sortOf(rt)
		rv := TV{S: x.def("recv", s, "("+unbox+" (ival "+recv.S+"))"), Sort: s, T: rt}
		x.fact("true", fmt.Sprintf("(=> %s (= (%s %s) (ival %s)))", cond, box, rv.S, recv.S))
		x.wf(rv, x.get(cur.st, "nxt"))
		c2 := &cursor{cur.st.clone(), x.def("case", "Bool", and(cur.reach, cond))}
		r := x.callFn(fr, c2, fn, nil, append([]Val{rv}, args...), pos)
		exits = append(exits, exit{cond: c2.reach, st: c2.st, res: resList(r)})
	}
	x.note("closed world: %s is implemented by %s only", ct.Key, strings.Join(ct.Cases, ", "))
	x.fact(cur.reach, or(conds...))
	return x.mergeExits(cur, exits)
}

func resList(v Val) []Val {
	switch v := v.(type) {
	case nil:
		return nil
	case Tuple:
		return v
	}
	return []Val{v}
}

func resVal(vs []Val) Val {
	if len(vs) == 1 {
		return vs[0]
	}
	return Tuple(vs)
}

// mergeExits joins the states at the exits of a callee.
func (x *Exec) mergeExits(cur *cursor, exits []exit) Val {
	if len(exits) == 0 {
		cur.reach = "false"
		return Tuple(nil)
	}
	var es []edge
	for _, e := range exits {
		es = append(es, edge{cond: e.cond, st: e.st})
	}
	st, reach := x.merge(es)
	cur.st, cur.reach = st, reach
	if len(exits) == 1 {
		return resVal(exits[0].res)
	}
	var out []Val
	for k := range exits[0].res {
		if f, isTV := exits[0].res[k].(TV); isTV || true {
			same := true
			var ts []TV
			for _, e := range exits {
				if e.res[k] == nil {
					continue
				}
				c := &cursor{e.st, e.cond}
				if _, ok := e.res[k].(TV); !ok && !isTV {
					// not a term
				}
				t := x.term(c, e.res[k], token.NoPos)
				if len(ts) > 0 && t.S != ts[0].S {
					same = false
				}
				ts = append(ts, t)
			}
			if same {
				out = append(out, exits[0].res[k])
				continue
			}
			t := ts[len(ts)-1].S
			for j := len(ts) - 2; j >= 0; j-- {
				t = ite(exits[j].cond, ts[j].S, t)
			}
			ty := f.T
			if ty == nil {
				ty = ts[0].T
			}
			out = append(out, TV{S: x.def("res", ts[0].Sort, t), Sort: ts[0].Sort, T: ty})
		}
	}
	return resVal(out)
}

func (x *Exec) dynamic(fr *Frame, cur *cursor, c *ssa.CallCommon, f TV, args []Val, pos token.Pos) Val {
	key := ""
	if n, ok := types.Unalias(c.Value.Type()).(*types.Named); ok {
		key = tstr(n.Origin())
		if i := strings.Index(key, "["); i > 0 {
			key = key[:i]
		}
	}
	ct := x.contract(key)
	x.safety(fr, cur, "(not (= "+f.S+" 0))", "nil function", pos)
	if ct == nil {
		x.unsupported(cur, pos, "call of an unknown function value of type %s", c.Value.Type())
		return x.freshResults(cur, c.Signature(), "r")
	}
	if len(ct.Cases) > 0 {
		var exits []exit
		var conds []string
		for _, k := range ct.Cases {
			fn := x.g.p.funcs[k]
			if fn == nil {
				x.unsupported(cur, pos, "case %s does not exist", k)
				continue
			}
			cond := fmt.Sprintf("(= %s %d)", f.S, x.g.fnIDs[k])
			conds = append(conds, cond)
			c2 := &cursor{cur.st.clone(), x.def("case", "Bool", and(cur.reach, cond))}
			r := x.callFn(fr, c2, fn, nil, args, pos)
			exits = append(exits, exit{cond: c2.reach, st: c2.st, res: resList(r)})
		}
		x.oblige(cur, "dispatch", key, or(conds...), x.safetyLabels(), pos, "the function value is one of the known ones")
		x.fact(cur.reach, or(conds...))
		return x.mergeExits(cur, exits)
	}
	all := append([]Val{f}, args...)
	x.at(fr, cur, key, all, pos)
	pre := cur.st.clone()
	r := x.contractCall(fr, cur, ct, nil, c.Signature(), all, pos)
	x.on(fr, cur, key, all, r, pre, pos)
	return r
}

func (x *Exec) callFn(fr *Frame, cur *cursor, fn *ssa.Function, bind, args []Val, pos token.Pos) Val {
	key := funcKey(fn)
	if cur.reach == "false" {
		return x.freshResults(cur, fn.Signature, "r")
	}
	if fn.Synthetic == "package initializer" && x.fn.Synthetic == "package initializer" {
		x.trust["the initializers of imported packages leave this one alone"] = true
		return x.freshResults(cur, fn.Signature, "r")
	}
	if r, ok := x.model(fr, cur, fn, key, args, pos); ok {
		return r
	}
	x.at(fr, cur, key, args, pos)
	pre := cur.st.clone()
	var r Val
	c := x.contract(key)
	switch {
	case c != nil:
		x.called[key] = true
		r = x.contractCall(fr, cur, c, fn, fn.Signature, args, pos)
	case len(fn.Blocks) == 0 || !x.g.p.isRepo(fn):
		x.unsupported(cur, pos, "no contract for %s", key)
		r = x.freshResults(cur, fn.Signature, "r")
	default:
		for f := fr; f != nil; f = f.parent {
			if f.fn == fn {
				x.unsupported(cur, pos, "recursive function %s without contract", key)
				return x.freshResults(cur, fn.Signature, "r")
			}
		}
		x.inlined[key] = true
		r = x.inline(fr, cur, fn, bind, args)
		x.itsGhost = nil
	}
	x.on(fr, cur, key, args, r, pre, pos)
	return r
}

func (p *Program) isRepo(fn *ssa.Function) bool {
	if fn.Parent() != nil {
		return p.isRepo(fn.Parent())
	}
	if fn.Pkg != nil {
		return p.repo[fn.Pkg.Pkg]
	}
	if fn.Origin() != nil && fn.Origin().Pkg != nil {
		return p.repo[fn.Origin().Pkg.Pkg]
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return p.repo[fn.Object().Pkg()]
	}
	return fn.Synthetic != ""
}

// inline executes the body of fn.
func (x *Exec) inline(parent *Frame, cur *cursor, fn *ssa.Function, bind, args []Val) Val {
	fr := x.newFrame(fn, parent)
	for i, p := range fn.Params {
		v := args[i]
		if t, ok := v.(TV); ok {
			t.T = p.Type()
			v = t
		}
		fr.env[p] = v
	}
	for i, b := range fn.FreeVars {
		if i < len(bind) {
			fr.env[b] = bind[i]
		}
	}
	fr.in[fn.Blocks[0]] = []edge{{cond: cur.reach, st: cur.st}}
	x.execFrame(fr)
	return x.mergeExits(cur, fr.exits)
}

// execFrame runs the body of a frame, and its recovering exit.
func (x *Exec) execFrame(fr *Frame) {
	x.run(fr, rpo(fr.fn), nil)
	if len(fr.panics) > 0 {
		st, reach := x.merge(fr.panics)
		fr.panics = nil
		fr.panick = true
		c := &cursor{st, reach}
		rn := fmt.Sprintf("rec%d", fr.id)
		x.varSort[rn] = "Bool"
		st.v[rn] = "false"
		x.runDefers(fr, c, nil)
		x.oblige(c, "safety", "panic is recovered", x.get(c.st, rn), x.safetyLabels(), fr.fn.Pos(), "a deferred function recovers the panic")
		if fr.fn.Recover != nil {
			x.block(fr, fr.fn.Recover, c, nil)
		} else {
			fr.exits = append(fr.exits, exit{c.reach, c.st, nil, fr.fn.Pos(), len(x.facts)})
		}
	}
}

func callsRecover(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

func (f *Frame) recovers() bool {
	for _, d := range f.defers {
		if c, ok := d.fnv.(*Closure); ok && callsRecover(c.fn) {
			return true
		}
	}
	return false
}

func reaches(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock) bool
	dfs = func(b *ssa.BasicBlock) bool {
		if b == to {
			return true
		}
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if dfs(s) {
				return true
			}
		}
		return false
	}
	return dfs(from)
}

func (x *Exec) runDefers(fr *Frame, cur *cursor, at *ssa.BasicBlock) {
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		if at != nil && !d.block.Dominates(at) {
			if reaches(d.block, at) {
				x.unsupported(cur, d.call.Pos(), "conditional defer")
			}
			continue
		}
		x.doCall(fr, cur, d.call, d.fnv, d.args, nil, d.call.Pos())
	}
}

// ---------------------------------------------------------------- contracts

func bindArgs(env *Env, names []string, vals []TV) {
	for i, n := range names {
		if i < len(vals) && n != "_" {
			env.vars[n] = vals[i]
		}
	}
}

func (x *Exec) terms(cur *cursor, vs []Val, pos token.Pos) []TV {
	var r []TV
	for _, v := range vs {
		if a, ok := v.(*Addr); ok && a.kind != "sel" {
			// interior pointer passed to a function with contract
			r = append(r, TV{S: x.fresh("iptr", "Int"), Sort: "Int", T: types.NewPointer(a.elemType())})
			continue
		}
		r = append(r, x.term(cur, v, pos))
	}
	return r
}

func (x *Exec) at(fr *Frame, cur *cursor, key string, args []Val, pos token.Pos) {
	if x.c == nil {
		return
	}
	for _, o := range x.c.OnCalls {
		if !o.Assert || !matchKey(o.Callee, key) {
			continue
		}
		x.hit[o.Callee] = true
		if o.Frames {
			x.frames(cur, pos)
			continue
		}
		env := x.callEnv(fr, cur, pos)
		bindArgs(env, o.Args, x.terms(cur, args, pos))
		goal := ""
		if o.When != nil {
			w, ok := x.tryEval(env, o.When)
			if !ok {
				x.oblige(cur, "annotation", "at-call:"+o.Title, "false", o.Labels, pos, x.lastErr())
				continue
			}
			if w.S == "false" {
				continue
			}
			goal = w.S
		}
		v, ok := x.tryEval(env, o.E)
		t := o.Title
		if t == "" {
			t = o.Callee
		}
		if !ok {
			x.oblige(cur, "annotation", "at-call:"+t, "false", o.Labels, pos, x.lastErr())
			continue
		}
		g := v.S
		if goal != "" {
			g = "(=> " + goal + " " + g + ")"
		}
		x.oblige(cur, "at-call", t, g, x.supports(o.Labels), pos, "")
		x.fact(cur.reach, g)
	}
}

func (x *Exec) lastErr() string {
	if len(x.errs) == 0 {
		return ""
	}
	return x.errs[len(x.errs)-1]
}

func (x *Exec) callEnv(fr *Frame, cur *cursor, pos token.Pos) *Env {
	env := &Env{x: x, g: x.g, st: cur.st, old: x.entry, vars: map[string]TV{}}
	for k, v := range x.params {
		env.vars[k] = v
	}
	b := fr.curB
	for f := fr; f != nil && env.vars["k"].S == ""; f = f.parent {
		for h := f.curB; h != nil; h = h.Idom() {
			if l := f.loops[h]; l != nil && l.body[f.curB] && f.loopk[h] != "" {
				env.vars["k"] = in(f.loopk[h])
				break
			}
		}
	}
	env.look = func(name string) (TV, bool) { return x.lookupHere(fr, b, cur, name) }
	return env
}

// lookupHere resolves a name within a block: names bound so far in it count.
func (x *Exec) lookupHere(fr *Frame, b *ssa.BasicBlock, cur *cursor, name string) (TV, bool) {
	for f := fr; f != nil; f = f.parent {
		bb := b
		if f != fr {
			bb = f.curB
		}
		if v, ok := x.boundIn(f, bb, cur, name); ok {
			return v, true
		}
		if f == fr {
			if v, ok := x.lookup(f, bb, cur, name); ok {
				return v, true
			}
		}
	}
	return TV{}, false
}

func (x *Exec) on(fr *Frame, cur *cursor, key string, args []Val, res Val, pre *State, pos token.Pos) {
	if x.c == nil {
		return
	}
	for _, o := range x.c.OnCalls {
		if o.Assert || !matchKey(o.Callee, key) {
			continue
		}
		x.hit[o.Callee] = true
		env := x.callEnv(fr, cur, pos)
		env.pre = pre
		for n, v := range x.itsGhost {
			env.vars["its_"+n] = v
		}
		bindArgs(env, o.Args, x.terms(cur, args, pos))
		bindArgs(env, o.Res, x.terms(cur, resList(res), pos))
		name := "gh." + o.Ghost
		if _, ok := x.ghostT[o.Ghost]; !ok {
			x.oblige(cur, "annotation", "on-call:"+o.Ghost, "false", o.Labels, pos, "unknown ghost "+o.Ghost)
			continue
		}
		when := ""
		if o.When != nil {
			w, ok := x.tryEval(env, o.When)
			if !ok {
				x.oblige(cur, "annotation", "on-call:"+o.Ghost, "false", o.Labels, pos, x.lastErr())
				continue
			}
			if w.S == "false" {
				continue
			}
			when = w.S
		}
		v, ok := x.tryEval(env, o.E)
		if !ok {
			x.oblige(cur, "annotation", "on-call:"+o.Ghost, "false", o.Labels, pos, x.lastErr())
			continue
		}
		nv := v.S
		if v.Sort == "nil" {
			nv = nilFor(x.ghostT[o.Ghost])
		}
		if when != "" {
			nv = ite(when, nv, x.get(cur.st, name))
		}
		x.set(cur.st, name, nv, "*")
	}
}

// modT is a target of a modifies clause.
type modT struct {
	heap string
	ref  string // "" for the whole heap
	from string // for elems: only the elements from this offset
	cond string
}

func (x *Exec) evalMods(env *Env, items []ModItem) (out []modT, all bool) {
	g := x.g
	for _, m := range items {
		cond := "true"
		if m.Cond != nil {
			cond = env.bool(m.Cond)
		}
		switch m.Kind {
		case "all":
			all = true
		case "heap":
			g.registerHeap(m.Heap)
			if strings.HasPrefix(m.Heap, "M:") {
				t, _ := parseTypeRef(m.Heap[2:])
				gt, err := g.goType(t)
				if err != nil {
					panic(specErr{err.Error()})
				}
				d, v, n := g.mapHeaps(gt.(*types.Map))
				out = append(out, modT{heap: d, cond: cond}, modT{heap: v, cond: cond}, modT{heap: n, cond: cond})
				continue
			}
			out = append(out, modT{heap: g.canonHeap(m.Heap), cond: cond})
		case "elems":
			v := env.eval(m.E)
			el := v.T.Underlying().(*types.Slice).Elem()
			t := modT{heap: g.elemHeap(el), ref: "(sarr " + v.S + ")", cond: cond}
			if m.From != nil {
				t.from = "(+ (soff " + v.S + ") " + env.eval(m.From).S + ")"
				// nothing is beyond the length of a slice without capacity
				t.cond = and(cond, "(> (scap "+v.S+") 0)")
			}
			out = append(out, t)
		case "map":
			v := env.eval(m.E)
			d, vl, n := g.mapHeaps(v.T.Underlying().(*types.Map))
			for _, h := range []string{d, vl, n} {
				out = append(out, modT{heap: h, ref: v.S, cond: cond})
			}
		case "cell":
			v := env.eval(m.E)
			el := v.T.Underlying().(*types.Pointer).Elem()
			if st, ok := el.Underlying().(*types.Struct); ok && !g.opaque(el) {
				for k := 0; k < st.NumFields(); k++ {
					out = append(out, modT{heap: g.fieldHeap(el, k), ref: v.S, cond: cond})
				}
				continue
			}
			out = append(out, modT{heap: g.cellHeap(el), ref: v.S, cond: cond})
		case "field":
			v := env.eval(m.E.Args[0])
			if v.T == nil {
				serr(m.E, "modifies: untyped base")
			}
			bt := v.T
			pt, isP := bt.Underlying().(*types.Pointer)
			if isP {
				bt = pt.Elem()
			}
			done := false
			for _, gf := range g.ghostFields(bt) {
				if gf.Field == m.E.Name {
					out = append(out, modT{heap: g.ghostHeap(gf), ref: v.S, cond: cond})
					done = true
				}
			}
			if done {
				continue
			}
			st, ok := bt.Underlying().(*types.Struct)
			if !ok || !isP {
				serr(m.E, "modifies: %s is not a pointer to a struct", v.T)
			}
			for k := 0; k < st.NumFields(); k++ {
				if st.Field(k).Name() == m.E.Name {
					out = append(out, modT{heap: g.fieldHeap(bt, k), ref: v.S, cond: cond})
					done = true
				}
			}
			if !done {
				serr(m.E, "modifies: no field %s in %s", m.E.Name, v.T)
			}
		}
	}
	return
}

// frameFormula states that a heap is unchanged below nxt, except for the targets.
func (x *Exec) frameFormula(heap, new, old, nxt string, mods []modT) string {
	if new == old {
		return "true"
	}
	if strings.HasPrefix(heap, "V.") {
		for _, m := range mods {
			if m.heap == heap {
				return "true"
			}
		}
		return "(= " + new + " " + old + ")"
	}
	var ms []modT
	for _, m := range mods {
		if m.heap == heap {
			if m.ref == "" && m.cond == "true" {
				return "true"
			}
			ms = append(ms, m)
		}
	}
	var cs []string
	cs = append(cs, "(< r? "+nxt+")")
	for _, m := range ms {
		if m.ref == "" {
			cs = append(cs, not(m.cond))
		} else if m.cond == "true" {
			cs = append(cs, "(not (= r? "+m.ref+"))")
		} else {
			cs = append(cs, "(not (and "+m.cond+" (= r? "+m.ref+")))")
		}
	}
	out := []string{fmt.Sprintf("(forall ((r? Int)) (! (=> %s (= (select %s r?) (select %s r?))) :pattern ((select %s r?))))", and(cs...), new, old, new)}
	for i, m := range ms {
		if m.from == "" {
			continue
		}
		gs := []string{m.cond, "(< " + m.ref + " " + nxt + ")"}
		is := []string{"(< i? " + m.from + ")"}
		for j, o := range ms {
			if j == i {
				continue
			}
			eq := and(o.cond, "(= "+o.ref+" "+m.ref+")")
			if o.ref == "" {
				eq = o.cond
			}
			if o.from == "" {
				gs = append(gs, not(eq))
			} else {
				is = append(is, "(=> "+eq+" (< i? "+o.from+"))")
			}
		}
		out = append(out, fmt.Sprintf("(=> %s (forall ((i? Int)) (! (=> %s (= (select (select %s %s) i?) (select (select %s %s) i?))) :pattern ((select (select %s %s) i?)))))",
			and(gs...), and(is...), new, m.ref, old, m.ref, new, m.ref))
	}
	return and(out...)
}

// frame is the frame condition of the function itself.
func (x *Exec) frame(heap, new, old string, assume bool) string {
	if x.modsAll {
		return "true"
	}
	return x.frameFormula(heap, new, old, x.get(x.entry, "nxt"), x.modsC)
}

// frames proves the frame conditions of what the function may modify in part.
func (x *Exec) frames(cur *cursor, pos token.Pos) {
	done := map[string]bool{}
	for _, m := range x.modsC {
		v := cur.st.v[m.heap]
		if done[m.heap] || m.ref == "" || v == "" || v == x.get(x.entry, m.heap) {
			continue
		}
		done[m.heap] = true
		f := x.frame(m.heap, v, x.get(x.entry, m.heap), false)
		x.oblige(cur, "frame", m.heap, f, x.modLabels(), pos, "only the objects named in the modifies clause change")
		x.factK(cur.reach, f, v)
	}
}

func (x *Exec) modLabels() []string {
	if x.c != nil && len(x.c.ModLabel) > 0 {
		return x.c.ModLabel
	}
	return nil
}

func isHeapName(n string) bool {
	for _, p := range []string{"F.", "E.", "C.", "MD.", "MV.", "ML.", "G."} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func (x *Exec) contractCall(fr *Frame, cur *cursor, c *Contract, fn *ssa.Function, sig *types.Signature, args []Val, pos token.Pos) Val {
	ts := x.terms(cur, args, pos)
	if fn != nil {
		for i, p := range fn.Params {
			if i < len(ts) {
				ts[i].T = p.Type()
			}
		}
	}
	pre := cur.st.clone()
	env := &Env{x: x, g: x.g, st: cur.st, old: pre, vars: map[string]TV{}}
	bindArgs(env, c.Params, ts)
	if c.Kind == "extern" || c.Trusted {
		x.trust[c.Key] = true
	}
	x.used[c.Key] = true
	for _, l := range c.Lets {
		if v, ok := x.tryEval(env, l.E); ok {
			v.S = x.def("let", v.Sort, v.S)
			env.vars[l.Title] = v
		} else {
			x.oblige(cur, "annotation", c.Key+".let", "false", nil, pos, x.lastErr())
		}
	}
	for i, r := range c.Requires {
		v, ok := x.tryEval(env, r.E)
		t := r.Title
		if t == "" {
			t = fmt.Sprint(i + 1)
		}
		if !ok {
			x.oblige(cur, "annotation", "requires:"+c.Key+"."+t, "false", x.supports(r.Labels), pos, x.lastErr())
			continue
		}
		x.oblige(cur, "requires", c.Key+"."+t, v.S, x.supports(r.Labels), pos, "")
		x.fact(cur.reach, v.S)
	}
	if c.Term != nil && x.c != nil && x.c.Term != nil && x.term0 != "" && x.g.sameSCC(x.fn, fn) {
		if v, ok := x.tryEval(env, c.Term); ok {
			x.oblige(cur, "decreases", "call:"+c.Key, fmt.Sprintf("(and (<= 0 %s) (< %s %s))", v.S, v.S, x.term0), x.c.TermL, pos, "termination measure of the recursive call")
		}
	}
	// effects
	var mods []modT
	all := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				se, ok := r.(specErr)
				if !ok {
					panic(r)
				}
				x.errs = append(x.errs, c.Key+": "+se.msg)
				x.oblige(cur, "annotation", "modifies:"+c.Key, "false", nil, pos, se.msg)
				all = true
			}
		}()
		mods, all = x.evalMods(env, c.Mods)
	}()
	for _, m := range mods {
		x.get(cur.st, m.heap)
	}
	nxt0 := x.get(cur.st, "nxt")
	var eff map[string]bool
	effAll := all
	switch {
	case c.Pure:
	case fn != nil && c.Kind == "func" && !all:
		e := x.g.effects(fn)
		eff, effAll = e.heaps, effAll || e.all
	case c.Kind == "extern" && !all:
	default:
		effAll = true
	}
	if c.Pure {
		effAll = false
	}
	if effAll {
		if eff == nil {
			eff = map[string]bool{}
		} else {
			n := map[string]bool{}
			for k := range eff {
				n[k] = true
			}
			eff = n
		}
		for h := range x.known {
			if isHeapName(h) {
				eff[h] = true
			}
		}
	}
	if !c.Pure && (len(eff) > 0 || effAll || c.Kind == "extern" || fn != nil) {
		x.set(cur.st, "nxt", x.fresh("nxt", "Int"), "*")
		x.fact("true", "(>= "+x.get(cur.st, "nxt")+" "+nxt0+")")
	}
	var hs []string
	for h := range eff {
		hs = append(hs, h)
	}
	sort.Strings(hs)
	for _, h := range hs {
		if strings.HasPrefix(h, "V.") {
			continue
		}
		old := x.get(cur.st, h)
		n := x.fresh(strings.TrimPrefix(h, "F."), x.g.heapT[h].sort)
		tgts := []string{"*fresh"}
		if all {
			tgts = []string{"*"}
		}
		for _, m := range mods {
			if m.heap == h {
				if m.ref == "" {
					tgts = append(tgts, "*")
				} else {
					tgts = append(tgts, m.ref)
				}
			}
		}
		x.touchGroups(cur.st, h)
		cur.st.v[h] = n
		x.record(h, tgts...)
		if !all {
			x.factK(cur.reach, x.frameFormula(h, n, old, nxt0, mods), n)
		}
	}
	if eff == nil || c.Kind == "extern" {
		for _, m := range mods {
			if eff[m.heap] {
				continue
			}
			old := x.get(cur.st, m.heap)
			hi := x.g.heapT[m.heap]
			if m.ref == "" {
				x.set(cur.st, m.heap, x.fresh("h", hi.sort), "*")
				continue
			}
			nv := x.fresh("mod", innerSort(m.heap, hi))
			if m.from != "" {
				x.fact("true", fmt.Sprintf("(forall ((i? Int)) (! (=> (< i? %s) (= (select %s i?) (select (select %s %s) i?))) :pattern ((select %s i?))))", m.from, nv, old, m.ref, nv))
			}
			x.set(cur.st, m.heap, ite(m.cond, fmt.Sprintf("(store %s %s %s)", old, m.ref, nv), old), m.ref)
		}
	}
	if c.MayPanic {
		p := x.fresh("panics", "Bool")
		if c.PanicIf != nil {
			e := env.with(nil)
			e.st = pre
			if v, ok := x.tryEval(e, c.PanicIf.E); ok {
				x.fact("true", "(=> "+p+" "+v.S+")")
			}
		}
		env3 := env.with(nil)
		env3.st, env3.old = cur.st, pre
		for _, e := range c.Always {
			if v, ok := x.tryEval(env3, e.E); ok {
				x.fact(cur.reach, v.S)
			}
		}
		x.safety(fr, cur, "(not "+p+")", "panic in "+c.Key, pos)
	}
	// results
	res := x.freshResults(cur, sig, "r")
	env2 := env.with(nil)
	env2.st, env2.old = cur.st, pre
	bindArgs(env2, c.Results, x.terms(cur, resList(res), pos))
	x.itsGhost = map[string]TV{}
	for _, gv := range c.Ghosts {
		s, t := x.g.specType(gv.Type)
		env2.vars[gv.Name] = TV{S: x.fresh("g."+gv.Name, s), Sort: s, T: t}
		x.itsGhost[gv.Name] = env2.vars[gv.Name]
	}
	for i, e := range c.Ensures {
		v, ok := x.tryEval(env2, e.E)
		if !ok {
			x.oblige(cur, "annotation", fmt.Sprintf("ensures:%s.%d", c.Key, i+1), "false", nil, pos, x.lastErr())
			continue
		}
		x.fact(cur.reach, v.S)
	}
	return res
}

func innerSort(heap string, hi heapInfo) string {
	if strings.HasPrefix(heap, "E.") {
		return "(Array Int " + hi.val + ")"
	}
	return hi.val
}
