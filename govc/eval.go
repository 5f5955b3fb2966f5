package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Env is the environment of the evaluation of a specification expression.
type Env struct {
	entryVars map[string]TV // parameters at entry, if assigned to since
	x     *Exec
	g     *Gen
	st    *State
	old   *State
	pre   *State
	vars  map[string]TV
	look  func(string) (TV, bool)
	group string
	gv    string
	self  string // recursive function being defined: calls use the fuel-0 version
	q     int
}

func (e *Env) with(vars map[string]TV) *Env {
	n := *e
	n.vars = map[string]TV{}
	for k, v := range e.vars {
		n.vars[k] = v
	}
	for k, v := range vars {
		n.vars[k] = v
	}
	return &n
}

func serr(ex *Expr, f string, a ...any) {
	panic(specErr{fmt.Sprintf("%s:%d: %s", ex.File, ex.Line, fmt.Sprintf(f, a...))})
}

func (e *Env) heap(ex *Expr, name string) string {
	if e.gv != "" {
		gr := e.g.spec.Groups[e.group]
		for _, h := range gr.Heaps {
			if h == name {
				return "(" + e.g.hpFn(e.group, name) + " " + e.gv + ")"
			}
		}
		serr(ex, "heap %s is not in group %s", name, e.group)
	}
	if e.st == nil {
		serr(ex, "heap access %s without state", name)
	}
	return e.x.get(e.st, name)
}

func (g *Gen) hpFn(group, heap string) string {
	n := "hp$" + group + "$" + heap
	if _, ok := g.decl[n]; !ok {
		gs := "GV$" + group
		g.declare(gs, "(declare-sort "+gs+" 0)")
		hi, ok := g.heapT[heap]
		if !ok {
			panic(specErr{"group " + group + ": unknown heap " + heap})
		}
		g.declare(n, fmt.Sprintf("(declare-fun %s (%s) %s)", n, gs, hi.sort))
		g.declare("same$"+group, fmt.Sprintf("(declare-fun same$%s (%s %s Int) Bool)", group, gs, gs))
	}
	return n
}

func (e *Env) loaded(v TV) TV {
	if e.q == 0 && e.gv == "" && e.x != nil && e.st != nil {
		e.x.wf(v, e.x.get(e.st, "nxt"))
	}
	return v
}

// heapName resolves "F.pkg.T.f" style names used in groups, registering the heap.
func (g *Gen) registerHeap(name string) {
	if _, ok := g.heapT[name]; ok {
		return
	}
	parts := strings.SplitN(name, ".", 2)
	switch parts[0] {
	case "F":
		p := strings.Split(parts[1], ".")
		if len(p) != 3 {
			panic(specErr{"bad heap name " + name})
		}
		t, err := g.goType(&TypeRef{Kind: "name", Name: p[0] + "." + p[1]})
		if err != nil {
			panic(specErr{err.Error()})
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			panic(specErr{"not a struct: " + name})
		}
		for i := 0; i < st.NumFields(); i++ {
			g.fieldHeap(t, i)
		}
	case "E", "C":
		t, err := parseTypeRef(parts[1])
		if err != nil {
			panic(specErr{err.Error()})
		}
		gt, err := g.goType(t)
		if err != nil {
			panic(specErr{err.Error()})
		}
		if parts[0] == "E" {
			g.elemHeap(gt)
		} else {
			g.cellHeap(gt)
		}
	case "M":
	}
	if strings.HasPrefix(name, "M:") {
		t, err := parseTypeRef(name[2:])
		if err != nil {
			panic(specErr{err.Error()})
		}
		gt, err := g.goType(t)
		if err != nil {
			panic(specErr{err.Error()})
		}
		g.mapHeaps(gt.(*types.Map))
	}
}

func parseTypeRef(s string) (t *TypeRef, err error) {
	toks, err := lexSpec("type", s)
	if err != nil {
		return nil, err
	}
	p := &specParser{file: "type", toks: toks}
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	return p.typ(), nil
}

func (e *Env) bool(ex *Expr) string {
	v := e.eval(ex)
	if v.Sort != "Bool" {
		serr(ex, "want Bool, got %s (%s)", v.Sort, v.S)
	}
	return v.S
}

func b(s string) TV  { return TV{S: s, Sort: "Bool", T: types.Typ[types.Bool]} }
func in(s string) TV { return TV{S: s, Sort: "Int", T: types.Typ[types.Int]} }

func nilFor(v TV) string {
	switch v.Sort {
	case "Slice":
		return "(mkSl 0 0 0 0)"
	case "Iface":
		return "(mkI 0 unil)"
	}
	return "0"
}

func eqTV(ex *Expr, a, c TV) string {
	if a.Sort == "nil" && c.Sort == "nil" {
		return "true"
	}
	if a.Sort == "nil" {
		a, c = c, a
	}
	if c.Sort == "nil" {
		switch a.Sort {
		case "Slice":
			return "(= (sarr " + a.S + ") 0)"
		case "Iface":
			return "(= (itag " + a.S + ") 0)"
		case "Int":
			return "(= " + a.S + " 0)"
		}
		serr(ex, "nil compared with %s", a.Sort)
	}
	if a.Sort != c.Sort {
		serr(ex, "comparing %s (%s) with %s (%s)", a.S, a.Sort, c.S, c.Sort)
	}
	if isLit(a.S) && isLit(c.S) {
		if a.S == c.S {
			return "true"
		}
		return "false"
	}
	return "(= " + a.S + " " + c.S + ")"
}

// isLit tells whether s is a string literal.
func isLit(s string) bool {
	return s == "sempty" || strings.HasPrefix(s, "lit") && len(s) > 3 && s[3] >= '0' && s[3] <= '9'
}

func (e *Env) eval(ex *Expr) TV {
	g := e.g
	switch ex.Op {
	case "int":
		return in(ex.Name)
	case "str":
		return TV{S: g.lit(ex.Name), Sort: "Str", T: types.Typ[types.String]}
	case "bool":
		return b(ex.Name)
	case "nil":
		return TV{S: "nil", Sort: "nil"}
	case "fnval":
		id, ok := g.fnIDs[ex.Name]
		if !ok {
			serr(ex, "unknown function %s", ex.Name)
		}
		var ft types.Type
		if f := g.p.funcs[ex.Name]; f != nil {
			ft = f.Signature
		}
		return TV{S: fmt.Sprint(id), Sort: "Int", T: ft}
	case "pkgvar":
		i := strings.Index(ex.Name, ".")
		pkg := g.p.byName[ex.Name[:i]]
		if pkg == nil {
			serr(ex, "unknown package %s", ex.Name)
		}
		sp := g.p.prog.Package(pkg)
		gl, ok := sp.Members[ex.Name[i+1:]].(*ssa.Global)
		if !ok {
			serr(ex, "unknown variable %s", ex.Name)
		}
		h := g.globalVar(gl)
		t := gl.Type().(*types.Pointer).Elem()
		return TV{S: e.x.get(e.st, h), Sort: g.sortOf(t), T: t}
	case "id":
		if v, ok := e.vars[ex.Name]; ok {
			return v
		}
		if e.st != nil {
			if _, ok := e.st.v["gh."+ex.Name]; ok {
				t := e.x.ghostT[ex.Name]
				return TV{S: e.x.get(e.st, "gh."+ex.Name), Sort: t.Sort, T: t.T}
			}
		}
		if e.look != nil {
			if v, ok := e.look(ex.Name); ok {
				return v
			}
		}
		if d, ok := g.spec.Fns[ex.Name]; ok && len(d.Params) == 0 {
			return e.callFn(ex, d, nil)
		}
		serr(ex, "unknown name %s", ex.Name)
	case "un":
		v := e.eval(ex.Args[0])
		if ex.Name == "!" {
			return b("(not " + v.S + ")")
		}
		return in("(- " + v.S + ")")
	case "bin":
		switch ex.Name {
		case "&&", "||", "==>", "<==>":
			l, r := e.bool(ex.Args[0]), e.bool(ex.Args[1])
			op := map[string]string{"&&": "and", "||": "or", "==>": "=>", "<==>": "="}[ex.Name]
			return b("(" + op + " " + l + " " + r + ")")
		}
		l, r := e.eval(ex.Args[0]), e.eval(ex.Args[1])
		switch ex.Name {
		case "==":
			return b(eqTV(ex, l, r))
		case "!=":
			return b("(not " + eqTV(ex, l, r) + ")")
		case "<", "<=", ">", ">=":
			if l.Sort != "Int" || r.Sort != "Int" {
				serr(ex, "%s on %s, %s", ex.Name, l.Sort, r.Sort)
			}
			return b("(" + ex.Name + " " + l.S + " " + r.S + ")")
		case "+":
			if l.Sort == "Str" {
				return TV{S: "(scat " + l.S + " " + r.S + ")", Sort: "Str", T: types.Typ[types.String]}
			}
			return in("(+ " + l.S + " " + r.S + ")")
		case "-", "*", "mod":
			return in("(" + ex.Name + " " + l.S + " " + r.S + ")")
		}
	case "ite":
		c := e.bool(ex.Args[0])
		l, r := e.eval(ex.Args[1]), e.eval(ex.Args[2])
		if l.Sort == "nil" {
			l = TV{S: nilFor(r), Sort: r.Sort, T: r.T}
		}
		if r.Sort == "nil" {
			r = TV{S: nilFor(l), Sort: l.Sort, T: l.T}
		}
		if l.Sort != r.Sort {
			serr(ex, "branches have sorts %s and %s", l.Sort, r.Sort)
		}
		t := l.T
		if t == nil {
			t = r.T
		}
		return TV{S: "(ite " + c + " " + l.S + " " + r.S + ")", Sort: l.Sort, T: t}
	case "let":
		v := e.eval(ex.Args[0])
		return e.with(map[string]TV{ex.Name: v}).eval(ex.Args[1])
	case "forall", "exists":
		n := e.with(nil)
		n.q++
		var vs []string
		for _, p := range ex.Vars {
			s, t := g.specType(p.Type)
			e.x.qn++
			nm := fmt.Sprintf("%s?%d", p.Name, e.x.qn)
			n.vars[p.Name] = TV{S: nm, Sort: s, T: t}
			vs = append(vs, "("+nm+" "+s+")")
		}
		body := n.bool(ex.Args[0])
		if len(ex.Trigs) > 0 {
			body = "(! " + body
			for _, tr := range ex.Trigs {
				var ts []string
				for _, t := range tr {
					ts = append(ts, n.eval(t).S)
				}
				body += " :pattern (" + strings.Join(ts, " ") + ")"
			}
			body += ")"
		}
		return b("(" + ex.Op + " (" + strings.Join(vs, " ") + ") " + body + ")")
	case "field":
		return e.loaded(e.field(ex, e.eval(ex.Args[0]), ex.Name))
	case "index":
		v := e.eval(ex.Args[0])
		i := e.eval(ex.Args[1])
		return e.loaded(e.index(ex, v, i))
	case "is", "as":
		v := e.eval(ex.Args[0])
		t, err := g.goType(ex.Type)
		if err != nil {
			serr(ex, "%v", err)
		}
		if v.Sort != "Iface" {
			serr(ex, "%s on %s", ex.Op, v.Sort)
		}
		if _, ok := t.Underlying().(*types.Interface); ok {
			if ex.Op == "as" {
				return TV{S: v.S, Sort: "Iface", T: t}
			}
			return b("(" + g.implFn(t) + " (itag " + v.S + "))")
		}
		if ex.Op == "is" {
			return b(fmt.Sprintf("(= (itag %s) %d)", v.S, g.tag(t)))
		}
		_, ub := g.boxFns(t)
		return TV{S: "(" + ub + " (ival " + v.S + "))", Sort: g.sortOf(t), T: t}
	case "tagid":
		t, err := g.goType(ex.Type)
		if err != nil {
			serr(ex, "%v", err)
		}
		return in(fmt.Sprint(g.tag(t)))
	case "zero":
		t, err := g.goType(ex.Type)
		if err != nil {
			serr(ex, "%v", err)
		}
		return TV{S: g.zero(t), Sort: g.sortOf(t), T: t}
	case "call":
		return e.call(ex)
	}
	serr(ex, "cannot evaluate %s", ex.Op)
	return TV{}
}

func (e *Env) call(ex *Expr) TV {
	g := e.g
	arg := func(i int) TV {
		if i >= len(ex.Args) {
			serr(ex, "%s: missing argument", ex.Name)
		}
		return e.eval(ex.Args[i])
	}
	switch ex.Name {
	case "old", "pre":
		n := *e
		if ex.Name == "old" {
			n.st = e.old
			if e.entryVars != nil {
				n.vars = map[string]TV{}
				for k, v := range e.vars {
					n.vars[k] = v
				}
				for k, v := range e.entryVars {
					n.vars[k] = v
				}
			}
		} else {
			n.st = e.pre
		}
		if n.st == nil {
			serr(ex, "no %s state here", ex.Name)
		}
		return n.eval(ex.Args[0])
	case "len":
		v := arg(0)
		switch v.Sort {
		case "Slice":
			return in("(slen " + v.S + ")")
		case "Str":
			return in("(strlen " + v.S + ")")
		case "Sq":
			return in("(qlen " + v.S + ")")
		}
		if v.T != nil {
			if m, ok := v.T.Underlying().(*types.Map); ok {
				_, _, n := g.mapHeaps(m)
				return in("(select " + e.heap(ex, n) + " " + v.S + ")")
			}
		}
		serr(ex, "len of %s", v.Sort)
	case "cap":
		return in("(scap " + arg(0).S + ")")
	case "arr":
		return in("(sarr " + arg(0).S + ")")
	case "off":
		return in("(soff " + arg(0).S + ")")
	case "tag":
		return in("(itag " + arg(0).S + ")")
	case "ival":
		return TV{S: "(ival " + arg(0).S + ")", Sort: "Univ"}
	case "haskey":
		m := arg(0)
		k := arg(1)
		mt, ok := m.T.Underlying().(*types.Map)
		if !ok {
			serr(ex, "haskey on %s", m.T)
		}
		dom, _, _ := g.mapHeaps(mt)
		return b(fmt.Sprintf("(select (select %s %s) %s)", e.heap(ex, dom), m.S, k.S))
	case "sel":
		a, i := arg(0), arg(1)
		s := a.Sort // (Array K V)
		return TV{S: "(select " + a.S + " " + i.S + ")", Sort: arrayRange(s)}
	case "upd":
		a, i, v := arg(0), arg(1), arg(2)
		return TV{S: "(store " + a.S + " " + i.S + " " + v.S + ")", Sort: a.Sort}
	case "iface":
		// iface(v) converts a typed value to an interface value
		v := arg(0)
		if v.T == nil {
			serr(ex, "iface of an untyped value")
		}
		if tp, ok := types.Unalias(v.T).(*types.TypeParam); ok {
			return TV{S: "(" + g.toAny(tp) + " " + v.S + ")", Sort: "Iface"}
		}
		if types.IsInterface(v.T) {
			return v
		}
		bx, _ := g.boxFns(v.T)
		return TV{S: fmt.Sprintf("(mkI %d (%s %s))", g.tag(v.T), bx, v.S), Sort: "Iface"}
	case "u":
		v := arg(0)
		return TV{S: "(" + g.uinj(v.Sort) + " " + v.S + ")", Sort: "Univ"}
	case "seq":
		v := arg(0)
		if v.Sort != "Slice" || v.T == nil {
			serr(ex, "seq of %s", v.Sort)
		}
		el := v.T.Underlying().(*types.Slice).Elem()
		return TV{S: fmt.Sprintf("(%s (select %s (sarr %s)) (soff %s) (slen %s))", g.seqFn(g.sortOf(el)), e.heap(ex, g.elemHeap(el)), v.S, v.S, v.S), Sort: "Sq"}
	case "seqn":
		v, n := arg(0), arg(1)
		el := v.T.Underlying().(*types.Slice).Elem()
		return TV{S: fmt.Sprintf("(%s (select %s (sarr %s)) (soff %s) %s)", g.seqFn(g.sortOf(el)), e.heap(ex, g.elemHeap(el)), v.S, v.S, n.S), Sort: "Sq"}
	case "boxed", "boxedn":
		// the elements converted to interface values
		v := arg(0)
		n := "(slen " + v.S + ")"
		if ex.Name == "boxedn" {
			n = arg(1).S
		}
		el := v.T.Underlying().(*types.Slice).Elem()
		return TV{S: fmt.Sprintf("(%s (select %s (sarr %s)) (soff %s) %s)", g.boxSeq(el), e.heap(ex, g.elemHeap(el)), v.S, v.S, n), Sort: "Sq"}
	case "cells":
		// the array under a slice
		v := arg(0)
		el := v.T.Underlying().(*types.Slice).Elem()
		return TV{S: fmt.Sprintf("(select %s (sarr %s))", e.heap(ex, g.elemHeap(el)), v.S), Sort: "(Array Int " + g.sortOf(el) + ")"}
	case "ix":
		return TV{S: "(ix " + arg(0).S + " " + arg(1).S + ")", Sort: "Int", T: types.Typ[types.Int]}
	case "bytes":
		// the string content of a []byte
		v := arg(0)
		return TV{S: fmt.Sprintf("(bstr (select %s (sarr %s)) (soff %s) (slen %s))", e.heap(ex, g.elemHeap(types.Typ[types.Uint8])), v.S, v.S, v.S), Sort: "Str"}
	case "deref":
		v := arg(0)
		return e.loaded(e.deref(ex, v))
	case "fresh":
		// allocated since the old state
		v := arg(0)
		r := v.S
		switch v.Sort {
		case "Slice":
			return b(fmt.Sprintf("(or (= (scap %s) 0) (>= (sarr %s) %s))", r, r, e.x.get(e.old, "nxt")))
		}
		return b(fmt.Sprintf("(and (>= %s %s) (< %s %s))", r, e.x.get(e.old, "nxt"), r, e.x.get(e.st, "nxt")))
	case "allocated":
		v := arg(0)
		bd := g.bound(v)
		if bd == "" {
			serr(ex, "allocated(%s)", v.Sort)
		}
		return b(fmt.Sprintf("(<= %s %s)", bd, e.x.get(e.st, "nxt")))
	case "same":
		// same(F.pkg.T.f) heap unchanged: written as same("F.pkg.T.f")
		h := ex.Args[0].Name
		return b("(= " + e.x.get(e.st, h) + " " + e.x.get(e.old, h) + ")")
	case "offset":
		// the position of a range over a string
		v, ok := e.look("$visited")
		if !ok || v.Sort != "Int" {
			serr(ex, "offset outside a range over a string")
		}
		return v
	case "visited":
		k := arg(0)
		v, ok := e.look("$visited")
		if !ok {
			serr(ex, "visited outside a range loop")
		}
		return b("(select " + v.S + " " + k.S + ")")
	case "addr":
		serr(ex, "addr")
	}
	d, ok := g.spec.Fns[ex.Name]
	if !ok {
		serr(ex, "unknown function %s", ex.Name)
	}
	var args []TV
	for i := range ex.Args {
		args = append(args, arg(i))
	}
	return e.callFn(ex, d, args)
}

func arrayRange(s string) string {
	// "(Array K V)" -> V
	s = strings.TrimSuffix(strings.TrimPrefix(s, "(Array "), ")")
	depth := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return s[i+1:]
			}
		}
	}
	return s
}

func (e *Env) callFn(ex *Expr, d *FnDecl, args []TV) TV {
	g := e.g
	if len(args) != len(d.Params) {
		serr(ex, "%s: want %d arguments, got %d", d.Name, len(d.Params), len(args))
	}
	for i, p := range d.Params {
		s, t := g.specType(p.Type)
		if args[i].Sort == "nil" {
			args[i] = TV{S: nilFor(TV{Sort: s}), Sort: s, T: t}
		}
		if args[i].Sort != s {
			serr(ex, "%s: argument %s has sort %s, want %s", d.Name, p.Name, args[i].Sort, s)
		}
	}
	if d.Def {
		n := *e
		n.vars = map[string]TV{}
		n.look = nil
		for i, p := range d.Params {
			v := args[i]
			_, t := g.specType(p.Type)
			if t != nil {
				v.T = t
			}
			n.vars[p.Name] = v
		}
		return n.eval(d.Body)
	}
	s, t := g.specType(d.Ret)
	g.declFn(d)
	name := d.Name
	if e.self == d.Name {
		name += "$0"
	}
	var as []string
	if d.Group != "" {
		if e.gv != "" && e.group == d.Group {
			as = append(as, e.gv)
		} else if e.gv != "" {
			serr(ex, "%s needs group %s inside group %s", d.Name, d.Group, e.group)
		} else {
			as = append(as, e.x.groupVer(e.st, d.Group))
		}
	}
	for _, a := range args {
		as = append(as, a.S)
	}
	r := TV{Sort: s, T: t}
	if len(as) == 0 {
		r.S = name
	} else {
		r.S = "(" + name + " " + strings.Join(as, " ") + ")"
	}
	if d.Group != "" && t != nil {
		return e.loaded(r)
	}
	return r
}

// declFn declares a specification function, and its axioms.
func (g *Gen) declFn(d *FnDecl) {
	if _, ok := g.decl[d.Name]; ok {
		return
	}
	ret := g.specSort(d.Ret)
	var sorts, vars, names []string
	env := &Env{x: g.dummy(), g: g, vars: map[string]TV{}, q: 1}
	if d.Group != "" {
		gr := g.spec.Groups[d.Group]
		if gr == nil {
			panic(specErr{"unknown group " + d.Group})
		}
		g.initGroup(gr)
		sorts = append(sorts, "GV$"+d.Group)
		vars = append(vars, "(g?? GV$"+d.Group+")")
		names = append(names, "g??")
		env.group, env.gv = d.Group, "g??"
	}
	for _, p := range d.Params {
		s, t := g.specType(p.Type)
		sorts = append(sorts, s)
		vars = append(vars, "("+p.Name+"?? "+s+")")
		names = append(names, p.Name+"??")
		env.vars[p.Name] = TV{S: p.Name + "??", Sort: s, T: t}
	}
	g.declare(d.Name, fmt.Sprintf("(declare-fun %s (%s) %s)", d.Name, strings.Join(sorts, " "), ret))
	app := d.Name
	if len(names) > 0 {
		app = "(" + d.Name + " " + strings.Join(names, " ") + ")"
	}
	if d.Rec {
		z := d.Name + "$0"
		g.declare(z, fmt.Sprintf("(declare-fun %s (%s) %s)", z, strings.Join(sorts, " "), ret))
		env.self = d.Name
		body := env.eval(d.Body)
		if body.Sort != ret {
			serr(d.Body, "%s: body has sort %s, want %s", d.Name, body.Sort, ret)
		}
		app0 := "(" + z + " " + strings.Join(names, " ") + ")"
		g.axiom(fmt.Sprintf("(forall (%s) (! (= %s %s) :pattern (%s)))", strings.Join(vars, " "), app, body.S, app), []string{d.Name})
		g.axiom(fmt.Sprintf("(forall (%s) (! (= %s %s) :pattern (%s)))", strings.Join(vars, " "), app, app0, app), []string{d.Name})
	} else if d.Body != nil {
		body := env.eval(d.Body)
		if len(vars) == 0 {
			g.axiom(fmt.Sprintf("(= %s %s)", app, body.S), []string{d.Name})
		} else {
			g.axiom(fmt.Sprintf("(forall (%s) (! (= %s %s) :pattern (%s)))", strings.Join(vars, " "), app, body.S, app), []string{d.Name})
		}
	}
	if d.Group != "" {
		// frame: unchanged below n
		var conds []string
		conds = append(conds, fmt.Sprintf("(same$%s g1!! g2!! nb!!)", d.Group))
		for _, p := range d.Params {
			if bd := g.bound(env.vars[p.Name]); bd != "" {
				conds = append(conds, "(<= "+bd+" nb!!)")
			}
		}
		rest := strings.Join(names[1:], " ")
		vs := fmt.Sprintf("(g1!! GV$%s) (g2!! GV$%s) (nb!! Int) %s", d.Group, d.Group, strings.Join(vars[1:], " "))
		a1, a2 := "("+d.Name+" g1!! "+rest+")", "("+d.Name+" g2!! "+rest+")"
		sm := fmt.Sprintf("(same$%s g1!! g2!! nb!!)", d.Group)
		g.axiom(fmt.Sprintf("(forall (%s) (! (=> (and %s) (= %s %s)) :pattern (%s %s) :pattern (%s %s)))",
			vs, strings.Join(conds, " "), a1, a2, sm, a1, sm, a2), []string{d.Name, "same$" + d.Group})
	}
}

func (g *Gen) initGroup(gr *GroupDecl) {
	for i, h := range gr.Heaps {
		if strings.HasPrefix(h, "M:") {
			continue
		}
		g.registerHeap(h)
		gr.Heaps[i] = g.canonHeap(h)
	}
	var out []string
	for _, h := range gr.Heaps {
		if strings.HasPrefix(h, "M:") {
			t, err := parseTypeRef(h[2:])
			if err != nil {
				panic(specErr{err.Error()})
			}
			gt, err := g.goType(t)
			if err != nil {
				panic(specErr{err.Error()})
			}
			d, v, _ := g.mapHeaps(gt.(*types.Map))
			out = append(out, d, v)
			continue
		}
		out = append(out, h)
	}
	gr.Heaps = out
	for _, h := range gr.Heaps {
		g.hpFn(gr.Name, h)
	}
}

func (g *Gen) canonHeap(h string) string {
	if _, ok := g.heapT[h]; ok {
		return h
	}
	if strings.HasPrefix(h, "E.") || strings.HasPrefix(h, "C.") {
		t, _ := parseTypeRef(h[2:])
		gt, _ := g.goType(t)
		return h[:2] + tname(gt)
	}
	return h
}

var dummyExec *Exec

func (g *Gen) dummy() *Exec {
	if dummyExec == nil {
		dummyExec = &Exec{g: g}
	}
	return dummyExec
}

func (e *Env) deref(ex *Expr, v TV) TV {
	pt, ok := v.T.Underlying().(*types.Pointer)
	if !ok {
		serr(ex, "deref of %s", v.T)
	}
	el := pt.Elem()
	if st, ok := el.Underlying().(*types.Struct); ok && !e.g.opaque(el) {
		s := e.g.sortOf(el)
		var fs []string
		for i := 0; i < st.NumFields(); i++ {
			fs = append(fs, fmt.Sprintf("(select %s %s)", e.heap(ex, e.g.fieldHeap(el, i)), v.S))
		}
		return TV{S: "(mk" + s + " " + strings.Join(fs, " ") + ")", Sort: s, T: el}
	}
	return TV{S: fmt.Sprintf("(select %s %s)", e.heap(ex, e.g.cellHeap(el)), v.S), Sort: e.g.sortOf(el), T: el}
}

func (e *Env) index(ex *Expr, v, i TV) TV {
	g := e.g
	switch v.Sort {
	case "Str":
		return in("(sat " + v.S + " " + i.S + ")")
	case "Sq":
		return TV{S: "(qget " + v.S + " " + i.S + ")", Sort: "Univ"}
	}
	if v.T == nil {
		serr(ex, "index of untyped %s", v.S)
	}
	switch u := v.T.Underlying().(type) {
	case *types.Slice:
		el := u.Elem()
		return TV{S: fmt.Sprintf("(select (select %s (sarr %s)) (ix (soff %s) %s))", e.heap(ex, g.elemHeap(el)), v.S, v.S, i.S), Sort: g.sortOf(el), T: el}
	case *types.Map:
		_, val, _ := g.mapHeaps(u)
		return TV{S: fmt.Sprintf("(select (select %s %s) %s)", e.heap(ex, val), v.S, i.S), Sort: g.sortOf(u.Elem()), T: u.Elem()}
	case *types.Array:
		return TV{S: fmt.Sprintf("(select %s %s)", v.S, i.S), Sort: g.sortOf(u.Elem()), T: u.Elem()}
	}
	serr(ex, "index of %s", v.T)
	return TV{}
}

func (e *Env) field(ex *Expr, v TV, name string) TV {
	g := e.g
	if v.T == nil {
		serr(ex, "field %s of an untyped value %s", name, v.S)
	}
	// ghost fields of external types
	bt := v.T
	if pt, ok := bt.Underlying().(*types.Pointer); ok {
		bt = pt.Elem()
	}
	for _, gf := range g.ghostFields(bt) {
		if gf.Field == name {
			s, t := g.specType(gf.Type)
			return TV{S: fmt.Sprintf("(select %s %s)", e.heap(ex, g.ghostHeap(gf)), v.S), Sort: s, T: t}
		}
	}
	var pkg *types.Package
	if n, ok := types.Unalias(bt).(*types.Named); ok {
		pkg = n.Obj().Pkg()
	}
	obj, idx, _ := types.LookupFieldOrMethod(v.T, true, pkg, name)
	if _, ok := obj.(*types.Var); !ok {
		serr(ex, "no field %s in %s", name, v.T)
	}
	for _, i := range idx {
		t := types.Unalias(v.T)
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			el := pt.Elem()
			f := el.Underlying().(*types.Struct).Field(i)
			v = TV{S: fmt.Sprintf("(select %s %s)", e.heap(ex, g.fieldHeap(el, i)), v.S), Sort: g.sortOf(f.Type()), T: f.Type()}
			continue
		}
		st := t.Underlying().(*types.Struct)
		f := st.Field(i)
		s := g.sortOf(t)
		v = TV{S: fmt.Sprintf("(%s.%s %s)", s, sanitize(f.Name()), v.S), Sort: g.sortOf(f.Type()), T: f.Type()}
	}
	return v
}
