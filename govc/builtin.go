package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) builtin(fr *Frame, cur *cursor, name string, c *ssa.CallCommon, args []Val, pos token.Pos) Val {
	switch name {
	case "len", "cap":
		v := x.term(cur, args[0], pos)
		var s string
		switch v.Sort {
		case "Slice":
			s = slen(v)
			if name == "cap" {
				s = scap(v)
			}
		case "Str":
			s = "(strlen " + v.S + ")"
		default:
			m, ok := c.Args[0].Type().Underlying().(*types.Map)
			if !ok {
				x.unsupported(cur, pos, "len of %s", c.Args[0].Type())
				s = x.fresh("len", "Int")
				break
			}
			_, _, n := x.g.mapHeaps(m)
			s = x.def("len", "Int", fmt.Sprintf("(ite (= %s 0) 0 (select %s %s))", v.S, x.get(cur.st, n), v.S))
			x.fact("true", "(>= "+s+" 0)")
		}
		return TV{S: s, Sort: "Int", T: types.Typ[types.Int]}
	case "append":
		return x.appendTo(fr, cur, c, args, pos)
	case "delete":
		m, k := x.term(cur, args[0], pos), x.term(cur, args[1], pos)
		x.hashKey(fr, cur, k, pos)
		d, _, n := x.g.mapHeaps(c.Args[0].Type().Underlying().(*types.Map))
		dh, nh := x.get(cur.st, d), x.get(cur.st, n)
		nz := "(not (= " + m.S + " 0))"
		x.set(cur.st, n, ite(nz, fmt.Sprintf("(store %s %s (ite (select (select %s %s) %s) (- (select %s %s) 1) (select %s %s)))", nh, m.S, dh, m.S, k.S, nh, m.S, nh, m.S), nh), m.S)
		x.set(cur.st, d, ite(nz, fmt.Sprintf("(store %s %s (store (select %s %s) %s false))", dh, m.S, dh, m.S, k.S), dh), m.S)
		return Tuple(nil)
	case "recover":
		for f := fr; f != nil; f = f.parent {
			if f.panick {
				rn := fmt.Sprintf("rec%d", f.id)
				x.set(cur.st, rn, "true", "*")
				r := TV{S: x.fresh("recovered", "Iface"), Sort: "Iface", T: types.Universe.Lookup("any").Type()}
				x.fact("true", "(> (itag "+r.S+") 0)")
				x.wf(r, x.get(cur.st, "nxt"))
				return r
			}
		}
		return TV{S: "(mkI 0 unil)", Sort: "Iface", T: types.Universe.Lookup("any").Type()}
	case "ssa:wrapnilchk":
		p := x.term(cur, args[0], pos)
		x.nonNil(fr, cur, p, pos)
		return p
	}
	x.unsupported(cur, pos, "builtin %s", name)
	return x.freshResults(cur, c.Signature(), "r")
}

func (x *Exec) appendTo(fr *Frame, cur *cursor, c *ssa.CallCommon, args []Val, pos token.Pos) Val {
	s, t := x.term(cur, args[0], pos), x.term(cur, args[1], pos)
	st := c.Args[0].Type()
	el := st.Underlying().(*types.Slice).Elem()
	h := x.g.elemHeap(el)
	es := x.g.sortOf(el)
	n := slen(s)
	m := slen(t)
	var b, toff string
	if t.Sort == "Str" {
		x.unsupported(cur, pos, "append of a string")
		return x.freshResults(cur, c.Signature(), "r")
	}
	E := x.get(cur.st, h)
	b = x.def("arr", "(Array Int "+es+")", "(select "+E+" "+sarr(t)+")")
	toff = soff(t)
	lits := t.lits
	inplace := x.def("inplace", "Bool", fmt.Sprintf("(<= (+ %s %s) %s)", n, m, scap(s)))
	if isNilConst(c.Args[0]) && len(lits) > 0 {
		inplace = "false"
	}
	r := x.allocRef(cur, "app")
	nc := x.fresh("cap", "Int")
	tot := x.def("len", "Int", "(+ "+n+" "+m+")")
	if atoiOr(n, -1) == 0 {
		tot = m
	}
	x.fact("true", "(>= "+nc+" "+tot+")")
	arr := x.def("arr", "Int", ite(inplace, sarr(s), r))
	off := x.def("off", "Int", ite(inplace, soff(s), "0"))
	cp := x.def("cap", "Int", ite(inplace, scap(s), nc))
	a0 := x.def("arr", "(Array Int "+es+")", "(select "+E+" "+sarr(s)+")")
	a1 := x.fresh("app", "(Array Int "+es+")")
	fct := func(t string) { x.facts = append(x.facts, Fact{guard: "true", text: t, key: a1}) }
	fct(fmt.Sprintf("(forall ((j? Int)) (! (=> (and (<= %s j?) (< j? (+ %s %s))) (= (select %s j?) (select %s (+ (- j? %s) %s)))) :pattern ((select %s j?))))", off, off, n, a1, a0, off, soff(s), a1))
	if n != "0" {
		fct(fmt.Sprintf("(forall ((i? Int)) (! (=> (and (<= 0 i?) (< i? %s)) (= (select %s (ix %s i?)) (select %s (ix %s i?)))) :pattern ((select %s (ix %s i?)))))", n, a1, off, a0, soff(s), a1, off))
	}
	if lits != nil {
		for k, l := range lits {
			if l.S == "" {
				l.S = x.g.zero(el)
			}
			fct(fmt.Sprintf("(= (select %s (ix %s %s)) %s)", a1, off, add(n, fmt.Sprint(k)), l.S))
		}
	} else {
		fct(fmt.Sprintf("(forall ((j? Int)) (! (=> (and (<= (+ %s %s) j?) (< j? (+ %s %s))) (= (select %s j?) (select %s (+ (- j? (+ %s %s)) %s)))) :pattern ((select %s j?))))", off, n, off, tot, a1, b, off, n, toff, a1))
	}
	if inplace != "false" {
		fct(fmt.Sprintf("(=> %s (forall ((j? Int)) (! (=> (or (< j? (+ %s %s)) (>= j? (+ %s %s))) (= (select %s j?) (select %s j?))) :pattern ((select %s j?)))))", inplace, off, n, off, tot, a1, a0, a1))
	}
	if inplace != "false" && lits == nil {
		fct(fmt.Sprintf("(=> (and %s (= %s 0)) (= %s %s))", inplace, m, a1, a0))
	}
	if x.g.spec.Fns["snoc"] != nil {
		sq := x.g.seqFn(es)
		u := x.g.uinj(es)
		q0 := fmt.Sprintf("(%s %s %s %s)", sq, a0, soff(s), n)
		if isNilConst(c.Args[0]) {
			q0 = "qempty"
		}
		q1 := fmt.Sprintf("(%s %s %s %s)", sq, a1, off, tot)
		sf := func(t string) { x.facts = append(x.facts, Fact{guard: "true", text: t, key: a1, key2: sq}) }
		if lits != nil {
			q := q0
			for _, l := range lits {
				v := l.S
				if v == "" {
					v = x.g.zero(el)
				}
				q = fmt.Sprintf("(snoc %s (%s %s))", q, u, v)
			}
			sf("(= " + q1 + " " + q + ")")
		} else {
			sf(fmt.Sprintf("(= %s (qcat %s (%s %s %s %s)))", q1, q0, sq, b, toff, m))
		}
		sf(fmt.Sprintf("(= (%s %s %s %s) %s)", sq, a1, off, n, q0))
	}
	x.set(cur.st, h, fmt.Sprintf("(store %s %s %s)", E, arr, a1), arr)
	return x.mkSlice(st, arr, off, tot, cp)
}

func (x *Exec) specFn(name string) bool {
	d := x.g.spec.Fns[name]
	if d == nil {
		return false
	}
	x.g.declFn(d)
	return true
}

// newError returns a fresh error value of an external type.
func (x *Exec) newError(cur *cursor, pkg, typ string) TV {
	var t types.Type
	if p := x.g.p.byName[pkg]; p != nil {
		if o := p.Scope().Lookup(typ); o != nil {
			t = types.NewPointer(o.Type())
		}
	}
	if t == nil {
		panic(specErr{"no type " + pkg + "." + typ})
	}
	r := x.allocRef(cur, "err")
	box, _ := x.g.boxFns(t)
	return TV{S: x.def("err", "Iface", fmt.Sprintf("(mkI %d (%s %s))", x.g.tag(t), box, r)), Sort: "Iface", T: types.Universe.Lookup("error").Type()}
}

// model handles the functions of the standard library known to the generator.
func (x *Exec) model(fr *Frame, cur *cursor, fn *ssa.Function, key string, args []Val, pos token.Pos) (Val, bool) {
	switch key {
	case "fmt.Sprintf":
		f := x.term(cur, args[0], pos)
		l := x.term(cur, args[1], pos)
		return x.sprintf(cur, f, l), true
	case "fmt.Errorf":
		x.trust["fmt.Errorf"] = true
		f := x.term(cur, args[0], pos)
		l := x.term(cur, args[1], pos)
		format, known := x.litOf(f.S)
		r := x.newError(cur, "fmt", "wrapError")
		w := ""
		if known {
			n := 0
			for i := 0; i < len(format); i++ {
				if format[i] != '%' {
					continue
				}
				i++
				for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
					i++
				}
				if i >= len(format) || format[i] == '%' {
					continue
				}
				if format[i] == 'w' && w == "" && n < len(l.lits) {
					w = l.lits[n].S
				}
				n++
			}
		}
		if x.specFn("eunwrap") {
			if w == "" && known {
				w = "(mkI 0 unil)"
			}
			if w != "" {
				x.fact("true", fmt.Sprintf("(= (eunwrap %s) %s)", r.S, w))
			}
		}
		return r, true
	case "errors.New":
		x.trust["errors.New"] = true
		r := x.newError(cur, "errors", "errorString")
		if x.specFn("eunwrap") {
			x.fact("true", fmt.Sprintf("(= (eunwrap %s) (mkI 0 unil))", r.S))
		}
		return r, true
	case "errors.As":
		x.trust["errors.As"] = true
		e := x.term(cur, args[0], pos)
		t := x.term(cur, args[1], pos)
		if t.box == nil || !x.specFn("asFirst") {
			x.unsupported(cur, pos, "errors.As")
			return x.freshResults(cur, fn.Signature, "r"), true
		}
		el := t.box.T.Underlying().(*types.Pointer).Elem()
		a := x.def("first", "Iface", fmt.Sprintf("(asFirst %s %d)", e.S, x.g.tag(el)))
		ok := x.def("ok", "Bool", "(not (= (itag "+a+") 0))")
		box, unbox := x.g.boxFns(el)
		s := x.g.sortOf(el)
		v := TV{S: x.def("as", s, "("+unbox+" (ival "+a+"))"), Sort: s, T: el}
		x.fact("true", fmt.Sprintf("(=> %s (and (= (itag %s) %d) (= (%s %s) (ival %s))))", ok, a, x.g.tag(el), box, v.S, a))
		x.wf(TV{S: a, Sort: "Iface", T: types.Universe.Lookup("any").Type()}, x.get(cur.st, "nxt"))
		x.wf(v, x.get(cur.st, "nxt"))
		old := x.loadPtr(cur, *t.box)
		x.storePtr(cur, *t.box, TV{S: ite(ok, v.S, old.S), Sort: s, T: el})
		return TV{S: ok, Sort: "Bool", T: types.Typ[types.Bool]}, true
	}
	return nil, false
}

func (x *Exec) litOf(term string) (string, bool) {
	if term == "sempty" {
		return "", true
	}
	for s, n := range x.g.lits {
		if n == term {
			return s, true
		}
	}
	return "", false
}

func hasStringMethod(t types.Type) bool {
	for _, n := range []string{"Error", "String", "Format"} {
		if o, _, _ := types.LookupFieldOrMethod(t, true, nil, n); o != nil {
			return true
		}
	}
	return false
}

func (x *Exec) sprintf(cur *cursor, f, l TV) TV {
	strT := types.Typ[types.String]
	format, known := x.litOf(f.S)
	if !known || (l.lits == nil && slen(l) != "0") {
		x.note("a result of fmt.Sprintf is unspecified")
		return TV{S: x.fresh("fmt", "Str"), Sort: "Str", T: strT}
	}
	var parts []string
	lit := ""
	flush := func() {
		if lit != "" {
			parts = append(parts, x.g.lit(lit))
			lit = ""
		}
	}
	n := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			lit += format[i : i+1]
			continue
		}
		i++
		if i < len(format) && format[i] == '%' {
			lit += "%"
			continue
		}
		j := i
		for j < len(format) && strings.IndexByte("+-# 0123456789.", format[j]) >= 0 {
			j++
		}
		if j >= len(format) || n >= len(l.lits) {
			x.note("a result of fmt.Sprintf is unspecified")
			return TV{S: x.fresh("fmt", "Str"), Sort: "Str", T: strT}
		}
		verb := format[i : j+1]
		a := l.lits[n]
		n++
		i = j
		flush()
		if a.box != nil && !hasStringMethod(a.box.T) {
			if verb == "s" || verb == "v" {
				if a.box.Sort == "Str" {
					parts = append(parts, a.box.S)
					continue
				}
			}
			if (verb == "d" || verb == "v") && a.box.Sort == "Int" {
				if bt, ok := a.box.T.Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 && x.specFn("itoa") {
					parts = append(parts, "(itoa "+a.box.S+")")
					continue
				}
			}
		}
		if a.S == "" {
			a.S = "(mkI 0 unil)"
		}
		fn := "fmtv$" + sanitize(verb)
		x.g.declare(fn, "(declare-fun "+fn+" (Iface) Str)")
		parts = append(parts, "("+fn+" "+a.S+")")
	}
	flush()
	if len(parts) == 0 {
		return TV{S: "sempty", Sort: "Str", T: strT}
	}
	// left associated, as the specifications write it
	s := parts[0]
	for _, p := range parts[1:] {
		s = "(scat " + s + " " + p + ")"
	}
	return TV{S: x.def("fmt", "Str", s), Sort: "Str", T: strT}
}
