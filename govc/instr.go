package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) val(fr *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.g.constTV(v)
	case *ssa.Function:
		return &Closure{fn: v}
	case *ssa.Global:
		t := v.Type().(*types.Pointer).Elem()
		return &Addr{kind: "var", name: x.g.globalVar(v), typ: t}
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	// not executed (e.g.: the value of a dead edge)
	s := x.g.sortOf(v.Type())
	return TV{S: x.fresh("undef", s), Sort: s, T: v.Type()}
}

func (x *Exec) tv(fr *Frame, cur *cursor, v ssa.Value) TV {
	r := x.term(cur, x.val(fr, v), v.Pos())
	if r.T == nil {
		r.T = v.Type()
	}
	return r
}

func sarr(v TV) string {
	if v.sl != nil {
		return v.sl.arr
	}
	return "(sarr " + v.S + ")"
}
func soff(v TV) string {
	if v.sl != nil {
		return v.sl.off
	}
	return "(soff " + v.S + ")"
}
func slen(v TV) string {
	if v.sl != nil {
		return v.sl.n
	}
	return "(slen " + v.S + ")"
}
func scap(v TV) string {
	if v.sl != nil {
		return v.sl.cap
	}
	return "(scap " + v.S + ")"
}

// ixOf is the position of an element in its array.
func ixOf(off, i string) string { return "(ix " + off + " " + i + ")" }

func add(a, b string) string {
	if a == "0" {
		return b
	}
	if b == "0" {
		return a
	}
	return "(+ " + a + " " + b + ")"
}

func subt(a, b string) string {
	if b == "0" {
		return a
	}
	if a == b {
		return "0"
	}
	return "(- " + a + " " + b + ")"
}

func (x *Exec) mkSlice(t types.Type, arr, off, n, c string) TV {
	s := "(mkSl " + arr + " " + off + " " + n + " " + c + ")"
	return TV{S: x.def("sl", "Slice", s), Sort: "Slice", T: t, sl: &SliceParts{arr, off, n, c}}
}

func (x *Exec) nonNil(fr *Frame, cur *cursor, p TV, pos token.Pos) {
	if _, ok := x.allocs[p.S]; ok {
		return
	}
	x.safety(fr, cur, "(not (= "+p.S+" 0))", "nil dereference", pos)
}

// instr executes an instruction other than control flow.
func (x *Exec) instr(fr *Frame, cur *cursor, ins ssa.Instruction) {
	set := func(v ssa.Value, r Val) { fr.env[v] = r }
	switch i := ins.(type) {
	case *ssa.Alloc:
		set(i, x.alloc(fr, cur, i))
	case *ssa.FieldAddr:
		set(i, x.fieldAddr(fr, cur, i))
	case *ssa.Field:
		v := x.tv(fr, cur, i.X)
		st := i.X.Type().Underlying().(*types.Struct)
		f := st.Field(i.Field)
		s := x.g.sortOf(f.Type())
		set(i, TV{S: x.def("fld", s, fmt.Sprintf("(%s.%s %s)", x.g.sortOf(i.X.Type()), sanitize(f.Name()), v.S)), Sort: s, T: f.Type()})
	case *ssa.IndexAddr:
		idx := x.tv(fr, cur, i.Index)
		xv := x.val(fr, i.X)
		switch u := i.X.Type().Underlying().(type) {
		case *types.Slice:
			s := x.term(cur, xv, i.Pos())
			x.safety(fr, cur, fmt.Sprintf("(and (<= 0 %s) (< %s %s))", idx.S, idx.S, slen(s)), "index out of range", i.Pos())
			set(i, &Addr{kind: "elem", name: x.g.elemHeap(u.Elem()), ref: sarr(s), idx: ixOf(soff(s), idx.S), typ: u.Elem()})
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			if c, isC := i.Index.(*ssa.Const); !isC || c.Int64() < 0 || c.Int64() >= at.Len() {
				x.safety(fr, cur, fmt.Sprintf("(and (<= 0 %s) (< %s %d))", idx.S, idx.S, at.Len()), "index out of range", i.Pos())
			}
			p := x.term(cur, xv, i.Pos())
			set(i, &Addr{kind: "elem", name: x.g.elemHeap(at.Elem()), ref: p.S, idx: idx.S, typ: at.Elem()})
		default:
			x.unsupported(cur, i.Pos(), "IndexAddr on %s", i.X.Type())
		}
	case *ssa.Index:
		v := x.tv(fr, cur, i.X)
		idx := x.tv(fr, cur, i.Index)
		if v.Sort == "Str" {
			x.safety(fr, cur, fmt.Sprintf("(and (<= 0 %s) (< %s (strlen %s)))", idx.S, idx.S, v.S), "index out of range", i.Pos())
			set(i, TV{S: x.def("ch", "Int", "(sat "+v.S+" "+idx.S+")"), Sort: "Int", T: i.Type()})
			return
		}
		s := x.g.sortOf(i.Type())
		set(i, TV{S: x.def("el", s, "(select "+v.S+" "+idx.S+")"), Sort: s, T: i.Type()})
	case *ssa.UnOp:
		x.unop(fr, cur, i)
	case *ssa.BinOp:
		set(i, x.binop(fr, cur, i))
	case *ssa.Store:
		v := x.val(fr, i.Val)
		t := x.term(cur, v, i.Pos())
		switch a := x.val(fr, i.Addr).(type) {
		case *Addr:
			if a.kind == "elem" {
				if vs, ok := x.varargs[a.ref]; ok {
					if n := atoiOr(a.idx, -1); n >= 0 && n < len(vs) {
						vs[n] = t
					}
				}
			}
			x.store(cur, a, t.S)
		case TV:
			x.nonNil(fr, cur, a, i.Pos())
			x.storePtr(cur, a, t)
		default:
			x.unsupported(cur, i.Pos(), "store")
		}
	case *ssa.MakeInterface:
		set(i, x.makeIface(fr, cur, x.val(fr, i.X), i.X.Type(), i.Type(), i.Pos()))
	case *ssa.ChangeInterface:
		v := x.tv(fr, cur, i.X)
		v.T = i.Type()
		set(i, v)
	case *ssa.ChangeType:
		v := x.val(fr, i.X)
		if n, ok := types.Unalias(i.Type()).(*types.Named); ok {
			if ct := x.contract(tstr(n.Origin())); ct != nil && ct.Kind == "functype" && len(ct.Cases) == 0 {
				known := false
				if cl, ok := v.(*Closure); ok {
					if c := x.contract(funcKey(cl.fn)); c != nil {
						for _, k := range c.Impl {
							known = known || k == ct.Key
						}
					}
				}
				if !known && !isNilConst(i.X) {
					x.oblige(cur, "annotation", "conversion", "false", ct.Labels, i.Pos(), "a function converted to "+ct.Key+" is not known to fulfil its contract")
				}
			}
		}
		if t, ok := v.(TV); ok {
			ns := x.g.sortOf(i.Type())
			if ns != t.Sort {
				if st, isS := i.Type().Underlying().(*types.Struct); isS && strings.HasPrefix(ns, "S.") {
					os := t.Sort
					var fs []string
					for k := 0; k < st.NumFields(); k++ {
						fs = append(fs, fmt.Sprintf("(%s.%s %s)", os, sanitize(st.Field(k).Name()), t.S))
					}
					t = TV{S: "(mk" + ns + " " + strings.Join(fs, " ") + ")", Sort: ns}
				} else if tp, isTP := types.Unalias(i.X.Type()).(*types.TypeParam); isTP && ns == "Iface" {
					t = TV{S: "(" + x.g.toAny(tp) + " " + t.S + ")", Sort: ns}
				} else {
					x.unsupported(cur, i.Pos(), "conversion %s to %s", t.Sort, ns)
					t = TV{S: x.fresh("conv", ns), Sort: ns}
				}
			}
			t.T = i.Type()
			set(i, t)
			return
		}
		set(i, v)
	case *ssa.Convert:
		set(i, x.convert(fr, cur, i))
	case *ssa.TypeAssert:
		set(i, x.typeAssert(fr, cur, i))
	case *ssa.Extract:
		t, ok := x.val(fr, i.Tuple).(Tuple)
		if !ok {
			x.unsupported(cur, i.Pos(), "extract")
			s := x.g.sortOf(i.Type())
			set(i, TV{S: x.fresh("bad", s), Sort: s, T: i.Type()})
			return
		}
		set(i, t[i.Index])
	case *ssa.Slice:
		set(i, x.slice(fr, cur, i))
	case *ssa.MakeSlice:
		n, c := x.tv(fr, cur, i.Len), x.tv(fr, cur, i.Cap)
		x.safety(fr, cur, fmt.Sprintf("(and (<= 0 %s) (<= %s %s))", n.S, n.S, c.S), "makeslice: len out of range", i.Pos())
		el := i.Type().Underlying().(*types.Slice).Elem()
		r := x.allocRef(cur, "mk")
		x.initArray(cur, el, r)
		set(i, x.mkSlice(i.Type(), r, "0", n.S, c.S))
	case *ssa.MakeMap:
		m := i.Type().Underlying().(*types.Map)
		d, _, n := x.g.mapHeaps(m)
		r := x.allocRef(cur, "map")
		ds := x.g.heapT[d].val
		x.set(cur.st, d, fmt.Sprintf("(store %s %s ((as const %s) false))", x.get(cur.st, d), r, ds), r)
		x.set(cur.st, n, fmt.Sprintf("(store %s %s 0)", x.get(cur.st, n), r), r)
		set(i, TV{S: r, Sort: "Int", T: i.Type()})
	case *ssa.MapUpdate:
		m := x.tv(fr, cur, i.Map)
		k := x.tv(fr, cur, i.Key)
		v := x.tv(fr, cur, i.Value)
		x.nonNil(fr, cur, m, i.Pos())
		x.hashKey(fr, cur, k, i.Pos())
		d, vl, n := x.g.mapHeaps(i.Map.Type().Underlying().(*types.Map))
		dh, vh, nh := x.get(cur.st, d), x.get(cur.st, vl), x.get(cur.st, n)
		x.set(cur.st, n, fmt.Sprintf("(store %s %s (ite (select (select %s %s) %s) (select %s %s) (+ (select %s %s) 1)))", nh, m.S, dh, m.S, k.S, nh, m.S, nh, m.S), m.S)
		x.set(cur.st, d, fmt.Sprintf("(store %s %s (store (select %s %s) %s true))", dh, m.S, dh, m.S, k.S), m.S)
		x.set(cur.st, vl, fmt.Sprintf("(store %s %s (store (select %s %s) %s %s))", vh, m.S, vh, m.S, k.S, v.S), m.S)
	case *ssa.Lookup:
		set(i, x.lookupMap(fr, cur, i))
	case *ssa.Range:
		set(i, x.rangeOver(fr, cur, i))
	case *ssa.Next:
		set(i, x.next(fr, cur, i))
	case *ssa.Call:
		set(i, x.callInstr(fr, cur, &i.Call, i, i.Pos()))
	case *ssa.Defer:
		d := deferRec{cond: cur.reach, call: &i.Call, fr: fr, block: i.Block()}
		d.fnv, d.args = x.callVals(fr, cur, &i.Call)
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		x.runDefers(fr, cur, i.Block())
	case *ssa.MakeClosure:
		c := &Closure{fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			c.bind = append(c.bind, x.val(fr, b))
		}
		set(i, c)
	default:
		x.unsupported(cur, ins.Pos(), "instruction %T", ins)
		if v, ok := ins.(ssa.Value); ok {
			if s := x.g.sortOf(v.Type()); s != "Tuple" {
				set(v, TV{S: x.fresh("bad", s), Sort: s, T: v.Type()})
			}
		}
	}
}

func atoiOr(s string, d int) int {
	n := 0
	if s == "" {
		return d
	}
	for _, c := range s {
		if c < '0' || c > '9' {
			return d
		}
		n = n*10 + int(c-'0')
	}
	return n
}

func (x *Exec) initArray(cur *cursor, el types.Type, ref string) {
	h := x.g.elemHeap(el)
	x.set(cur.st, h, fmt.Sprintf("(store %s %s %s)", x.get(cur.st, h), ref, x.g.constArray("Int", el)), ref)
}

func (x *Exec) initZero(cur *cursor, t types.Type, ref string) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if x.g.opaque(t) {
			x.initGhosts(cur, t, ref)
			return
		}
		for k := 0; k < u.NumFields(); k++ {
			h := x.g.fieldHeap(t, k)
			x.set(cur.st, h, fmt.Sprintf("(store %s %s %s)", x.get(cur.st, h), ref, x.g.zero(u.Field(k).Type())), ref)
		}
		x.initGhosts(cur, t, ref)
	case *types.Array:
		x.initArray(cur, u.Elem(), ref)
	default:
		h := x.g.cellHeap(t)
		x.set(cur.st, h, fmt.Sprintf("(store %s %s %s)", x.get(cur.st, h), ref, x.g.zero(t)), ref)
	}
}

func (x *Exec) initGhosts(cur *cursor, t types.Type, ref string) {
	for _, gf := range x.g.ghostFields(t) {
		if gf.Init == nil {
			continue
		}
		h := x.g.ghostHeap(gf)
		env := &Env{x: x, g: x.g, st: cur.st, old: x.entry, vars: map[string]TV{}}
		v := env.eval(gf.Init)
		x.set(cur.st, h, fmt.Sprintf("(store %s %s %s)", x.get(cur.st, h), ref, v.S), ref)
	}
}

func (x *Exec) alloc(fr *Frame, cur *cursor, i *ssa.Alloc) Val {
	t := i.Type().(*types.Pointer).Elem()
	_, isArr := t.Underlying().(*types.Array)
	if !i.Heap && !isArr {
		// a local variable: its name must be stable between dry runs
		n := fmt.Sprintf("l%d.%s", fr.id, i.Name())
		s := x.g.sortOf(t)
		x.varSort[n] = s
		cur.st.v[n] = x.g.zero(t)
		for _, r := range x.recs {
			r.writes[n] = true
		}
		return &Addr{kind: "var", name: n, typ: t}
	}
	r := x.allocRef(cur, "new")
	if at, ok := t.Underlying().(*types.Array); ok && at.Len() <= 16 {
		x.varargs[r] = make([]TV, at.Len())
	}
	x.initZero(cur, t, r)
	return TV{S: r, Sort: "Int", T: i.Type()}
}

func (x *Exec) fieldAddr(fr *Frame, cur *cursor, i *ssa.FieldAddr) Val {
	st := i.X.Type().Underlying().(*types.Pointer).Elem()
	switch a := x.val(fr, i.X).(type) {
	case *Addr:
		n := *a
		n.path = append(append([]step(nil), a.path...), step{st, i.Field})
		return &n
	case TV:
		x.nonNil(fr, cur, a, i.Pos())
		if x.g.opaque(st) {
			x.unsupported(cur, i.Pos(), "field of external struct %s", st)
		}
		return &Addr{kind: "sel", name: x.g.fieldHeap(st, i.Field), ref: a.S, typ: st.Underlying().(*types.Struct).Field(i.Field).Type()}
	}
	x.unsupported(cur, i.Pos(), "field address")
	return TV{S: "0", Sort: "Int", T: i.Type()}
}

func (x *Exec) unop(fr *Frame, cur *cursor, i *ssa.UnOp) {
	switch i.Op {
	case token.MUL:
		if gl, ok := i.X.(*ssa.Global); ok && gl.Name() == "init$guard" {
			// the initializer runs once
			fr.env[i] = TV{S: "false", Sort: "Bool", T: i.Type()}
			return
		}
		switch a := x.val(fr, i.X).(type) {
		case *Addr:
			fr.env[i] = x.load(cur, a)
		case TV:
			x.nonNil(fr, cur, a, i.Pos())
			fr.env[i] = x.loadPtr(cur, a)
		default:
			x.unsupported(cur, i.Pos(), "load")
		}
	case token.NOT:
		fr.env[i] = TV{S: not(x.tv(fr, cur, i.X).S), Sort: "Bool", T: i.Type()}
	case token.SUB:
		v := x.tv(fr, cur, i.X)
		if v.Sort != "Int" {
			fr.env[i] = TV{S: x.fresh("neg", v.Sort), Sort: v.Sort, T: i.Type()}
			return
		}
		fr.env[i] = TV{S: "(- " + v.S + ")", Sort: "Int", T: i.Type()}
	default:
		s := x.g.sortOf(i.Type())
		if s == "Tuple" {
			x.unsupported(cur, i.Pos(), "operator %s", i.Op)
			return
		}
		x.note("operator %s is uninterpreted", i.Op)
		fr.env[i] = TV{S: x.fresh("op", s), Sort: s, T: i.Type()}
	}
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (x *Exec) binop(fr *Frame, cur *cursor, i *ssa.BinOp) TV {
	t := i.Type()
	boolTV := func(s string) TV { return TV{S: x.def("c", "Bool", s), Sort: "Bool", T: t} }
	if i.Op == token.EQL || i.Op == token.NEQ {
		var e string
		switch {
		case isNilConst(i.Y) || isNilConst(i.X):
			o := i.X
			if isNilConst(i.X) {
				o = i.Y
			}
			if c, isC := x.val(fr, o).(*Closure); isC && c != nil {
				e = "false"
				break
			}
			v := x.tv(fr, cur, o)
			switch v.Sort {
			case "Slice":
				e = "(= " + sarr(v) + " 0)"
			case "Iface":
				e = "(= (itag " + v.S + ") 0)"
			case "Int":
				e = "(= " + v.S + " 0)"
				if _, al := x.allocs[v.S]; al {
					e = "false"
				}
			default:
				e = "(= " + v.S + " " + x.g.zero(o.Type()) + ")"
			}
		default:
			a, b := x.tv(fr, cur, i.X), x.tv(fr, cur, i.Y)
			if a.Sort == "F64" {
				x.g.declare("feq", "(declare-fun feq (F64 F64) Bool)")
				e = "(feq " + a.S + " " + b.S + ")"
			} else if a.Sort != b.Sort {
				x.unsupported(cur, i.Pos(), "comparing %s with %s", a.Sort, b.Sort)
				e = x.fresh("cmp", "Bool")
			} else {
				if a.Sort == "Iface" {
					x.note("comparing two interface values does not panic")
				}
				e = "(= " + a.S + " " + b.S + ")"
			}
		}
		if i.Op == token.NEQ {
			e = not(e)
		}
		return boolTV(e)
	}
	a, b := x.tv(fr, cur, i.X), x.tv(fr, cur, i.Y)
	switch a.Sort {
	case "Int":
		switch i.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return boolTV("(" + i.Op.String() + " " + a.S + " " + b.S + ")")
		case token.ADD, token.SUB, token.MUL:
			var s string
			switch {
			case i.Op == token.ADD:
				s = add(a.S, b.S)
			case i.Op == token.SUB:
				s = subt(a.S, b.S)
			default:
				s = "(* " + a.S + " " + b.S + ")"
			}
			s = x.wrapInt(t, s)
			return TV{S: x.def("n", "Int", s), Sort: "Int", T: t}
		case token.QUO, token.REM:
			x.safety(fr, cur, "(not (= "+b.S+" 0))", "division by zero", i.Pos())
			q := fmt.Sprintf("(ite (>= %s 0) (div %s %s) (- (div (- %s) %s)))", a.S, a.S, b.S, a.S, b.S)
			if i.Op == token.QUO {
				return TV{S: x.def("n", "Int", q), Sort: "Int", T: t}
			}
			return TV{S: x.def("n", "Int", fmt.Sprintf("(- %s (* %s %s))", a.S, b.S, q)), Sort: "Int", T: t}
		case token.OR:
			k, o := i.X, b
			if _, ok := k.(*ssa.Const); !ok {
				k, o = i.Y, a
			}
			if c, ok := k.(*ssa.Const); ok && c.Value != nil && c.Int64() == 32 {
				return TV{S: x.def("n", "Int", fmt.Sprintf("(ite (= (mod (div %s 32) 2) 1) %s (+ %s 32))", o.S, o.S, o.S)), Sort: "Int", T: t}
			}
		}
	case "Str":
		switch i.Op {
		case token.ADD:
			return TV{S: x.def("str", "Str", "(scat "+a.S+" "+b.S+")"), Sort: "Str", T: t}
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			x.g.declare("slt", "(declare-fun slt (Str Str) Bool)")
			switch i.Op {
			case token.LSS:
				return boolTV("(slt " + a.S + " " + b.S + ")")
			case token.GTR:
				return boolTV("(slt " + b.S + " " + a.S + ")")
			case token.LEQ:
				return boolTV("(not (slt " + b.S + " " + a.S + "))")
			}
			return boolTV("(not (slt " + a.S + " " + b.S + "))")
		}
	case "Bool":
		switch i.Op {
		case token.AND, token.LAND:
			return boolTV(and(a.S, b.S))
		case token.OR, token.LOR:
			return boolTV(or(a.S, b.S))
		}
	}
	s := x.g.sortOf(t)
	x.note("operator %s on %s is uninterpreted", i.Op, i.X.Type())
	return TV{S: x.fresh("op", s), Sort: s, T: t}
}

// wrapInt: machine arithmetic is mathematical except for the narrow unsigned types.
func (x *Exec) wrapInt(t types.Type, s string) string {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Uint8:
			return "(mod " + s + " 256)"
		case types.Uint16:
			return "(mod " + s + " 65536)"
		}
	}
	return s
}

func (x *Exec) hashKey(fr *Frame, cur *cursor, k TV, pos token.Pos) {
	if k.Sort != "Iface" {
		return
	}
	if x.g.spec.Fns["hashable"] == nil {
		x.unsupported(cur, pos, "interface map key")
		return
	}
	x.g.declFn(x.g.spec.Fns["hashable"])
	x.safety(fr, cur, "(hashable "+k.S+")", "unhashable map key", pos)
}

func (x *Exec) makeIface(fr *Frame, cur *cursor, v Val, from, to types.Type, pos token.Pos) TV {
	t := x.term(cur, v, pos)
	t.T = from
	if _, ok := types.Unalias(from).Underlying().(*types.Interface); ok {
		if _, tp := types.Unalias(from).(*types.TypeParam); !tp {
			t.T = to
			return t
		}
	}
	box, _ := x.g.boxFns(from)
	r := TV{S: x.def("i", "Iface", fmt.Sprintf("(mkI %d (%s %s))", x.g.tag(from), box, t.S)), Sort: "Iface", T: to, box: &t}
	if _, isC := v.(*Closure); isC {
		r.box = nil
	}
	x.boxFacts(cur, t, r)
	return r
}

func (x *Exec) boxFacts(cur *cursor, v, i TV) {
	for _, bf := range x.g.spec.BoxFacts {
		bt, err := x.g.goType(bf.Type)
		if err != nil || tstr(bt) != tstr(v.T) {
			continue
		}
		env := &Env{x: x, g: x.g, st: cur.st, old: x.entry, vars: map[string]TV{bf.V: v, bf.I: i}}
		if e, ok := x.tryEval(env, bf.E); ok {
			if bf.Req {
				x.oblige(cur, "boxed", tstr(bt), e.S, nil, token.NoPos, "what is required of every "+tstr(bt)+" in an interface value")
			}
			x.fact(cur.reach, e.S)
		}
	}
}

func (x *Exec) convert(fr *Frame, cur *cursor, i *ssa.Convert) TV {
	v := x.tv(fr, cur, i.X)
	to := i.Type()
	s := x.g.sortOf(to)
	ft := i.X.Type().Underlying()
	tt := to.Underlying()
	switch {
	case v.Sort == "Int" && s == "Int":
		fb, ok1 := ft.(*types.Basic)
		tb, ok2 := tt.(*types.Basic)
		if ok1 && ok2 {
			lo, hi := intRange(tb.Kind())
			flo, fhi := intRange(fb.Kind())
			if lo == flo && hi == fhi {
				return TV{S: v.S, Sort: s, T: to}
			}
			mod := map[types.BasicKind]string{types.Int8: "256", types.Uint8: "256", types.Int16: "65536", types.Uint16: "65536", types.Int32: "4294967296", types.Uint32: "4294967296"}[tb.Kind()]
			if mod == "" {
				mod = "18446744073709551616"
			}
			// v if in range, else wrapped
			w := fmt.Sprintf("(mod %s %s)", v.S, mod)
			if tb.Info()&types.IsUnsigned == 0 {
				w = fmt.Sprintf("(let ((w?? %s)) (ite (<= w?? %s) w?? (- w?? %s)))", w, hi, mod)
			}
			return TV{S: x.def("conv", "Int", fmt.Sprintf("(ite (and (<= %s %s) (<= %s %s)) %s %s)", lo, v.S, v.S, hi, v.S, w)), Sort: s, T: to}
		}
		return TV{S: v.S, Sort: s, T: to}
	case v.Sort == "Str" && s == "Str":
		return TV{S: v.S, Sort: s, T: to}
	case v.Sort == "Int" && s == "Str":
		x.g.declare("runestr", "(declare-fun runestr (Int) Str)")
		return TV{S: "(runestr " + v.S + ")", Sort: s, T: to}
	case v.Sort == "Slice" && s == "Str":
		el := ft.(*types.Slice).Elem()
		if x.g.sortOf(el) == "Int" {
			env := &Env{x: x, g: x.g, st: cur.st}
			return TV{S: fmt.Sprintf("(bstr (select %s %s) %s %s)", env.heap(&Expr{}, x.g.elemHeap(el)), sarr(v), soff(v), slen(v)), Sort: s, T: to}
		}
	case v.Sort == "Str" && s == "Slice":
		el := tt.(*types.Slice).Elem()
		r := x.allocRef(cur, "bytes")
		h := x.g.elemHeap(el)
		a := x.fresh("bytes", "(Array Int Int)")
		x.set(cur.st, h, fmt.Sprintf("(store %s %s %s)", x.get(cur.st, h), r, a), r)
		n := x.fresh("n", "Int")
		x.fact("true", "(>= "+n+" 0)")
		if b, ok := el.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			x.fact("true", fmt.Sprintf("(= %s (strlen %s))", n, v.S))
			x.fact("true", fmt.Sprintf("(= (bstr %s 0 %s) %s)", a, n, v.S))
		}
		return x.mkSlice(to, r, "0", n, n)
	}
	x.note("conversion %s to %s is uninterpreted", i.X.Type(), to)
	fn := "conv$" + tname(i.X.Type()) + "$" + tname(to)
	x.g.declare(fn, fmt.Sprintf("(declare-fun %s (%s) %s)", fn, v.Sort, s))
	r := TV{S: "(" + fn + " " + v.S + ")", Sort: s, T: to}
	x.wf(r, x.get(cur.st, "nxt"))
	return r
}

func (x *Exec) typeAssert(fr *Frame, cur *cursor, i *ssa.TypeAssert) Val {
	v := x.tv(fr, cur, i.X)
	at := i.AssertedType
	var ok string
	var r TV
	if _, isI := at.Underlying().(*types.Interface); isI {
		r = TV{S: v.S, Sort: "Iface", T: at, box: v.box}
		if it := at.Underlying().(*types.Interface); it.NumMethods() == 0 {
			ok = "(not (= (itag " + v.S + ") 0))"
		} else if v.box != nil {
			ok = "false"
			if types.Implements(v.box.T, it) {
				ok = "true"
			}
		} else {
			ok = "(" + x.g.implFn(at) + " (itag " + v.S + "))"
		}
		if i.CommaOk {
			o := x.def("ok", "Bool", ok)
			r.S = x.def("as", "Iface", ite(o, v.S, "(mkI 0 unil)"))
			return Tuple{r, TV{S: o, Sort: "Bool", T: types.Typ[types.Bool]}}
		}
		x.safety(fr, cur, ok, "type assertion", i.Pos())
		return r
	}
	s := x.g.sortOf(at)
	if v.box != nil {
		ok = "false"
		if types.Identical(v.box.T, at) {
			ok = "true"
			r = *v.box
		}
	} else {
		ok = x.def("ok", "Bool", fmt.Sprintf("(= (itag %s) %d)", v.S, x.g.tag(at)))
	}
	if r.S == "" {
		box, unbox := x.g.boxFns(at)
		r = TV{S: x.def("as", s, "("+unbox+" (ival "+v.S+"))"), Sort: s, T: at}
		x.fact(cur.reach, fmt.Sprintf("(=> %s (= (%s %s) (ival %s)))", ok, box, r.S, v.S))
		x.wf(r, x.get(cur.st, "nxt"))
	}
	if i.CommaOk {
		if ok != "true" {
			r = TV{S: x.def("as", s, ite(ok, r.S, x.g.zero(at))), Sort: s, T: at}
		}
		return Tuple{r, TV{S: ok, Sort: "Bool", T: types.Typ[types.Bool]}}
	}
	x.safety(fr, cur, ok, "type assertion", i.Pos())
	return r
}

func (x *Exec) slice(fr *Frame, cur *cursor, i *ssa.Slice) Val {
	opt := func(v ssa.Value, d string) string {
		if v == nil {
			return d
		}
		return x.tv(fr, cur, v).S
	}
	v := x.val(fr, i.X)
	switch u := i.X.Type().Underlying().(type) {
	case *types.Slice:
		s := x.term(cur, v, i.Pos())
		lo := opt(i.Low, "0")
		hi := opt(i.High, slen(s))
		mx := opt(i.Max, scap(s))
		if i.Low != nil || i.High != nil || i.Max != nil {
			x.safety(fr, cur, fmt.Sprintf("(and (<= 0 %s) (<= %s %s) (<= %s %s) (<= %s %s))", lo, lo, hi, hi, mx, mx, scap(s)), "slice bounds out of range", i.Pos())
		}
		return x.mkSlice(i.Type(), sarr(s), add(soff(s), lo), subt(hi, lo), subt(mx, lo))
	case *types.Basic:
		s := x.term(cur, v, i.Pos())
		lo := opt(i.Low, "0")
		hi := opt(i.High, "(strlen "+s.S+")")
		x.safety(fr, cur, fmt.Sprintf("(and (<= 0 %s) (<= %s %s) (<= %s (strlen %s)))", lo, lo, hi, hi, s.S), "slice bounds out of range", i.Pos())
		return TV{S: x.def("sub", "Str", "(ssub "+s.S+" "+lo+" "+hi+")"), Sort: "Str", T: i.Type()}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		p := x.term(cur, v, i.Pos())
		n := fmt.Sprint(at.Len())
		lo := opt(i.Low, "0")
		hi := opt(i.High, n)
		mx := opt(i.Max, n)
		if i.Low != nil || i.High != nil {
			x.safety(fr, cur, fmt.Sprintf("(and (<= 0 %s) (<= %s %s) (<= %s %s) (<= %s %s))", lo, lo, hi, hi, mx, mx, n), "slice bounds out of range", i.Pos())
		}
		r := x.mkSlice(i.Type(), p.S, lo, subt(hi, lo), subt(mx, lo))
		if vs, ok := x.varargs[p.S]; ok && i.Low == nil && i.High == nil {
			r.lits = vs
		}
		return r
	}
	x.unsupported(cur, i.Pos(), "slice of %s", i.X.Type())
	return TV{S: x.fresh("bad", "Slice"), Sort: "Slice", T: i.Type()}
}

func (x *Exec) lookupMap(fr *Frame, cur *cursor, i *ssa.Lookup) Val {
	m := x.tv(fr, cur, i.X)
	k := x.tv(fr, cur, i.Index)
	mt, ok := i.X.Type().Underlying().(*types.Map)
	if !ok {
		x.safety(fr, cur, fmt.Sprintf("(and (<= 0 %s) (< %s (strlen %s)))", k.S, k.S, m.S), "index out of range", i.Pos())
		return TV{S: x.def("ch", "Int", "(sat "+m.S+" "+k.S+")"), Sort: "Int", T: i.Type()}
	}
	x.hashKey(fr, cur, k, i.Pos())
	d, vl, _ := x.g.mapHeaps(mt)
	has := x.def("has", "Bool", fmt.Sprintf("(select (select %s %s) %s)", x.get(cur.st, d), m.S, k.S))
	x.fact("true", fmt.Sprintf("(=> (= %s 0) (not %s))", m.S, has))
	s := x.g.sortOf(mt.Elem())
	raw := TV{S: x.def("mv", s, fmt.Sprintf("(select (select %s %s) %s)", x.get(cur.st, vl), m.S, k.S)), Sort: s, T: mt.Elem()}
	x.wfIf(has, raw, x.get(cur.st, "nxt"))
	v := TV{S: x.def("mv", s, ite(has, raw.S, x.g.zero(mt.Elem()))), Sort: s, T: mt.Elem()}
	if i.CommaOk {
		return Tuple{v, TV{S: has, Sort: "Bool", T: types.Typ[types.Bool]}}
	}
	return v
}

func (x *Exec) wfIf(cond string, v TV, nxt string) {
	if f := x.wfFormula(v, nxt); f != "true" {
		x.fact(cond, f)
	}
}

func (x *Exec) rangeOver(fr *Frame, cur *cursor, i *ssa.Range) Val {
	v := x.tv(fr, cur, i.X)
	n := fmt.Sprintf("it%d.%s", fr.id, i.Name())
	it := &Iter{name: n, x: v}
	if m, ok := i.X.Type().Underlying().(*types.Map); ok {
		ks := x.g.sortOf(m.Key())
		x.varSort[n] = "(Array " + ks + " Bool)"
		cur.st.v[n] = "((as const " + x.varSort[n] + ") false)"
	} else {
		x.varSort[n] = "Int"
		cur.st.v[n] = "0"
	}
	for _, r := range x.recs {
		r.writes[n] = true
	}
	for _, ref := range *i.Referrers() {
		if nx, ok := ref.(*ssa.Next); ok {
			fr.iters[nx.Block()] = it
		}
	}
	return it
}

func (x *Exec) next(fr *Frame, cur *cursor, i *ssa.Next) Val {
	it, ok := x.val(fr, i.Iter).(*Iter)
	if !ok {
		x.unsupported(cur, i.Pos(), "iterator")
		return nil
	}
	boolT := types.Typ[types.Bool]
	okc := x.fresh("ok", "Bool")
	tup := i.Type().(*types.Tuple)
	cst := x.get(cur.st, it.name)
	if i.IsString {
		s := it.x.S
		x.fact("true", fmt.Sprintf("(= %s (< %s (strlen %s)))", okc, cst, s))
		x.g.declare("runeat", "(declare-fun runeat (Str Int) Int)")
		x.g.declare("runew", "(declare-fun runew (Str Int) Int)")
		w := x.def("w", "Int", fmt.Sprintf("(runew %s %s)", s, cst))
		r := x.def("r", "Int", fmt.Sprintf("(runeat %s %s)", s, cst))
		x.fact("true", fmt.Sprintf("(=> %s (and (<= 1 %s) (<= %s 4) (<= (+ %s %s) (strlen %s)) (<= 0 %s) (<= %s 1114111)))", okc, w, w, cst, w, s, r, r))
		x.fact("true", fmt.Sprintf("(=> %s (and (= (< (sat %s %s) 128) (< %s 128)) (=> (< %s 128) (and (= %s (sat %s %s)) (= %s 1)))))", okc, s, cst, r, r, r, s, cst, w))
		x.set(cur.st, it.name, fmt.Sprintf("(ite %s (+ %s %s) %s)", okc, cst, w, cst), "*")
		return Tuple{TV{S: okc, Sort: "Bool", T: boolT}, TV{S: cst, Sort: "Int", T: types.Typ[types.Int]}, TV{S: r, Sort: "Int", T: types.Typ[types.Rune]}}
	}
	m := it.x.T.Underlying().(*types.Map)
	d, vl, _ := x.g.mapHeaps(m)
	ks, vs := x.g.sortOf(m.Key()), x.g.sortOf(m.Elem())
	k := TV{S: x.fresh("key", ks), Sort: ks, T: m.Key()}
	dom := fmt.Sprintf("(select %s %s)", x.get(cur.st, d), it.x.S)
	x.fact("true", fmt.Sprintf("(=> %s (and (select %s %s) (not (select %s %s))))", okc, dom, k.S, cst, k.S))
	x.fact("true", fmt.Sprintf("(=> (not %s) (forall ((k? %s)) (! (=> (select %s k?) (select %s k?)) :pattern ((select %s k?)) :pattern ((select %s k?)))))", okc, ks, dom, cst, cst, dom))
	x.fact("true", fmt.Sprintf("(=> (= %s 0) (not %s))", it.x.S, okc))
	nxt := x.get(cur.st, "nxt")
	x.wf(k, nxt)
	v := TV{S: x.def("mv", vs, fmt.Sprintf("(select (select %s %s) %s)", x.get(cur.st, vl), it.x.S, k.S)), Sort: vs, T: m.Elem()}
	x.wfIf(okc, v, nxt)
	x.set(cur.st, it.name, fmt.Sprintf("(ite %s (store %s %s true) %s)", okc, cst, k.S, cst), "*")
	_ = tup
	return Tuple{TV{S: okc, Sort: "Bool", T: boolT}, k, v}
}
