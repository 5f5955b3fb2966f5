package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// TV is a typed term.
type TV struct {
	S    string
	Sort string
	T    types.Type // nil for specification-only values
	sl   *SliceParts
	lits []TV // the elements of a slice literal
	box  *TV // for interface values: the boxed value, if known
}

// SliceParts are the known components of a slice term.
type SliceParts struct{ arr, off, n, cap string }

type axiom struct {
	text string
	keys [][]string // alternatives: all symbols of one must be present
	lem  int        // 1 + index of the lemma, 0 for an axiom
}

// Gen holds the declarations shared by all functions.
type Gen struct {
	p       *Program
	spec    *Spec
	decl    map[string]string   // symbol -> declaration
	alias   map[string]string   // symbol -> symbol whose declaration declares it
	order   map[string]int      // declaration order
	after   map[string][]string // symbol -> symbols that must be declared as well
	axioms  []axiom
	tags    map[string]int
	tagT    []types.Type
	ifaces  map[string]types.Type
	lits    map[string]string
	litOrd  []string
	structs map[string]bool
	heapT   map[string]heapInfo
	valT    map[string]types.Type // the type of the values in a heap
	fnIDs   map[string]int
	symC    map[string][]string
	fnSig   map[string]*FnDecl
	notes   map[string]bool
}

type heapInfo struct {
	sort string // sort of the whole heap variable
	val  string // sort of a value
}

func newGen(p *Program, spec *Spec) *Gen {
	g := &Gen{
		p: p, spec: spec, decl: map[string]string{}, alias: map[string]string{}, order: map[string]int{},
		after: map[string][]string{}, tags: map[string]int{}, ifaces: map[string]types.Type{}, lits: map[string]string{},
		structs: map[string]bool{}, heapT: map[string]heapInfo{}, valT: map[string]types.Type{}, fnIDs: map[string]int{}, symC: map[string][]string{},
		notes: map[string]bool{},
	}
	g.declare("Str", "(declare-sort Str 0)")
	g.declare("Sq", "(declare-sort Sq 0)")
	g.heap("nxt", "Int", "Int")
	g.declare("Univ", "(declare-sort Univ 0)")
	// Interface values: not a free pair, since not every pair of a tag and a payload is a value.
	g.declare("Iface", "(declare-sort Iface 0)")
	g.declare("mkI", "(declare-fun mkI (Int Univ) Iface)")
	g.declare("itag", "(declare-fun itag (Iface) Int)")
	g.declare("ival", "(declare-fun ival (Iface) Univ)")
	g.axiom("(= (itag (mkI 0 unil)) 0)", []string{"mkI", "itag"})
	g.axiom("(= (ival (mkI 0 unil)) unil)", []string{"mkI", "ival"})
	g.axiom("(forall ((v Iface)) (! (=> (= (itag v) 0) (= v (mkI 0 unil))) :pattern ((itag v))))", []string{"itag"})
	g.axiom("(forall ((v Iface)) (! (= (mkI (itag v) (ival v)) v) :pattern ((ival v))))", []string{"ival"})
	g.declare("Slice", "(declare-datatypes ((Slice 0)) (((mkSl (sarr Int) (soff Int) (slen Int) (scap Int)))))")
	g.aliasTo("Slice", "mkSl", "sarr", "soff", "slen", "scap")
	g.declare("ix", "(declare-fun ix (Int Int) Int)")
	g.axiom("(forall ((o Int) (i Int)) (! (= (ix o i) (+ o i)) :pattern ((ix o i))))", []string{"ix"})
	g.declare("unil", "(declare-const unil Univ)")
	g.declare("ubound", "(declare-fun ubound (Univ) Int)")
	for i, k := range p.keys {
		g.fnIDs[k] = i + 1
	}
	return g
}

func (g *Gen) declare(sym, text string) {
	if _, ok := g.decl[sym]; ok {
		return
	}
	g.decl[sym] = text
	g.order[sym] = len(g.order)
}

func (g *Gen) aliasTo(sym string, as ...string) {
	for _, a := range as {
		g.alias[a] = sym
	}
}

func (g *Gen) axiom(text string, keys ...[]string) {
	g.axioms = append(g.axioms, axiom{text: text, keys: keys})
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '$':
			b.WriteRune(r)
		case r == '*':
			b.WriteString("ptr$")
		case r == '[':
			b.WriteString("$l")
		case r == ']':
			b.WriteString("$r")
		default:
			b.WriteByte('_')
		}
	}
	return b.String()
}

func tstr(t types.Type) string {
	s := types.TypeString(types.Unalias(t), qualifier)
	return strings.ReplaceAll(s, "interface{}", "any")
}

func tname(t types.Type) string { return sanitize(tstr(t)) }

// external reports whether t is a struct type of another module, which is opaque here.
func (g *Gen) opaque(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return false
	}
	return n.Obj().Pkg() != nil && !g.p.repo[n.Obj().Pkg()]
}

func (g *Gen) sortOf(t types.Type) string {
	t = types.Unalias(t)
	if tp, ok := t.(*types.TypeParam); ok {
		s := "TP." + sanitize(tp.Obj().Name())
		g.declare(s, "(declare-sort "+s+" 0)")
		return s
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsString != 0:
			return "Str"
		case u.Info()&types.IsFloat != 0:
			g.declare("F64", "(declare-sort F64 0)")
			return "F64"
		case u.Kind() == types.UnsafePointer:
			return "Int"
		case u.Kind() == types.UntypedNil:
			return "Int"
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "Int"
	case *types.Slice:
		return "Slice"
	case *types.Array:
		return "(Array Int " + g.sortOf(u.Elem()) + ")"
	case *types.Interface:
		return "Iface"
	case *types.Struct:
		if g.opaque(t) {
			s := "O." + tname(t)
			g.declare(s, "(declare-sort "+s+" 0)")
			return s
		}
		return g.structSort(t, u)
	case *types.Tuple:
		return "Tuple"
	}
	panic(fmt.Sprintf("no sort for %s", t))
}

func (g *Gen) structSort(t types.Type, u *types.Struct) string {
	s := "S." + tname(t)
	if g.structs[s] {
		return s
	}
	g.structs[s] = true
	var fs []string
	var acc []string
	for i := 0; i < u.NumFields(); i++ {
		a := s + "." + sanitize(u.Field(i).Name())
		acc = append(acc, a)
		fs = append(fs, fmt.Sprintf("(%s %s)", a, g.sortOf(u.Field(i).Type())))
	}
	if len(fs) == 0 {
		g.declare(s, fmt.Sprintf("(declare-datatypes ((%s 0)) (((mk%s))))", s, s))
	} else {
		g.declare(s, fmt.Sprintf("(declare-datatypes ((%s 0)) (((mk%s %s))))", s, s, strings.Join(fs, " ")))
	}
	g.aliasTo(s, append(acc, "mk"+s)...)
	return s
}

// tag returns the identifier of a dynamic type.
func (g *Gen) tag(t types.Type) int {
	k := tstr(t)
	if id, ok := g.tags[k]; ok {
		return id
	}
	id := len(g.tags) + 1
	g.tags[k] = id
	g.tagT = append(g.tagT, t)
	for _, it := range g.sortedIfaces() {
		g.implFact(t, it)
	}
	return id
}

func (g *Gen) sortedIfaces() []types.Type {
	var ks []string
	for k := range g.ifaces {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var r []types.Type
	for _, k := range ks {
		r = append(r, g.ifaces[k])
	}
	return r
}

func (g *Gen) implFn(it types.Type) string {
	n := "impl$" + tname(it)
	if _, ok := g.ifaces[n]; !ok {
		g.ifaces[n] = it
		g.declare(n, "(declare-fun "+n+" (Int) Bool)")
		g.axiom(fmt.Sprintf("(not (%s 0))", n), []string{n})
		for _, t := range g.tagT {
			g.implFact(t, it)
		}
	}
	return n
}

func (g *Gen) implFact(t, it types.Type) {
	n := "impl$" + tname(it)
	i, ok := it.Underlying().(*types.Interface)
	if !ok {
		return
	}
	if _, isTP := types.Unalias(t).(*types.TypeParam); isTP {
		return
	}
	v := "true"
	if !types.Implements(t, i) {
		v = "false"
	}
	g.axiom(fmt.Sprintf("(= (%s %d) %s)", n, g.tags[tstr(t)], v), []string{n})
}

// boxFns declares and returns the boxing functions of a type.
func (g *Gen) boxFns(t types.Type) (box, unbox string) {
	n := tname(t)
	box, unbox = "box$"+n, "unbox$"+n
	if _, ok := g.decl[box]; ok {
		return
	}
	s := g.sortOf(t)
	g.declare(box, fmt.Sprintf("(declare-fun %s (%s) Univ)", box, s))
	g.declare(unbox, fmt.Sprintf("(declare-fun %s (Univ) %s)", unbox, s))
	g.axiom(fmt.Sprintf("(forall ((x %s)) (! (= (%s (%s x)) x) :pattern ((%s x))))", s, unbox, box, box), []string{box})
	if _, isI := types.Unalias(t).Underlying().(*types.Interface); !isI {
		wf := fmt.Sprintf("(and (= (itag (mkI %d (%s x))) %d) (= (ival (mkI %d (%s x))) (%s x)))", g.tag(t), box, g.tag(t), g.tag(t), box, box)
		for _, bf := range g.spec.BoxFacts {
			if bt, err := g.goType(bf.Type); err == nil && bf.Req && tstr(bt) == tstr(t) {
				env := &Env{x: g.dummy(), g: g, vars: map[string]TV{bf.V: {S: "x", Sort: s, T: t}}, q: 1}
				wf = "(=> " + env.bool(bf.E) + " " + wf + ")"
			}
		}
		g.axiom(fmt.Sprintf("(forall ((x %s)) (! %s :pattern ((mkI %d (%s x)))))", s, wf, g.tag(t), box), []string{"mkI", box})
		g.axiom(fmt.Sprintf("(forall ((v Iface)) (! (=> (= (itag v) %d) (= (%s (%s (ival v))) (ival v))) :pattern ((%s (ival v)))))", g.tag(t), box, unbox, unbox), []string{unbox})
	}
	b := g.bound(TV{S: "x", Sort: s, T: t})
	if b == "" {
		b = "0"
	}
	g.axiom(fmt.Sprintf("(forall ((x %s)) (! (= (ubound (%s x)) %s) :pattern ((%s x))))", s, box, b, box), []string{box, "ubound"})
	return
}

// bound gives an upper bound of the references in a value (exclusive), or "".
func (g *Gen) bound(v TV) string {
	if v.T == nil {
		if v.Sort == "Iface" {
			return "(ubound (ival " + v.S + "))"
		}
		return ""
	}
	switch types.Unalias(v.T).Underlying().(type) {
	case *types.Pointer, *types.Map:
		return "(+ " + v.S + " 1)"
	case *types.Slice:
		return "(+ (sarr " + v.S + ") 1)"
	case *types.Interface:
		if _, tp := types.Unalias(v.T).(*types.TypeParam); tp {
			return ""
		}
		return "(ubound (ival " + v.S + "))"
	}
	return ""
}

// toAny is the conversion of a value of a type parameter to an interface
// value: the type may itself be an interface type.
func (g *Gen) toAny(tp *types.TypeParam) string {
	n := "toany$" + sanitize(tp.Obj().Name())
	g.declare(n, fmt.Sprintf("(declare-fun %s (%s) Iface)", n, g.sortOf(tp)))
	return n
}

func (g *Gen) uinj(s string) string {
	n := "u$" + sanitize(s)
	if _, ok := g.decl[n]; !ok {
		g.declare(n, fmt.Sprintf("(declare-fun %s (%s) Univ)", n, s))
		g.declare("un"+n, fmt.Sprintf("(declare-fun un%s (Univ) %s)", n, s))
		g.axiom(fmt.Sprintf("(forall ((x %s)) (! (= (un%s (%s x)) x) :pattern ((%s x))))", s, n, n, n), []string{n})
	}
	return n
}

// seqFn is the abstraction of (array, offset, length) to a sequence.
func (g *Gen) seqFn(elem string) string {
	n := "seqA$" + sanitize(elem)
	if _, ok := g.decl[n]; !ok {
		u := g.uinj(elem)
		g.declare(n, fmt.Sprintf("(declare-fun %s ((Array Int %s) Int Int) Sq)", n, elem))
		g.axiom(fmt.Sprintf("(forall ((a (Array Int %s)) (o Int) (n Int)) (! (=> (<= n 0) (= (%s a o n) qempty)) :pattern ((%s a o n))))", elem, n, n), []string{n})
		g.axiom(fmt.Sprintf("(forall ((a (Array Int %s)) (o Int) (n Int)) (! (=> (>= n 0) (= (qlen (%s a o n)) n)) :pattern ((%s a o n))))", elem, n, n), []string{n, "qlen"})
		g.axiom(fmt.Sprintf("(forall ((a (Array Int %s)) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (qget (%s a o n) i) (%s (select a (ix o i))))) :pattern ((qget (%s a o n) i))))", elem, n, u, n), []string{n, "qget"})
		z := n + "$0"
		g.declare(z, fmt.Sprintf("(declare-fun %s ((Array Int %s) Int Int) Sq)", z, elem))
		g.axiom(fmt.Sprintf("(forall ((a (Array Int %s)) (o Int) (n Int)) (! (=> (> n 0) (= (%s a o n) (snoc (%s a o (- n 1)) (%s (select a (ix o (- n 1))))))) :pattern ((%s a o n))))", elem, n, z, u, n), []string{n})
		g.axiom(fmt.Sprintf("(forall ((a (Array Int %s)) (o Int) (n Int)) (! (= (%s a o n) (%s a o n)) :pattern ((%s a o n))))", elem, n, z, n), []string{n})
		g.axiom(fmt.Sprintf("(forall ((a (Array Int %s)) (o Int) (n Int)) (! (=> (<= n 0) (= (%s a o n) qempty)) :pattern ((%s a o n))))", elem, z, z), []string{z})
	}
	return n
}

// boxSeq is the sequence of the elements of an array, as interface values.
func (g *Gen) boxSeq(el types.Type) string {
	s := g.sortOf(el)
	if s == "Iface" {
		return g.seqFn(s)
	}
	n := "boxS$" + tname(el)
	if _, ok := g.decl[n]; !ok {
		u := g.uinj("Iface")
		var it string
		el1 := "(select a (ix o (- n 1)))"
		if tp, ok := types.Unalias(el).(*types.TypeParam); ok {
			it = "(" + g.toAny(tp) + " " + el1 + ")"
		} else {
			box, _ := g.boxFns(el)
			it = fmt.Sprintf("(mkI %d (%s %s))", g.tag(el), box, el1)
		}
		z := n + "$0"
		for _, f := range []string{n, z} {
			g.declare(f, fmt.Sprintf("(declare-fun %s ((Array Int %s) Int Int) Sq)", f, s))
		}
		vs := fmt.Sprintf("((a (Array Int %s)) (o Int) (n Int))", s)
		g.axiom(fmt.Sprintf("(forall %s (! (= (%s a o n) (ite (<= n 0) qempty (snoc (%s a o (- n 1)) (%s %s)))) :pattern ((%s a o n))))", vs, n, z, u, it, n), []string{n})
		g.axiom(fmt.Sprintf("(forall %s (! (= (%s a o n) (%s a o n)) :pattern ((%s a o n))))", vs, n, z, n), []string{n})
	}
	return n
}

func (g *Gen) lit(s string) string {
	if s == "" {
		return "sempty"
	}
	if n, ok := g.lits[s]; ok {
		return n
	}
	base := sanitize(s)
	if len(base) > 16 {
		base = base[:16]
	}
	n := fmt.Sprintf("lit%d$%s", len(g.lits), base)
	g.lits[s] = n
	g.litOrd = append(g.litOrd, s)
	g.declare(n, "(declare-const "+n+" Str)")
	g.axiom(fmt.Sprintf("(= (strlen %s) %d)", n, len(s)), []string{n, "strlen"})
	if len(s) <= 24 {
		for i := 0; i < len(s); i++ {
			g.axiom(fmt.Sprintf("(= (sat %s %d) %d)", n, i, s[i]), []string{n, "sat"})
		}
	}
	return n
}

func (g *Gen) zero(t types.Type) string {
	t = types.Unalias(t)
	s := g.sortOf(t)
	switch s {
	case "Bool":
		return "false"
	case "Int":
		return "0"
	case "Str":
		return "sempty"
	case "Slice":
		return "(mkSl 0 0 0 0)"
	case "Iface":
		return "(mkI 0 unil)"
	}
	if st, ok := t.Underlying().(*types.Struct); ok && strings.HasPrefix(s, "S.") {
		var fs []string
		for i := 0; i < st.NumFields(); i++ {
			fs = append(fs, g.zero(st.Field(i).Type()))
		}
		if len(fs) == 0 {
			return "mk" + s
		}
		return "(mk" + s + " " + strings.Join(fs, " ") + ")"
	}
	if at, ok := t.Underlying().(*types.Array); ok {
		return g.constArray("Int", at.Elem())
	}
	z := "zero$" + sanitize(s)
	g.declare(z, fmt.Sprintf("(declare-const %s %s)", z, s))
	return z
}

// constArray is the array of zero values.
func (g *Gen) constArray(key string, el types.Type) string {
	z := g.zero(el)
	es := g.sortOf(el)
	if z == "0" || z == "false" {
		return fmt.Sprintf("((as const (Array %s %s)) %s)", key, es, z)
	}
	n := "zarr$" + sanitize(key) + "$" + sanitize(es)
	if _, ok := g.decl[n]; !ok {
		g.declare(n, fmt.Sprintf("(declare-const %s (Array %s %s))", n, key, es))
		g.axiom(fmt.Sprintf("(forall ((i %s)) (! (= (select %s i) %s) :pattern ((select %s i))))", key, n, z, n), []string{n})
	}
	return n
}

func (g *Gen) constTV(c *ssa.Const) TV {
	t := c.Type()
	s := g.sortOf(t)
	if c.Value == nil {
		return TV{S: g.zero(t), Sort: s, T: t}
	}
	switch s {
	case "Bool":
		return TV{S: fmt.Sprint(constant.BoolVal(c.Value)), Sort: s, T: t}
	case "Str":
		return TV{S: g.lit(constant.StringVal(c.Value)), Sort: s, T: t}
	case "Int":
		return TV{S: smtInt(constant.ToInt(c.Value).ExactString()), Sort: s, T: t}
	case "F64":
		n := "f64$" + sanitize(c.Value.ExactString())
		g.declare(n, "(declare-const "+n+" F64)")
		return TV{S: n, Sort: s, T: t}
	}
	panic("constant " + c.String())
}

func smtInt(s string) string {
	if strings.HasPrefix(s, "-") {
		return "(- " + s[1:] + ")"
	}
	return s
}

func (g *Gen) heap(name, sort, val string) string {
	if _, ok := g.heapT[name]; !ok {
		g.heapT[name] = heapInfo{sort, val}
	}
	return name
}

func (g *Gen) fieldHeap(t types.Type, i int) string {
	st := t.Underlying().(*types.Struct)
	v := g.sortOf(st.Field(i).Type())
	n := g.heap("F."+tname(t)+"."+sanitize(st.Field(i).Name()), "(Array Int "+v+")", v)
	g.valT[n] = st.Field(i).Type()
	return n
}

func (g *Gen) elemHeap(elem types.Type) string {
	v := g.sortOf(elem)
	n := g.heap("E."+tname(elem), "(Array Int (Array Int "+v+"))", v)
	g.valT[n] = elem
	return n
}

func (g *Gen) cellHeap(t types.Type) string {
	v := g.sortOf(t)
	return g.heap("C."+tname(t), "(Array Int "+v+")", v)
}

func (g *Gen) mapHeaps(m *types.Map) (dom, val, n string) {
	k, v := g.sortOf(m.Key()), g.sortOf(m.Elem())
	id := tname(m.Key()) + "." + tname(m.Elem())
	dom = g.heap("MD."+id, "(Array Int (Array "+k+" Bool))", "(Array "+k+" Bool)")
	val = g.heap("MV."+id, "(Array Int (Array "+k+" "+v+"))", "(Array "+k+" "+v+")")
	n = g.heap("ML."+id, "(Array Int Int)", "Int")
	return
}

func (g *Gen) globalVar(gl *ssa.Global) string {
	t := gl.Type().(*types.Pointer).Elem()
	return g.heap("V."+gl.Pkg.Pkg.Name()+"."+gl.Name(), g.sortOf(t), g.sortOf(t))
}

func (g *Gen) ghostHeap(gf *GhostField) string {
	v := g.specSort(gf.Type)
	return g.heap("G."+sanitize(gf.TypeName)+"."+gf.Field, "(Array Int "+v+")", v)
}

// ghostFields of a named type
func (g *Gen) ghostFields(t types.Type) []*GhostField {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil
	}
	return g.spec.Ghosts[n.Obj().Pkg().Name()+"."+n.Obj().Name()]
}

// ---------------------------------------------------------------- spec types

var specSorts = map[string]bool{"Sq": true, "Int": true, "Bool": true, "Str": true, "F64": true, "Univ": true, "Iface": true, "Slice": true}

func (g *Gen) goType(t *TypeRef) (types.Type, error) {
	switch t.Kind {
	case "ptr":
		e, err := g.goType(t.A)
		if err != nil {
			return nil, err
		}
		return types.NewPointer(e), nil
	case "slice":
		e, err := g.goType(t.A)
		if err != nil {
			return nil, err
		}
		return types.NewSlice(e), nil
	case "map":
		k, err := g.goType(t.A)
		if err != nil {
			return nil, err
		}
		v, err := g.goType(t.B)
		if err != nil {
			return nil, err
		}
		return types.NewMap(k, v), nil
	}
	if i := strings.Index(t.Name, "."); i >= 0 {
		pkg := g.p.byName[t.Name[:i]]
		if pkg == nil {
			return nil, fmt.Errorf("unknown package %s", t.Name[:i])
		}
		o := pkg.Scope().Lookup(t.Name[i+1:])
		if o == nil {
			return nil, fmt.Errorf("unknown type %s", t.Name)
		}
		return o.Type(), nil
	}
	o := types.Universe.Lookup(t.Name)
	if o == nil {
		return nil, fmt.Errorf("unknown type %s", t.Name)
	}
	return o.Type(), nil
}

func (g *Gen) isSpecSort(t *TypeRef) bool {
	if t.Kind != "name" {
		return false
	}
	if specSorts[t.Name] {
		return true
	}
	for _, s := range g.spec.Sorts {
		if s == t.Name {
			return true
		}
	}
	return false
}

func (g *Gen) specType(t *TypeRef) (string, types.Type) {
	if g.isSpecSort(t) {
		if t.Name == "F64" {
			g.declare("F64", "(declare-sort F64 0)")
		}
		return t.Name, nil
	}
	if t.Kind == "map" && (g.isSpecSort(t.A) || g.isSpecSort(t.B)) {
		return "(Array " + g.specSort(t.A) + " " + g.specSort(t.B) + ")", nil
	}
	gt, err := g.goType(t)
	if err != nil {
		panic(specErr{err.Error()})
	}
	return g.sortOf(gt), gt
}

func (g *Gen) specSort(t *TypeRef) string {
	s, _ := g.specType(t)
	return s
}

type specErr struct{ msg string }

func (e specErr) Error() string { return e.msg }

// ---------------------------------------------------------------- symbols

func symbols(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		c := s[i]
		if c == ' ' || c == '(' || c == ')' || c == '\n' || c == '\t' {
			i++
			continue
		}
		j := i
		for j < len(s) && s[j] != ' ' && s[j] != '(' && s[j] != ')' && s[j] != '\n' && s[j] != '\t' {
			j++
		}
		r, _ := utf8.DecodeRuneInString(s[i:])
		if r != ':' && !(r >= '0' && r <= '9') {
			out = append(out, s[i:j])
		}
		i = j
	}
	return out
}

func (g *Gen) syms(text string) []string {
	if r, ok := g.symC[text]; ok {
		return r
	}
	seen := map[string]bool{}
	var r []string
	for _, s := range symbols(text) {
		if !seen[s] {
			seen[s] = true
			r = append(r, s)
		}
	}
	g.symC[text] = r
	return r
}

// prelude returns the declarations and axioms needed by the given texts.
func (g *Gen) prelude(local map[string]string, texts []string, lem int) string {
	need := map[string]bool{}
	var work []string
	add := func(s string) {
		if a, ok := g.alias[s]; ok {
			s = a
		}
		if !need[s] {
			need[s] = true
			work = append(work, s)
		}
	}
	for _, t := range texts {
		for _, s := range symbols(t) {
			add(s)
		}
	}
	used := make([]bool, len(g.axioms))
	for {
		for len(work) > 0 {
			s := work[len(work)-1]
			work = work[:len(work)-1]
			if d, ok := g.decl[s]; ok {
				for _, y := range g.syms(d) {
					add(y)
				}
			} else if d, ok := local[s]; ok {
				for _, y := range symbols(d) {
					add(y)
				}
			}
			for _, y := range g.after[s] {
				add(y)
			}
		}
		more := false
		for i, a := range g.axioms {
			if used[i] || lem > 0 && a.lem >= lem {
				continue
			}
			ok := false
			for _, ks := range a.keys {
				all := true
				for _, k := range ks {
					if x, isA := g.alias[k]; isA {
						k = x
					}
					if !need[k] {
						all = false
						break
					}
				}
				if all {
					ok = true
					break
				}
			}
			if ok {
				used[i] = true
				more = true
				for _, y := range g.syms(a.text) {
					add(y)
				}
			}
		}
		if !more && len(work) == 0 {
			break
		}
	}
	var syms []string
	for s := range need {
		if _, ok := g.decl[s]; ok {
			syms = append(syms, s)
		}
	}
	rank := func(s string) int {
		d := g.decl[s]
		switch {
		case strings.HasPrefix(d, "(declare-sort"):
			return 0
		case strings.HasPrefix(d, "(declare-datatypes"):
			return 1
		}
		return 2
	}
	sort.Slice(syms, func(i, j int) bool {
		a, b := rank(syms[i]), rank(syms[j])
		if a != b {
			return a < b
		}
		return g.order[syms[i]] < g.order[syms[j]]
	})
	var b strings.Builder
	// datatypes may refer to each other: emit after their dependencies
	done := map[string]bool{}
	var emit func(s string)
	emit = func(s string) {
		if done[s] {
			return
		}
		done[s] = true
		if rank(s) == 1 {
			for _, y := range g.syms(g.decl[s]) {
				if a, ok := g.alias[y]; ok {
					y = a
				}
				if y != s && need[y] && g.decl[y] != "" && rank(y) <= 1 {
					emit(y)
				}
			}
		}
		b.WriteString(g.decl[s])
		b.WriteByte('\n')
	}
	for _, s := range syms {
		emit(s)
	}
	var locals []string
	for s := range need {
		if d, ok := local[s]; ok {
			locals = append(locals, fmt.Sprintf("(declare-const %s %s)", s, d))
		}
	}
	sort.Strings(locals)
	for _, l := range locals {
		b.WriteString(l)
		b.WriteByte('\n')
	}
	var ls []string
	for _, l := range g.litOrd {
		if need[g.lits[l]] {
			ls = append(ls, g.lits[l])
		}
	}
	if need["sempty"] {
		ls = append(ls, "sempty")
	}
	if len(ls) > 1 {
		b.WriteString("(assert (distinct " + strings.Join(ls, " ") + "))\n")
	}
	for i, a := range g.axioms {
		if used[i] {
			b.WriteString("(assert " + a.text + ")\n")
		}
	}
	return b.String()
}
