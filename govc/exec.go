package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is the value of an SSA register: TV, *Addr, *Closure, Tuple or *Iter.
type Val any

// Tuple is a tuple of values.
type Tuple []Val

// Addr is an address that is not (yet) a term.
type Addr struct {
	kind string // var, sel (one index), elem (two indexes)
	name string
	ref  string
	idx  string
	path []step
	typ  types.Type
	init bool // address of an element of a slice literal under construction
}

type step struct {
	st    types.Type
	field int
}

// Closure is a known function value.
type Closure struct {
	fn   *ssa.Function
	bind []Val
}

// Iter is a map or string iterator.
type Iter struct {
	name string // state variable: visited set or position
	x    TV
}

// State maps state variables to terms.
type State struct{ v map[string]string }

func (s *State) clone() *State {
	n := &State{v: make(map[string]string, len(s.v))}
	for k, v := range s.v {
		n.v[k] = v
	}
	return n
}

// Fact is a guarded assumption.
type Fact struct {
	guard, text string
	key, key2   string // relevant only if these symbols are
	exit        int    // established at this exit, of use there only
}

// Obl is a proof obligation.
type Obl struct {
	Fn     string
	Name   string
	Kind   string
	Labels []string
	Reach  string
	Goal   string
	NF     int
	exit   int  // the exit it is about, 0: none
	early  int  // facts from here on were found behind another exit, if it is about an exit
	slim   int  // 1: render the frames and the definitions only, 2: and what is about the same parts of the state
	Pos    string
	Text   string
	x      *Exec
	// result
	Status string // discharged, failed, unknown
	By     string
	Secs   float64
	Output string
}

type edge struct {
	cond string
	st   *State
	pred *ssa.BasicBlock
}

type exit struct {
	cond string
	st   *State
	res  []Val
	pos  token.Pos
	nf   int // what held when it was reached
}

type deferRec struct {
	cond string
	call *ssa.CallCommon
	fr   *Frame
	block *ssa.BasicBlock
	fnv  Val
	args []Val
}

// Frame is an activation of a function.
type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	parent *Frame
	id     int
	exits  []exit
	defers []deferRec
	panics []edge
	in     map[*ssa.BasicBlock][]edge
	loops  map[*ssa.BasicBlock]*Loop
	iters  map[*ssa.BasicBlock]*Iter
	dom    map[string][]nameBind
	loopk  map[*ssa.BasicBlock]string
	curB   *ssa.BasicBlock
	panick bool
}

type nameBind struct {
	v    ssa.Value
	b    *ssa.BasicBlock
	addr bool
}

// Loop is a natural loop.
type Loop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
	back []*ssa.BasicBlock
}

type loopRun struct {
	spec  *LoopSpec
	pre   *State
	k     string
	dec0  string
	ord   int
	writ  []string
	phis  []*ssa.Phi
	reach string
}

type recorder struct {
	writes  map[string]bool
	targets map[string]map[string]bool
}

// Exec generates the obligations of one function.
type Exec struct {
	defs     map[string]string // definitions made so far
	splits   map[string][]string
	g        *Gen
	fn       *ssa.Function
	key      string
	c        *Contract
	facts    []Fact
	perm     []Fact
	obls     []*Obl
	consts   map[string]string
	constIx  map[string]int
	cnt      int
	cache    map[string]string
	cacheLog []string
	exits, exit, exitFact, exitNF int
	varSort  map[string]string
	known    map[string]bool
	newName  bool
	entry    *State
	params   map[string]TV
	ghostT   map[string]TV
	recs     []*recorder
	loopN    int
	dry      int
	qn       int
	allocs   map[string]int
	varargs  map[string][]TV
	depth    int
	lr       map[*ssa.BasicBlock]*loopRun // active loops (top of stack)
	notes    map[string]bool
	inlined  map[string]bool
	called   map[string]bool
	top      *Frame
	wfDone   map[string]bool
	errs     []string
	modsC    []modT
	modsAll  bool
	term0    string
	trust    map[string]bool
	used     map[string]bool
	hit      map[string]bool
	oblN     map[string]int
	exitN    int
	lem      int // 1 + index of the lemma being proved
	itsGhost map[string]TV
}

type cursor struct {
	st    *State
	reach string
}

func (x *Exec) note(f string, a ...any) { x.notes[fmt.Sprintf(f, a...)] = true }

// ---------------------------------------------------------------- terms

func atomic(s string) bool { return !strings.ContainsAny(s, " (") }

func (x *Exec) fresh(prefix, sort string) string {
	x.cnt++
	n := fmt.Sprintf("%s!%d", prefix, x.cnt)
	x.consts[n] = sort
	x.constIx[n] = x.cnt
	return n
}

// def names a term.
func (x *Exec) def(prefix, sort, term string) string {
	if atomic(term) || len(term) < 24 {
		return term
	}
	key := sort + "|" + term
	if n, ok := x.cache[key]; ok {
		return n
	}
	n := x.fresh(prefix, sort)
	if x.defs == nil {
		x.defs = map[string]string{}
	}
	x.defs[n] = term
	x.facts = append(x.facts, Fact{guard: "true", text: "(= " + n + " " + term + ")", key: n})
	x.cache[key] = n
	x.cacheLog = append(x.cacheLog, key)
	return n
}

func (x *Exec) fact(guard, text string) {
	if text == "true" || guard == "false" {
		return
	}
	x.facts = append(x.facts, Fact{guard: guard, text: text, exit: x.exitFact})
}

// factK is a fact that only matters if key does.
func (x *Exec) factK(guard, text, key string) {
	if text == "true" || guard == "false" {
		return
	}
	if !atomic(key) {
		key = ""
	}
	x.facts = append(x.facts, Fact{guard: guard, text: text, key: key})
}

func and(a ...string) string {
	var r []string
	for _, s := range a {
		if s == "false" {
			return "false"
		}
		if s != "true" && s != "" {
			r = append(r, s)
		}
	}
	switch len(r) {
	case 0:
		return "true"
	case 1:
		return r[0]
	}
	return "(and " + strings.Join(r, " ") + ")"
}

func or(a ...string) string {
	var r []string
	for _, s := range a {
		if s == "true" {
			return "true"
		}
		if s != "false" && s != "" {
			r = append(r, s)
		}
	}
	switch len(r) {
	case 0:
		return "false"
	case 1:
		return r[0]
	}
	return "(or " + strings.Join(r, " ") + ")"
}

func not(a string) string {
	switch a {
	case "true":
		return "false"
	case "false":
		return "true"
	}
	if strings.HasPrefix(a, "(not ") {
		return strings.TrimSuffix(strings.TrimPrefix(a, "(not "), ")")
	}
	return "(not " + a + ")"
}

func ite(c, a, b string) string {
	if c == "true" || a == b {
		return a
	}
	if c == "false" {
		return b
	}
	return "(ite " + c + " " + a + " " + b + ")"
}

// ---------------------------------------------------------------- state

func (x *Exec) get(st *State, name string) string {
	if v, ok := st.v[name]; ok {
		return v
	}
	hi, ok := x.g.heapT[name]
	if !ok {
		panic(specErr{"unknown state variable " + name})
	}
	if !x.known[name] {
		x.known[name] = true
		x.newName = true
	}
	n := name + "@0"
	if _, ok := x.consts[n]; !ok {
		x.consts[n] = hi.sort
		x.constIx[n] = 0
		x.entryHeap(name, n)
	}
	x.varSort[name] = hi.sort
	st.v[name] = n
	return n
}

// entryHeap states that what the objects refer to at entry exists at entry.
func (x *Exec) entryHeap(name, n string) {
	t := x.g.valT[name]
	if t == nil {
		return
	}
	sel, vs := "(select "+n+" r?)", "(r? Int)"
	if strings.HasPrefix(name, "E.") {
		sel, vs = "(select (select "+n+" r?) i?)", "(r? Int) (i? Int)"
	}
	b := ""
	switch types.Unalias(t).Underlying().(type) {
	case *types.Pointer, *types.Map:
		b = "(< " + sel + " nxt@0)"
	case *types.Slice:
		b = "(< (sarr " + sel + ") nxt@0)"
	case *types.Interface:
		if _, tp := types.Unalias(t).(*types.TypeParam); tp {
			return
		}
		b = "(<= (ubound (ival " + sel + ")) nxt@0)"
	default:
		return
	}
	if _, ok := x.consts["nxt@0"]; !ok {
		x.consts["nxt@0"] = "Int"
		x.constIx["nxt@0"] = 0
	}
	x.factK("true", fmt.Sprintf("(forall (%s) (! (=> (< r? nxt@0) %s) :pattern (%s)))", vs, b, sel), n)
}

func (x *Exec) set(st *State, name, term, target string) {
	sort := x.varSort[name]
	if sort == "" {
		x.get(st, name)
		sort = x.varSort[name]
	}
	x.touchGroups(st, name)
	st.v[name] = x.def(strings.TrimPrefix(strings.TrimPrefix(name, "F."), "E."), sort, term)
	x.record(name, target)
}

func (x *Exec) record(name string, targets ...string) {
	for _, r := range x.recs {
		r.writes[name] = true
		if r.targets[name] == nil {
			r.targets[name] = map[string]bool{}
		}
		for _, t := range targets {
			r.targets[name][t] = true
		}
	}
}

func (x *Exec) touchGroups(st *State, name string) {
	for _, gn := range x.g.spec.GroupOrd {
		cur, ok := st.v["gv."+gn]
		if !ok {
			continue
		}
		for _, h := range x.g.spec.Groups[gn].Heaps {
			if h == name {
				st.v["gvp."+gn] = cur
				st.v["gvpn."+gn] = st.v["gvn."+gn]
				delete(st.v, "gv."+gn)
				delete(st.v, "gvn."+gn)
				break
			}
		}
	}
}

// groupVer returns the version of a group of heaps in a state.
func (x *Exec) groupVer(st *State, group string) string {
	if v, ok := st.v["gv."+group]; ok {
		return v
	}
	gr := x.g.spec.Groups[group]
	x.g.initGroup(gr)
	sortN := "GV$" + group
	isEntry := x.entry != nil
	var terms []string
	for _, h := range gr.Heaps {
		t := x.get(st, h)
		terms = append(terms, t)
		if x.entry != nil && x.get(x.entry, h) != t {
			isEntry = false
		}
	}
	nxt := x.get(st, "nxt")
	key := "gv|" + group + "|" + strings.Join(terms, "|")
	if n, ok := x.cache[key]; ok {
		st.v["gv."+group] = n
		st.v["gvn."+group] = nxt
		return n
	}
	n := x.fresh("gv."+group, sortN)
	put := func(f Fact) {
		if isEntry {
			x.perm = append(x.perm, f)
		} else {
			x.facts = append(x.facts, f)
		}
	}
	for i, h := range gr.Heaps {
		put(Fact{guard: "true", text: "(= (" + x.g.hpFn(group, h) + " " + n + ") " + terms[i] + ")", key: n})
	}
	x.cache[key] = n
	if !isEntry {
		x.cacheLog = append(x.cacheLog, key)
	}
	rel := func(p, pn string) {
		if p == "" || p == n {
			return
		}
		var cs []string
		for i, h := range gr.Heaps {
			ph := "(" + x.g.hpFn(group, h) + " " + p + ")"
			cs = append(cs, fmt.Sprintf("(forall ((r? Int)) (! (=> (and (< r? %s)) (= (select %s r?) (select %s r?))) :pattern ((select %s r?))))", pn, terms[i], ph, terms[i]))
		}
		put(Fact{guard: "true", text: fmt.Sprintf("(=> %s (same$%s %s %s %s))", and(cs...), group, p, n, pn), key: n})
	}
	if !isEntry && x.entry != nil {
		e := x.groupVer(x.entry, group)
		rel(e, x.get(x.entry, "nxt"))
		if p := st.v["gvp."+group]; p != e {
			rel(p, st.v["gvpn."+group])
		}
	}
	st.v["gv."+group] = n
	st.v["gvn."+group] = nxt
	return n
}

func (x *Exec) merge(es []edge) (*State, string) {
	if len(es) == 1 {
		return es[0].st.clone(), es[0].cond
	}
	var conds []string
	for _, e := range es {
		conds = append(conds, e.cond)
	}
	reach := x.def("reach", "Bool", or(conds...))
	x.noteSplit(reach, conds)
	n := &State{v: map[string]string{}}
	keys := map[string]bool{}
	for _, e := range es {
		for k := range e.st.v {
			keys[k] = true
		}
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
next:
	for _, k := range ks {
		same := true
		var first string
		for i, e := range es {
			v, ok := e.st.v[k]
			if !ok {
				if _, heap := x.g.heapT[k]; heap {
					v = x.get(e.st, k)
				} else {
					continue next // not available on all paths
				}
			}
			if i == 0 {
				first = v
			} else if v != first {
				same = false
			}
		}
		if same {
			n.v[k] = first
			continue
		}
		t := es[len(es)-1].st.v[k]
		for i := len(es) - 2; i >= 0; i-- {
			t = ite(es[i].cond, es[i].st.v[k], t)
		}
		s := x.varSort[k]
		if s == "" {
			switch {
			case strings.HasPrefix(k, "gvn.") || strings.HasPrefix(k, "gvpn."):
				s = "Int"
			case strings.HasPrefix(k, "gv."):
				s = "GV$" + k[3:]
			case strings.HasPrefix(k, "gvp."):
				s = "GV$" + k[4:]
			}
		}
		if s == "" {
			panic("no sort for " + k)
		}
		n.v[k] = x.def(strings.TrimPrefix(k, "F."), s, t)
	}
	return n, reach
}

// ---------------------------------------------------------------- well-formedness of values

func (x *Exec) wf(v TV, nxt string) {
	if x.consts == nil {
		return
	}
	k := v.S + "|" + v.Sort + "|" + nxt
	if x.wfDone[k] {
		return
	}
	f := x.wfFormula(v, nxt)
	if f == "true" {
		return
	}
	x.wfDone[k] = true
	x.cacheLog = append(x.cacheLog, "wf:"+k)
	key := ""
	if atomic(v.S) {
		key = v.S
	}
	x.facts = append(x.facts, Fact{guard: "true", text: f, key: key})
}

func (x *Exec) wfFormula(v TV, nxt string) string {
	if v.T == nil {
		return "true"
	}
	t := types.Unalias(v.T)
	if _, ok := t.(*types.TypeParam); ok {
		return "true"
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			lo, hi := intRange(u.Kind())
			if lo != "" {
				return fmt.Sprintf("(and (<= %s %s) (<= %s %s))", lo, v.S, v.S, hi)
			}
		}
	case *types.Pointer, *types.Map:
		return fmt.Sprintf("(and (<= 0 %s) (< %s %s))", v.S, v.S, nxt)
	case *types.Slice:
		s := v.S
		return fmt.Sprintf("(and (<= 0 (sarr %s)) (< (sarr %s) %s) (<= 0 (soff %s)) (<= 0 (slen %s)) (<= (slen %s) (scap %s)) (=> (= (sarr %s) 0) (= (scap %s) 0)))", s, s, nxt, s, s, s, s, s, s)
	case *types.Interface:
		return fmt.Sprintf("(and (<= 0 (itag %s)) (=> (= (itag %s) 0) (= (ival %s) unil)) (<= (ubound (ival %s)) %s))", v.S, v.S, v.S, v.S, nxt)
	case *types.Struct:
		s := x.g.sortOf(t)
		if !strings.HasPrefix(s, "S.") {
			return "true"
		}
		var cs []string
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			cs = append(cs, x.wfFormula(TV{S: fmt.Sprintf("(%s.%s %s)", s, sanitize(f.Name()), v.S), Sort: x.g.sortOf(f.Type()), T: f.Type()}, nxt))
		}
		return and(cs...)
	}
	return "true"
}

func intRange(k types.BasicKind) (lo, hi string) {
	switch k {
	case types.Int, types.Int64:
		return "(- 9223372036854775808)", "9223372036854775807"
	case types.Int32:
		return "(- 2147483648)", "2147483647"
	case types.Int16:
		return "(- 32768)", "32767"
	case types.Int8:
		return "(- 128)", "127"
	case types.Uint, types.Uint64, types.Uintptr:
		return "0", "18446744073709551615"
	case types.Uint32:
		return "0", "4294967295"
	case types.Uint16:
		return "0", "65535"
	case types.Uint8:
		return "0", "255"
	}
	return "", ""
}

// ---------------------------------------------------------------- obligations

func (x *Exec) labelsOf(ls []string) []string {
	if len(ls) > 0 {
		return ls
	}
	if x.c != nil {
		return x.c.Labels
	}
	return nil
}

// supports gives the labels of everything that the contract promises: an
// obligation without labels of its own that the promises rest on has them all.
func (x *Exec) supports(ls []string) []string {
	if len(ls) > 0 || x.c == nil {
		return ls
	}
	out := append([]string{}, x.c.Labels...)
	for _, cs := range [][]Clause{x.c.Ensures, x.c.Always} {
		for _, c := range cs {
			for _, l := range c.Labels {
				if !contains(out, l) {
					out = append(out, l)
				}
			}
		}
	}
	return out
}

func contains(ls []string, l string) bool {
	for _, k := range ls {
		if k == l {
			return true
		}
	}
	return false
}

func (x *Exec) oblige(cur *cursor, kind, name, goal string, labels []string, pos token.Pos, text string) {
	if x.dry > 0 || cur.reach == "false" {
		return
	}
	if goal == "true" {
		// still counted: discharged by the generator
	}
	base := kind
	if name != "" {
		base += ":" + name
	}
	x.oblN[base]++
	full := x.key + "#" + base
	if n := x.oblN[base]; n > 1 {
		full += fmt.Sprintf("@%d", n)
	}
	p := ""
	if pos.IsValid() {
		pp := x.g.p.prog.Fset.Position(pos)
		p = fmt.Sprintf("%s:%d", pp.Filename, pp.Line)
	}
	x.obls = append(x.obls, &Obl{
		Fn: x.key, Name: full, Kind: kind, Labels: x.labelsOf(labels), Reach: cur.reach, Goal: goal,
		NF: len(x.facts), Pos: p, Text: text, x: x, exit: x.exit, early: x.exitNF,
	})
}

func (x *Exec) safetyLabels() []string {
	if x.c != nil && x.c.HasSafe {
		return x.c.Safety
	}
	return nil
}

// safety requires ok, or else the code panics.
func (x *Exec) safety(fr *Frame, cur *cursor, ok, what string, pos token.Pos) {
	if ok == "true" || cur.reach == "false" {
		return
	}
	// a recovering frame turns the panic into an exit
	for f := fr; f != nil; f = f.parent {
		if f.recovers() && !f.panick {
			c := x.def("panic", "Bool", and(cur.reach, not(ok)))
			f.panics = append(f.panics, edge{cond: c, st: cur.st.clone()})
			cur.reach = x.def("reach", "Bool", and(cur.reach, ok))
			return
		}
	}
	if x.c != nil && x.c.MayPanic {
		if x.c.PanicIf != nil {
			env := &Env{x: x, g: x.g, st: x.entry, old: x.entry, vars: map[string]TV{}}
			for k, v := range x.params {
				env.vars[k] = v
			}
			if v, good := x.tryEval(env, x.c.PanicIf.E); good {
				x.oblige(cur, "safety", what, or(v.S, ok), x.safetyLabels(), pos, what)
			}
		}
		x.fact(cur.reach, ok)
		return
	}
	x.oblige(cur, "safety", what, ok, x.safetyLabels(), pos, what)
	x.fact(cur.reach, ok)
}



func (x *Exec) unsupported(cur *cursor, pos token.Pos, f string, a ...any) {
	msg := fmt.Sprintf(f, a...)
	x.oblige(cur, "unsupported", msg, "false", nil, pos, msg)
}

// ---------------------------------------------------------------- addresses

func (x *Exec) load(cur *cursor, a *Addr) TV {
	base := x.baseLoad(cur.st, a)
	bt := a.typ
	t := base
	for _, s := range a.path {
		st := s.st.Underlying().(*types.Struct)
		sn := x.g.sortOf(s.st)
		t = fmt.Sprintf("(%s.%s %s)", sn, sanitize(st.Field(s.field).Name()), t)
		bt = st.Field(s.field).Type()
	}
	srt := x.g.sortOf(a.elemType())
	_ = bt
	v := TV{S: x.def("ld", srt, t), Sort: srt, T: a.elemType()}
	x.wf(v, x.get(cur.st, "nxt"))
	return v
}

func (a *Addr) elemType() types.Type {
	t := a.typ
	for _, s := range a.path {
		t = s.st.Underlying().(*types.Struct).Field(s.field).Type()
	}
	return t
}

func (x *Exec) baseLoad(st *State, a *Addr) string {
	h := x.get(st, a.name)
	switch a.kind {
	case "var":
		return h
	case "sel":
		return "(select " + h + " " + a.ref + ")"
	}
	return "(select (select " + h + " " + a.ref + ") " + a.idx + ")"
}

func (x *Exec) store(cur *cursor, a *Addr, v string) {
	if len(a.path) > 0 {
		v = x.update(x.baseLoad(cur.st, a), a.path, v)
	}
	h := x.get(cur.st, a.name)
	switch a.kind {
	case "var":
		x.set(cur.st, a.name, v, "*")
	case "sel":
		x.set(cur.st, a.name, "(store "+h+" "+a.ref+" "+v+")", a.ref)
	default:
		x.set(cur.st, a.name, fmt.Sprintf("(store %s %s (store (select %s %s) %s %s))", h, a.ref, h, a.ref, a.idx, v), a.ref)
	}
}

func (x *Exec) update(base string, path []step, v string) string {
	if len(path) == 0 {
		return v
	}
	s := path[0]
	sn := x.g.sortOf(s.st)
	st := s.st.Underlying().(*types.Struct)
	var fs []string
	for i := 0; i < st.NumFields(); i++ {
		f := fmt.Sprintf("(%s.%s %s)", sn, sanitize(st.Field(i).Name()), base)
		if i == s.field {
			f = x.update(f, path[1:], v)
		}
		fs = append(fs, f)
	}
	return "(mk" + sn + " " + strings.Join(fs, " ") + ")"
}

// loadPtr loads the value a pointer term points to.
func (x *Exec) loadPtr(cur *cursor, p TV) TV {
	el := types.Unalias(p.T).Underlying().(*types.Pointer).Elem()
	env := &Env{x: x, g: x.g, st: cur.st}
	if at, ok := el.Underlying().(*types.Array); ok {
		h := x.get(cur.st, x.g.elemHeap(at.Elem()))
		return TV{S: "(select " + h + " " + p.S + ")", Sort: x.g.sortOf(el), T: el}
	}
	v := env.deref(&Expr{}, p)
	v.S = x.def("ld", v.Sort, v.S)
	x.wf(v, x.get(cur.st, "nxt"))
	return v
}

func (x *Exec) storePtr(cur *cursor, p TV, v TV) {
	el := types.Unalias(p.T).Underlying().(*types.Pointer).Elem()
	if st, ok := el.Underlying().(*types.Struct); ok && !x.g.opaque(el) {
		sn := x.g.sortOf(el)
		for i := 0; i < st.NumFields(); i++ {
			x.store(cur, &Addr{kind: "sel", name: x.g.fieldHeap(el, i), ref: p.S, typ: st.Field(i).Type()},
				fmt.Sprintf("(%s.%s %s)", sn, sanitize(st.Field(i).Name()), v.S))
		}
		return
	}
	if at, ok := el.Underlying().(*types.Array); ok {
		n := x.g.elemHeap(at.Elem())
		x.set(cur.st, n, "(store "+x.get(cur.st, n)+" "+p.S+" "+v.S+")", p.S)
		return
	}
	n := x.g.cellHeap(el)
	x.set(cur.st, n, "(store "+x.get(cur.st, n)+" "+p.S+" "+v.S+")", p.S)
}

// ptrAddr turns a pointer term into an address, if its pointee is not a struct.
func (x *Exec) allocRef(cur *cursor, prefix string) string {
	n := x.get(cur.st, "nxt")
	r := x.fresh(prefix, "Int")
	x.fact("true", "(= "+r+" "+n+")")
	x.set(cur.st, "nxt", "(+ "+r+" 1)", "*")
	x.allocs[r] = x.cnt
	return r
}

func (x *Exec) term(cur *cursor, v Val, pos token.Pos) TV {
	switch v := v.(type) {
	case TV:
		return v
	case *Closure:
		if len(v.bind) == 0 {
			if id, ok := x.g.fnIDs[funcKey(v.fn)]; ok {
				return TV{S: fmt.Sprint(id), Sort: "Int", T: v.fn.Signature}
			}
		}
		n := x.fresh("closure", "Int")
		x.fact("true", "(> "+n+" 100000)")
		if c := x.contract(funcKey(v.fn)); c != nil && c.Self != "" {
			x.defines(cur, v, c, n)
			x.used[c.Key] = true
		}
		return TV{S: n, Sort: "Int", T: v.fn.Signature}
	case *Addr:
		if v.kind == "sel" && strings.HasPrefix(v.name, "C.") && len(v.path) == 0 {
			return TV{S: v.ref, Sort: "Int", T: types.NewPointer(v.typ)}
		}
		x.unsupported(cur, pos, "interior pointer to %s escapes", v.name)
		return TV{S: x.fresh("ptr", "Int"), Sort: "Int", T: types.NewPointer(v.elemType())}
	}
	x.unsupported(cur, pos, "value %T used as a term", v)
	return TV{S: x.fresh("bad", "Int"), Sort: "Int"}
}

// ---------------------------------------------------------------- control flow

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

func constCond(v ssa.Value) (bool, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil {
		return c.Value.String() == "true", true
	}
	return false, false
}

func liveSuccs(b *ssa.BasicBlock) []*ssa.BasicBlock {
	if len(b.Instrs) > 0 {
		if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if v, isC := constCond(i.Cond); isC {
				if v {
					return b.Succs[:1]
				}
				return b.Succs[1:]
			}
		}
	}
	return b.Succs
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	live := map[*ssa.BasicBlock]bool{}
	var mark func(b *ssa.BasicBlock)
	mark = func(b *ssa.BasicBlock) {
		if live[b] {
			return
		}
		live[b] = true
		for _, s := range liveSuccs(b) {
			mark(s)
		}
	}
	mark(fn.Blocks[0])
	ls := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		if !live[b] {
			continue
		}
		for _, h := range liveSuccs(b) {
			if h.Dominates(b) {
				l := ls[h]
				if l == nil {
					l = &Loop{head: h, body: map[*ssa.BasicBlock]bool{h: true}}
					ls[h] = l
				}
				l.back = append(l.back, b)
				var up func(n *ssa.BasicBlock)
				up = func(n *ssa.BasicBlock) {
					if l.body[n] || !live[n] {
						return
					}
					l.body[n] = true
					for _, p := range n.Preds {
						up(p)
					}
				}
				up(b)
			}
		}
	}
	return ls
}

func (x *Exec) newFrame(fn *ssa.Function, parent *Frame) *Frame {
	x.depth++
	fr := &Frame{
		fn: fn, env: map[ssa.Value]Val{}, parent: parent, id: x.depth,
		in: map[*ssa.BasicBlock][]edge{}, loops: findLoops(fn), iters: map[*ssa.BasicBlock]*Iter{},
		dom: map[string][]nameBind{}, loopk: map[*ssa.BasicBlock]string{},
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.DebugRef:
				if o := i.Object(); o != nil {
					if _, isVar := o.(*types.Var); isVar && !o.(*types.Var).IsField() {
						fr.dom[o.Name()] = append(fr.dom[o.Name()], nameBind{i.X, b, i.IsAddr})
					}
				}
			case *ssa.Alloc:
				if i.Comment != "" {
					fr.dom[i.Comment] = append(fr.dom[i.Comment], nameBind{i, b, true})
				}
			}
		}
	}
	return fr
}

// run executes the blocks of a frame in order.
func (x *Exec) run(fr *Frame, order []*ssa.BasicBlock, within *Loop) {
	for _, b := range order {
		if within != nil && !within.body[b] {
			continue
		}
		ins := fr.in[b]
		var live []edge
		for _, e := range ins {
			if e.cond != "false" {
				live = append(live, e)
			}
		}
		fr.in[b] = nil
		if len(live) == 0 {
			continue
		}
		fr.curB = b
		var cur *cursor
		if l := fr.loops[b]; l != nil && !(within != nil && within.head == b) {
			cur = x.enterLoop(fr, l, live, order)
		} else {
			st, reach := x.merge(live)
			cur = &cursor{st, reach}
			if !(within != nil && within.head == b) {
				x.phis(fr, b, live)
			}
		}
		x.block(fr, b, cur, within)
	}
}

func predIndex(b, p *ssa.BasicBlock, n int) int {
	c := 0
	for i, q := range b.Preds {
		if q == p {
			if c == n {
				return i
			}
			c++
		}
	}
	return -1
}

// phiVals computes the values of the phis of b for the given incoming edges.
func (x *Exec) phiVals(fr *Frame, b *ssa.BasicBlock, es []edge) map[*ssa.Phi]Val {
	out := map[*ssa.Phi]Val{}
	for _, i := range b.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			if _, d := i.(*ssa.DebugRef); d {
				continue
			}
			break
		}
		var vals []Val
		seen := map[*ssa.BasicBlock]int{}
		for _, e := range es {
			ix := predIndex(b, e.pred, seen[e.pred])
			seen[e.pred]++
			vals = append(vals, x.val(fr, p.Edges[ix]))
		}
		if len(vals) == 1 {
			out[p] = vals[0]
			continue
		}
		// closures and addresses: must be the same on all edges
		if _, isTV := vals[0].(TV); !isTV {
			same := true
			for _, v := range vals[1:] {
				if v != vals[0] {
					same = false
				}
			}
			if same {
				out[p] = vals[0]
				continue
			}
		}
		c := &cursor{es[0].st, es[0].cond}
		srt := x.g.sortOf(p.Type())
		t := x.term(c, vals[len(vals)-1], p.Pos()).S
		for k := len(vals) - 2; k >= 0; k-- {
			t = ite(es[k].cond, x.term(c, vals[k], p.Pos()).S, t)
		}
		nm := p.Comment
		if nm == "" {
			nm = "phi"
		}
		out[p] = TV{S: x.def(sanitize(nm), srt, t), Sort: srt, T: p.Type()}
	}
	return out
}

func (x *Exec) phis(fr *Frame, b *ssa.BasicBlock, es []edge) {
	for p, v := range x.phiVals(fr, b, es) {
		fr.env[p] = v
	}
}

func (x *Exec) addEdge(fr *Frame, from, to *ssa.BasicBlock, cond string, st *State, within *Loop) {
	if cond == "false" {
		return
	}
	e := edge{cond: cond, st: st, pred: from}
	if l := fr.loops[to]; l != nil && to.Dominates(from) {
		if within != nil && within.head == to {
			return // dry run of this loop
		}
		x.backEdge(fr, l, e)
		return
	}
	fr.in[to] = append(fr.in[to], e)
}

func (x *Exec) trial(f func(r *recorder)) {
	nf, no, nl, ln, ne, nd := len(x.facts), len(x.obls), len(x.cacheLog), x.loopN, x.exitN, x.depth
	rec := &recorder{map[string]bool{}, map[string]map[string]bool{}}
	x.recs = append(x.recs, rec)
	x.dry++
	f(rec)
	x.dry--
	x.recs = x.recs[:len(x.recs)-1]
	for _, k := range x.cacheLog[nl:] {
		if strings.HasPrefix(k, "wf:") {
			delete(x.wfDone, k[3:])
		} else {
			delete(x.cache, k)
		}
	}
	x.facts, x.obls, x.cacheLog, x.loopN, x.exitN = x.facts[:nf], x.obls[:no], x.cacheLog[:nl], ln, ne
	x.depth = nd
}

func (fr *Frame) copyFor() *Frame {
	n := *fr
	n.env = map[ssa.Value]Val{}
	for k, v := range fr.env {
		n.env[k] = v
	}
	n.in = map[*ssa.BasicBlock][]edge{}
	n.exits = nil
	n.panics = nil
	n.defers = append([]deferRec(nil), fr.defers...)
	n.loopk = map[*ssa.BasicBlock]string{}
	for k, v := range fr.loopk {
		n.loopk[k] = v
	}
	n.iters = map[*ssa.BasicBlock]*Iter{}
	for k, v := range fr.iters {
		n.iters[k] = v
	}
	return &n
}

// expand replaces the symbols defined after start by their definitions.
func (x *Exec) expand(term string, start int) string {
	for depth := 0; depth < 40; depth++ {
		again := false
		for _, s := range symbols(term) {
			if ix, ok := x.constIx[s]; ok && ix > start {
				if d, ok := x.defs[s]; ok {
					term = replaceSymbol(term, s, d)
					again = true
					break
				}
			}
		}
		if !again || len(term) > 2000 {
			break
		}
	}
	return term
}

func replaceSymbol(term, sym, by string) string {
	var b strings.Builder
	for i := 0; i < len(term); {
		j := strings.Index(term[i:], sym)
		if j < 0 {
			b.WriteString(term[i:])
			break
		}
		j += i
		e := j + len(sym)
		sep := func(k int) bool {
			return k < 0 || k >= len(term) || term[k] == ' ' || term[k] == '(' || term[k] == ')'
		}
		b.WriteString(term[i:j])
		if sep(j-1) && sep(e) {
			b.WriteString(by)
		} else {
			b.WriteString(sym)
		}
		i = e
	}
	return b.String()
}

func (x *Exec) preexisting(term string, start int) bool {
	for _, s := range symbols(term) {
		if ix, ok := x.constIx[s]; ok && ix > start {
			return false
		}
	}
	return true
}

func (x *Exec) isOwned(fr *Frame, p *ssa.Phi, l *Loop, seen map[ssa.Value]bool) bool {
	// the slice is nil, made in this function, or the result of appending to itself
	var ok func(v ssa.Value) bool
	ok = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Const:
			return v.Value == nil
		case *ssa.MakeSlice:
			return true
		case *ssa.Phi:
			for _, e := range v.Edges {
				if !ok(e) {
					return false
				}
			}
			return true
		case *ssa.Call:
			if bi, isB := v.Call.Value.(*ssa.Builtin); isB && bi.Name() == "append" {
				return ok(v.Call.Args[0])
			}
		case *ssa.Slice:
			if a, isA := v.X.(*ssa.Alloc); isA && a.Comment == "slicelit" || isA && a.Comment == "makeslice" {
				return true
			}
		}
		return false
	}
	return ok(p)
}

func (x *Exec) enterLoop(fr *Frame, l *Loop, es []edge, order []*ssa.BasicBlock) *cursor {
	x.loopN++
	ord := x.loopN
	preSt, reach := x.merge(es)
	inits := x.phiVals(fr, l.head, es)
	var spec *LoopSpec
	if x.c != nil {
		spec = x.c.Loops[ord]
	}
	if spec == nil {
		spec = &LoopSpec{}
	}
	lr := &loopRun{spec: spec, pre: preSt.clone(), ord: ord, reach: reach}
	for _, i := range l.head.Instrs {
		if p, ok := i.(*ssa.Phi); ok {
			lr.phis = append(lr.phis, p)
		}
	}
	// invariants hold on entry
	for p, v := range inits {
		fr.env[p] = v
	}
	fr.loopk[l.head] = "0"
	{
		c := &cursor{preSt.clone(), reach}
		x.checkInv(fr, l, lr, c, "entry")
	}
	start := x.cnt
	havocPhis := func(f *Frame, names bool) {
		for _, p := range lr.phis {
			if _, isTV := inits[p].(TV); !isTV {
				continue // a constant closure or address, checked at the back edge
			}
			nm := p.Comment
			if nm == "" {
				nm = "phi"
			}
			srt := x.g.sortOf(p.Type())
			f.env[p] = TV{S: x.fresh(sanitize(nm), srt), Sort: srt, T: p.Type()}
		}
	}
	// which state variables does the body write?
	writes := map[string]bool{}
	body := func(havoc []string) *recorder {
		var out *recorder
		x.trial(func(rec *recorder) {
			f := fr.copyFor()
			st := preSt.clone()
			for _, h := range havoc {
				x.havoc(st, h)
			}
			havocPhis(f, true)
			f.loopk[l.head] = x.fresh("k", "Int")
			f.in[l.head] = []edge{{cond: "true", st: st}}
			saved := x.lr
			x.lr = map[*ssa.BasicBlock]*loopRun{}
			for k, v := range saved {
				x.lr[k] = v
			}
			// edges leaving the loop are ignored
			x.runLoopBody(f, order, l)
			x.lr = saved
			out = rec
		})
		return out
	}
	r1 := body(nil)
	for k := range r1.writes {
		writes[k] = true
	}
	var ws []string
	for {
		ws = ws[:0]
		for k := range writes {
			ws = append(ws, k)
		}
		sort.Strings(ws)
		r := body(ws)
		grown := false
		for k := range r.writes {
			if !writes[k] {
				writes[k] = true
				grown = true
			}
		}
		if !grown {
			r1 = r
			break
		}
	}
	lr.writ = ws
	// arbitrary iteration
	st := preSt.clone()
	preNxt := x.get(preSt, "nxt")
	for _, h := range ws {
		x.havoc(st, h)
	}
	if writes["nxt"] {
		x.fact("true", "(>= "+x.get(st, "nxt")+" "+preNxt+")")
	}
	cur := &cursor{st, reach}
	havocPhis(fr, false)
	k := x.fresh("k", "Int")
	lr.k = k
	fr.loopk[l.head] = k
	x.fact("true", "(>= "+k+" 0)")
	nxt := x.get(st, "nxt")
	for _, p := range lr.phis {
		v, isTV := fr.env[p].(TV)
		if !isTV {
			continue
		}
		x.wf(v, nxt)
		if _, isTV := inits[p].(TV); !isTV {
			continue
		}
		init := inits[p].(TV)
		if v.Sort == "Int" {
			if d, ok := affine(p, l); ok {
				x.fact("true", fmt.Sprintf("(= %s (+ %s (* %d %s)))", v.S, init.S, d, k))
				if off, lim, ok := upper(p, l, d); ok {
					if lv, isTV := x.val(fr, lim).(TV); isTV {
						// the loop goes on only below the limit
						x.fact(reach, fmt.Sprintf("(or (= %s 0) (<= (+ %s %d) %s))", k, v.S, off, lv.S))
					}
				}
			}
		}
		if v.Sort == "Slice" && x.isOwned(fr, p, l, map[ssa.Value]bool{}) {
			x.fact(reach, fmt.Sprintf("(or (= (scap %s) 0) (>= (sarr %s) %s))", v.S, v.S, x.get(x.entry, "nxt")))
		}
	}
	// frames
	for _, h := range ws {
		hi, ok := x.g.heapT[h]
		if !ok || strings.HasPrefix(h, "V.") || h == "nxt" {
			continue
		}
		_ = hi
		var ts []string
		good := true
		for t := range r1.targets[h] {
			switch {
			case t == "*":
				good = false
			case t == "*fresh":
			case x.allocs[t] > start:
				// allocated in the loop
			case x.preexisting(x.expand(t, start), start):
				ts = append(ts, x.expand(t, start))
			default:
				good = false
			}
		}
		sort.Strings(ts)
		new, old := x.get(st, h), x.get(preSt, h)
		if good {
			var cs []string
			cs = append(cs, "(< r? "+preNxt+")")
			for _, t := range ts {
				cs = append(cs, "(not (= r? "+t+"))")
			}
			x.factK(reach, fmt.Sprintf("(forall ((r? Int)) (! (=> %s (= (select %s r?) (select %s r?))) :pattern ((select %s r?))))", and(cs...), new, old, new), new)
		}
		if f := x.frame(h, new, x.get(x.entry, h), true); f != "true" {
			x.factK(reach, f, new)
			if !good {
				lr.spec = lr.withFrame(h)
			}
		}
	}
	x.lr[l.head] = lr
	x.assumeInv(fr, l, lr, cur)
	if lr.spec.Dec != nil {
		env := x.loopEnv(fr, l, lr, cur)
		if v, ok := x.tryEval(env, lr.spec.Dec); ok {
			lr.dec0 = x.def("dec", "Int", v.S)
		}
	}
	return cur
}

// withFrame remembers that the function frame of a heap has to be kept by the body.
func (lr *loopRun) withFrame(h string) *LoopSpec {
	n := *lr.spec
	n.Inv = append(append([]Clause(nil), n.Inv...), Clause{Title: "$frame " + h})
	return &n
}

func (x *Exec) runLoopBody(f *Frame, order []*ssa.BasicBlock, l *Loop) {
	x.run(f, order, l)
}

// upper recognises the test p + off < limit (limit fixed) that guards every
// iteration of a loop whose counter p grows by one.
func upper(p *ssa.Phi, l *Loop, d int64) (off int64, lim ssa.Value, ok bool) {
	if d != 1 || len(l.head.Instrs) == 0 {
		return
	}
	br, isIf := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !isIf || !l.body[l.head.Succs[0]] || l.body[l.head.Succs[1]] {
		return
	}
	bo, isB := br.Cond.(*ssa.BinOp)
	if !isB || bo.Op != token.LSS {
		return
	}
	if i, isI := bo.Y.(ssa.Instruction); isI && l.body[i.Block()] {
		return
	}
	if bo.X == ssa.Value(p) {
		return 0, bo.Y, true
	}
	if a, isA := bo.X.(*ssa.BinOp); isA && a.Op == token.ADD && a.X == ssa.Value(p) {
		if c, isC := a.Y.(*ssa.Const); isC && c.Value != nil && c.Int64() == 1 {
			return 1, bo.Y, true
		}
	}
	return
}

// affine recognises p = init + d*k.
func affine(p *ssa.Phi, l *Loop) (int64, bool) {
	var d int64
	first := true
	for i, e := range p.Edges {
		if !l.body[p.Block().Preds[i]] {
			continue
		}
		bo, ok := e.(*ssa.BinOp)
		if !ok || bo.X != ssa.Value(p) {
			return 0, false
		}
		c, ok := bo.Y.(*ssa.Const)
		if !ok || c.Value == nil {
			return 0, false
		}
		v := c.Int64()
		switch bo.Op {
		case token.ADD:
		case token.SUB:
			v = -v
		default:
			return 0, false
		}
		if !first && v != d {
			return 0, false
		}
		d, first = v, false
	}
	return d, !first
}

func (x *Exec) havoc(st *State, name string) {
	x.touchGroups(st, name)
	s := x.varSort[name]
	st.v[name] = x.fresh(strings.TrimPrefix(name, "F."), s)
	for _, r := range x.recs {
		r.writes[name] = true
	}
}

func isParam(c *Contract, name string) bool {
	if c != nil {
		for _, p := range c.Params {
			if p == name {
				return true
			}
		}
	}
	return false
}

func (x *Exec) loopEnv(fr *Frame, l *Loop, lr *loopRun, cur *cursor) *Env {
	env := &Env{x: x, g: x.g, st: cur.st, old: x.entry, pre: lr.pre, vars: map[string]TV{}}
	for k, v := range x.params {
		env.vars[k] = v
		// the current value of a parameter that is assigned to
		if !isParam(x.c, k) {
			continue
		}
		if c, ok := x.lookup(fr, l.head, cur, k); ok && c.S != v.S && c.Sort == v.Sort {
			if env.entryVars == nil {
				env.entryVars = map[string]TV{}
			}
			env.vars[k], env.entryVars[k] = c, v
		}
	}
	env.vars["$k"] = in(fr.loopk[l.head])
	env.vars["k"] = env.vars["$k"]
	env.look = func(name string) (TV, bool) { return x.lookup(fr, l.head, cur, name) }
	return env
}

// lookup resolves the name of a local variable at the start of a block.
func (x *Exec) lookup(fr *Frame, at *ssa.BasicBlock, cur *cursor, name string) (TV, bool) {
	if name == "$visited" {
		if it := fr.iters[at]; it != nil {
			if s, ok := cur.st.v[it.name]; ok {
				return TV{S: s, Sort: x.varSort[it.name]}, true
			}
		}
	}
	for f := fr; f != nil; f = f.parent {
		b := at
		if f != fr {
			b = f.curB
		}
		if b != nil {
			// phis of this or an enclosing loop header
			for h := b; h != nil; h = h.Idom() {
				for _, i := range h.Instrs {
					p, ok := i.(*ssa.Phi)
					if !ok {
						continue
					}
					if p.Comment == name {
						if v, ok := f.env[p].(TV); ok {
							return v, true
						}
					}
				}
				// names last bound in this block
				if h != b || f != fr {
					if v, ok := x.boundIn(f, h, cur, name); ok {
						return v, true
					}
				}
			}
			// variables that live in memory
			for _, nb := range f.dom[name] {
				if nb.addr {
					if a, ok := f.env[nb.v]; ok {
						switch a := a.(type) {
						case *Addr:
							if a.kind == "var" {
								if _, ok := cur.st.v[a.name]; !ok {
									continue
								}
							}
							return x.load(cur, a), true
						case TV:
							return x.loadPtr(cur, a), true
						}
					}
				}
			}
		}
		for _, p := range f.fn.Params {
			if p.Name() == name {
				if v, ok := f.env[p].(TV); ok {
					return v, true
				}
			}
		}
	}
	return TV{}, false
}

func (x *Exec) boundIn(f *Frame, b *ssa.BasicBlock, cur *cursor, name string) (TV, bool) {
	for i := len(f.dom[name]) - 1; i >= 0; i-- {
		nb := f.dom[name][i]
		if nb.b == b && !nb.addr {
			if c, ok := nb.v.(*ssa.Const); ok {
				return x.g.constTV(c), true
			}
			if v, ok := f.env[nb.v].(TV); ok {
				return v, true
			}
		}
	}
	return TV{}, false
}

func (x *Exec) tryEval(env *Env, e *Expr) (v TV, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if se, isS := r.(specErr); isS {
				if x.dry == 0 {
					x.errs = append(x.errs, x.key+": "+se.msg)
				}
				ok = false
				return
			}
			panic(r)
		}
	}()
	return env.eval(e), true
}

func (x *Exec) checkInv(fr *Frame, l *Loop, lr *loopRun, cur *cursor, when string) {
	if x.dry > 0 {
		return
	}
	env := x.loopEnv(fr, l, lr, cur)
	for i, c := range lr.spec.Inv {
		if strings.HasPrefix(c.Title, "$frame ") {
			h := c.Title[7:]
			f := x.frame(h, x.get(cur.st, h), x.get(x.entry, h), false)
			x.oblige(cur, "loop-frame", fmt.Sprintf("%d.%s.%s", lr.ord, h, when), f, x.modLabels(), l.head.Instrs[0].Pos(), "modifies clause kept by loop")
			continue
		}
		v, ok := x.tryEval(env, c.E)
		if !ok {
			x.oblige(cur, "annotation", fmt.Sprintf("loop%d.inv%d", lr.ord, i+1), "false", x.supports(c.Labels), token.NoPos, "the loop invariant cannot be read here: "+x.errs[len(x.errs)-1])
			continue
		}
		t := c.Title
		if t == "" {
			t = fmt.Sprintf("%d", i+1)
		}
		x.oblige(cur, "invariant", fmt.Sprintf("loop%d.%s.%s", lr.ord, t, when), v.S, x.supports(c.Labels), l.head.Instrs[0].Pos(), "")
		x.fact(cur.reach, v.S)
	}
}

func (x *Exec) assumeInv(fr *Frame, l *Loop, lr *loopRun, cur *cursor) {
	env := x.loopEnv(fr, l, lr, cur)
	for _, c := range lr.spec.Inv {
		if strings.HasPrefix(c.Title, "$frame ") {
			continue
		}
		if v, ok := x.tryEval(env, c.E); ok {
			x.fact(cur.reach, v.S)
		}
	}
}

func (x *Exec) backEdge(fr *Frame, l *Loop, e edge) {
	lr := x.lr[l.head]
	if lr == nil {
		return
	}
	vals := x.phiVals(fr, l.head, []edge{e})
	saved := map[*ssa.Phi]Val{}
	for p, v := range vals {
		saved[p] = fr.env[p]
		if _, isTV := saved[p].(TV); !isTV && v != saved[p] {
			x.unsupported(&cursor{e.st, e.cond}, p.Pos(), "function or address variable changes in a loop")
		}
	}
	for p, v := range vals {
		fr.env[p] = v
	}
	sk := fr.loopk[l.head]
	fr.loopk[l.head] = "(+ " + lr.k + " 1)"
	cur := &cursor{e.st.clone(), e.cond}
	x.checkInv(fr, l, lr, cur, "kept")
	if lr.spec.Dec != nil && x.dry == 0 {
		if lr.dec0 != "" {
			env := x.loopEnv(fr, l, lr, cur)
			if v, ok := x.tryEval(env, lr.spec.Dec); ok {
				x.oblige(cur, "decreases", fmt.Sprintf("loop%d", lr.ord), fmt.Sprintf("(and (< %s %s) (>= %s 0))", v.S, lr.dec0, lr.dec0), lr.spec.DecL, l.head.Instrs[0].Pos(), "")
			}
		} else {
			x.oblige(cur, "annotation", fmt.Sprintf("loop%d.decreases", lr.ord), "false", lr.spec.DecL, token.NoPos, "the measure cannot be read here")
		}
	}
	fr.loopk[l.head] = sk
	for p, v := range saved {
		fr.env[p] = v
	}
}

// block executes the instructions of a block.
func (x *Exec) block(fr *Frame, b *ssa.BasicBlock, cur *cursor, within *Loop) {
	fr.curB = b
	for _, ins := range b.Instrs {
		if cur.reach == "false" {
			return
		}
		switch i := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := x.term(cur, x.val(fr, i.Cond), i.Pos()).S
			ct, cf := and(cur.reach, c), and(cur.reach, not(c))
			x.addEdge(fr, b, b.Succs[0], x.def("e", "Bool", ct), cur.st.clone(), within)
			x.addEdge(fr, b, b.Succs[1], x.def("e", "Bool", cf), cur.st.clone(), within)
			return
		case *ssa.Jump:
			x.addEdge(fr, b, b.Succs[0], cur.reach, cur.st, within)
			return
		case *ssa.Return:
			var rs []Val
			for _, r := range i.Results {
				rs = append(rs, x.val(fr, r))
			}
			fr.exits = append(fr.exits, exit{cur.reach, cur.st, rs, i.Pos(), len(x.facts)})
			return
		case *ssa.Panic:
			x.safety(fr, cur, "false", "panic", i.Pos())
			return
		default:
			x.instr(fr, cur, ins)
		}
	}
}
