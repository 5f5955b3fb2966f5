package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"unicode"
)

// ---------------------------------------------------------------- lexer

type tok struct {
	kind string // id, int, str, char, op, eof
	s    string
	line int
}

func lexSpec(file, src string) ([]tok, error) {
	var out []tok
	line := 1
	i := 0
	ops := []string{"<==>", "==>", ":=", "::", "==", "!=", "<=", ">=", "&&", "||", "..."}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == '/' && i+1 < len(src) && src[i+1] == '/':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '"' || c == '`':
			j := i + 1
			for j < len(src) && src[j] != c {
				if c == '"' && src[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(src) {
				return nil, fmt.Errorf("%s:%d: unterminated string", file, line)
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				return nil, fmt.Errorf("%s:%d: %v", file, line, err)
			}
			out = append(out, tok{"str", s, line})
			i = j + 1
		case c == '\'':
			r, _, tail, err := strconv.UnquoteChar(src[i+1:], '\'')
			if err != nil || !strings.HasPrefix(tail, "'") {
				return nil, fmt.Errorf("%s:%d: bad char", file, line)
			}
			out = append(out, tok{"int", strconv.Itoa(int(r)), line})
			i = len(src) - len(tail) + 1
		case unicode.IsLetter(rune(c)) || c == '_' || c == '$':
			j := i
			for j < len(src) && (unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j])) || src[j] == '_' || src[j] == '$') {
				j++
			}
			out = append(out, tok{"id", src[i:j], line})
			i = j
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && (src[j] >= '0' && src[j] <= '9' || src[j] == 'x' || src[j] >= 'a' && src[j] <= 'f') {
				j++
			}
			n, err := strconv.ParseUint(src[i:j], 0, 64)
			if err != nil {
				return nil, fmt.Errorf("%s:%d: %v", file, line, err)
			}
			out = append(out, tok{"int", strconv.FormatUint(n, 10), line})
			i = j
		default:
			m := ""
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					m = o
					break
				}
			}
			if m == "" {
				m = string(c)
			}
			out = append(out, tok{"op", m, line})
			i += len(m)
		}
	}
	out = append(out, tok{"eof", "", line})
	return out, nil
}

// ---------------------------------------------------------------- AST

// Expr is a specification expression.
type Expr struct {
	Op    string // id int str nil bool call field index bin un old forall exists ite let is as
	Name  string
	Args  []*Expr
	Vars  []Param
	Trigs [][]*Expr
	Type  *TypeRef
	Line  int
	File  string
}

// Param is a typed variable.
type Param struct {
	Name string
	Type *TypeRef
}

// TypeRef is a type written in a specification.
type TypeRef struct {
	Kind string // name ptr slice map any
	Name string // Name or pkg.Name
	A, B *TypeRef
}

func (t *TypeRef) String() string {
	switch t.Kind {
	case "ptr":
		return "*" + t.A.String()
	case "slice":
		return "[]" + t.A.String()
	case "map":
		return "map[" + t.A.String() + "]" + t.B.String()
	}
	return t.Name
}

// Clause is a labelled formula.
type Clause struct {
	Labels []string
	Title  string
	E      *Expr
	Line   int
	File   string
}

// ModItem is one item of a modifies clause.
type ModItem struct {
	Kind string // field elems map heap sb cell all
	Heap string // heap name pattern for kind heap
	E    *Expr
	From *Expr
	Cond *Expr
	Each []Param // quantified: field/elem of every var such that Cond
}

// GhostVar is a history variable.
type GhostVar struct {
	Name string
	Type *TypeRef
	Init *Expr
}

// OnCall is a history update or an assertion at a call.
type OnCall struct {
	Callee string
	Args   []string
	Res    []string
	When   *Expr
	Ghost  string
	E      *Expr
	Assert bool // "at call": assertion before the call
	Frames bool // "at call ... : frames": the function's own frame so far
	Labels []string
	Title  string
	Line   int
	File   string
}

// LoopSpec holds the annotations of a loop.
type LoopSpec struct {
	Inv  []Clause
	Dec  *Expr
	DecL []string
}

// Contract is the contract of a function.
type Contract struct {
	Key      string
	Kind     string // func extern iface functype
	Params   []string
	Results  []string
	Labels   []string
	Safety   []string
	HasSafe  bool
	Requires []Clause
	Ensures  []Clause
	Mods     []ModItem
	ModsSet  bool
	ModLabel []string
	Ghosts   []GhostVar
	OnCalls  []OnCall
	Loops    map[int]*LoopSpec
	Lets     []Clause // named let at entry: Title = name
	Uses     []string // global facts used
	Estab    []string // global facts proved at exit (initializers)
	MayPanic bool
	PanicIf  *Clause // only then
	Always   []Clause // hold when the (external) function panics, too
	Pure     bool
	Assume   []Clause // trusted facts at entry
	Cases    []string // functype/closed: members
	Impl     []string // interface methods whose contracts this one includes
	Incl     []string // contracts whose clauses this one includes as they are
	Trusted  bool
	Defines  []Clause // facts about the function value, true by definition when it is made
	Self     string   // name of the function value in the contract
	Bounded  bool
	Line     int
	File     string
	Inst     []Clause // facts to instantiate at exit/calls ("hint")
	Term     *Expr    // decreases of recursive function
	TermL    []string
}

// FnDecl declares a specification function.
type FnDecl struct {
	Name   string
	Params []Param
	Ret    *TypeRef
	Body   *Expr
	Rec    bool
	Def    bool // macro
	Group  string
	Line   int
	File   string
}

// Lemma is a fact proved by induction.
type Lemma struct {
	Name   string
	Group  string
	Params []Param
	By     string
	Labels []string
	Trigs  [][]*Expr
	E      *Expr
	Line   int
	File   string
}

// GroupDecl declares a set of heaps.
type GroupDecl struct {
	Name  string
	Heaps []string
}

// GhostField is a ghost field of an external type.
type GhostField struct {
	TypeName string
	Field    string
	Type     *TypeRef
	Init     *Expr
}

// BoxFact is a fact assumed whenever a value of a type is converted to an interface.
type BoxFact struct {
	Type *TypeRef
	V, I string
	E    *Expr
	Req  bool // required of every value of the (unexported) type that becomes an interface value
}

// Spec is the union of the contract files.
type Spec struct {
	Sorts     []string
	Fns       map[string]*FnDecl
	FnOrder   []string
	Axioms    []Clause
	Lemmas    []*Lemma
	Groups    map[string]*GroupDecl
	GroupOrd  []string
	Ghosts    map[string][]*GhostField // by type name
	BoxFacts  []*BoxFact
	TypeFacts []*TypeRef
	Contracts map[string]*Contract
	Order     []string
	Globals   map[string]*Clause
	GlobOrder []string
	Assump    []string // free-text assumptions listed in evidence
}

func newSpec() *Spec {
	return &Spec{
		Fns: map[string]*FnDecl{}, Groups: map[string]*GroupDecl{}, Ghosts: map[string][]*GhostField{},
		Contracts: map[string]*Contract{}, Globals: map[string]*Clause{},
	}
}

var clauseKw = map[string]bool{
	"requires": true, "ensures": true, "modifies": true, "ghost": true, "on": true, "at": true, "loop": true,
	"invariant": true, "decreases": true, "func": true, "extern": true, "iface": true, "functype": true,
	"sort": true, "fn": true, "rec": true, "def": true, "axiom": true, "group": true, "ghostfield": true,
	"boxfact": true, "boxreq": true, "typefacts": true, "always": true, "global": true, "establishes": true, "safety": true, "maypanic": true, "pure": true, "uses": true, "assume": true,
	"includes": true, "lemma": true, "implements": true, "defines": true, "cases": true, "trusted": true, "assumption": true, "hint": true, "lets": true,
}

type specParser struct {
	file string
	toks []tok
	p    int
	spec *Spec
}

// include adds the clauses of another contract.
func (c *Contract) include(ic *Contract) {
	c.Lets = append(append([]Clause(nil), ic.Lets...), c.Lets...)
	c.Requires = append(append([]Clause(nil), ic.Requires...), c.Requires...)
	c.Ensures = append(append([]Clause(nil), ic.Ensures...), c.Ensures...)
	c.Mods = append(append([]ModItem(nil), ic.Mods...), c.Mods...)
	c.ModLabel = append(append([]string(nil), ic.ModLabel...), c.ModLabel...)
	c.Always = append(append([]Clause(nil), ic.Always...), c.Always...)
	if ic.MayPanic && !c.MayPanic {
		c.MayPanic, c.PanicIf = true, ic.PanicIf
	}
}

// implement adds the clauses of the interface contracts.
func (s *Spec) implement() error {
	for _, k := range s.Order {
		c := s.Contracts[k]
		for _, n := range c.Estab {
			gl := s.Globals[n]
			if gl == nil {
				return fmt.Errorf("%s:%d: unknown global fact %s", c.File, c.Line, n)
			}
			e := *gl
			e.Title = "global " + n
			c.Ensures = append(c.Ensures, e)
		}
		for n, i := range append(append([]string(nil), c.Impl...), c.Incl...) {
			ic := s.Contracts[i]
			if ic == nil {
				return fmt.Errorf("%s:%d: %s is not under contract", c.File, c.Line, i)
			}
			if n >= len(c.Impl) {
				c.include(ic)
				continue
			}
			if ic.Kind == "functype" {
				if len(ic.Params) != len(c.Params)+1 || len(ic.Results) != len(c.Results) {
					return fmt.Errorf("%s:%d: %s and %s differ in parameters", c.File, c.Line, k, i)
				}
				c.Self = ic.Params[0]
				for j := range c.Params {
					if ic.Params[j+1] != c.Params[j] {
						return fmt.Errorf("%s:%d: parameter %s is %s in %s", c.File, c.Line, c.Params[j], ic.Params[j+1], i)
					}
				}
				c.include(ic)
				continue
			}
			if len(ic.Params) != len(c.Params) || len(ic.Results) != len(c.Results) {
				return fmt.Errorf("%s:%d: %s and %s differ in parameters", c.File, c.Line, k, i)
			}
			for j := range ic.Params {
				if j > 0 && ic.Params[j] != c.Params[j] {
					return fmt.Errorf("%s:%d: parameter %s is %s in %s", c.File, c.Line, c.Params[j], ic.Params[j], i)
				}
			}
			for j := range ic.Results {
				if ic.Results[j] != c.Results[j] {
					return fmt.Errorf("%s:%d: result %s is %s in %s", c.File, c.Line, c.Results[j], ic.Results[j], i)
				}
			}
			c.include(ic.withReceiver(c))
		}
	}
	return nil
}

// withReceiver turns the receiver of an interface contract, which is an
// interface value, into that of the implementation.
func (ic *Contract) withReceiver(c *Contract) *Contract {
	if len(ic.Params) == 0 {
		return ic
	}
	from, to := ic.Params[0], &Expr{Op: "call", Name: "iface", Args: []*Expr{{Op: "id", Name: c.Params[0]}}}
	cl := func(cs []Clause) []Clause {
		out := append([]Clause(nil), cs...)
		for i := range out {
			out[i].E = out[i].E.subst(from, to)
		}
		return out
	}
	n := *ic
	n.Lets, n.Requires, n.Ensures, n.Always = cl(ic.Lets), cl(ic.Requires), cl(ic.Ensures), cl(ic.Always)
	if ic.PanicIf != nil {
		n.PanicIf = &cl([]Clause{*ic.PanicIf})[0]
	}
	n.Mods = append([]ModItem(nil), ic.Mods...)
	for i := range n.Mods {
		n.Mods[i].E, n.Mods[i].From, n.Mods[i].Cond = n.Mods[i].E.subst(from, to), n.Mods[i].From.subst(from, to), n.Mods[i].Cond.subst(from, to)
	}
	return &n
}

// subst replaces an identifier.
func (e *Expr) subst(name string, to *Expr) *Expr {
	if e == nil {
		return nil
	}
	if e.Op == "id" && e.Name == name {
		c := *to
		c.Line, c.File = e.Line, e.File
		return &c
	}
	for _, v := range e.Vars {
		if v.Name == name {
			return e
		}
	}
	n := *e
	n.Args = append([]*Expr(nil), e.Args...)
	for i := range n.Args {
		n.Args[i] = n.Args[i].subst(name, to)
	}
	n.Trigs = nil
	for _, t := range e.Trigs {
		var l []*Expr
		for _, x := range t {
			l = append(l, x.subst(name, to))
		}
		n.Trigs = append(n.Trigs, l)
	}
	return &n
}

func (p *specParser) cur() tok { return p.toks[p.p] }
func (p *specParser) next() tok {
	t := p.toks[p.p]
	if p.p < len(p.toks)-1 {
		p.p++
	}
	return t
}
func (p *specParser) fail(f string, a ...any) {
	panic(fmt.Errorf("%s:%d: %s (at %q)", p.file, p.cur().line, fmt.Sprintf(f, a...), p.cur().s))
}
func (p *specParser) isOp(s string) bool { return p.cur().kind == "op" && p.cur().s == s }
func (p *specParser) isId(s string) bool { return p.cur().kind == "id" && p.cur().s == s }
func (p *specParser) accept(s string) bool {
	if (p.cur().kind == "op" || p.cur().kind == "id") && p.cur().s == s {
		p.next()
		return true
	}
	return false
}
func (p *specParser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q", s)
	}
}
func (p *specParser) ident() string {
	if p.cur().kind != "id" {
		p.fail("expected identifier")
	}
	return p.next().s
}

func parseSpecFile(spec *Spec, file string) (err error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	toks, err := lexSpec(file, string(b))
	if err != nil {
		return err
	}
	p := &specParser{file: file, toks: toks, spec: spec}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(error); ok {
				err = e
				return
			}
			panic(r)
		}
	}()
	for p.cur().kind != "eof" {
		p.decl()
	}
	return nil
}

func (p *specParser) typ() *TypeRef {
	switch {
	case p.accept("*"):
		return &TypeRef{Kind: "ptr", A: p.typ()}
	case p.accept("["):
		p.expect("]")
		return &TypeRef{Kind: "slice", A: p.typ()}
	case p.isId("map"):
		p.next()
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return &TypeRef{Kind: "map", A: k, B: p.typ()}
	}
	n := p.ident()
	if p.accept(".") {
		n += "." + p.ident()
	}
	return &TypeRef{Kind: "name", Name: n}
}

func (p *specParser) params(close string) []Param {
	var ps []Param
	for !p.isOp(close) {
		n := p.ident()
		names := []string{n}
		for p.accept(",") {
			names = append(names, p.ident())
		}
		p.expect(":")
		t := p.typ()
		for _, n := range names {
			ps = append(ps, Param{n, t})
		}
		if !p.accept(",") {
			break
		}
	}
	return ps
}

func (p *specParser) idlist(close string) []string {
	var r []string
	for !p.isOp(close) {
		r = append(r, p.ident())
		if !p.accept(",") {
			break
		}
	}
	p.expect(close)
	return r
}

// funcName parses pkg.F, pkg.(*T).M, pkg.T.M, (*pkg.T).M
func (p *specParser) funcName() string {
	var sb strings.Builder
	sb.WriteString(p.ident())
	for p.accept(".") {
		sb.WriteByte('.')
		if p.accept("(") {
			p.expect("*")
			sb.WriteString("(*" + p.ident() + ")")
			p.expect(")")
		} else {
			sb.WriteString(p.ident())
		}
	}
	if p.isOp("[") && p.toks[p.p+1].kind == "id" && p.toks[p.p+1].s == "inst" {
		p.next()
		p.next()
		sb.WriteString("[" + p.next().s + "]")
		p.expect("]")
	}
	return sb.String()
}

func (p *specParser) labels() (ls []string, title string) {
	if !p.accept("[") {
		return nil, ""
	}
	for !p.isOp("]") {
		if p.cur().kind == "str" {
			title = p.next().s
		} else {
			ls = append(ls, p.ident())
		}
		p.accept(",")
	}
	p.expect("]")
	return
}

func (p *specParser) clause() Clause {
	c := Clause{Line: p.cur().line, File: p.file}
	c.Labels, c.Title = p.labels()
	c.E = p.expr()
	return c
}

func (p *specParser) decl() {
	line := p.cur().line
	kw := p.ident()
	switch kw {
	case "sort":
		p.spec.Sorts = append(p.spec.Sorts, p.ident())
	case "assumption":
		p.spec.Assump = append(p.spec.Assump, p.next().s)
	case "fn", "rec", "def":
		d := &FnDecl{Line: line, File: p.file}
		if kw == "rec" {
			p.expect("fn")
			d.Rec = true
		}
		d.Def = kw == "def"
		d.Name = p.ident()
		if p.accept("{") {
			d.Group = p.ident()
			p.expect("}")
		}
		p.expect("(")
		d.Params = p.params(")")
		p.expect(")")
		p.expect(":")
		d.Ret = p.typ()
		if p.accept("=") {
			d.Body = p.expr()
		}
		if _, dup := p.spec.Fns[d.Name]; dup {
			p.fail("duplicate %s", d.Name)
		}
		p.spec.Fns[d.Name] = d
		p.spec.FnOrder = append(p.spec.FnOrder, d.Name)
	case "lemma":
		l := &Lemma{Line: line, File: p.file, Name: p.ident()}
		if p.accept("{") {
			l.Group = p.ident()
			p.expect("}")
		}
		p.expect("(")
		l.Params = p.params(")")
		p.expect(")")
		l.Labels, _ = p.labels()
		if p.accept("by") {
			l.By = p.ident()
		}
		p.expect(":")
		for p.accept("{") {
			var tr []*Expr
			for {
				tr = append(tr, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			l.Trigs = append(l.Trigs, tr)
		}
		l.E = p.expr()
		p.spec.Lemmas = append(p.spec.Lemmas, l)
	case "axiom":
		p.spec.Axioms = append(p.spec.Axioms, p.clause())
	case "group":
		g := &GroupDecl{Name: p.ident()}
		p.expect("{")
		for !p.isOp("}") {
			// heap names written as strings or T.f
			if p.cur().kind == "str" {
				g.Heaps = append(g.Heaps, p.next().s)
			} else {
				n := p.ident()
				for p.accept(".") {
					n += "." + p.ident()
				}
				g.Heaps = append(g.Heaps, "F."+n)
			}
			p.accept(",")
		}
		p.expect("}")
		p.spec.Groups[g.Name] = g
		p.spec.GroupOrd = append(p.spec.GroupOrd, g.Name)
	case "ghostfield":
		n := p.ident()
		p.expect(".")
		n += "." + p.ident()
		p.expect(".")
		g := &GhostField{TypeName: n, Field: p.ident()}
		p.expect(":")
		g.Type = p.typ()
		if p.accept("=") {
			g.Init = p.expr()
		}
		p.spec.Ghosts[n] = append(p.spec.Ghosts[n], g)
	case "boxfact", "boxreq":
		b := &BoxFact{Req: kw == "boxreq"}
		b.Type = p.typ()
		p.expect("(")
		b.V = p.ident()
		if !b.Req {
			p.expect(",")
			b.I = p.ident()
		}
		p.expect(")")
		p.expect("=")
		b.E = p.expr()
		p.spec.BoxFacts = append(p.spec.BoxFacts, b)
	case "typefacts":
		p.spec.TypeFacts = append(p.spec.TypeFacts, p.typ())
		for p.accept(",") {
			p.spec.TypeFacts = append(p.spec.TypeFacts, p.typ())
		}
	case "global":
		n := p.ident()
		c := p.clause()
		p.spec.Globals[n] = &c
		p.spec.GlobOrder = append(p.spec.GlobOrder, n)
	case "func", "extern", "iface", "functype":
		p.contract(kw, line)
	default:
		p.fail("unexpected %q", kw)
	}
}

func (p *specParser) contract(kind string, line int) {
	c := &Contract{Kind: kind, Key: p.funcName(), Loops: map[int]*LoopSpec{}, Line: line, File: p.file}
	p.expect("(")
	c.Params = p.idlist(")")
	if p.accept("(") {
		c.Results = p.idlist(")")
	}
	c.Labels, _ = p.labels()
	var loop *LoopSpec
	for p.cur().kind == "id" {
		switch p.cur().s {
		case "requires":
			p.next()
			c.Requires = append(c.Requires, p.clause())
		case "always":
			// holds at every return, and when the function panics
			p.next()
			cl := p.clause()
			c.Ensures = append(c.Ensures, cl)
			c.Always = append(c.Always, cl)
		case "ensures":
			p.next()
			c.Ensures = append(c.Ensures, p.clause())
		case "assume":
			p.next()
			c.Assume = append(c.Assume, p.clause())
		case "hint":
			p.next()
			c.Inst = append(c.Inst, p.clause())
		case "lets":
			p.next()
			n := p.ident()
			p.expect("=")
			c.Lets = append(c.Lets, Clause{Title: n, E: p.expr()})
		case "safety":
			p.next()
			c.Safety, _ = p.labels()
			c.HasSafe = true
		case "maypanic":
			p.next()
			c.MayPanic = true
			if p.accept("if") {
				cl := p.clause()
				c.PanicIf = &cl
			}
		case "trusted":
			p.next()
			c.Trusted = true
		case "defines":
			p.next()
			c.Defines = append(c.Defines, p.clause())
		case "pure":
			p.next()
			c.Pure = true
		case "establishes":
			p.next()
			for {
				c.Estab = append(c.Estab, p.ident())
				if !p.accept(",") {
					break
				}
			}
		case "uses":
			p.next()
			for {
				c.Uses = append(c.Uses, p.ident())
				if !p.accept(",") {
					break
				}
			}
		case "implements":
			p.next()
			c.Impl = append(c.Impl, p.funcName())
		case "includes":
			p.next()
			c.Incl = append(c.Incl, p.funcName())
		case "cases":
			p.next()
			for {
				c.Cases = append(c.Cases, p.funcName())
				if !p.accept(",") {
					break
				}
			}
		case "modifies":
			p.next()
			ls, _ := p.labels()
			c.ModLabel = append(c.ModLabel, ls...)
			c.ModsSet = true
			for {
				if p.accept("nothing") {
				} else {
					c.Mods = append(c.Mods, p.modItem())
				}
				if !p.accept(",") {
					break
				}
			}
		case "ghost":
			p.next()
			g := GhostVar{Name: p.ident()}
			p.expect(":")
			g.Type = p.typ()
			p.expect("=")
			g.Init = p.expr()
			c.Ghosts = append(c.Ghosts, g)
		case "on", "at":
			at := p.next().s == "at"
			o := OnCall{Assert: at, Line: p.cur().line, File: p.file}
			p.expect("call")
			o.Callee = p.funcName()
			p.expect("(")
			o.Args = p.idlist(")")
			if p.accept("(") {
				o.Res = p.idlist(")")
			}
			if p.accept("when") {
				o.When = p.expr()
			}
			p.expect(":")
			if at && p.accept("frames") {
				o.Frames = true
			} else if at {
				p.expect("assert")
				o.Labels, o.Title = p.labels()
				o.E = p.expr()
			} else {
				o.Ghost = p.ident()
				p.expect(":=")
				o.E = p.expr()
			}
			c.OnCalls = append(c.OnCalls, o)
		case "loop":
			p.next()
			n, _ := strconv.Atoi(p.next().s)
			p.expect(":")
			if c.Loops[n] == nil {
				c.Loops[n] = &LoopSpec{}
			}
			loop = c.Loops[n]
		case "invariant":
			p.next()
			if loop == nil {
				p.fail("invariant outside loop")
			}
			loop.Inv = append(loop.Inv, p.clause())
		case "decreases":
			p.next()
			ls, _ := p.labels()
			e := p.expr()
			if loop == nil {
				c.Term, c.TermL = e, ls
			} else {
				loop.Dec, loop.DecL = e, ls
			}
		default:
			goto done
		}
	}
done:
	if _, dup := p.spec.Contracts[c.Key]; dup {
		p.fail("duplicate contract %s", c.Key)
	}
	p.spec.Contracts[c.Key] = c
	p.spec.Order = append(p.spec.Order, c.Key)
}

// modItem: heap("F.sqlf.X.f") | elems(e) [from e] | map(e) | e.f | sb(e)  [if cond]
func (p *specParser) modItem() ModItem {
	var m ModItem
	switch {
	case p.accept("all"):
		m.Kind = "all"
	case p.isId("heap"):
		p.next()
		p.expect("(")
		m.Kind = "heap"
		m.Heap = p.next().s
		p.expect(")")
	case p.isId("elems"):
		p.next()
		p.expect("(")
		m.Kind = "elems"
		m.E = p.expr()
		p.expect(")")
		if p.accept("from") {
			m.From = p.expr()
		}
	case p.isId("mapof"):
		p.next()
		p.expect("(")
		m.Kind = "map"
		m.E = p.expr()
		p.expect(")")
	case p.isId("cell"):
		p.next()
		p.expect("(")
		m.Kind = "cell"
		m.E = p.expr()
		p.expect(")")
	default:
		m.Kind = "field"
		m.E = p.expr()
		if m.E.Op != "field" {
			p.fail("modifies: want a field")
		}
	}
	if p.accept("if") {
		m.Cond = p.expr()
	}
	return m
}

// ---------------------------------------------------------------- expressions

func (p *specParser) mk(op string, args ...*Expr) *Expr {
	return &Expr{Op: op, Args: args, Line: p.cur().line, File: p.file}
}

func (p *specParser) expr() *Expr {
	if p.isId("forall") || p.isId("exists") {
		e := p.mk(p.next().s)
		e.Vars = p.params("::")
		p.expect("::")
		for p.accept("{") {
			var tr []*Expr
			for {
				tr = append(tr, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			e.Trigs = append(e.Trigs, tr)
		}
		e.Args = []*Expr{p.expr()}
		return e
	}
	if p.isId("if") {
		p.next()
		c := p.expr()
		p.expect("then")
		a := p.expr()
		p.expect("else")
		b := p.expr()
		return p.mk("ite", c, a, b)
	}
	if p.isId("let") {
		p.next()
		n := p.ident()
		p.expect("=")
		v := p.expr()
		p.expect("in")
		b := p.expr()
		e := p.mk("let", v, b)
		e.Name = n
		return e
	}
	return p.iff()
}

func (p *specParser) iff() *Expr {
	l := p.impl()
	for p.accept("<==>") {
		l = p.bin("<==>", l, p.impl())
	}
	return l
}

func (p *specParser) bin(op string, a, b *Expr) *Expr {
	e := p.mk("bin", a, b)
	e.Name = op
	return e
}

func (p *specParser) sub() *Expr {
	if p.isId("forall") || p.isId("exists") || p.isId("if") || p.isId("let") {
		return p.expr()
	}
	return nil
}

func (p *specParser) impl() *Expr {
	l := p.or()
	if p.accept("==>") {
		if e := p.sub(); e != nil {
			return p.bin("==>", l, e)
		}
		return p.bin("==>", l, p.impl())
	}
	return l
}

func (p *specParser) or() *Expr {
	l := p.and()
	for p.accept("||") {
		if e := p.sub(); e != nil {
			return p.bin("||", l, e)
		}
		l = p.bin("||", l, p.and())
	}
	return l
}

func (p *specParser) and() *Expr {
	l := p.cmp()
	for p.accept("&&") {
		if e := p.sub(); e != nil {
			return p.bin("&&", l, e)
		}
		l = p.bin("&&", l, p.cmp())
	}
	return l
}

func (p *specParser) cmp() *Expr {
	l := p.add()
	var res *Expr
	for {
		op := ""
		for _, o := range []string{"==", "!=", "<=", ">=", "<", ">"} {
			if p.isOp(o) {
				op = o
			}
		}
		if op == "" {
			if res != nil {
				return res
			}
			return l
		}
		p.next()
		var r *Expr
		if p.isId("if") {
			r = p.expr()
		} else {
			r = p.add()
		}
		c := p.bin(op, l, r)
		if res == nil {
			res = c
		} else {
			res = p.bin("&&", res, c)
		}
		l = r
	}
}

func (p *specParser) add() *Expr {
	l := p.mul()
	for {
		if p.accept("+") {
			l = p.bin("+", l, p.mul())
		} else if p.accept("-") {
			l = p.bin("-", l, p.mul())
		} else {
			return l
		}
	}
}

func (p *specParser) mul() *Expr {
	l := p.unary()
	for {
		if p.accept("*") {
			l = p.bin("*", l, p.unary())
		} else if p.accept("%") {
			l = p.bin("mod", l, p.unary())
		} else {
			return l
		}
	}
}

func (p *specParser) unary() *Expr {
	if p.accept("!") {
		e := p.mk("un", p.unary())
		e.Name = "!"
		return e
	}
	if p.accept("-") {
		e := p.mk("un", p.unary())
		e.Name = "-"
		return e
	}
	return p.postfix()
}

func (p *specParser) postfix() *Expr {
	e := p.primary()
	for {
		switch {
		case p.accept("."):
			n := p.mk("field", e)
			n.Name = p.ident()
			e = n
		case p.isOp("["):
			p.next()
			i := p.expr()
			p.expect("]")
			e = p.mk("index", e, i)
		default:
			return e
		}
	}
}

func (p *specParser) primary() *Expr {
	t := p.cur()
	switch t.kind {
	case "int":
		p.next()
		e := p.mk("int")
		e.Name = t.s
		return e
	case "str":
		p.next()
		e := p.mk("str")
		e.Name = t.s
		return e
	case "op":
		if t.s == "(" {
			p.next()
			e := p.expr()
			p.expect(")")
			return e
		}
	case "id":
		if clauseKw[t.s] && t.s != "map" && t.s != "at" && t.s != "on" && !(t.s == "iface" && p.toks[p.p+1].s == "(") {
			p.fail("unexpected keyword in expression")
		}
		p.next()
		switch t.s {
		case "true", "false":
			e := p.mk("bool")
			e.Name = t.s
			return e
		case "nil":
			return p.mk("nil")
		case "is", "as", "zero", "tagid":
			p.expect("(")
			e := p.mk(t.s)
			if t.s == "is" || t.s == "as" {
				e.Args = []*Expr{p.expr()}
				p.expect(",")
			}
			e.Type = p.typ()
			p.expect(")")
			return e
		case "fnval":
			p.expect("(")
			e := p.mk("fnval")
			e.Name = p.funcName()
			p.expect(")")
			return e
		case "pkgvar":
			p.expect("(")
			e := p.mk("pkgvar")
			e.Name = p.ident()
			p.expect(".")
			e.Name += "." + p.ident()
			p.expect(")")
			return e
		}
		if p.accept("(") {
			e := p.mk("call")
			e.Name = t.s
			for !p.isOp(")") {
				e.Args = append(e.Args, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			return e
		}
		e := p.mk("id")
		e.Name = t.s
		return e
	}
	p.fail("unexpected token")
	return nil
}
