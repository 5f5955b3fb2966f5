package main

import (
	"errors"
	"fmt"
	"math/rand"
	"strconv"
	"strings"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/syntax"
)

// node is a fragment (or another builder) of the reference builder.
type node struct {
	raw            string
	args           []any
	frags          []*node // nil: a nil builder is not used
	prefix, suffix string
	fail           error // a builder that fails with this error
	custom         int   // a custom FragmentBuilder committing this many values
	vals           []any
	mk             func() sqlf.FragmentBuilder // the real builder, if not a fragment
	tab            string                      // a column or table: the table it refers to
	q              *qspec                      // a query builder
}

// piece is text, or a committed value.
type piece struct {
	text string
	val  any
	isV  bool
}

// refErr is a failure the reference predicts.
type refErr struct {
	kind  string // range, unused, parse, join, call, user
	cause error
	msg   string
	outOf bool // a reference of this very fragment is out of range
	call  int
}

func (e *refErr) Error() string { return e.kind + ": " + e.msg }

type userFunc struct {
	join bool
	eval func(rc *refCtx, args []any) ([]piece, *refErr)
}

type refCtx struct {
	n            *node
	uArgs, uFrs  []bool
	funcs        map[string]userFunc
	parent       *refCtx
	joinedBroken bool
}

func (n *node) describe() string {
	if n == nil {
		return "nil"
	}
	if n.fail != nil {
		return "Failing(" + n.fail.Error() + ")"
	}
	if n.custom > 0 {
		return fmt.Sprintf("Custom(%v)", n.vals)
	}
	if n.q != nil {
		return n.q.describe()
	}
	if n.tab != "" {
		return fmt.Sprintf("Column(%q of %s)", n.raw, n.tab)
	}
	s := fmt.Sprintf("{Raw: %q", n.raw)
	if len(n.args) > 0 {
		s += fmt.Sprintf(", Args: %#v", n.args)
	}
	if len(n.frags) > 0 {
		var fs []string
		for _, f := range n.frags {
			fs = append(fs, f.describe())
		}
		s += ", Fragments: [" + strings.Join(fs, ", ") + "]"
	}
	if n.prefix != "" {
		s += fmt.Sprintf(", Prefix: %q", n.prefix)
	}
	if n.suffix != "" {
		s += fmt.Sprintf(", Suffix: %q", n.suffix)
	}
	return s + "}"
}

// failing is a builder that fails.
type failing struct{ err error }

func (f failing) BuildFragment(ctx *sqlf.Context) (string, error) {
	ctx.CommitArg("of a failing builder")
	return "text of a failing builder", f.err
}

// committer is a custom builder that commits values.
type committer struct{ vals []any }

func (c committer) BuildFragment(ctx *sqlf.Context) (string, error) {
	var ps []string
	for _, v := range c.vals {
		ps = append(ps, ctx.CommitArg(v))
	}
	return "c(" + strings.Join(ps, ",") + ")", nil
}

// builder makes the real builder of a node.
func (n *node) builder() sqlf.FragmentBuilder {
	if n.fail != nil {
		return failing{n.fail}
	}
	if n.custom > 0 {
		return committer{n.vals}
	}
	if n.mk != nil {
		return n.mk()
	}
	if n.q != nil {
		return n.q.real()
	}
	return n.fragment()
}

func (n *node) fragment() *sqlf.Fragment {
	f := &sqlf.Fragment{Raw: n.raw, Prefix: n.prefix, Suffix: n.suffix}
	f.Args = append(f.Args, n.args...)
	for _, c := range n.frags {
		f.Fragments = append(f.Fragments, c.builder())
	}
	return f
}

func trimPieces(ps []piece) []piece {
	ps = append([]piece(nil), ps...)
	for len(ps) > 0 && !ps[0].isV {
		ps[0].text = strings.TrimLeft(ps[0].text, wsp)
		if ps[0].text != "" {
			break
		}
		ps = ps[1:]
	}
	for len(ps) > 0 && !ps[len(ps)-1].isV {
		l := len(ps) - 1
		ps[l].text = strings.TrimRight(ps[l].text, wsp)
		if ps[l].text != "" {
			break
		}
		ps = ps[:l]
	}
	return ps
}

const wsp = " \t\n\r\v\f"

// build is the reference of BuildFragment.
func (n *node) build(parent *refCtx) ([]piece, *refErr) {
	if n.fail != nil {
		return nil, &refErr{kind: "user", cause: n.fail, msg: "failing builder"}
	}
	if n.custom > 0 {
		ps := []piece{{text: "c("}}
		for i, v := range n.vals {
			if i > 0 {
				ps = append(ps, piece{text: ","})
			}
			ps = append(ps, piece{val: v, isV: true})
		}
		return append(ps, piece{text: ")"}), nil
	}
	if n.q != nil {
		return n.q.pieces(nil)
	}
	rc := &refCtx{n: n, uArgs: make([]bool, len(n.args)), uFrs: make([]bool, len(n.frags)), parent: parent}
	if parent != nil {
		rc.funcs = parent.funcs
	}
	es, err := refParse(n.raw)
	if err != nil {
		return nil, &refErr{kind: "parse", msg: err.Error() + " in " + n.raw}
	}
	ps, re := rc.exprs(es, nil)
	if re != nil {
		re.outOf = false
		return nil, re
	}
	for i, u := range rc.uArgs {
		if !u {
			return nil, &refErr{kind: "unused", msg: fmt.Sprintf("arg %d of %q", i+1, n.raw)}
		}
	}
	for i, u := range rc.uFrs {
		if !u {
			return nil, &refErr{kind: "unused", msg: fmt.Sprintf("fragment %d of %q", i+1, n.raw)}
		}
	}
	ps = trimPieces(ps)
	if len(ps) == 0 {
		return nil, nil
	}
	if n.prefix != "" {
		ps = append([]piece{{text: n.prefix + " "}}, ps...)
	}
	if n.suffix != "" {
		ps = append(ps, piece{text: " " + n.suffix})
	}
	return ps, nil
}

// exprs evaluates expressions; joined gives the index the bare functions are called with.
func (rc *refCtx) exprs(es []refExpr, joined *int) ([]piece, *refErr) {
	var out []piece
	nf := 0
	for _, e := range es {
		switch e.kind {
		case "plain":
			out = append(out, piece{text: e.text})
		case "bind":
			ps, err := rc.arg(e.idx)
			if err != nil {
				err.outOf = false
				return nil, err
			}
			out = append(out, ps...)
		case "call":
			ps, err := rc.call(e.name, e.args)
			if err != nil {
				if joined != nil && err.outOf {
					err.call = -1
				}
				return nil, err
			}
			out = append(out, ps...)
		case "func":
			if joined == nil {
				return nil, &refErr{kind: "func", msg: "function value"}
			}
			nf++
			ps, err := rc.call(e.name, []any{float64(*joined)})
			if err != nil {
				if err.outOf {
					err.call = nf
				}
				return nil, err
			}
			out = append(out, ps...)
		}
	}
	return out, nil
}

func (rc *refCtx) arg(k int) ([]piece, *refErr) {
	if k < 1 || k > len(rc.n.args) {
		return nil, &refErr{kind: "range", msg: fmt.Sprintf("arg %d of %q", k, rc.n.raw), outOf: true}
	}
	rc.uArgs[k-1] = true
	return []piece{{val: rc.n.args[k-1], isV: true}}, nil
}

func (rc *refCtx) frag(k int) ([]piece, *refErr) {
	if k < 1 || k > len(rc.n.frags) {
		return nil, &refErr{kind: "range", msg: fmt.Sprintf("fragment %d of %q", k, rc.n.raw), outOf: true}
	}
	rc.uFrs[k-1] = true
	ps, err := rc.n.frags[k-1].build(rc)
	if err != nil {
		err.outOf = false
	}
	return ps, err
}

func (rc *refCtx) call(name string, args []any) ([]piece, *refErr) {
	if u, ok := rc.funcs[name]; ok {
		return u.eval(rc, args)
	}
	bad := func(m string) ([]piece, *refErr) { return nil, &refErr{kind: "call", msg: "#" + name + ": " + m} }
	switch name {
	case "f", "fragment", "arg":
		if len(args) != 1 {
			return bad("wrong number of args")
		}
		f, ok := args[0].(float64)
		if !ok {
			return bad("wrong type")
		}
		if name == "arg" {
			return rc.arg(int(f))
		}
		return rc.frag(int(f))
	case "join":
		return rc.join(args)
	}
	return bad("unknown")
}

func (rc *refCtx) join(args []any) ([]piece, *refErr) {
	bad := func(m string) ([]piece, *refErr) { return nil, &refErr{kind: "join", msg: m} }
	if len(args) < 2 || len(args) > 4 {
		return bad("wrong number of args")
	}
	tmpl, ok1 := args[0].(string)
	sep, ok2 := args[1].(string)
	if !ok1 || !ok2 {
		return bad("wrong type")
	}
	from, to := 0, 0
	for i, a := range args[2:] {
		f, ok := a.(float64)
		if !ok {
			return bad("wrong type")
		}
		if i == 0 {
			from = int(f)
		} else {
			to = int(f)
		}
	}
	if to > 0 && from > to {
		return bad("invalid range")
	}
	es, err := refParse(tmpl)
	if err != nil {
		return nil, &refErr{kind: "parse", msg: "join template " + tmpl}
	}
	n := 0
	for _, e := range es {
		if e.kind != "func" {
			continue
		}
		n++
		if u, ok := rc.funcs[e.name]; ok {
			if !u.join {
				return bad("incompatible #" + e.name)
			}
			continue
		}
		switch e.name {
		case "f", "fragment", "arg":
		default:
			return bad("unknown or incompatible #" + e.name)
		}
	}
	if n == 0 {
		return bad("no function")
	}
	var out []piece
	i := from
	if i <= 0 {
		i = 1
	}
	for ; ; i++ {
		k := i
		ps, err := rc.exprs(es, &k)
		if err != nil {
			if !err.outOf || from > 0 && i == from || to > 0 || err.call != 1 {
				return nil, err
			}
			break
		}
		if !emptyPieces(ps) {
			if len(out) > 0 {
				out = append(out, piece{text: sep})
			}
			out = append(out, ps...)
		}
		if to > 0 && i >= to {
			break
		}
	}
	return out, nil
}

func emptyPieces(ps []piece) bool {
	for _, p := range ps {
		if p.isV || p.text != "" {
			return false
		}
	}
	return true
}

// render gives the query and the args of the pieces.
func render(ps []piece, style syntax.BindVarStyle) (string, []any) {
	var sb strings.Builder
	var args []any
	for _, p := range ps {
		if !p.isV {
			sb.WriteString(p.text)
			continue
		}
		if style == syntax.Question {
			args = append(args, p.val)
			sb.WriteString("?")
			continue
		}
		n := 0
		for i, a := range args {
			if equalVals(a, p.val) {
				n = i + 1
				break
			}
		}
		if n == 0 {
			args = append(args, p.val)
			n = len(args)
		}
		sb.WriteString("$" + strconv.Itoa(n))
	}
	return sb.String(), args
}

func equalVals(a, b any) (eq bool) {
	defer func() {
		if recover() != nil {
			eq = false
		}
	}()
	return a == b
}

// sameVal: the same value, also if it is not comparable.
func sameVal(a, b any) bool { return fmt.Sprintf("%T %#v", a, a) == fmt.Sprintf("%T %#v", b, b) }

func sameVals(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameVal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- generation

type genOpts struct {
	maxDepth int
	mistakes int // one of n fragments has a mistake in its references (0: none)
	unused   int
	fails    int
	dup      bool // values are often repeated
	joins    int  // weight of #join
	plainQ   bool
	prefix   bool
	funcs    []string // names of custom functions called as #name(k)
	custom   bool
}

type gen struct {
	r    *rand.Rand
	o    genOpts
	n    int
	sent []error
}

func (g *gen) value() any {
	g.n++
	if g.o.dup && g.r.Intn(2) == 0 {
		return pick[any](g.r, 1, 2, "a", "b", true, nil, int64(1), 1.5, "", false)
	}
	switch g.r.Intn(6) {
	case 0:
		return fmt.Sprintf("v%d", g.n)
	case 1:
		return float64(g.n) + 0.5
	case 2:
		return []byte(fmt.Sprintf("b%d", g.n))
	case 3:
		return [2]int{g.n, 1}
	}
	return g.n
}

var sentinel = 0

func (g *gen) node(depth int) *node {
	r := g.r
	if depth > 0 && g.o.fails > 0 && r.Intn(g.o.fails) == 0 {
		var e error
		if r.Intn(3) == 0 {
			e = fmt.Errorf("failed %d: %w", len(g.sent), sqlf.ErrInvalidIndex)
		} else {
			e = fmt.Errorf("failed %d", len(g.sent))
		}
		g.sent = append(g.sent, e)
		return &node{fail: e}
	}
	if depth > 0 && g.o.custom && r.Intn(6) == 0 {
		n := &node{custom: 1 + r.Intn(3)}
		for i := 0; i < n.custom; i++ {
			n.vals = append(n.vals, g.value())
		}
		return n
	}
	n := &node{}
	na, nf := r.Intn(4), 0
	if depth < g.o.maxDepth {
		nf = r.Intn(4)
	}
	for i := 0; i < na; i++ {
		n.args = append(n.args, g.value())
	}
	for i := 0; i < nf; i++ {
		n.frags = append(n.frags, g.node(depth+1))
	}
	if g.o.prefix && r.Intn(2) == 0 {
		n.prefix = pick(r, "PRE", "WHERE", "p ", "(")
	}
	if g.o.prefix && r.Intn(2) == 0 {
		n.suffix = pick(r, "SUF", "LIMIT 1", " s", ")")
	}
	g.template(n)
	return n
}

func (g *gen) text() string {
	return pick(g.r, "a", " ", "x = ", ", ", "(", ") ", "''", "'s'", "\n", " AND ", "é")
}

func (g *gen) template(n *node) {
	r := g.r
	mist := g.o.mistakes > 0 && r.Intn(g.o.mistakes) == 0
	unused := g.o.unused > 0 && r.Intn(g.o.unused) == 0
	question := r.Intn(2) == 0
	// how the args and fragments get referenced
	type ref struct{ s string }
	var refs []string
	na, nf := len(n.args), len(n.frags)
	q := 0
	skipA, skipF := -1, -1
	if unused {
		if na > 0 && (nf == 0 || r.Intn(2) == 0) {
			skipA = r.Intn(na)
		} else if nf > 0 {
			skipF = r.Intn(nf)
		}
	}
	jw := g.o.joins
	joinTmpl := func(kind string) string {
		name := kind
		if kind == "f" && r.Intn(2) == 0 {
			name = "fragment"
		}
		t := "#" + name
		if r.Intn(3) == 0 {
			t = pick(r, "(", "x", "a=", "") + t + pick(r, ")", " y", "", "::t")
		}
		if r.Intn(6) == 0 && na > 0 && nf > 0 {
			t += pick(r, "#arg", "#f")
		}
		return t
	}
	sep := func() string { return pick(r, ", ", " AND ", "", ";", " ", "''")[0:] }
	esc := func(s string) string { return strings.ReplaceAll(s, "'", "''") }
	joinCall := func(kind string, cnt int) string {
		s := "#join('" + esc(joinTmpl(kind)) + "', '" + esc(sep()) + "'"
		switch r.Intn(5) {
		case 0:
			if cnt > 0 {
				s += ", " + strconv.Itoa(1+r.Intn(cnt))
			}
		case 1:
			if cnt > 0 {
				f := 1 + r.Intn(cnt)
				t := f + r.Intn(cnt-f+1)
				if mist && r.Intn(2) == 0 {
					t = cnt + 1
				}
				s += fmt.Sprintf(", %d, %d", f, t)
			}
		}
		if mist && r.Intn(3) == 0 {
			s = "#join('" + esc(joinTmpl(kind)) + "', '-', " + pick(r, strconv.Itoa(cnt+1), strconv.Itoa(cnt+2)+", "+strconv.Itoa(cnt+3), "2, 1", "1, "+strconv.Itoa(cnt+1))
		}
		return s + ")"
	}
	aDone, fDone := false, false
	if skipA < 0 && skipF < 0 && na > 0 && r.Intn(10) < jw {
		refs = append(refs, "#join('"+esc("#arg")+"', '"+esc(sep())+"')")
		aDone = true
	}
	if skipF < 0 && nf > 0 && r.Intn(10) < jw {
		refs = append(refs, "#join('"+pick(r, "#f", "#fragment", "(#f)", "x#f")+"', '"+esc(sep())+"')")
		fDone = true
	}
	if na > 0 && !aDone {
		if question && skipA < 0 {
			for i := 0; i < na; i++ {
				refs = append(refs, "?")
				q++
			}
		} else {
			for _, i := range r.Perm(na) {
				if i == skipA {
					continue
				}
				refs = append(refs, pick(r, fmt.Sprintf("#arg%d", i+1), fmt.Sprintf("#arg(%d)", i+1), fmt.Sprintf("$%d", i+1)))
			}
			question = false
		}
	} else if question {
		question = false
	}
	if nf > 0 && !fDone {
		for _, i := range r.Perm(nf) {
			if i == skipF {
				continue
			}
			refs = append(refs, pick(r, fmt.Sprintf("#f%d", i+1), fmt.Sprintf("#fragment(%d)", i+1), fmt.Sprintf("#f(%d)", i+1), fmt.Sprintf("#fragment%d", i+1)))
		}
	}
	// repeated references and joins
	for k := r.Intn(3); k > 0; k-- {
		switch {
		case na > 0 && r.Intn(2) == 0 && skipA < 0:
			if r.Intn(10) < jw {
				refs = append(refs, joinCall("arg", na))
			} else if !question {
				refs = append(refs, fmt.Sprintf("$%d", 1+r.Intn(na)))
			}
		case nf > 0 && skipF < 0:
			if r.Intn(10) < jw {
				refs = append(refs, joinCall("f", nf))
			} else {
				refs = append(refs, fmt.Sprintf("#f%d", 1+r.Intn(nf)))
			}
		}
	}
	if mist {
		refs = append(refs, pick(r, fmt.Sprintf("#f%d", nf+1), fmt.Sprintf("#arg%d", na+1), "#f0", "#arg(0)", "#f(-1)", fmt.Sprintf("#fragment%d", nf+2), joinCall("f", nf), joinCall("arg", na)))
		if !question {
			if r.Intn(2) == 0 {
				refs = append(refs, fmt.Sprintf("$%d", na+1+r.Intn(2)))
			}
		} else if r.Intn(3) == 0 {
			refs = append(refs, "?")
		}
	}
	for _, f := range g.o.funcs {
		if r.Intn(3) == 0 {
			refs = append(refs, fmt.Sprintf("#%s(%d)", f, 1+r.Intn(3)))
		}
		if r.Intn(3) == 0 {
			refs = append(refs, fmt.Sprintf("#join('%s#%s', '%s')", pick(r, "", "<"), f, pick(r, ",", " ")))
		}
	}
	if question {
		// the ? must stay in order but may be interleaved with the others
		var qs, os []string
		for _, x := range refs {
			if x == "?" {
				qs = append(qs, x)
			} else if !strings.HasPrefix(x, "$") {
				os = append(os, x)
			}
		}
		refs = append(qs, os...)
	}
	r.Shuffle(len(refs), func(i, j int) { refs[i], refs[j] = refs[j], refs[i] })
	var sb strings.Builder
	for _, x := range refs {
		if r.Intn(2) == 0 {
			sb.WriteString(g.text())
		}
		sb.WriteString(x)
		if r.Intn(2) == 0 || strings.HasSuffix(x, "?") {
			sb.WriteString(pick(r, " ", ")", ",", "|", "-"))
		} else if l := x[len(x)-1]; l >= '0' && l <= '9' {
			sb.WriteString(pick(r, " ", ")", ",", "|"))
		}
	}
	if len(refs) == 0 || r.Intn(4) == 0 {
		sb.WriteString(pick(r, "", " ", "t", "now()", "\n", "x y"))
	}
	n.raw = sb.String()
	_ = ref{}
}

func buildBoth(n *node, style syntax.BindVarStyle) (want string, wargs []any, werr *refErr, got string, gargs []any, gerr error) {
	ps, e := n.build(nil)
	if e != nil {
		werr = e
	} else {
		want, wargs = render(ps, style)
	}
	got, gargs, gerr = n.fragment().BuildQuery(style)
	return
}

var errBoom = errors.New("boom")
