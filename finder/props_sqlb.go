package main

import (
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand"
	"strings"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/sqlb"
)

// qspec describes a query builder: the calls made on it, in order.
type qspec struct {
	main               sqlb.TableAliased
	noMain             bool
	joins              []qjoin
	sel, group         []*node // columns
	where              []*node
	order              []qorder
	distinct, dbg      bool
	limit, offset      int64
	unions             []*node
	ctes               []qcte
	emptyJoin, nilWher bool
}

type qjoin struct {
	kind string
	t    sqlb.TableAliased
	on   *node
	opt  bool
}

type qorder struct {
	c *node
	o sqlb.Order
}

type qcte struct {
	name string
	b    *node
	deps []string
}

func (q *qspec) describe() string {
	var sb strings.Builder
	sb.WriteString("NewQueryBuilder()")
	for _, c := range q.ctes {
		fmt.Fprintf(&sb, ".With(%s, %s, deps %v)", c.name, c.b.describe(), c.deps)
	}
	if q.distinct {
		sb.WriteString(".Distinct()")
	}
	ds := func(ns []*node) string {
		var ss []string
		for _, n := range ns {
			ss = append(ss, n.describe())
		}
		return strings.Join(ss, ", ")
	}
	fmt.Fprintf(&sb, ".Select(%s)", ds(q.sel))
	if !q.noMain {
		fmt.Fprintf(&sb, ".From(%s %s)", q.main.Name, q.main.Alias)
	}
	for _, j := range q.joins {
		o := ""
		if j.opt {
			o = "Optional "
		}
		fmt.Fprintf(&sb, ".%s%s(%s %s ON %s)", o, j.kind, j.t.Name, j.t.Alias, j.on.describe())
	}
	for _, w := range q.where {
		fmt.Fprintf(&sb, ".Where(%s)", w.describe())
	}
	if len(q.group) > 0 {
		fmt.Fprintf(&sb, ".GroupBy(%s)", ds(q.group))
	}
	for _, o := range q.order {
		fmt.Fprintf(&sb, ".OrderBy(%s, %d)", o.c.describe(), o.o)
	}
	fmt.Fprintf(&sb, ".Limit(%d).Offset(%d)", q.limit, q.offset)
	if len(q.unions) > 0 {
		fmt.Fprintf(&sb, ".Union(%s)", ds(q.unions))
	}
	if q.emptyJoin {
		sb.WriteString(".InnerJoin(empty name)")
	}
	return sb.String()
}

func columnsOf(ns []*node) []*sqlb.Column {
	var cs []*sqlb.Column
	for _, n := range ns {
		cs = append(cs, n.builder().(*sqlb.Column))
	}
	return cs
}

func doJoin(b *sqlb.QueryBuilder, j qjoin, on *sqlf.Fragment) {
	switch {
	case j.opt:
		b.LeftJoinOptional(j.t, on)
	case j.kind == "INNER JOIN":
		b.InnerJoin(j.t, on)
	case j.kind == "LEFT JOIN":
		b.LeftJoin(j.t, on)
	case j.kind == "RIGHT JOIN":
		b.RightJoin(j.t, on)
	case j.kind == "FULL JOIN":
		b.FullJoin(j.t, on)
	default:
		b.CrossJoin(j.t)
	}
}

func (q *qspec) real() *sqlb.QueryBuilder { b, _ := q.real2(); return b }

// real2 gives also the fragments the caller keeps.
func (q *qspec) real2() (*sqlb.QueryBuilder, []*sqlf.Fragment) {
	b := sqlb.NewQueryBuilder()
	var mine []*sqlf.Fragment
	for _, c := range q.ctes {
		var deps []sqlb.Table
		for _, d := range c.deps {
			deps = append(deps, sqlb.Table(d))
		}
		b.With(sqlb.Table(c.name), c.b.builder(), deps...)
	}
	if q.distinct {
		b.Distinct()
	}
	b.Select(columnsOf(q.sel)...)
	if !q.noMain {
		b.From(q.main)
	}
	for _, j := range q.joins {
		var on *sqlf.Fragment
		if j.on != nil {
			on = j.on.fragment()
			mine = append(mine, on)
		}
		doJoin(b, j, on)
	}
	for _, w := range q.where {
		f := w.fragment()
		mine = append(mine, f)
		b.Where(f)
	}
	if q.nilWher {
		b.Where(nil)
	}
	b.GroupBy(columnsOf(q.group)...)
	for _, o := range q.order {
		b.OrderBy(o.c.builder().(*sqlb.Column), o.o)
	}
	b.Limit(q.limit).Offset(q.offset)
	var us []sqlf.FragmentBuilder
	for _, u := range q.unions {
		us = append(us, u.builder())
	}
	b.Union(us...)
	if q.emptyJoin {
		b.InnerJoin(sqlb.NewTableAliased("", "x"), sqlf.F("1"))
	}
	if q.dbg {
		log.SetOutput(io.Discard)
		b.Debug()
	}
	return b, mine
}

// refs adds the tables the columns in n refer to.
func (n *node) refs(to map[string]bool) {
	if n == nil {
		return
	}
	if n.tab != "" {
		to[n.tab] = true
		return
	}
	for _, f := range n.frags {
		f.refs(to)
	}
}

func (q *qspec) columnRefs() map[string]bool {
	m := map[string]bool{}
	for _, l := range [][]*node{q.sel, q.group, q.where} {
		for _, n := range l {
			n.refs(m)
		}
	}
	for _, o := range q.order {
		o.c.refs(m)
	}
	return m
}

// keptAll: the joins that may not be left out with any choice.
func (q *qspec) optional(i int) bool { return q.distinct && q.joins[i].opt }

// judge says if the choice of joins (dropped: left out) is allowed, and if a
// table that was never joined is referred to.
func (q *qspec) judge(dropped map[int]bool) (bad string, undefined string) {
	m := q.columnRefs()
	for i, j := range q.joins {
		if !dropped[i] {
			j.on.refs(m)
		} else if !q.optional(i) {
			return fmt.Sprintf("join %s was left out", j.t.AppliedName()), ""
		}
	}
	def := map[string]bool{string(q.main.AppliedName()): true}
	for i, j := range q.joins {
		a := string(j.t.AppliedName())
		def[a] = true
		if dropped[i] && m[a] {
			bad = fmt.Sprintf("join %s was left out, but is referred to", a)
		}
	}
	for t := range m {
		if !def[t] {
			undefined = t
		}
	}
	return
}

func (q *qspec) emitted(dropped map[int]bool) map[string]bool {
	by := map[string]*qcte{}
	for i := range q.ctes {
		by[q.ctes[i].name] = &q.ctes[i]
	}
	need := map[string]bool{}
	var add func(n string)
	add = func(n string) {
		c := by[n]
		if c == nil || need[n] {
			return
		}
		need[n] = true
		for _, d := range c.deps {
			add(d)
		}
	}
	add(string(q.main.Name))
	for i, j := range q.joins {
		if !dropped[i] {
			add(string(j.t.Name))
		}
	}
	return need
}

func (q *qspec) ctePieces(dropped map[int]bool) ([]piece, *refErr) {
	need := q.emitted(dropped)
	var with []piece
	for _, c := range q.ctes {
		if !need[c.name] {
			continue
		}
		ps, err := c.b.build(nil)
		if err != nil {
			return nil, err
		}
		if emptyPieces(ps) {
			continue
		}
		if len(with) > 0 {
			with = append(with, piece{text: ", "})
		}
		with = append(with, piece{text: c.name + " AS ("})
		with = append(append(with, ps...), piece{text: ")"})
	}
	if len(with) > 0 {
		with = append([]piece{{text: "With "}}, with...)
	}
	return with, nil
}

func joinPieces(ns []*node, sep string) ([]piece, *refErr) {
	var out []piece
	for _, n := range ns {
		ps, err := n.build(nil)
		if err != nil {
			return nil, err
		}
		if emptyPieces(ps) {
			continue
		}
		if len(out) > 0 {
			out = append(out, piece{text: sep})
		}
		out = append(out, ps...)
	}
	return out, nil
}

var orderWords = []string{"ASC", "ASC NULLS FIRST", "ASC NULLS LAST", "DESC", "DESC NULLS FIRST", "DESC NULLS LAST"}

// pieces is the reference of the built query with the given joins left out.
func (q *qspec) pieces(dropped map[int]bool) ([]piece, *refErr) {
	if q.emptyJoin {
		return nil, &refErr{kind: "recorded"}
	}
	if q.noMain {
		return nil, &refErr{kind: "nomain"}
	}
	if _, u := q.judge(dropped); u != "" {
		return nil, &refErr{kind: "undefined", msg: u}
	}
	var clauses [][]piece
	add := func(ps []piece) {
		if len(ps) > 0 {
			clauses = append(clauses, ps)
		}
	}
	with, err := q.ctePieces(dropped)
	if err != nil {
		return nil, err
	}
	add(with)
	sel, err := joinPieces(q.sel, ", ")
	if err != nil {
		return nil, err
	}
	if emptyPieces(sel) {
		return nil, &refErr{kind: "nocolumn"}
	}
	kw := "SELECT "
	if q.distinct {
		kw = "SELECT DISTINCT "
	}
	sel = append([]piece{{text: kw}}, sel...)
	var ord []piece
	for i, o := range q.order {
		if int(o.o) >= len(orderWords) {
			return nil, &refErr{kind: "order"}
		}
		ps, err := o.c.build(nil)
		if err != nil {
			return nil, err
		}
		sep := "ORDER BY "
		if i > 0 {
			sep = ", "
		}
		if q.distinct {
			al := fmt.Sprintf("_order_%d", i+1)
			sel = append(sel, piece{text: ", "})
			sel = append(append(sel, ps...), piece{text: " AS " + al})
			ps = []piece{{text: al}}
		}
		ord = append(ord, piece{text: sep})
		ord = append(append(ord, ps...), piece{text: " " + orderWords[o.o]})
	}
	add(sel)
	from := []piece{{text: "FROM " + named(q.main)}}
	for i, j := range q.joins {
		if dropped[i] {
			continue
		}
		from = append(from, piece{text: " " + j.kind + " " + named(j.t)})
		if j.on != nil && j.kind != "CROSS JOIN" {
			ps, err := j.on.build(nil)
			if err != nil {
				return nil, err
			}
			if !emptyPieces(ps) {
				from = append(append(from, piece{text: " ON "}), ps...)
			}
		}
	}
	add(from)
	for _, c := range []struct {
		kw, sep string
		ns      []*node
	}{{"WHERE ", " AND ", q.where}, {"GROUP BY ", ", ", q.group}} {
		ps, err := joinPieces(c.ns, c.sep)
		if err != nil {
			return nil, err
		}
		if !emptyPieces(ps) {
			add(append([]piece{{text: c.kw}}, ps...))
		}
	}
	add(ord)
	if q.limit > 0 {
		add([]piece{{text: fmt.Sprintf("LIMIT %d", q.limit)}})
	}
	if q.offset > 0 {
		add([]piece{{text: fmt.Sprintf("OFFSET %d", q.offset)}})
	}
	for _, u := range q.unions {
		ps, err := u.build(nil)
		if err != nil {
			return nil, err
		}
		if !emptyPieces(ps) {
			add(append(append([]piece{{text: "UNION ("}}, ps...), piece{text: ")"}))
		}
	}
	var out []piece
	for i, c := range clauses {
		if i > 0 {
			out = append(out, piece{text: " "})
		}
		out = append(out, c...)
	}
	return out, nil
}

func named(t sqlb.TableAliased) string {
	if t.Alias != "" {
		return string(t.Name) + " AS " + string(t.Alias)
	}
	return string(t.Name)
}

// choices gives every set of joins that may be left out.
func (q *qspec) choices() []map[int]bool {
	cs := []map[int]bool{{}}
	for i := range q.joins {
		if !q.optional(i) {
			continue
		}
		for _, c := range cs[:len(cs):len(cs)] {
			d := map[int]bool{i: true}
			for k := range c {
				d[k] = true
			}
			cs = append(cs, d)
		}
	}
	var ok []map[int]bool
	for _, c := range cs {
		if bad, _ := q.judge(c); bad == "" {
			ok = append(ok, c)
		}
	}
	return ok
}

// ---------------------------------------------------------------- generation

type qopts struct {
	depth    int
	opt      bool // optional joins
	undef    int  // one of n refers to a table that was never joined
	broken   int  // one of n cannot be built
	fails    int  // one of n has a failing part
	ctes     bool
	noRecord bool
	marker   bool // the first selected column is MARK
	rich     bool // many joins that refer to each other
}

type qgen struct {
	r *rand.Rand
	g *gen
	o qopts
	n int
}

func colNode(r *rand.Rand, t sqlb.TableAliased) *node {
	name := pick(r, "id", "name", "x", "*", "a b")
	a := string(t.AppliedName())
	if r.Intn(6) == 0 {
		return &node{raw: name, tab: a, mk: func() sqlf.FragmentBuilder { return t.AnonymousColumn(name) }}
	}
	return &node{raw: a + "." + name, tab: a, mk: func() sqlf.FragmentBuilder { return t.Column(name) }}
}

func tabNode(r *rand.Rand, t sqlb.TableAliased) *node {
	a := string(t.AppliedName())
	if r.Intn(2) == 0 {
		return &node{raw: a, tab: a, mk: func() sqlf.FragmentBuilder { return t }}
	}
	return &node{raw: a, tab: a, mk: func() sqlf.FragmentBuilder { return t.AppliedName() }}
}

func (g *qgen) failNode() *node {
	e := fmt.Errorf("failed %d", len(g.g.sent))
	g.g.sent = append(g.g.sent, e)
	return &node{fail: e}
}

// cond is a fragment over columns of the tables.
func (g *qgen) cond(ts []sqlb.TableAliased) *node {
	r := g.r
	n := &node{}
	var parts []string
	for k := r.Intn(3); k >= 0 && len(ts) > 0; k-- {
		t := ts[r.Intn(len(ts))]
		var c *node
		switch r.Intn(5) {
		case 0:
			c = &node{raw: "(#f1)", frags: []*node{colNode(r, t)}}
		case 1:
			c = &node{raw: "f($1, #f1)", args: []any{g.g.value()}, frags: []*node{colNode(r, t)}}
		case 2:
			c = tabNode(r, t)
			c = &node{raw: "#f1.z", frags: []*node{c}}
		default:
			c = colNode(r, t)
		}
		n.frags = append(n.frags, c)
		parts = append(parts, fmt.Sprintf("#f%d", len(n.frags)))
	}
	if g.o.fails > 0 && r.Intn(g.o.fails) == 0 {
		n.frags = append(n.frags, g.failNode())
		parts = append(parts, fmt.Sprintf("#f%d", len(n.frags)))
	}
	if g.o.depth > 0 && r.Intn(12) == 0 {
		sub := &qgen{r: r, g: g.g, o: qopts{noRecord: true, fails: g.o.fails}}
		n.frags = append(n.frags, &node{q: sub.query("s")})
		parts = append(parts, fmt.Sprintf("EXISTS (#f%d)", len(n.frags)))
	}
	for k := r.Intn(3); k > 0; k-- {
		n.args = append(n.args, g.g.value())
		parts = append(parts, fmt.Sprintf("$%d", len(n.args)))
	}
	r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	n.raw = strings.Join(parts, pick(r, " = ", " ", " < "))
	if len(parts) == 0 {
		n.raw = pick(r, "1=1", "true")
		if r.Intn(4) == 0 {
			n.raw = pick(r, "", " ")
		}
	}
	return n
}

func (g *qgen) column(ts []sqlb.TableAliased) *node {
	if g.r.Intn(3) > 0 {
		return colNode(g.r, ts[g.r.Intn(len(ts))])
	}
	n := g.cond(ts)
	n.mk = func() sqlf.FragmentBuilder { return sqlb.ExprColumn(n.fragment()) }
	return n
}

func (g *qgen) query(pre string) *qspec {
	r := g.r
	q := &qspec{distinct: r.Intn(2) == 0, dbg: r.Intn(30) == 0, nilWher: r.Intn(8) == 0}
	tab := func() sqlb.TableAliased {
		g.n++
		name := fmt.Sprintf("%st%d", pre, g.n)
		if g.o.ctes && r.Intn(2) == 0 {
			name = fmt.Sprintf("%sc%d", pre, 1+r.Intn(5))
		}
		al := fmt.Sprintf("%sa%d", pre, g.n)
		if r.Intn(2) == 0 && !strings.HasPrefix(name, pre+"c") {
			al = ""
		}
		if strings.HasPrefix(name, pre+"c") && r.Intn(3) == 0 {
			// without alias, if the name is free
			free := q.main.AppliedName() != sqlb.Table(name)
			for _, j := range q.joins {
				free = free && j.t.AppliedName() != sqlb.Table(name)
			}
			if free {
				al = ""
			}
		}
		return sqlb.NewTableAliased(sqlb.Table(name), sqlb.Table(al))
	}
	q.main = tab()
	ts := []sqlb.TableAliased{q.main}
	nj := r.Intn(4)
	if g.o.rich {
		nj = 1 + r.Intn(5)
	}
	for i := 0; i < nj; i++ {
		j := qjoin{kind: pick(r, "INNER JOIN", "LEFT JOIN", "RIGHT JOIN", "FULL JOIN", "CROSS JOIN"), t: tab()}
		if g.o.opt && r.Intn(3) > 0 {
			j.kind, j.opt = "LEFT JOIN", true
		}
		q.joins = append(q.joins, j)
		ts = append(ts, j.t)
	}
	undefined := g.o.undef > 0 && r.Intn(g.o.undef) == 0
	place := r.Intn(5)
	other := tab()
	for i := range q.joins {
		if q.joins[i].kind == "CROSS JOIN" {
			continue
		}
		if r.Intn(10) == 0 {
			continue // a nil condition
		}
		use := []sqlb.TableAliased{q.joins[i].t}
		if g.o.rich {
			// its own table and some others, also later ones
			use = append(use, ts[r.Intn(len(ts))])
			if r.Intn(2) == 0 {
				use = append(use, ts[r.Intn(len(ts))])
			}
		} else {
			use = append(use, q.main)
		}
		if undefined && place == 0 && r.Intn(2) == 0 {
			use = append(use, other, other)
		}
		q.joins[i].on = g.cond(use)
	}
	some := ts
	if g.o.opt {
		some = ts[:1+r.Intn(len(ts))]
		if r.Intn(2) == 0 {
			some = []sqlb.TableAliased{ts[0], ts[r.Intn(len(ts))]}
		}
	}
	pickTs := func(p int) []sqlb.TableAliased {
		if undefined && place == p {
			return []sqlb.TableAliased{other}
		}
		return some
	}
	if g.o.marker {
		q.sel = append(q.sel, &node{raw: "MARK", mk: func() sqlf.FragmentBuilder { return sqlb.Table("").AnonymousColumn("MARK") }})
	}
	for k := r.Intn(3); k >= 0; k-- {
		q.sel = append(q.sel, g.column(pickTs(1)))
	}
	for k := r.Intn(3); k > 0; k-- {
		q.where = append(q.where, g.cond(pickTs(2)))
	}
	if r.Intn(3) == 0 {
		for k := r.Intn(3); k >= 0; k-- {
			q.group = append(q.group, g.column(pickTs(3)))
		}
	}
	if r.Intn(2) == 0 {
		for k := r.Intn(3); k >= 0; k-- {
			c := g.column(pickTs(4))
			if ps, err := c.build(nil); err == nil && emptyPieces(trimPieces(ps)) {
				continue
			}
			q.order = append(q.order, qorder{c, sqlb.Order(r.Intn(6))})
		}
	}
	if r.Intn(3) == 0 {
		q.limit = int64(r.Intn(4)) - 1
	}
	if r.Intn(3) == 0 {
		q.offset = int64(r.Intn(4)) - 1
	}
	if g.o.depth > 0 && r.Intn(3) == 0 {
		for k := r.Intn(3); k >= 0; k-- {
			if r.Intn(3) == 0 {
				q.unions = append(q.unions, g.cond(ts))
				continue
			}
			sub := &qgen{r: r, g: g.g, o: qopts{noRecord: true, fails: g.o.fails}}
			q.unions = append(q.unions, &node{q: sub.query(pre + "u")})
		}
	}
	if g.o.ctes {
		names := r.Perm(5)[:r.Intn(6)]
		for _, k := range names {
			c := qcte{name: fmt.Sprintf("%sc%d", pre, k+1)}
			if g.o.depth > 0 && r.Intn(2) == 0 {
				sub := &qgen{r: r, g: g.g, o: qopts{noRecord: true, fails: g.o.fails}}
				c.b = &node{q: sub.query(pre + "w")}
			} else {
				c.b = &node{raw: "SELECT $1", args: []any{g.g.value()}}
				if g.o.fails > 0 && r.Intn(g.o.fails) == 0 {
					c.b = g.failNode()
				}
			}
			for _, d := range r.Perm(6)[:r.Intn(4)] {
				c.deps = append(c.deps, fmt.Sprintf("%sc%d", pre, d+1)) // c6 is no CTE, a cycle is possible
			}
			q.ctes = append(q.ctes, c)
		}
	}
	if g.o.broken > 0 && r.Intn(g.o.broken) == 0 {
		switch r.Intn(4) {
		case 0:
			q.noMain = true
		case 1:
			q.emptyJoin = true
		case 2:
			q.order = append(q.order, qorder{g.column(ts), sqlb.Order(6 + r.Intn(3))})
		case 3:
			q.sel = nil
			if r.Intn(2) == 0 {
				q.sel = []*node{{raw: "", mk: func() sqlf.FragmentBuilder { return sqlb.Table("").AnonymousColumn("") }}}
			}
		}
	}
	return q
}

func newQuery(r *rand.Rand, o qopts) *qspec {
	g := &qgen{r: r, g: &gen{r: r, o: genOpts{dup: r.Intn(2) == 0}}, o: o}
	return g.query("")
}

// ---------------------------------------------------------------- properties

func queryArgsCase(r *rand.Rand, i int) *Case {
	q := newQuery(r, qopts{depth: 1, ctes: r.Intn(2) == 0})
	style := styleOf(r)
	ps, re := q.pieces(nil)
	return &Case{Desc: q.describe() + " " + styleName(style), Non: re == nil && len(pieceVals(ps)) > 0, Run: func() error {
		s, args, err := q.real().BuildQuery(style)
		if err != nil {
			return nil
		}
		den, e := denoted(s, args, style)
		if e != nil {
			return fmt.Errorf("query %q args %#v: %v", s, args, e)
		}
		if re == nil && !sameVals(den, pieceVals(ps)) {
			return fmt.Errorf("query %q args %#v: the placeholders denote %#v, want %#v", s, args, den, pieceVals(ps))
		}
		return nil
	}}
}

func queryErrorCase(r *rand.Rand, i int) *Case {
	q := newQuery(r, qopts{depth: 1, ctes: r.Intn(2) == 0, fails: 6})
	style := styleOf(r)
	_, re := q.pieces(nil)
	return &Case{Desc: q.describe() + " " + styleName(style), Non: re != nil, Run: func() error {
		s, args, err := q.real().BuildQuery(style)
		if re == nil {
			return nil
		}
		if err == nil {
			return fmt.Errorf("built %q %#v, want an error (%v)", s, args, re)
		}
		if s != "" || args != nil {
			return fmt.Errorf("failed with query %q and args %#v, want them empty", s, args)
		}
		if re.cause == nil {
			return nil
		}
		// any of the failing parts may be reported
		for _, c := range q.causes() {
			if errors.Is(err, c) {
				return nil
			}
		}
		return fmt.Errorf("error %v does not wrap the cause %v", err, re.cause)
	}}
}

func (q *qspec) causes() []error {
	var out []error
	var walk func(n *node)
	var walkQ func(q *qspec)
	walk = func(n *node) {
		if n == nil {
			return
		}
		if n.fail != nil {
			out = append(out, n.fail)
		}
		for _, f := range n.frags {
			walk(f)
		}
		if n.q != nil {
			walkQ(n.q)
		}
	}
	walkQ = func(q *qspec) {
		for _, l := range [][]*node{q.sel, q.where, q.group, q.unions} {
			for _, n := range l {
				walk(n)
			}
		}
		for _, o := range q.order {
			walk(o.c)
		}
		for _, j := range q.joins {
			walk(j.on)
		}
		for _, c := range q.ctes {
			walk(c.b)
		}
	}
	walkQ(q)
	return out
}

func rebuildQueryCase(r *rand.Rand, i int) *Case {
	q := newQuery(r, qopts{depth: 1, ctes: r.Intn(2) == 0, opt: r.Intn(2) == 0, rich: r.Intn(2) == 0})
	style := styleOf(r)
	if r.Intn(4) == 0 {
		return callerSlices(r)
	}
	return &Case{Desc: q.describe() + " " + styleName(style) + " built 3 times", Non: true, Run: func() error {
		b, mine := q.real2()
		var before []string
		for _, f := range mine {
			before = append(before, snapshot(f))
		}
		q1, a1, e1 := b.BuildQuery(style)
		c1 := append([]any(nil), a1...)
		for k := 0; k < 2; k++ {
			if k == 1 {
				b.BuildQuery(1 - style)
			}
			q2, a2, e2 := b.BuildQuery(style)
			if q1 != q2 || !sameVals(c1, a2) || (e1 == nil) != (e2 == nil) {
				return fmt.Errorf("first %q %#v %v, then %q %#v %v", q1, c1, e1, q2, a2, e2)
			}
		}
		if !sameVals(a1, c1) {
			return fmt.Errorf("the args returned first changed from %#v to %#v", c1, a1)
		}
		for k, f := range mine {
			if s := snapshot(f); s != before[k] {
				return fmt.Errorf("a fragment of the caller changed from %s to %s", before[k], s)
			}
		}
		// a builder that was built before gives what a new one gives
		if q.distinct {
			return nil
		}
		b.Distinct()
		q3, a3, e3 := b.BuildQuery(style)
		cp := *q
		cp.distinct = true
		b4, _ := cp.real2()
		q4, a4, e4 := b4.BuildQuery(style)
		if q3 != q4 || !sameVals(a3, a4) || (e3 == nil) != (e4 == nil) {
			return fmt.Errorf("built again after Distinct(): %q %#v %v, a new builder gives %q %#v %v", q3, a3, e3, q4, a4, e4)
		}
		return nil
	}}
}

// callerSlices: a builder never writes to the slices it was given.
func callerSlices(r *rand.Rand) *Case {
	n, spare := 1+r.Intn(3), 1+r.Intn(3)
	what := pick(r, "select", "group", "union", "on", "where", "deps")
	return &Case{Desc: fmt.Sprintf("two builders given the same %s slice of len %d, cap %d", what, n, n+spare), Non: true, Run: func() error {
		cols := make([]*sqlb.Column, n+spare)
		us := make([]sqlf.FragmentBuilder, n+spare)
		deps := make([]sqlb.Table, n+spare)
		t := sqlb.NewTableAliased("t", "")
		for i := range cols {
			cols[i] = t.Column(fmt.Sprint("c", i))
			us[i] = sqlf.F(fmt.Sprint("u", i))
			deps[i] = sqlb.Table(fmt.Sprint("d", i))
		}
		on := sqlf.Ff("x", us[:n]...)
		on.Raw = "#join('#f', ' ')"
		mk := func(tag string) *sqlb.QueryBuilder {
			b := sqlb.NewQueryBuilder().From(t).Select(t.Column("z"))
			switch what {
			case "select":
				b.Select(cols[:n]...)
				b.OrderBy(t.Column(tag), sqlb.Asc)
				b.Distinct()
			case "group":
				b.GroupBy(cols[:n]...)
				b.GroupBy(t.Column(tag))
			case "union":
				b.Union(us[:n]...)
				b.Union(sqlf.F(tag))
			case "on":
				b.InnerJoin(sqlb.NewTableAliased("j", ""), on)
				b.LeftJoin(sqlb.NewTableAliased("j", ""), on)
				b.CrossJoin(sqlb.NewTableAliased("k", ""))
			case "where":
				b.Where(on)
				b.Where(on)
				b.Where2(t.Column(tag), "=", 1)
			case "deps":
				b.With("t", sqlf.F(tag), deps[:n]...)
				b.With("d0", sqlf.F(tag), deps[:n]...)
			}
			return b
		}
		alone, _, e0 := mk("one").BuildQuery(0)
		b1 := mk("one")
		b2 := mk("two")
		q1, _, e1 := b1.BuildQuery(0)
		_, _, _ = b2.BuildQuery(0)
		q3, _, e3 := b1.BuildQuery(0)
		if q1 != alone || q3 != alone || (e0 != nil) != (e1 != nil) || (e0 != nil) != (e3 != nil) {
			return fmt.Errorf("built %q %v, want %q %v", q1, e1, alone, e0)
		}
		for i := range cols {
			c, _, err := sqlf.Ff("#f1", cols[i]).BuildQuery(0)
			if err != nil || c != fmt.Sprint("t.c", i) {
				return fmt.Errorf("column %d of the caller became %q", i, c)
			}
			if u := us[i].(*sqlf.Fragment).Raw; u != fmt.Sprint("u", i) {
				return fmt.Errorf("union %d of the caller became %q", i, u)
			}
			if deps[i] != sqlb.Table(fmt.Sprint("d", i)) {
				return fmt.Errorf("dep %d of the caller became %q", i, deps[i])
			}
		}
		return nil
	}}
}

// left reads the joins that were left out from the query.
func (q *qspec) left(s string) map[int]bool {
	d := map[int]bool{}
	for i, j := range q.joins {
		n := " JOIN " + named(j.t) + " "
		here := s + " "
		for {
			k := strings.Index(here, n)
			if k < 0 {
				d[i] = true
				break
			}
			here = here[k+len(n):]
			if j.t.Alias != "" || !strings.HasPrefix(here, "AS ") {
				break
			}
		}
	}
	return d
}

func init() {
	const rule = "random query builders (joins of every kind, CTEs with dependencies, unions, nested queries, expression columns, values everywhere); non-trivial: always"

	props["C13"] = &Prop{N: 30000, Rule: rule, Gen: func(r *rand.Rand, i int) *Case {
		q := newQuery(r, qopts{depth: 1, ctes: r.Intn(2) == 0, opt: r.Intn(3) == 0, broken: 8})
		style := styleOf(r)
		return &Case{Desc: q.describe() + " " + styleName(style), Non: true, Run: func() error {
			s, args, err := q.real().BuildQuery(style)
			first := ""
			for _, c := range q.choices() {
				ps, re := q.pieces(c)
				if re != nil {
					if err == nil {
						return fmt.Errorf("built %q, want an error (%v)", s, re)
					}
					return nil
				}
				want, wargs := render(ps, style)
				if err == nil && s == want && sameVals(args, wargs) {
					return nil
				}
				if first == "" {
					first = fmt.Sprintf("%q %#v", want, wargs)
				}
			}
			return fmt.Errorf("built %q %#v %v, want %s", s, args, err, first)
		}}
	}}

	props["C14"] = &Prop{N: 40000, Rule: "random query builders with many optional joins whose conditions refer to each other; non-trivial: DISTINCT with an optional join", Gen: func(r *rand.Rand, i int) *Case {
		q := newQuery(r, qopts{opt: true, rich: true, undef: 4, ctes: r.Intn(4) == 0})
		if r.Intn(3) > 0 {
			q.distinct = true
		}
		style := styleOf(r)
		non := false
		for k := range q.joins {
			non = non || q.optional(k)
		}
		return &Case{Desc: q.describe() + " " + styleName(style), Non: non, Run: func() error {
			s, _, err := q.real().BuildQuery(style)
			if err != nil {
				if _, u := q.judge(nil); u == "" {
					return fmt.Errorf("failed: %v", err)
				}
				return nil
			}
			bad, u := q.judge(q.left(s))
			if bad != "" {
				return fmt.Errorf("built %q: %s", s, bad)
			}
			if u != "" {
				return fmt.Errorf("built %q, which refers to %s that was never joined", s, u)
			}
			return nil
		}}
	}}

	props["C15"] = &Prop{N: 30000, Rule: "random query builders with up to 5 CTEs with dependencies (also cyclic and unknown ones) and tables of these names; non-trivial: a CTE is declared", Gen: func(r *rand.Rand, i int) *Case {
		q := newQuery(r, qopts{depth: 0, opt: r.Intn(2) == 0, ctes: true, rich: r.Intn(2) == 0, marker: true})
		style := styleOf(r)
		return &Case{Desc: q.describe() + " " + styleName(style), Non: len(q.ctes) > 0, Run: func() error {
			s, _, err := q.real().BuildQuery(style)
			if err != nil {
				return fmt.Errorf("failed: %v", err)
			}
			k := strings.Index(s, "SELECT MARK")
			if k2 := strings.Index(s, "SELECT DISTINCT MARK"); k2 >= 0 {
				k = k2
			}
			if k < 0 {
				return fmt.Errorf("built %q without the selected column MARK", s)
			}
			ps, re := q.ctePieces(q.left(s[k:]))
			if re != nil {
				return nil
			}
			want, _ := render(ps, style)
			if got := strings.TrimSpace(s[:k]); got != want {
				return fmt.Errorf("built %q: the WITH clause is %q, want %q", s, got, want)
			}
			return nil
		}}
	}}

	props["C19"] = &Prop{N: 40000, Rule: "random sequences of From and joins over few names, and columns of tables; non-trivial: at least two calls", Gen: func(r *rand.Rand, i int) *Case {
		if i%5 == 0 {
			return columnCase(r)
		}
		names := []sqlb.Table{"a", "b", "c", "d"}
		tab := func() sqlb.TableAliased {
			t := sqlb.NewTableAliased(names[r.Intn(4)], "")
			if r.Intn(2) == 0 {
				t = t.WithAlias(names[r.Intn(4)])
			}
			if r.Intn(60) == 0 {
				t.Name = ""
			}
			return t
		}
		type op struct {
			from bool
			j    qjoin
		}
		var ops []op
		var ds []string
		for k := 1 + r.Intn(7); k > 0; k-- {
			o := op{from: r.Intn(4) == 0, j: qjoin{t: tab(), kind: pick(r, "INNER JOIN", "LEFT JOIN", "RIGHT JOIN", "FULL JOIN", "CROSS JOIN")}}
			if r.Intn(5) == 0 {
				o.j.kind, o.j.opt = "LEFT JOIN", true
			}
			if o.j.kind != "CROSS JOIN" && r.Intn(6) > 0 {
				o.j.on = &node{raw: fmt.Sprintf("on%d", k)}
			}
			ops = append(ops, o)
			if o.from {
				ds = append(ds, fmt.Sprintf("From(%q %q)", o.j.t.Name, o.j.t.Alias))
			} else {
				ds = append(ds, fmt.Sprintf("%s(%q %q, %s, optional=%v)", o.j.kind, o.j.t.Name, o.j.t.Alias, o.j.on.describe(), o.j.opt))
			}
		}
		hasFrom := false
		for _, o := range ops {
			hasFrom = hasFrom || o.from
		}
		if !hasFrom && r.Intn(8) > 0 {
			ops[r.Intn(len(ops))].from = true
			ds = nil
			for _, o := range ops {
				ds = append(ds, fmt.Sprintf("%v %s(%q %q)", o.from, o.j.kind, o.j.t.Name, o.j.t.Alias))
			}
		}
		distinct := r.Intn(3) == 0
		return &Case{Desc: strings.Join(ds, " . "), Non: len(ops) > 1, Run: func() error {
			b := sqlb.NewQueryBuilder().Select(sqlb.Table("").AnonymousColumn("1"))
			var main *sqlb.TableAliased
			var js []qjoin
			bad := ""
			for n, o := range ops {
				var on *sqlf.Fragment
				if o.j.on != nil {
					on = o.j.on.fragment()
				}
				name := o.j.t.AppliedName()
				at := -1
				for k, j := range js {
					if j.t.AppliedName() == name {
						at = k
					}
				}
				t := o.j.t
				if o.from {
					b.From(t)
					switch {
					case t.Name == "":
						bad = "an empty name"
					case at >= 0:
						bad = "the main table has the name of a join"
					default:
						main = &t
					}
				} else {
					doJoin(b, o.j, on)
					switch {
					case t.Name == "":
						bad = "an empty name"
					case main != nil && main.AppliedName() == name:
						bad = "a join has the name of the main table"
					case at >= 0:
						js[at] = o.j
					default:
						js = append(js, o.j)
					}
				}
				s, _, err := b.BuildQuery(0)
				if bad != "" {
					if err == nil {
						return fmt.Errorf("after call %d: built %q, want an error (%s)", n+1, s, bad)
					}
					continue
				}
				if main == nil {
					if err == nil {
						return fmt.Errorf("after call %d: built %q without a main table", n+1, s)
					}
					continue
				}
				want := "SELECT 1 FROM " + named(*main)
				for _, j := range js {
					want += " " + j.kind + " " + named(j.t)
					if j.on != nil && j.kind != "CROSS JOIN" {
						want += " ON " + j.on.raw
					}
				}
				if err != nil || s != want {
					return fmt.Errorf("after call %d: built %q %v, want %q", n+1, s, err, want)
				}
			}
			if bad != "" || main == nil {
				return nil
			}
			// a column of each table finds its table
			cs := []*sqlb.Column{main.Column("x")}
			want := string(main.AppliedName()) + ".x"
			for _, j := range js {
				cs = append(cs, j.t.Column("x"))
				want += ", " + string(j.t.AppliedName()) + ".x"
			}
			want = "SELECT " + want + " FROM " + named(*main)
			if distinct {
				b.Distinct()
				want = strings.Replace(want, "SELECT ", "SELECT DISTINCT ", 1)
			}
			for _, j := range js {
				want += " " + j.kind + " " + named(j.t)
				if j.on != nil && j.kind != "CROSS JOIN" {
					want += " ON " + j.on.raw
				}
			}
			s, _, err := b.Select(cs...).BuildQuery(0)
			if err != nil || s != want {
				return fmt.Errorf("with a column of each table: built %q %v, want %q", s, err, want)
			}
			return nil
		}}
	}}
}

func columnCase(r *rand.Rand) *Case {
	t := sqlb.NewTableAliased(sqlb.Table(pick(r, "t", "s.t", "T x")), sqlb.Table(pick(r, "", "a", "al")))
	if r.Intn(3) == 0 {
		t = t.WithAlias(sqlb.Table(pick(r, "", "b")))
	}
	plain := r.Intn(2) == 0
	var names []string
	for k := r.Intn(4); k >= 0; k-- {
		names = append(names, pick(r, "id", "name", "*", "x y", "é"))
	}
	empty := r.Intn(8) == 0
	return &Case{Desc: fmt.Sprintf("columns %q of %q %q", names, t.Name, t.Alias), Non: true, Run: func() error {
		ap := t.Name
		if t.Alias != "" {
			ap = t.Alias
		}
		if t.AppliedName() != ap {
			return fmt.Errorf("AppliedName() is %q, want %q", t.AppliedName(), ap)
		}
		var cs, as []*sqlb.Column
		var c1, a1 *sqlb.Column
		if plain {
			cs, as, c1, a1 = ap.Columns(names...), ap.AnonymousColumns(names...), ap.Column(names[0]), ap.AnonymousColumn(names[0])
		} else {
			cs, as, c1, a1 = t.Columns(names...), t.AnonymousColumns(names...), t.Column(names[0]), t.AnonymousColumn(names[0])
		}
		text := func(b sqlf.FragmentBuilder) string {
			s, err := b.BuildFragment(sqlf.NewContext(0))
			if err != nil {
				return "error: " + err.Error()
			}
			return s
		}
		if len(cs) != len(names) || len(as) != len(names) {
			return fmt.Errorf("%d and %d columns, want %d", len(cs), len(as), len(names))
		}
		for k, n := range names {
			if g, w := text(cs[k]), string(ap)+"."+n; g != w {
				return fmt.Errorf("column %q is rendered as %q, want %q", n, g, w)
			}
			if g := text(as[k]); g != n {
				return fmt.Errorf("anonymous column %q is rendered as %q", n, g)
			}
		}
		if g, w := text(c1), string(ap)+"."+names[0]; g != w {
			return fmt.Errorf("column %q is rendered as %q, want %q", names[0], g, w)
		}
		if g := text(a1); g != names[0] {
			return fmt.Errorf("anonymous column %q is rendered as %q", names[0], g)
		}
		if g := text(t); g != string(ap) {
			return fmt.Errorf("the table is rendered as %q, want %q", g, ap)
		}
		if g := text(t.Name); g != string(t.Name) {
			return fmt.Errorf("the table is rendered as %q, want %q", g, t.Name)
		}
		if empty {
			if g := text(sqlb.Table("").Column(names[0])); g != names[0] {
				return fmt.Errorf("the column %q without table is rendered as %q", names[0], g)
			}
		}
		return nil
	}}
}
