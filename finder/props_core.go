package main

import (
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/syntax"
)

func styleOf(r *rand.Rand) syntax.BindVarStyle {
	if r.Intn(2) == 0 {
		return syntax.Dollar
	}
	return syntax.Question
}

func styleName(s syntax.BindVarStyle) string {
	if s == syntax.Dollar {
		return "Dollar"
	}
	return "Question"
}

func desc(n *node, s syntax.BindVarStyle) string {
	return "Fragment" + n.describe() + ".BuildQuery(" + styleName(s) + ")"
}

var phRe = regexp.MustCompile(`\$[0-9]+|\?`)

// denoted lists the values the placeholders of a query denote.
func denoted(query string, args []any, style syntax.BindVarStyle) ([]any, error) {
	var out []any
	q := 0
	for _, p := range phRe.FindAllString(query, -1) {
		if (p == "?") != (style == syntax.Question) {
			return nil, fmt.Errorf("placeholder %s in style %s", p, styleName(style))
		}
		k := 0
		if p == "?" {
			q++
			k = q
		} else {
			k, _ = strconv.Atoi(p[1:])
		}
		if k < 1 || k > len(args) {
			return nil, fmt.Errorf("placeholder %s (number %d) with %d args", p, k, len(args))
		}
		out = append(out, args[k-1])
	}
	if style == syntax.Question && q != len(args) {
		return nil, fmt.Errorf("%d placeholders for %d args", q, len(args))
	}
	return out, nil
}

func pieceVals(ps []piece) []any {
	var out []any
	for _, p := range ps {
		if p.isV {
			out = append(out, p.val)
		}
	}
	return out
}

func init() {
	const rule = "random trees of fragments (depth up to 4) with args, references of every kind, #join and custom builders; non-trivial: the reference builder predicts a success with at least one value, or a failure"
	size := func(i int) int { return 1 + (i*4/20000)%4 }

	props["C04"] = &Prop{N: 40000, Rule: rule, Gen: func(r *rand.Rand, i int) *Case {
		if i%7 == 6 {
			return queryArgsCase(r, i)
		}
		g := &gen{r: r, o: genOpts{maxDepth: size(i), dup: r.Intn(2) == 0, joins: 4, prefix: r.Intn(3) == 0, custom: true}}
		n := g.node(0)
		style := styleOf(r)
		return &Case{Desc: desc(n, style), Non: true, Run: func() error {
			ps, re := n.build(nil)
			q, args, err := n.fragment().BuildQuery(style)
			if err != nil {
				return nil
			}
			den, e := denoted(q, args, style)
			if e != nil {
				return fmt.Errorf("query %q args %#v: %v", q, args, e)
			}
			if re == nil && !sameVals(den, pieceVals(ps)) {
				return fmt.Errorf("query %q args %#v: the placeholders denote %#v, want %#v", q, args, den, pieceVals(ps))
			}
			return nil
		}}
	}}

	props["C05"] = &Prop{N: 30000, Rule: "random sequences of committed values of many types (hashable or not, repeated or not); non-trivial: at least one value", Gen: func(r *rand.Rand, i int) *Case {
		style := styleOf(r)
		k := 1 + r.Intn(1+min(i/200, 14))
		var vals []any
		for j := 0; j < k; j++ {
			vals = append(vals, storeVal(r))
		}
		return &Case{Desc: fmt.Sprintf("%s context: CommitArg of %#v", styleName(style), vals), Non: true, Run: func() error { return storeCheck(style, vals, r.Intn(2) == 0) }}
	}}

	props["C06"] = &Prop{N: 40000, Rule: rule, Gen: func(r *rand.Rand, i int) *Case {
		o := genOpts{maxDepth: size(i), joins: 4}
		if r.Intn(2) == 0 {
			o.mistakes = 4
		}
		g := &gen{r: r, o: o}
		n := g.node(0)
		style := styleOf(r)
		return &Case{Desc: desc(n, style), Non: true, Run: func() error {
			want, wargs, werr, got, gargs, gerr := buildBoth(n, style)
			if werr != nil {
				if werr.kind == "range" && gerr == nil {
					return fmt.Errorf("built %q %#v, want an error (%v)", got, gargs, werr)
				}
				return nil
			}
			if gerr != nil {
				return fmt.Errorf("failed (%v), want %q %#v", gerr, want, wargs)
			}
			if got != want || !sameVals(gargs, wargs) {
				return fmt.Errorf("built %q %#v, want %q %#v", got, gargs, want, wargs)
			}
			return nil
		}}
	}}

	props["C07"] = &Prop{N: 40000, Rule: rule, Gen: func(r *rand.Rand, i int) *Case {
		o := genOpts{maxDepth: size(i), joins: 4}
		if r.Intn(2) == 0 {
			o.unused = 4
		}
		g := &gen{r: r, o: o}
		n := g.node(0)
		style := styleOf(r)
		return &Case{Desc: desc(n, style), Non: true, Run: func() error {
			for k := 0; k < 2; k++ {
				_, _, werr, got, gargs, gerr := buildBoth(n, style)
				if werr != nil && werr.kind == "unused" && gerr == nil {
					return fmt.Errorf("built %q %#v, want an error (%v)", got, gargs, werr)
				}
				if werr == nil && gerr != nil {
					return fmt.Errorf("failed (%v), though every item is used", gerr)
				}
			}
			// the same fragment built twice: usage is of one build
			f := n.fragment()
			_, _, e1 := f.BuildQuery(style)
			_, _, e2 := f.BuildQuery(style)
			if (e1 == nil) != (e2 == nil) {
				return fmt.Errorf("first build: %v, second build: %v", e1, e2)
			}
			return nil
		}}
	}}

	props["C08"] = &Prop{N: 40000, Rule: "random trees of fragments with builders and functions that fail; non-trivial: the reference predicts that one of them is built", Gen: func(r *rand.Rand, i int) *Case {
		if i%5 == 4 {
			return queryErrorCase(r, i)
		}
		if i%5 == 3 {
			return funcErrorCase(r, i)
		}
		g := &gen{r: r, o: genOpts{maxDepth: size(i), joins: 4, fails: 4, mistakes: 0}}
		n := g.node(0)
		style := styleOf(r)
		_, pre := n.build(nil)
		return &Case{Desc: desc(n, style), Non: pre != nil, Run: func() error {
			_, _, werr, got, gargs, gerr := buildBoth(n, style)
			if werr == nil {
				return nil
			}
			if gerr == nil {
				return fmt.Errorf("built %q %#v, want an error (%v)", got, gargs, werr)
			}
			if werr.cause != nil && !errors.Is(gerr, werr.cause) {
				return fmt.Errorf("error %v does not wrap the cause %v", gerr, werr.cause)
			}
			if got != "" || gargs != nil {
				return fmt.Errorf("failed with query %q and args %#v, want them empty", got, gargs)
			}
			ctx := sqlf.NewContext(style)
			s, err := n.fragment().BuildFragment(ctx)
			if err == nil || s != "" {
				return fmt.Errorf("BuildFragment: %q, %v", s, err)
			}
			return nil
		}}
	}}

	props["C09"] = &Prop{N: 40000, Rule: "one fragment with up to 5 args and fragments (some empty) and one #join over them with every kind of range and template; non-trivial: always", Gen: func(r *rand.Rand, i int) *Case {
		return joinCase(r)
	}}

	props["C11"] = &Prop{N: 30000, Rule: "fragments with blank, non-blank and nested bodies, with and without prefix and suffix; non-trivial: a prefix or a suffix is set", Gen: func(r *rand.Rand, i int) *Case {
		n := &node{raw: pick(r, "", " ", "\n\t ", "a", " a ", "\na b\n", "\v x\f", "#f1", " #f1 ", "#join('#f', ', ')", "#join('#f', ', ') #f2"[:17], "$1", " $1", "#f1#f2", " é "),
			prefix: pick(r, "", "WHERE", " p ", "(", "é", " "), suffix: pick(r, "", "LIMIT 1", " s ", ")", "\n")}
		for strings.Contains(n.raw, fmt.Sprintf("#f%d", len(n.frags)+1)) || strings.Contains(n.raw, "#f'") && len(n.frags) < 2 {
			n.frags = append(n.frags, &node{raw: pick(r, "", " ", "x", " y "), prefix: pick(r, "", "P"), suffix: pick(r, "", "S")})
		}
		if strings.Contains(n.raw, "$1") {
			n.args = []any{7}
		}
		style := styleOf(r)
		return &Case{Desc: desc(n, style), Non: n.prefix+n.suffix != "", Run: func() error {
			want, _, werr, got, _, gerr := buildBoth(n, style)
			if werr != nil {
				return nil
			}
			if gerr != nil {
				return fmt.Errorf("failed: %v", gerr)
			}
			if got != want {
				return fmt.Errorf("built %q, want %q", got, want)
			}
			return nil
		}}
	}}

	props["C12"] = &Prop{N: 30000, Rule: "fragments and query builders built repeatedly, with snapshots of everything the caller gave; non-trivial: always", Gen: func(r *rand.Rand, i int) *Case {
		switch i % 4 {
		case 0:
			return appendCase(r)
		case 1:
			return rebuildQueryCase(r, i)
		}
		g := &gen{r: r, o: genOpts{maxDepth: size(i), joins: 4, dup: true, prefix: true, mistakes: 8}}
		n := g.node(0)
		style := styleOf(r)
		return &Case{Desc: desc(n, style) + " built 3 times", Non: true, Run: func() error {
			f := n.fragment()
			before := snapshot(f)
			q1, a1, e1 := f.BuildQuery(style)
			c1 := append([]any(nil), a1...)
			for k := 0; k < 2; k++ {
				if k == 1 {
					f.BuildQuery(1 - style)
				}
				q2, a2, e2 := f.BuildQuery(style)
				if q1 != q2 || !sameVals(c1, a2) || (e1 == nil) != (e2 == nil) {
					return fmt.Errorf("first %q %#v %v, then %q %#v %v", q1, c1, e1, q2, a2, e2)
				}
			}
			if !sameVals(a1, c1) {
				return fmt.Errorf("the args returned first changed from %#v to %#v", c1, a1)
			}
			if after := snapshot(f); after != before {
				return fmt.Errorf("the fragment changed from %s to %s", before, after)
			}
			return nil
		}}
	}}
}

func snapshot(f *sqlf.Fragment) string {
	if f == nil {
		return "nil"
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "{%q %q %q %#v/%d [", f.Raw, f.Prefix, f.Suffix, f.Args, cap(f.Args))
	for _, c := range f.Fragments {
		if g, ok := c.(*sqlf.Fragment); ok {
			sb.WriteString(snapshot(g))
		} else {
			fmt.Fprintf(&sb, "%#v", c)
		}
	}
	fmt.Fprintf(&sb, "]/%d}", cap(f.Fragments))
	return sb.String()
}

type namedInt int
type pair struct {
	A int
	B string
}
type holder struct{ V any }

var ptrA, ptrB = new(int), new(int)

func storeVal(r *rand.Rand) any {
	switch r.Intn(18) {
	case 0:
		return nil
	case 1:
		return []byte{byte(r.Intn(2))}
	case 2:
		return []int{r.Intn(2)}
	case 3:
		return map[string]int{"a": r.Intn(2)}
	case 4:
		return pick[any](r, ptrA, ptrB)
	case 5:
		return pair{r.Intn(2), pick(r, "", "x")}
	case 6:
		return holder{pick[any](r, 1, []int{1}, nil)}
	case 7:
		return [2]any{pick[any](r, 1, 2), pick[any](r, 1, []byte("x"))}
	case 8:
		return namedInt(r.Intn(3))
	case 9:
		return int64(r.Intn(3))
	case 10:
		return pick[any](r, true, false)
	case 11:
		return pick[any](r, 1.0, 2.5, float32(1))
	case 12:
		return uint8(r.Intn(3))
	case 13:
		return func() {}
	case 14:
		return errBoom
	}
	return pick[any](r, "", "a", "b", 0, 1, 2, 3)
}

func sameStored(a, b any) bool {
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if a != nil && reflect.TypeOf(a).Kind() == reflect.Func {
		return true
	}
	if a != nil && reflect.TypeOf(a).Kind() == reflect.Pointer {
		return a == b
	}
	return reflect.DeepEqual(a, b)
}

func storeCheck(style syntax.BindVarStyle, vals []any, nested bool) error {
	ctx := sqlf.NewContext(style)
	use := ctx
	if nested {
		c, err := sqlf.ContextWithFuncs(ctx, sqlf.FuncMap{})
		if err != nil {
			return err
		}
		use = c
	}
	var model []any
	for k, v := range vals {
		ph := use.CommitArg(v)
		want := "?"
		if style == syntax.Dollar {
			n := 0
			for j, m := range model {
				if equalVals(m, v) {
					n = j + 1
					break
				}
			}
			if n == 0 {
				model = append(model, v)
				n = len(model)
			}
			want = "$" + strconv.Itoa(n)
		} else {
			model = append(model, v)
		}
		if ph != want {
			return fmt.Errorf("commit %d of %#v answered %s, want %s", k+1, v, ph, want)
		}
		got := ctx.Args()
		if len(got) != len(model) {
			return fmt.Errorf("after commit %d: args %#v, want %#v", k+1, got, model)
		}
		for j := range got {
			if !sameStored(got[j], model[j]) {
				return fmt.Errorf("after commit %d: args %#v, want %#v", k+1, got, model)
			}
		}
	}
	return nil
}

func joinCase(r *rand.Rand) *Case {
	na, nf := r.Intn(5), r.Intn(5)
	n := &node{}
	for i := 0; i < na; i++ {
		n.args = append(n.args, fmt.Sprintf("a%d", r.Intn(6)))
	}
	for i := 0; i < nf; i++ {
		n.frags = append(n.frags, &node{raw: pick(r, "x", "y", "", " ", "z z", "'q'")})
		if r.Intn(4) == 0 {
			n.frags[i] = &node{raw: "w?", args: []any{100 + i}}
		}
		if r.Intn(12) == 0 {
			n.frags[i] = &node{raw: "$1 #f1", args: []any{1}} // fails inside
		}
	}
	esc := func(s string) string { return strings.ReplaceAll(s, "'", "''") }
	tm := pick(r, "#f", "#fragment", "#arg", "(#f)", "x#f y", "#f=#arg", "#arg:#f", "#f#f", "f", "", "#f1", "#join", "#nope", "#arg ?", "'#f'", "$1#f", "#f'#arg'", "#f1#arg", "#arg$1", "?#f")
	if r.Intn(3) > 0 {
		tm = pick(r, "#f", "#arg", "#fragment", "<#f>", "#f=#arg")
	}
	s := "#join('" + esc(tm) + "', '" + esc(pick(r, ", ", "", " AND ", ";", "'", "#"+"f1"[:0]+"-"))
	s += "'"
	switch r.Intn(4) {
	case 0:
		s += fmt.Sprintf(", %d", 1+r.Intn(6))
	case 1:
		s += fmt.Sprintf(", %d, %d", 1+r.Intn(5), 1+r.Intn(6))
	case 2:
		if r.Intn(6) == 0 {
			s += ", 1, 2, 3"
		}
	}
	s += ")"
	n.raw = pick(r, "", "[") + s + pick(r, "", "]")
	// everything else is referenced, so that only the join can fail
	for i := range n.args {
		n.raw += fmt.Sprintf("|#arg%d", i+1)
	}
	for i, f := range n.frags {
		if f.raw == "$1 #f1" {
			// only the join may build it: it must not be built, or fails
			if r.Intn(2) == 0 {
				n.frags[i] = &node{raw: "k"}
			}
		}
		n.raw += fmt.Sprintf("|#f%d", i+1)
	}
	style := styleOf(r)
	return &Case{Desc: desc(n, style), Non: true, Run: func() error {
		want, wargs, werr, got, gargs, gerr := buildBoth(n, style)
		if werr != nil {
			if gerr == nil {
				return fmt.Errorf("built %q %#v, want an error (%v)", got, gargs, werr)
			}
			return nil
		}
		if gerr != nil {
			return fmt.Errorf("failed (%v), want %q %#v", gerr, want, wargs)
		}
		if got != want || !sameVals(gargs, wargs) {
			return fmt.Errorf("built %q %#v, want %q %#v", got, gargs, want, wargs)
		}
		return nil
	}}
}

// appendCase: adding items never writes to slices of the caller.
func appendCase(r *rand.Rand) *Case {
	n, c := r.Intn(4), r.Intn(4)
	k := 1 + r.Intn(3)
	return &Case{Desc: fmt.Sprintf("two fragments sharing slices of len %d and cap %d, %d items appended to each", n, n+c, k), Non: true, Run: func() error {
		args := make([]any, n, n+c)
		frs := make([]sqlf.FragmentBuilder, n, n+c)
		for i := range args {
			args[i] = i
			frs[i] = sqlf.F(fmt.Sprint("f", i))
		}
		full, fullF := args[:cap(args)], frs[:cap(frs)]
		for i := n; i < n+c; i++ {
			full[i] = "caller"
			fullF[i] = sqlf.F("caller")
		}
		a, b := sqlf.Fa("", args...), sqlf.F("").WithArgs(args...)
		a.WithFragments(frs...)
		b.WithFragments(frs...)
		var wa, wb []any
		wa, wb = append(wa, args...), append(wb, args...)
		for i := 0; i < k; i++ {
			a.AppendArgs(fmt.Sprint("a", i))
			b.AppendArgs(fmt.Sprint("b", i), i)
			a.AppendFragments(sqlf.F(fmt.Sprint("a", i)))
			b.AppendFragments(sqlf.F(fmt.Sprint("b", i)))
			wa = append(wa, fmt.Sprint("a", i))
			wb = append(wb, fmt.Sprint("b", i), i)
		}
		if !sameVals(a.Args, wa) || !sameVals(b.Args, wb) {
			return fmt.Errorf("args %#v and %#v, want %#v and %#v", a.Args, b.Args, wa, wb)
		}
		for i := 0; i < k; i++ {
			if x := a.Fragments[n+i].(*sqlf.Fragment).Raw; x != fmt.Sprint("a", i) {
				return fmt.Errorf("fragment %d of the first is %q", n+i, x)
			}
			if x := b.Fragments[n+i].(*sqlf.Fragment).Raw; x != fmt.Sprint("b", i) {
				return fmt.Errorf("fragment %d of the second is %q", n+i, x)
			}
		}
		for i := n; i < n+c; i++ {
			if full[i] != "caller" || fullF[i].(*sqlf.Fragment).Raw != "caller" {
				return fmt.Errorf("the caller's array was overwritten at %d: %#v", i, full)
			}
		}
		return nil
	}}
}
