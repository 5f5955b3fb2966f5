package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/syntax"
)

func implParse(s string) ([]refExpr, error) {
	c, err := syntax.Parse(s)
	if err != nil {
		if c != nil {
			return nil, fmt.Errorf("BOTH: a clause and an error: %v", err)
		}
		return nil, err
	}
	if c == nil {
		return nil, fmt.Errorf("BOTH: neither a clause nor an error")
	}
	var out []refExpr
	for _, e := range c.ExprList {
		switch e := e.(type) {
		case *syntax.PlainExpr:
			if n := len(out); n > 0 && out[n-1].kind == "plain" {
				out[n-1].text += e.Text
				continue
			}
			if e.Text != "" {
				out = append(out, refExpr{kind: "plain", text: e.Text})
			}
		case *syntax.BindVarExpr:
			out = append(out, refExpr{kind: "bind", idx: e.Index, q: e.Type == syntax.Question})
		case *syntax.FuncCallExpr:
			out = append(out, refExpr{kind: "call", name: e.Name, args: e.Args})
		case *syntax.FuncExpr:
			out = append(out, refExpr{kind: "func", name: e.Name})
		default:
			out = append(out, refExpr{kind: fmt.Sprintf("%T", e)})
		}
	}
	return out, nil
}

func sameArgs(a, b []any) bool {
	if len(a) == 0 && len(b) == 0 {
		return true
	}
	return reflect.DeepEqual(a, b)
}

// enumTemplates enumerates the short templates over the interesting atoms.
var enumAtoms = []string{"a", " ", "?", "$", "$1", "1", "#f", "#", "(", ")", ",", "'", "\"", "`", "\x00", "世", "\xff"}

func genTemplate(r *rand.Rand, i int) string {
	n := len(enumAtoms)
	// all of one, two and three atoms first
	if i < n {
		return enumAtoms[i]
	}
	i -= n
	if i < n*n {
		return enumAtoms[i/n] + enumAtoms[i%n]
	}
	i -= n * n
	if i < n*n*n {
		return enumAtoms[i/n/n] + enumAtoms[i/n%n] + enumAtoms[i%n]
	}
	switch r.Intn(4) {
	case 0:
		return randTemplate(r, 1+r.Intn(8))
	case 1:
		b := make([]byte, r.Intn(12))
		for k := range b {
			b[k] = pick(r, []byte("ab?$#'\"`(),01_ \n\xff\x00e.-+")...)
		}
		return string(b)
	}
	return cleanTemplate(r, 1+r.Intn(10))
}

func init() {
	const rule = "templates: every sequence of up to 3 atoms, then random ones; non-trivial: at least one directive or quote"
	nonTriv := func(s string) bool { return strings.ContainsAny(s, "?$#'\"`") }
	props["C01"] = &Prop{N: 60000, Rule: rule, Gen: func(r *rand.Rand, i int) *Case {
		if i%5 == 4 && i > 6000 {
			return plainBuildCase(r)
		}
		s := genTemplate(r, i)
		return &Case{Desc: fmt.Sprintf("syntax.Parse(%q)", s), Non: nonTriv(s), Run: func() error {
			want, werr := refParse(s)
			got, gerr := implParse(s)
			if werr != nil || gerr != nil {
				return nil // what is accepted is C03's
			}
			// the same pieces of plain text between the same number of directives
			w, g := plainPieces(want), plainPieces(got)
			if !reflect.DeepEqual(w, g) {
				return fmt.Errorf("plain text between the directives: got %q, want %q", g, w)
			}
			return nil
		}}
	}}
	props["C02"] = &Prop{N: 120000, Rule: rule, Gen: func(r *rand.Rand, i int) *Case {
		s := genTemplate(r, i)
		return &Case{Desc: fmt.Sprintf("syntax.Parse(%q)", s), Non: nonTriv(s), Run: func() error {
			_, err := implParse(s)
			if err != nil && strings.HasPrefix(err.Error(), "BOTH") {
				return err
			}
			return nil
		}}
	}}
	props["C03"] = &Prop{N: 60000, Rule: rule, Gen: func(r *rand.Rand, i int) *Case {
		s := genTemplate(r, i)
		return &Case{Desc: fmt.Sprintf("syntax.Parse(%q)", s), Non: nonTriv(s), Run: func() error {
			want, werr := refParse(s)
			if werr == errUnknown {
				return nil
			}
			got, gerr := implParse(s)
			if (werr == nil) != (gerr == nil) {
				return fmt.Errorf("error %v, want %v (expressions %v, want %v)", gerr, werr, got, want)
			}
			if werr != nil {
				return nil
			}
			w, g := directives(want), directives(got)
			if len(w) != len(g) {
				return fmt.Errorf("directives %v, want %v", g, w)
			}
			for k := range w {
				if w[k].kind != g[k].kind || w[k].idx != g[k].idx || w[k].q != g[k].q || w[k].name != g[k].name || !sameArgs(w[k].args, g[k].args) {
					return fmt.Errorf("directive %d is %v, want %v", k+1, g[k], w[k])
				}
			}
			return nil
		}}
	}}
}

func plainPieces(es []refExpr) []string {
	out := []string{""}
	for _, e := range es {
		if e.kind == "plain" {
			out[len(out)-1] += e.text
		} else {
			out = append(out, "")
		}
	}
	return out
}

func directives(es []refExpr) []refExpr {
	var out []refExpr
	for _, e := range es {
		if e.kind != "plain" {
			out = append(out, e)
		}
	}
	return out
}

// plainBuildCase builds plain text around items whose text is known.
func plainBuildCase(r *rand.Rand) *Case {
	n := 1 + r.Intn(5)
	var raw, want strings.Builder
	var frs []sqlf.FragmentBuilder
	q := r.Intn(2) == 0
	var args []any
	for k := 0; k < n; k++ {
		p := pick(r, "a", " b ", "SELECT\n", "世", "\x00", "\xff", "'?'", "'it''s #f1'", "\"$1\"", "`#x`", " ", "%d", "\t,", "(\\)", "--")
		raw.WriteString(p)
		want.WriteString(p)
		switch r.Intn(3) {
		case 0:
			t := pick(r, "x", "y z", "世", "''", "%s")
			frs = append(frs, sqlf.F(t))
			fmt.Fprintf(&raw, "#f(%d)", len(frs))
			want.WriteString(t)
		case 1:
			args = append(args, 100+len(args))
			if q {
				raw.WriteString("?")
				want.WriteString("?")
			} else {
				fmt.Fprintf(&raw, "$%d", len(args))
				fmt.Fprintf(&want, "$%d", len(args))
				raw.WriteString("|")
				want.WriteString("|")
			}
		}
	}
	style := syntax.Dollar
	if q {
		style = syntax.Question
	}
	f := &sqlf.Fragment{Raw: raw.String(), Args: args, Fragments: frs}
	return &Case{Desc: fmt.Sprintf("Fragment{Raw: %q, %d args, %d fragments}.BuildQuery", f.Raw, len(args), len(frs)), Non: true, Run: func() error {
		got, _, err := f.BuildQuery(style)
		if err != nil {
			return fmt.Errorf("unexpected error %v", err)
		}
		if w := strings.TrimSpace(want.String()); got != w {
			return fmt.Errorf("built %q, want %q", got, w)
		}
		return nil
	}}
}
