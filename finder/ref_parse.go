package main

import (
	"errors"
	"fmt"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// refExpr is an expression of a template, by the reference parser.
type refExpr struct {
	kind string // plain bind call func
	text string
	idx  int
	q    bool // question style
	name string
	args []any
}

func (e refExpr) String() string {
	switch e.kind {
	case "plain":
		return fmt.Sprintf("plain(%q)", e.text)
	case "bind":
		if e.q {
			return fmt.Sprintf("bind(? %d)", e.idx)
		}
		return fmt.Sprintf("bind($ %d)", e.idx)
	case "call":
		return fmt.Sprintf("call(%s %#v)", e.name, e.args)
	}
	return "func(" + e.name + ")"
}

var (
	errSyntax  = errors.New("syntax error")
	errUnknown = errors.New("not specified")
	decimal    = regexp.MustCompile(`^[+-]?[0-9]+(\.[0-9]+)?([eE][+-]?[0-9]+)?$`)
)

// refParse is the reference parser: one pass over the template, by the text of
// C01 and C03. It answers errUnknown where they leave the outcome open.
func refParse(s string) (out []refExpr, err error) {
	plain := func(t string) {
		if t == "" {
			return
		}
		if n := len(out); n > 0 && out[n-1].kind == "plain" {
			out[n-1].text += t
			return
		}
		out = append(out, refExpr{kind: "plain", text: t})
	}
	isLetter := func(c byte) bool { return c == '_' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' }
	isDigit := func(c byte) bool { return '0' <= c && c <= '9' }
	quoted := func(i int) int { // i at the quote; returns the end or -1
		q := s[i]
		for j := i + 1; j < len(s); j++ {
			if s[j] == q {
				if q == '\'' && j+1 < len(s) && s[j+1] == '\'' {
					j++
					continue
				}
				return j + 1
			}
		}
		return -1
	}
	style, nq := byte(0), 0
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == '\'' || c == '"' || c == '`':
			j := quoted(i)
			if j < 0 {
				j = len(s)
			}
			plain(s[i:j])
			i = j
		case (c == '$' || c == '?') && i+1 < len(s) && s[i+1] == c:
			plain(s[i : i+2])
			i += 2
		case c == '?':
			if style == '$' {
				return nil, errSyntax
			}
			style = c
			nq++
			i++
			if i < len(s) && '1' <= s[i] && s[i] <= '9' {
				return nil, errUnknown
			}
			out = append(out, refExpr{kind: "bind", idx: nq, q: true})
		case c == '$':
			if style == '?' {
				return nil, errSyntax
			}
			style = c
			j := i + 1
			if j >= len(s) || s[j] < '1' || s[j] > '9' {
				return nil, errSyntax
			}
			for j < len(s) && isDigit(s[j]) {
				j++
			}
			if j-i > 18 {
				return nil, errUnknown
			}
			n, _ := strconv.Atoi(s[i+1 : j])
			out = append(out, refExpr{kind: "bind", idx: n})
			i = j
		case c == '#':
			j := i + 1
			for j < len(s) && isLetter(s[j]) {
				j++
			}
			name := s[i+1 : j]
			if name == "" {
				return nil, errSyntax
			}
			k := j
			for k < len(s) && isDigit(s[k]) {
				k++
			}
			if k > j {
				v, _ := strconv.ParseFloat(s[j:k], 64)
				out = append(out, refExpr{kind: "call", name: name, args: []any{v}})
				i = k
				continue
			}
			if j < len(s) && s[j] == '(' {
				args, e, err := refArgs(s, j+1, quoted)
				if err != nil {
					return nil, err
				}
				out = append(out, refExpr{kind: "call", name: name, args: args})
				i = e
				continue
			}
			out = append(out, refExpr{kind: "func", name: name})
			i = j
		default:
			_, w := utf8.DecodeRuneInString(s[i:])
			plain(s[i : i+w])
			i += w
		}
	}
	return out, nil
}

func refArgs(s string, i int, quoted func(int) int) (args []any, end int, err error) {
	ws := func() {
		for i < len(s) {
			r, w := utf8.DecodeRuneInString(s[i:])
			if !unicode.IsSpace(r) {
				return
			}
			i += w
		}
	}
	ws()
	if i < len(s) && s[i] == ')' {
		return nil, i + 1, nil
	}
	for {
		ws()
		if i >= len(s) {
			return nil, 0, errSyntax
		}
		switch s[i] {
		case ')':
			return nil, 0, errUnknown // a comma before the parenthesis
		case ',':
			return nil, 0, errSyntax
		case '\'':
			j := quoted(i)
			if j < 0 {
				return nil, 0, errSyntax
			}
			args = append(args, strings.ReplaceAll(s[i+1:j-1], "''", "'"))
			i = j
		default:
			j := i
			for j < len(s) && s[j] != ',' && s[j] != ')' {
				j++
			}
			w := s[i:j]
			if r, _ := utf8.DecodeLastRuneInString(w); unicode.IsSpace(r) {
				return nil, 0, errUnknown
			}
			switch w {
			case "true", "false":
				args = append(args, w == "true")
			case "null", "nil":
				args = append(args, nil)
			default:
				v, err := strconv.ParseFloat(w, 64)
				if err == nil && decimal.MatchString(w) {
					args = append(args, v)
				} else if err == nil {
					return nil, 0, errUnknown
				} else {
					if j >= len(s) {
						return nil, 0, errSyntax
					}
					return nil, 0, errSyntax
				}
			}
			i = j
		}
		ws()
		if i >= len(s) {
			return nil, 0, errSyntax
		}
		switch s[i] {
		case ')':
			return args, i + 1, nil
		case ',':
			i++
		default:
			return nil, 0, errSyntax
		}
	}
}

// ---------------------------------------------------------------- templates

var atoms = []string{
	"a", "b", "foo", " ", "  ", "\n", "é", "世", "\x00", "\xff", "\xc3", ".", ",", "(", ")", "=", "1", "0", "23",
	"?", "?", "$1", "$2", "$10", "$", "$0", "??", "$$", "'", "\"", "`", "''", "'x'", "'?'", "\"$1\"", "`#f`", "'it''s'", "'a", "\"b'c\"",
	"#f", "#f1", "#join", "#a_B", "#f(", "#f()", "#g(1)", "#g('a''b',2)", "#g(true, nil)", "#g(null,false,-1.5e3)", "#", "##", "#f(1", "#f('x", "#f(a)", "#f(1,", "#_",
	"#join('#f', ', ')", "#g( 1, 'b' ,'c')", "#g(',')", "#g(')')", "#é",
}

func randTemplate(r *rand.Rand, n int) string {
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteString(pick(r, atoms...))
	}
	return sb.String()
}

// cleanTemplate makes templates that mostly parse.
func cleanTemplate(r *rand.Rand, n int) string {
	q := r.Intn(2) == 0
	var sb strings.Builder
	for i := 0; i < n; i++ {
		switch r.Intn(9) {
		case 0, 1:
			if q {
				sb.WriteString("?")
			} else {
				sb.WriteString("$" + strconv.Itoa(1+r.Intn(12)))
			}
		case 2:
			sb.WriteString(pick(r, "#f1", "#f", "#f(2)", "#arg('x')", "#g(1,'a',true,nil)", "#g('','''',' ')", "#h()", "#join('#f, ?', ')')", "#g( 12.5 )"[:0]+"#g( 12.5)", "#g(\t'a'\n, false)"))
		case 3:
			sb.WriteString(pick(r, "'q'", "'it''s ?'", "\"$1 #f\"", "`x?`", "''", "\"\"", "'\"'", "'a''", "\"'\""))
		case 4:
			sb.WriteString(pick(r, "??", "$$", "??", "$$$$"))
		default:
			sb.WriteString(pick(r, "a", "foo ", " ", "\n\t", "世界", "é", "\x00", "\xff\xfe", "\xe4\xb8", ", ", "(x)", " = ", "0", "::int", "@>", "-- c\n", "/* */", "%s", "\\"))
		}
	}
	return sb.String()
}
