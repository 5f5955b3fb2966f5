package main

import (
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/syntax"
)

type namedStr string
type namedBool bool
type namedF float32

var argTypes = []reflect.Type{
	reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(""), reflect.TypeOf(true),
	reflect.TypeOf(namedInt(0)), reflect.TypeOf(namedStr("")), reflect.TypeOf(namedBool(false)), reflect.TypeOf(namedF(0)),
}

var (
	tString = reflect.TypeOf("")
	tError  = reflect.TypeOf((*error)(nil)).Elem()
	tCtx    = reflect.TypeOf((*sqlf.Context)(nil))
)

type fspec struct {
	ctx      bool
	in       []reflect.Type
	variadic bool
	out      int
	panics   int // 1: error, 2: value
	fails    bool
}

func (f fspec) typ() reflect.Type {
	var in []reflect.Type
	if f.ctx {
		in = append(in, tCtx)
	}
	in = append(in, f.in...)
	if f.variadic {
		in[len(in)-1] = reflect.SliceOf(in[len(in)-1])
	}
	out := []reflect.Type{tString, tError}[:f.out]
	return reflect.FuncOf(in, out, f.variadic)
}

func randSpec(r *rand.Rand) fspec {
	f := fspec{ctx: r.Intn(3) == 0, out: r.Intn(3)}
	for n := r.Intn(4); n > 0; n-- {
		f.in = append(f.in, pick(r, argTypes...))
	}
	f.variadic = len(f.in) > 0 && r.Intn(4) == 0
	return f
}

// litOf makes a literal and the value it decodes to.
func litOf(r *rand.Rand, want reflect.Type) (string, any) {
	k := r.Intn(12)
	if want != nil && k > 1 {
		switch want.Kind() {
		case reflect.String:
			k = 10
		case reflect.Bool:
			k = 9
		default:
			k = 8
		}
	}
	switch k {
	case 0:
		return pick(r, "nil", "null"), nil
	case 1, 8:
		n := r.Intn(100)
		return fmt.Sprint(n), float64(n)
	case 2, 9:
		b := r.Intn(2) == 0
		return fmt.Sprint(b), b
	}
	s := pick(r, "", "a", "it's", "''", "a, b)", "#f1", "?", "é\n", "'", "\"")
	return "'" + strings.ReplaceAll(s, "'", "''") + "'", s
}

func convertible(v any, t reflect.Type) (any, bool) {
	switch x := v.(type) {
	case float64:
		switch t.Kind() {
		case reflect.String, reflect.Bool:
			return nil, false
		}
		return reflect.ValueOf(x).Convert(t).Interface(), true
	case bool:
		if t.Kind() != reflect.Bool {
			return nil, false
		}
		n := reflect.New(t).Elem()
		n.SetBool(x)
		return n.Interface(), true
	case string:
		if t.Kind() != reflect.String {
			return nil, false
		}
		n := reflect.New(t).Elem()
		n.SetString(x)
		return n.Interface(), true
	}
	return nil, false
}

type record struct {
	who  string
	args []any
	ctx  *sqlf.Context
}

func (f fspec) make(who string, log *[]record) any {
	return reflect.MakeFunc(f.typ(), func(in []reflect.Value) []reflect.Value {
		rec := record{who: who}
		for i, v := range in {
			if i == 0 && f.ctx {
				rec.ctx = v.Interface().(*sqlf.Context)
				continue
			}
			if f.variadic && i == len(in)-1 {
				for k := 0; k < v.Len(); k++ {
					rec.args = append(rec.args, v.Index(k).Interface())
				}
				continue
			}
			rec.args = append(rec.args, v.Interface())
		}
		*log = append(*log, rec)
		switch f.panics {
		case 1:
			panic(errBoom)
		case 2:
			panic("a value")
		case 3:
			var p *int
			_ = *p
		case 4:
			panic(7)
		case 5:
			panic([]string{"not comparable"})
		}
		out := []reflect.Value{reflect.ValueOf("<" + who + ">"), reflect.Zero(tError)}[:f.out]
		if f.out == 2 && f.fails {
			out[1] = reflect.ValueOf(&errBoom).Elem()
		}
		return out
	}).Interface()
}

func callCase(r *rand.Rand) *Case {
	f := randSpec(r)
	if r.Intn(6) == 0 {
		f.panics = 1 + r.Intn(5)
	}
	f.fails = r.Intn(6) == 0
	name := pick(r, "fn", "_", "F_n", "f", "join", "arg", "fragment", "X")
	// the arguments
	n := len(f.in)
	if f.variadic {
		n = len(f.in) - 1 + r.Intn(3)
	}
	if r.Intn(6) == 0 {
		n = max(0, n+r.Intn(3)-1)
	}
	var lits []string
	var want []any
	ok := true
	if !f.variadic && n != len(f.in) || f.variadic && n < len(f.in)-1 {
		ok = false
	}
	for i := 0; i < n; i++ {
		var t reflect.Type
		if i < len(f.in) {
			t = f.in[i]
		} else if f.variadic {
			t = f.in[len(f.in)-1]
		}
		l, v := litOf(r, t)
		lits = append(lits, l)
		if t == nil {
			continue
		}
		c, good := convertible(v, t)
		ok = ok && good
		want = append(want, c)
	}
	callName := name
	unknown := r.Intn(12) == 0
	if unknown {
		callName = pick(r, "unknown", "FN", "fN", "x", "F")
	}
	shadow := r.Intn(2) == 0
	deep := r.Intn(3)
	raw := "#" + callName + "(" + strings.Join(lits, ", ") + ")"
	if n == 1 && r.Intn(2) == 0 && strings.Trim(lits[0], "0123456789") == "" && lits[0] != "" {
		raw = "#" + callName + lits[0]
	}
	style := styleOf(r)
	return &Case{Desc: fmt.Sprintf("template %q calling %s registered as #%s (shadowing another: %v, %d fragments deep, panics: %d, fails: %v)", raw, f.typ(), name, shadow, deep, f.panics, f.fails), Non: true, Run: func() error {
		var log []record
		ctx := sqlf.NewContext(style)
		var err error
		if shadow {
			g := fspec{in: f.in, out: 1, variadic: f.variadic}
			ctx, err = sqlf.ContextWithFuncs(ctx, sqlf.FuncMap{name: g.make("outer", &log)})
			if err != nil {
				return fmt.Errorf("registration failed: %v", err)
			}
		}
		ctx, err = sqlf.ContextWithFuncs(ctx, sqlf.FuncMap{name: f.make("inner", &log), "other": func() string { return "other" }})
		if err != nil {
			return fmt.Errorf("registration failed: %v", err)
		}
		if r.Intn(2) == 0 {
			if ctx, err = sqlf.ContextWithFuncs(ctx, sqlf.FuncMap{"third": func() {}}); err != nil {
				return fmt.Errorf("registration failed: %v", err)
			}
		}
		var frag sqlf.FragmentBuilder = sqlf.F(raw)
		for k := 0; k < deep; k++ {
			if name == "f" {
				frag = sqlf.Ff("#fragment1", frag)
			} else {
				frag = sqlf.Ff("#f1", frag)
			}
		}
		got, err := frag.BuildFragment(ctx)
		if unknown {
			if err == nil {
				return fmt.Errorf("built %q, want an error: #%s is not defined", got, callName)
			}
			return nil
		}
		if !ok {
			if err == nil {
				return fmt.Errorf("built %q (called with %#v), want an error: wrong arguments", got, log)
			}
			if len(log) != 0 {
				return fmt.Errorf("called with %#v, though the arguments are wrong", log)
			}
			return nil
		}
		if len(log) != 1 || log[0].who != "inner" {
			return fmt.Errorf("calls %#v, want one of the inner function (error %v)", log, err)
		}
		if !sameVals(log[0].args, want) {
			return fmt.Errorf("called with %#v, want %#v", log[0].args, want)
		}
		if f.ctx && log[0].ctx == nil {
			return errors.New("called without context")
		}
		if f.panics > 0 || f.fails && f.out == 2 {
			if err == nil {
				return fmt.Errorf("built %q, want an error", got)
			}
			if f.panics <= 1 && !errors.Is(err, errBoom) {
				return fmt.Errorf("error %v does not wrap the cause", err)
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("failed: %v", err)
		}
		w := ""
		if f.out > 0 {
			w = "<inner>"
		}
		if got != w {
			return fmt.Errorf("built %q, want %q", got, w)
		}
		return nil
	}}
}

type regEntry struct {
	name string
	fn   any
	ok   bool
}

type myErr struct{}

func (*myErr) Error() string { return "" }

var regs = []regEntry{
	{"a", func() {}, true}, {"_", func() string { return "" }, true}, {"A_z", func() (string, error) { return "", nil }, true},
	{"", func() {}, false}, {"a1", func() {}, false}, {"1", func() {}, false}, {"a-b", func() {}, false}, {"é", func() {}, false},
	{"a b", func() {}, false}, {"#a", func() {}, false}, {"a(", func() {}, false}, {"世", func() {}, false}, {"a\x00", func() {}, false}, {"Ж", func() {}, false},
	{"[", func() {}, false}, {"`", func() {}, false}, {"{", func() {}, false}, {"@", func() {}, false}, {"^", func() {}, false},
	{"a", nil, false}, {"a", 1, false}, {"a", "x", false}, {"a", (func())(nil), true},
	{"a", func() int { return 0 }, false}, {"a", func() error { return nil }, false}, {"a", func() (string, string) { return "", "" }, false},
	{"a", func() (string, error, int) { return "", nil, 0 }, false}, {"a", func() (error, string) { return nil, "" }, false},
	{"a", func() namedStr { return "" }, false}, {"a", func() (string, *myErr) { return "", nil }, false}, {"a", func() []string { return nil }, false},
	{"a", func(any) {}, false}, {"a", func(error) {}, false}, {"a", func([]int) {}, false}, {"a", func(*int) {}, false}, {"a", func(complex128) {}, false},
	{"a", func(uintptr) {}, false}, {"a", func(map[string]int) {}, false}, {"a", func(struct{}) {}, false}, {"a", func(...any) {}, false},
	{"a", func(int, *sqlf.Context) {}, false}, {"a", func(*sqlf.Context, *sqlf.Context) {}, false}, {"a", func(sqlf.Context) {}, false}, {"a", func(...*sqlf.Context) {}, false},
	{"a", func(*sqlf.Context) {}, true}, {"a", func(*sqlf.Context, int, string, bool) {}, true}, {"a", func(...int) {}, true}, {"a", func(string, ...bool) {}, true},
	{"a", func(*sqlf.Context, ...namedStr) {}, true}, {"a", func(int8, uint64, float32) {}, true}, {"a", func(...[]int) {}, false}, {"a", func(func()) {}, false}, {"a", func(chan int) {}, false},
	{"a", func(int, []string) string { return "" }, false}, {"a", func([2]int) {}, false},
}

func regCase(r *rand.Rand, i int) *Case {
	e := regs[i%len(regs)]
	return &Case{Desc: fmt.Sprintf("ContextWithFuncs({%q: %T})", e.name, e.fn), Non: true, Run: func() error {
		m := sqlf.FuncMap{e.name: e.fn}
		ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Dollar), m)
		if (err == nil) != e.ok {
			return fmt.Errorf("error %v, want acceptance %v", err, e.ok)
		}
		if e.ok && reflect.TypeOf(e.fn).NumIn() == 0 {
			// what is accepted can be called
			_, berr := sqlf.F("#" + e.name + "()").BuildFragment(ctx)
			if berr != nil && !reflect.ValueOf(e.fn).IsNil() {
				return fmt.Errorf("accepted, but calling #%s() fails: %v", e.name, berr)
			}
			if berr == nil && reflect.ValueOf(e.fn).IsNil() {
				return fmt.Errorf("the call of a nil function succeeded")
			}
		}
		return nil
	}}
}

// funcErrorCase: errors of functions are never lost (C08).
func funcErrorCase(r *rand.Rand, i int) *Case {
	bad := 1 + r.Intn(3)
	how := r.Intn(4)
	raw := pick(r, fmt.Sprintf("#fn%d", bad), fmt.Sprintf("a #fn(%d) b", bad), "#join('#fn', ', ')", "#join('(#fn)', '', 1)", fmt.Sprintf("#join('#fn', ',', 1, %d)", bad), fmt.Sprintf("#fn1 #fn%d", bad), "#join('#fn #fn', ' ')")
	deep := r.Intn(3)
	wrap := pick(r, "#f1", "x #fragment1", "#join('#f', ', ')", "#join('#f', ',', 1, 1)", "#join('#f#f', ',', 1)")
	style := styleOf(r)
	return &Case{Desc: fmt.Sprintf("template %q within %d times %q, #fn fails at %d (kind %d)", raw, deep, wrap, bad, how), Non: true, Run: func() error {
		ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(style), sqlf.FuncMap{"fn": func(c *sqlf.Context, k int) (string, error) {
			if k < 1 || k > 3 {
				return "", fmt.Errorf("%w: %d", sqlf.ErrInvalidIndex, k)
			}
			if k == bad {
				switch how {
				case 0:
					return "text", errBoom
				case 1:
					return "", fmt.Errorf("wrapped: %w", errBoom)
				case 2:
					panic(errBoom)
				case 3:
					panic(fmt.Errorf("wrapped: %w", errBoom))
				}
			}
			return c.CommitArg(k), nil
		}})
		if err != nil {
			return err
		}
		var frag sqlf.FragmentBuilder = sqlf.F(raw)
		for k := 0; k < deep; k++ {
			frag = sqlf.Ff(wrap, frag)
		}
		got, err := frag.BuildFragment(ctx)
		if err == nil {
			return fmt.Errorf("built %q, want an error", got)
		}
		if !errors.Is(err, errBoom) {
			return fmt.Errorf("error %v does not wrap the cause", err)
		}
		if got != "" {
			return fmt.Errorf("failed with the query %q", got)
		}
		return nil
	}}
}

func init() {
	props["C10"] = &Prop{N: 25000, Rule: "registrations of every kind of name and signature; calls of random functions with matching or wrong literals, shadowed or not, failing or panicking; non-trivial: always", Gen: func(r *rand.Rand, i int) *Case {
		if i < 2*len(regs) || i%50 == 0 {
			return regCase(r, i)
		}
		return callCase(r)
	}}
}
