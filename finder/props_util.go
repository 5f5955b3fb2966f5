package main

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/syntax"
	"github.com/qjebbs/go-sqlf/v2/util"
)

// ---------------------------------------------------------------- C16

type intSlice []int
type strArr [2]string

func flatVal(r *rand.Rand) any {
	n := r.Intn(4)
	ints := make([]int, 0, 5)
	for i := 0; i < n; i++ {
		ints = append(ints, r.Intn(9))
	}
	mk := func(t reflect.Type) any {
		s := reflect.MakeSlice(reflect.SliceOf(t), n, n+r.Intn(2))
		for i := 0; i < n; i++ {
			e := s.Index(i)
			switch t.Kind() {
			case reflect.String:
				e.SetString(pick(r, "", "a", "b"))
			case reflect.Bool:
				e.SetBool(r.Intn(2) == 0)
			case reflect.Float32, reflect.Float64:
				e.SetFloat(float64(r.Intn(5)) + 0.5)
			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
				e.SetUint(uint64(r.Intn(200)))
			case reflect.Interface:
				if v := pick[any](r, nil, 1, "x", []int{1, 2}, []any{3}); v != nil {
					e.Set(reflect.ValueOf(v))
				}
			case reflect.Pointer:
				if r.Intn(2) == 0 {
					e.Set(reflect.New(t.Elem()))
				}
			case reflect.Slice:
				e.Set(reflect.MakeSlice(t, 1, 1))
			case reflect.Struct:
			default:
				e.SetInt(int64(r.Intn(99)))
			}
		}
		return s.Interface()
	}
	ts := []reflect.Type{}
	for _, v := range []any{true, 1, int8(1), int16(1), int32(1), int64(1), uint(1), uint8(1), uint16(1), uint32(1), uint64(1), float32(1), float64(1), "", namedInt(1), namedStr(""), namedBool(true), new(int), new([]int), []int{}, pair{}, time.Time{}} {
		ts = append(ts, reflect.TypeOf(v))
	}
	ts = append(ts, reflect.TypeOf((*any)(nil)).Elem())
	switch r.Intn(10) {
	case 0:
		return pick[any](r, nil, 1, "a", true, 1.5, namedInt(2), pair{1, "x"}, time.Unix(0, 0), new(int), map[string]int{"a": 1})
	case 1: // nil slices and pointers
		t := pick(r, ts...)
		if r.Intn(2) == 0 {
			return reflect.Zero(reflect.SliceOf(t)).Interface()
		}
		return reflect.Zero(reflect.PointerTo(reflect.SliceOf(t))).Interface()
	case 2: // arrays
		return pick[any](r, [3]int{1, 2, 3}, [0]int{}, strArr{"a", "b"}, &[2]int{4, 5}, (*[2]int)(nil), [2]any{nil, []int{1}}, &strArr{"x", ""}, [2][]int{{1}, {2, 3}}, &[0]string{})
	case 3:
		return pick[any](r, intSlice{1, 2}, &intSlice{3}, (*intSlice)(nil), intSlice(nil), (*int)(nil), (*string)(nil), (*any)(nil), (**[]int)(nil), any(nil), error(nil), (*pair)(nil), (func())(nil), (chan int)(nil), map[string]int(nil))
	case 4, 5, 6: // pointers to slices
		s := reflect.ValueOf(mk(pick(r, ts...)))
		p := reflect.New(s.Type())
		p.Elem().Set(s)
		if r.Intn(8) == 0 {
			pp := reflect.New(p.Type())
			pp.Elem().Set(p)
			return pp.Interface()
		}
		return p.Interface()
	}
	return mk(pick(r, ts...))
}

func refFlat(vs []any) (out []any) {
	for _, v := range vs {
		rv := reflect.ValueOf(v)
		if rv.IsValid() && rv.Kind() == reflect.Pointer && !rv.IsNil() {
			rv = rv.Elem()
		}
		if rv.IsValid() && (rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array) {
			for i := 0; i < rv.Len(); i++ {
				out = append(out, rv.Index(i).Interface())
			}
			continue
		}
		out = append(out, v)
	}
	return out
}

// sameFlat: same type, and the same value (pointers by identity).
func sameFlat(a, b any) bool {
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if a == nil {
		return true
	}
	if k := reflect.TypeOf(a).Kind(); k == reflect.Pointer || k == reflect.Map || k == reflect.Func || k == reflect.Chan {
		return reflect.ValueOf(a).Pointer() == reflect.ValueOf(b).Pointer()
	}
	return reflect.DeepEqual(a, b)
}

func init() {
	props["C16"] = &Prop{N: 40000, Rule: "lists of random values: scalars, slices and arrays of many element types, pointers to them, nil ones; non-trivial: some value is a slice, an array or a pointer", Gen: func(r *rand.Rand, i int) *Case {
		var vs []any
		non := false
		for n := r.Intn(1 + min(5, 1+i/100)); n >= 0; n-- {
			v := flatVal(r)
			vs = append(vs, v)
			if v != nil {
				switch reflect.TypeOf(v).Kind() {
				case reflect.Slice, reflect.Array, reflect.Pointer:
					non = true
				}
			}
		}
		d := ""
		for _, v := range vs {
			d += fmt.Sprintf(" %T", v)
			if v != nil && reflect.TypeOf(v).Kind() != reflect.Pointer {
				d += fmt.Sprintf("(%#v)", v)
			} else if v != nil && !reflect.ValueOf(v).IsNil() {
				d += fmt.Sprintf("(&%#v)", reflect.ValueOf(v).Elem().Interface())
			} else {
				d += "(nil)"
			}
		}
		return &Case{Desc: "util.ArgsFlatted of" + d, Non: non, Run: func() error {
			want := refFlat(vs)
			in := append([]any(nil), vs...)
			got := util.ArgsFlatted(vs...)
			if len(got) != len(want) {
				return fmt.Errorf("got %d values %#v, want %d: %#v", len(got), got, len(want), want)
			}
			for k := range got {
				if !sameFlat(got[k], want[k]) {
					return fmt.Errorf("value %d is %T %#v, want %T %#v", k, got[k], got[k], want[k], want[k])
				}
			}
			for k := range in {
				if !sameFlat(in[k], vs[k]) {
					return fmt.Errorf("the list given changed at %d", k)
				}
			}
			s := pick(r, []int{}, []int{1}, []int{1, 2, 3}, nil)
			t := util.Ttoa(s)
			if len(t) != len(s) {
				return fmt.Errorf("Ttoa(%#v) = %#v", s, t)
			}
			for k := range s {
				if t[k] != s[k] {
					return fmt.Errorf("Ttoa(%#v) = %#v", s, t)
				}
			}
			// the result is the caller's: it may be changed freely
			if len(vs) > 0 && len(got) > 0 {
				before := fmt.Sprintf("%#v", derefAll(vs))
				for k := range got {
					got[k] = "overwritten"
				}
				if after := fmt.Sprintf("%#v", derefAll(vs)); after != before {
					return fmt.Errorf("writing to the result changes the values given: %s", after)
				}
			}
			return nil
		}}
	}}
}

func derefAll(vs []any) []any {
	var out []any
	for _, v := range vs {
		if v != nil && reflect.TypeOf(v).Kind() == reflect.Pointer && !reflect.ValueOf(v).IsNil() {
			v = reflect.ValueOf(v).Elem().Interface()
		}
		out = append(out, v)
	}
	return out
}

// ---------------------------------------------------------------- C17

type valuer struct {
	v   any
	err error
}

func (v valuer) Value() (driver.Value, error) { return v.v, v.err }

type ptrValuer struct{ s string }

func (v *ptrValuer) Value() (driver.Value, error) { return v.s, nil }

type stringer string

func (s stringer) String() string { return string(s) }

type ptrStringer struct{ s string }

func (s *ptrStringer) String() string { return s.s }

func quote(s string) string { return "'" + strings.ReplaceAll(s, "'", "''") + "'" }

// litVal makes a value, its literal ("" if it cannot be interpolated), or a float to compare.
func litVal(r *rand.Rand) (v any, lit string, fl *float64, bits int, bad bool) {
	str := pick(r, "", "a", "'", "''", "it's", "'; DROP TABLE x; --", "\\'", "\\", "é世", "\x00", "\xff", "?", "$1", "a''b'", "\"", "%s%d", "\n", strings.Repeat("'", r.Intn(6)), "x'"+strings.Repeat("ab'", r.Intn(4)))
	i := pick(r, 0, 1, -1, 42, math.MaxInt64, math.MinInt64, r.Int()-r.Int())
	switch r.Intn(26) {
	case 0:
		return nil, "NULL", nil, 0, false
	case 1:
		return true, "TRUE", nil, 0, false
	case 2:
		return false, "FALSE", nil, 0, false
	case 3:
		return i, strconv.Itoa(i), nil, 0, false
	case 4:
		return int8(i), strconv.Itoa(int(int8(i))), nil, 0, false
	case 5:
		return int32(i), strconv.Itoa(int(int32(i))), nil, 0, false
	case 6:
		return uint64(i), strconv.FormatUint(uint64(i), 10), nil, 0, false
	case 7:
		return uint8(i), strconv.Itoa(int(uint8(i))), nil, 0, false
	case 8:
		return namedInt(i), strconv.Itoa(i), nil, 0, false
	case 9, 10:
		f := pick(r, 0.0, 1, -1.5, 0.1, 1e21, 1e-7, 1e-300, 123456789.123456789, math.MaxFloat64, math.SmallestNonzeroFloat64, r.NormFloat64(), r.NormFloat64()*1e18, 0.1+0.2)
		return f, "", &f, 64, false
	case 11:
		g := pick(r, float32(0.1), 1, -2.5, math.MaxFloat32, float32(r.NormFloat64()), 1e-10)
		f := float64(g)
		return g, "", &f, 32, false
	case 12:
		return namedStr(str), quote(str), nil, 0, false
	case 13:
		return stringer(str), quote(str), nil, 0, false
	case 14:
		return &ptrStringer{str}, quote(str), nil, 0, false
	case 15:
		return valuer{v: str}, quote(str), nil, 0, false
	case 16:
		return valuer{v: pick[any](r, nil, int64(3))}, "", nil, -1, false
	case 17:
		return valuer{err: errBoom}, "", nil, 0, true
	case 18:
		return &ptrValuer{str}, quote(str), nil, 0, false
	case 19:
		return pick[any](r, (*ptrValuer)(nil), (*ptrStringer)(nil), (*int)(nil), (*valuer)(nil), (*time.Time)(nil)), "NULL", nil, 0, false
	case 20:
		t := time.Date(2000+r.Intn(30), time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), r.Intn(1000)*1e6, time.FixedZone("", 3600*(r.Intn(5)-2)))
		return t, "time", nil, 0, false
	case 21:
		return pick[any](r, []byte("x"), []int{1}, map[string]int{}, struct{ A int }{1}, func() {}, make(chan int), new(int), complex(1, 2), [2]int{1, 2}, &pair{}), "", nil, 0, true
	case 22:
		return sql.NullString{String: str, Valid: true}, quote(str), nil, 0, false
	case 23:
		return sql.NullInt64{}, "NULL", nil, 0, false
	case 24:
		return namedBool(true), "TRUE", nil, 0, false
	}
	return str, quote(str), nil, 0, false
}

func interpCase(r *rand.Rand) *Case {
	type item struct {
		lit  string
		fl   *float64
		bits int
		bad  bool
	}
	na := r.Intn(4)
	var args []any
	var items []item
	format := pick(r, "", "2006-01-02", "2006-01-02 15:04:05.000")
	for k := 0; k < na; k++ {
		v, lit, fl, bits, bad := litVal(r)
		if lit == "time" {
			f := format
			if f == "" {
				f = time.RFC3339
			}
			lit = "'" + v.(time.Time).Round(time.Microsecond).Format(f) + "'"
		}
		if bits == -1 {
			bits = 0
			if vv, _ := v.(valuer).Value(); vv == nil {
				lit = "NULL"
			} else {
				lit = "3"
			}
		}
		args = append(args, v)
		items = append(items, item{lit, fl, bits, bad})
	}
	q := r.Intn(2) == 0
	var raw strings.Builder
	type seg struct {
		text string
		arg  int
	}
	var segs []seg
	bad := false
	nq := 0
	for k := r.Intn(6); k >= 0; k-- {
		t := pick(r, "a", " = ", "'?'", "'it''s $1'", "\"q?\"", "`$2`", "世", "\x00", "\xff", ", ", " (", ") ", "-- x\n", "''")
		raw.WriteString(t)
		segs = append(segs, seg{text: t})
		if r.Intn(3) > 0 {
			n := 0
			if q {
				nq++
				n = nq
				raw.WriteString("?")
			} else {
				n = 1 + r.Intn(na+1)
				if n > na && r.Intn(3) > 0 {
					n = 1
				}
				fmt.Fprintf(&raw, "$%d", n)
			}
			if n > na {
				bad = true
			} else if items[n-1].bad {
				bad = true
			}
			segs = append(segs, seg{arg: n})
		}
	}
	if r.Intn(20) == 0 {
		raw.WriteString(pick(r, "#f1", "#f", "$", "#"))
		bad = true
	}
	query := raw.String()
	return &Case{Desc: fmt.Sprintf("util.Interpolate(%q, %#v, format %q)", query, args, format), Non: na > 0, Run: func() error {
		var opts []util.InterpolateOption
		if format != "" {
			opts = append(opts, util.WithTimeFormat(format))
		}
		got, err := util.Interpolate(query, args, opts...)
		if bad {
			if err == nil {
				return fmt.Errorf("interpolated to %q, want an error", got)
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("failed: %v", err)
		}
		rest := got
		for _, s := range segs {
			if s.arg == 0 {
				if !strings.HasPrefix(rest, s.text) {
					return fmt.Errorf("interpolated to %q: %q expected at %q", got, s.text, rest)
				}
				rest = rest[len(s.text):]
				continue
			}
			it := items[s.arg-1]
			if it.fl != nil {
				n := 0
				for n < len(rest) && strings.IndexByte("0123456789+-.eE", rest[n]) >= 0 {
					n++
				}
				// a following text may continue the number; none of ours does, except "-- x"
				num := strings.TrimSuffix(rest[:n], "--")
				f, e := strconv.ParseFloat(num, it.bits)
				if e != nil || f != *it.fl {
					return fmt.Errorf("interpolated to %q: %q is not the float %v", got, num, *it.fl)
				}
				rest = rest[len(num):]
				continue
			}
			if !strings.HasPrefix(rest, it.lit) {
				return fmt.Errorf("interpolated to %q: literal %q expected at %q", got, it.lit, rest)
			}
			rest = rest[len(it.lit):]
		}
		if rest != "" {
			return fmt.Errorf("interpolated to %q: unexpected %q at the end", got, rest)
		}
		return nil
	}}
}

// ---------------------------------------------------------------- C18

type fakeDB struct {
	cols            []string
	rows            [][]driver.Value
	queryErr        error
	nextErrAt       int // error when fetching this row (-1: never)
	closed          int
	opened          int
	query           string
	args            []driver.Value
	columnsBroken   bool
	closeErr        error
}

func (d *fakeDB) Connect(context.Context) (driver.Conn, error) { return &fakeConn{d}, nil }
func (d *fakeDB) Driver() driver.Driver                         { return nil }

type fakeConn struct{ d *fakeDB }

func (c *fakeConn) Prepare(q string) (driver.Stmt, error) { return nil, errors.New("not prepared") }
func (c *fakeConn) Close() error                          { return nil }
func (c *fakeConn) Begin() (driver.Tx, error)             { return nil, errors.New("no tx") }
func (c *fakeConn) QueryContext(_ context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	c.d.query = q
	c.d.args = nil
	for _, a := range args {
		c.d.args = append(c.d.args, a.Value)
	}
	if c.d.queryErr != nil {
		return nil, c.d.queryErr
	}
	c.d.opened++
	return &fakeRows{d: c.d}, nil
}

type fakeRows struct {
	d *fakeDB
	n int
	c bool
}

func (r *fakeRows) Columns() []string { return r.d.cols }
func (r *fakeRows) Close() error {
	if !r.c {
		r.c = true
		r.d.closed++
	}
	return r.d.closeErr
}
func (r *fakeRows) Next(dest []driver.Value) error {
	if r.d.nextErrAt == r.n {
		return errBoom
	}
	if r.n >= len(r.d.rows) {
		return io.EOF
	}
	copy(dest, r.d.rows[r.n])
	r.n++
	return nil
}

type rowT struct {
	A int64
	B string
}

type qb struct {
	q    string
	args []any
	err  error
}

func (b qb) BuildQuery(s syntax.BindVarStyle) (string, []any, error) { return b.q, b.args, b.err }

func scanCase(r *rand.Rand) *Case {
	nr := r.Intn(5)
	nc := 1 + r.Intn(4)
	nd := pick(r, nc, nc, 2, 1, 0, nc+1)
	d := &fakeDB{nextErrAt: -1}
	for k := 0; k < nc; k++ {
		d.cols = append(d.cols, fmt.Sprint("c", k))
	}
	badRow := -1
	for i := 0; i < nr; i++ {
		row := make([]driver.Value, nc)
		for k := range row {
			if k == 0 {
				row[k] = int64(i * 10)
			} else {
				row[k] = fmt.Sprint("s", i, k)
			}
		}
		d.rows = append(d.rows, row)
	}
	if nr > 0 && r.Intn(5) == 0 {
		badRow = r.Intn(nr)
		d.rows[badRow][0] = "not a number"
	}
	if r.Intn(4) == 0 {
		d.nextErrAt = r.Intn(nr + 1)
	}
	if r.Intn(10) == 0 {
		d.queryErr = errBoom
	}
	nilStr := nr > 0 && nc > 1 && r.Intn(8) == 0
	nilRow := -1
	if nilStr {
		nilRow = r.Intn(nr)
		d.rows[nilRow][1] = nil
	}
	var buildErr error
	if r.Intn(10) == 0 {
		buildErr = fmt.Errorf("build failed")
	}
	useBuilder := r.Intn(2) == 0
	if !useBuilder {
		buildErr = nil
	}
	spare := r.Intn(3)
	return &Case{Desc: fmt.Sprintf("%d rows of %d columns into %d destinations (spare %d); bad value in row %d, NULL in row %d, fetch error at row %d, query error %v, build error %v, builder %v", nr, nc, nd, spare, badRow, nilRow, d.nextErrAt, d.queryErr, buildErr, useBuilder), Non: true, Run: func() error {
		db := sql.OpenDB(d)
		defer db.Close()
		type dst struct {
			a  int64
			bs []string
		}
		sentinel := "caller"
		var arrays [][]any
		fn := func() (*dst, []any) {
			x := &dst{bs: make([]string, 8)}
			f := make([]any, 0, nd+spare)
			for k := 0; k < nd; k++ {
				if k == 0 {
					f = append(f, &x.a)
				} else {
					f = append(f, &x.bs[k])
				}
			}
			full := f[:cap(f)]
			for k := nd; k < len(full); k++ {
				full[k] = &sentinel
			}
			arrays = append(arrays, f)
			return x, f
		}
		var got []*dst
		var err error
		args := []any{int64(1), "x"}
		if useBuilder {
			got, err = util.ScanBuilder[*dst](db, qb{"Q", args, buildErr}, syntax.Dollar, fn)
		} else {
			got, err = util.Scan[*dst](db, "Q", args, fn)
		}
		wantErr := buildErr != nil || d.queryErr != nil || d.nextErrAt >= 0 && d.nextErrAt <= nr || badRow >= 0 && nd > 0 || nilRow >= 0 && nd > 1 || nd > nc && nr > 0
		if (err != nil) != wantErr {
			return fmt.Errorf("error %v, want an error: %v (%d results)", err, wantErr, len(got))
		}
		if d.opened != d.closed {
			return fmt.Errorf("%d rows opened, %d closed", d.opened, d.closed)
		}
		for _, f := range arrays {
			full := f[:cap(f)]
			for k := nd; k < len(full); k++ {
				if p, ok := full[k].(*string); !ok || p != &sentinel {
					return fmt.Errorf("the destination slice of the caller was overwritten at %d", k)
				}
			}
		}
		if sentinel != "caller" {
			return fmt.Errorf("a value was scanned into something that is no destination")
		}
		if err != nil {
			if len(got) != 0 {
				return fmt.Errorf("failed with %d partial results", len(got))
			}
			if buildErr != nil && !errors.Is(err, buildErr) || buildErr == nil && d.queryErr != nil && !errors.Is(err, errBoom) {
				return fmt.Errorf("error %v does not wrap the cause", err)
			}
			return nil
		}
		if d.query != "Q" || len(d.args) != 2 || d.args[0] != int64(1) || d.args[1] != "x" {
			return fmt.Errorf("query %q with %v was run", d.query, d.args)
		}
		if len(got) != nr {
			return fmt.Errorf("%d results for %d rows", len(got), nr)
		}
		for i, x := range got {
			if nd > 0 && x.a != int64(i*10) {
				return fmt.Errorf("result %d has %d, want %d", i, x.a, i*10)
			}
			for k := 1; k < nd && k < nc; k++ {
				if x.bs[k] != fmt.Sprint("s", i, k) {
					return fmt.Errorf("result %d has %q in column %d", i, x.bs[k], k)
				}
			}
		}
		return nil
	}}
}

func countCase(r *rand.Rand) *Case {
	d := &fakeDB{nextErrAt: -1, cols: []string{"n"}}
	n := int64(r.Intn(1000))
	if r.Intn(4) > 0 {
		d.rows = append(d.rows, []driver.Value{n})
	}
	bad := false
	switch r.Intn(6) {
	case 0:
		d.queryErr = errBoom
		bad = true
	case 1:
		d.nextErrAt = 0
		bad = true
	case 2:
		if len(d.rows) > 0 {
			d.rows[0][0] = "x"
			bad = true
		}
	}
	var buildErr error
	useB := r.Intn(2) == 0
	if useB && r.Intn(5) == 0 {
		buildErr = errors.New("build failed")
	}
	args := pick(r, []any{int64(1)}, nil, []any{"a", int64(2)})
	return &Case{Desc: fmt.Sprintf("count %v (rows %d, error %v/%v, builder %v, build error %v)", n, len(d.rows), d.queryErr, d.nextErrAt, useB, buildErr), Non: true, Run: func() error {
		db := sql.OpenDB(d)
		defer db.Close()
		var got int64
		var err error
		if useB {
			got, err = util.CountBuilder(db, qb{"SELECT ?", args, buildErr}, syntax.Question)
		} else {
			got, err = util.Count(db, "SELECT ?", args)
		}
		if buildErr != nil {
			if !errors.Is(err, buildErr) || got != 0 {
				return fmt.Errorf("got %d, %v", got, err)
			}
			return nil
		}
		if bad {
			if err == nil || got != 0 {
				return fmt.Errorf("got %d, %v, want an error", got, err)
			}
			if (d.queryErr != nil || d.nextErrAt == 0) && !errors.Is(err, errBoom) {
				return fmt.Errorf("error %v does not wrap the cause", err)
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("failed: %v", err)
		}
		want := int64(0)
		if len(d.rows) > 0 {
			want = n
		}
		if got != want {
			return fmt.Errorf("got %d, want %d", got, want)
		}
		if !strings.Contains(d.query, "SELECT ?") || !strings.Contains(strings.ToUpper(d.query), "COUNT(") || len(d.args) != len(args) {
			return fmt.Errorf("query %q with %v was run", d.query, d.args)
		}
		if d.opened != d.closed {
			return fmt.Errorf("%d rows opened, %d closed", d.opened, d.closed)
		}
		return nil
	}}
}

func init() {
	props["C17"] = &Prop{N: 60000, Rule: "random queries with placeholders of either style, quoted texts and args of many types; non-trivial: at least one arg", Gen: func(r *rand.Rand, i int) *Case { return interpCase(r) }}
	props["C18"] = &Prop{N: 15000, Rule: "a fake database/sql driver with random rows, columns and failures; non-trivial: always", Gen: func(r *rand.Rand, i int) *Case {
		if i%4 == 3 {
			return countCase(r)
		}
		return scanCase(r)
	}}
	_ = sqlf.F
}
