DB='''
type db struct {
	rows   [][]driver.Value
	bad    int // the row that cannot be fetched
	err    error
	closed int
}

func (d *db) Connect(context.Context) (driver.Conn, error) { return d, nil }
func (d *db) Driver() driver.Driver                         { return nil }
func (d *db) Prepare(q string) (driver.Stmt, error)         { return nil, errors.New("no") }
func (d *db) Close() error                                  { return nil }
func (d *db) Begin() (driver.Tx, error)                     { return nil, errors.New("no") }
func (d *db) QueryContext(_ context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	if d.err != nil {
		return nil, d.err
	}
	return &rows{d: d}, nil
}

type rows struct {
	d *db
	n int
}

func (r *rows) Columns() []string { return []string{"a", "b"}[:len(r.d.rows[0])] }
func (r *rows) Close() error      { r.d.closed++; return nil }
func (r *rows) Next(dest []driver.Value) error {
	if r.n >= len(r.d.rows) {
		return io.EOF
	}
	copy(dest, r.d.rows[r.n])
	r.n++
	return nil
}
'''
SEEDS=[
dict(id="c17-doubled-already", prop="C17", needs="a string that has a doubled quote and a single one", breaks="a string with a doubled quote is taken as quoted already, so a single quote ends its literal",
 edits=[("util/interpolate.go","	buf.WriteString(strings.ReplaceAll(s, \"'\", \"''\"))\n","	if !strings.Contains(s, \"''\") {\n		s = strings.ReplaceAll(s, \"'\", \"''\")\n	}\n	buf.WriteString(s)\n")],
 demo='''q, err := util.Interpolate("SELECT ?", []any{"a\'\'b\'; DROP"})
	if err != nil || q != "SELECT 'a\'\'\'\'b\'\'; DROP'" {
		fail("%s %v", q, err)
	}'''),
dict(id="c17-uint-signed", prop="C17", needs="an unsigned integer of 2^63 or more", breaks="large unsigned integers are interpolated as negative numbers",
 edits=[("util/interpolate.go","fmt.Sprintf(\"%d\", primative.Uint())","fmt.Sprintf(\"%d\", int64(primative.Uint()))")],
 demo='''q, err := util.Interpolate("SELECT ?", []any{uint64(1) << 63})
	if err != nil || q != "SELECT 9223372036854775808" {
		fail("%s %v", q, err)
	}'''),
dict(id="c17-skip-is-null", prop="C17", needs="a driver.Valuer that fails with driver.ErrSkip", breaks="a value that fails is interpolated as NULL",
 edits=[("util/interpolate.go","		val, err := v.Value()\n		if err != nil {\n","		val, err := v.Value()\n		if err == driver.ErrSkip {\n			val, err = nil, nil\n		}\n		if err != nil {\n")],
 pre='''type skip struct{}

func (skip) Value() (driver.Value, error) { return nil, driver.ErrSkip }
''',
 demo='''q, err := util.Interpolate("SELECT ?", []any{skip{}})
	if err == nil {
		fail("%s", q)
	}'''),
dict(id="c17-cached-literal", prop="C17", needs="a query with the same type of arg several times, the first one a pointer", breaks="the placeholders of equal pointers take the literal of the first one: a second arg equal in type and text is not looked up",
 edits=[("util/interpolate.go","	b := new(strings.Builder)\n","	b := new(strings.Builder)\n	done := make(map[string][]byte)\n"),
  ("util/interpolate.go","			v, err := encodeValue(args[decl.Index-1], opts)\n			if err != nil {\n				return \"\", err\n			}\n			b.Write(v)\n","			key := fmt.Sprintf(\"%T %v\", args[decl.Index-1], args[decl.Index-1])\n			v, ok := done[key]\n			if !ok {\n				v, err = encodeValue(args[decl.Index-1], opts)\n				if err != nil {\n					return \"\", err\n				}\n				done[key] = v\n			}\n			b.Write(v)\n")],
 pre='''type secret struct{ v string }

func (s secret) Value() (driver.Value, error) { return s.v, nil }
func (s secret) String() string                { return "***" }
''',
 demo='''q, err := util.Interpolate("SELECT ?, ?", []any{secret{"a"}, secret{"b"}})
	if err != nil || q != "SELECT 'a', 'b'" {
		fail("%s %v", q, err)
	}'''),
dict(id="c18-partial", prop="C18", needs="a row that cannot be scanned after rows that can", breaks="the rows scanned so far are returned with the error",
 edits=[("util/scan.go","		err = ScanRow(rows, fields...)\n		if err != nil {\n			return nil, err\n","		err = ScanRow(rows, fields...)\n		if err != nil {\n			return results, err\n")],
 pre=DB,
 demo='''d := &db{rows: [][]driver.Value{{int64(1)}, {"x"}}}
	r, err := util.Scan(sql.OpenDB(d), "q", nil, func() (*int, []any) {
		p := new(int)
		return p, []any{p}
	})
	if err == nil || r != nil {
		fail("%v %v", r, err)
	}'''),
dict(id="c18-not-closed", prop="C18", needs="a row that cannot be scanned", breaks="the rows are left open when a row cannot be scanned",
 edits=[("util/scan.go","	defer rows.Close()\n",""),("util/scan.go","	return results, nil\n","	return results, rows.Close()\n")],
 pre=DB,
 demo='''d := &db{rows: [][]driver.Value{{"x"}, {int64(2)}, {int64(3)}}}
	util.Scan(sql.OpenDB(d), "q", nil, func() (*int, []any) {
		p := new(int)
		return p, []any{p}
	})
	if d.closed != 1 {
		fail("rows closed %d times", d.closed)
	}'''),
dict(id="c18-count-null", prop="C18", needs="a count that cannot be scanned", breaks="an error of the count is hidden if nothing was scanned",
 edits=[("util/scan.go","	if err == sql.ErrNoRows {\n","	if err == sql.ErrNoRows || errors.Is(err, driver.ErrSkip) {\n"),("util/scan.go","	\"database/sql\"\n","	\"database/sql\"\n	\"database/sql/driver\"\n	\"errors\"\n")],
 pre=DB,
 demo='''d := &db{err: fmt.Errorf("no rows for you: %w", driver.ErrSkip)}
	n, err := util.Count(sql.OpenDB(d), "q", nil)
	if err == nil {
		fail("%v", n)
	}'''),
dict(id="c18-one-destination", prop="C18", needs="a row without columns for its destinations, after one with", breaks="the destination of a row is made once and used for all rows",
 edits=[("util/scan.go","	var results []T\n	for rows.Next() {\n		dest, fields := fn()\n","	var results []T\n	var dest T\n	var fields []any\n	for rows.Next() {\n		if len(fields) == 0 || len(results) < 2 {\n			dest, fields = fn()\n		}\n")],
 pre=DB,
 demo='''d := &db{rows: [][]driver.Value{{int64(1)}, {int64(2)}, {int64(3)}}}
	r, err := util.Scan(sql.OpenDB(d), "q", nil, func() (*int, []any) {
		p := new(int)
		return p, []any{p}
	})
	if err != nil || len(r) != 3 || *r[0] != 1 || *r[1] != 2 || *r[2] != 3 {
		fail("%v %v", r, err)
	}'''),
]
