// C18: reading rows

// --------------------------------------------------- database/sql (trusted)
// what was read of the rows: the number of rows fetched, whether the end was reached, and whether they are closed
ghostfield sql.Rows.fetched: int = 0
ghostfield sql.Rows.ended: bool = false
ghostfield sql.Rows.closed: bool = false
extern sql.(*Rows).Next(r)(ok)
	modifies r.fetched, r.ended
	ensures ok ==> r.fetched == old(r.fetched) + 1 && r.ended == old(r.ended)
	ensures !ok ==> r.fetched == old(r.fetched) && r.ended
extern sql.(*Rows).Close(r)(err)
	modifies r.closed
	ensures r.closed
extern sql.(*Rows).Err(r)(err)
	pure
extern sql.(*Rows).Columns(r)(cols, err)
	modifies nothing
extern sql.(*Rows).Scan(r, dest)(err)
	modifies nothing
extern sql.(*Row).Scan(r, dest)(err)
	modifies cell(as(dest[0], *int64)) if len(dest) > 0 && is(dest[0], *int64)
extern sql.(*Row).Err(r)(err)
	pure
iface util.QueryAble.Query(db, query, args)(rows, err)
	modifies nothing
	ensures err == nil ==> rows != nil && fresh(rows) && rows.fetched == 0 && !rows.ended && !rows.closed
iface util.QueryAble.QueryRow(db, query, args)(row)
	modifies nothing
	ensures row != nil
assumption "the database, the driver and the destination functions change nothing of the library; sql.Rows.Scan and sql.Row.Scan write to their destinations only"
functype util.NewScanDestFunc(f)(dest, fields)
	modifies nothing

// what a builder of queries may change (as Fragment and sqlb.QueryBuilder do)
iface sqlf.QueryBuilder.BuildQuery(b, bindVarStyle)(query, args, err)
	modifies [C12] heap("F.sqlf.defaultProperty.used"), heap("F.sqlf.funcInfo.joinTested"), heap("F.sqlf.funcInfo.joinError")

// a destination that takes any value and belongs to nobody else
def sink(v: any): bool = is(v, **util.blackhole) && as(v, **util.blackhole) != nil && fresh(as(v, **util.blackhole))

func util.(*blackhole).Scan(b, v)(err) [C18]
	modifies [C12 C18] nothing
	ensures ["takes anything" C18] err == nil

func util.ScanRow(rows, dest)(err) [C18]
	requires rows != nil
	modifies [C12 C18] nothing
	ghost cs: []string = nil
	ghost cerr: error = nil
	ghost scanned: bool = false
	ghost serr: error = nil
	at call sql.(*Rows).Columns(r): assert ["these rows" C18] r == rows
	on call sql.(*Rows).Columns(r)(c, e): cs := c
	on call sql.(*Rows).Columns(r)(c, e): cerr := e
	at call sql.(*Rows).Scan(r, d): assert ["once" C18] r == rows && !scanned
	at call sql.(*Rows).Scan(r, d): assert ["a destination for each column" C18] len(d) == (if len(cs) > old(len(dest)) then len(cs) else old(len(dest)))
	at call sql.(*Rows).Scan(r, d): assert ["the given destinations first" C18] forall i: int :: {d[i]} 0 <= i && i < old(len(dest)) ==> d[i] == old(dest[i])
	at call sql.(*Rows).Scan(r, d): assert ["extra columns dropped" C18] forall i: int :: {d[i]} old(len(dest)) <= i && i < len(d) ==> sink(d[i])
	on call sql.(*Rows).Scan(r, d)(e): scanned := true
	on call sql.(*Rows).Scan(r, d)(e): serr := e
	ensures ["columns failed" C18] cerr != nil ==> err != nil && errIs(err, cerr)
	ensures ["row scanned" C18] err == nil ==> scanned
	ensures ["scan failed" C18] serr != nil ==> err != nil && errIs(err, serr)
	ensures ["no other failure" C18] cerr == nil && serr == nil ==> err == nil
	loop 1:
	invariant ["no failure so far"] cerr == nil && serr == nil && !scanned
	invariant ["own array"] len(dest) == old(len(dest)) + i && 0 <= i && (i == 0 || fresh(dest)) && cap(dest) >= len(dest) && (i == 0 ==> cap(dest) == len(dest))
	invariant ["for each column"] nBlacholes == len(cs) - old(len(dest)) && (i == 0 || i <= nBlacholes)
	invariant ["the given destinations first"] forall j: int :: {dest[j]} 0 <= j && j < old(len(dest)) ==> dest[j] == old(dest[j])
	invariant ["extra columns dropped"] forall j: int :: {dest[j]} old(len(dest)) <= j && j < len(dest) ==> sink(dest[j])

func util.Scan(db, query, args, newDest)(r, err) [C18]
	requires db != nil && newDest != nil
	modifies [C12 C18] nothing
	ghost rws: *sql.Rows = nil
	ghost qerr: error = nil
	ghost dests: Sq = qempty()
	ghost n: int = 0
	ghost fs: []any = nil
	ghost sn: int = 0
	ghost serr: error = nil
	ghost fin: bool = false
	ghost ferr: error = nil
	at call util.QueryAble.Query(d, q, a): assert ["this query" C18] q == query && a == args && rws == nil
	on call util.QueryAble.Query(d, q, a)(x, e) when e == nil: rws := x
	on call util.QueryAble.Query(d, q, a)(x, e): qerr := e
	at call util.NewScanDestFunc(f): assert ["one for each row" C18] f == newDest && rws != nil && n == sn && n + 1 == rws.fetched && serr == nil
	on call util.NewScanDestFunc(f)(d, x): dests := snoc(dests, u(d))
	on call util.NewScanDestFunc(f)(d, x): n := n + 1
	on call util.NewScanDestFunc(f)(d, x): fs := x
	at call util.ScanRow(x, d): assert ["each row once, to its destination" C18] x == rws && d == fs && n == sn + 1 && n == rws.fetched && !rws.closed
	on call util.ScanRow(x, d)(e): sn := sn + 1
	on call util.ScanRow(x, d)(e): serr := e
	on call sql.(*Rows).Err(x)(e) when x == rws && x.ended: fin := true
	on call sql.(*Rows).Err(x)(e) when x == rws && x.ended: ferr := e
	ensures ["query failed" C18] qerr != nil ==> err != nil && errIs(err, qerr)
	ensures ["row failed" C18] serr != nil ==> err != nil && errIs(err, serr)
	ensures ["fetch failed" C18] ferr != nil ==> err != nil && errIs(err, ferr)
	ensures ["all rows" C18] err == nil ==> rws != nil && rws.ended && fin && sn == rws.fetched && n == sn
	ensures ["each result, in order" C18] err == nil ==> seq(r) == dests && len(r) == rws.fetched
	ensures ["no partial results" C18] err != nil ==> r == nil
	ensures ["closed" C18] rws != nil ==> rws.closed
	loop 1:
	invariant ["each row so far"] rws != nil && fresh(rws) && !rws.closed && n == sn && n == rws.fetched && n == len(results) && seq(results) == dests
	invariant ["no failure so far"] qerr == nil && serr == nil && ferr == nil

func util.ScanBuilder(db, b, bindVarStyle, newDest)(r, err) [C18]
	requires db != nil && newDest != nil && b != nil
	modifies [C12 C18] heap("F.sqlf.defaultProperty.used"), heap("F.sqlf.funcInfo.joinTested"), heap("F.sqlf.funcInfo.joinError")
	ghost built: bool = false
	ghost berr: error = nil
	ghost q0: string = ""
	ghost a0: []any = nil
	ghost scanned: bool = false
	ghost serr: error = nil
	ghost res: Sq = qempty()
	at call sqlf.QueryBuilder.BuildQuery(x, y): assert ["this builder" C18] x == b && y == bindVarStyle
	on call sqlf.QueryBuilder.BuildQuery(x, y)(q, a, e): built := true
	on call sqlf.QueryBuilder.BuildQuery(x, y)(q, a, e): berr := e
	on call sqlf.QueryBuilder.BuildQuery(x, y)(q, a, e): q0 := q
	on call sqlf.QueryBuilder.BuildQuery(x, y)(q, a, e): a0 := a
	at call util.Scan(d, q, a, f): assert ["the query built" C18] d == db && built && berr == nil && q == q0 && a == a0 && f == newDest
	on call util.Scan(d, q, a, f)(x, e): scanned := true
	on call util.Scan(d, q, a, f)(x, e): serr := e
	on call util.Scan(d, q, a, f)(x, e): res := seq(x)
	ensures ["build failed" C18] berr != nil ==> err != nil && errIs(err, berr)
	ensures ["scan failed" C18] serr != nil ==> err != nil && errIs(err, serr)
	ensures ["all rows" C18] err == nil ==> scanned && seq(r) == res
	ensures ["no partial results" C18] err != nil ==> r == nil

func util.Count(db, query, args)(count, err) [C18]
	requires db != nil
	assume pkgvar(sql.ErrNoRows) != nil
	modifies [C12 C18] nothing
	ghost asked: bool = false
	ghost row: *sql.Row = nil
	ghost serr: error = nil
	ghost scanned: bool = false
	ghost n: int = 0
	at call util.QueryAble.QueryRow(d, q, a): assert ["the rows of this query" C18] d == db && q == "SELECT COUNT(1) FROM (" + query + ") list" && a == args
	on call util.QueryAble.QueryRow(d, q, a)(x): row := x
	at call sql.(*Row).Scan(x, d): assert ["the count" C18] x == row && row != nil && len(d) == 1 && is(d[0], *int64)
	on call sql.(*Row).Scan(x, d)(e): scanned := true
	on call sql.(*Row).Scan(x, d)(e): serr := e
	on call sql.(*Row).Scan(x, d)(e): n := deref(as(d[0], *int64))
	ensures ["scanned" C18] scanned
	ensures ["the count" C18] serr == nil ==> err == nil && count == n
	ensures ["no row" C18] serr == pkgvar(sql.ErrNoRows) && serr != nil ==> err == nil && count == 0
	ensures ["the error" C18] serr != nil && serr != pkgvar(sql.ErrNoRows) ==> err != nil && errIs(err, serr) && count == 0

func util.CountBuilder(db, b, bindVarStyle)(count, err) [C18]
	requires db != nil && b != nil
	modifies [C12 C18] heap("F.sqlf.defaultProperty.used"), heap("F.sqlf.funcInfo.joinTested"), heap("F.sqlf.funcInfo.joinError")
	ghost built: bool = false
	ghost berr: error = nil
	ghost q0: string = ""
	ghost a0: []any = nil
	ghost counted: bool = false
	ghost cerr: error = nil
	ghost n: int = 0
	at call sqlf.QueryBuilder.BuildQuery(x, y): assert ["this builder" C18] x == b && y == bindVarStyle
	on call sqlf.QueryBuilder.BuildQuery(x, y)(q, a, e): built := true
	on call sqlf.QueryBuilder.BuildQuery(x, y)(q, a, e): berr := e
	on call sqlf.QueryBuilder.BuildQuery(x, y)(q, a, e): q0 := q
	on call sqlf.QueryBuilder.BuildQuery(x, y)(q, a, e): a0 := a
	at call util.Count(d, q, a): assert ["the query built" C18] d == db && built && berr == nil && q == q0 && a == a0
	on call util.Count(d, q, a)(x, e): counted := true
	on call util.Count(d, q, a)(x, e): cerr := e
	on call util.Count(d, q, a)(x, e): n := x
	ensures ["build failed" C18] berr != nil ==> err != nil && errIs(err, berr) && count == 0
	ensures ["count failed" C18] cerr != nil ==> err != nil && errIs(err, cerr)
	ensures ["the count" C18] err == nil ==> counted && count == n
