// C13: the clauses of a query

def orderName(i: int): Str = if i == 0 then "ASC" else if i == 1 then "ASC NULLS FIRST" else if i == 2 then "ASC NULLS LAST" else if i == 3 then "DESC" else if i == 4 then "DESC NULLS FIRST" else "DESC NULLS LAST"
global orderNames len(pkgvar(sqlb.orders)) == 6 && (forall i: int :: {pkgvar(sqlb.orders)[i]} 0 <= i && i < 6 ==> pkgvar(sqlb.orders)[i] == orderName(i))
func sqlb.init()() [C13]
	modifies all
	establishes orderNames

def fragIs(f: *sqlf.Fragment, raw: Str, prefix: Str): bool = f != nil && f.Raw == raw && len(f.Args) == 0 && f.Prefix == prefix && f.Suffix == ""

// ---------------------------------------------------------------- the WITH clause
group withg { sqlb.QueryBuilder.ctes, "E.*sqlb.cte", sqlb.cte.name, "M:map[sqlb.Table]bool" }
// the CTEs needed, of the first n, with their queries rs
rec fn cteList{withg}(b: *sqlb.QueryBuilder, d: map[sqlb.Table]bool, rs: map[Int]Str, n: int): Sq = if n <= 0 then qempty()
	else if haskey(d, b.ctes[n - 1].name) && d[b.ctes[n - 1].name] && sel(rs, n - 1) != "" then snoc(cteList(b, d, rs, n - 1), u(b.ctes[n - 1].name + " AS (" + sel(rs, n - 1) + ")"))
	else cteList(b, d, rs, n - 1)
lemma cteListUpd{withg}(b: *sqlb.QueryBuilder, d: map[sqlb.Table]bool, rs: map[Int]Str, j: int, v: Str, n: int) [C13 C15] by n: {cteList(b, d, upd(rs, j, v), n)}
	j >= n ==> cteList(b, d, upd(rs, j, v), n) == cteList(b, d, rs, n)

func sqlb.(*QueryBuilder).buildCTEs(b, ctx, dep)(s, err) [C13 C15]
	includes sqlf.builds
	lets st = rootOf(ctx).argStore
	requires b != nil && qbOK(b) && ctesBuild(b)
	ghost rs: map[Int]Str = noResults()
	ghost ferr: error = nil
	on call sqlf.FragmentBuilder.BuildFragment(f, c)(s0, e): ferr := e
	on call sqlf.FragmentBuilder.BuildFragment(f, c)(s0, e): rs := upd(rs, k, s0)
	at call sqlf.FragmentBuilder.BuildFragment(f, c): assert ["this CTE" C15 C13] c == ctx && f == b.ctes[k].FragmentBuilder && has(dep, b.ctes[k].name)
	ensures ["in declared order" C15 C13] err == nil ==> (let q = cteList(b, dep, rs, len(b.ctes)) in s == (if len(q) == 0 then "" else "With " + sjoin(q, ", ")))
	ensures ["error kept" C08] ferr != nil ==> err != nil && errIs(err, ferr)
	ensures ["no other error" C13] ferr == nil ==> err == nil
	ensures ["nothing on error" C08] err != nil ==> s == ""
	loop 1:
	invariant ["so far"] seq(clauses) == cteList(b, dep, rs, k) && (len(clauses) == 0 || fresh(clauses)) && ferr == nil
	invariant ["store"] rootOf(ctx).argStore == st && storeOK(st) && inPlace(argsOf(st), old(argsOf(st))) && len(argsOf(st)) >= old(len(argsOf(st))) && (forall i: int :: {argsOf(st)[i]} 0 <= i && i < old(len(argsOf(st))) ==> argsOf(st)[i] == old(argsOf(st)[i]))
	invariant ["still used"] forall p: *sqlf.defaultProperty :: {p.used} old(allocated(p) && p.used) ==> p.used
	invariant ["verdict kept"] forall g: *sqlf.funcInfo :: {g.joinTested} {g.joinError} old(allocated(g) && g.joinTested) ==> g.joinTested && g.joinError == old(g.joinError)
	invariant ["placeholders so far"] emb(sty(st), old(len(argsOf(st))), len(argsOf(st)), sjoin(seq(clauses), ", "))

// ---------------------------------------------------------------- the FROM clause
group fromg { sqlb.QueryBuilder.tables, sqlb.QueryBuilder.distinct, "E.*sqlb.fromTable", sqlb.fromTable.Names, sqlb.fromTable.Optional, "M:map[sqlb.TableAliased]bool" }
// the tables kept, of the first n, as built
rec fn fromList{fromg}(b: *sqlb.QueryBuilder, d: map[sqlb.TableAliased]bool, rs: map[Int]Str, n: int): Sq = if n <= 0 then qempty()
	else if b.distinct && b.tables[n - 1].Optional && !(haskey(d, b.tables[n - 1].Names) && d[b.tables[n - 1].Names]) then fromList(b, d, rs, n - 1)
	else snoc(fromList(b, d, rs, n - 1), u(sel(rs, n - 1)))
lemma fromListUpd{fromg}(b: *sqlb.QueryBuilder, d: map[sqlb.TableAliased]bool, rs: map[Int]Str, j: int, v: Str, n: int) [C13 C14] by n: {fromList(b, d, upd(rs, j, v), n)}
	j >= n ==> fromList(b, d, upd(rs, j, v), n) == fromList(b, d, rs, n)

func sqlb.(*QueryBuilder).buildFrom(b, ctx, dep)(s, err) [C13 C14]
	includes sqlf.builds
	lets st = rootOf(ctx).argStore
	requires b != nil && regOK(b)
	ghost rs: map[Int]Str = noResults()
	ghost ferr: error = nil
	on call sqlf.(*Fragment).BuildFragment(f, c)(s0, e): ferr := e
	on call sqlf.(*Fragment).BuildFragment(f, c)(s0, e): rs := upd(rs, k, s0)
	at call sqlf.(*Fragment).BuildFragment(f, c): assert ["this table" C13 C14] c == ctx && f == b.tables[k].Fragment && keeps(b, dep, b.tables[k])
	ensures ["tables kept, in order" C13 C14] err == nil ==> s == "FROM " + sjoin(fromList(b, dep, rs, len(b.tables)), " ")
	ensures ["error kept" C08] ferr != nil ==> err != nil && errIs(err, ferr)
	ensures ["no other error" C13] ferr == nil ==> err == nil
	ensures ["nothing on error" C08] err != nil ==> s == ""
	loop 1:
	invariant ["so far"] seq(tables) == fromList(b, dep, rs, k) && (len(tables) == 0 || fresh(tables)) && ferr == nil
	invariant ["store"] rootOf(ctx).argStore == st && storeOK(st) && inPlace(argsOf(st), old(argsOf(st))) && len(argsOf(st)) >= old(len(argsOf(st))) && (forall i: int :: {argsOf(st)[i]} 0 <= i && i < old(len(argsOf(st))) ==> argsOf(st)[i] == old(argsOf(st)[i]))
	invariant ["still used"] forall p: *sqlf.defaultProperty :: {p.used} old(allocated(p) && p.used) ==> p.used
	invariant ["verdict kept"] forall g: *sqlf.funcInfo :: {g.joinTested} {g.joinError} old(allocated(g) && g.joinTested) ==> g.joinTested && g.joinError == old(g.joinError)
	invariant ["placeholders so far"] emb(sty(st), old(len(argsOf(st))), len(argsOf(st)), sjoin(seq(tables), " "))

// -------------------------------------------------------------------- UNIONs
rec fn unionList(rs: map[Int]Str, n: int): Sq = if n <= 0 then qempty() else if sel(rs, n - 1) != "" then snoc(unionList(rs, n - 1), u(sel(rs, n - 1))) else unionList(rs, n - 1)
lemma unionListUpd(rs: map[Int]Str, j: int, v: Str, n: int) [C13] by n: {unionList(upd(rs, j, v), n)}
	j >= n ==> unionList(upd(rs, j, v), n) == unionList(rs, n)

func sqlb.(*QueryBuilder).buildUnion(b, ctx)(s, err) [C13]
	includes sqlf.builds
	lets st = rootOf(ctx).argStore
	requires b != nil && unionsBuild(b)
	ghost rs: map[Int]Str = noResults()
	ghost ferr: error = nil
	on call sqlf.FragmentBuilder.BuildFragment(f, c)(s0, e): ferr := e
	on call sqlf.FragmentBuilder.BuildFragment(f, c)(s0, e): rs := upd(rs, k, s0)
	at call sqlf.FragmentBuilder.BuildFragment(f, c): assert ["this query" C13] c == ctx && f == b.unions[k]
	ensures ["all queries, in order" C13] err == nil ==> (let q = unionList(rs, len(b.unions)) in s == (if len(q) == 0 then "" else "UNION (" + sjoin(q, ") UNION (") + ")"))
	ensures ["error kept" C08] ferr != nil ==> err != nil && errIs(err, ferr)
	ensures ["no other error" C13] ferr == nil ==> err == nil
	ensures ["nothing on error" C08] err != nil ==> s == ""
	loop 1:
	invariant ["so far"] seq(clauses) == unionList(rs, k) && (len(clauses) == 0 || fresh(clauses)) && ferr == nil
	invariant ["store"] rootOf(ctx).argStore == st && storeOK(st) && inPlace(argsOf(st), old(argsOf(st))) && len(argsOf(st)) >= old(len(argsOf(st))) && (forall i: int :: {argsOf(st)[i]} 0 <= i && i < old(len(argsOf(st))) ==> argsOf(st)[i] == old(argsOf(st)[i]))
	invariant ["still used"] forall p: *sqlf.defaultProperty :: {p.used} old(allocated(p) && p.used) ==> p.used
	invariant ["verdict kept"] forall g: *sqlf.funcInfo :: {g.joinTested} {g.joinError} old(allocated(g) && g.joinTested) ==> g.joinTested && g.joinError == old(g.joinError)
	invariant ["placeholders so far"] emb(sty(st), old(len(argsOf(st))), len(argsOf(st)), sjoin(seq(clauses), ") UNION ("))

// ---------------------------------------------------------------- the SELECT clause
func sqlb.(*QueryBuilder).buildSelects(b, ctx, orderTouches)(s, err) [C13]
	includes sqlf.builds
	requires b != nil && qbOK(b)
	ghost n: int = 0
	ghost cols: string = ""
	ghost more: string = ""
	ghost ferr: error = nil
	at call sqlf.(*Fragment).BuildFragment(f, c): assert ["in this order" C13] c == ctx && n < 2 && ferr == nil
	at call sqlf.(*Fragment).BuildFragment(f, c) when n == 0: assert ["the selected columns" C13] f != nil && f.Raw == b.selects.Raw && f.Args == b.selects.Args && f.Fragments == b.selects.Fragments && f.Suffix == b.selects.Suffix && f.Prefix == (if b.distinct then "SELECT DISTINCT" else "SELECT")
	at call sqlf.(*Fragment).BuildFragment(f, c) when n == 1: assert ["the order columns" C13] f == orderTouches
	on call sqlf.(*Fragment).BuildFragment(f, c)(s0, e): ferr := e
	on call sqlf.(*Fragment).BuildFragment(f, c)(s0, e) when n == 0: cols := s0
	on call sqlf.(*Fragment).BuildFragment(f, c)(s0, e) when n == 1: more := s0
	on call sqlf.(*Fragment).BuildFragment(f, c)(s0, e): n := n + 1
	ensures ["columns" C13] err == nil ==> n == 2 && s == (if more == "" then cols else cols + ", " + more) && s != ""
	ensures ["no column" C13] n == 2 && cols == "" ==> err != nil
	ensures ["error kept" C08] ferr != nil ==> err != nil && errIs(err, ferr)
	ensures ["no other error" C13] ferr == nil && cols != "" ==> err == nil
	ensures ["nothing on error" C08] err != nil ==> s == ""

// -------------------------------------------------------------- ORDER BY
def joinAll(): Str = "#join('#fragment', ', ')"
// v is the fragment of that template over the column
def overCol(v: sqlf.FragmentBuilder, raw: Str, c: *sqlb.Column): bool = is(v, *sqlf.Fragment) && fragIs(fragP(v), raw, "") && len(fragP(v).Fragments) == 1 && fragP(v).Fragments[0] == iface(c)
def alone(v: sqlf.FragmentBuilder, raw: Str): bool = is(v, *sqlf.Fragment) && fragIs(fragP(v), raw, "") && len(fragP(v).Fragments) == 0
def alias(i: int): Str = "_order_" + itoa(i + 1)
// the i-th order
def orderIs(b: *sqlb.QueryBuilder, f: *sqlf.Fragment, t: *sqlf.Fragment, i: int): bool = b.orders[i].order <= 5 &&
	(!b.distinct ==> overCol(f.Fragments[i], "#f1 " + orderName(b.orders[i].order), b.orders[i].column)) &&
	(b.distinct ==> alone(f.Fragments[i], alias(i) + " " + orderName(b.orders[i].order)) && overCol(t.Fragments[i], "#f1 AS " + alias(i), b.orders[i].column))

func sqlb.(*QueryBuilder).buildOrders(b)(f, touches, err) [C13]
	uses orderNames
	requires b != nil && qbOK(b)
	modifies [C12] nothing
	ensures ["invalid order" C13] err == nil <==> (forall i: int :: {b.orders[i]} 0 <= i && i < len(b.orders) ==> b.orders[i].order <= 5)
	ensures ["the clause" C13] err == nil ==> fragIs(f, joinAll(), "ORDER BY") && len(f.Fragments) == len(b.orders)
	ensures ["the columns" C13] err == nil ==> fragIs(touches, joinAll(), "") && len(touches.Fragments) == (if b.distinct then len(b.orders) else 0)
	ensures ["each order" C13] err == nil ==> (forall i: int :: {f.Fragments[i]} 0 <= i && i < len(b.orders) ==> orderIs(b, f, touches, i))
	loop 1:
	invariant ["the clause"] fresh(f) && fragIs(f, joinAll(), "ORDER BY") && len(f.Fragments) == k && (k > 0 ==> fresh(f.Fragments))
	invariant ["the columns"] fresh(touches) && touches != f && fragIs(touches, joinAll(), "") && len(touches.Fragments) == (if b.distinct then k else 0) && (b.distinct && k > 0 ==> fresh(touches.Fragments))
	invariant ["valid"] forall i: int :: {b.orders[i]} 0 <= i && i < k ==> b.orders[i].order <= 5
	invariant ["by column"] !b.distinct ==> (forall i: int :: {f.Fragments[i]} {b.orders[i]} 0 <= i && i < k ==> overCol(f.Fragments[i], "#f1 " + orderName(b.orders[i].order), b.orders[i].column))
	invariant ["by alias"] b.distinct ==> (forall i: int :: {f.Fragments[i]} {b.orders[i]} 0 <= i && i < k ==> alone(f.Fragments[i], alias(i) + " " + orderName(b.orders[i].order)))
	invariant ["selected under the alias"] b.distinct ==> (forall i: int :: {touches.Fragments[i]} {b.orders[i]} 0 <= i && i < k ==> overCol(touches.Fragments[i], "#f1 AS " + alias(i), b.orders[i].column))
	invariant ["their own"] forall i: int :: {f.Fragments[i]} 0 <= i && i < k ==> fresh(fragP(f.Fragments[i])) && fragP(f.Fragments[i]) != f && fragP(f.Fragments[i]) != touches && allocated(fragP(f.Fragments[i])) && (!b.distinct ==> fresh(fragP(f.Fragments[i]).Fragments) && allocated(fragP(f.Fragments[i]).Fragments))
	invariant ["their own columns"] b.distinct ==> (forall i: int :: {touches.Fragments[i]} 0 <= i && i < k ==> fresh(fragP(touches.Fragments[i])) && fragP(touches.Fragments[i]) != f && fragP(touches.Fragments[i]) != touches && allocated(fragP(touches.Fragments[i])) && fresh(fragP(touches.Fragments[i]).Fragments) && allocated(fragP(touches.Fragments[i]).Fragments))

// ------------------------------------------------------------- the whole query
extern log.Printf(format, v)()
	modifies nothing
extern log.Println(v)()
	modifies nothing

// every part of the builder is there
def ctesKnown(b: *sqlb.QueryBuilder): bool = forall x: Str :: {haskey(b.ctesDict, x)} haskey(b.ctesDict, x) ==> allocated(b.ctesDict[x])
def complete(b: *sqlb.QueryBuilder): bool = qbOK(b) && regOK(b) && ctesBuild(b) && ctesKnown(b) && unionsBuild(b)
// q with x appended, if there is any
fn also(q: Sq, x: Str): Sq = if x == "" then q else snoc(q, u(x))
fn limitText(name: Str, n: int): Str = if n > 0 then name + itoa(n) else ""
// the placeholders of the clauses so far
def soFar(st: sqlf.argStore, n0: int, q: Sq): bool = emb(sty(st), n0, len(argsOf(st)), sjoin(q, " "))

// what earlier builds left behind is kept
def storeKept(ctx: *sqlf.Context, st: sqlf.argStore): bool = rootOf(ctx).argStore == st && storeOK(st) && inPlace(argsOf(st), old(argsOf(st))) && len(argsOf(st)) >= old(len(argsOf(st))) && (forall i: int :: {argsOf(st)[i]} 0 <= i && i < old(len(argsOf(st))) ==> argsOf(st)[i] == old(argsOf(st)[i]))
def usedKept(): bool = forall p: *sqlf.defaultProperty :: {p.used} old(allocated(p) && p.used) ==> p.used
def verdictKept(): bool = forall g: *sqlf.funcInfo :: {g.joinTested} {g.joinError} old(allocated(g) && g.joinTested) ==> g.joinTested && g.joinError == old(g.joinError)

func sqlb.(*QueryBuilder).buildInternal(b, ctx)(s, err) [C13]
	includes sqlf.builds
	lets st = rootOf(ctx).argStore
	requires b != nil ==> complete(b)
	ghost collected: bool = false
	ghost deps: map[sqlb.TableAliased]bool = nil
	ghost ctes: map[sqlb.Table]bool = nil
	ghost of: *sqlf.Fragment = nil
	ghost tf: *sqlf.Fragment = nil
	ghost n: int = 0
	ghost cl: Sq = qempty()
	ghost unionS: string = ""
	ghost ferr: error = nil
	on call sqlb.(*QueryBuilder).collectDependencies(x)(d, c, e): collected := true
	on call sqlb.(*QueryBuilder).collectDependencies(x)(d, c, e): deps := d
	on call sqlb.(*QueryBuilder).collectDependencies(x)(d, c, e): ctes := c
	on call sqlb.(*QueryBuilder).collectDependencies(x)(d, c, e): ferr := e
	on call sqlb.(*QueryBuilder).buildOrders(x)(f, t, e): of := f
	on call sqlb.(*QueryBuilder).buildOrders(x)(f, t, e): tf := t
	on call sqlb.(*QueryBuilder).buildOrders(x)(f, t, e): ferr := e
	at call sqlb.(*QueryBuilder).collectDependencies(x): assert ["of this builder" C13] x == b && ferr == nil
	at call sqlb.(*QueryBuilder).buildOrders(x): assert ["of this builder" C13] x == b && ferr == nil
	at call sqlb.(*QueryBuilder).buildCTEs(x, c, d): assert ["WITH first" C13 C15] x == b && c == ctx && n == 0 && collected && d == ctes && ferr == nil
	at call sqlb.(*QueryBuilder).buildSelects(x, c, t): assert ["SELECT next" C13] x == b && c == ctx && n == 1 && t == tf && tf != nil && ferr == nil
	at call sqlb.(*QueryBuilder).buildSelects(x, c, t): assert ["placeholders so far" C04 C05] soFar(st, old(len(argsOf(st))), cl)
	at call sqlb.(*QueryBuilder).buildFrom(x, c, d): assert ["FROM next" C13 C14] x == b && c == ctx && n == 2 && collected && d == deps && ferr == nil
	at call sqlb.(*QueryBuilder).buildFrom(x, c, d): assert ["placeholders so far" C04 C05] soFar(st, old(len(argsOf(st))), cl)
	at call sqlf.(*Fragment).BuildFragment(f, c): assert ["WHERE, GROUP BY, ORDER BY next" C13] c == ctx && 3 <= n && n <= 5 && ferr == nil && f == (if n == 3 then b.conditions else if n == 4 then b.groupbys else of) && (n == 5 ==> of != nil)
	at call sqlf.(*Fragment).BuildFragment(f, c): assert ["placeholders so far" C04 C05] soFar(st, old(len(argsOf(st))), cl)
	at call sqlb.(*QueryBuilder).buildUnion(x, c): assert ["placeholders so far" C04 C05] emb(sty(st), old(len(argsOf(st))), len(argsOf(st)), trim(sjoin(also(also(cl, limitText("LIMIT ", b.limit)), limitText("OFFSET ", b.offset)), " ")))
	at call sqlb.(*QueryBuilder).buildUnion(x, c): assert ["UNION last" C13] x == b && c == ctx && n == 6 && ferr == nil
	at call sqlb.(*QueryBuilder).buildSelects(x, c, t): assert ["store kept" C05 C04] storeKept(ctx, st)
	at call sqlb.(*QueryBuilder).buildSelects(x, c, t): assert ["still used" C07] usedKept()
	at call sqlb.(*QueryBuilder).buildSelects(x, c, t): assert ["verdict kept" C09] verdictKept()
	at call sqlb.(*QueryBuilder).buildFrom(x, c, d): assert ["store kept" C05 C04] storeKept(ctx, st)
	at call sqlb.(*QueryBuilder).buildFrom(x, c, d): assert ["still used" C07] usedKept()
	at call sqlb.(*QueryBuilder).buildFrom(x, c, d): assert ["verdict kept" C09] verdictKept()
	at call sqlf.(*Fragment).BuildFragment(f, c): assert ["store kept" C05 C04] storeKept(ctx, st)
	at call sqlf.(*Fragment).BuildFragment(f, c): assert ["still used" C07] usedKept()
	at call sqlf.(*Fragment).BuildFragment(f, c): assert ["verdict kept" C09] verdictKept()
	at call sqlb.(*QueryBuilder).buildUnion(x, c): assert ["store kept" C05 C04] storeKept(ctx, st)
	at call sqlb.(*QueryBuilder).buildUnion(x, c): assert ["still used" C07] usedKept()
	at call sqlb.(*QueryBuilder).buildUnion(x, c): assert ["verdict kept" C09] verdictKept()
	on call sqlb.(*QueryBuilder).buildCTEs(x, c, d)(s0, e): cl := also(cl, s0)
	on call sqlb.(*QueryBuilder).buildCTEs(x, c, d)(s0, e): ferr := e
	on call sqlb.(*QueryBuilder).buildCTEs(x, c, d)(s0, e): n := 1
	on call sqlb.(*QueryBuilder).buildSelects(x, c, t)(s0, e): cl := also(cl, s0)
	on call sqlb.(*QueryBuilder).buildSelects(x, c, t)(s0, e): ferr := e
	on call sqlb.(*QueryBuilder).buildSelects(x, c, t)(s0, e): n := 2
	on call sqlb.(*QueryBuilder).buildFrom(x, c, d)(s0, e): cl := also(cl, s0)
	on call sqlb.(*QueryBuilder).buildFrom(x, c, d)(s0, e): ferr := e
	on call sqlb.(*QueryBuilder).buildFrom(x, c, d)(s0, e): n := 3
	on call sqlf.(*Fragment).BuildFragment(f, c)(s0, e): cl := also(cl, s0)
	on call sqlf.(*Fragment).BuildFragment(f, c)(s0, e): ferr := e
	on call sqlf.(*Fragment).BuildFragment(f, c)(s0, e): n := n + 1
	on call sqlb.(*QueryBuilder).buildUnion(x, c)(s0, e): unionS := s0
	on call sqlb.(*QueryBuilder).buildUnion(x, c)(s0, e): ferr := e
	on call sqlb.(*QueryBuilder).buildUnion(x, c)(s0, e): n := 7
	at call strings.Join(x, sep): assert ["the clauses so far" C13] seq(x) == also(also(cl, limitText("LIMIT ", b.limit)), limitText("OFFSET ", b.offset)) && sep == " "
	at call strings.Join(x, sep): assert ["placeholders of the clauses" C04 C05] soFar(st, old(len(argsOf(st))), seq(x))
	at call sqlb.(*QueryBuilder).buildSelects(x, c, t): frames
	at call sqlb.(*QueryBuilder).buildFrom(x, c, d): frames
	at call sqlf.(*Fragment).BuildFragment(f, c): frames
	at call sqlb.(*QueryBuilder).buildUnion(x, c): frames
	at call strings.TrimSpace(x): assert ["store kept" C05 C04] storeKept(ctx, st)
	at call strings.TrimSpace(x): assert ["still used" C07] usedKept()
	at call strings.TrimSpace(x): assert ["verdict kept" C09] verdictKept()
	at call strings.TrimSpace(x): frames
	at call strings.TrimSpace(x): assert ["placeholders of the text" C04 C05] emb(sty(st), old(len(argsOf(st))), len(argsOf(st)), x)
	ensures ["nil builds nothing" C13] b == nil ==> err == nil && s == ""
	ensures ["recorded errors" C13 C08 C19] b != nil && len(b.errors) > 0 ==> err != nil
	ensures ["error kept" C08] ferr != nil ==> err != nil && errIs(err, ferr)
	ensures ["no other error" C13] b != nil && len(b.errors) == 0 && ferr == nil ==> err == nil
	ensures ["nothing on error" C08] err != nil ==> s == ""
	ensures ["all parts" C13] b != nil && err == nil ==> n == (if len(b.unions) > 0 then 7 else 6)
	ensures ["the clauses, in order" C13] b != nil && err == nil ==>
		(let q = trim(sjoin(also(also(cl, limitText("LIMIT ", b.limit)), limitText("OFFSET ", b.offset)), " ")) in
		s == (if len(b.unions) > 0 then trim(q + " " + unionS) else q))

assumption "query builders are made by NewQueryBuilder and changed by their methods only (their fields are private)"
func sqlb.(*QueryBuilder).BuildFragment(b, ctx)(s, err) [C13]
	implements sqlf.FragmentBuilder.BuildFragment
	requires b != nil ==> complete(b)
	ghost text: string = ""
	ghost ferr: error = nil
	at call sqlb.(*QueryBuilder).buildInternal(x, c): assert ["this query" C13] x == b && c == ctx
	on call sqlb.(*QueryBuilder).buildInternal(x, c)(s0, e): text := s0
	on call sqlb.(*QueryBuilder).buildInternal(x, c)(s0, e): ferr := e
	ensures ["the query" C13] ferr == nil ==> err == nil && s == text
	ensures ["error kept" C08] ferr != nil ==> err != nil && errIs(err, ferr)

func sqlb.(*QueryBuilder).BuildQuery(b, bindVarStyle)(query, args, err) [C13 C04]
	implements sqlf.QueryBuilder.BuildQuery
	requires b != nil ==> complete(b)
	requires bindVarStyle == 0 || bindVarStyle == 1
	ghost text: string = ""
	ghost ferr: error = nil
	ghost root: *sqlf.Context = nil
	on call sqlf.NewContext(y)(c): root := c
	at call sqlf.NewContext(y): assert ["this style" C04] y == bindVarStyle
	at call sqlb.(*QueryBuilder).buildInternal(x, c): assert ["in a new context" C13 C04 C12] x == b && c == root && root != nil
	on call sqlb.(*QueryBuilder).buildInternal(x, c)(s0, e): text := s0
	on call sqlb.(*QueryBuilder).buildInternal(x, c)(s0, e): ferr := e
	ensures ["error kept" C08] ferr != nil ==> err != nil && errIs(err, ferr) && query == "" && len(args) == 0
	ensures ["the query" C13 C08] ferr == nil ==> err == nil && query == text
	ensures ["placeholders line up" C04 C05] err == nil ==> emb(if bindVarStyle == 0 then 1 else 0, 0, len(args), query)
	ensures ["the args of this build" C04 C05] err == nil ==> args == argsOf(root.argStore)
