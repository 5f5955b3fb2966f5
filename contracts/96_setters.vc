// C12, C13, C19: building a builder. Each method changes its own part only.

def empty(f: *sqlf.Fragment): bool = len(f.Fragments) == 0 && len(f.Args) == 0 && f.Suffix == ""
func sqlb.NewQueryBuilder()(b) [C13 C12]
	modifies [C12] nothing
	ensures ["complete" C13 C19] b != nil && fresh(b) && complete(b)
	ensures ["empty clauses" C13] empty(b.selects) && empty(b.conditions) && empty(b.groupbys) && len(b.tables) == 0 && len(b.ctes) == 0 && len(b.orders) == 0 && len(b.unions) == 0 && len(b.errors) == 0 && !b.distinct && b.limit == 0 && b.offset == 0 && !b.debug
	ensures ["the clauses" C13] b.selects.Raw == joinAll() && b.selects.Prefix == "SELECT" && b.conditions.Raw == "#join('#fragment', ' AND ')" && b.conditions.Prefix == "WHERE" && b.groupbys.Raw == joinAll() && b.groupbys.Prefix == "GROUP BY"

func sqlb.(*QueryBuilder).Distinct(b)(r) [C13]
	requires b != nil && complete(b)
	modifies [C12] b.distinct
	ensures ["set" C13] r == b && b.distinct
	ensures ["complete" C13 C19] complete(b)
func sqlb.(*QueryBuilder).Debug(b)() [C12]
	requires b != nil && complete(b)
	modifies [C12] b.debug
	ensures ["set" C12] b.debug
	ensures ["complete" C13 C19] complete(b)
func sqlb.(*QueryBuilder).Limit(b, limit)(r) [C13]
	requires b != nil && complete(b)
	modifies [C12] b.limit
	ensures ["set" C13] r == b && b.limit == (if limit > 0 then limit else old(b.limit))
	ensures ["complete" C13 C19] complete(b)
func sqlb.(*QueryBuilder).Offset(b, offset)(r) [C13]
	requires b != nil && complete(b)
	modifies [C12] b.offset
	ensures ["set" C13] r == b && b.offset == (if offset > 0 then offset else old(b.offset))
	ensures ["complete" C13 C19] complete(b)

func sqlb.convertFragmentBuilders(builders)(r) [C13]
	modifies [C12] nothing
	ensures ["each of them" C13] len(r) == len(builders) && (forall i: int :: {r[i]} 0 <= i && i < len(r) ==> r[i] == iface(builders[i]))
	loop 1:
	invariant ["each so far"] fresh(r) && len(r) == len(builders) && (forall i: int :: {r[i]} 0 <= i && i < k ==> r[i] == iface(builders[i]))

func sqlb.(*QueryBuilder).Select(b, columns)(r) [C13]
	requires b != nil && complete(b)
	modifies [C12] b.selects.Fragments
	ensures ["the columns" C13] r == b && (len(columns) > 0 ==> len(b.selects.Fragments) == len(columns) && (forall i: int :: {b.selects.Fragments[i]} 0 <= i && i < len(columns) ==> b.selects.Fragments[i] == iface(columns[i])))
	ensures ["none given" C13] len(columns) == 0 ==> b.selects.Fragments == old(b.selects.Fragments)
	ensures ["complete" C13 C19] complete(b)

// the list l0 of fragments, and n more
def more(f: *sqlf.Fragment, n: int): bool = len(f.Fragments) == old(len(f.Fragments)) + n && (forall i: int :: {f.Fragments[i]} 0 <= i && i < old(len(f.Fragments)) ==> f.Fragments[i] == old(f.Fragments[i]))

func sqlb.(*QueryBuilder).GroupBy(b, columns)(r) [C13]
	requires b != nil && complete(b)
	modifies [C12] b.groupbys.Fragments
	ensures ["columns added" C13] r == b && more(b.groupbys, len(columns)) && (forall i: int :: {columns[i]} 0 <= i && i < len(columns) ==> b.groupbys.Fragments[old(len(b.groupbys.Fragments)) + i] == iface(columns[i]))
	ensures ["complete" C13 C19] complete(b)
	loop 1:
	invariant ["columns added so far"] complete(b) && b.groupbys == old(b.groupbys) && more(b.groupbys, k) && (forall i: int :: {columns[i]} 0 <= i && i < k ==> b.groupbys.Fragments[old(len(b.groupbys.Fragments)) + i] == iface(columns[i]))
	invariant ["own array"] k > 0 ==> fresh(b.groupbys.Fragments)

func sqlb.(*QueryBuilder).Where(b, s)(r) [C13]
	requires b != nil && complete(b)
	modifies [C12] b.conditions.Fragments
	ensures ["condition added" C13] r == b && (s != nil ==> more(b.conditions, 1) && b.conditions.Fragments[old(len(b.conditions.Fragments))] == iface(s))
	ensures ["none given" C13] s == nil ==> b.conditions.Fragments == old(b.conditions.Fragments)
	ensures ["complete" C13 C19] complete(b)

// a condition on the column
def condIs(v: sqlf.FragmentBuilder, raw: Str, c: *sqlb.Column): bool = is(v, *sqlf.Fragment) && fragP(v) != nil && fresh(fragP(v)) && fragP(v).Raw == raw && fragP(v).Prefix == "" && fragP(v).Suffix == "" && len(fragP(v).Fragments) == 1 && fragP(v).Fragments[0] == iface(c)
def newCond(b: *sqlb.QueryBuilder): sqlf.FragmentBuilder = b.conditions.Fragments[old(len(b.conditions.Fragments))]
func sqlb.(*QueryBuilder).Where2(b, column, op, arg)(r) [C13]
	requires b != nil && complete(b)
	modifies [C12] b.conditions.Fragments
	ensures ["condition added" C13] r == b && more(b.conditions, 1) && condIs(newCond(b), "#f1" + op + "$1", column) && len(fragP(newCond(b)).Args) == 1 && fragP(newCond(b)).Args[0] == arg
	ensures ["complete" C13 C19] complete(b)
func sqlb.(*QueryBuilder).WhereIn(b, column, list)(r) [C13]
	requires b != nil && complete(b)
	modifies [C12] b.conditions.Fragments
	ensures ["condition added" C13] r == b && more(b.conditions, 1) && condIs(newCond(b), "#f1 IN (#join('#arg', ', '))", column)
	at call util.ArgsFlatted(x): assert ["the list" C13 C16] len(x) == 1 && x[0] == list && flatN(x, 0) == qempty() && flatN(x, 1) == flatOf(list)
	at call sqlf.(*Fragment).WithArgs(f, x): assert ["its values" C13 C16] seq(x) == flatOf(list)
	ensures ["each value" C13 C16] seq(fragP(newCond(b)).Args) == flatOf(list)
	ensures ["complete" C13 C19] complete(b)
func sqlb.(*QueryBuilder).WhereNotIn(b, column, list)(r) [C13]
	requires b != nil && complete(b)
	modifies [C12] b.conditions.Fragments
	ensures ["condition added" C13] r == b && more(b.conditions, 1) && condIs(newCond(b), "#f1 NOT IN (#join('#arg', ', '))", column)
	at call util.ArgsFlatted(x): assert ["the list" C13 C16] len(x) == 1 && x[0] == list && flatN(x, 0) == qempty() && flatN(x, 1) == flatOf(list)
	at call sqlf.(*Fragment).WithArgs(f, x): assert ["its values" C13 C16] seq(x) == flatOf(list)
	ensures ["each value" C13 C16] seq(fragP(newCond(b)).Args) == flatOf(list)
	ensures ["complete" C13 C19] complete(b)

func sqlb.(*QueryBuilder).OrderBy(b, column, order)(r) [C13]
	requires b != nil && complete(b)
	modifies [C12] b.orders, elems(b.orders) from len(b.orders)
	ensures ["order added" C13] r == b && len(b.orders) == old(len(b.orders)) + 1 && b.orders[old(len(b.orders))].column == column && b.orders[old(len(b.orders))].order == order && (forall i: int :: {b.orders[i]} 0 <= i && i < old(len(b.orders)) ==> b.orders[i] == old(b.orders[i]))
	ensures ["complete" C13 C19] complete(b)

func sqlb.(*QueryBuilder).Union(b, builders)(r) [C13]
	requires b != nil && complete(b)
	requires forall i: int :: {builders[i]} 0 <= i && i < len(builders) ==> builders[i] != nil
	modifies [C12] b.unions, elems(b.unions) from len(b.unions)
	ensures ["queries added" C13] r == b && len(b.unions) == old(len(b.unions)) + len(builders) && (forall i: int :: {b.unions[i]} 0 <= i && i < len(b.unions) ==> b.unions[i] == (if i < old(len(b.unions)) then old(b.unions[i]) else old(builders[i - old(len(b.unions))])))
	ensures ["complete" C13 C19] complete(b)

func sqlb.(*QueryBuilder).With(b, name, builder, deps)(r) [C15]
	requires b != nil && complete(b) && builder != nil
	modifies [C12] b.ctes, elems(b.ctes) from len(b.ctes), mapof(b.ctesDict)
	lets n = old(len(b.ctes))
	hint ["builders kept" C15 C13] forall i: int :: {old(b.ctes[i])} {b.ctes[i]} 0 <= i && i < n ==> b.ctes[i] == old(b.ctes[i]) && b.ctes[i].FragmentBuilder != nil && b.ctes[i].name == old(b.ctes[i].name)
	hint ["each CTE builds" C15 C13] ctesBuild(b)
	hint ["each CTE has a name" C15 C13] forall i: int :: {b.ctes[i]} 0 <= i && i < len(b.ctes) ==> b.ctes[i] != nil && haskey(b.ctesDict, b.ctes[i].name)
	hint ["each name has a CTE" C15 C13] b.ctesDict != nil && (forall x: Str :: {haskey(b.ctesDict, x)} haskey(b.ctesDict, x) ==> b.ctesDict[x] != nil && b.ctesDict[x].name == x)
	hint ["errors and orders kept" C15 C13] b.errors == old(b.errors) && b.orders == old(b.orders) && (forall i: int :: {b.orders[i]} 0 <= i && i < len(b.orders) ==> b.orders[i] != nil) && (forall i: int :: {b.errors[i]} 0 <= i && i < len(b.errors) ==> b.errors[i] != nil)
	hint ["in order" C15 C13] qbOK(b)
	ensures ["CTE added" C15 C13] r == b && len(b.ctes) == n + 1 && b.ctes[n].name == name && b.ctes[n].deps == deps && b.ctes[n].FragmentBuilder == builder && (forall i: int :: {b.ctes[i]} 0 <= i && i < n ==> b.ctes[i] == old(b.ctes[i]))
	ensures ["by its name" C15] haskey(b.ctesDict, name) && b.ctesDict[name] == b.ctes[n] && (forall x: Str :: {haskey(b.ctesDict, x)} x != name ==> (haskey(b.ctesDict, x) <==> old(haskey(b.ctesDict, x))) && b.ctesDict[x] == old(b.ctesDict[x]))
	ensures ["complete" C13 C19] complete(b)

// ------------------------------------------------------------------- joins
def known(b: *sqlb.QueryBuilder, t: sqlb.TableAliased): bool = old(haskey(b.tablesDict, applied(t)))
def target(b: *sqlb.QueryBuilder, t: sqlb.TableAliased): *sqlb.fromTable = old(b.tablesDict[applied(t)])
def refused(b: *sqlb.QueryBuilder, t: sqlb.TableAliased): bool = t.Name == "" || known(b, t) && target(b, t) == old(b.tables[0])
def joinDone(b: *sqlb.QueryBuilder, x: *sqlb.fromTable, j: Str, t: sqlb.TableAliased, on: *sqlf.Fragment, optional: bool): bool = x.Names == t && x.Optional == optional && joinIs(x.Fragment, j, t, on)
def lastTable(b: *sqlb.QueryBuilder): *sqlb.fromTable = b.tables[len(b.tables) - 1]
func sqlb.(*QueryBuilder).InnerJoin(b, t, on)(r) [C19]
	requires b != nil && complete(b)
	modifies [C12] b.tables, elems(b.tables) from len(b.tables), mapof(b.tablesDict), b.errors, elems(b.errors) from len(b.errors), b.tablesDict[applied(t)].Names if haskey(b.tablesDict, applied(t)), b.tablesDict[applied(t)].Fragment if haskey(b.tablesDict, applied(t)), b.tablesDict[applied(t)].Optional if haskey(b.tablesDict, applied(t))
	ensures ["one to one" C19 C14 C13] r == b && complete(b)
	ensures ["refused" C19] refused(b, t) ==> oneError(b) && b.tables == old(b.tables)
	ensures ["no error" C19] !refused(b, t) ==> len(b.errors) == old(len(b.errors))
	ensures ["replaced in place" C19 C14] !refused(b, t) && known(b, t) ==> len(b.tables) == old(len(b.tables)) && joinDone(b, target(b, t), "INNER JOIN", t, on, false)
	ensures ["added at the end" C19 C14 C13] !refused(b, t) && !known(b, t) ==> len(b.tables) == (if old(len(b.tables)) == 0 then 2 else old(len(b.tables)) + 1) && joinDone(b, lastTable(b), "INNER JOIN", t, on, false)
	ensures ["others kept" C19 C14 C13] forall i: int :: {b.tables[i]} 0 <= i && i < old(len(b.tables)) ==> b.tables[i] == old(b.tables[i]) && (b.tables[i] != target(b, t) || !known(b, t) || refused(b, t) ==> b.tables[i].Names == old(b.tables[i].Names) && b.tables[i].Fragment == old(b.tables[i].Fragment) && b.tables[i].Optional == old(b.tables[i].Optional))
func sqlb.(*QueryBuilder).LeftJoin(b, t, on)(r) [C19]
	requires b != nil && complete(b)
	modifies [C12] b.tables, elems(b.tables) from len(b.tables), mapof(b.tablesDict), b.errors, elems(b.errors) from len(b.errors), b.tablesDict[applied(t)].Names if haskey(b.tablesDict, applied(t)), b.tablesDict[applied(t)].Fragment if haskey(b.tablesDict, applied(t)), b.tablesDict[applied(t)].Optional if haskey(b.tablesDict, applied(t))
	ensures ["one to one" C19 C14 C13] r == b && complete(b)
	ensures ["refused" C19] refused(b, t) ==> oneError(b) && b.tables == old(b.tables)
	ensures ["no error" C19] !refused(b, t) ==> len(b.errors) == old(len(b.errors))
	ensures ["replaced in place" C19 C14] !refused(b, t) && known(b, t) ==> len(b.tables) == old(len(b.tables)) && joinDone(b, target(b, t), "LEFT JOIN", t, on, false)
	ensures ["added at the end" C19 C14 C13] !refused(b, t) && !known(b, t) ==> len(b.tables) == (if old(len(b.tables)) == 0 then 2 else old(len(b.tables)) + 1) && joinDone(b, lastTable(b), "LEFT JOIN", t, on, false)
	ensures ["others kept" C19 C14 C13] forall i: int :: {b.tables[i]} 0 <= i && i < old(len(b.tables)) ==> b.tables[i] == old(b.tables[i]) && (b.tables[i] != target(b, t) || !known(b, t) || refused(b, t) ==> b.tables[i].Names == old(b.tables[i].Names) && b.tables[i].Fragment == old(b.tables[i].Fragment) && b.tables[i].Optional == old(b.tables[i].Optional))
func sqlb.(*QueryBuilder).LeftJoinOptional(b, t, on)(r) [C19]
	requires b != nil && complete(b)
	modifies [C12] b.tables, elems(b.tables) from len(b.tables), mapof(b.tablesDict), b.errors, elems(b.errors) from len(b.errors), b.tablesDict[applied(t)].Names if haskey(b.tablesDict, applied(t)), b.tablesDict[applied(t)].Fragment if haskey(b.tablesDict, applied(t)), b.tablesDict[applied(t)].Optional if haskey(b.tablesDict, applied(t))
	ensures ["one to one" C19 C14 C13] r == b && complete(b)
	ensures ["refused" C19] refused(b, t) ==> oneError(b) && b.tables == old(b.tables)
	ensures ["no error" C19] !refused(b, t) ==> len(b.errors) == old(len(b.errors))
	ensures ["replaced in place" C19 C14] !refused(b, t) && known(b, t) ==> len(b.tables) == old(len(b.tables)) && joinDone(b, target(b, t), "LEFT JOIN", t, on, true)
	ensures ["added at the end" C19 C14 C13] !refused(b, t) && !known(b, t) ==> len(b.tables) == (if old(len(b.tables)) == 0 then 2 else old(len(b.tables)) + 1) && joinDone(b, lastTable(b), "LEFT JOIN", t, on, true)
	ensures ["others kept" C19 C14 C13] forall i: int :: {b.tables[i]} 0 <= i && i < old(len(b.tables)) ==> b.tables[i] == old(b.tables[i]) && (b.tables[i] != target(b, t) || !known(b, t) || refused(b, t) ==> b.tables[i].Names == old(b.tables[i].Names) && b.tables[i].Fragment == old(b.tables[i].Fragment) && b.tables[i].Optional == old(b.tables[i].Optional))
func sqlb.(*QueryBuilder).RightJoin(b, t, on)(r) [C19]
	requires b != nil && complete(b)
	modifies [C12] b.tables, elems(b.tables) from len(b.tables), mapof(b.tablesDict), b.errors, elems(b.errors) from len(b.errors), b.tablesDict[applied(t)].Names if haskey(b.tablesDict, applied(t)), b.tablesDict[applied(t)].Fragment if haskey(b.tablesDict, applied(t)), b.tablesDict[applied(t)].Optional if haskey(b.tablesDict, applied(t))
	ensures ["one to one" C19 C14 C13] r == b && complete(b)
	ensures ["refused" C19] refused(b, t) ==> oneError(b) && b.tables == old(b.tables)
	ensures ["no error" C19] !refused(b, t) ==> len(b.errors) == old(len(b.errors))
	ensures ["replaced in place" C19 C14] !refused(b, t) && known(b, t) ==> len(b.tables) == old(len(b.tables)) && joinDone(b, target(b, t), "RIGHT JOIN", t, on, false)
	ensures ["added at the end" C19 C14 C13] !refused(b, t) && !known(b, t) ==> len(b.tables) == (if old(len(b.tables)) == 0 then 2 else old(len(b.tables)) + 1) && joinDone(b, lastTable(b), "RIGHT JOIN", t, on, false)
	ensures ["others kept" C19 C14 C13] forall i: int :: {b.tables[i]} 0 <= i && i < old(len(b.tables)) ==> b.tables[i] == old(b.tables[i]) && (b.tables[i] != target(b, t) || !known(b, t) || refused(b, t) ==> b.tables[i].Names == old(b.tables[i].Names) && b.tables[i].Fragment == old(b.tables[i].Fragment) && b.tables[i].Optional == old(b.tables[i].Optional))
func sqlb.(*QueryBuilder).FullJoin(b, t, on)(r) [C19]
	requires b != nil && complete(b)
	modifies [C12] b.tables, elems(b.tables) from len(b.tables), mapof(b.tablesDict), b.errors, elems(b.errors) from len(b.errors), b.tablesDict[applied(t)].Names if haskey(b.tablesDict, applied(t)), b.tablesDict[applied(t)].Fragment if haskey(b.tablesDict, applied(t)), b.tablesDict[applied(t)].Optional if haskey(b.tablesDict, applied(t))
	ensures ["one to one" C19 C14 C13] r == b && complete(b)
	ensures ["refused" C19] refused(b, t) ==> oneError(b) && b.tables == old(b.tables)
	ensures ["no error" C19] !refused(b, t) ==> len(b.errors) == old(len(b.errors))
	ensures ["replaced in place" C19 C14] !refused(b, t) && known(b, t) ==> len(b.tables) == old(len(b.tables)) && joinDone(b, target(b, t), "FULL JOIN", t, on, false)
	ensures ["added at the end" C19 C14 C13] !refused(b, t) && !known(b, t) ==> len(b.tables) == (if old(len(b.tables)) == 0 then 2 else old(len(b.tables)) + 1) && joinDone(b, lastTable(b), "FULL JOIN", t, on, false)
	ensures ["others kept" C19 C14 C13] forall i: int :: {b.tables[i]} 0 <= i && i < old(len(b.tables)) ==> b.tables[i] == old(b.tables[i]) && (b.tables[i] != target(b, t) || !known(b, t) || refused(b, t) ==> b.tables[i].Names == old(b.tables[i].Names) && b.tables[i].Fragment == old(b.tables[i].Fragment) && b.tables[i].Optional == old(b.tables[i].Optional))
func sqlb.(*QueryBuilder).CrossJoin(b, t)(r) [C19]
	requires b != nil && complete(b)
	modifies [C12] b.tables, elems(b.tables) from len(b.tables), mapof(b.tablesDict), b.errors, elems(b.errors) from len(b.errors), b.tablesDict[applied(t)].Names if haskey(b.tablesDict, applied(t)), b.tablesDict[applied(t)].Fragment if haskey(b.tablesDict, applied(t)), b.tablesDict[applied(t)].Optional if haskey(b.tablesDict, applied(t))
	ensures ["one to one" C19 C14 C13] r == b && complete(b)
	ensures ["refused" C19] refused(b, t) ==> oneError(b) && b.tables == old(b.tables)
	ensures ["no error" C19] !refused(b, t) ==> len(b.errors) == old(len(b.errors))
	ensures ["replaced in place" C19 C14] !refused(b, t) && known(b, t) ==> len(b.tables) == old(len(b.tables)) && joinDone(b, target(b, t), "CROSS JOIN", t, nil, false)
	ensures ["added at the end" C19 C14 C13] !refused(b, t) && !known(b, t) ==> len(b.tables) == (if old(len(b.tables)) == 0 then 2 else old(len(b.tables)) + 1) && joinDone(b, lastTable(b), "CROSS JOIN", t, nil, false)
	ensures ["others kept" C19 C14 C13] forall i: int :: {b.tables[i]} 0 <= i && i < old(len(b.tables)) ==> b.tables[i] == old(b.tables[i]) && (b.tables[i] != target(b, t) || !known(b, t) || refused(b, t) ==> b.tables[i].Names == old(b.tables[i].Names) && b.tables[i].Fragment == old(b.tables[i].Fragment) && b.tables[i].Optional == old(b.tables[i].Optional))
