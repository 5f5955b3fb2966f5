// C14, C15: which tables and which CTEs a query needs

group ment { sqlf.Fragment.Fragments, "E.sqlf.FragmentBuilder", sqlb.Column.table, sqlb.Column.fragment, sqlb.QueryBuilder.tablesDict, "M:map[sqlb.Table]*sqlb.fromTable", sqlb.fromTable.Fragment, sqlb.QueryBuilder.selects, sqlb.QueryBuilder.conditions, sqlb.QueryBuilder.groupbys, sqlb.QueryBuilder.orders, "E.*sqlb.orderItem", sqlb.orderItem.column }
def fragP(f: sqlf.FragmentBuilder): *sqlf.Fragment = as(f, *sqlf.Fragment)
def colP(f: sqlf.FragmentBuilder): *sqlb.Column = as(f, *sqlb.Column)
// f is, or is a column of, the table of name x, or something in it is
def mention1(f: sqlf.FragmentBuilder, x: Str): bool =
	(is(f, *sqlf.Fragment) && fragP(f) != nil && mentions(fragP(f).Fragments, len(fragP(f).Fragments), x)) ||
	(is(f, *sqlb.Column) && colP(f) != nil && colP(f).table != "" && x == colP(f).table) ||
	(is(f, *sqlb.Column) && colP(f) != nil && colP(f).table == "" && colP(f).fragment != nil && mentions(colP(f).fragment.Fragments, len(colP(f).fragment.Fragments), x)) ||
	(is(f, sqlb.Table) && x == as(f, sqlb.Table)) ||
	(is(f, sqlb.TableAliased) && x == applied(as(f, sqlb.TableAliased)))
// one of the first n of fs refers to the table of name x (the least such relation)
rec fn mentions{ment}(fs: []sqlf.FragmentBuilder, n: int, x: Str): bool = n > 0 && (mentions(fs, n - 1, x) || mention1(fs[n - 1], x))
lemma mentionsIn{ment}(fs: []sqlf.FragmentBuilder, i: int, x: Str, n: int) [C14] by n: {mentions(fs, n, x), fs[i]}
	0 <= i && i < n && mention1(fs[i], x) ==> mentions(fs, n, x)

// x is in the set
def has(d: map[sqlb.Table]bool, x: Str): bool = haskey(d, x) && d[x]
// the list and the set of tables are the same
def listed(l: []sqlb.Table, d: map[sqlb.Table]bool): bool = (forall i: int :: {l[i]} 0 <= i && i < len(l) ==> has(d, l[i])) && (forall x: Str :: {haskey(d, x)} has(d, x) ==> (exists i: int :: {l[i]} 0 <= i && i < len(l) && l[i] == x))

func sqlb.collectTable(t, tables, dict)() [C14]
	requires tables != nil && dict != nil && listed(deref(tables), dict)
	modifies [C12] cell(tables), elems(deref(tables)) from len(deref(tables)), mapof(dict)
	ensures ["collected" C14] forall x: Str :: {haskey(dict, x)} has(dict, x) <==> (old(has(dict, x)) || x == t)
	ensures ["listed" C14] listed(deref(tables), dict)
	ensures ["own array" C14] len(deref(tables)) >= old(len(deref(tables))) && inPlace(deref(tables), old(deref(tables)))

func sqlb.extractTables2(fragments, tables, dict)() [C14]
	requires tables != nil && dict != nil && listed(deref(tables), dict)
	modifies [C12] cell(tables), elems(deref(tables)) from len(deref(tables)), mapof(dict)
	ensures ["all tables referred to" C14] forall x: Str :: {haskey(dict, x)} {mentions(fragments, len(fragments), x)} has(dict, x) <==> (old(has(dict, x)) || mentions(fragments, len(fragments), x))
	ensures ["listed" C14] listed(deref(tables), dict)
	ensures ["own array" C14] len(deref(tables)) >= old(len(deref(tables))) && inPlace(deref(tables), old(deref(tables)))
	loop 1:
	invariant ["so far"] forall x: Str :: {haskey(dict, x)} {mentions(fragments, k, x)} has(dict, x) <==> (old(has(dict, x)) || mentions(fragments, k, x))
	invariant ["listed"] listed(deref(tables), dict)
	invariant ["own array"] len(deref(tables)) >= old(len(deref(tables))) && inPlace(deref(tables), old(deref(tables)))

func sqlb.extractTables(fragments)(r) [C14]
	modifies [C12] nothing
	ensures ["all tables referred to" C14] forall x: Str :: {mentions(fragments, len(fragments), x)} mentions(fragments, len(fragments), x) ==> (exists i: int :: {r[i]} 0 <= i && i < len(r) && r[i] == x)
	ensures ["no others" C14] forall i: int :: {r[i]} 0 <= i && i < len(r) ==> mentions(fragments, len(fragments), r[i])

// ------------------------------------------------------------ needed tables
// the table of that name is known, and is to be kept
def hasN(d: map[sqlb.TableAliased]bool, n: sqlb.TableAliased): bool = haskey(d, n) && d[n]
def covered(b: *sqlb.QueryBuilder, d: map[sqlb.TableAliased]bool, x: Str): bool = haskey(b.tablesDict, x) && hasN(d, b.tablesDict[x].Names)
// the table of the name x refers to y
fn refers{ment}(b: *sqlb.QueryBuilder, x: Str, y: Str): bool = haskey(b.tablesDict, x) && b.tablesDict[x].Fragment != nil && mentions(b.tablesDict[x].Fragment.Fragments, len(b.tablesDict[x].Fragment.Fragments), y)

func sqlb.(*QueryBuilder).collectDepsFromTable(b, dep, t)(err) [C14]
	requires b != nil && dep != nil && regOK(b)
	modifies [C12] mapof(dep)
	ensures ["kept" C14] err == nil ==> covered(b, dep, t)
	ensures ["not joined" C14] !haskey(b.tablesDict, t) ==> err != nil
	always ["others kept" C14] forall n: sqlb.TableAliased :: {haskey(dep, n)} old(hasN(dep, n)) ==> hasN(dep, n)
	ensures ["what it refers to" C14] err == nil ==> (forall x: Str, y: Str :: {refers(b, x, y)} covered(b, dep, x) && !old(covered(b, dep, x)) && refers(b, x, y) ==> covered(b, dep, y))
	ghost l: []sqlb.Table = nil
	on call sqlb.extractTables(fs)(r): l := r
	loop 1:
	invariant ["all of them"] forall y: Str :: {refers(b, t, y)} refers(b, t, y) ==> (exists i: int :: {l[i]} 0 <= i && i < len(l) && l[i] == y)
	invariant ["covered so far"] forall i: int :: {l[i]} 0 <= i && i < k ==> covered(b, dep, l[i])
	invariant ["this one"] haskey(b.tablesDict, t) && from == b.tablesDict[t] && covered(b, dep, t)
	invariant ["others kept"] forall n: sqlb.TableAliased :: {haskey(dep, n)} old(hasN(dep, n)) ==> hasN(dep, n)
	invariant ["closed but for this one"] forall x: Str, y: Str :: {refers(b, x, y)} covered(b, dep, x) && !old(covered(b, dep, x)) && refers(b, x, y) && x != t ==> covered(b, dep, y)

// ------------------------------------------------------------- needed CTEs
group cteg { sqlb.QueryBuilder.ctesDict, "M:map[sqlb.Table]*sqlb.cte", sqlb.cte.deps, "E.sqlb.Table" }
// the CTE of name x declares the one of name y as a dependency
fn depends{cteg}(b: *sqlb.QueryBuilder, x: Str, i: int): bool = haskey(b.ctesDict, x) && 0 <= i && i < len(b.ctesDict[x].deps) && haskey(b.ctesDict, b.ctesDict[x].deps[i])
// the CTE of name x needs the one of name y, directly or not (the least such relation)
rec fn reaches{cteg}(b: *sqlb.QueryBuilder, x: Str, y: Str): bool = x == y || (exists i: int :: {b.ctesDict[x].deps[i]} depends(b, x, i) && reaches(b, b.ctesDict[x].deps[i], y))

func sqlb.(*QueryBuilder).collectDepsFromCTE(b, deps, cte)(err) [C15]
	requires b != nil && deps != nil && qbOK(b) && cte != nil && haskey(b.ctesDict, cte.name) && b.ctesDict[cte.name] == cte
	modifies [C12] mapof(deps)
	ensures ["never fails" C15 C13] err == nil
	ensures ["itself" C15] has(deps, cte.name)
	ensures ["others kept" C15] forall x: Str :: {haskey(deps, x)} old(has(deps, x)) ==> has(deps, x)
	ensures ["what it depends on" C15] forall x: Str, i: int :: {depends(b, x, i)} has(deps, x) && !old(has(deps, x)) && depends(b, x, i) ==> has(deps, b.ctesDict[x].deps[i])
	ensures ["nothing else" C15] forall x: Str :: {haskey(deps, x)} has(deps, x) && !old(has(deps, x)) ==> haskey(b.ctesDict, x) && reaches(b, cte.name, x)
	lets c0 = cte
	loop 1:
	invariant ["this one"] has(deps, c0.name)
	invariant ["others kept"] forall x: Str :: {haskey(deps, x)} old(has(deps, x)) ==> has(deps, x)
	invariant ["so far"] forall i: int :: {c0.deps[i]} 0 <= i && i < k && haskey(b.ctesDict, c0.deps[i]) ==> has(deps, c0.deps[i])
	invariant ["closed but for this one"] forall x: Str, i: int :: {depends(b, x, i)} has(deps, x) && !old(has(deps, x)) && depends(b, x, i) && x != c0.name ==> has(deps, b.ctesDict[x].deps[i])
	invariant ["nothing else"] forall x: Str :: {haskey(deps, x)} has(deps, x) && !old(has(deps, x)) ==> haskey(b.ctesDict, x) && reaches(b, c0.name, x)

// ------------------------------------------------- what a query depends on
// a table the columns, conditions or orders of the query refer to
fn inOrder{ment}(b: *sqlb.QueryBuilder, i: int, x: Str): bool = mention1(iface(b.orders[i].column), x)
fn needs{ment}(b: *sqlb.QueryBuilder, x: Str): bool = mention1(iface(b.selects), x) || mention1(iface(b.conditions), x) || mention1(iface(b.groupbys), x)
// the table is part of the query
def keeps(b: *sqlb.QueryBuilder, d: map[sqlb.TableAliased]bool, t: *sqlb.fromTable): bool = !(b.distinct && t.Optional && !hasN(d, t.Names))

func sqlb.(*QueryBuilder).collectDependencies(b)(deps, ctes, err) [C14 C15]
	requires b != nil && regOK(b) && qbOK(b)
	modifies [C12] nothing
	ensures ["no main table" C13 C14] len(b.tables) == 0 || reserved(b.tables[0]) ==> err != nil
	ensures ["selected, filtered or grouped by" C14] err == nil ==> (forall x: Str :: {needs(b, x)} needs(b, x) ==> covered(b, deps, x))
	ensures ["ordered by" C14] err == nil ==> (forall i: int, x: Str :: {inOrder(b, i, x)} 0 <= i && i < len(b.orders) && inOrder(b, i, x) ==> covered(b, deps, x))
	ensures ["main table" C14] err == nil ==> hasN(deps, b.tables[0].Names)
	ensures ["joins kept" C14] err == nil ==> (forall i: int :: {b.tables[i]} 1 <= i && i < len(b.tables) && !(b.distinct && b.tables[i].Optional) ==> hasN(deps, b.tables[i].Names))
	ensures ["what these refer to" C14] err == nil ==> (forall x: Str, y: Str :: {refers(b, x, y)} covered(b, deps, x) && refers(b, x, y) ==> covered(b, deps, y))
	ensures ["CTE of a table" C15] err == nil ==> (forall i: int :: {b.tables[i]} 0 <= i && i < len(b.tables) && keeps(b, deps, b.tables[i]) && haskey(b.ctesDict, b.tables[i].Names.Name) ==> has(ctes, b.tables[i].Names.Name))
	ensures ["CTE of a CTE" C15] err == nil ==> (forall x: Str, i: int :: {depends(b, x, i)} has(ctes, x) && depends(b, x, i) ==> has(ctes, b.ctesDict[x].deps[i]))
	ensures ["no other CTE" C15] err == nil ==> (forall x: Str :: {haskey(ctes, x)} has(ctes, x) ==> (exists i: int :: {b.tables[i]} 0 <= i && i < len(b.tables) && keeps(b, deps, b.tables[i]) && haskey(b.ctesDict, b.tables[i].Names.Name) && reaches(b, b.tables[i].Names.Name, x)))
	ghost l: []sqlb.Table = nil
	on call sqlb.extractTables(fs)(r): l := r
	at call sqlb.extractTables(fs): assert ["selected, filtered or grouped by" C14] forall x: Str :: {needs(b, x)} needs(b, x) ==> mentions(fs, len(fs), x)
	at call sqlb.extractTables(fs): assert ["ordered by" C14] forall i: int, x: Str :: {inOrder(b, i, x)} 0 <= i && i < len(b.orders) && inOrder(b, i, x) ==> mentions(fs, len(fs), x)
	loop 1:
	invariant ["the columns"] fresh(builders) && len(builders) == 3 + k && builders[0] == iface(b.selects) && builders[1] == iface(b.conditions) && builders[2] == iface(b.groupbys)
	invariant ["the orders"] forall i: int :: {b.orders[i]} 0 <= i && i < k ==> builders[3 + i] == iface(b.orders[i].column)
	loop 2:
	invariant ["all of them"] forall x: Str :: {needs(b, x)} needs(b, x) ==> (exists i: int :: {l[i]} 0 <= i && i < len(l) && l[i] == x)
	invariant ["all orders"] forall j: int, x: Str :: {inOrder(b, j, x)} 0 <= j && j < len(b.orders) && inOrder(b, j, x) ==> (exists i: int :: {l[i]} 0 <= i && i < len(l) && l[i] == x)
	invariant ["covered so far"] forall i: int :: {l[i]} 0 <= i && i < k ==> covered(b, deps, l[i])
	invariant ["main table"] deps != nil && fresh(deps) && hasN(deps, b.tables[0].Names)
	invariant ["closed"] forall x: Str, y: Str :: {refers(b, x, y)} covered(b, deps, x) && refers(b, x, y) ==> covered(b, deps, y)
	loop 3:
	invariant ["covered"] forall x: Str :: {needs(b, x)} needs(b, x) ==> covered(b, deps, x)
	invariant ["covered orders"] forall j: int, x: Str :: {inOrder(b, j, x)} 0 <= j && j < len(b.orders) && inOrder(b, j, x) ==> covered(b, deps, x)
	invariant ["main table"] hasN(deps, b.tables[0].Names)
	invariant ["the next one"] k + 1 < len(b.tables) ==> b.tables[k + 1] != nil && registered(b, b.tables[k + 1])
	invariant ["joins so far"] forall i: int :: {b.tables[i]} 1 <= i && i <= k && !(b.distinct && b.tables[i].Optional) ==> hasN(deps, b.tables[i].Names)
	invariant ["closed"] forall x: Str, y: Str :: {refers(b, x, y)} covered(b, deps, x) && refers(b, x, y) ==> covered(b, deps, y)
	loop 4:
	invariant ["its own"] ctes != nil && fresh(ctes)
	invariant ["CTE of a table"] forall i: int :: {b.tables[i]} 0 <= i && i < k && keeps(b, deps, b.tables[i]) && haskey(b.ctesDict, b.tables[i].Names.Name) ==> has(ctes, b.tables[i].Names.Name)
	invariant ["CTE of a CTE"] forall x: Str, i: int :: {depends(b, x, i)} has(ctes, x) && depends(b, x, i) ==> has(ctes, b.ctesDict[x].deps[i])
	invariant ["no other CTE"] forall x: Str :: {haskey(ctes, x)} has(ctes, x) ==> (exists i: int :: {b.tables[i]} 0 <= i && i < k && keeps(b, deps, b.tables[i]) && haskey(b.ctesDict, b.tables[i].Names.Name) && reaches(b, b.tables[i].Names.Name, x))
