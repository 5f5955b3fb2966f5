// C19: tables and columns

// the name a table goes by
def applied(t: sqlb.TableAliased): Str = if t.Alias != "" then t.Alias else t.Name
// a column of the table t
def colText(t: Str, name: Str): Str = if name == "" then "" else if t == "" then name else t + "." + name

func sqlb.Table.BuildFragment(t, ctx)(s, err) [C19]
	implements sqlf.FragmentBuilder.BuildFragment
	ensures ["its name" C19] err == nil && s == t
func sqlb.TableAliased.BuildFragment(t, ctx)(s, err) [C19]
	implements sqlf.FragmentBuilder.BuildFragment
	ensures ["the name it goes by" C19] err == nil && s == applied(t)
func sqlb.TableAliased.AppliedName(t)(r) [C19]
	modifies [C12] nothing
	ensures ["alias or name" C19] r == applied(t)
func sqlb.NewTableAliased(name, alias)(r) [C19]
	modifies [C12] nothing
	ensures ["as given" C19] r.Name == name && r.Alias == alias
func sqlb.TableAliased.WithAlias(t, alias)(r) [C19]
	modifies [C12] nothing
	ensures ["as given" C19] r.Name == t.Name && r.Alias == alias
func sqlb.TableAliased.Names(t)(r) [C19]
	modifies [C12] nothing
	ensures ["as given" C19] len(r) == 2 && r[0] == t.Name && r[1] == t.Alias

func sqlb.preBuildColumn(t, name)(r) [C19]
	modifies [C12] nothing
	ensures ["name and column" C19] r == colText(t, name)

// a column of table t whose template is x, without anything else
def colIs(c: *sqlb.Column, t: Str, x: Str): bool = c != nil && c.table == t && c.fragment != nil && c.fragment.Raw == x && len(c.fragment.Args) == 0 && len(c.fragment.Fragments) == 0 && c.fragment.Prefix == "" && c.fragment.Suffix == ""
func sqlb.Table.Column(t, name)(r) [C19]
	modifies [C12] nothing
	ensures ["name and column" C19] colIs(r, t, colText(t, name)) && fresh(r) && fresh(r.fragment)
func sqlb.Table.AnonymousColumn(t, name)(r) [C19]
	modifies [C12] nothing
	ensures ["column alone" C19] colIs(r, t, name) && fresh(r) && fresh(r.fragment)
func sqlb.Table.Columns(t, names)(r) [C19]
	modifies [C12] nothing
	ensures ["each column" C19] len(r) == len(names) && (forall i: int :: {r[i]} 0 <= i && i < len(r) ==> colIs(r[i], t, colText(t, names[i])))
	loop 1:
	invariant ["each column so far"] fresh(r) && len(r) == k && (forall i: int :: {r[i]} 0 <= i && i < k ==> colIs(r[i], t, colText(t, names[i])) && fresh(r[i]) && fresh(r[i].fragment))
func sqlb.Table.AnonymousColumns(t, names)(r) [C19]
	modifies [C12] nothing
	ensures ["each column" C19] len(r) == len(names) && (forall i: int :: {r[i]} 0 <= i && i < len(r) ==> colIs(r[i], t, names[i]))
	loop 1:
	invariant ["each column so far"] fresh(r) && len(r) == k && (forall i: int :: {r[i]} 0 <= i && i < k ==> colIs(r[i], t, names[i]) && fresh(r[i]) && fresh(r[i].fragment))
func sqlb.TableAliased.Column(t, name)(r) [C19]
	modifies [C12] nothing
	ensures ["name and column" C19] colIs(r, applied(t), colText(applied(t), name))
func sqlb.TableAliased.AnonymousColumn(t, name)(r) [C19]
	modifies [C12] nothing
	ensures ["column alone" C19] colIs(r, applied(t), name)
func sqlb.TableAliased.Columns(t, names)(r) [C19]
	modifies [C12] nothing
	ensures ["each column" C19] len(r) == len(names) && (forall i: int :: {r[i]} 0 <= i && i < len(r) ==> colIs(r[i], applied(t), colText(applied(t), names[i])))
func sqlb.TableAliased.AnonymousColumns(t, names)(r) [C19]
	modifies [C12] nothing
	ensures ["each column" C19] len(r) == len(names) && (forall i: int :: {r[i]} 0 <= i && i < len(r) ==> colIs(r[i], applied(t), names[i]))
func sqlb.ExprColumn(fragment)(r) [C19]
	modifies [C12] nothing
	ensures ["the fragment" C19] r != nil && fresh(r) && r.fragment == fragment && r.table == ""
func sqlb.ExprColumns(fragment)(r) [C19]
	modifies [C12] nothing
	ensures ["each fragment" C19] len(r) == len(fragment) && (forall i: int :: {r[i]} 0 <= i && i < len(r) ==> r[i] != nil && r[i].fragment == fragment[i] && r[i].table == "")
	loop 1:
	invariant ["each fragment so far"] fresh(r) && len(r) == k && (forall i: int :: {r[i]} 0 <= i && i < k ==> r[i] != nil && fresh(r[i]) && r[i].fragment == fragment[i] && r[i].table == "")

func sqlb.(*Column).BuildFragment(c, ctx)(s, err) [C19]
	implements sqlf.FragmentBuilder.BuildFragment
	requires c != nil
	ghost ferr: error = nil
	ghost text: string = ""
	on call sqlf.(*Fragment).BuildFragment(f, x)(s0, e): ferr := e
	on call sqlf.(*Fragment).BuildFragment(f, x)(s0, e): text := s0
	at call sqlf.(*Fragment).BuildFragment(f, x): assert ["its template" C19] f == old(c.fragment) && x == ctx
	ensures ["its text" C19] ferr == nil ==> err == nil && s == text
	ensures ["error kept" C08] ferr != nil ==> err != nil && errIs(err, ferr)

// ------------------------------------------------------------- the registry
group reg { sqlb.QueryBuilder.tables, sqlb.QueryBuilder.tablesDict, "E.*sqlb.fromTable", "M:map[sqlb.Table]*sqlb.fromTable", sqlb.fromTable.Names, sqlb.fromTable.Fragment }
group mains { sqlb.QueryBuilder.tables, sqlb.QueryBuilder.tablesDict, "E.*sqlb.fromTable", "M:map[sqlb.Table]*sqlb.fromTable", sqlb.fromTable.Names, sqlb.fromTable.Fragment, sqlf.Fragment.Fragments }
group selfg { sqlb.QueryBuilder.tables, "E.*sqlb.fromTable", sqlb.fromTable.Fragment, sqlb.QueryBuilder.selects, sqlb.QueryBuilder.conditions, sqlb.QueryBuilder.groupbys }

// the place of the main table was reserved, but there is none yet
def reserved(t: *sqlb.fromTable): bool = t.Fragment == nil && t.Names.Name == "" && t.Names.Alias == ""
// x is registered, under the name it goes by
def registered(b: *sqlb.QueryBuilder, t: *sqlb.fromTable): bool = t.Names.Name != "" && t.Fragment != nil && haskey(b.tablesDict, applied(t.Names)) && b.tablesDict[applied(t.Names)] == t
// each table is registered
fn tabsOK{reg}(b: *sqlb.QueryBuilder): bool = (forall i: int :: {b.tables[i]} 0 <= i && i < len(b.tables) ==> b.tables[i] != nil) && (forall i: int :: {b.tables[i]} 1 <= i && i < len(b.tables) ==> registered(b, b.tables[i]))
fn mainOK{mains}(b: *sqlb.QueryBuilder): bool = len(b.tables) > 0 ==> reserved(b.tables[0]) || (registered(b, b.tables[0]) && len(b.tables[0].Fragment.Fragments) == 0)
fn apart{reg}(b: *sqlb.QueryBuilder): bool = forall i: int, j: int :: {b.tables[i], b.tables[j]} 0 <= i && i < j && j < len(b.tables) ==> b.tables[i] != b.tables[j]
// each name is that of a table
fn namesOK{reg}(b: *sqlb.QueryBuilder): bool = forall x: Str :: {haskey(b.tablesDict, x)} haskey(b.tablesDict, x) ==> b.tablesDict[x] != nil && registered(b, b.tablesDict[x]) && applied(b.tablesDict[x].Names) == x
fn onto{reg}(b: *sqlb.QueryBuilder): bool = forall x: Str :: {haskey(b.tablesDict, x)} haskey(b.tablesDict, x) ==> (exists i: int :: {b.tables[i]} 0 <= i && i < len(b.tables) && b.tables[i] == b.tablesDict[x])
// tables and names correspond one to one
// the main table's template is not one of the clauses
fn selfOK{selfg}(b: *sqlb.QueryBuilder): bool = len(b.tables) > 0 ==> (let f = b.tables[0].Fragment in f == nil || f != b.selects && f != b.conditions && f != b.groupbys)
def regOK(b: *sqlb.QueryBuilder): bool = b.tablesDict != nil && tabsOK(b) && mainOK(b) && apart(b) && namesOK(b) && onto(b) && selfOK(b)

group qbg { sqlb.QueryBuilder.selects, sqlb.QueryBuilder.conditions, sqlb.QueryBuilder.groupbys, sqlb.QueryBuilder.errors, "E.error", sqlb.QueryBuilder.ctes, "E.*sqlb.cte", sqlb.cte.name, sqlb.QueryBuilder.ctesDict, "M:map[sqlb.Table]*sqlb.cte", sqlb.QueryBuilder.orders, "E.*sqlb.orderItem" }
// the other parts of a builder are there
fn qbOK{qbg}(b: *sqlb.QueryBuilder): bool = b.selects != nil && b.conditions != nil && b.groupbys != nil && b.selects != b.conditions && b.selects != b.groupbys && b.conditions != b.groupbys &&
	(forall i: int :: {b.errors[i]} 0 <= i && i < len(b.errors) ==> b.errors[i] != nil) &&
	b.ctesDict != nil && (forall i: int :: {b.ctes[i]} 0 <= i && i < len(b.ctes) ==> b.ctes[i] != nil && haskey(b.ctesDict, b.ctes[i].name)) &&
	(forall x: Str :: {haskey(b.ctesDict, x)} haskey(b.ctesDict, x) ==> b.ctesDict[x] != nil && b.ctesDict[x].name == x) &&
	(forall i: int :: {b.orders[i]} 0 <= i && i < len(b.orders) ==> b.orders[i] != nil)
// every CTE and every UNION has a builder
def ctesBuild(b: *sqlb.QueryBuilder): bool = forall i: int :: {b.ctes[i]} 0 <= i && i < len(b.ctes) ==> b.ctes[i].FragmentBuilder != nil
def unionsBuild(b: *sqlb.QueryBuilder): bool = forall i: int :: {b.unions[i]} 0 <= i && i < len(b.unions) ==> b.unions[i] != nil

// an error was recorded, the last one
def oneError(b: *sqlb.QueryBuilder): bool = len(b.errors) == old(len(b.errors)) + 1

func sqlb.(*QueryBuilder).pushError(b, err)() [C19]
	requires b != nil && qbOK(b) && err != nil
	modifies [C12] b.errors, elems(b.errors) from len(b.errors)
	ensures ["recorded" C19 C13] oneError(b) && b.errors[old(len(b.errors))] == err && (forall i: int :: {b.errors[i]} 0 <= i && i < old(len(b.errors)) ==> b.errors[i] == old(b.errors[i]))
	ensures ["in order" C19] qbOK(b)

func sqlb.(*QueryBuilder).anyError(b)(err) [C19 C13]
	requires b != nil && qbOK(b)
	modifies [C12] nothing
	ensures ["any error" C19 C13] err == nil <==> len(b.errors) == 0
	loop 1:
	invariant ["the text"] sb != nil && fresh(sb)

// what is joined
def tableText(t: sqlb.TableAliased): Str = if t.Alias == "" then t.Name else t.Name + " AS " + t.Alias
def onFrag(v: sqlf.FragmentBuilder): *sqlf.Fragment = as(v, *sqlf.Fragment)
// the ON clause: nothing, if on builds nothing
def onIs(v: sqlf.FragmentBuilder, on: *sqlf.Fragment): bool = is(v, *sqlf.Fragment) && onFrag(v) != nil && onFrag(v).Raw == "#f1" && len(onFrag(v).Args) == 0 && len(onFrag(v).Fragments) == 1 && onFrag(v).Fragments[0] == iface(on) && onFrag(v).Prefix == "ON" && onFrag(v).Suffix == ""
def joinIs(f: *sqlf.Fragment, j: Str, t: sqlb.TableAliased, on: *sqlf.Fragment): bool = f.Raw == j + " " + tableText(t) + " #f1" && len(f.Args) == 0 && len(f.Fragments) == 1 && onIs(f.Fragments[0], on) && f.Prefix == "" && f.Suffix == ""

func sqlb.(*QueryBuilder).From(b, t)(r) [C19]
	requires b != nil && qbOK(b) && regOK(b)
	modifies [C12] b.tables, elems(b.tables), mapof(b.tablesDict), b.errors, elems(b.errors) from len(b.errors)
	lets clash = haskey(b.tablesDict, applied(t)) && b.tablesDict[applied(t)] != b.tables[0]
	ensures ["the builder" C19] r == b
	hint ["tables kept" C19] forall i: int :: {old(b.tables[i])} {b.tables[i]} 1 <= i && i < old(len(b.tables)) ==> b.tables[i] == old(b.tables[i])
	hint ["each table registered" C19] tabsOK(b)
	hint ["main table" C19] mainOK(b)
	hint ["main table alone" C19] selfOK(b)
	hint ["no table twice" C19] apart(b)
	hint ["each name" C19] namesOK(b)
	hint ["each name's table" C19] onto(b)
	ensures ["one to one" C19 C14] regOK(b)
	ensures ["in order" C19] qbOK(b)
	ensures ["refused" C19] t.Name == "" || clash ==> oneError(b) && b.tables == old(b.tables) && (forall i: int :: {b.tables[i]} 0 <= i && i < len(b.tables) ==> b.tables[i] == old(b.tables[i]))
	ensures ["main table" C19] t.Name != "" && !clash ==> len(b.errors) == old(len(b.errors)) && len(b.tables) == (if old(len(b.tables)) == 0 then 1 else old(len(b.tables))) &&
		b.tables[0].Names == t && b.tables[0].Fragment.Raw == tableText(t) && b.tables[0].Fragment.Prefix == "" && b.tables[0].Fragment.Suffix == "" && !b.tables[0].Optional &&
		(forall i: int :: {b.tables[i]} 1 <= i && i < len(b.tables) ==> b.tables[i] == old(b.tables[i]))

func sqlb.(*QueryBuilder).join(b, joinStr, t, on, optional)(r) [C19]
	requires b != nil && qbOK(b) && regOK(b)
	modifies [C12] b.tables, elems(b.tables) from len(b.tables), mapof(b.tablesDict), b.errors, elems(b.errors) from len(b.errors), b.tablesDict[applied(t)].Names if haskey(b.tablesDict, applied(t)), b.tablesDict[applied(t)].Fragment if haskey(b.tablesDict, applied(t)), b.tablesDict[applied(t)].Optional if haskey(b.tablesDict, applied(t))
	lets main = haskey(b.tablesDict, applied(t)) && b.tablesDict[applied(t)] == b.tables[0]
	lets known = haskey(b.tablesDict, applied(t))
	lets target = b.tablesDict[applied(t)]
	ensures ["the builder" C19] r == b
	hint ["tables kept" C19] forall i: int :: {old(b.tables[i])} {b.tables[i]} 0 <= i && i < old(len(b.tables)) ==> b.tables[i] == old(b.tables[i])
	hint ["tables there" C19] forall i: int :: {b.tables[i]} 0 <= i && i < len(b.tables) ==> b.tables[i] != nil
	hint ["this table registered" C19] t.Name != "" && !main ==> registered(b, b.tablesDict[applied(t)])
	hint ["others registered" C19] forall i: int :: {old(b.tables[i])} 1 <= i && i < old(len(b.tables)) ==> registered(b, old(b.tables[i]))
	hint ["each table registered" C19] tabsOK(b)
	hint ["main table" C19] mainOK(b)
	hint ["main table alone" C19] selfOK(b)
	hint ["a new one" C19] t.Name != "" && !known ==> (forall i: int :: {b.tables[i]} 0 <= i && i < len(b.tables) - 1 ==> b.tables[i] != b.tables[len(b.tables) - 1])
	hint ["others apart" C19] forall i: int, j: int :: {b.tables[i], b.tables[j]} 0 <= i && i < j && j < old(len(b.tables)) ==> old(b.tables[i]) != old(b.tables[j]) && b.tables[i] != b.tables[j]
	hint ["no table twice" C19] apart(b)
	hint ["each name" C19] namesOK(b)
	hint ["each name's table" C19] onto(b)
	ensures ["one to one" C19 C14] regOK(b)
	ensures ["in order" C19] qbOK(b)
	ensures ["refused" C19] t.Name == "" || main ==> oneError(b) && b.tables == old(b.tables)
	ensures ["no error" C19] !(t.Name == "" || main) ==> len(b.errors) == old(len(b.errors))
	ensures ["no table replaced" C19] forall i: int :: {b.tables[i]} 0 <= i && i < old(len(b.tables)) ==> b.tables[i] == old(b.tables[i]) && (b.tables[i] != target || !known || main || t.Name == "" ==> b.tables[i].Names == old(b.tables[i].Names) && b.tables[i].Fragment == old(b.tables[i].Fragment) && b.tables[i].Optional == old(b.tables[i].Optional))
	ensures ["replaced in place" C19 C14] t.Name != "" && known && !main ==> len(b.tables) == old(len(b.tables)) && target.Names == t && target.Optional == optional && joinIs(target.Fragment, joinStr, t, on)
	ensures ["added at the end" C19 C14] t.Name != "" && !known ==> len(b.tables) == (if old(len(b.tables)) == 0 then 2 else old(len(b.tables)) + 1) &&
		b.tables[len(b.tables) - 1].Names == t && b.tables[len(b.tables) - 1].Optional == optional && joinIs(b.tables[len(b.tables) - 1].Fragment, joinStr, t, on)
