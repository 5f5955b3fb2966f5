// Clauses, fragments and queries.

group syn { syntax.Clause.ExprList, "E.syntax.Expr", syntax.PlainExpr.Text, syntax.BindVarExpr.Index, syntax.BindVarExpr.Type, syntax.FuncCallExpr.Name, syntax.FuncCallExpr.Args, syntax.FuncExpr.Name }
def isPlain(e: syntax.Expr): bool = is(e, *syntax.PlainExpr) && as(e, *syntax.PlainExpr) != nil
def isVar(e: syntax.Expr): bool = is(e, *syntax.BindVarExpr) && as(e, *syntax.BindVarExpr) != nil
def isCall(e: syntax.Expr): bool = is(e, *syntax.FuncCallExpr) && as(e, *syntax.FuncCallExpr) != nil
def isRef(e: syntax.Expr): bool = is(e, *syntax.FuncExpr) && as(e, *syntax.FuncExpr) != nil
// the expressions of a clause are of the four kinds
fn exprsOK{syn}(c: *syntax.Clause): bool = forall i: int :: {c.ExprList[i]} 0 <= i && i < len(c.ExprList) ==> isPlain(c.ExprList[i]) || isVar(c.ExprList[i]) || isCall(c.ExprList[i]) || isRef(c.ExprList[i])

// every node answers with its field (promoted from syntax.(*node).Pos)
iface syntax.Expr.Pos(e)(p)
	requires isPlain(e) || isVar(e) || isCall(e) || isRef(e)
	pure

// the literal text of the plain expressions, and the results rs of the others, in order
rec fn content{syn}(c: *syntax.Clause, rs: map[Int]Str, n: int): Str = if n <= 0 then ""
	else content(c, rs, n - 1) + (if is(c.ExprList[n - 1], *syntax.PlainExpr) then as(c.ExprList[n - 1], *syntax.PlainExpr).Text else sel(rs, n - 1))
lemma contentUpd{syn}(c: *syntax.Clause, rs: map[Int]Str, j: int, v: Str, n: int) [C01] by n: {content(c, upd(rs, j, v), n)}
	j >= n ==> content(c, upd(rs, j, v), n) == content(c, rs, n)
fn noResults(): map[Int]Str

func sqlf.buildClause(ctx, clause)(s, err) [C01 C06]
	includes sqlf.builds
	lets st = rootOf(ctx).argStore
	lets fc = fragOf(ctx)
	lets fargs = fragOf(ctx).Args
	requires clause != nil && exprsOK(clause)
	ghost rs: map[Int]Str = noResults()
	ghost ferr: error = nil
	ghost fcall: *syntax.FuncCallExpr = nil
	on call sqlf.Property.BuildFragment(b, c)(s0, e): ferr := e
	on call sqlf.Property.BuildFragment(b, c)(s0, e): rs := upd(rs, k, s0)
	on call sqlf.Property.BuildFragment(b, c)(s0, e): fcall := nil
	on call sqlf.evalFunction(c, name, a)(s0, e): ferr := e
	on call sqlf.evalFunction(c, name, a)(s0, e): rs := upd(rs, k, s0)
	on call sqlf.evalFunction(c, name, a)(s0, e): fcall := as(clause.ExprList[k], *syntax.FuncCallExpr)
	at call sqlf.Property.BuildFragment(b, c): assert ["same store" C05] c == ctx && rootOf(ctx).argStore == st && (isD(st) ==> ds(st).dict == old(ds(st).dict)) && inPlace(argsOf(st), old(argsOf(st))) &&  len(argsOf(st)) >= old(len(argsOf(st)))
	at call sqlf.evalFunction(c, name, a): assert ["same store" C05] c == ctx && rootOf(ctx).argStore == st && (isD(st) ==> ds(st).dict == old(ds(st).dict)) && inPlace(argsOf(st), old(argsOf(st))) && len(argsOf(st)) >= old(len(argsOf(st)))
	at call sqlf.Property.BuildFragment(b, c): assert ["an arg" C06] fc != nil && isDP(b)
	at call sqlf.Property.BuildFragment(b, c): assert ["the arg referred to" C06] isVar(clause.ExprList[k]) && 1 <= as(clause.ExprList[k], *syntax.BindVarExpr).Index && as(clause.ExprList[k], *syntax.BindVarExpr).Index <= len(fargs) && b == fargs[as(clause.ExprList[k], *syntax.BindVarExpr).Index - 1] && c == ctx
	at call sqlf.evalFunction(c, name, a): assert ["the call as written" C06 C10] isCall(clause.ExprList[k]) && c == ctx && name == as(clause.ExprList[k], *syntax.FuncCallExpr).Name && a == as(clause.ExprList[k], *syntax.FuncCallExpr).Args
	ensures ["text and results in order" C01 C04] err == nil ==> s == content(clause, rs, len(clause.ExprList))
	ensures ["references in range" C06] err == nil ==> (forall i: int :: {clause.ExprList[i]} 0 <= i && i < len(clause.ExprList) && isVar(clause.ExprList[i]) ==> fc != nil && 1 <= as(clause.ExprList[i], *syntax.BindVarExpr).Index && as(clause.ExprList[i], *syntax.BindVarExpr).Index <= len(fargs))
	ensures ["referenced args are used" C07] err == nil ==> (forall i: int :: {clause.ExprList[i]} 0 <= i && i < len(clause.ExprList) && isVar(clause.ExprList[i]) ==> dp(fargs[as(clause.ExprList[i], *syntax.BindVarExpr).Index - 1]).used)
	ensures ["no function without call" C03 C09] err == nil ==> (forall i: int :: {clause.ExprList[i]} 0 <= i && i < len(clause.ExprList) ==> !isRef(clause.ExprList[i]))
	ensures ["error kept" C08] ferr != nil ==> err != nil && errIs(err, ferr)
	ensures ["error of this call" C09 C08] ferr != nil && fcall != nil ==> is(err, *sqlf.callError) && as(err, *sqlf.callError) != nil && as(err, *sqlf.callError).call == fcall && as(err, *sqlf.callError).error == ferr
	ensures ["nothing on error" C08] err != nil ==> s == ""
	loop 1:
	invariant ["text so far"] b != nil && fresh(b) && b.content == content(clause, rs, k)
	invariant ["same scope"] fragOf(ctx) == fc && (fc != nil ==> fc.Args == fargs)
	invariant ["no error so far"] ferr == nil
	invariant ["references so far"] forall i: int :: {clause.ExprList[i]} 0 <= i && i < k && isVar(clause.ExprList[i]) ==> fc != nil && 1 <= as(clause.ExprList[i], *syntax.BindVarExpr).Index && as(clause.ExprList[i], *syntax.BindVarExpr).Index <= len(fargs)
	invariant ["args known"] forall i: int :: {fargs[i]} fc != nil && 0 <= i && i < len(fargs) && isDP(fargs[i]) ==> allocated(dp(fargs[i]))
	invariant ["used so far"] forall i: int :: {clause.ExprList[i]} 0 <= i && i < k && isVar(clause.ExprList[i]) ==> isDP(fargs[as(clause.ExprList[i], *syntax.BindVarExpr).Index - 1]) && dp(fargs[as(clause.ExprList[i], *syntax.BindVarExpr).Index - 1]).used
	invariant ["calls only"] forall i: int :: {clause.ExprList[i]} 0 <= i && i < k ==> !isRef(clause.ExprList[i])
	invariant ["store"] rootOf(ctx).argStore == st && storeOK(st) && inPlace(argsOf(st), old(argsOf(st))) && len(argsOf(st)) >= old(len(argsOf(st))) && (forall i: int :: {argsOf(st)[i]} 0 <= i && i < old(len(argsOf(st))) ==> argsOf(st)[i] == old(argsOf(st)[i]))
	invariant ["still used"] forall p: *sqlf.defaultProperty :: {p.used} old(allocated(p) && p.used) ==> p.used
	invariant ["verdict kept"] forall g: *sqlf.funcInfo :: {g.joinTested} {g.joinError} old(allocated(g) && g.joinTested) ==> g.joinTested && g.joinError == old(g.joinError)
	invariant ["placeholders so far"] emb(sty(st), old(len(argsOf(st))), len(argsOf(st)), b.content)

// what Parse gives: the k-th expression stands for the text from B[k] to B[k + 1], V[k] variables are before it
func syntax.Parse(input)(c, err) [C01 C02 C03]
	modifies [C12] nothing
	ghost B: map[Int]Int = firstPlace()
	ghost V: map[Int]Int = firstPlace()
	ghost Y: int = 0
	on call syntax.(*parser).Parse(p)(e): B := its_B
	on call syntax.(*parser).Parse(p)(e): V := its_V
	on call syntax.(*parser).Parse(p)(e): Y := p.bindVarStyle
	ensures ["a clause" C02 C03] err == nil ==> c != nil && fresh(c) && fresh(c.ExprList) && exprsOK(c) && (forall i: int :: {c.ExprList[i]} 0 <= i && i < len(c.ExprList) ==> allocated(c.ExprList[i]))
	ensures ["from the start to the end" C01] err == nil ==> sel(B, 0) == 0 && sel(B, len(c.ExprList)) == len(input)
	ensures ["one after the other" C01] err == nil ==> (forall i: int :: {c.ExprList[i]} 0 <= i && i < len(c.ExprList) ==> spanIs(input, c.ExprList[i], sel(B, i), sel(B, i + 1)))
	ensures ["as written" C03] err == nil ==> (forall i: int :: {c.ExprList[i]} 0 <= i && i < len(c.ExprList) ==> dirIs(input, c.ExprList[i], sel(B, i), sel(V, i)))
	ensures ["one style" C03] err == nil ==> (forall i: int :: {c.ExprList[i]} 0 <= i && i < len(c.ExprList) && isVar(c.ExprList[i]) ==> varOf(c.ExprList[i]).Type == Y)
	ensures ["counted" C03] err == nil ==> sel(V, 0) == 0 && (forall i: int :: {c.ExprList[i]} 0 <= i && i < len(c.ExprList) ==> sel(V, i + 1) == sel(V, i) + (if isVar(c.ExprList[i]) then 1 else 0))

func sqlf.build(ctx, fragment)(s, err) [C08]
	includes sqlf.builds
	requires fragment != nil
	ghost ferr: error = nil
	ghost body: string = ""
	ghost parsed: *syntax.Clause = nil
	on call syntax.Parse(in)(c, e): ferr := e
	on call syntax.Parse(in)(c, e): parsed := c
	on call sqlf.buildClause(x, c)(s0, e): ferr := e
	on call sqlf.buildClause(x, c)(s0, e): body := s0
	at call syntax.Parse(in): assert ["this template" C01 C03] in == fragment.Raw && parsed == nil
	at call sqlf.buildClause(x, c): assert ["the clause, in this scope" C06 C01] x == ctx && c == parsed
	ensures ["error kept" C08] ferr != nil ==> err != nil && errIs(err, ferr) && s == ""
	ensures ["only own errors" C08] ferr == nil ==> err == nil && s == body

// the fragment, built: prefix and suffix only around content
def affix(f: *sqlf.Fragment, body: Str): Str = if trim(body) == "" then "" else (if f.Prefix == "" then "" else f.Prefix + " ") + trim(body) + (if f.Suffix == "" then "" else " " + f.Suffix)

func sqlf.(*Fragment).BuildFragment(f, ctx)(s, err) [C11 C08]
	implements sqlf.FragmentBuilder.BuildFragment
	ghost scope: *sqlf.Context = nil
	ghost body: string = ""
	ghost ferr: error = nil
	on call sqlf.contextWithFragment(x, f0)(c): scope := c
	on call sqlf.build(x, f0)(s0, e): body := s0
	on call sqlf.build(x, f0)(s0, e): ferr := e
	at call sqlf.build(x, f0): assert ["in its own scope" C06 C07] x == scope && scope != nil && f0 == f && scope.parent == ctx && scope.frag != nil && scope.frag.Fragment == f && ownItems(scope.frag, f)
	ensures ["affixes" C11 C01] f != nil && err == nil ==> s == affix(f, body)
	ensures ["nil builds nothing" C11] f == nil ==> err == nil && s == ""
	ensures ["error kept" C08] ferr != nil ==> err != nil && errIs(err, ferr)
	ensures ["nothing on error" C08] err != nil ==> s == ""
	ensures ["all used" C07] f != nil && err == nil ==> allUsed(scope.frag.Args) && allUsed(scope.frag.Fragments)
	ensures ["only for unused" C07] f != nil && ferr == nil && err != nil ==> !(allUsed(scope.frag.Args) && allUsed(scope.frag.Fragments))

func sqlf.(*Fragment).BuildQuery(f, bindVarStyle)(query, args, err) [C04 C08]
	requires bindVarStyle == 0 || bindVarStyle == 1
	modifies [C12] heap("F.sqlf.defaultProperty.used"), heap("F.sqlf.funcInfo.joinTested"), heap("F.sqlf.funcInfo.joinError")
	ghost ferr: error = nil
	ghost body: string = ""
	ghost root: *sqlf.Context = nil
	on call sqlf.NewContext(y)(c): root := c
	on call sqlf.(*Fragment).BuildFragment(f0, c)(s0, e): ferr := e
	on call sqlf.(*Fragment).BuildFragment(f0, c)(s0, e): body := s0
	at call sqlf.NewContext(y): assert ["this style" C04] y == bindVarStyle
	at call sqlf.(*Fragment).BuildFragment(f0, c): assert ["in a new context" C04 C12] f0 == f && c == root && root != nil
	ensures ["error kept" C08] ferr != nil ==> err == ferr && query == "" && len(args) == 0
	ensures ["no other error" C08] ferr == nil ==> err == nil && query == body
	ensures ["placeholders line up" C04 C05] err == nil ==> emb(if bindVarStyle == 0 then 1 else 0, 0, len(args), query)
	ensures ["the args of this build" C04 C05] err == nil ==> args == argsOf(root.argStore)
