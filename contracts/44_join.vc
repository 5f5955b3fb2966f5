// Functions of the templates, and #join.

// the function may be joined: one number, and an error for index 0
fn joinSig(t: reflect.Type): bool = tNumOut(t) == 2 && tOut(t, 1) == errorT() &&
	(tNumIn(t) == 1 && numKind(tkind(argT(t, 0))) || tNumIn(t) == 2 && takesCtx(t) && numKind(tkind(argT(t, 1))))

func sqlf.joinCompatibility(f)(err) [C09]
	uses sqlfTypes, invalidIndex
	requires infoOK(f) && goodSig(rtype(f.fn))
	modifies [C12] heap("F.sqlf.defaultProperty.used"), heap("F.sqlf.funcInfo.joinTested"), heap("F.sqlf.funcInfo.joinError")
	ghost probed: bool = false
	ghost probe: error = nil
	on call sqlf.evalCall(c, f0, a)(s, e): probed := true
	on call sqlf.evalCall(c, f0, a)(s, e): probe := e
	at call sqlf.evalCall(c, f0, a): assert ["index 0, in a scope of its own" C09] f0 == f && len(a) == 1 && is(a[0], int) && as(a[0], int) == 0 && fresh(c)
	ensures ["signature" C09] probed <==> joinSig(rtype(f.fn))
	ensures ["refuses index 0" C09] err == nil <==> (probed && probe != nil && errIs(probe, pkgvar(sqlf.ErrInvalidIndex)))
	ensures ["still used" C07] forall p: *sqlf.defaultProperty :: {p.used} old(allocated(p) && p.used) ==> p.used
	ensures ["verdict kept" C09] forall g: *sqlf.funcInfo :: {g.joinTested} {g.joinError} old(allocated(g) && g.joinTested) ==> g.joinTested && g.joinError == old(g.joinError)

func sqlf.(*funcInfo).JoinCompatibilityError(f)(err) [C09]
	requires infoOK(f) && goodSig(rtype(f.fn))
	modifies [C12] heap("F.sqlf.defaultProperty.used"), heap("F.sqlf.funcInfo.joinTested"), heap("F.sqlf.funcInfo.joinError")
	ghost tested: bool = false
	ghost verdict: error = nil
	on call sqlf.joinCompatibility(f0)(e): tested := true
	on call sqlf.joinCompatibility(f0)(e): verdict := e
	at call sqlf.joinCompatibility(f0): assert ["this function" C09] f0 == f
	ensures ["tested" C09] f.joinTested && err == f.joinError && (old(f.joinTested) ==> err == old(f.joinError)) && (!old(f.joinTested) ==> tested && err == verdict)
	ensures ["still used" C07] forall p: *sqlf.defaultProperty :: {p.used} old(allocated(p) && p.used) ==> p.used
	ensures ["verdict kept" C09] forall g: *sqlf.funcInfo :: {g.joinTested} {g.joinError} old(allocated(g) && g.joinTested) ==> g.joinTested && g.joinError == old(g.joinError)

func sqlf.createValueFuncs(funcMap)(m, err) [C10]
	modifies [C10, C12] nothing
	ensures ["refused" C10] err == nil <==> (forall n: string :: {haskey(funcMap, n)} haskey(funcMap, n) ==> accepted(n, funcMap[n]))
	ensures ["as given" C10] err == nil ==> m != nil && fresh(m) && (forall n: string :: {haskey(m, n)} haskey(m, n) <==> haskey(funcMap, n)) &&
		(forall n: string :: {m[n]} haskey(m, n) ==> infoOK(m[n]) && m[n].fn == rvalOf(funcMap[n]))

func sqlf.funcArg(ctx, i)(s, err) [C06]
	includes sqlf.builds
	maypanic
	ghost ferr: error = nil
	on call sqlf.Properties.Build(p, c, j)(s0, e): ferr := e
	ghost body: string = ""
	on call sqlf.Properties.Build(p, c, j)(s0, e): body := s0
	at call sqlf.Properties.Build(p, c, j): assert ["the args of this fragment" C06] fragOf(ctx) != nil && p == fragOf(ctx).Args && c == ctx && j == i
	ensures ["no fragment" C06] old(fragOf(ctx)) == nil ==> err != nil && s == ""
	ensures ["the item" C06 C08 C09] old(fragOf(ctx)) != nil ==> err == ferr && s == body

func sqlf.funcFragment(ctx, i)(s, err) [C06]
	includes sqlf.builds
	maypanic
	ghost ferr: error = nil
	on call sqlf.Properties.Build(p, c, j)(s0, e): ferr := e
	ghost body: string = ""
	on call sqlf.Properties.Build(p, c, j)(s0, e): body := s0
	at call sqlf.Properties.Build(p, c, j): assert ["the fragments of this fragment" C06] fragOf(ctx) != nil && p == fragOf(ctx).Fragments && c == ctx && j == i
	ensures ["no fragment" C06] old(fragOf(ctx)) == nil ==> err != nil && s == ""
	ensures ["the item" C06 C08 C09] old(fragOf(ctx)) != nil ==> err == ferr && s == body

// the number of function references among the first n expressions
rec fn nrefs(m: map[Int]syntax.Expr, o: int, n: int): int = if n <= 0 then 0 else nrefs(m, o, n - 1) + (if is(sel(m, ix(o, n - 1)), *syntax.FuncExpr) then 1 else 0)
lemma nrefsMono(m: map[Int]syntax.Expr, o: int, a: int, n: int) [C09] by n: {nrefs(m, o, a), nrefs(m, o, n)}
	0 <= a && a <= n ==> 0 <= nrefs(m, o, a) && nrefs(m, o, a) <= nrefs(m, o, n)
lemma nrefsNext(m: map[Int]syntax.Expr, o: int, a: int, n: int) [C09] by n: {nrefs(m, o, n), is(sel(m, ix(o, a)), *syntax.FuncExpr)}
	0 <= a && a < n && is(sel(m, ix(o, a)), *syntax.FuncExpr) ==> nrefs(m, o, a) < nrefs(m, o, n)
fn noExprs(): map[Int]syntax.Expr

func sqlf.funcJoin(ctx, tmpl, separator, indexes)(s, err) [C09]
	includes sqlf.builds
	uses invalidIndex
	lets st = rootOf(ctx).argStore
	lets from0 = if len(indexes) >= 1 then indexes[0] else 0
	lets to0 = if len(indexes) >= 2 then indexes[1] else 0
	lets start0 = if len(indexes) >= 1 && indexes[0] > 0 then indexes[0] else 1
	ghost tm: map[Int]syntax.Expr = noExprs()
	ghost to: int = 0
	ghost tn: int = 0
	ghost perr: error = nil
	ghost jerr: error = nil
	ghost n: int = 0
	ghost out: Sq = qempty()
	ghost ferr: error = nil
	ghost own: bool = false
	on call syntax.Parse(in)(c0, e): perr := e
	on call syntax.Parse(in)(c0, e) when e == nil: tm := cells(c0.ExprList)
	on call syntax.Parse(in)(c0, e) when e == nil: to := off(c0.ExprList)
	on call syntax.Parse(in)(c0, e) when e == nil: tn := len(c0.ExprList)
	on call sqlf.(*funcInfo).JoinCompatibilityError(f0)(e): jerr := e
	on call sqlf.buildClause(x, c0)(s0, e): n := n + 1
	on call sqlf.buildClause(x, c0)(s0, e): ferr := e
	on call sqlf.buildClause(x, c0)(s0, e) when e == nil && s0 != "": out := snoc(out, u(s0))
	on call sqlf.isErrorOf(e, call)(r): own := r && e == ferr
	at call syntax.Parse(in): assert ["valid range only" C09] in == tmpl && len(indexes) <= 2 && !(to0 > 0 && from0 > to0)
	at call sqlf.buildClause(x, c0): assert ["the next index" C09] x == ctx && ferr == nil && (to0 > 0 ==> start0 + n <= to0)
	at call sqlf.buildClause(x, c0): assert ["the template at this index" C09 C06] len(c0.ExprList) == tn && len(calls) == nrefs(tm, to, tn)
	at call sqlf.buildClause(x, c0): assert ["the template at this index" C09 C06] forall j: int :: {c0.ExprList[j]} 0 <= j && j < tn && !is(sel(tm, ix(to, j)), *syntax.FuncExpr) ==> c0.ExprList[j] == sel(tm, ix(to, j))
	at call sqlf.buildClause(x, c0): assert ["the template at this index" C09 C06] forall j: int :: {c0.ExprList[j]} 0 <= j && j < tn && is(sel(tm, ix(to, j)), *syntax.FuncExpr) ==> isCall(c0.ExprList[j])
	at call sqlf.buildClause(x, c0): assert ["the template at this index" C09 C06] forall j: int :: {c0.ExprList[j]} 0 <= j && j < tn && is(sel(tm, ix(to, j)), *syntax.FuncExpr) ==> as(c0.ExprList[j], *syntax.FuncCallExpr) == calls[nrefs(tm, to, j)]
	at call sqlf.buildClause(x, c0): assert ["the template at this index" C09 C06] forall j: int :: {c0.ExprList[j]} 0 <= j && j < tn && is(sel(tm, ix(to, j)), *syntax.FuncExpr) ==> as(c0.ExprList[j], *syntax.FuncCallExpr).Name == as(sel(tm, ix(to, j)), *syntax.FuncExpr).Name
	at call sqlf.buildClause(x, c0): assert ["the template at this index" C09 C06] forall j: int :: {c0.ExprList[j]} 0 <= j && j < tn && is(sel(tm, ix(to, j)), *syntax.FuncExpr) ==> 0 <= nrefs(tm, to, j) && nrefs(tm, to, j) < len(calls)
	at call sqlf.buildClause(x, c0): assert ["the template at this index" C09 C06] forall j: int :: {c0.ExprList[j]} 0 <= j && j < tn && is(sel(tm, ix(to, j)), *syntax.FuncExpr) ==> len(as(c0.ExprList[j], *syntax.FuncCallExpr).Args) == 1 && is(as(c0.ExprList[j], *syntax.FuncCallExpr).Args[0], int) && as(as(c0.ExprList[j], *syntax.FuncCallExpr).Args[0], int) == start0 + n
	at call sqlf.isErrorOf(e, call): assert ["the first function" C09] forall j: int :: {c.ExprList[j]} 0 <= j && j < tn && is(sel(tm, ix(to, j)), *syntax.FuncExpr) && nrefs(tm, to, j) == 0 ==> as(c.ExprList[j], *syntax.FuncCallExpr) == call
	ensures ["bad range" C09] len(indexes) > 2 || (to0 > 0 && from0 > to0) || perr != nil || jerr != nil || nrefs(tm, to, tn) == 0 ==> err != nil
	ensures ["known and joinable" C09] err == nil ==> (forall j: int :: {sel(tm, ix(to, j))} 0 <= j && j < tn && is(sel(tm, ix(to, j)), *syntax.FuncExpr) ==>
		hasFunc(ctx, as(sel(tm, ix(to, j)), *syntax.FuncExpr).Name) && funcAt(ctx, as(sel(tm, ix(to, j)), *syntax.FuncExpr).Name).joinTested && funcAt(ctx, as(sel(tm, ix(to, j)), *syntax.FuncExpr).Name).joinError == nil)
	ensures ["results joined" C09] err == nil ==> s == sjoin(out, separator)
	ensures ["closed range" C09] err == nil && to0 > 0 ==> ferr == nil && n == to0 - start0 + 1
	ensures ["open range" C09 C08] err == nil && to0 <= 0 ==> n >= 1 && ferr != nil && outOfRange(ferr) && own && !(from0 > 0 && n == 1)
	ensures ["error kept" C08] err != nil && ferr != nil ==> errIs(err, ferr)
	ensures ["nothing on error" C08] err != nil ==> s == ""
	ensures ["error only for a cause" C09] err != nil && n > 0 ==> ferr != nil
	loop 1:
	invariant ["the clause"] c != nil && fresh(c) && len(c.ExprList) == tn && off(c.ExprList) == to && fresh(c.ExprList) && n == 0 && ferr == nil && perr == nil && jerr == nil
	invariant ["parsed"] forall j: int :: {sel(tm, ix(to, j))} 0 <= j && j < tn ==> allocated(sel(tm, ix(to, j)))
	invariant ["rest as parsed"] forall j: int :: {c.ExprList[j]} 0 <= j && j < tn && (k <= j || !is(sel(tm, ix(to, j)), *syntax.FuncExpr)) ==> c.ExprList[j] == sel(tm, ix(to, j))
	invariant ["exprs"] forall j: int :: {c.ExprList[j]} 0 <= j && j < tn ==> isPlain(c.ExprList[j]) || isVar(c.ExprList[j]) || isCall(c.ExprList[j]) || isRef(c.ExprList[j])
	invariant ["calls counted"] len(calls) == nrefs(tm, to, k) && fresh(calls)
	invariant ["calls are new"] forall m: int :: {calls[m]} 0 <= m && m < len(calls) ==> calls[m] != nil && fresh(calls[m])
	invariant ["replaced"] forall j: int :: {c.ExprList[j]} 0 <= j && j < k && is(sel(tm, ix(to, j)), *syntax.FuncExpr) ==> isCall(c.ExprList[j]) && as(c.ExprList[j], *syntax.FuncCallExpr) == calls[nrefs(tm, to, j)] && as(c.ExprList[j], *syntax.FuncCallExpr).Name == as(sel(tm, ix(to, j)), *syntax.FuncExpr).Name
	invariant ["joinable"] forall j: int :: {sel(tm, ix(to, j))} 0 <= j && j < k && is(sel(tm, ix(to, j)), *syntax.FuncExpr) ==> hasFunc(ctx, as(sel(tm, ix(to, j)), *syntax.FuncExpr).Name) && allocated(funcAt(ctx, as(sel(tm, ix(to, j)), *syntax.FuncExpr).Name)) && funcAt(ctx, as(sel(tm, ix(to, j)), *syntax.FuncExpr).Name).joinTested && funcAt(ctx, as(sel(tm, ix(to, j)), *syntax.FuncExpr).Name).joinError == nil
	invariant ["still used"] forall p: *sqlf.defaultProperty :: {p.used} old(allocated(p) && p.used) ==> p.used
	invariant ["verdict kept"] forall g: *sqlf.funcInfo :: {g.joinTested} {g.joinError} old(allocated(g) && g.joinTested) ==> g.joinTested && g.joinError == old(g.joinError)
	loop 2:
	invariant ["next index"] i == start0 + n && n >= 0 && ferr == nil && (to0 > 0 ==> i <= to0) && b != nil && fresh(b)
	invariant ["joined so far"] b.content == sjoin(out, separator) && (len(b.content) == 0 <==> len(out) == 0)
	invariant ["store"] rootOf(ctx).argStore == st && storeOK(st) && inPlace(argsOf(st), old(argsOf(st))) && len(argsOf(st)) >= old(len(argsOf(st))) && (forall j: int :: {argsOf(st)[j]} 0 <= j && j < old(len(argsOf(st))) ==> argsOf(st)[j] == old(argsOf(st)[j]))
	invariant ["placeholders so far"] emb(sty(st), old(len(argsOf(st))), len(argsOf(st)), b.content)
	invariant ["joinable"] forall j: int :: {sel(tm, ix(to, j))} 0 <= j && j < tn && is(sel(tm, ix(to, j)), *syntax.FuncExpr) ==> allocated(funcAt(ctx, as(sel(tm, ix(to, j)), *syntax.FuncExpr).Name)) && funcAt(ctx, as(sel(tm, ix(to, j)), *syntax.FuncExpr).Name).joinTested && funcAt(ctx, as(sel(tm, ix(to, j)), *syntax.FuncExpr).Name).joinError == nil
	invariant ["still used"] forall p: *sqlf.defaultProperty :: {p.used} old(allocated(p) && p.used) ==> p.used
	invariant ["verdict kept"] forall g: *sqlf.funcInfo :: {g.joinTested} {g.joinError} old(allocated(g) && g.joinTested) ==> g.joinTested && g.joinError == old(g.joinError)
	loop 3:
	invariant ["this index"] forall m: int :: {calls[m]} 0 <= m && m < k ==> len(calls[m].Args) == 1 && allocated(calls[m].Args) && is(calls[m].Args[0], int) && as(calls[m].Args[0], int) == i
