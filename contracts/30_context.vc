// The chain of contexts, fragment contexts, and what a reference refers to.

group chain { sqlf.Context.parent, sqlf.Context.frag, sqlf.Context.funcs, "M:map[string]*sqlf.funcInfo",
	sqlf.funcInfo.name, sqlf.funcInfo.fn, sqlf.funcInfo.variadic, sqlf.funcInfo.nIn, sqlf.funcInfo.nInFixed, sqlf.funcInfo.inTypes, sqlf.funcInfo.inContextFirst, sqlf.funcInfo.nOut, sqlf.funcInfo.outTypes, "E.reflect.Type",
	sqlf.FragmentContext.Args, sqlf.FragmentContext.Fragments, "E.sqlf.Property", sqlf.defaultProperty.value }

// the innermost fragment context
rec fn fragOf{chain}(c: *sqlf.Context): *sqlf.FragmentContext =
	if c == nil then nil else if c.frag != nil then c.frag else fragOf(c.parent)
// the innermost function of that name
rec fn hasFunc{chain}(c: *sqlf.Context, name: string): bool =
	if c == nil then false else if c.funcs != nil && haskey(c.funcs, name) then true else hasFunc(c.parent, name)
rec fn funcAt{chain}(c: *sqlf.Context, name: string): *sqlf.funcInfo =
	if c == nil then nil else if c.funcs != nil && haskey(c.funcs, name) then c.funcs[name] else funcAt(c.parent, name)

// used(p): the property was referenced
def usedOf(p: sqlf.Property): bool = as(p, *sqlf.defaultProperty).used
def isDP(p: sqlf.Property): bool = is(p, *sqlf.defaultProperty) && as(p, *sqlf.defaultProperty) != nil

def dp(p: sqlf.Property): *sqlf.defaultProperty = as(p, *sqlf.defaultProperty)
def argIn(p: sqlf.Property): *sqlf.arg = as(as(p, *sqlf.defaultProperty).value, *sqlf.arg)
fn stringT(): reflect.Type = typeOfTag(tagid(string))
fn errorT(): reflect.Type = typeOfTag(tagid(error))
fn contextT(): reflect.Type = typeOfTag(tagid(*sqlf.Context))
global sqlfTypes pkgvar(sqlf.stringType) == stringT() && pkgvar(sqlf.errorType) == errorT() && pkgvar(sqlf.contextPointerType) == contextT() && pkgvar(sqlf.reflectValueType) == typeOfTag(tagid(reflect.Value))
global invalidIndex pkgvar(sqlf.ErrInvalidIndex) != nil && eunwrap(pkgvar(sqlf.ErrInvalidIndex)) == nil && is(pkgvar(sqlf.ErrInvalidIndex), *errors.errorString)
global builtins pkgvar(sqlf.builtInFuncs) != nil && (forall n: string :: {haskey(pkgvar(sqlf.builtInFuncs), n)} haskey(pkgvar(sqlf.builtInFuncs), n) <==> (n == "arg" || n == "f" || n == "fragment" || n == "join")) &&
	pkgvar(sqlf.builtInFuncs)["arg"] == iface(fnval(sqlf.funcArg)) && pkgvar(sqlf.builtInFuncs)["f"] == iface(fnval(sqlf.funcFragment)) &&
	pkgvar(sqlf.builtInFuncs)["fragment"] == iface(fnval(sqlf.funcFragment)) && pkgvar(sqlf.builtInFuncs)["join"] == iface(fnval(sqlf.funcJoin))

// a letter or underscore
def nameChar(c: int): bool = c == '_' || ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z')
fn goodNm(s: Str): bool = len(s) > 0 && (forall i: int :: {s[i]} 0 <= i && i < len(s) ==> nameChar(s[i]))

// argT(t, i): the type that the value of the i-th argument is converted to
fn argT(t: reflect.Type, i: int): reflect.Type = if tVariadic(t) && i >= tNumIn(t) - 1 then telem(tIn(t, tNumIn(t) - 1)) else tIn(t, i)
fn takesCtx(t: reflect.Type): bool = tNumIn(t) > 0 && tIn(t, 0) == contextT()
def argTypeOK(t: reflect.Type): bool = tkind(t) == 24 || tkind(t) == 1 || numKind(tkind(t))
// a function type that may be registered
fn goodSig(t: reflect.Type): bool = tkind(t) == 19 &&
	(tNumOut(t) == 0 || tNumOut(t) == 1 && tOut(t, 0) == stringT() || tNumOut(t) == 2 && tOut(t, 0) == stringT() && tOut(t, 1) == errorT()) &&
	(forall i: int :: {tIn(t, i)} 0 <= i && i < tNumIn(t) && !(i == 0 && takesCtx(t)) ==> argTypeOK(argT(t, i)))

// what the info of a function tells about it is true
fn infoOK{chain}(f: *sqlf.funcInfo): bool = f != nil &&
	rkind(f.fn) == 19 && tkind(rtype(f.fn)) == 19 &&
	f.nIn == tNumIn(rtype(f.fn)) && len(f.inTypes) == f.nIn && (f.variadic <==> tVariadic(rtype(f.fn))) &&
	f.nInFixed == (if f.variadic then f.nIn - 1 else f.nIn) && (f.inContextFirst <==> takesCtx(rtype(f.fn))) &&
	f.nOut == tNumOut(rtype(f.fn)) && len(f.outTypes) == f.nOut &&
	(forall i: int :: {f.inTypes[i]} 0 <= i && i < f.nIn ==> f.inTypes[i] == tIn(rtype(f.fn), i)) &&
	(forall i: int :: {f.outTypes[i]} 0 <= i && i < f.nOut ==> f.outTypes[i] == tOut(rtype(f.fn), i))

// the args of a fragment context are args
fn fragOK{chain}(c: *sqlf.FragmentContext): bool =
	(forall i: int :: {c.Args[i]} 0 <= i && i < len(c.Args) ==> isDP(c.Args[i]) && is(dp(c.Args[i]).value, *sqlf.arg) && argIn(c.Args[i]) != nil)
// every function that a context has was accepted, and every fragment context is in order
rec fn chainOK{chain}(c: *sqlf.Context): bool = c == nil ||
	((c.funcs == nil || (forall n: string :: {haskey(c.funcs, n)} haskey(c.funcs, n) ==> infoOK(c.funcs[n]) && goodSig(rtype(c.funcs[n].fn)))) && (c.frag != nil ==> fragOK(c.frag)) && chainOK(c.parent))

func sqlf.(*Context).root(c)(r) [C05]
	requires c != nil
	modifies [C05, C12] nothing
	ensures ["the root" C05 C04] r == rootOf(c) && r != nil
	loop 1:
	invariant ["same root"] root != nil && rootOf(root) == rootOf(c)

func sqlf.(*Context).fragment(c)(fc, ok) [C06]
	modifies [C06, C12] nothing
	ensures ["innermost" C06] fc == fragOf(c) && (ok <==> fc != nil)
	ensures ["in order" C06] chainOK(c) && ok ==> fragOK(fc)
	loop 1:
	invariant ["none so far"] fragOf(ctx) == fragOf(c) && (chainOK(c) ==> chainOK(ctx))

func sqlf.(*Context).mustFragment(c)(fc, err) [C06]
	modifies [C06, C12] nothing
	ensures ["innermost" C06] err == nil ==> fc == fragOf(c) && fc != nil
	ensures ["in order" C06] chainOK(c) && err == nil ==> fragOK(fc)
	ensures ["none" C06] fragOf(c) == nil <==> err != nil

func sqlf.(*Context).fn(c, name)(f, ok) [C10]
	modifies [C10, C12] nothing
	ensures ["innermost" C10] (ok <==> hasFunc(c, name)) && (ok ==> f == funcAt(c, name))
	ensures ["accepted" C10] chainOK(c) && ok ==> infoOK(f) && goodSig(rtype(f.fn))
	loop 1:
	invariant ["none so far"] funcAt(ctx, name) == funcAt(c, name) && hasFunc(ctx, name) == hasFunc(c, name) && (chainOK(c) ==> chainOK(ctx))

func sqlf.(*Context).Args(c)(r) [C05]
	requires c != nil && storeOK(rootOf(c).argStore)
	modifies [C05, C12] nothing
	ensures ["all args" C05 C04] r == argsOf(rootOf(c).argStore)

func sqlf.(*Context).CommitArg(c, arg)(r) [C05]
	lets st = rootOf(c).argStore
	requires c != nil && storeOK(st)
	modifies [C05, C12] qs(st).args if isQ(st), ds(st).args if isD(st), mapof(ds(st).dict) if isD(st), elems(argsOf(st)) from len(argsOf(st))
	ensures ["store" C05] storeOK(st)
	ensures ["in place" C12] inPlace(argsOf(st), old(argsOf(st)))
	ensures ["others kept" C05 C04] len(argsOf(st)) >= old(len(argsOf(st))) && (forall i: int :: {argsOf(st)[i]} 0 <= i && i < old(len(argsOf(st))) ==> argsOf(st)[i] == old(argsOf(st)[i]))
	ensures ["question style" C05 C04] isQ(st) ==> r == "?" && len(argsOf(st)) == old(len(argsOf(st))) + 1 && argsOf(st)[old(len(argsOf(st)))] == arg
	ensures ["dollar style" C05 C04] isD(st) ==> (exists n: int :: {itoa(n)} r == "$" + itoa(n) && 1 <= n && n <= len(argsOf(st)) && argsOf(st)[n - 1] == arg &&
		(n == old(len(argsOf(st))) + 1 && len(argsOf(st)) == n || n <= old(len(argsOf(st))) && len(argsOf(st)) == old(len(argsOf(st)))))
	ensures ["equal value is reused" C05] isD(st) && hashable(arg) && (exists i: int :: {argsOf(st)[i]} 0 <= i && i < old(len(argsOf(st))) && old(argsOf(st)[i]) == arg) ==> len(argsOf(st)) == old(len(argsOf(st)))
	ensures ["placeholders in order" C04] emb(sty(st), old(len(argsOf(st))), len(argsOf(st)), r)

func sqlf.(*Context).discardArgs(c, n)() [C05]
	lets st = rootOf(c).argStore
	requires c != nil && storeOK(st) && 0 <= n && n <= len(argsOf(st))
	modifies [C05, C12] qs(st).args if isQ(st), ds(st).args if isD(st), mapof(ds(st).dict) if isD(st)
	ensures ["store" C05] storeOK(st)
	ensures ["in place" C12] inPlace(argsOf(st), old(argsOf(st)))
	ensures ["cut" C05 C04] len(argsOf(st)) == n
	ensures ["others kept" C05 C04] forall i: int :: {argsOf(st)[i]} 0 <= i && i < n ==> argsOf(st)[i] == old(argsOf(st)[i])

// what building anything does to the state (includes, never called)
iface sqlf.builds(ctx)(s, err)
	lets st = rootOf(ctx).argStore
	requires ctx != nil && storeOK(st) && chainOK(ctx)
	modifies [C12] qs(st).args if isQ(st), ds(st).args if isD(st), mapof(ds(st).dict) if isD(st), elems(argsOf(st)) from len(argsOf(st)), heap("F.sqlf.defaultProperty.used"), heap("F.sqlf.funcInfo.joinTested"), heap("F.sqlf.funcInfo.joinError")
	always ["store" C05] storeOK(st)
	always ["in place" C12] inPlace(argsOf(st), old(argsOf(st)))
	always ["others kept" C05 C04] len(argsOf(st)) >= old(len(argsOf(st))) && (forall i: int :: {argsOf(st)[i]} 0 <= i && i < old(len(argsOf(st))) ==> argsOf(st)[i] == old(argsOf(st)[i]))
	ensures ["placeholders in order" C04] err == nil ==> emb(sty(st), old(len(argsOf(st))), len(argsOf(st)), s)
	always ["still used" C07] forall p: *sqlf.defaultProperty :: {p.used} old(allocated(p) && p.used) ==> p.used
	always ["verdict kept" C09] forall g: *sqlf.funcInfo :: {g.joinTested} {g.joinError} old(allocated(g) && g.joinTested) ==> g.joinTested && g.joinError == old(g.joinError)

assumption "user-written FragmentBuilders and custom functions change nothing of the library but through the methods of the context given to them, and put the placeholders they get from CommitArg into their result, in order"
iface sqlf.FragmentBuilder.BuildFragment(b, ctx)(s, err)
	includes sqlf.builds

func sqlf.newEmptyContext(bindVarStyle)(c) [C05]
	modifies [C05, C12] nothing
	ensures ["root" C05 C04] c != nil && fresh(c) && c.parent == nil && c.frag == nil && rootOf(c) == c && c.funcs != nil && fresh(c.funcs)
	ensures ["no function" C10] forall n: string :: {haskey(c.funcs, n)} !haskey(c.funcs, n)
	ensures ["style" C04] (bindVarStyle == 0 ==> isD(c.argStore)) && (bindVarStyle != 0 ==> isQ(c.argStore))
	ensures ["empty store" C05 C04] storeOK(c.argStore) && len(argsOf(c.argStore)) == 0
	ensures ["fresh store" C12] cap(argsOf(c.argStore)) == 0 && (isQ(c.argStore) ==> fresh(qs(c.argStore))) && (isD(c.argStore) ==> fresh(ds(c.argStore)) && fresh(ds(c.argStore).dict))

func sqlf.newFragmentContext(f)(r) [C06]
	modifies [C12] nothing
	ensures ["none" C06] r != nil && fresh(r) && r.Fragment == f && (f == nil ==> len(r.Args) == 0 && len(r.Fragments) == 0)
	ensures ["its own items" C06 C07] f != nil ==> ownItems(r, f)
	ensures ["none used yet" C07] noneUsed(r.Args) && noneUsed(r.Fragments)

// the items of a fragment context are those of the fragment, in order
def ownItems(r: *sqlf.FragmentContext, f: *sqlf.Fragment): bool =
	len(r.Args) == len(f.Args) && len(r.Fragments) == len(f.Fragments) &&
	(forall i: int :: {r.Args[i]} 0 <= i && i < len(r.Args) ==> isDP(r.Args[i]) && is(dp(r.Args[i]).value, *sqlf.arg) && argIn(r.Args[i]) != nil && argIn(r.Args[i]).any == f.Args[i]) &&
	(forall i: int :: {r.Fragments[i]} 0 <= i && i < len(r.Fragments) ==> isDP(r.Fragments[i]) && dp(r.Fragments[i]).value == f.Fragments[i])
// none of the items has been referenced
def noneUsed(r: sqlf.Properties): bool = forall i: int :: {r[i]} 0 <= i && i < len(r) ==> fresh(dp(r[i])) && !dp(r[i]).used

func sqlf.NewArgsProperties(args)(r) [C06]
	modifies [C12] nothing
	ensures ["each arg" C06] len(r) == len(args) && (forall i: int :: {r[i]} 0 <= i && i < len(r) ==> isDP(r[i]) && is(dp(r[i]).value, *sqlf.arg) && fresh(argIn(r[i])) && argIn(r[i]) != nil && argIn(r[i]).any == args[i])
	ensures ["none used yet" C07] fresh(r) && noneUsed(r)
	loop 1:
	invariant ["each arg"] fresh(r) && len(r) == k && (forall i: int :: {r[i]} 0 <= i && i < k ==> isDP(r[i]) && is(dp(r[i]).value, *sqlf.arg) && fresh(argIn(r[i])) && argIn(r[i]) != nil && argIn(r[i]).any == args[i])
	invariant ["none used yet" C07] noneUsed(r)

func sqlf.NewFragmentProperties(fragments)(r) [C06]
	modifies [C12] nothing
	ensures ["each fragment" C06] len(r) == len(fragments) && (forall i: int :: {r[i]} 0 <= i && i < len(r) ==> isDP(r[i]) && dp(r[i]).value == fragments[i])
	ensures ["none used yet" C07] fresh(r) && noneUsed(r)
	loop 1:
	invariant ["each fragment"] fresh(r) && len(r) == k && (forall i: int :: {r[i]} 0 <= i && i < k ==> isDP(r[i]) && dp(r[i]).value == fragments[i])
	invariant ["none used yet" C07] noneUsed(r)

func sqlf.contextWithFragment(ctx, f)(c) [C06]
	modifies [C12] nothing
	ensures ["innermost fragment" C06] c != nil && fresh(c) && c.parent == ctx && c.frag != nil && fragOf(c) == c.frag && fresh(c.frag) && c.funcs == nil && c.frag.Fragment == f
	ensures ["same store" C05 C04] ctx != nil ==> rootOf(c) == rootOf(ctx)
	ensures ["its own items" C06 C07] f != nil ==> ownItems(c.frag, f)
	ensures ["none used yet" C07] noneUsed(c.frag.Args) && noneUsed(c.frag.Fragments)
	ensures ["same functions" C10] forall n: string :: {funcAt(c, n)} funcAt(c, n) == funcAt(ctx, n) && hasFunc(c, n) == hasFunc(ctx, n)
	ensures ["in order" C06 C10] chainOK(ctx) ==> chainOK(c)
