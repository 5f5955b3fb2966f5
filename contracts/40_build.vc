// Building: properties, clauses, fragments, functions.

boxfact *sqlf.nestedError(v, i) = eunwrap(i) == v.error
boxfact *sqlf.callError(v, i) = eunwrap(i) == v.error
boxreq *sqlf.nestedError(v) = v != nil
boxreq *sqlf.callError(v) = v != nil

// ---------------------------------------------------------------- properties
iface sqlf.Property.BuildFragment(p, ctx)(s, err)
	includes sqlf.builds
	maypanic if is(p, *sqlf.defaultProperty) && (dp(p) == nil || dp(p).value == nil)
	ensures ["marked" C07] isDP(p) ==> dp(p).used
iface sqlf.Property.Used(p)(r)
	pure
	requires is(p, *sqlf.defaultProperty) ==> isDP(p)
	ensures ["used" C07] isDP(p) ==> (r <==> dp(p).used)

func sqlf.(*defaultProperty).BuildFragment(p, ctx)(s, err) [C06]
	implements sqlf.Property.BuildFragment
	ghost ferr: error = nil
	on call sqlf.FragmentBuilder.BuildFragment(b, c)(s0, e): ferr := e
	at call sqlf.FragmentBuilder.BuildFragment(b, c): assert ["the item itself" C06] b == old(p.value) && c == ctx
	ensures ["error kept" C08] err == ferr

func sqlf.(*defaultProperty).Used(p)(r) [C07]
	implements sqlf.Property.Used
	modifies [C12] nothing

func sqlf.(*defaultProperty).ReportUsed(p)() [C07]
	requires p != nil
	modifies [C12, C07] p.used
	ensures ["marked" C07] p.used

func sqlf.(*arg).BuildFragment(c, ctx)(s, err) [C05]
	implements sqlf.FragmentBuilder.BuildFragment
	requires c != nil
	at call sqlf.(*Context).CommitArg(x, a): assert ["the value" C05 C06] x == ctx && a == old(c.any)
	ensures ["never fails" C08] err == nil

// errors.Is(err, ErrInvalidIndex), and not from the nested content
def outOfRange(e: error): bool = errIs(e, pkgvar(sqlf.ErrInvalidIndex)) && asFirst(e, tagid(*sqlf.nestedError)) == nil

func sqlf.isOutOfRange(err)(r) [C08 C09]
	uses invalidIndex
	modifies [C12] nothing
	ensures ["own reference" C08 C09] r <==> outOfRange(err)

func sqlf.isErrorOf(err, call)(r) [C08 C09]
	modifies [C12] nothing
	ensures ["this call" C08 C09] r <==> (asFirst(err, tagid(*sqlf.callError)) != nil && as(asFirst(err, tagid(*sqlf.callError)), *sqlf.callError).call == call)

func sqlf.(*nestedError).Unwrap(e)(r) [C08]
	requires e != nil
	modifies [C12] nothing
	ensures ["the cause" C08] r == e.error
func sqlf.(*callError).Unwrap(e)(r) [C08]
	requires e != nil
	modifies [C12] nothing
	ensures ["the cause" C08] r == e.error

func sqlf.Properties.Build(p, ctx, i)(s, err) [C06]
	includes sqlf.builds
	uses invalidIndex
	maypanic
	ghost ferr: error = nil
	on call sqlf.Property.BuildFragment(b, c)(s0, e): ferr := e
	at call sqlf.Property.BuildFragment(b, c): assert ["item i" C06] b == p[i - 1] && 1 <= i && i <= len(p) && c == ctx
	ensures ["out of range" C06 C09] i < 1 || i > len(p) ==> err != nil && outOfRange(err) && s == ""
	ensures ["error kept" C08] ferr != nil ==> err != nil && errIs(err, ferr) && s == ""
	ensures ["only its index is out of range" C09] 1 <= i && i <= len(p) && err != nil ==> !outOfRange(err)
	ensures ["marked" C07] err == nil && isDP(p[i - 1]) ==> dp(p[i - 1]).used

def allDP(p: sqlf.Properties): bool = forall i: int :: {p[i]} 0 <= i && i < len(p) ==> isDP(p[i])
def allUsed(p: sqlf.Properties): bool = forall i: int :: {p[i]} 0 <= i && i < len(p) ==> dp(p[i]).used

func sqlf.Properties.checkUsage(p)(err) [C07]
	requires allDP(p)
	modifies [C12] nothing
	ensures ["unused reported" C07] err == nil <==> allUsed(p)
	loop 1:
	invariant ["used so far"] forall i: int :: {p[i]} 0 <= i && i < k ==> dp(p[i]).used

func sqlf.(*FragmentContext).checkUsage(c)(err) [C07]
	requires c != nil ==> allDP(c.Args) && allDP(c.Fragments)
	modifies [C12] nothing
	ensures ["unused reported" C07] err == nil <==> (c == nil || (allUsed(c.Args) && allUsed(c.Fragments)))

// ----------------------------------------------------------------- functions
axiom forall r: reflect.Value :: {riface(r)} is(riface(r), *sqlf.Context) ==> rkind(r) == 22 || rkind(r) == 20

fn ctxArg{rdummy}(a: reflect.Value): *sqlf.Context = if is(riface(a), *sqlf.Context) then as(riface(a), *sqlf.Context) else nil
group rdummy { sqlf.Context.parent }
assumption "reflect.Value.Call calls the function with exactly these values; a custom function changes nothing of the library but through the context given to it"
extern reflect.Value.Call(fun, argv)(ret)
	lets ctx = if len(argv) > 0 then ctxArg(argv[0]) else nil
	lets st = rootOf(ctx).argStore
	requires ctx != nil ==> storeOK(st) && chainOK(ctx)
	maypanic
	modifies qs(st).args if ctx != nil && isQ(st), ds(st).args if ctx != nil && isD(st), mapof(ds(st).dict) if ctx != nil && isD(st), elems(argsOf(st)) from len(argsOf(st)) if ctx != nil, heap("F.sqlf.defaultProperty.used"), heap("F.sqlf.funcInfo.joinTested"), heap("F.sqlf.funcInfo.joinError")
	always ["store"] ctx != nil ==> storeOK(st) && inPlace(argsOf(st), old(argsOf(st)))
	always ["others kept"] ctx != nil ==> len(argsOf(st)) >= old(len(argsOf(st))) && (forall i: int :: {argsOf(st)[i]} 0 <= i && i < old(len(argsOf(st))) ==> argsOf(st)[i] == old(argsOf(st)[i]))
	always ["still used"] forall p: *sqlf.defaultProperty :: {p.used} old(allocated(p) && p.used) ==> p.used
	always ["verdict kept"] forall g: *sqlf.funcInfo :: {g.joinTested} {g.joinError} old(allocated(g) && g.joinTested) ==> g.joinTested && g.joinError == old(g.joinError)
	ensures len(ret) == tNumOut(rtype(fun)) && (forall i: int :: {ret[i]} 0 <= i && i < len(ret) ==> rtype(ret[i]) == tOut(rtype(fun), i) && rkind(ret[i]) == tkind(rtype(ret[i])))
	ensures forall i: int :: {ret[i]} 0 <= i && i < len(ret) && rtype(ret[i]) == stringT() ==> is(riface(ret[i]), string)
	ensures forall i: int :: {ret[i]} 0 <= i && i < len(ret) && rtype(ret[i]) == errorT() ==> riface(ret[i]) == nil || is(riface(ret[i]), error)
	ensures ctx != nil && (len(ret) < 2 || riface(ret[1]) == nil) ==> emb(sty(st), old(len(argsOf(st))), len(argsOf(st)), if len(ret) == 0 then "" else as(riface(ret[0]), string))

func sqlf.unwrap(v)(r) [C10]
	uses sqlfTypes
	requires rkind(v) != 0 && rtype(v) != typeOfTag(tagid(reflect.Value))
	modifies [C12] nothing
	ensures ["itself" C10] r == v

func sqlf.convertString(v)(s, err) [C10]
	requires rkind(v) != 0 && rtype(v) != typeOfTag(tagid(reflect.Value))
	modifies [C12] nothing
	ensures ["the string" C10] is(riface(v), string) ==> err == nil && s == as(riface(v), string)
	ensures ["else an error" C10] !is(riface(v), string) ==> err != nil

func sqlf.convertError(v)(e, err) [C10]
	requires rkind(v) != 0 && rtype(v) != typeOfTag(tagid(reflect.Value))
	modifies [C12] nothing
	ensures ["the error" C10 C08] riface(v) == nil || is(riface(v), error) ==> err == nil && e == riface(v)
	ensures ["else an error" C10] riface(v) != nil && !is(riface(v), error) ==> err != nil

func sqlf.safeCall(fun, args)(val, err) [C10]
	lets ctx = if len(args) > 0 then ctxArg(args[0]) else nil
	lets st = rootOf(ctx).argStore
	requires goodSig(rtype(fun)) && (ctx != nil ==> storeOK(st) && chainOK(ctx))
	modifies [C12] qs(st).args if ctx != nil && isQ(st), ds(st).args if ctx != nil && isD(st), mapof(ds(st).dict) if ctx != nil && isD(st), elems(argsOf(st)) from len(argsOf(st)) if ctx != nil, heap("F.sqlf.defaultProperty.used"), heap("F.sqlf.funcInfo.joinTested"), heap("F.sqlf.funcInfo.joinError")
	ghost done: bool = false
	ghost ferr: error = nil
	ghost out: any = nil
	on call reflect.Value.Call(f, a)(ret): done := true
	on call reflect.Value.Call(f, a)(ret) when len(ret) >= 2: ferr := riface(ret[1])
	on call reflect.Value.Call(f, a)(ret) when len(ret) >= 1: out := riface(ret[0])
	at call reflect.Value.Call(f, a): assert ["this function, these args" C10] f == fun && a == args && !done
	ensures ["a panic is an error" C10 C08] !done ==> err != nil
	ensures ["error kept" C08] done && ferr != nil ==> err == ferr
	ensures ["result kept" C10 C01] done && ferr == nil ==> err == nil && val == (if out == nil then "" else as(out, string))
	ensures ["store" C05] ctx != nil ==> storeOK(st) && inPlace(argsOf(st), old(argsOf(st)))
	ensures ["others kept" C05 C04] ctx != nil ==> len(argsOf(st)) >= old(len(argsOf(st))) && (forall i: int :: {argsOf(st)[i]} 0 <= i && i < old(len(argsOf(st))) ==> argsOf(st)[i] == old(argsOf(st)[i]))
	ensures ["placeholders in order" C04] err == nil && ctx != nil ==> emb(sty(st), old(len(argsOf(st))), len(argsOf(st)), val)
	ensures ["still used" C07] forall p: *sqlf.defaultProperty :: {p.used} old(allocated(p) && p.used) ==> p.used
	ensures ["verdict kept" C09] forall g: *sqlf.funcInfo :: {g.joinTested} {g.joinError} old(allocated(g) && g.joinTested) ==> g.joinTested && g.joinError == old(g.joinError)

// ------------------------------------------------------------ calls by template
// the kind of an argument in a template: 1 number, 2 bool, 3 string
fn argKind(v: any): int =
	if is(v, int) || is(v, int8) || is(v, int16) || is(v, int32) || is(v, int64) || is(v, uint) || is(v, uint8) || is(v, uint16) || is(v, uint32) || is(v, uint64) || is(v, float32) || is(v, float64) then 1
	else if is(v, bool) then 2 else if is(v, string) then 3 else if v == nil then 4 else 0
// the argument may be given to a parameter of type t
fn argFits(t: reflect.Type, v: any): bool =
	(argKind(v) == 1 && numKind(tkind(t))) || (argKind(v) == 2 && tkind(t) == 1) || (argKind(v) == 3 && tkind(t) == 24) || (argKind(v) == 4 && tkind(t) == 20)
// the argument, converted
fn argConv(t: reflect.Type, v: any): reflect.Value = if v == nil then rzero(t) else rconvert(rvalOf(v), t)

func sqlf.evalArg(typ, arg)(r, err) [C10]
	requires typ != nil
	modifies [C12] nothing
	ensures ["kinds match" C10] err == nil <==> argFits(typ, arg)
	ensures ["converted" C10] err == nil ==> r == argConv(typ, arg)

// the number of arguments fits
fn countFits(t: reflect.Type, n: int): bool =
	let fixed = (tNumIn(t) - (if tVariadic(t) then 1 else 0)) - (if takesCtx(t) then 1 else 0) in
	if tVariadic(t) then n >= fixed else n == fixed

func sqlf.evalCall(ctx, f, args)(s, err) [C10]
	includes sqlf.builds
	uses invalidIndex
	requires infoOK(f) && goodSig(rtype(f.fn))
	lets t = rtype(f.fn)
	lets skip = if takesCtx(rtype(f.fn)) then 1 else 0
	ghost ferr: error = nil
	ghost called: bool = false
	on call sqlf.safeCall(fun, argv)(v, e): ferr := e
	on call sqlf.safeCall(fun, argv)(v, e): called := true
	at call sqlf.safeCall(fun, argv): assert ["the function" C10] fun == f.fn && len(argv) == old(len(args)) + skip && !called
	at call sqlf.safeCall(fun, argv): assert ["context first" C10] skip == 1 ==> argv[0] == rvalOf(iface(ctx))
	at call sqlf.safeCall(fun, argv): assert ["the given arguments" C10] forall i: int :: {argv[i]} skip <= i && i < len(argv) ==> argv[i] == argConv(argT(t, i), old(args[i - skip])) && argFits(argT(t, i), old(args[i - skip]))
	ensures ["wrong number" C10] !countFits(t, old(len(args))) ==> err != nil && !called
	ensures ["wrong kind" C10] countFits(t, old(len(args))) && !called ==> err != nil && (exists i: int :: {old(args[i])} 0 <= i && i < old(len(args)) && !argFits(argT(t, i + skip), old(args[i])))
	ensures ["error kept" C08] ferr != nil ==> err != nil && errIs(err, ferr) && s == "" && (outOfRange(err) <==> outOfRange(ferr))
	ensures ["only then" C08 C10] called && ferr == nil ==> err == nil
	loop 1:
	invariant ["fixed"] forall j: int :: {argv[j]} skip <= j && j < i ==> argv[j] == argConv(argT(t, j), old(args[j - skip])) && argFits(argT(t, j), old(args[j - skip]))
	invariant ["context"] 0 <= i && (skip == 1 && i > 0 ==> argv[0] == rvalOf(iface(ctx)))
	invariant ["arguments"] len(args) == old(len(args)) + skip && (forall j: int :: {args[j]} skip <= j && j < len(args) ==> args[j] == old(args[j - skip])) && (skip == 1 ==> args[0] == iface(ctx))
	loop 2:
	invariant ["all"] forall j: int :: {argv[j]} skip <= j && j < i ==> argv[j] == argConv(argT(t, j), old(args[j - skip])) && argFits(argT(t, j), old(args[j - skip]))
	invariant ["context"] 0 <= i && (skip == 1 && i > 0 ==> argv[0] == rvalOf(iface(ctx)))

func sqlf.evalFunction(ctx, name, args)(s, err) [C10]
	includes sqlf.builds
	ghost ferr: error = nil
	ghost called: bool = false
	on call sqlf.evalCall(c, f, a)(v, e): ferr := e
	on call sqlf.evalCall(c, f, a)(v, e): called := true
	at call sqlf.evalCall(c, f, a): assert ["the innermost function of that name" C10] c == ctx && hasFunc(ctx, name) && f == funcAt(ctx, name) && a == args && !called
	ensures ["unknown" C10] !old(hasFunc(ctx, name)) <==> !called
	ensures ["unknown fails" C10] !called ==> err != nil && s == ""
	ensures ["error kept" C08] called ==> err == ferr
