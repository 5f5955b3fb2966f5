// C10: which functions are accepted, and how they are called

func sqlf.goodName(name)(r) [C10]
	modifies [C10, C12] nothing
	ensures ["letters and underscore" C10] r <==> goodNm(name)
	loop 1:
	invariant ["good so far"] 0 <= offset() && offset() <= len(name) && (forall i: int :: {name[i]} 0 <= i && i < offset() ==> nameChar(name[i]))

func sqlf.numberType(k)(r) [C10]
	modifies [C10, C12] nothing
	ensures ["numbers" C10] r <==> numKind(k)

func sqlf.goodArgType(t)(r) [C10]
	requires t != nil
	modifies [C10, C12] nothing
	ensures ["argument type" C10] r <==> argTypeOK(t)

func sqlf.goodFunc(f)(err) [C10]
	uses sqlfTypes
	requires infoOK(f)
	modifies [C10, C12] nothing
	ensures ["signature" C10] err == nil <==> goodSig(rtype(f.fn))
	loop 1:
	invariant ["so far"] forall i: int :: {tIn(rtype(f.fn), i)} 0 <= i && i < k && !(i == 0 && takesCtx(rtype(f.fn))) ==> argTypeOK(argT(rtype(f.fn), i))

group fmap { "M:map[string]*sqlf.funcInfo" }
fn accepted(name: string, v: any): bool = goodNm(name) && v != nil && goodSig(typeOfTag(tag(v)))

func sqlf.addValueFuncs(out, in)(err) [C10]
	uses sqlfTypes
	requires out != nil
	modifies [C10, C12] mapof(out)
	ensures ["refused" C10] (forall n: string :: {haskey(in, n)} haskey(in, n) ==> accepted(n, in[n]) && !old(haskey(out, n))) <==> err == nil
	ensures ["registered" C10] err == nil ==> (forall n: string :: {haskey(out, n)} haskey(out, n) <==> (old(haskey(out, n)) || haskey(in, n)))
	ensures ["as given" C10] err == nil ==> (forall n: string :: {out[n]} haskey(in, n) ==> infoOK(out[n]) && fresh(out[n]) && out[n].fn == rvalOf(in[n]) && out[n].name == n && !out[n].joinTested)
	ensures ["others kept" C10] forall n: string :: {out[n]} old(haskey(out, n)) ==> haskey(out, n) && out[n] == old(out[n])
	loop 1:
	invariant ["accepted so far"] forall n: string :: {visited(n)} visited(n) ==> haskey(in, n) && accepted(n, in[n]) && !old(haskey(out, n))
	invariant ["registered so far"] forall n: string :: {haskey(out, n)} haskey(out, n) <==> (old(haskey(out, n)) || visited(n))
	invariant ["as given"] forall n: string :: {out[n]} visited(n) ==> infoOK(out[n]) && fresh(out[n]) && out[n].fn == rvalOf(in[n]) && out[n].name == n && !out[n].joinTested
	invariant ["others kept"] forall n: string :: {out[n]} old(haskey(out, n)) ==> out[n] == old(out[n])
	loop 2:
	invariant ["in types"] 0 <= i && i <= nIn && fun != nil && fresh(fun) && fresh(fun.inTypes) && len(fun.inTypes) == nIn && (forall j: int :: {fun.inTypes[j]} 0 <= j && j < i ==> fun.inTypes[j] == tIn(rtype(fun.fn), j))
	loop 3:
	invariant ["in types"] fresh(fun.inTypes) && len(fun.inTypes) == nIn && (forall j: int :: {fun.inTypes[j]} 0 <= j && j < nIn ==> fun.inTypes[j] == tIn(rtype(fun.fn), j))
	invariant ["out types"] 0 <= i && i <= nOut && fun != nil && fresh(fun) && fresh(fun.outTypes) && len(fun.outTypes) == nOut && (forall j: int :: {fun.outTypes[j]} 0 <= j && j < i ==> fun.outTypes[j] == tOut(rtype(fun.fn), j))

func sqlf.NewContext(bindVarStyle)(c) [C05]
	uses sqlfTypes, builtins
	modifies [C05, C12] nothing
	ensures ["root" C05 C04] c != nil && fresh(c) && c.parent == nil && c.frag == nil && rootOf(c) == c
	ensures ["style" C04] (bindVarStyle == 0 ==> isD(c.argStore)) && (bindVarStyle != 0 ==> isQ(c.argStore))
	ensures ["empty store" C05 C04] storeOK(c.argStore) && len(argsOf(c.argStore)) == 0
	ensures ["fresh store" C12] cap(argsOf(c.argStore)) == 0 && (isQ(c.argStore) ==> fresh(qs(c.argStore))) && (isD(c.argStore) ==> fresh(ds(c.argStore)) && fresh(ds(c.argStore).dict))

	ensures ["functions" C10] chainOK(c) && (forall n: string :: {haskey(c.funcs, n)} haskey(c.funcs, n) <==> (n == "arg" || n == "f" || n == "fragment" || n == "join")) &&
		c.funcs["arg"].fn == rvalOf(iface(fnval(sqlf.funcArg))) && c.funcs["f"].fn == rvalOf(iface(fnval(sqlf.funcFragment))) && c.funcs["fragment"].fn == rvalOf(iface(fnval(sqlf.funcFragment))) && c.funcs["join"].fn == rvalOf(iface(fnval(sqlf.funcJoin)))

func sqlf.ContextWithFuncs(c, funcs)(r, err) [C10]
	modifies [C05, C12] nothing
	ensures ["refused" C10] err == nil <==> (forall n: string :: {haskey(funcs, n)} haskey(funcs, n) ==> accepted(n, funcs[n]))
	ensures ["innermost" C10] err == nil ==> r != nil && fresh(r) && r.parent == c && (forall n: string :: {haskey(r.funcs, n)} haskey(r.funcs, n) <==> haskey(funcs, n)) &&
		(forall n: string :: {r.funcs[n]} haskey(funcs, n) ==> r.funcs[n].fn == rvalOf(funcs[n]) && funcAt(r, n) == r.funcs[n])
	ensures ["all accepted" C10] err == nil && chainOK(c) ==> chainOK(r)
	ensures ["the rest is inherited" C10] err == nil ==> (forall n: string :: {funcAt(r, n)} !haskey(funcs, n) ==> hasFunc(r, n) == hasFunc(c, n) && funcAt(r, n) == funcAt(c, n))
	ensures ["same scope" C05 C06] err == nil ==> fragOf(r) == fragOf(c) && (c != nil ==> rootOf(r) == rootOf(c))

// the package variables are what the functions take them for
func sqlf.init()() [C05 C06 C08 C09 C10]
	modifies all
	establishes sqlfTypes, invalidIndex, builtins
