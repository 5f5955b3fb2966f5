// C01, C02, C03: the expressions of a template

extern strconv.ParseUint(s, base, bits)(v, err)
	pure
	ensures err == nil ==> v == decval(s) && 0 <= v && v <= 18446744073709551615
axiom forall s: Str, i: int, j: int :: {ssub(s, i, j)} j == i + 1 && 0 <= i && j <= len(s) ==> (sat(s, i) == 36 <==> ssub(s, i, j) == "$") && (sat(s, i) == 63 <==> ssub(s, i, j) == "?")
// the number a decimal numeral stands for
fn decval(s: Str): int

group synx { syntax.PlainExpr.Text, syntax.BindVarExpr.Index, syntax.BindVarExpr.Type, syntax.FuncCallExpr.Name, syntax.FuncCallExpr.Args, syntax.FuncExpr.Name, "E.any" }

// the position of the k-th argument (from 0) of a list that starts at p
rec fn ap(s: Str, p: int, k: int): int = if k <= 0 then p else nxa(s, 4, nxa(s, 4, ap(s, p, k - 1)))
// the value written at a
fn argIs(s: Str, a: int, v: any): bool =
	if ra(s, a) == 39 then qOK(s, a + 1, 39) && is(v, string) && as(v, string) == sreplace(ssub(s, a + 1, qEnd(s, a + 1, 39) - 1), "''", "'")
	else if isBool(word(s, a)) then is(v, bool) && (as(v, bool) <==> word(s, a) == "true")
	else if isNil(word(s, a)) then v == nil
	else pfOK(word(s, a)) && is(v, float64) && as(v, float64) == pf(word(s, a))
// the k-th argument of the list that starts at p is a literal with the value v
fn argAt(s: Str, p: int, k: int, v: any): bool = tty(s, 4, ap(s, p, k)) == "literal" && argIs(s, spEnd(s, ap(s, p, k)), v)
// the end of a list of k arguments that starts at p, and whether it is one
fn lastAt(s: Str, p: int, k: int): int = if k <= 0 then p else nxa(s, 4, ap(s, p, k - 1))
fn listEnd(s: Str, p: int, k: int): int = if tty(s, 4, lastAt(s, p, k)) == ")" then nxa(s, 4, lastAt(s, p, k)) else nxa(s, 4, nxa(s, 4, lastAt(s, p, k)))
fn listOK(s: Str, p: int, k: int): bool = tty(s, 4, lastAt(s, p, k)) == ")" || (k > 0 && tty(s, 4, lastAt(s, p, k)) == "," && tty(s, 4, nxa(s, 4, lastAt(s, p, k))) == ")")

def varOf(e: syntax.Expr): *syntax.BindVarExpr = as(e, *syntax.BindVarExpr)
def callOf(e: syntax.Expr): *syntax.FuncCallExpr = as(e, *syntax.FuncCallExpr)
// the end of the text of an expression that starts at b
fn exprEnd{synx}(s: Str, e: syntax.Expr, b: int): int =
	if is(e, *syntax.PlainExpr) then plainEnd(s, b)
	else if is(e, *syntax.BindVarExpr) then (if varOf(e).Type == 1 then b + 1 else digEnd(s, b + 1))
	else if is(e, *syntax.FuncCallExpr) then (if ra(s, letEnd(s, b + 1)) == 40 then listEnd(s, letEnd(s, b + 1) + 1, len(callOf(e).Args)) else digEnd(s, letEnd(s, b + 1)))
	else letEnd(s, b + 1)
// the expression e stands for the text from b to c
fn spanIs{synx}(s: Str, e: syntax.Expr, b: int, c: int): bool = 0 <= b && b < c && c <= len(s) &&
	(if is(e, *syntax.PlainExpr) then as(e, *syntax.PlainExpr).Text == ssub(s, b, c) && c == plainEnd(s, b)
	else if is(e, *syntax.BindVarExpr) then isMark(ra(s, b)) && ra(s, b + 1) != ra(s, b)
	else ra(s, b) == 35 && letEnd(s, b + 1) > b + 1)
// e says what is written at b; v variables are written before it
fn dirIs{synx}(s: Str, e: syntax.Expr, b: int, v: int): bool =
	if is(e, *syntax.PlainExpr) then true
	else if is(e, *syntax.BindVarExpr) then (if ra(s, b) == 63 then varOf(e).Type == 1 && varOf(e).Index == v + 1
		else ra(s, b) == 36 && varOf(e).Type == 0 && 49 <= ra(s, b + 1) && ra(s, b + 1) <= 57 &&
			(decval(ssub(s, b + 1, digEnd(s, b + 1))) <= 9223372036854775807 ==> varOf(e).Index == decval(ssub(s, b + 1, digEnd(s, b + 1)))))
	else if is(e, *syntax.FuncCallExpr) then callOf(e).Name == ssub(s, b + 1, letEnd(s, b + 1)) && letEnd(s, b + 1) < len(s) &&
		(if ra(s, letEnd(s, b + 1)) == 40 then argsAre(s, letEnd(s, b + 1) + 1, callOf(e).Args)
		else isDigit(ra(s, letEnd(s, b + 1))) && len(callOf(e).Args) == 1 && is(callOf(e).Args[0], float64) && as(callOf(e).Args[0], float64) == pf(ssub(s, letEnd(s, b + 1), digEnd(s, letEnd(s, b + 1)))))
	else as(e, *syntax.FuncExpr).Name == ssub(s, b + 1, letEnd(s, b + 1)) &&
		(letEnd(s, b + 1) < len(s) ==> ra(s, letEnd(s, b + 1)) != 40 && !isDigit(ra(s, letEnd(s, b + 1))))
// the arguments args are written from p
fn argsAre{synx}(s: Str, p: int, args: []any): bool = listOK(s, p, len(args)) &&
	(forall k: int :: {args[k]} 0 <= k && k < len(args) ==> argAt(s, p, k, args[k])) &&
	(forall k: int :: {nxa(s, 4, ap(s, p, k))} 0 <= k && k < len(args) - 1 ==> tty(s, 4, nxa(s, 4, ap(s, p, k))) == ",")

// the token s was at is the one at b, and the scanner went on from there
def here(s: *syntax.scanner, b: int): bool = old(tk(inp(s), 0, b, s.token) && at(s, s.state, nxm(inp(s), 0, b), nxa(inp(s), 0, b)))
def here2(s: *syntax.scanner, b: int): bool = s.token.start == b && tk(inp(s), 0, b, s.token) && at(s, s.state, nxm(inp(s), 0, b), nxa(inp(s), 0, b))
def parserOK(p: *syntax.parser): bool = p != nil && p.scanner != nil && allocated(p.scanner) && scannerOK(p.scanner) && len(p.scanner.tokens) <= 2

func syntax.(*parser).bindVarExpr(p)(d, err) [C01 C02 C03]
	lets s = p.scanner
	lets b = p.scanner.token.start
	requires parserOK(p) && tokGood(s.token) && s.token.typ == "ref" && allocated(s.token) && len(s.tokens) <= 1
	modifies [C12] p.bindVarIndex, p.bindVarStyle, s.tokens, s.token, s.state, elems(s.tokens) from len(s.tokens), s.lexerHelper.start, s.lexerHelper.current, s.lexerHelper.rune, s.lexerHelper.width
	ensures ["ready for the next" C02] parserOK(p) && tokGood(s.token) && allocated(s.token)
	ensures ["less is left" C02] pot(s) <= old(pot(s))
	ensures ["in place" C12] tokInPlace(s.tokens, old(s.tokens))
	ensures ["a variable" C02 C03 C01] err == nil ==> isVar(d) && fresh(varOf(d))
	ensures ["counted" C03] err == nil && old(s.token.lit == "$" || s.token.lit == "?") ==> p.bindVarIndex == old(p.bindVarIndex) + 1 && varOf(d).Type == p.bindVarStyle && (old(p.bindVarIndex) > 0 ==> p.bindVarStyle == old(p.bindVarStyle))
	ensures ["its text" C01 C03] err == nil && here(s, b) ==> spanIs(inp(s), d, b, exprEnd(inp(s), d, b))
	ensures ["its number" C03] err == nil && here(s, b) ==> dirIs(inp(s), d, b, old(p.bindVarIndex))
	ensures ["and then" C01 C03] err == nil && here(s, b) ==> at(s, s.state, if varOf(d).Type == 1 then 1 else 0, exprEnd(inp(s), d, b))

fn noValues(): map[Int]any
func syntax.(*parser).funcExpr(p)(err) [C01 C02 C03]
	lets s = p.scanner
	lets b = p.scanner.token.start
	requires parserOK(p) && tokGood(s.token) && s.token.typ == "#" && allocated(s.token) && len(s.tokens) <= 1 && p.c != nil
	modifies [C12] p.c.ExprList, elems(p.c.ExprList) from len(p.c.ExprList), s.tokens, s.token, s.state, elems(s.tokens) from len(s.tokens), s.lexerHelper.start, s.lexerHelper.current, s.lexerHelper.rune, s.lexerHelper.width
	ensures ["ready for the next" C02] parserOK(p) && tokGood(s.token) && allocated(s.token)
	ensures ["less is left" C02] pot(s) <= old(pot(s))
	ensures ["in place" C12] tokInPlace(s.tokens, old(s.tokens))
	ensures ["one more" C01 C02 C03] err == nil ==> len(p.c.ExprList) == old(len(p.c.ExprList)) + 1 && (isCall(p.c.ExprList[len(p.c.ExprList) - 1]) || isRef(p.c.ExprList[len(p.c.ExprList) - 1])) && allocated(p.c.ExprList[len(p.c.ExprList) - 1]) && (fresh(p.c.ExprList) || (arr(p.c.ExprList) == old(arr(p.c.ExprList)) && off(p.c.ExprList) == old(off(p.c.ExprList)) && cap(p.c.ExprList) == old(cap(p.c.ExprList))))
	ensures ["others kept" C01 C03] forall i: int :: {p.c.ExprList[i]} 0 <= i && i < old(len(p.c.ExprList)) ==> p.c.ExprList[i] == old(p.c.ExprList[i])
	hint ["the name" C01 C03] err == nil && here(s, b) && isCall(p.c.ExprList[old(len(p.c.ExprList))]) ==> ra(inp(s), b) == 35 && letEnd(inp(s), b + 1) > b + 1 && letEnd(inp(s), b + 1) < len(inp(s)) && callOf(p.c.ExprList[old(len(p.c.ExprList))]).Name == ssub(inp(s), b + 1, letEnd(inp(s), b + 1))
	hint ["the parenthesis" C01 C03] err == nil && here(s, b) && isCall(p.c.ExprList[old(len(p.c.ExprList))]) && ra(inp(s), letEnd(inp(s), b + 1)) == 40 ==> b < pos && tk(inp(s), 4, pos, s.token) && s.token.typ == ")"
	hint ["then text" C01 C03] err == nil && here(s, b) && isCall(p.c.ExprList[old(len(p.c.ExprList))]) && ra(inp(s), letEnd(inp(s), b + 1)) == 40 ==> at(s, s.state, 0, nxa(inp(s), 4, pos))
	hint ["at the end of the list" C01 C03] err == nil && here(s, b) && isCall(p.c.ExprList[old(len(p.c.ExprList))]) && ra(inp(s), letEnd(inp(s), b + 1)) == 40 ==> pos == lastAt(inp(s), letEnd(inp(s), b + 1) + 1, len(callOf(p.c.ExprList[old(len(p.c.ExprList))]).Args)) || (len(callOf(p.c.ExprList[old(len(p.c.ExprList))]).Args) > 0 && tty(inp(s), 4, lastAt(inp(s), letEnd(inp(s), b + 1) + 1, len(callOf(p.c.ExprList[old(len(p.c.ExprList))]).Args))) == "," && pos == nxa(inp(s), 4, lastAt(inp(s), letEnd(inp(s), b + 1) + 1, len(callOf(p.c.ExprList[old(len(p.c.ExprList))]).Args))))
	hint ["the list" C01 C03] err == nil && here(s, b) && isCall(p.c.ExprList[old(len(p.c.ExprList))]) && ra(inp(s), letEnd(inp(s), b + 1)) == 40 ==> listOK(inp(s), letEnd(inp(s), b + 1) + 1, len(callOf(p.c.ExprList[old(len(p.c.ExprList))]).Args)) && listEnd(inp(s), letEnd(inp(s), b + 1) + 1, len(callOf(p.c.ExprList[old(len(p.c.ExprList))]).Args)) == nxa(inp(s), 4, pos)
	hint ["the index" C01 C03] err == nil && here(s, b) && isCall(p.c.ExprList[old(len(p.c.ExprList))]) && ra(inp(s), letEnd(inp(s), b + 1)) != 40 ==> isDigit(ra(inp(s), letEnd(inp(s), b + 1))) && tk(inp(s), 3, letEnd(inp(s), b + 1), s.token) && at(s, s.state, 0, digEnd(inp(s), letEnd(inp(s), b + 1)))
	hint ["one argument" C03] err == nil && here(s, b) && isCall(p.c.ExprList[old(len(p.c.ExprList))]) && ra(inp(s), letEnd(inp(s), b + 1)) != 40 ==> len(callOf(p.c.ExprList[old(len(p.c.ExprList))]).Args) == 1 && is(callOf(p.c.ExprList[old(len(p.c.ExprList))]).Args[0], float64) && as(callOf(p.c.ExprList[old(len(p.c.ExprList))]).Args[0], float64) == pf(ssub(inp(s), letEnd(inp(s), b + 1), digEnd(inp(s), letEnd(inp(s), b + 1))))
	hint ["the values" C03] err == nil && here(s, b) && isCall(p.c.ExprList[old(len(p.c.ExprList))]) && ra(inp(s), letEnd(inp(s), b + 1)) == 40 ==> (forall j: int :: {callOf(p.c.ExprList[old(len(p.c.ExprList))]).Args[j]} 0 <= j && j < len(callOf(p.c.ExprList[old(len(p.c.ExprList))]).Args) ==> callOf(p.c.ExprList[old(len(p.c.ExprList))]).Args[j] == sel(A, j))
	hint ["as written" C03] err == nil && here(s, b) && isCall(p.c.ExprList[old(len(p.c.ExprList))]) && ra(inp(s), letEnd(inp(s), b + 1)) == 40 ==> (forall j: int :: {sel(A, j)} 0 <= j && j < len(callOf(p.c.ExprList[old(len(p.c.ExprList))]).Args) ==> argAt(inp(s), letEnd(inp(s), b + 1) + 1, j, sel(A, j)))
	hint ["the commas" C03] err == nil && here(s, b) && isCall(p.c.ExprList[old(len(p.c.ExprList))]) && ra(inp(s), letEnd(inp(s), b + 1)) == 40 ==> (forall j: int :: {nxa(inp(s), 4, ap(inp(s), letEnd(inp(s), b + 1) + 1, j))} 0 <= j && j < len(callOf(p.c.ExprList[old(len(p.c.ExprList))]).Args) - 1 ==> tty(inp(s), 4, nxa(inp(s), 4, ap(inp(s), letEnd(inp(s), b + 1) + 1, j))) == ",")
	hint ["each as written" C03] err == nil && here(s, b) && isCall(p.c.ExprList[old(len(p.c.ExprList))]) && ra(inp(s), letEnd(inp(s), b + 1)) == 40 ==> (forall k: int :: {callOf(p.c.ExprList[old(len(p.c.ExprList))]).Args[k]} 0 <= k && k < len(callOf(p.c.ExprList[old(len(p.c.ExprList))]).Args) ==> argAt(inp(s), letEnd(inp(s), b + 1) + 1, k, callOf(p.c.ExprList[old(len(p.c.ExprList))]).Args[k]))
	hint ["the arguments" C03] err == nil && here(s, b) && isCall(p.c.ExprList[old(len(p.c.ExprList))]) && ra(inp(s), letEnd(inp(s), b + 1)) == 40 ==> argsAre(inp(s), letEnd(inp(s), b + 1) + 1, callOf(p.c.ExprList[old(len(p.c.ExprList))]).Args)
	hint ["a reference" C01 C03] err == nil && here(s, b) && isRef(p.c.ExprList[old(len(p.c.ExprList))]) ==> spanIs(inp(s), p.c.ExprList[old(len(p.c.ExprList))], b, letEnd(inp(s), b + 1)) && dirIs(inp(s), p.c.ExprList[old(len(p.c.ExprList))], b, 0) && at(s, s.state, 0, letEnd(inp(s), b + 1))
	ensures ["its text" C01 C03] err == nil && here(s, b) ==> spanIs(inp(s), p.c.ExprList[old(len(p.c.ExprList))], b, exprEnd(inp(s), p.c.ExprList[old(len(p.c.ExprList))], b))
	ensures ["its name and arguments" C03] err == nil && here(s, b) ==> dirIs(inp(s), p.c.ExprList[old(len(p.c.ExprList))], b, 0)
	ensures ["and then" C01 C03] err == nil && here(s, b) ==> at(s, s.state, 0, exprEnd(inp(s), p.c.ExprList[old(len(p.c.ExprList))], b))
	ghost n: int = 0
	ghost pos: int = 0
	on call syntax.(*parser).got(q, y)(r) when y == "literal": pos := ap(inp(s), letEnd(inp(s), b + 1) + 1, k)
	on call syntax.(*parser).got(q, y)(r) when y == ",": pos := nxa(inp(s), 4, ap(inp(s), letEnd(inp(s), b + 1) + 1, k))
	ghost A: map[Int]any = noValues()
	on call syntax.(*scanner).NextToken(x)(ok): n := n + 1
	at call syntax.(*scanner).NextToken(x): assert ["a name first" C01 C03] n == 0 && here(s, b) ==> ra(inp(s), b) == 35 && at(s, s.state, 2, b + 1)
	at call syntax.(*scanner).NextToken(x): assert ["then what follows" C01 C03] n == 1 && here(s, b) ==> ra(inp(s), b) == 35 && letEnd(inp(s), b + 1) > b + 1 && s.token.lit == ssub(inp(s), b + 1, letEnd(inp(s), b + 1))
	at call syntax.(*scanner).NextToken(x): assert ["right there" C01 C03] n == 1 && here(s, b) ==> at(s, s.state, 3, letEnd(inp(s), b + 1))
	at call syntax.(*parser).got(q, y) when y == ",": assert ["an argument here" C03] here(s, b) ==> tk(inp(s), 4, ap(inp(s), letEnd(inp(s), b + 1) + 1, k), s.token)
	at call syntax.(*parser).got(q, y) when y == ",": assert ["its value" C03] here(s, b) ==> len(args) == k + 1 && argIs(inp(s), spEnd(inp(s), ap(inp(s), letEnd(inp(s), b + 1) + 1, k)), args[k])
	at call syntax.(*parser).got(q, y) when y == ",": assert ["the values so far" C03] forall j: int :: {args[j]} 0 <= j && j < k ==> args[j] == sel(A, j)
	on call syntax.(*parser).got(q, y)(r) when y == ",": A := upd(A, k, args[k])
	at call syntax.(*scanner).unreadToken(x): assert ["nothing of the function" C01 C03] here(s, b) ==> nm(inp(s), 3, letEnd(inp(s), b + 1)) == 0 && letEnd(inp(s), b + 1) > b + 1 && nameToken.lit == ssub(inp(s), b + 1, letEnd(inp(s), b + 1))
	at call syntax.(*scanner).unreadToken(x): assert ["this token" C01 C03] here(s, b) ==> tk(inp(s), 0, letEnd(inp(s), b + 1), s.token)
	at call syntax.(*scanner).unreadToken(x): assert ["and after it" C01 C03] here(s, b) ==> at(s, s.state, nxm(inp(s), 0, letEnd(inp(s), b + 1)), nxa(inp(s), 0, letEnd(inp(s), b + 1)))
	at call syntax.(*scanner).unreadToken(x): assert ["the reference" C01 C03] len(p.c.ExprList) == old(len(p.c.ExprList)) + 1 && isRef(p.c.ExprList[old(len(p.c.ExprList))]) && as(p.c.ExprList[old(len(p.c.ExprList))], *syntax.FuncExpr).Name == nameToken.lit
	at call syntax.(*scanner).unreadToken(x): assert ["its text" C01 C03] here(s, b) ==> exprEnd(inp(s), p.c.ExprList[old(len(p.c.ExprList))], b) == letEnd(inp(s), b + 1) && spanIs(inp(s), p.c.ExprList[old(len(p.c.ExprList))], b, letEnd(inp(s), b + 1))
	at call syntax.(*scanner).unreadToken(x): assert ["its name" C03] here(s, b) ==> dirIs(inp(s), p.c.ExprList[old(len(p.c.ExprList))], b, 0)
	loop 1:
	invariant ["after the name"] n >= 2 && (here(s, b) ==> ra(inp(s), b) == 35)
	invariant ["ready"] parserOK(p) && tokGood(s.token) && allocated(s.token) && len(s.tokens) <= 1 && nameToken != nil
	invariant ["in place" C12] tokInPlace(s.tokens, old(s.tokens))
	invariant ["less is left" C02] pot(s) <= old(pot(s))
	invariant ["name so far" C01 C03] here(s, b) ==> letEnd(inp(s), b + 1) > b + 1 && nameToken.lit == ssub(inp(s), b + 1, letEnd(inp(s), b + 1)) && letEnd(inp(s), b + 1) < len(inp(s)) && ra(inp(s), letEnd(inp(s), b + 1)) == 40
	invariant ["further" C01 C03] here(s, b) ==> b < ap(inp(s), letEnd(inp(s), b + 1) + 1, k)
	invariant ["right there" C01 C03] here(s, b) ==> at(s, s.state, 4, ap(inp(s), letEnd(inp(s), b + 1) + 1, k))
	invariant ["values so far" C03] forall j: int :: {args[j]} 0 <= j && j < k ==> args[j] == sel(A, j)
	invariant ["args so far" C03] here(s, b) ==> (forall j: int :: {sel(A, j)} 0 <= j && j < k ==> argAt(inp(s), letEnd(inp(s), b + 1) + 1, j, sel(A, j)))
	invariant ["commas so far" C03] len(args) == k && (here(s, b) ==> (forall j: int :: {nxa(inp(s), 4, ap(inp(s), letEnd(inp(s), b + 1) + 1, j))} 0 <= j && j < k ==> tty(inp(s), 4, nxa(inp(s), 4, ap(inp(s), letEnd(inp(s), b + 1) + 1, j))) == ","))
	decreases pot(s)

// A clause parsed: the k-th expression stands for the text from B[k] to B[k + 1]
fn firstPlace(): map[Int]Int
axiom sel(firstPlace(), 0) == 0

func syntax.(*parser).Parse(p)(err) [C01 C02 C03]
	lets s = p.scanner
	requires parserOK(p) && len(p.scanner.tokens) == 0 && at(p.scanner, p.scanner.state, 0, 0) && p.bindVarIndex == 0
	modifies [C12] p.c, p.bindVarIndex, p.bindVarStyle, s.tokens, s.token, s.state, elems(s.tokens) from len(s.tokens), s.lexerHelper.start, s.lexerHelper.current, s.lexerHelper.rune, s.lexerHelper.width
	ghost B: map[Int]Int = firstPlace()
	ghost V: map[Int]Int = firstPlace()
	ghost M: int = 0
	ghost cur: int = 0
	ghost beg: int = 0
	on call syntax.(*scanner).NextToken(x)(ok) when ok: beg := cur
	on call syntax.(*scanner).NextToken(x)(ok) when ok && s.token.typ == "plain text": cur := plainEnd(inp(s), beg)
	on call syntax.(*scanner).NextToken(x)(ok) when ok && s.token.typ == "plain text": B := upd(B, len(p.c.ExprList) + 1, plainEnd(inp(s), beg))
	on call syntax.(*scanner).NextToken(x)(ok) when ok && s.token.typ == "plain text": V := upd(V, len(p.c.ExprList) + 1, p.bindVarIndex)
	on call syntax.(*scanner).NextToken(x)(ok) when ok: M := if s.token.typ == "EOF" then 5 else 0
	on call syntax.(*parser).bindVarExpr(q)(d, e) when e == nil: cur := exprEnd(inp(s), d, beg)
	on call syntax.(*parser).bindVarExpr(q)(d, e) when e == nil: B := upd(B, len(p.c.ExprList) + 1, exprEnd(inp(s), d, beg))
	on call syntax.(*parser).bindVarExpr(q)(d, e) when e == nil: V := upd(V, len(p.c.ExprList) + 1, p.bindVarIndex)
	on call syntax.(*parser).bindVarExpr(q)(d, e) when e == nil: M := if varOf(d).Type == 1 then 1 else 0
	on call syntax.(*parser).funcExpr(q)(e) when e == nil: cur := exprEnd(inp(s), p.c.ExprList[len(p.c.ExprList) - 1], beg)
	on call syntax.(*parser).funcExpr(q)(e) when e == nil: B := upd(B, len(p.c.ExprList), exprEnd(inp(s), p.c.ExprList[len(p.c.ExprList) - 1], beg))
	on call syntax.(*parser).funcExpr(q)(e) when e == nil: V := upd(V, len(p.c.ExprList), p.bindVarIndex)
	at call syntax.(*parser).bindVarExpr(q): assert ["at a reference" C01 C03] here2(s, beg)
	at call syntax.(*parser).funcExpr(q): assert ["at a function" C01 C03] here2(s, beg)
	ensures ["a clause" C02 C03] err == nil ==> p.c != nil && fresh(p.c) && fresh(p.c.ExprList) && exprsOK(p.c)
	ensures ["its expressions" C02] err == nil ==> (forall i: int :: {p.c.ExprList[i]} 0 <= i && i < len(p.c.ExprList) ==> allocated(p.c.ExprList[i]))
	ensures ["from the start to the end" C01] err == nil ==> sel(B, 0) == 0 && sel(B, len(p.c.ExprList)) == len(inp(s))
	ensures ["one after the other" C01] err == nil ==> (forall i: int :: {p.c.ExprList[i]} 0 <= i && i < len(p.c.ExprList) ==> spanIs(inp(s), p.c.ExprList[i], sel(B, i), sel(B, i + 1)))
	ensures ["as written" C03] err == nil ==> (forall i: int :: {p.c.ExprList[i]} 0 <= i && i < len(p.c.ExprList) ==> dirIs(inp(s), p.c.ExprList[i], sel(B, i), sel(V, i)))
	ensures ["one style" C03] err == nil ==> (forall i: int :: {p.c.ExprList[i]} 0 <= i && i < len(p.c.ExprList) && isVar(p.c.ExprList[i]) ==> varOf(p.c.ExprList[i]).Type == p.bindVarStyle)
	ensures ["counted" C03] err == nil ==> sel(V, 0) == 0 && (forall i: int :: {p.c.ExprList[i]} 0 <= i && i < len(p.c.ExprList) ==> sel(V, i + 1) == sel(V, i) + (if isVar(p.c.ExprList[i]) then 1 else 0))
	loop 1:
	invariant ["ready" C02] parserOK(p) && p.scanner == s && inp(s) == old(inp(s))
	invariant ["in place" C12] tokInPlace(s.tokens, old(s.tokens))
	invariant ["a clause" C02 C03] p.c != nil && fresh(p.c) && fresh(p.c.ExprList) && exprsOK(p.c)
	invariant ["its expressions" C02] forall i: int :: {p.c.ExprList[i]} 0 <= i && i < len(p.c.ExprList) ==> allocated(p.c.ExprList[i])
	invariant ["right there" C01 C03] at(s, s.state, M, cur) && (M == 0 || M == 1 || M == 5) && 0 <= cur && cur <= len(inp(s)) && (M == 5 ==> cur == len(inp(s)))
	invariant ["up to here" C01 C03] sel(B, 0) == 0 && sel(B, len(p.c.ExprList)) == cur
	invariant ["one after the other" C01] forall i: int :: {p.c.ExprList[i]} 0 <= i && i < len(p.c.ExprList) ==> spanIs(inp(s), p.c.ExprList[i], sel(B, i), sel(B, i + 1))
	invariant ["as written" C03] forall i: int :: {p.c.ExprList[i]} 0 <= i && i < len(p.c.ExprList) ==> dirIs(inp(s), p.c.ExprList[i], sel(B, i), sel(V, i))
	invariant ["one style" C03] forall i: int :: {p.c.ExprList[i]} 0 <= i && i < len(p.c.ExprList) && isVar(p.c.ExprList[i]) ==> p.bindVarIndex > 0 && varOf(p.c.ExprList[i]).Type == p.bindVarStyle
	invariant ["counted" C03] p.bindVarIndex >= 0 && sel(V, 0) == 0 && sel(V, len(p.c.ExprList)) == p.bindVarIndex && (forall i: int :: {p.c.ExprList[i]} 0 <= i && i < len(p.c.ExprList) ==> sel(V, i + 1) == sel(V, i) + (if isVar(p.c.ExprList[i]) then 1 else 0))
	decreases pot(s)
