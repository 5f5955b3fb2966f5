// The tokens as the parser gets them.
def scannerOK(s: *syntax.scanner): bool = s != nil && allocated(s.lexerHelper) && queued(s) && ready(s, s.state)
// what is left to do, in tokens and work
def pot(s: *syntax.scanner): int = 3 * work(s, s.state) + len(s.tokens)

func syntax.newScanner(input)(s) [C01 C02 C03]
	modifies [C12] nothing
	ensures ["ready" C02] s != nil && fresh(s) && fresh(s.lexerHelper) && scannerOK(s) && len(s.tokens) == 0 && cap(s.tokens) == 0
	ensures ["at the start" C01 C03] inp(s) == input && at(s, s.state, 0, 0)

func syntax.(*scanner).NextToken(s)(ok) [C01 C02 C03]
	requires scannerOK(s)
	modifies [C12] s.tokens, s.token, s.state, elems(s.tokens) from len(s.tokens), s.lexerHelper.start, s.lexerHelper.current, s.lexerHelper.rune, s.lexerHelper.width
	ensures ["ready for the next" C02] scannerOK(s) && len(s.tokens) <= 2 && (ok ==> tokGood(s.token) && allocated(s.token) && len(s.tokens) <= 1) && (!ok ==> len(s.tokens) == 0)
	ensures ["in place" C12] tokInPlace(s.tokens, old(s.tokens))
	ensures ["less is left" C02] if ok then pot(s) < old(pot(s)) else pot(s) <= old(pot(s)) && s.token == old(s.token)
	ensures ["the next token" C01 C03] forall m: int, a: int :: {old(at(s, s.state, m, a))} old(at(s, s.state, m, a)) ==> (ok <==> m != 5) && (ok ==> tk(inp(s), m, a, s.token) && at(s, s.state, nxm(inp(s), m, a), nxa(inp(s), m, a))) && (!ok ==> at(s, s.state, m, a))
	loop 1:
	invariant ["ready"] scannerOK(s) && s.token == old(s.token) && (old(len(s.tokens)) > 0 ==> s.tokens == old(s.tokens))
	invariant ["in place" C12] tokInPlace(s.tokens, old(s.tokens))
	invariant ["less is left" C02] pot(s) <= old(pot(s))
	invariant ["these tokens" C01 C03] forall m: int, a: int :: {old(at(s, s.state, m, a))} old(at(s, s.state, m, a)) ==> at(s, s.state, m, a)
	decreases work(s, s.state)

func syntax.(*scanner).unreadToken(s)() [C01 C02 C03]
	requires scannerOK(s) && len(s.tokens) <= 1 && tokGood(s.token) && allocated(s.token)
	modifies [C12] s.tokens
	ensures ["ready for the next" C02] scannerOK(s)
	ensures ["in place" C12] fresh(s.tokens)
	ensures ["one more" C02] pot(s) == old(pot(s)) + 1
	ensures ["this token again" C01 C03] forall m: int, a: int :: {old(tk(inp(s), m, a, s.token))} old(tk(inp(s), m, a, s.token) && at(s, s.state, nxm(inp(s), m, a), nxa(inp(s), m, a))) ==> at(s, s.state, m, a)
