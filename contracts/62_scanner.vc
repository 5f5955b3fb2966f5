// C01, C02, C03: the tokens of a template, as functions of its text.

// ------------------------------------------------- positions in the template
// the end of the string quoted by q whose text starts at i (the end of s if it is not closed)
rec fn qEnd(s: Str, i: int, q: int): int = if i >= len(s) then len(s) else if ra(s, i) != q then qEnd(s, i + rw(s, i), q)
	else if q == 39 && ra(s, i + 1) == 39 then qEnd(s, i + 2, q) else i + 1
rec fn qOK(s: Str, i: int, q: int): bool = if i >= len(s) then false else if ra(s, i) != q then qOK(s, i + rw(s, i), q)
	else if q == 39 && ra(s, i + 1) == 39 then qOK(s, i + 2, q) else true
def isQuote(r: int): bool = r == 39 || r == 34 || r == 96
def isMark(r: int): bool = r == 36 || r == 63
// the end of the plain text at i: up to the next directive, or over the next quoted string
rec fn plainEnd(s: Str, i: int): int = if i >= len(s) then len(s)
	else if isMark(ra(s, i)) then (if ra(s, i + 1) == ra(s, i) then plainEnd(s, i + 2) else i)
	else if ra(s, i) == 35 then i
	else if isQuote(ra(s, i)) then qEnd(s, i + 1, ra(s, i))
	else plainEnd(s, i + rw(s, i))
def isLetter(r: int): bool = (65 <= r && r <= 90) || (97 <= r && r <= 122) || r == 95
def isDigit(r: int): bool = 48 <= r && r <= 57
rec fn letEnd(s: Str, i: int): int = if i < len(s) && isLetter(ra(s, i)) then letEnd(s, i + 1) else i
rec fn digEnd(s: Str, i: int): int = if i < len(s) && isDigit(ra(s, i)) then digEnd(s, i + 1) else i
rec fn spEnd(s: Str, i: int): int = if i < len(s) && isSpace(ra(s, i)) then spEnd(s, i + rw(s, i)) else i
rec fn wEnd(s: Str, i: int): int = if i < len(s) && ra(s, i) != 44 && ra(s, i) != 41 then wEnd(s, i + rw(s, i)) else i

// strconv.ParseFloat: the number, if the text is one
fn pf(s: Str): float64
fn pfOK(s: Str): bool
extern strconv.ParseFloat(s, n)(v, err)
	pure
	ensures err == nil <==> pfOK(s)
	ensures err == nil ==> v == pf(s)

// ------------------------------------------------------- the tokens
// modes: 0 text, 1 after $ or ?, 2 after #, 3 after the name of a function, 4 in its arguments, 5 after the end
// a mode that finds nothing of its own leaves the rest to mode 0
fn nm(s: Str, m: int, a: int): int =
	if m == 1 then (if a < len(s) && 49 <= ra(s, a) && ra(s, a) <= 57 then 1 else 0)
	else if m == 2 then (if a < len(s) && isLetter(ra(s, a)) then 2 else 0)
	else if m == 3 then (if a < len(s) && (isDigit(ra(s, a)) || ra(s, a) == 40) then 3 else 0)
	else if m == 4 then (if spEnd(s, a) < len(s) then 4 else 0)
	else m
fn na(s: Str, m: int, a: int): int = if m == 4 then spEnd(s, a) else a
fn isBool(w: Str): bool = w == "true" || w == "false"
fn isNil(w: Str): bool = w == "null" || w == "nil"
fn word(s: Str, a: int): Str = ssub(s, a, wEnd(s, a))
fn typAt(s: Str, m: int, a: int): Str =
	if m == 0 then (if a >= len(s) then "EOF" else if plainEnd(s, a) > a then "plain text" else if ra(s, a) == 35 then "#" else "ref")
	else if m == 1 then "literal"
	else if m == 2 then "name"
	else if m == 3 then (if ra(s, a) == 40 then "(" else "literal")
	else if ra(s, a) == 44 then "," else if ra(s, a) == 41 then ")" else if ra(s, a) == 39 then "literal"
	else if isBool(word(s, a)) || isNil(word(s, a)) || pfOK(word(s, a)) then "literal" else "name"
fn endAt(s: Str, m: int, a: int): int =
	if m == 0 then (if a >= len(s) then a else if plainEnd(s, a) > a then plainEnd(s, a) else a + 1)
	else if m == 1 then digEnd(s, a)
	else if m == 2 then letEnd(s, a)
	else if m == 3 then (if ra(s, a) == 40 then a + 1 else digEnd(s, a))
	else if ra(s, a) == 44 || ra(s, a) == 41 then a + 1 else if ra(s, a) == 39 then qEnd(s, a + 1, 39) else wEnd(s, a)
fn nextAt(s: Str, m: int, a: int): int =
	if m == 0 then (if a >= len(s) then 5 else if plainEnd(s, a) > a then 0 else if ra(s, a) == 35 then 2 else 1)
	else if m == 1 then 0
	else if m == 2 then 3
	else if m == 3 then (if ra(s, a) == 40 then 4 else 0)
	else if ra(s, a) == 41 then 0 else 4
// kinds: 0 number, 1 string, 2 bool, 3 nil
fn kindAt(s: Str, m: int, a: int): int =
	if m == 1 || m == 3 then 0
	else if ra(s, a) == 39 then 1
	else if isBool(word(s, a)) then 2 else if isNil(word(s, a)) then 3 else 0
// the type of the next token in mode m at a, and the mode and position after it
fn tty(s: Str, m: int, a: int): Str = typAt(s, nm(s, m, a), na(s, m, a))
fn nxa(s: Str, m: int, a: int): int = endAt(s, nm(s, m, a), na(s, m, a))
fn nxm(s: Str, m: int, a: int): int = nextAt(s, nm(s, m, a), na(s, m, a))

// t is the next token in mode m at a
fn tk{scan}(s: Str, m: int, a: int, t: *syntax.token): bool = m != 5 && 0 <= a && a <= t.start && t.start <= len(s) && t.typ == tty(s, m, a) && (t.typ != "EOF" ==> t.start < t.end && t.end <= len(s)) && (t.typ == "ref" ==> isMark(ra(s, t.start)) && ra(s, t.start + 1) != ra(s, t.start)) && t.start == na(s, m, a) && t.end == nxa(s, m, a) &&
	t.lit == ssub(s, na(s, m, a), nxa(s, m, a)) &&
	(t.typ == "literal" ==> t.kind == kindAt(s, nm(s, m, a), na(s, m, a)) && (t.bad <==> nm(s, m, a) == 4 && t.kind == 1 && !qOK(s, na(s, m, a) + 1, 39)))

// ------------------------------------------------------- the scanner
def lx(s: *syntax.scanner): *syntax.lexerHelper = s.lexerHelper
def inp(s: *syntax.scanner): Str = s.lexerHelper.input
def offs(s: *syntax.scanner): int = s.lexerHelper.current.offset
// what a state function needs
fn ready{scan}(s: *syntax.scanner, f: syntax.scanFn): bool = lx(s) != nil && lexOK(lx(s)) &&
	(f == fnval(syntax.scanRef) || f == fnval(syntax.scanFunc) || f == fnval(syntax.scanQuotedPlain) || f == fnval(syntax.scanFuncArgQuoted) ==> offs(s) < len(inp(s))) &&
	(f == fnval(syntax.scanQuotedPlain) ==> isQuote(ra(inp(s), offs(s)))) &&
	(f == fnval(syntax.scanFuncArgQuoted) ==> lx(s).start.offset == offs(s) && ra(inp(s), offs(s)) == 39) &&
	(f == nil || f == fnval(syntax.scanPlain) || f == fnval(syntax.scanRef) || f == fnval(syntax.scanFunc) || f == fnval(syntax.scanQuotedPlain) || f == fnval(syntax.scanIndex) || f == fnval(syntax.scanFuncName) || f == fnval(syntax.scanFuncArgs) || f == fnval(syntax.scanFuncArgQuoted))
// the state function f continues in mode m at a
fn stateAt{scan}(s: *syntax.scanner, f: syntax.scanFn, m: int, a: int): bool =
	(f == nil ==> m == 5) && (f != nil ==> m != 5) && 0 <= a && a <= len(inp(s)) &&
	(f == fnval(syntax.scanPlain) ==> nm(inp(s), m, a) == 0 && offs(s) == na(inp(s), m, a)) &&
	(f == fnval(syntax.scanRef) ==> nm(inp(s), m, a) == 0 && offs(s) == na(inp(s), m, a) && isMark(ra(inp(s), offs(s))) && ra(inp(s), offs(s) + 1) != ra(inp(s), offs(s))) &&
	(f == fnval(syntax.scanFunc) ==> nm(inp(s), m, a) == 0 && offs(s) == na(inp(s), m, a) && ra(inp(s), offs(s)) == 35) &&
	(f == fnval(syntax.scanQuotedPlain) ==> nm(inp(s), m, a) == 0 && lx(s).start.offset == na(inp(s), m, a) && plainEnd(inp(s), lx(s).start.offset) == plainEnd(inp(s), offs(s))) &&
	(f == fnval(syntax.scanIndex) ==> m == 1 && offs(s) == a) &&
	(f == fnval(syntax.scanFuncName) ==> m == 2 && offs(s) == a) &&
	(f == fnval(syntax.scanFuncArgs) ==> m == 4 && a <= offs(s) && spEnd(inp(s), a) == spEnd(inp(s), offs(s))) &&
	(f == fnval(syntax.scanFuncArgQuoted) ==> m == 4 && a <= offs(s) && offs(s) == spEnd(inp(s), a))

// what is left to do: each state function makes it smaller
def rest(l: *syntax.lexerHelper): int = len(l.input) - l.current.offset + (if l.rune != 0 - 1 then 1 else 0)
def rank(f: syntax.scanFn): int = if f == nil then 0
	else if f == fnval(syntax.scanRef) || f == fnval(syntax.scanFunc) || f == fnval(syntax.scanQuotedPlain) || f == fnval(syntax.scanFuncArgQuoted) then 1
	else if f == fnval(syntax.scanPlain) then 2 else 3
fn work{scan}(s: *syntax.scanner, f: syntax.scanFn): int = 4 * rest(lx(s)) + rank(f)

// a string literal has its quotes
fn tokGood{scan}(t: *syntax.token): bool = t != nil && (t.typ == "literal" && t.kind == 1 && !t.bad ==> len(t.lit) >= 2)
def queued(s: *syntax.scanner): bool = len(s.tokens) <= 2 && (forall i: int :: {s.tokens[i]} 0 <= i && i < len(s.tokens) ==> tokGood(s.tokens[i]) && allocated(s.tokens[i]))
// the queued tokens and then the state function f continue in mode m at a
fn at{scan}(s: *syntax.scanner, f: syntax.scanFn, m: int, a: int): bool =
	if len(s.tokens) == 0 then stateAt(s, f, m, a)
	else if len(s.tokens) == 1 then tk(inp(s), m, a, s.tokens[0]) && stateAt(s, f, nxm(inp(s), m, a), nxa(inp(s), m, a))
	else tk(inp(s), m, a, s.tokens[0]) && tk(inp(s), nxm(inp(s), m, a), nxa(inp(s), m, a), s.tokens[1]) &&
		stateAt(s, f, nxm(inp(s), nxm(inp(s), m, a), nxa(inp(s), m, a)), nxa(inp(s), nxm(inp(s), m, a), nxa(inp(s), m, a)))

// the queue is where it was, or in a new array
def tokInPlace(a: []*syntax.token, o: []*syntax.token): bool = (arr(a) == arr(o) && off(a) >= off(o) && off(a) + cap(a) == off(o) + cap(o) && off(a) + len(a) >= off(o) + len(o)) || fresh(a)

functype syntax.scanFn(s)(next)
	cases syntax.scanPlain, syntax.scanRef, syntax.scanIndex, syntax.scanQuotedPlain, syntax.scanFunc, syntax.scanFuncName, syntax.scanFuncArgs, syntax.scanFuncArgQuoted

// ---- the state functions: each emits the next tokens, if any, and answers how to go on

func syntax.scanPlain(s)(next) [C01 C02 C03]
	requires s != nil && ready(s, fnval(syntax.scanPlain)) && len(s.tokens) == 0
	modifies [C12] s.tokens, elems(s.tokens) from len(s.tokens), s.lexerHelper.start, s.lexerHelper.current, s.lexerHelper.rune, s.lexerHelper.width
	ensures ["ready for the next" C02] ready(s, next) && queued(s)
	ensures ["in place" C12] tokInPlace(s.tokens, old(s.tokens))
	ensures ["less is left" C02] work(s, next) < old(work(s, fnval(syntax.scanPlain)))
	ensures ["these tokens" C01 C03] forall m: int, a: int :: {old(stateAt(s, fnval(syntax.scanPlain), m, a))} old(stateAt(s, fnval(syntax.scanPlain), m, a)) ==> at(s, next, m, a)
	loop 1:
	invariant ["at a rune"] lexOK(lx(s)) && r == lx(s).rune && lx(s).start.offset == old(offs(s)) && offs(s) >= old(offs(s)) && rest(lx(s)) <= old(rest(lx(s))) && s.tokens == old(s.tokens)
	invariant ["this lexer"] (offs(s) > old(offs(s)) ==> rest(lx(s)) < old(rest(lx(s))))
	invariant ["still this text" C01 C03] plainEnd(inp(s), offs(s)) == plainEnd(inp(s), old(offs(s)))
	decreases rest(lx(s))

func syntax.scanRef(s)(next) [C01 C02 C03]
	requires s != nil && ready(s, fnval(syntax.scanRef)) && len(s.tokens) == 0
	modifies [C12] s.tokens, elems(s.tokens) from len(s.tokens), s.lexerHelper.start, s.lexerHelper.current, s.lexerHelper.rune, s.lexerHelper.width
	ensures ["ready for the next" C02] ready(s, next) && queued(s)
	ensures ["in place" C12] tokInPlace(s.tokens, old(s.tokens))
	ensures ["less is left" C02] work(s, next) < old(work(s, fnval(syntax.scanRef)))
	ensures ["these tokens" C01 C03] forall m: int, a: int :: {old(stateAt(s, fnval(syntax.scanRef), m, a))} old(stateAt(s, fnval(syntax.scanRef), m, a)) ==> at(s, next, m, a)

func syntax.scanIndex(s)(next) [C01 C02 C03]
	requires s != nil && ready(s, fnval(syntax.scanIndex)) && len(s.tokens) == 0
	modifies [C12] s.tokens, elems(s.tokens) from len(s.tokens), s.lexerHelper.start, s.lexerHelper.current, s.lexerHelper.rune, s.lexerHelper.width
	ensures ["ready for the next" C02] ready(s, next) && queued(s)
	ensures ["in place" C12] tokInPlace(s.tokens, old(s.tokens))
	ensures ["less is left" C02] work(s, next) < old(work(s, fnval(syntax.scanIndex)))
	ensures ["these tokens" C01 C03] forall m: int, a: int :: {old(stateAt(s, fnval(syntax.scanIndex), m, a))} old(stateAt(s, fnval(syntax.scanIndex), m, a)) ==> at(s, next, m, a)
	loop 1:
	invariant ["at a rune"] lexOK(lx(s)) && r == lx(s).rune && lx(s).start.offset == old(offs(s)) && offs(s) >= old(offs(s)) && rest(lx(s)) <= old(rest(lx(s))) && s.tokens == old(s.tokens)
	invariant ["still this number" C01 C03] digEnd(inp(s), offs(s)) == digEnd(inp(s), old(offs(s)))
	decreases rest(lx(s))

func syntax.scanQuotedPlain(s)(next) [C01 C02 C03]
	requires s != nil && ready(s, fnval(syntax.scanQuotedPlain)) && len(s.tokens) == 0
	modifies [C12] s.tokens, elems(s.tokens) from len(s.tokens), s.lexerHelper.start, s.lexerHelper.current, s.lexerHelper.rune, s.lexerHelper.width
	ensures ["ready for the next" C02] ready(s, next) && queued(s)
	ensures ["in place" C12] tokInPlace(s.tokens, old(s.tokens))
	ensures ["less is left" C02] work(s, next) < old(work(s, fnval(syntax.scanQuotedPlain)))
	ensures ["these tokens" C01 C03] forall m: int, a: int :: {old(stateAt(s, fnval(syntax.scanQuotedPlain), m, a))} old(stateAt(s, fnval(syntax.scanQuotedPlain), m, a)) ==> at(s, next, m, a)
	loop 1:
	invariant ["at a rune"] lexOK(lx(s)) && r == lx(s).rune && lx(s).start.offset == old(lx(s).start.offset) && offs(s) > old(offs(s)) && rest(lx(s)) < old(rest(lx(s))) && s.tokens == old(s.tokens)
	invariant ["still this string" C01 C03] qEnd(inp(s), offs(s), quoter) == qEnd(inp(s), old(offs(s)) + 1, quoter)
	decreases rest(lx(s))

func syntax.scanFunc(s)(next) [C01 C02 C03]
	requires s != nil && ready(s, fnval(syntax.scanFunc)) && len(s.tokens) == 0
	modifies [C12] s.tokens, elems(s.tokens) from len(s.tokens), s.lexerHelper.start, s.lexerHelper.current, s.lexerHelper.rune, s.lexerHelper.width
	ensures ["ready for the next" C02] ready(s, next) && queued(s)
	ensures ["in place" C12] tokInPlace(s.tokens, old(s.tokens))
	ensures ["less is left" C02] work(s, next) < old(work(s, fnval(syntax.scanFunc)))
	ensures ["these tokens" C01 C03] forall m: int, a: int :: {old(stateAt(s, fnval(syntax.scanFunc), m, a))} old(stateAt(s, fnval(syntax.scanFunc), m, a)) ==> at(s, next, m, a)

func syntax.scanFuncName(s)(next) [C01 C02 C03]
	requires s != nil && ready(s, fnval(syntax.scanFuncName)) && len(s.tokens) == 0
	modifies [C12] s.tokens, elems(s.tokens) from len(s.tokens), s.lexerHelper.start, s.lexerHelper.current, s.lexerHelper.rune, s.lexerHelper.width
	ensures ["ready for the next" C02] ready(s, next) && queued(s)
	ensures ["in place" C12] tokInPlace(s.tokens, old(s.tokens))
	ensures ["less is left" C02] work(s, next) < old(work(s, fnval(syntax.scanFuncName)))
	ensures ["these tokens" C01 C03] forall m: int, a: int :: {old(stateAt(s, fnval(syntax.scanFuncName), m, a))} old(stateAt(s, fnval(syntax.scanFuncName), m, a)) ==> at(s, next, m, a)
	loop 1:
	invariant ["at a rune"] lexOK(lx(s)) && lx(s).start.offset == old(offs(s)) && offs(s) >= old(offs(s)) && rest(lx(s)) <= old(rest(lx(s))) && s.tokens == old(s.tokens)
	invariant ["still this name" C01 C03] letEnd(inp(s), offs(s)) == letEnd(inp(s), old(offs(s))) && (offs(s) > old(offs(s)) ==> old(offs(s)) < len(inp(s)) && isLetter(ra(inp(s), old(offs(s)))))
	decreases rest(lx(s))
	loop 2:
	invariant ["at a rune"] lexOK(lx(s)) && lx(s).start.offset > old(offs(s)) && offs(s) >= lx(s).start.offset && rest(lx(s)) < old(rest(lx(s)))
	invariant ["still this number" C01 C03] lx(s).start.offset == letEnd(inp(s), old(offs(s))) && digEnd(inp(s), offs(s)) == digEnd(inp(s), lx(s).start.offset) && (offs(s) > lx(s).start.offset ==> isDigit(ra(inp(s), lx(s).start.offset)))
	decreases rest(lx(s))

func syntax.scanFuncArgs(s)(next) [C01 C02 C03]
	requires s != nil && ready(s, fnval(syntax.scanFuncArgs)) && len(s.tokens) == 0
	modifies [C12] s.tokens, elems(s.tokens) from len(s.tokens), s.lexerHelper.start, s.lexerHelper.current, s.lexerHelper.rune, s.lexerHelper.width
	ensures ["ready for the next" C02] ready(s, next) && queued(s)
	ensures ["in place" C12] tokInPlace(s.tokens, old(s.tokens))
	ensures ["less is left" C02] work(s, next) < old(work(s, fnval(syntax.scanFuncArgs)))
	ensures ["these tokens" C01 C03] forall m: int, a: int :: {old(stateAt(s, fnval(syntax.scanFuncArgs), m, a))} old(stateAt(s, fnval(syntax.scanFuncArgs), m, a)) ==> at(s, next, m, a)
	loop 1:
	invariant ["at a rune"] lexOK(lx(s)) && r == lx(s).rune && offs(s) >= lx(s).start.offset && rest(lx(s)) <= old(rest(lx(s))) && s.tokens == old(s.tokens) && (offs(s) > lx(s).start.offset ==> rest(lx(s)) < old(rest(lx(s))))
	invariant ["still this word" C01 C03] wEnd(inp(s), offs(s)) == wEnd(inp(s), lx(s).start.offset) && lx(s).start.offset == spEnd(inp(s), old(offs(s)))
	decreases rest(lx(s))

func syntax.scanFuncArgQuoted(s)(next) [C01 C02 C03]
	requires s != nil && ready(s, fnval(syntax.scanFuncArgQuoted)) && len(s.tokens) == 0
	modifies [C12] s.tokens, elems(s.tokens) from len(s.tokens), s.lexerHelper.start, s.lexerHelper.current, s.lexerHelper.rune, s.lexerHelper.width
	ensures ["ready for the next" C02] ready(s, next) && queued(s)
	ensures ["in place" C12] tokInPlace(s.tokens, old(s.tokens))
	ensures ["less is left" C02] work(s, next) < old(work(s, fnval(syntax.scanFuncArgQuoted)))
	ensures ["these tokens" C01 C03] forall m: int, a: int :: {old(stateAt(s, fnval(syntax.scanFuncArgQuoted), m, a))} old(stateAt(s, fnval(syntax.scanFuncArgQuoted), m, a)) ==> at(s, next, m, a)
	loop 1:
	invariant ["at a rune"] lexOK(lx(s)) && r == lx(s).rune && lx(s).start.offset == old(offs(s)) && offs(s) > old(offs(s)) && rest(lx(s)) < old(rest(lx(s))) && s.tokens == old(s.tokens)
	invariant ["still this string" C01 C03] qEnd(inp(s), offs(s), 39) == qEnd(inp(s), old(offs(s)) + 1, 39) && (qOK(inp(s), offs(s), 39) <==> qOK(inp(s), old(offs(s)) + 1, 39))
	decreases rest(lx(s))
