// C01, C02, C03: the lexer reads the template rune by rune.

// ra(s, i), rw(s, i): the rune at byte i of s, and the bytes it takes
fn ra(s: Str, i: int): int
fn rw(s: Str, i: int): int
axiom forall s: Str, i: int :: {ra(s, i)} 0 <= i && i < len(s) && sat(s, i) < 128 ==> ra(s, i) == sat(s, i) && rw(s, i) == 1
axiom forall s: Str, i: int :: {ra(s, i)} 0 <= i && i < len(s) && sat(s, i) >= 128 ==> ra(s, i) >= 128 && rw(s, i) >= 1 && i + rw(s, i) <= len(s)
axiom forall s: Str, i: int :: {ra(s, i)} i >= len(s) ==> ra(s, i) == 65533 && rw(s, i) == 0
axiom forall s: Str, i: int, j: int, k: int :: {ra(ssub(s, i, j), k)} 0 <= i && i <= j && j == len(s) && 0 <= k ==> ra(ssub(s, i, j), k) == ra(s, i + k) && rw(ssub(s, i, j), k) == rw(s, i + k)
extern utf8.DecodeRuneInString(s)(r, size)
	pure
	ensures r == ra(s, 0) && size == rw(s, 0)

fn isSpace(r: int): bool
axiom !isSpace(65533) && !isSpace(0 - 1) && !isSpace(44) && !isSpace(41) && !isSpace(39)
extern unicode.IsSpace(r)(b)
	pure
	ensures b <==> isSpace(r)

group scan { syntax.scanner.lexerHelper, syntax.lexerHelper.input, syntax.lexerHelper.start, syntax.lexerHelper.current, syntax.lexerHelper.rune, syntax.lexerHelper.width, syntax.token.typ, syntax.token.lit, syntax.token.bad, syntax.token.kind, syntax.token.start, syntax.token.end, syntax.scanner.tokens, "E.*syntax.token" }
// the lexer is at a rune of the input, or at its end
fn lexOK{scan}(l: *syntax.lexerHelper): bool = 0 <= l.start.offset && l.start.offset <= l.current.offset && l.current.offset <= len(l.input) &&
	(l.current.offset < len(l.input) ==> l.rune == ra(l.input, l.current.offset) && l.width == rw(l.input, l.current.offset)) &&
	(l.current.offset == len(l.input) ==> l.width == 0 && (l.rune == 0 - 1 || l.rune == 65533))

func syntax.(*lexerHelper).Next(l)(r) [C01 C02 C03]
	requires l != nil && 0 <= l.start.offset && l.start.offset <= l.current.offset && 0 <= l.width && l.current.offset + l.width <= len(l.input)
	modifies [C12] l.current, l.rune, l.width
	ensures ["at a rune" C01 C02 C03] lexOK(l) && r == l.rune
	ensures ["one rune further" C01 C02 C03] old(l.current.offset) < len(l.input) ==> l.current.offset == old(l.current.offset + l.width) && l.rune == ra(l.input, l.current.offset) && l.width == rw(l.input, l.current.offset)
	ensures ["at the end" C01 C02 C03] old(l.current.offset) >= len(l.input) ==> l.current.offset == old(l.current.offset) && l.rune == 0 - 1 && l.width == 0

func syntax.(*lexerHelper).Peek(l)(r) [C01 C02 C03]
	requires l != nil && lexOK(l)
	modifies [C12] nothing
	ensures ["the next rune" C01 C03] l.current.offset + l.width < len(l.input) ==> r == ra(l.input, l.current.offset + l.width)
	ensures ["none" C01 C03] l.current.offset + l.width >= len(l.input) ==> r == 0 - 1

func syntax.(*lexerHelper).SkipWhitespace(l)() [C01 C02 C03]
	requires l != nil && lexOK(l)
	modifies [C12] l.current, l.rune, l.width
	ensures ["at a rune" C01 C02 C03] lexOK(l) && !isSpace(l.rune) && l.current.offset >= old(l.current.offset) && rest(l) <= old(rest(l))
	ensures ["over the spaces" C01 C03] l.current.offset == spEnd(l.input, old(l.current.offset))
	loop 1:
	invariant ["at a rune"] lexOK(l) && l.current.offset >= old(l.current.offset) && rest(l) <= old(rest(l))
	invariant ["over the spaces" C01 C03] spEnd(l.input, l.current.offset) == spEnd(l.input, old(l.current.offset))
	decreases rest(l)
