// C17: interpolation

// --------------------------------------------------- standard library (trusted)
extern bytes.NewBuffer(b)(r)
	modifies nothing
	ensures r != nil && fresh(r) && r.content == bytes(b)
extern bytes.(*Buffer).WriteString(b, s)(n, err)
	modifies b.content
	ensures b.content == old(b.content) + s && n == len(s) && err == nil
extern bytes.(*Buffer).WriteRune(b, r)(n, err)
	modifies b.content
	ensures b.content == old(b.content) + runestr(r) && err == nil
extern bytes.(*Buffer).WriteByte(b, c)(err)
	modifies b.content
	ensures b.content == old(b.content) + runestr(c) && err == nil
extern bytes.(*Buffer).Write(b, p)(n, err)
	modifies b.content
	ensures b.content == old(b.content) + bytes(p) && n == len(p) && err == nil
extern bytes.(*Buffer).String(b)(s)
	pure
	ensures s == b.content
extern bytes.(*Buffer).Bytes(b)(p)
	pure
	ensures bytes(p) == b.content
extern strings.(*Builder).Write(b, p)(n, err)
	modifies b.content
	ensures b.content == old(b.content) + bytes(p) && n == len(p) && err == nil
extern strings.(*Builder).WriteByte(b, c)(err)
	modifies b.content
	ensures b.content == old(b.content) + runestr(c) && err == nil

axiom runestr(39) == "'"

// repl(s, c, b, n): the first n bytes of s, with b for each byte c
rec fn repl(s: Str, c: int, b: Str, n: int): Str = if n <= 0 then "" else repl(s, c, b, n - 1) + (if s[n - 1] == c then b else ssub(s, n - 1, n))
axiom forall s: Str, b: Str :: {sreplace(s, "'", b)} sreplace(s, "'", b) == repl(s, 39, b, len(s))

// the reader of a quoted literal after n bytes of its body t:
// 0 inside, 1 after a quote (the end, unless another one follows), 2 the literal has ended
rec fn litState(t: Str, n: int): int = if n <= 0 then 0
	else if litState(t, n - 1) == 2 then 2
	else if litState(t, n - 1) == 0 then (if t[n - 1] == 39 then 1 else 0)
	else (if t[n - 1] == 39 then 0 else 2)
lemma litPrefix(a: Str, b: Str, n: int) [C17] by n: {litState(a + b, n)} n <= len(a) ==> litState(a + b, n) == litState(a, n)
lemma litOne(a: Str, b: Str, m: int) [C17]: {litState(a + b, m)} m == len(a) + 1 && len(b) == 1 && b[0] != 39 && litState(a, len(a)) == 0 ==> litState(a + b, len(a)) == 0 && litState(a + b, m) == 0
lemma litTwo(a: Str, m: int) [C17]: {litState(a + "''", m)} m == len(a) + 2 && litState(a, len(a)) == 0 ==> litState(a + "''", len(a)) == 0 && litState(a + "''", len(a) + 1) == 1 && litState(a + "''", m) == 0
lemma neverEnds(s: Str, n: int) [C17] by n: {repl(s, 39, "''", n)} n <= len(s) ==> litState(repl(s, 39, "''", n), len(repl(s, 39, "''", n))) == 0

def quoted(s: Str): Str = "'" + repl(s, 39, "''", len(s)) + "'"

func util.quoteStringValue(s)(r) [C17]
	modifies [C12 C17] nothing
	ensures ["quotes doubled" C17] bytes(r) == quoted(s)
	ensures ["the literal cannot end inside" C17] litState(repl(s, 39, "''", len(s)), len(repl(s, 39, "''", len(s)))) == 0

// -------------------------------------------------------------- options
// what an option stores
fn optFormat(f: util.InterpolateOption): Str

functype util.InterpolateOption(f, opts)()
	requires opts != nil
	modifies [C12 C17] opts.TimeFormat
	ensures ["its own format" C17] opts.TimeFormat == optFormat(f)

func util.WithTimeFormat$1(opts)() [C17]
	implements util.InterpolateOption
	defines optFormat(f) == format

func util.WithTimeFormat(format)(r) [C17]
	modifies [C12 C17] nothing
	ensures ["this format" C17] r != nil && optFormat(r) == format

func util.applyInterpolateOptions(options)(r) [C17]
	requires forall i: int :: {options[i]} 0 <= i && i < len(options) ==> options[i] != nil
	modifies [C12 C17] nothing
	ensures ["last option or default" C17] r != nil && fresh(r) && (len(options) == 0 ==> r.TimeFormat == "2006-01-02T15:04:05Z07:00") && (len(options) > 0 ==> r.TimeFormat == optFormat(options[len(options) - 1]))
	loop 1:
	invariant ["options so far"] opts != nil && fresh(opts) && (k == 0 ==> opts.TimeFormat == "2006-01-02T15:04:05Z07:00") && (k > 0 ==> opts.TimeFormat == optFormat(options[k - 1]))

// --------------------------------------------------------------- values
fn rbool(r: reflect.Value): bool
fn rint(r: reflect.Value): int
fn ruint(r: reflect.Value): int
fn rfloat(r: reflect.Value): float64
fn rstr(r: reflect.Value): Str
fn tbits(t: reflect.Type): int
axiom forall t: reflect.Type :: {tbits(t)} tkind(t) == 13 ==> tbits(t) == 32
axiom forall t: reflect.Type :: {tbits(t)} tkind(t) == 14 ==> tbits(t) == 64
axiom forall r: reflect.Value :: {rtype(r)} rkind(r) != 0 ==> tkind(rtype(r)) == rkind(r)
extern reflect.Value.Bool(v)(r)
	pure
	requires rkind(v) == 1
	ensures r == rbool(v)
extern reflect.Value.Int(v)(r)
	pure
	requires 2 <= rkind(v) && rkind(v) <= 6
	ensures r == rint(v)
extern reflect.Value.Uint(v)(r)
	pure
	requires 7 <= rkind(v) && rkind(v) <= 12
	ensures r == ruint(v)
extern reflect.Value.Float(v)(r)
	pure
	requires rkind(v) == 13 || rkind(v) == 14
	ensures r == rfloat(v)
extern reflect.Value.String(v)(r)
	pure
	ensures rkind(v) == 24 ==> r == rstr(v)
iface reflect.Type.Bits(t)(n)
	pure
	requires 2 <= tkind(t) && tkind(t) <= 16
	ensures n == tbits(t)

// floats: ftext(x, f, p, b) is the text that strconv.FormatFloat gives, fparse(s) the float it stands for
fn ftext(x: float64, f: int, p: int, b: int): Str
fn fparse(s: Str, b: int): float64
fn isF32(x: float64): bool
axiom forall r: reflect.Value :: {rfloat(r)} rkind(r) == 13 ==> isF32(rfloat(r))
axiom forall x: float64, f: int, b: int :: {ftext(x, f, 0 - 1, b)} (f == 101 || f == 69 || f == 102 || f == 103 || f == 71) && (b == 64 || b == 32 && isF32(x)) ==> fparse(ftext(x, f, 0 - 1, b), b) == x
axiom forall x: float64, f: int, b: int :: {ftext(x, f, 0 - 1, 64)} (f == 101 || f == 69 || f == 102 || f == 103 || f == 71) && isF32(x) ==> fparse(ftext(x, f, 0 - 1, 64), 32) == x
extern strconv.FormatFloat(x, f, p, b)(r)
	pure
	requires b == 32 || b == 64
	ensures r == ftext(x, f, p, b)
extern strconv.FormatInt(i, base)(r)
	pure
	requires 2 <= base && base <= 36
	ensures base == 10 ==> r == itoa(i)
extern strconv.FormatUint(i, base)(r)
	pure
	requires 2 <= base && base <= 36
	ensures base == 10 ==> r == itoa(i)

fn tzero(t: time.Time): bool
fn tround(t: time.Time, d: int): time.Time
fn tformat(t: time.Time, f: Str): Str
extern time.Time.IsZero(t)(b)
	pure
	ensures b <==> tzero(t)
extern time.Time.Round(t, d)(r)
	pure
	ensures r == tround(t, d)
extern time.Time.Format(t, f)(r)
	pure
	ensures r == tformat(t, f)

assumption "driver.Valuer.Value and fmt.Stringer.String of the args change nothing that the interpolation reads, and do not panic for a non-nil receiver"
iface driver.Valuer.Value(v)(r, err)
	pure
iface fmt.Stringer.String(v)(s)
	pure

def nilArg(v: any): bool = v == nil || (rkind(rvalOf(v)) == 22 && rnil(rvalOf(v)))
def byValuer(v: any): bool = !nilArg(v) && is(v, driver.Valuer)
def isTime(v: any): bool = !nilArg(v) && !is(v, driver.Valuer) && is(v, time.Time)
def byStringer(v: any): bool = !nilArg(v) && !is(v, driver.Valuer) && !is(v, time.Time) && is(v, fmt.Stringer)
def byKind(v: any): bool = !nilArg(v) && !is(v, driver.Valuer) && !is(v, time.Time) && !is(v, fmt.Stringer)

func util.encodeValue(arg, opts)(r, err) [C17]
	requires opts != nil
	modifies [C12 C17] nothing
	lets tf = opts.TimeFormat
	lets rv = rvalOf(arg)
	ghost val: any = nil
	ghost asked: bool = false
	ghost verr: error = nil
	ghost encoded: bool = false
	ghost enc: Str = ""
	ghost eerr: error = nil
	ghost str: Str = ""
	on call driver.Valuer.Value(v)(x, e): asked := true
	on call driver.Valuer.Value(v)(x, e): val := x
	on call driver.Valuer.Value(v)(x, e): verr := e
	at call driver.Valuer.Value(v): assert ["the arg itself" C17] v == arg && !nilArg(arg)
	at call util.encodeValue(a, o): assert ["the value it gives" C17] asked && verr == nil && a == val && o.TimeFormat == tf
	on call util.encodeValue(a, o)(b, e): encoded := true
	on call util.encodeValue(a, o)(b, e): enc := bytes(b)
	on call util.encodeValue(a, o)(b, e): eerr := e
	at call fmt.Stringer.String(v): assert ["the arg itself" C17] v == arg && !nilArg(arg)
	on call fmt.Stringer.String(v)(s): str := s
	ensures ["nil is NULL" C17] nilArg(arg) ==> err == nil && bytes(r) == "NULL"
	ensures ["its value is asked" C17] byValuer(arg) ==> asked && (verr != nil ==> err != nil && errIs(err, verr))
	ensures ["what its value is encoded to" C17] byValuer(arg) && verr == nil ==> encoded && (eerr == nil ==> err == nil && bytes(r) == enc) && (eerr != nil ==> err != nil && errIs(err, eerr))
	ensures ["time in the format" C17] isTime(arg) ==> err == nil && (tzero(as(arg, time.Time)) ==> bytes(r) == "'0000-00-00'") && (!tzero(as(arg, time.Time)) ==> bytes(r) == "'" + tformat(tround(as(arg, time.Time), 1000), tf) + "'")
	ensures ["string literal of the text" C17] byStringer(arg) ==> err == nil && bytes(r) == quoted(str)
	ensures ["boolean" C17] byKind(arg) && rkind(rv) == 1 ==> err == nil && bytes(r) == (if rbool(rv) then "TRUE" else "FALSE")
	ensures ["decimal" C17] byKind(arg) && 2 <= rkind(rv) && rkind(rv) <= 6 ==> err == nil && bytes(r) == itoa(rint(rv))
	ensures ["decimal" C17] byKind(arg) && 7 <= rkind(rv) && rkind(rv) <= 11 ==> err == nil && bytes(r) == itoa(ruint(rv))
	ensures ["float without loss" C17] byKind(arg) && rkind(rv) == 14 ==> err == nil && fparse(bytes(r), 64) == rfloat(rv)
	ensures ["float without loss" C17] byKind(arg) && rkind(rv) == 13 ==> err == nil && fparse(bytes(r), 32) == rfloat(rv)
	ensures ["string literal" C17] byKind(arg) && rkind(rv) == 24 ==> err == nil && bytes(r) == quoted(rstr(rv))
	ensures ["unsupported is an error" C17] byKind(arg) && !(1 <= rkind(rv) && rkind(rv) <= 11 || rkind(rv) == 13 || rkind(rv) == 14 || rkind(rv) == 24) ==> err != nil
	ensures ["nothing on error" C17] err != nil ==> r == nil

func util.Interpolate(query, args, options)(s, err) [C17]
	requires forall i: int :: {options[i]} 0 <= i && i < len(options) ==> options[i] != nil
	modifies [C12 C17] nothing
	ghost c: *syntax.Clause = nil
	ghost perr: error = nil
	ghost parsed: bool = false
	ghost rs: map[Int]Str = noResults()
	ghost eerr: error = nil
	at call syntax.Parse(q): assert ["the query" C17] q == query
	on call syntax.Parse(q)(x, e): c := x
	on call syntax.Parse(q)(x, e): perr := e
	on call syntax.Parse(q)(x, e): parsed := true
	at call util.encodeValue(a, o): assert ["the arg it denotes" C17] isVar(c.ExprList[k]) && 1 <= as(c.ExprList[k], *syntax.BindVarExpr).Index && as(c.ExprList[k], *syntax.BindVarExpr).Index <= len(args) && a == args[as(c.ExprList[k], *syntax.BindVarExpr).Index - 1]
	at call util.encodeValue(a, o): assert ["the chosen format" C17] o != nil && (len(options) == 0 ==> o.TimeFormat == "2006-01-02T15:04:05Z07:00") && (len(options) > 0 ==> o.TimeFormat == optFormat(options[len(options) - 1]))
	on call util.encodeValue(a, o)(b, e): rs := upd(rs, k, bytes(b))
	on call util.encodeValue(a, o)(b, e): eerr := e
	ensures ["parsed" C17] parsed && (perr != nil ==> err != nil && errIs(err, perr))
	ensures ["text and literals in order" C17] err == nil ==> s == content(c, rs, len(c.ExprList))
	ensures ["nothing else in it" C17] err == nil ==> (forall i: int :: {c.ExprList[i]} 0 <= i && i < len(c.ExprList) ==> isPlain(c.ExprList[i]) || isVar(c.ExprList[i]))
	ensures ["each has an arg" C17] err == nil ==> (forall i: int :: {c.ExprList[i]} 0 <= i && i < len(c.ExprList) && isVar(c.ExprList[i]) ==> 1 <= as(c.ExprList[i], *syntax.BindVarExpr).Index && as(c.ExprList[i], *syntax.BindVarExpr).Index <= len(args))
	ensures ["failing value" C17] eerr != nil ==> err != nil && errIs(err, eerr)
	ensures ["nothing on error" C17] err != nil ==> s == ""
	loop 1:
	invariant ["text so far"] b != nil && fresh(b) && b.content == content(c, rs, k)
	invariant ["the clause"] exprs == c && c != nil && exprsOK(c)
	invariant ["options kept"] opts != nil && (len(options) == 0 ==> opts.TimeFormat == "2006-01-02T15:04:05Z07:00") && (len(options) > 0 ==> opts.TimeFormat == optFormat(options[len(options) - 1]))
	invariant ["no error so far"] eerr == nil
	invariant ["only these so far"] forall i: int :: {c.ExprList[i]} 0 <= i && i < k ==> isPlain(c.ExprList[i]) || isVar(c.ExprList[i])
	invariant ["in range so far"] forall i: int :: {c.ExprList[i]} 0 <= i && i < k && isVar(c.ExprList[i]) ==> 1 <= as(c.ExprList[i], *syntax.BindVarExpr).Index && as(c.ExprList[i], *syntax.BindVarExpr).Index <= len(args)
