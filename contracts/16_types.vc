// reflect.Type (trusted): what is known of a type is a function of the type.
fn typeOfTag(t: int): reflect.Type
fn tkind(t: reflect.Type): int
fn telem(t: reflect.Type): reflect.Type
fn tIn(t: reflect.Type, i: int): reflect.Type
fn tOut(t: reflect.Type, i: int): reflect.Type
fn tNumIn(t: reflect.Type): int
fn tNumOut(t: reflect.Type): int
fn tVariadic(t: reflect.Type): bool
fn rtype(r: reflect.Value): reflect.Type
// the value converted to a type
fn rconvert(r: reflect.Value, t: reflect.Type): reflect.Value
fn rzero(t: reflect.Type): reflect.Value
axiom rkind(zero(reflect.Value)) == 0

fn tagOfType(t: reflect.Type): int
axiom forall n: int :: {typeOfTag(n)} tagOfType(typeOfTag(n)) == n && typeOfTag(n) != nil
axiom forall t: reflect.Type :: {telem(t)} telem(t) != nil
axiom forall t: reflect.Type, i: int :: {tIn(t, i)} tIn(t, i) != nil
axiom forall t: reflect.Type, i: int :: {tOut(t, i)} tOut(t, i) != nil
axiom forall t: reflect.Type :: {tNumIn(t)} tNumIn(t) >= 0
axiom forall t: reflect.Type :: {tNumOut(t)} tNumOut(t) >= 0
axiom forall t: reflect.Type :: {tkind(t)} 0 < tkind(t) && tkind(t) <= 26
// the last parameter of a variadic function is a slice
axiom forall t: reflect.Type :: {tVariadic(t)} tVariadic(t) ==> tNumIn(t) > 0 && tkind(tIn(t, tNumIn(t) - 1)) == 23
axiom forall v: any :: {rtype(rvalOf(v))} v != nil ==> rtype(rvalOf(v)) == typeOfTag(tag(v))
axiom forall v: any :: {rkind(rvalOf(v))} v != nil ==> rkind(rvalOf(v)) == tkind(typeOfTag(tag(v)))
axiom forall r: reflect.Value, t: reflect.Type :: {rkind(rconvert(r, t))} rkind(rconvert(r, t)) == tkind(t)
axiom forall t: reflect.Type :: {rkind(rzero(t))} rkind(rzero(t)) == tkind(t)

def numKind(k: int): bool = (2 <= k && k <= 6) || (7 <= k && k <= 11) || k == 13 || k == 14

extern reflect.TypeOf(v)(t)
	pure
	ensures v != nil ==> t == typeOfTag(tag(v))
	ensures v == nil ==> t == nil
extern reflect.Value.Type(v)(t)
	pure
	requires rkind(v) != 0
	ensures t == rtype(v) && t != nil
extern reflect.Value.IsValid(v)(b)
	pure
	ensures b <==> rkind(v) != 0
extern reflect.Value.Convert(v, t)(r)
	pure
	requires t != nil && ((numKind(rkind(v)) && numKind(tkind(t))) || (rkind(v) == 1 && tkind(t) == 1) || (rkind(v) == 24 && tkind(t) == 24))
	ensures r == rconvert(v, t)
extern reflect.Zero(t)(r)
	pure
	requires t != nil
	ensures r == rzero(t)
iface reflect.Type.Kind(t)(k)
	pure
	ensures k == tkind(t)
iface reflect.Type.NumIn(t)(n)
	pure
	requires tkind(t) == 19
	ensures n == tNumIn(t)
iface reflect.Type.NumOut(t)(n)
	pure
	requires tkind(t) == 19
	ensures n == tNumOut(t)
iface reflect.Type.In(t, i)(r)
	pure
	requires tkind(t) == 19 && 0 <= i && i < tNumIn(t)
	ensures r == tIn(t, i) && r != nil
iface reflect.Type.Out(t, i)(r)
	pure
	requires tkind(t) == 19 && 0 <= i && i < tNumOut(t)
	ensures r == tOut(t, i) && r != nil
iface reflect.Type.IsVariadic(t)(b)
	pure
	requires tkind(t) == 19
	ensures b <==> tVariadic(t)
iface reflect.Type.Elem(t)(r)
	pure
	requires tkind(t) == 17 || tkind(t) == 18 || tkind(t) == 21 || tkind(t) == 22 || tkind(t) == 23
	ensures r == telem(t) && r != nil
iface reflect.Type.Name(t)(s)
	pure
iface reflect.Type.String(t)(s)
	pure

typefacts *fmt.Stringer, error, string, bool, int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64, float32, float64, *error, *string, *reflect.Value, *sqlf.Context, reflect.Value
typefacts sqlf.funcArg, sqlf.funcFragment, sqlf.funcJoin
