// Package reflect, as far as the code uses it (trusted).
// A reflect.Value is a function of the value it was made from: the code never
// writes through reflection.
fn rvalOf(v: any): reflect.Value
fn rkind(r: reflect.Value): int
fn relem(r: reflect.Value): reflect.Value
fn rnil(r: reflect.Value): bool
fn rlen(r: reflect.Value): int
fn rindex(r: reflect.Value, i: int): reflect.Value
fn riface(r: reflect.Value): any

axiom forall r: reflect.Value :: {rlen(r)} rlen(r) >= 0
axiom forall r: reflect.Value :: {rlen(r), rnil(r)} rkind(r) == 23 && rnil(r) ==> rlen(r) == 0
axiom forall v: any :: {rvalOf(v)} v == nil ==> rkind(rvalOf(v)) == 0
axiom forall v: any :: {riface(rvalOf(v))} v != nil ==> riface(rvalOf(v)) == v

extern reflect.ValueOf(v)(r)
	pure
	ensures r == rvalOf(v)
extern reflect.Value.Kind(v)(k)
	pure
	ensures k == rkind(v)
extern reflect.Value.Elem(v)(r)
	pure
	requires rkind(v) == 22 || rkind(v) == 20
	ensures r == relem(v)
extern reflect.Value.IsNil(v)(b)
	pure
	requires rkind(v) == 18 || rkind(v) == 19 || rkind(v) == 20 || rkind(v) == 21 || rkind(v) == 22 || rkind(v) == 23 || rkind(v) == 26
	ensures b <==> rnil(v)
extern reflect.Value.Len(v)(n)
	pure
	requires rkind(v) == 23 || rkind(v) == 17
	ensures n == rlen(v)
extern reflect.Value.Index(v, i)(r)
	pure
	requires (rkind(v) == 23 || rkind(v) == 17) && 0 <= i && i < rlen(v)
	ensures r == rindex(v, i)
extern reflect.Value.Interface(v)(r)
	pure
	ensures r == riface(v)

// the elements of a slice or array, as interface values
rec fn relemsn(r: reflect.Value, n: int): Sq = if n <= 0 then qempty() else snoc(relemsn(r, n - 1), u(riface(rindex(r, n - 1))))
