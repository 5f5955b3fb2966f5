// Theory of the values the specifications talk about.
// Every axiom holds in the standard model: byte strings, finite sequences,
// and finite chains of wrapped errors.


// ------------------------------------------------------------ byte strings
fn strlen(s: Str): int
fn sat(s: Str, i: int): int
fn scat(a: Str, b: Str): Str
fn ssub(s: Str, i: int, j: int): Str
fn sempty(): Str

axiom strlen(sempty()) == 0
axiom forall s: Str :: {strlen(s)} strlen(s) >= 0
axiom forall s: Str :: {strlen(s)} strlen(s) == 0 ==> s == sempty()
axiom forall s: Str, i: int :: {sat(s, i)} 0 <= sat(s, i) && sat(s, i) <= 255
axiom forall a: Str, b: Str :: {scat(a, b)} strlen(scat(a, b)) == strlen(a) + strlen(b)
axiom forall a: Str :: {scat(a, sempty())} scat(a, sempty()) == a
axiom forall a: Str :: {scat(sempty(), a)} scat(sempty(), a) == a
axiom forall a: Str, b: Str, c: Str :: {scat(scat(a, b), c)} scat(scat(a, b), c) == scat(a, scat(b, c))
axiom forall a: Str, b: Str, i: int :: {sat(scat(a, b), i)} 0 <= i && i < strlen(a) + strlen(b) ==>
	sat(scat(a, b), i) == (if i < strlen(a) then sat(a, i) else sat(b, i - strlen(a)))
axiom forall s: Str, i: int, j: int :: {ssub(s, i, j)} 0 <= i && i <= j && j <= strlen(s) ==> strlen(ssub(s, i, j)) == j - i
axiom forall s: Str, i: int, j: int :: {ssub(s, i, j)} i == j ==> ssub(s, i, j) == sempty()
axiom forall s: Str, i: int, j: int :: {ssub(s, i, j)} i == 0 && j == strlen(s) ==> ssub(s, i, j) == s
axiom forall s: Str, i: int, j: int, k: int :: {sat(ssub(s, i, j), k)} 0 <= i && i <= j && j <= strlen(s) && 0 <= k && k < j - i ==>
	sat(ssub(s, i, j), k) == sat(s, i + k)
axiom forall s: Str, i: int, j: int, k: int :: {scat(ssub(s, i, j), ssub(s, j, k))} 0 <= i && i <= j && j <= k && k <= strlen(s) ==>
	scat(ssub(s, i, j), ssub(s, j, k)) == ssub(s, i, k)
axiom forall s: Str, i: int, j: int, c: int, d: int :: {ssub(ssub(s, i, j), c, d)} 0 <= i && i <= j && j <= strlen(s) && 0 <= c && c <= d && d <= j - i ==>
	ssub(ssub(s, i, j), c, d) == ssub(s, i + c, i + d)

// the decimal numeral of an integer
fn itoa(i: int): Str
fn unitoa(s: Str): int
axiom forall i: int :: {itoa(i)} unitoa(itoa(i)) == i && strlen(itoa(i)) > 0

// the string of bytes a[o..o+n)
fn bstr(a: map[Int]Int, o: int, n: int): Str
axiom forall a: map[Int]Int, o: int, n: int :: {bstr(a, o, n)} n >= 0 ==> strlen(bstr(a, o, n)) == n

// -------------------------------------------------------- finite sequences
fn qempty(): Sq
fn qlen(q: Sq): int
fn qget(q: Sq, i: int): Univ
fn snoc(q: Sq, v: Univ): Sq
fn qcat(a: Sq, b: Sq): Sq

axiom qlen(qempty()) == 0
axiom forall q: Sq :: {qlen(q)} qlen(q) >= 0
axiom forall q: Sq :: {qlen(q)} qlen(q) == 0 ==> q == qempty()
axiom forall q: Sq, v: Univ :: {snoc(q, v)} qlen(snoc(q, v)) == qlen(q) + 1
axiom forall q: Sq, v: Univ, i: int :: {qget(snoc(q, v), i)} 0 <= i && i <= qlen(q) ==>
	qget(snoc(q, v), i) == (if i == qlen(q) then v else qget(q, i))
axiom forall a: Sq :: {qcat(a, qempty())} qcat(a, qempty()) == a
axiom forall a: Sq :: {qcat(qempty(), a)} qcat(qempty(), a) == a
axiom forall a: Sq, b: Sq, v: Univ :: {qcat(a, snoc(b, v))} qcat(a, snoc(b, v)) == snoc(qcat(a, b), v)
axiom forall a: Sq, b: Sq :: {qcat(a, b)} qlen(qcat(a, b)) == qlen(a) + qlen(b)
axiom forall a: Sq, b: Sq, c: Sq :: {qcat(qcat(a, b), c)} qcat(qcat(a, b), c) == qcat(a, qcat(b, c))
axiom forall a: Sq, b: Sq, i: int :: {qget(qcat(a, b), i)} 0 <= i && i < qlen(a) + qlen(b) ==>
	qget(qcat(a, b), i) == (if i < qlen(a) then qget(a, i) else qget(b, i - qlen(a)))

// ------------------------------------------------------------------ errors
// eunwrap(e) is the error wrapped by e (nil if none).
fn eunwrap(e: error): error
fn errIs(e: error, t: error): bool
fn asFirst(e: error, tg: int): error
// plain(e): e has no Is or As method, and wraps one error at most
def plain(e: error): bool = tag(e) == tagid(*fmt.wrapError) || tag(e) == tagid(*errors.errorString) ||
	tag(e) == tagid(*sqlf.nestedError) || tag(e) == tagid(*sqlf.callError)
axiom forall e: error, t: error :: {errIs(e, t)} e == t && e != nil ==> errIs(e, t)
axiom forall e: error, t: error :: {errIs(e, t)} e == nil ==> !errIs(e, t)
axiom forall e: error, t: error :: {errIs(e, t), eunwrap(e)} plain(e) ==> (errIs(e, t) <==> (e == t || errIs(eunwrap(e), t)))
axiom forall e: error, n: int :: {asFirst(e, n)} tag(asFirst(e, n)) == 0 || tag(asFirst(e, n)) == n
axiom forall e: error, n: int :: {asFirst(e, n)} e != nil && tag(e) == n ==> asFirst(e, n) == e
axiom forall e: error, n: int :: {asFirst(e, n)} e == nil ==> asFirst(e, n) == nil
axiom forall e: error, n: int :: {asFirst(e, n), eunwrap(e)} plain(e) && tag(e) != n ==> asFirst(e, n) == asFirst(eunwrap(e), n)

// ------------------------------------------------------------------ hashing
// hashable(v): v can be used as a map key
fn hashable(v: any): bool
