// Assumed contracts of the standard library (trusted, listed in the evidence).

// strings.Builder and bytes.Buffer: content is what was written so far
ghostfield strings.Builder.content: Str = sempty()
ghostfield bytes.Buffer.content: Str = sempty()

extern strings.(*Builder).WriteString(b, s)(n, err)
	modifies b.content
	ensures b.content == old(b.content) + s && n == len(s) && err == nil
extern strings.(*Builder).WriteRune(b, r)(n, err)
	modifies b.content
	ensures b.content == old(b.content) + runestr(r) && err == nil
extern strings.(*Builder).String(b)(s)
	pure
	ensures s == b.content
extern strings.(*Builder).Len(b)(n)
	pure
	ensures n == len(b.content)

fn runestr(r: int): Str

// trim(s) is s without the white space at both ends
fn trim(s: Str): Str
axiom trim(sempty()) == sempty()
axiom forall s: Str :: {trim(s)} len(trim(s)) <= len(s) && trim(trim(s)) == trim(s)
extern strings.TrimSpace(s)(r)
	pure
	ensures r == trim(s)

// join(q, sep): the strings of q with sep between each two of them
fn sjoin(q: Sq, sep: Str): Str
axiom forall sep: Str :: {sjoin(qempty(), sep)} sjoin(qempty(), sep) == sempty()
axiom forall q: Sq, s: Str, sep: Str :: {sjoin(snoc(q, u(s)), sep)}
	sjoin(snoc(q, u(s)), sep) == (if len(q) == 0 then s else sjoin(q, sep) + sep + s)
extern strings.Join(elems, sep)(r)
	pure
	ensures r == sjoin(seq(elems), sep)

fn sreplace(s: Str, a: Str, b: Str): Str
extern strings.ReplaceAll(s, a, b)(r)
	pure
	ensures r == sreplace(s, a, b)

extern strconv.Itoa(i)(r)
	pure
	ensures r == itoa(i)

extern errors.Is(e, t)(r)
	pure
	ensures t != nil ==> (r <==> errIs(e, t))

// the Error method of any error value is assumed to return, without effects
iface error.Error(e)(s)
	pure
