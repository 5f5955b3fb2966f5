// C05: the args a context collects, and the placeholders it answers

group par { sqlf.Context.parent }
// the context at the end of the chain of parents
rec fn rootOf{par}(c: *sqlf.Context): *sqlf.Context = if c.parent == nil then c else rootOf(c.parent)

def isQ(st: sqlf.argStore): bool = is(st, *sqlf.questionArgStore)
def isD(st: sqlf.argStore): bool = is(st, *sqlf.dollarArgStore)
def qs(st: sqlf.argStore): *sqlf.questionArgStore = as(st, *sqlf.questionArgStore)
def ds(st: sqlf.argStore): *sqlf.dollarArgStore = as(st, *sqlf.dollarArgStore)

group store { sqlf.questionArgStore.args, sqlf.dollarArgStore.args, sqlf.dollarArgStore.dict, "E.any", "M:map[any]int" }

// the args in a store
group stargs { sqlf.questionArgStore.args, sqlf.dollarArgStore.args }
fn argsOf{stargs}(st: sqlf.argStore): []any = if isQ(st) then qs(st).args else ds(st).args

// the args are where they were, or in a new array
def inPlace(a: []any, o: []any): bool = (arr(a) == arr(o) && off(a) == off(o) && cap(a) == cap(o)) || fresh(a)

// every arg of the dictionary is at its position, and every hashable arg is in the dictionary
fn dictOK{store}(s: *sqlf.dollarArgStore): bool =
	(forall v: any :: {haskey(s.dict, v)} haskey(s.dict, v) ==> 1 <= s.dict[v] && s.dict[v] <= len(s.args) && s.args[s.dict[v] - 1] == v && hashable(v)) &&
	(forall i: int :: {s.args[i]} 0 <= i && i < len(s.args) && hashable(s.args[i]) ==> haskey(s.dict, s.args[i]) && s.dict[s.args[i]] == i + 1)

fn storeOK{store}(st: sqlf.argStore): bool =
	(isQ(st) && qs(st) != nil) || (isD(st) && ds(st) != nil && ds(st).dict != nil && dictOK(ds(st)))

// emb(style, a, b, s): the placeholders of the args at a..b-1 occur in s, one
// after another in this order (style 0: each is "?"; 1: the i-th is "$" and i+1)
fn emb(style: int, a: int, b: int, s: Str): bool
axiom forall y: int, a: int, b: int, s: Str :: {emb(y, a, b, s)} a == b ==> emb(y, a, b, s)
axiom forall y: int, a: int, b: int, s: Str, t: Str :: {emb(y, a, b, scat(s, t))} emb(y, a, b, s) || emb(y, a, b, t) ==> emb(y, a, b, scat(s, t))
axiom forall y: int, a: int, b: int, c: int, s: Str, t: Str :: {emb(y, a, b, s), emb(y, a, c, scat(s, t))} emb(y, a, b, s) && emb(y, b, c, t) ==> emb(y, a, c, scat(s, t))
axiom forall a: int, b: int :: {emb(0, a, b, "?")} b == a + 1 ==> emb(0, a, b, "?")
axiom forall a: int, b: int :: {emb(1, a, b, "$" + itoa(b))} b == a + 1 ==> emb(1, a, b, "$" + itoa(b))
axiom forall y: int, a: int, b: int :: {emb(y, a, b, "")} emb(y, a, b, "") ==> b <= a
axiom forall y: int, a: int, b: int, s: Str :: {emb(y, a, b, trim(s))} emb(y, a, b, s) ==> emb(y, a, b, trim(s))
def sty(st: sqlf.argStore): int = if isQ(st) then 0 else 1

iface sqlf.argStore.Args(st)(r)
	cases sqlf.(*questionArgStore).Args, sqlf.(*dollarArgStore).Args
iface sqlf.argStore.CommitArg(st, arg)(r)
	cases sqlf.(*questionArgStore).CommitArg, sqlf.(*dollarArgStore).CommitArg
iface sqlf.argStore.DiscardArgs(st, n)()
	cases sqlf.(*questionArgStore).DiscardArgs, sqlf.(*dollarArgStore).DiscardArgs

// isHashable asks the runtime: looking up an unhashable key panics
func sqlf.isHashable(arg)(r) [C05]
	modifies [C12, C05] nothing
	ensures ["hashable" C05] r <==> hashable(arg)

func sqlf.(*questionArgStore).CommitArg(s, arg)(r) [C05]
	requires s != nil
	modifies [C05, C12] s.args, elems(s.args) from len(s.args)
	ensures ["placeholder" C05 C04] r == "?"
	ensures ["appended" C05 C04] len(s.args) == old(len(s.args)) + 1 && s.args[old(len(s.args))] == arg
	ensures ["in place" C12] inPlace(s.args, old(s.args))
	ensures ["others kept" C05] forall i: int :: {s.args[i]} 0 <= i && i < old(len(s.args)) ==> s.args[i] == old(s.args[i])

func sqlf.(*questionArgStore).DiscardArgs(s, n)() [C05]
	requires s != nil && 0 <= n && n <= len(s.args)
	modifies [C05, C12] s.args
	ensures ["cut" C05 C04] len(s.args) == n
	ensures ["in place" C12] inPlace(s.args, old(s.args))
	ensures ["others kept" C05] forall i: int :: {s.args[i]} 0 <= i && i < n ==> s.args[i] == old(s.args[i])

func sqlf.(*questionArgStore).Args(s)(r) [C05]
	requires s != nil
	modifies [C05, C12] nothing
	ensures ["the args" C05 C04] r == s.args

func sqlf.(*dollarArgStore).CommitArg(s, arg)(r) [C05]
	requires s != nil && s.dict != nil && dictOK(s)
	modifies [C05, C12] s.args, elems(s.args) from len(s.args), mapof(s.dict)
	ensures ["dictionary" C05] dictOK(s)
	ensures ["in place" C12] inPlace(s.args, old(s.args))
	ensures ["others kept" C05] len(s.args) >= old(len(s.args)) && (forall i: int :: {s.args[i]} 0 <= i && i < old(len(s.args)) ==> s.args[i] == old(s.args[i]))
	ensures ["reused" C05 C04] old(haskey(s.dict, arg)) ==> len(s.args) == old(len(s.args)) && r == "$" + itoa(old(s.dict[arg])) && s.args[old(s.dict[arg]) - 1] == arg
	ensures ["equal value is reused" C05] (exists i: int :: {s.args[i]} 0 <= i && i < old(len(s.args)) && old(s.args[i]) == arg && hashable(arg)) ==> len(s.args) == old(len(s.args))
	ensures ["appended" C05 C04] !old(haskey(s.dict, arg)) ==> len(s.args) == old(len(s.args)) + 1 && r == "$" + itoa(len(s.args)) && s.args[len(s.args) - 1] == arg

func sqlf.(*dollarArgStore).DiscardArgs(s, n)() [C05]
	requires s != nil && s.dict != nil && dictOK(s) && 0 <= n && n <= len(s.args)
	modifies [C05, C12] s.args, mapof(s.dict)
	ensures ["dictionary" C05] dictOK(s)
	ensures ["in place" C12] inPlace(s.args, old(s.args))
	ensures ["cut" C05 C04] len(s.args) == n
	ensures ["others kept" C05] forall i: int :: {s.args[i]} 0 <= i && i < n ==> s.args[i] == old(s.args[i])
	at call sqlf.isHashable(a): assert ["the dropped args" C05] a == s.args[n + k] && a == old(s.args[n + k])
	loop 1:
	invariant ["kept keys"] forall v: any :: {haskey(s.dict, v)} haskey(s.dict, v) ==> old(haskey(s.dict, v)) && s.dict[v] == old(s.dict[v]) && !(n + 1 <= s.dict[v] && s.dict[v] <= n + k)
	invariant ["only later args dropped"] forall i: int :: {s.args[i]} 0 <= i && i < n && hashable(s.args[i]) ==> haskey(s.dict, s.args[i])

func sqlf.(*dollarArgStore).Args(s)(r) [C05]
	requires s != nil
	modifies [C05, C12] nothing
	ensures ["the args" C05 C04] r == s.args

func sqlf.newQuestionArgStore()(r) [C05]
	modifies [C05, C12] nothing
	ensures ["empty" C05 C04] r != nil && fresh(r) && len(r.args) == 0 && cap(r.args) == 0

func sqlf.newDollarArgStore()(r) [C05]
	modifies [C05, C12] nothing
	ensures ["empty" C05 C04] r != nil && fresh(r) && len(r.args) == 0 && cap(r.args) == 0 && r.dict != nil && fresh(r.dict) && dictOK(r)
