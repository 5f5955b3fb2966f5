import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d["anchors"]["observe_at"]=obs
    d["anchors"]["hook_needed"]=None
    P.append(d)

p("C01","Literal SQL text passes through unchanged",
 "For every template that parses, the parsed expressions cover the template from its first byte to its last, in order, without gap or overlap: each piece of plain text is exactly the bytes of the template it stands for, and everything else belongs to a bind variable or a function call. Building emits every piece of plain text byte for byte, at its position between the neighbouring items; only white space at both ends of the built body is trimmed.",
 ["inputs"],"every template string, including quoted text, multi-byte and invalid UTF-8, and NUL characters",
 "The tests feed about a dozen short ASCII templates to the parser; losing a byte needs an unusual position (end of input, after a quote, after a call, a control character) that none of them has.",
 ["syntax/scanner.go","syntax/lexer.go","syntax/parser.go","build.go"],
 [("emitToken slices the input between the token start and the current offset","syntax/scanner.go"),("Parse appends one expression per token group","syntax/parser.go"),("buildClause concatenates the pieces in order","build.go")],
 [("lexerHelper.start/current","byte offsets of the current token","syntax/lexer.go")],["syntax.Parse","Fragment.BuildQuery"])
p("C02","Parsing any template terminates and never panics",
 "For every string, parsing returns after finitely many steps with either a list of expressions or an error; it never panics and never reads outside the input.",
 ["inputs"],"every string: empty, truncated in the middle of a directive, unterminated quotes, invalid UTF-8, control characters",
 "Termination and memory safety of a hand-written state machine are statements about every input; the tests run seventeen of them.",
 ["syntax/lexer.go","syntax/scanner.go","syntax/parser.go"],
 [("Next advances or reports EOF","syntax/lexer.go"),("NextToken runs the state functions until a token is available","syntax/scanner.go"),("Parse / funcExpr consume tokens","syntax/parser.go")])
p("C03","Directives are recognised exactly",
 "A '?' is the n-th bind variable of its template when it is the n-th '?', a '$n' refers to n, and a template that uses both styles is rejected whichever comes first. A '#name' is a function call with the decoded arguments in order when an argument list or an index follows directly (numbers, quoted strings with doubled quotes undone, true/false, null/nil) and a function reference otherwise, and whatever follows it is still interpreted. Nothing inside a quoted string and no doubled '$$' or '??' is a directive.",
 ["inputs"],"every template and every combination and order of neighbouring directives, quotes and text",
 "The tests check a few isolated directives; adjacency, order and escaping combine without bound.",
 ["syntax/scanner.go","syntax/parser.go"],
 [("scanPlain / scanRef / scanIndex / scanFuncName / scanFuncArgs","syntax/scanner.go"),("bindVarExpr, funcExpr","syntax/parser.go")],
 [("bindVarIndex, bindVarStyle","number and style of the bind variables seen so far","syntax/parser.go")])
p("C04","Placeholders line up with the returned args",
 "In every successful build the placeholders appear in the query in the order their values were committed: in the question style the i-th placeholder stands for the i-th returned arg and there are as many placeholders as args; in the dollar style every $n is within the returned args and was written for the value at position n. This holds for every nesting of fragments, #join, functions and query builders.",
 ["inputs","programs"],"every tree of fragments and builders, every template, both bind variable styles",
 "Values get bound to the wrong column only for particular compositions (a template that ends early, a clause built out of order); the tests compare a handful of trees, mostly in the dollar style.",
 ["build.go","func_builtin.go","context_args.go","properties.go","fragment.go","sqlb/query_builder_build.go","sqlb/query_builder_order.go"],
 [("text is written in the same order as args are committed","build.go buildClause; sqlb/query_builder_build.go buildInternal"),("args of an item that is dropped are discarded","func_builtin.go funcJoin")],
 [("argStore.args","committed args","context_args.go")],["Fragment.BuildQuery","QueryBuilder.BuildQuery"])
p("C05","Committed args are never lost, changed or renumbered",
 "Committing any value (hashable or not, nil included) yields a placeholder that denotes exactly that value in the args returned at the end, and leaves every earlier arg at its position. The question style always appends and answers '?'; the dollar style answers '$n' where n is the position of the value, reuses the number of an equal value committed before, and otherwise appends.",
 ["inputs","histories"],"every value and every sequence of commits to one context, through any derived context",
 "The tests commit small integers and strings; equal, unhashable and interleaved values over long histories are not reachable by enumeration.",
 ["context_args.go","contex_with.go","context.go"],
 [("questionArgStore.CommitArg, dollarArgStore.CommitArg, DiscardArgs","context_args.go"),("root() finds the store shared by derived contexts","contex_with.go")],
 [("dollarArgStore.dict","position of each hashable value","context_args.go")])
p("C06","References resolve to the fragment's own items, or fail",
 "Inside a fragment, reference k to an arg or a fragment (?, $k, #arg k, #f k, #fragment k, and #join over them) denotes the k-th item given to that very fragment, never an item of an enclosing or nested one. A reference below 1 or above the number of items makes the build fail.",
 ["inputs","programs"],"every index, every number of items, every nesting depth",
 "Scoping and bounds are quantified over indexes and nesting; tests use indexes 1 to 5 and valid references only.",
 ["build.go","properties.go","context_fragment.go","func_builtin.go"],
 [("a fresh FragmentContext per build, found as the nearest one","context_fragment.go"),("Properties.Build bounds check","properties.go"),("bind variable bounds check","build.go buildClause")])
p("C07","Every arg and fragment supplied must be used",
 "A fragment builds successfully only if each of its own args and fragments has been referenced at least once by its template during that build; if one has not, the build fails. A fragment whose items are all referenced never fails for this reason.",
 ["inputs","programs"],"every template and every number of args and fragments, on first and repeated builds",
 "No test builds a fragment with an unused item, and the condition depends on which items each template happens to touch.",
 ["build.go","context_fragment.go","properties.go","property.go"],
 [("checkUsage after building","build.go, context_fragment.go, properties.go"),("used flag set when a property is built","property.go")])
p("C08","No error is lost",
 "If building any part of a fragment or query fails - a nested fragment or builder, a preprocessing or custom function, a reference - then the whole build fails with an error that wraps the cause, and the query and args returned are empty. The one exception is the out-of-range index by which #join finds the end of an open range.",
 ["inputs","fault_sequences","programs"],"every position at which a nested part can fail, in every nesting, including inside #join",
 "The tests contain a single failing build; failures can arise at every call site and depth.",
 ["build.go","func_builtin.go","func_exec.go","properties.go","errors.go","sqlb/query_builder_build.go"],
 [("errors are returned at once and wrapped","build.go, func_exec.go, sqlb/query_builder_build.go"),("isOutOfRange tells the end of a range from a nested failure","errors.go")])
p("C09","#join concatenates exactly the requested items",
 "#join(template, separator[, from[, to]]) builds the template once for each index from 'from' (1 if absent) up to 'to', or up to the last index its first function accepts, in increasing order, and returns the non-empty results in that order with the separator between each two of them and nowhere else. An explicitly requested index that is out of range, an invalid range, a template without function, or a function that cannot be joined is an error.",
 ["inputs"],"every template, separator, number of items, range, and pattern of empty items",
 "The tests join two to four non-empty items; empty items, ranges and boundaries combine without bound.",
 ["func_builtin.go","func.go"],
 [("funcJoin loop","func_builtin.go"),("joinCompatibility","func.go")])
p("C10","Custom functions run only as declared",
 "Registration accepts a function only with a name a template can call and a supported signature. A call reaches the function registered under that name in the innermost context that has it, with the build context first if declared and exactly the given arguments converted to the declared types; a wrong number or kind of arguments, an unknown name, or a panic inside the function yields an error, never a panic of the build.",
 ["inputs","programs"],"every function signature, every argument list, every chain of contexts",
 "The tests register two functions; arity, kinds and variadics form an unbounded space.",
 ["func.go","func_exec.go","context_func.go","contex_with.go"],
 [("addValueFuncs, goodName, goodFunc","func.go"),("evalCall, evalArg, safeCall","func_exec.go"),("fn() looks up the nearest context","context_func.go")])
p("C11","Prefix and suffix appear only around content",
 "A fragment whose built body is empty or only white space builds to the empty string, without prefix or suffix. Otherwise the result is the trimmed body, preceded by the prefix and one space if a prefix is set, and followed by one space and the suffix if a suffix is set.",
 ["inputs"],"every body, prefix and suffix, at every nesting level",
 "Two tests, with one prefix and suffix each.",
 ["build.go"],[("BuildFragment header/footer","build.go")])
p("C12","Building does not modify what is built",
 "Building a fragment or a query leaves the fragment, the query builder and everything they were given unchanged, so that building again in a fresh context gives the same query and args; adding items to a fragment or builder changes that object only, never a slice or fragment the caller passed in.",
 ["histories","programs"],"every sequence of builder calls and builds, with fragments and slices shared between owners",
 "Each test builds once; mutation shows only on a second build or through an alias.",
 ["build.go","fragment.go","sqlb/query_builder_build.go","sqlb/query_builder_order.go","sqlb/query_builder_join.go","util/scan.go"],
 [("building works on fresh contexts and local copies","build.go, context_fragment.go, sqlb/query_builder_build.go"),("AppendArgs/AppendFragments never append in place","fragment.go")])
p("C13","QueryBuilder emits every clause, in SQL order",
 "A built query consists, in this order and separated by single spaces, of the WITH clause if a CTE is needed, SELECT (DISTINCT if asked) with the selected columns, FROM with the main table and the kept joins in the order given, WHERE with all conditions joined by AND, GROUP BY, ORDER BY, LIMIT and OFFSET if positive, and the UNIONs; each appears exactly when it was asked for and is not empty. With DISTINCT every order column is also selected under an alias and ordered by it. No selected column, no main table, an invalid order or a recorded error makes the build fail.",
 ["inputs","histories"],"every configuration of the builder and every sequence of builder calls",
 "The tests cover five configurations of about a dozen independent features.",
 ["sqlb/query_builder_build.go","sqlb/query_builder.go","sqlb/query_builder_order.go","sqlb/query_builder_where.go","sqlb/query_builder_join.go"],
 [("buildInternal","sqlb/query_builder_build.go"),("buildSelects, buildFrom, buildOrders, buildUnion","sqlb")])
p("C14","Join elimination never removes a needed table",
 "A join is left out only if the query is DISTINCT, the join was declared optional, and no selected, filtered, grouped or ordered column nor the condition of any join that is kept refers to it, directly or through other joins. A query that refers to a table that was never joined fails instead of being built.",
 ["inputs","programs"],"every set of joins, of optional marks and every reference graph between them",
 "The tests have two tables at most; reachability over arbitrary join graphs, including cycles, cannot be sampled.",
 ["sqlb/query_builder_dependecy.go","sqlb/query_builder_build.go"],
 [("collectDependencies, collectDepsFromTable, extractTables","sqlb/query_builder_dependecy.go"),("buildFrom skips trimmed joins","sqlb/query_builder_build.go")],
 [("deps","required tables","sqlb/query_builder_dependecy.go")])
p("C15","Exactly the needed CTEs are emitted, in declared order",
 "The WITH clause contains a CTE if and only if a table that is kept in FROM has its name or another emitted CTE declares it as a dependency, transitively; the CTEs appear in the order they were declared, each as name AS (query).",
 ["inputs","programs"],"every set of CTEs, dependency graph (cycles included), aliasing, and trimming of joins",
 "The tests have one needed and one unneeded CTE without dependencies.",
 ["sqlb/query_builder_dependecy.go","sqlb/query_builder_build.go","sqlb/query_builder_with.go"],
 [("collectDepsFromCTE","sqlb/query_builder_dependecy.go"),("buildCTEs","sqlb/query_builder_build.go")])
p("C16","Flattening keeps every value, in order",
 "Flattening a list of values yields, in order, each value that is not a slice or array, and the elements of each slice, array or non-nil pointer to one, one level deep, with their values and types unchanged; nil and nil pointers count as values; nothing is added, dropped or reordered, and it never panics.",
 ["inputs"],"every list of values, every element type and length, nil slices and nil pointers",
 "The tests use a handful of non-empty literals over int and string; there are twenty type cases.",
 ["util/args.go"],[("ArgsFlatted, argsFrom, Ttoa, convertArrayReflect","util/args.go")])
p("C17","Interpolation replaces each placeholder by its own literal",
 "Interpolating a query copies all plain text and replaces each placeholder by the literal of the arg it denotes: NULL, TRUE/FALSE, integers in decimal, floats without loss, times in the chosen format, and strings as one quoted literal with every quote doubled, so that no string can end its literal. A placeholder without arg, a failing or unsupported value yields an error, never a panic.",
 ["inputs"],"every query, arg list and value kind, every string content",
 "One test with one string without quotes and one time.",
 ["util/interpolate.go"],[("Interpolate, encodeValue, quoteStringValue","util/interpolate.go")])
p("C18","Row scanning returns every row or an error",
 "Scanning a query returns one result per row, in row order, or an error: a failure to build or run the query, to scan a row, or to fetch further rows is always reported and never yields partial results; the rows are closed in every case. Extra columns of a row are dropped without touching the destinations or the caller's slice, and counting returns the count, zero for no row, or the error.",
 ["inputs","fault_sequences"],"every number of rows and columns and every point at which the driver can fail",
 "No test has a database; the examples never run a query.",
 ["util/scan.go"],[("Scan, ScanRow, Count, ScanBuilder, CountBuilder","util/scan.go")])
p("C19","Tables and columns are registered and named as given",
 "A column of a table is rendered as the name the table goes by (its alias if any) and the column name joined by a dot, an anonymous column as its name alone. From sets the main table; each join adds its table under the name it goes by, or replaces in place the join of that name; after every sequence of calls the tables of a builder and their names correspond one to one, and a clash with the main table or an empty name is reported by the build.",
 ["histories","inputs"],"every sequence of From and join calls with arbitrary names and aliases",
 "The tests call From once and never join the same name twice.",
 ["sqlb/table.go","sqlb/table_aliased.go","sqlb/table_column.go","sqlb/query_builder_join.go"],
 [("From, join","sqlb/query_builder_join.go"),("AppliedName, Column, preBuildColumn","sqlb/table.go, sqlb/table_aliased.go")],
 [("tables, tablesDict","joins in order and by name","sqlb/query_builder.go")])
for d in P:
    assert len(d["title"])<=80,d["title"]
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
print(len(P))
