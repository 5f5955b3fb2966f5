SEEDS=[
dict(id="c05-dict-numbering", prop="C05", needs="dollar style and an unhashable value ([]byte) committed before another value", breaks="the number of an arg is taken from the dictionary, which lacks the unhashable values, so it denotes another arg",
 edits=[("context_args.go","	i := len(s.args) + 1\n","	i := len(s.dict) + 1\n")],
 demo='''q, args, err := sqlf.Fa("?, ?, ?", 1, []byte("x"), 2).BuildQuery(syntax.Dollar)
	if err != nil || q != "$1, $2, $3" || len(args) != 3 {
		fail("%q %v %v", q, args, err)
	}'''),
dict(id="c05-question-repeat", prop="C05", needs="question style and two nil values in a row", breaks="the second of two equal nil values in a row is not committed",
 edits=[("context_args.go","	s.args = append(s.args, arg)\n	return \"?\"\n","	if n := len(s.args); arg == nil && n > 0 && s.args[n-1] == nil {\n		return \"?\"\n	}\n	s.args = append(s.args, arg)\n	return \"?\"\n")],
 demo='''ctx := sqlf.NewContext(syntax.Question)
	ctx.CommitArg(1)
	ctx.CommitArg(nil)
	ctx.CommitArg(nil)
	if len(ctx.Args()) != 3 {
		fail("%v", ctx.Args())
	}'''),
dict(id="c06-from-the-end", prop="C06", needs="a negative index like #arg(-1)", breaks="a negative index counts from the end instead of failing",
 edits=[("properties.go","	if i < 1 || i > len(p) {\n","	if i < 0 {\n		i += len(p) + 1\n	}\n	if i < 1 || i > len(p) {\n")],
 demo='''p := sqlf.NewArgsProperties(1, 2)
	s, err := p.Build(sqlf.NewContext(syntax.Dollar), -1)
	if err == nil {
		fail("%q", s)
	}'''),
dict(id="c07-blank-body", prop="C07", needs="a fragment with unused items whose template builds to white space", breaks="the usage check is skipped when the body is empty",
 edits=[("build.go","	if err := fc.checkUsage(); err != nil {\n		return \"\", fmt.Errorf(\"build '%s': %w\", f.Raw, err)\n	}\n	body = strings.TrimSpace(body)\n	if body == \"\" {\n		return \"\", nil\n	}\n","	body = strings.TrimSpace(body)\n	if body == \"\" {\n		return \"\", nil\n	}\n	if err := fc.checkUsage(); err != nil {\n		return \"\", fmt.Errorf(\"build '%s': %w\", f.Raw, err)\n	}\n")],
 demo='''_, _, err := sqlf.Fa(" ", 1).BuildQuery(syntax.Dollar)
	if err == nil {
		fail("an unused arg is accepted")
	}'''),
dict(id="c08-value-and-error", prop="C08", needs="a custom function that returns both a string and an error", breaks="the error of a function that also returns a value is dropped",
 edits=[("func_exec.go","		return rVal, rErr\n","		if rVal != \"\" && rErr != ErrInvalidIndex {\n			return rVal, nil\n		}\n		return rVal, rErr\n")],
 demo='''ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Dollar), sqlf.FuncMap{"bad": func() (string, error) { return "partial", errors.New("bad") }})
	if err != nil {
		fail("%v", err)
	}
	s, err := sqlf.F("#bad()").BuildFragment(ctx)
	if err == nil {
		fail("%q", s)
	}'''),
dict(id="c08-join-later-error", prop="C08", needs="an open #join whose item after the first fails", breaks="an error at a later index of an open range ends the range silently",
 edits=[("func_builtin.go","		if err != nil {\n			return \"\", err\n		}\n		if s != \"\" {\n","		if err != nil {\n			if to <= 0 && i > start && b.Len() > 0 {\n				break\n			}\n			return \"\", err\n		}\n		if s != \"\" {\n")],
 demo='''q, _, err := sqlf.Ff("#join('#f', ',')", sqlf.F("a"), sqlf.F("#nosuch()")).BuildQuery(syntax.Dollar)
	if err == nil {
		fail("%q", q)
	}'''),
dict(id="c09-leading-separator", prop="C09", needs="a #join whose first item is empty", breaks="the separator is written before the first non-empty item",
 edits=[("func_builtin.go","			if b.Len() > 0 {\n","			if i > start {\n")],
 demo='''q, _, err := sqlf.Ff("#join('#f', ',')", sqlf.F(""), sqlf.F("a")).BuildQuery(syntax.Dollar)
	if err != nil || q != "a" {
		fail("%q %v", q, err)
	}'''),
dict(id="c09-last-out-of-range", prop="C09", needs="a closed range that ends one above the last item", breaks="the last index of a closed range may be out of range without error",
 edits=[("func_builtin.go","(to > 0 && i <= to) {","(to > 0 && i < to) {")],
 demo='''q, _, err := sqlf.Fa("#join('#arg', ',', 1, 3)", 1, 2).BuildQuery(syntax.Dollar)
	if err == nil {
		fail("%q", q)
	}'''),
dict(id="c10-root-first", prop="C10", needs="a derived context that overrides a function of the root (like arg)", breaks="the function of the outermost context wins over the innermost",
 edits=[("context_func.go","	return contextValue(c, func(c *Context) (*funcInfo, bool) {\n","	if fn, ok := c.root().funcs[name]; ok {\n		return fn, true\n	}\n	return contextValue(c, func(c *Context) (*funcInfo, bool) {\n")],
 demo='''ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Dollar), sqlf.FuncMap{"f": func(i int) string { return "mine" }})
	if err != nil {
		fail("%v", err)
	}
	s, err := sqlf.F("#f1").BuildFragment(ctx)
	if err != nil || s != "mine" {
		fail("%q %v", s, err)
	}'''),
dict(id="c10-panic-value", prop="C10", needs="a custom function that panics with a value that is neither error nor string", breaks="such a panic escapes from the build",
 edits=[("func_exec.go","			} else {\n				err = fmt.Errorf(\"%v\", r)\n			}\n","			} else if s, ok := r.(string); ok {\n				err = fmt.Errorf(\"%s\", s)\n			} else {\n				panic(r)\n			}\n")],
 demo='''ctx, err := sqlf.ContextWithFuncs(sqlf.NewContext(syntax.Dollar), sqlf.FuncMap{"bad": func() string { panic(7) }})
	if err != nil {
		fail("%v", err)
	}
	defer func() {
		if r := recover(); r != nil {
			fail("panics: %v", r)
		}
	}()
	if _, err = sqlf.F("#bad()").BuildFragment(ctx); err == nil {
		fail("no error")
	}'''),
dict(id="c11-prefix-present", prop="C11", needs="a body that starts with the text of the prefix", breaks="the prefix is left out when the body happens to start with it",
 edits=[("build.go","	if f.Prefix != \"\" {\n","	if f.Prefix != \"\" && !strings.HasPrefix(body, f.Prefix) {\n")],
 demo='''s, _, err := sqlf.F("ORDERS").WithPrefix("ORDER").BuildQuery(syntax.Dollar)
	if err != nil || s != "ORDER ORDERS" {
		fail("%q %v", s, err)
	}'''),
dict(id="c11-blank-suffix", prop="C11", needs="a suffix that consists of white space or ends with it", breaks="the result is trimmed after adding the suffix",
 edits=[("build.go","	return header + body + footer, nil\n","	return strings.TrimSpace(header + body + footer), nil\n")],
 demo='''s, _, err := sqlf.F("a").WithSuffix("b\\n").BuildQuery(syntax.Dollar)
	if err != nil || s != "a b\\n" {
		fail("%q %v", s, err)
	}'''),
dict(id="c04-empty-literal", prop="C04", needs="an arg that is the empty string", breaks="an empty string is written as a literal but committed all the same, so the args shift by one",
 edits=[("properties.go","	return built, nil\n","	if c.any == \"\" {\n		return \"''\", nil\n	}\n	return built, nil\n")],
 demo='''q, args, err := sqlf.Fa("?, ?", "", 2).BuildQuery(syntax.Question)
	if err != nil || strings.Count(q, "?") != len(args) {
		fail("%q %v %v", q, args, err)
	}'''),
dict(id="c06-enclosing-args", prop="C06", needs="a nested fragment without args whose template has a bind variable", breaks="a bind variable of a fragment without args resolves in the enclosing fragment",
 edits=[("build.go","			if expr.Index < 1 || expr.Index > len(fc.Args) {\n","			if outer, ok := ctx.parent.fragment(); ok && len(fc.Args) == 0 {\n				fc = outer\n			}\n			if expr.Index < 1 || expr.Index > len(fc.Args) {\n")],
 demo='''f := &sqlf.Fragment{Raw: "? #f1", Args: []any{1}, Fragments: []sqlf.FragmentBuilder{sqlf.F("$1")}}
	q, args, err := f.BuildQuery(syntax.Dollar)
	if err == nil {
		fail("%q %v", q, args)
	}'''),
dict(id="c07-last-only", prop="C07", needs="a template that refers to the last item but not to an earlier one", breaks="only the last item is checked for usage",
 edits=[("properties.go","		if !prop.Used() {\n","		if i == len(p)-1 && !prop.Used() {\n")],
 demo='''_, _, err := sqlf.Fa("$2", 1, 2).BuildQuery(syntax.Dollar)
	if err == nil {
		fail("an unused arg is accepted")
	}'''),
]
