SEEDS=[
dict(id="c01-valid-utf8", prop="C01", needs="plain text with bytes that are not UTF-8 (a Latin-1 literal, say)", breaks="invalid bytes of the template are replaced when it is built",
 edits=[("build.go","			b.WriteString(expr.Text)\n","			b.WriteString(strings.ToValidUTF8(expr.Text, \"\\uFFFD\"))\n")],
 demo='''q, _, err := sqlf.F("SELECT 'caf\\xe9'").BuildQuery(syntax.Dollar)
	if err != nil || q != "SELECT 'caf\\xe9'" {
		fail("%q %v", q, err)
	}'''),
dict(id="c01-close-quote", prop="C01", needs="a template that ends within a quoted string", breaks="an unterminated quoted string gets a closing quote that is not in the template",
 edits=[("syntax/parser.go","			p.c.ExprList = append(p.c.ExprList, &PlainExpr{\n				Text: p.token.lit,\n","			text := p.token.lit\n			if p.token.bad {\n				text += text[:1]\n			}\n			p.c.ExprList = append(p.c.ExprList, &PlainExpr{\n				Text: text,\n")],
 demo='''c, err := syntax.Parse("'a")
	if err != nil || len(c.ExprList) != 1 || c.ExprList[0].(*syntax.PlainExpr).Text != "'a" {
		fail("%v %v", c.ExprList[0], err)
	}'''),
dict(id="c02-lone-quote-arg", prop="C02", needs="a template that ends with the opening quote of an argument", breaks="parsing slices [1:0] and panics",
 edits=[("syntax/parser.go","			if p.token.bad {\n","			if p.token.bad && len(p.token.lit) > 1 {\n")],
 demo='''defer func() {
		if r := recover(); r != nil {
			fail("panic: %v", r)
		}
	}()
	syntax.Parse("#f('")'''),
dict(id="c02-open-args", prop="C02", needs="a template that ends right after white space inside an argument list", breaks="parsing never returns",
 edits=[("syntax/scanner.go","			return scanFuncArgs\n		}\n	}\n	return scanPlain\n","			return scanFuncArgs\n		}\n	}\n	if s.IsWhitespace() || s.current.offset > 0 && s.input[s.current.offset-1] == ' ' {\n		return scanFuncArgs\n	}\n	return scanPlain\n")],
 demo='''done := make(chan bool)
	go func() {
		syntax.Parse("#f(1, ")
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		fail("parsing does not return")
	}'''),
dict(id="c03-index-32", prop="C03", needs="a bind variable with an index of 2^32 or more", breaks="the index of a variable is cut to 32 bits, so it refers to another arg",
 edits=[("syntax/parser.go","		index = int(val)\n","		index = int(uint32(val))\n")],
 demo='''c, err := syntax.Parse("$4294967297")
	if err == nil && c.ExprList[0].(*syntax.BindVarExpr).Index == 1 {
		fail("refers to 1")
	}'''),
dict(id="c03-trim-quotes", prop="C03", needs="a string argument that begins or ends with a doubled quote", breaks="quotes of the argument itself are lost",
 edits=[("syntax/parser.go","strings.ReplaceAll(p.token.lit[1:len(p.token.lit)-1], \"''\", \"'\")","strings.ReplaceAll(strings.Trim(p.token.lit, \"'\"), \"''\", \"'\")")],
 demo="""c, err := syntax.Parse("#f('it''s', '''x''')")
	if err != nil || c.ExprList[0].(*syntax.FuncCallExpr).Args[1] != "'x'" {
		fail("%v %v", c, err)
	}"""),
dict(id="c03-backslash", prop="C03", needs="a quoted string that ends with a backslash, before a bind variable", breaks="a backslash hides the closing quote, so what follows is taken as part of the string",
 edits=[("syntax/scanner.go","	for r := s.Next(); r != EOF; r = s.Next() {\n		if r == quoter {\n			if quoter == '\\'' && s.Peek() == '\\'' {\n				s.Next()\n				continue\n			}\n			s.Next()\n			s.emitToken(_Plain","	for r := s.Next(); r != EOF; r = s.Next() {\n		if r == '\\\\' {\n			s.Next()\n			continue\n		}\n		if r == quoter {\n			if quoter == '\\'' && s.Peek() == '\\'' {\n				s.Next()\n				continue\n			}\n			s.Next()\n			s.emitToken(_Plain")],
 demo='''c, err := syntax.Parse("'\\\\' ?")
	if err != nil || len(c.ExprList) != 3 {
		fail("%v %v", len(c.ExprList), err)
	}'''),
]
