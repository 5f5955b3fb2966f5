From 62af671365bb7334eae404d3c4b586fee8befa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:56 +0000
Subject: [PATCH 01/27] fix: don't truncate the input at a NUL character

---
 syntax/lexer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/syntax/lexer.go b/syntax/lexer.go
index 285bdc6..7e3ad61 100644
--- a/syntax/lexer.go
+++ b/syntax/lexer.go
@@ -5,8 +5,9 @@ import (
 	"unicode/utf8"
 )
 
-// EOF is the EOF rune
-const EOF rune = 0
+// EOF is the EOF rune, it's not a valid rune so that
+// it never equals to any rune of the input.
+const EOF rune = -1
 
 // lexerHelper is the lexical analyzer
 type lexerHelper struct {
-- 
2.43.0


From a19bef748d731761ebd1f68d0cc08e5faebc4395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:57 +0000
Subject: [PATCH 02/27] fix: reject mixed bindvar styles when $ comes before ?

---
 syntax/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syntax/parser.go b/syntax/parser.go
index add16a3..6183013 100644
--- a/syntax/parser.go
+++ b/syntax/parser.go
@@ -84,7 +84,7 @@ func (p *parser) bindVarExpr() (Expr, error) {
 	case "$":
 		t = Dollar
 		p.bindVarIndex++
-		if p.bindVarStyle == 0 {
+		if p.bindVarIndex == 1 {
 			p.bindVarStyle = t
 		}
 		if p.bindVarStyle != t {
@@ -93,7 +93,7 @@ func (p *parser) bindVarExpr() (Expr, error) {
 	case "?":
 		t = Question
 		p.bindVarIndex++
-		if p.bindVarStyle == 0 {
+		if p.bindVarIndex == 1 {
 			p.bindVarStyle = t
 		}
 		if p.bindVarStyle != t {
-- 
2.43.0


From 1b6c334f00cc78be3c04766b4185daf02cf64645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:58 +0000
Subject: [PATCH 03/27] fix: don't swallow the bindvar or function following a
 #func

---
 syntax/parser.go  | 7 ++-----
 syntax/scanner.go | 5 +++++
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/syntax/parser.go b/syntax/parser.go
index 6183013..78ddf36 100644
--- a/syntax/parser.go
+++ b/syntax/parser.go
@@ -190,18 +190,15 @@ func (p *parser) funcExpr() error {
 			},
 		)
 	default:
-		// EOF or _Plain
+		// the token doesn't belong to the function, leave it to Parse()
 		p.c.ExprList = append(
 			p.c.ExprList,
 			&FuncExpr{
 				Name: nameToken.lit,
 				expr: expr{node{pos}},
 			},
-			&PlainExpr{
-				Text: p.token.lit,
-				expr: expr{node{p.token.pos}},
-			},
 		)
+		p.unreadToken()
 	}
 
 	return nil
diff --git a/syntax/scanner.go b/syntax/scanner.go
index 915cff5..8044720 100644
--- a/syntax/scanner.go
+++ b/syntax/scanner.go
@@ -47,6 +47,11 @@ func (s *scanner) NextToken() bool {
 	return false
 }
 
+// unreadToken puts the current token back, to be returned by NextToken again.
+func (s *scanner) unreadToken() {
+	s.tokens = append([]*token{s.token}, s.tokens...)
+}
+
 func scanPlain(s *scanner) scanFn {
 	s.StartToken()
 	for r := s.rune; r != EOF; r = s.Next() {
-- 
2.43.0


From 9a5c8f6576918b0dcc9fe8c936a11f605209a3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:15 +0000
Subject: [PATCH 04/27] fix: report an error instead of panicking when a number
 is passed to a non-number argument

---
 func_exec.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/func_exec.go b/func_exec.go
index bbd6399..29d9d4e 100644
--- a/func_exec.go
+++ b/func_exec.go
@@ -116,7 +116,9 @@ func evalArg(typ reflect.Type, arg any) (reflect.Value, error) {
 		uint, uint8, uint16, uint32, uint64,
 		float32, float64:
 		argType = "number"
-		v = reflect.ValueOf(arg).Convert(typ)
+		if numberType(typ.Kind()) {
+			v = reflect.ValueOf(arg).Convert(typ)
+		}
 	case bool:
 		argType = "bool"
 		if typ.Kind() == reflect.Bool {
-- 
2.43.0


From d7696cab7c77ca3f2963eb8f1fe5a14522cbb373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:16 +0000
Subject: [PATCH 05/27] fix: convert string and bool arguments to the named
 types accepted at registration

---
 func_exec.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/func_exec.go b/func_exec.go
index 29d9d4e..25a0d40 100644
--- a/func_exec.go
+++ b/func_exec.go
@@ -122,12 +122,12 @@ func evalArg(typ reflect.Type, arg any) (reflect.Value, error) {
 	case bool:
 		argType = "bool"
 		if typ.Kind() == reflect.Bool {
-			v = reflect.ValueOf(arg)
+			v = reflect.ValueOf(arg).Convert(typ)
 		}
 	case string:
 		argType = "string"
 		if typ.Kind() == reflect.String {
-			v = reflect.ValueOf(arg)
+			v = reflect.ValueOf(arg).Convert(typ)
 		}
 	case nil:
 		argType = "nil"
-- 
2.43.0


From 18fcf3119cb6d242126b0f400dbbe14cda81ae08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:33 +0000
Subject: [PATCH 06/27] fix: accept unhashable args, e.g. []byte, in the dollar
 style

---
 context_args.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/context_args.go b/context_args.go
index 7a7d6e9..299ad98 100644
--- a/context_args.go
+++ b/context_args.go
@@ -55,11 +55,28 @@ func (s *dollarArgStore) Args() []any {
 }
 
 func (s *dollarArgStore) CommitArg(arg any) string {
-	if i, ok := s.dict[arg]; ok {
-		return "$" + strconv.Itoa(i)
+	hashable := isHashable(arg)
+	if hashable {
+		if i, ok := s.dict[arg]; ok {
+			return "$" + strconv.Itoa(i)
+		}
 	}
 	i := len(s.args) + 1
-	s.dict[arg] = i
+	if hashable {
+		s.dict[arg] = i
+	}
 	s.args = append(s.args, arg)
 	return "$" + strconv.Itoa(i)
 }
+
+// isHashable reports whether the arg can be used as a map key,
+// e.g.: []byte is not hashable.
+func isHashable(arg any) (hashable bool) {
+	defer func() {
+		if recover() != nil {
+			hashable = false
+		}
+	}()
+	_, _ = map[any]int{}[arg]
+	return true
+}
-- 
2.43.0


From e2b356b8adb4e6cb3a0134791c3c69097b3899cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:34 +0000
Subject: [PATCH 07/27] fix: report an error instead of panicking when
 interpolating a missing arg

---
 util/interpolate.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/interpolate.go b/util/interpolate.go
index 7149284..b304ef8 100644
--- a/util/interpolate.go
+++ b/util/interpolate.go
@@ -54,6 +54,9 @@ func Interpolate(query string, args []any, options ...InterpolateOption) (string
 		case *syntax.PlainExpr:
 			b.WriteString(decl.Text)
 		case *syntax.BindVarExpr:
+			if decl.Index < 1 || decl.Index > len(args) {
+				return "", fmt.Errorf("%s: invalid bind var index %d", decl.Pos(), decl.Index)
+			}
 			v, err := encodeValue(args[decl.Index-1], opts)
 			if err != nil {
 				return "", err
-- 
2.43.0


From f149439670fb43140f255faeffddf8f85dc4e798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:35 +0000
Subject: [PATCH 08/27] fix: don't let #join swallow the index errors of nested
 fragments

---
 build.go        |  2 +-
 errors.go       | 18 ++++++++++++++++++
 func_builtin.go |  3 +--
 properties.go   |  6 +++++-
 4 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/build.go b/build.go
index e6cb984..1b36fce 100644
--- a/build.go
+++ b/build.go
@@ -63,7 +63,7 @@ func build(ctx *Context, fragment *Fragment) (string, error) {
 	}
 	built, err := buildClause(ctx, clause)
 	if err != nil {
-		return "", fmt.Errorf("build '%s': %w", fragment.Raw, err)
+		return "", fmt.Errorf("build '%s': %w", fragment.Raw, &nestedError{err})
 	}
 	return built, nil
 }
diff --git a/errors.go b/errors.go
index d99120b..bef380e 100644
--- a/errors.go
+++ b/errors.go
@@ -7,3 +7,21 @@ var (
 	// It's a required behaviour for a custom #func to be compatible with #join.
 	ErrInvalidIndex = errors.New("invalid index")
 )
+
+// nestedError is an error occurred while building the content a reference
+// refers to, as opposed to an error of the reference itself.
+type nestedError struct {
+	error
+}
+
+// Unwrap returns the wrapped error.
+func (e *nestedError) Unwrap() error {
+	return e.error
+}
+
+// isOutOfRange reports whether the err tells the index of the reference is
+// invalid. An ErrInvalidIndex from the nested content doesn't count.
+func isOutOfRange(err error) bool {
+	var nested *nestedError
+	return errors.Is(err, ErrInvalidIndex) && !errors.As(err, &nested)
+}
diff --git a/func_builtin.go b/func_builtin.go
index f2b8b85..0406713 100644
--- a/func_builtin.go
+++ b/func_builtin.go
@@ -1,7 +1,6 @@
 package sqlf
 
 import (
-	"errors"
 	"fmt"
 	"strings"
 
@@ -70,7 +69,7 @@ func funcJoin(ctx *Context, tmpl, separator string, indexes ...int) (string, err
 			call.Args = []any{i}
 		}
 		s, err := buildClause(ctx, c)
-		if errors.Is(err, ErrInvalidIndex) {
+		if isOutOfRange(err) {
 			if (from > 0 && i == from) ||
 				(to > 0 && i <= to) {
 				// report index error only if explicitly specified
diff --git a/properties.go b/properties.go
index cde4a8a..8c41944 100644
--- a/properties.go
+++ b/properties.go
@@ -15,7 +15,11 @@ func (p Properties) Build(ctx *Context, i int) (string, error) {
 	if i < 1 || i > len(p) {
 		return "", fmt.Errorf("%w: %d", ErrInvalidIndex, i)
 	}
-	return p[i-1].BuildFragment(ctx)
+	s, err := p[i-1].BuildFragment(ctx)
+	if err != nil {
+		return "", &nestedError{err}
+	}
+	return s, nil
 }
 
 // checkUsage checks if all properties are used.
-- 
2.43.0


From f2b137f9348166c22d005eb55f4cf27f5d127454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:05 +0000
Subject: [PATCH 09/27] fix: discard the args of the incomplete item that ends
 a #join

---
 context_args.go | 19 +++++++++++++++++++
 func_builtin.go |  3 +++
 2 files changed, 22 insertions(+)

diff --git a/context_args.go b/context_args.go
index 299ad98..fafdf5e 100644
--- a/context_args.go
+++ b/context_args.go
@@ -17,9 +17,15 @@ func (c *Context) CommitArg(arg any) string {
 	return c.root().argStore.CommitArg(arg)
 }
 
+// discardArgs discards the args committed after the first n ones.
+func (c *Context) discardArgs(n int) {
+	c.root().argStore.DiscardArgs(n)
+}
+
 type argStore interface {
 	Args() []any
 	CommitArg(arg any) string
+	DiscardArgs(n int)
 }
 
 type questionArgStore struct {
@@ -39,6 +45,10 @@ func (s *questionArgStore) CommitArg(arg any) string {
 	return "?"
 }
 
+func (s *questionArgStore) DiscardArgs(n int) {
+	s.args = s.args[:n]
+}
+
 type dollarArgStore struct {
 	args []any
 	dict map[any]int
@@ -69,6 +79,15 @@ func (s *dollarArgStore) CommitArg(arg any) string {
 	return "$" + strconv.Itoa(i)
 }
 
+func (s *dollarArgStore) DiscardArgs(n int) {
+	for _, arg := range s.args[n:] {
+		if isHashable(arg) {
+			delete(s.dict, arg)
+		}
+	}
+	s.args = s.args[:n]
+}
+
 // isHashable reports whether the arg can be used as a map key,
 // e.g.: []byte is not hashable.
 func isHashable(arg any) (hashable bool) {
diff --git a/func_builtin.go b/func_builtin.go
index 0406713..18745c3 100644
--- a/func_builtin.go
+++ b/func_builtin.go
@@ -68,6 +68,7 @@ func funcJoin(ctx *Context, tmpl, separator string, indexes ...int) (string, err
 		for _, call := range calls {
 			call.Args = []any{i}
 		}
+		nArgs := len(ctx.Args())
 		s, err := buildClause(ctx, c)
 		if isOutOfRange(err) {
 			if (from > 0 && i == from) ||
@@ -75,6 +76,8 @@ func funcJoin(ctx *Context, tmpl, separator string, indexes ...int) (string, err
 				// report index error only if explicitly specified
 				return "", err
 			}
+			// the incomplete item is dropped, so are its args
+			ctx.discardArgs(nArgs)
 			break
 		}
 		if err != nil {
-- 
2.43.0


From 450ef6f8715b86a04b08b127872bee9c3d865261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:06 +0000
Subject: [PATCH 10/27] fix: don't let #join silently drop a partially
 available item

---
 build.go        |  2 +-
 errors.go       | 23 ++++++++++++++++++++++-
 func_builtin.go |  4 ++++
 3 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/build.go b/build.go
index 1b36fce..f26f383 100644
--- a/build.go
+++ b/build.go
@@ -91,7 +91,7 @@ func buildClause(ctx *Context, clause *syntax.Clause) (string, error) {
 		case *syntax.FuncCallExpr:
 			s, err := evalFunction(ctx, expr.Name, expr.Args)
 			if err != nil {
-				return "", err
+				return "", &callError{err, expr}
 			}
 			b.WriteString(s)
 		case *syntax.FuncExpr:
diff --git a/errors.go b/errors.go
index bef380e..b31a146 100644
--- a/errors.go
+++ b/errors.go
@@ -1,6 +1,10 @@
 package sqlf
 
-import "errors"
+import (
+	"errors"
+
+	"github.com/qjebbs/go-sqlf/v2/syntax"
+)
 
 var (
 	// ErrInvalidIndex is returned when the reference index is invalid.
@@ -25,3 +29,20 @@ func isOutOfRange(err error) bool {
 	var nested *nestedError
 	return errors.Is(err, ErrInvalidIndex) && !errors.As(err, &nested)
 }
+
+// callError is an error of calling a preprocessing function.
+type callError struct {
+	error
+	call *syntax.FuncCallExpr
+}
+
+// Unwrap returns the wrapped error.
+func (e *callError) Unwrap() error {
+	return e.error
+}
+
+// isErrorOf reports whether the err is reported by the call.
+func isErrorOf(err error, call *syntax.FuncCallExpr) bool {
+	var e *callError
+	return errors.As(err, &e) && e.call == call
+}
diff --git a/func_builtin.go b/func_builtin.go
index 18745c3..dabd33c 100644
--- a/func_builtin.go
+++ b/func_builtin.go
@@ -76,6 +76,10 @@ func funcJoin(ctx *Context, tmpl, separator string, indexes ...int) (string, err
 				// report index error only if explicitly specified
 				return "", err
 			}
+			if !isErrorOf(err, calls[0]) {
+				// the item is partially available, don't drop it silently
+				return "", err
+			}
 			// the incomplete item is dropped, so are its args
 			ctx.discardArgs(nArgs)
 			break
-- 
2.43.0


From f3e5ab2e2f0488cad3c3ca0e2c7012ddad2fedec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:24 +0000
Subject: [PATCH 11/27] fix: report an error instead of panicking or building
 invalid SQL without a FROM table

---
 sqlb/query_builder_dependecy.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlb/query_builder_dependecy.go b/sqlb/query_builder_dependecy.go
index b667e6d..d431744 100644
--- a/sqlb/query_builder_dependecy.go
+++ b/sqlb/query_builder_dependecy.go
@@ -1,6 +1,7 @@
 package sqlb
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/qjebbs/go-sqlf/v2"
@@ -8,6 +9,9 @@ import (
 
 // collectDependencies collects the dependencies of the tables.
 func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, error) {
+	if len(b.tables) == 0 || b.tables[0].Fragment == nil {
+		return nil, errors.New("no from table")
+	}
 	builders := []sqlf.FragmentBuilder{
 		b.selects,
 		b.touches,
-- 
2.43.0


From 3f47297db28ecb7c1d8c3e7bcef015a8fde8dd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:24 +0000
Subject: [PATCH 12/27] fix: don't panic on nil fragments when collecting
 dependencies

---
 sqlb/query_builder_dependecy.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sqlb/query_builder_dependecy.go b/sqlb/query_builder_dependecy.go
index d431744..4925b22 100644
--- a/sqlb/query_builder_dependecy.go
+++ b/sqlb/query_builder_dependecy.go
@@ -95,7 +95,9 @@ func extractTables2(fragments []sqlf.FragmentBuilder, tables *[]Table, dict map[
 			continue
 		}
 		if fragment, ok := f.(*sqlf.Fragment); ok {
-			extractTables2(fragment.Fragments, tables, dict)
+			if fragment != nil {
+				extractTables2(fragment.Fragments, tables, dict)
+			}
 			continue
 		}
 		if column, ok := f.(*Column); ok && column != nil {
@@ -103,7 +105,7 @@ func extractTables2(fragments []sqlf.FragmentBuilder, tables *[]Table, dict map[
 				if !dict[column.table] {
 					collectTable(column.table, tables, dict)
 				}
-			} else {
+			} else if column.fragment != nil {
 				extractTables2(column.fragment.Fragments, tables, dict)
 			}
 			continue
-- 
2.43.0


From 9c3f9f68360ebf212b908113a39675d6d086fe59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:25 +0000
Subject: [PATCH 13/27] fix: don't panic on joins without a condition, nor
 modify the condition passed in

---
 sqlb/query_builder_join.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sqlb/query_builder_join.go b/sqlb/query_builder_join.go
index b872497..1d2e23b 100644
--- a/sqlb/query_builder_join.go
+++ b/sqlb/query_builder_join.go
@@ -103,7 +103,7 @@ func (b *QueryBuilder) join(joinStr string, t TableAliased, on *sqlf.Fragment, o
 		Names: t,
 		Fragment: sqlf.Ff(
 			fmt.Sprintf("%s %s #f1", joinStr, tableAndAlias),
-			on.WithPrefix("ON"),
+			sqlf.Ff("#f1", on).WithPrefix("ON"),
 		),
 		Optional: optional,
 	}
-- 
2.43.0


From 638a07310c985f8c10eefa88cfd5a93fbfd09bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:57 +0000
Subject: [PATCH 14/27] fix: building a QueryBuilder must not modify it, so
 that it builds the same query every time

---
 sqlb/query_builder.go           |  2 --
 sqlb/query_builder_build.go     | 17 +++++++++--------
 sqlb/query_builder_dependecy.go |  1 -
 sqlb/query_builder_order.go     | 16 +++++++++++-----
 4 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/sqlb/query_builder.go b/sqlb/query_builder.go
index ea5931a..acde3d5 100644
--- a/sqlb/query_builder.go
+++ b/sqlb/query_builder.go
@@ -15,7 +15,6 @@ type QueryBuilder struct {
 	tablesDict map[Table]*fromTable // the from tables by alias
 
 	selects    *sqlf.Fragment         // select columns and keep values in scanning.
-	touches    *sqlf.Fragment         // select columns but drop values in scanning.
 	conditions *sqlf.Fragment         // where conditions, joined with AND.
 	orders     []*orderItem           // order by columns, joined with comma.
 	groupbys   *sqlf.Fragment         // group by columns, joined with comma.
@@ -41,7 +40,6 @@ func NewQueryBuilder() *QueryBuilder {
 		ctesDict:   make(map[Table]*cte),
 		tablesDict: make(map[Table]*fromTable),
 		selects:    sqlf.F("#join('#fragment', ', ')").WithPrefix("SELECT"),
-		touches:    sqlf.F("#join('#fragment', ', ')"),
 		conditions: sqlf.F("#join('#fragment', ' AND ')").WithPrefix("WHERE"),
 		groupbys:   sqlf.F("#join('#fragment', ', ')").WithPrefix("GROUP BY"),
 	}
diff --git a/sqlb/query_builder_build.go b/sqlb/query_builder_build.go
index 5eb7693..770de51 100644
--- a/sqlb/query_builder_build.go
+++ b/sqlb/query_builder_build.go
@@ -81,7 +81,7 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 	if groupby != "" {
 		clauses = append(clauses, groupby)
 	}
-	order, err := b.buildOrders(ctx)
+	order, orderTouches, err := b.buildOrders(ctx)
 	if err != nil {
 		return "", err
 	}
@@ -94,8 +94,8 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 	if b.offset > 0 {
 		clauses = append(clauses, fmt.Sprintf(`OFFSET %d`, b.offset))
 	}
-	// select must build order, because buildOrders may add columns to touches
-	sel, err := b.buildSelects(ctx)
+	// select must build order, because buildOrders may require more columns
+	sel, err := b.buildSelects(ctx, orderTouches)
 	if err != nil {
 		return "", err
 	}
@@ -145,17 +145,18 @@ func (b *QueryBuilder) buildCTEs(ctx *sqlf.Context, dep map[TableAliased]bool) (
 	return "With " + strings.Join(clauses, ", "), nil
 }
 
-func (b *QueryBuilder) buildSelects(ctx *sqlf.Context) (string, error) {
+func (b *QueryBuilder) buildSelects(ctx *sqlf.Context, orderTouches *sqlf.Fragment) (string, error) {
+	selects := *b.selects // building should not modify the builder
 	if b.distinct {
-		b.selects.Prefix = "SELECT DISTINCT"
+		selects.Prefix = "SELECT DISTINCT"
 	} else {
-		b.selects.Prefix = "SELECT"
+		selects.Prefix = "SELECT"
 	}
-	sel, err := b.selects.BuildFragment(ctx)
+	sel, err := selects.BuildFragment(ctx)
 	if err != nil {
 		return "", err
 	}
-	touches, err := b.touches.BuildFragment(ctx)
+	touches, err := orderTouches.BuildFragment(ctx)
 	if err != nil {
 		return "", err
 	}
diff --git a/sqlb/query_builder_dependecy.go b/sqlb/query_builder_dependecy.go
index 4925b22..2fb061d 100644
--- a/sqlb/query_builder_dependecy.go
+++ b/sqlb/query_builder_dependecy.go
@@ -14,7 +14,6 @@ func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, error) {
 	}
 	builders := []sqlf.FragmentBuilder{
 		b.selects,
-		b.touches,
 		b.conditions,
 		b.groupbys,
 	}
diff --git a/sqlb/query_builder_order.go b/sqlb/query_builder_order.go
index 66d8d00..c92b46f 100644
--- a/sqlb/query_builder_order.go
+++ b/sqlb/query_builder_order.go
@@ -39,12 +39,14 @@ func (b *QueryBuilder) OrderBy(column *Column, order Order) *QueryBuilder {
 	return b
 }
 
-func (b *QueryBuilder) buildOrders(ctx *sqlf.Context) (string, error) {
+// buildOrders builds the ORDER BY clause, it returns also the extra columns to
+// be selected, which are required by the clause.
+func (b *QueryBuilder) buildOrders(ctx *sqlf.Context) (string, *sqlf.Fragment, error) {
+	touches := sqlf.F("#join('#fragment', ', ')")
 	f := sqlf.F("#join('#fragment', ', ')").WithPrefix("ORDER BY")
 	for i, item := range b.orders {
 		if item.order > DescNullsLast {
-			b.pushError(fmt.Errorf("invalid order: %d", item.order))
-			continue
+			return "", nil, fmt.Errorf("invalid order: %d", item.order)
 		}
 		if !b.distinct {
 			f.AppendFragments(sqlf.Ff(
@@ -56,10 +58,14 @@ func (b *QueryBuilder) buildOrders(ctx *sqlf.Context) (string, error) {
 		// pq: for SELECT DISTINCT, ORDER BY expressions must appear in select list
 		alias := fmt.Sprintf("_order_%d", i+1)
 		orderStr := orders[item.order]
-		b.touches.AppendFragments(sqlf.Ff("#f1 AS "+alias, item.column))
+		touches.AppendFragments(sqlf.Ff("#f1 AS "+alias, item.column))
 		f.AppendFragments(sqlf.F(
 			fmt.Sprintf("%s %s", alias, orderStr),
 		))
 	}
-	return f.BuildFragment(ctx)
+	order, err := f.BuildFragment(ctx)
+	if err != nil {
+		return "", nil, err
+	}
+	return order, touches, nil
 }
-- 
2.43.0


From 04d4d0a613d5dd5ad9ac7af2bed57bb7e46d0ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:58 +0000
Subject: [PATCH 15/27] fix: commit the args of the SELECT clause in the order
 they appear in the query

---
 sqlb/query_builder_build.go | 22 ++++++++++++----------
 sqlb/query_builder_order.go | 14 +++++---------
 2 files changed, 17 insertions(+), 19 deletions(-)

diff --git a/sqlb/query_builder_build.go b/sqlb/query_builder_build.go
index 770de51..d8b7afb 100644
--- a/sqlb/query_builder_build.go
+++ b/sqlb/query_builder_build.go
@@ -57,9 +57,17 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 		clauses = append(clauses, sq)
 	}
 
-	// reserve a position for select
-	selectAt := len(clauses)
-	clauses = append(clauses, "")
+	orders, orderTouches, err := b.buildOrders()
+	if err != nil {
+		return "", err
+	}
+	// clauses must be built in the order they appear in the query,
+	// since the args are committed during the building.
+	sel, err := b.buildSelects(ctx, orderTouches)
+	if err != nil {
+		return "", err
+	}
+	clauses = append(clauses, sel)
 	from, err := b.buildFrom(ctx, dep)
 	if err != nil {
 		return "", err
@@ -81,7 +89,7 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 	if groupby != "" {
 		clauses = append(clauses, groupby)
 	}
-	order, orderTouches, err := b.buildOrders(ctx)
+	order, err := orders.BuildFragment(ctx)
 	if err != nil {
 		return "", err
 	}
@@ -94,12 +102,6 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 	if b.offset > 0 {
 		clauses = append(clauses, fmt.Sprintf(`OFFSET %d`, b.offset))
 	}
-	// select must build order, because buildOrders may require more columns
-	sel, err := b.buildSelects(ctx, orderTouches)
-	if err != nil {
-		return "", err
-	}
-	clauses[selectAt] = sel
 	query := strings.TrimSpace(strings.Join(clauses, " "))
 	if len(b.unions) > 0 {
 		union, err := b.buildUnion(ctx)
diff --git a/sqlb/query_builder_order.go b/sqlb/query_builder_order.go
index c92b46f..8172eb6 100644
--- a/sqlb/query_builder_order.go
+++ b/sqlb/query_builder_order.go
@@ -39,14 +39,14 @@ func (b *QueryBuilder) OrderBy(column *Column, order Order) *QueryBuilder {
 	return b
 }
 
-// buildOrders builds the ORDER BY clause, it returns also the extra columns to
-// be selected, which are required by the clause.
-func (b *QueryBuilder) buildOrders(ctx *sqlf.Context) (string, *sqlf.Fragment, error) {
+// buildOrders creates the fragment of the ORDER BY clause, it returns also the
+// extra columns to be selected, which are required by the clause.
+func (b *QueryBuilder) buildOrders() (*sqlf.Fragment, *sqlf.Fragment, error) {
 	touches := sqlf.F("#join('#fragment', ', ')")
 	f := sqlf.F("#join('#fragment', ', ')").WithPrefix("ORDER BY")
 	for i, item := range b.orders {
 		if item.order > DescNullsLast {
-			return "", nil, fmt.Errorf("invalid order: %d", item.order)
+			return nil, nil, fmt.Errorf("invalid order: %d", item.order)
 		}
 		if !b.distinct {
 			f.AppendFragments(sqlf.Ff(
@@ -63,9 +63,5 @@ func (b *QueryBuilder) buildOrders(ctx *sqlf.Context) (string, *sqlf.Fragment, e
 			fmt.Sprintf("%s %s", alias, orderStr),
 		))
 	}
-	order, err := f.BuildFragment(ctx)
-	if err != nil {
-		return "", nil, err
-	}
-	return order, touches, nil
+	return f, touches, nil
 }
-- 
2.43.0


From 41a61b0053a6a0312ae2daa25ab3684c089d324a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:24 +0000
Subject: [PATCH 16/27] fix: don't trim the optional joins required by the
 joins that are kept

---
 sqlb/query_builder_dependecy.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sqlb/query_builder_dependecy.go b/sqlb/query_builder_dependecy.go
index 2fb061d..a2cc3ce 100644
--- a/sqlb/query_builder_dependecy.go
+++ b/sqlb/query_builder_dependecy.go
@@ -31,6 +31,18 @@ func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, error) {
 			return nil, err
 		}
 	}
+	if b.distinct {
+		// tables that are never trimmed may require optional ones
+		for _, t := range b.tables[1:] {
+			if t.Optional {
+				continue
+			}
+			err := b.collectDepsFromTable(deps, t.Names.AppliedName())
+			if err != nil {
+				return nil, err
+			}
+		}
+	}
 	// mark for CTEs
 	for _, t := range b.tables {
 		if b.distinct && t.Optional && !deps[t.Names] {
-- 
2.43.0


From a7542e56765b73349bba34c36198d0fb7e6b9b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:25 +0000
Subject: [PATCH 17/27] fix: don't confuse CTEs with unaliased tables when
 collecting dependencies

---
 sqlb/query_builder_build.go     |  8 ++++----
 sqlb/query_builder_dependecy.go | 24 ++++++++++++------------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/sqlb/query_builder_build.go b/sqlb/query_builder_build.go
index d8b7afb..2422819 100644
--- a/sqlb/query_builder_build.go
+++ b/sqlb/query_builder_build.go
@@ -44,12 +44,12 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 	}
 	clauses := make([]string, 0)
 
-	dep, err := b.collectDependencies()
+	dep, depCTEs, err := b.collectDependencies()
 	if err != nil {
 		return "", err
 	}
 
-	sq, err := b.buildCTEs(ctx, dep)
+	sq, err := b.buildCTEs(ctx, depCTEs)
 	if err != nil {
 		return "", err
 	}
@@ -120,13 +120,13 @@ func (b *QueryBuilder) buildInternal(ctx *sqlf.Context) (string, error) {
 	return query, nil
 }
 
-func (b *QueryBuilder) buildCTEs(ctx *sqlf.Context, dep map[TableAliased]bool) (string, error) {
+func (b *QueryBuilder) buildCTEs(ctx *sqlf.Context, dep map[Table]bool) (string, error) {
 	if len(b.ctes) == 0 {
 		return "", nil
 	}
 	clauses := make([]string, 0, len(b.ctes))
 	for _, cte := range b.ctes {
-		if !dep[NewTableAliased(cte.name, "")] {
+		if !dep[cte.name] {
 			continue
 		}
 		query, err := cte.BuildFragment(ctx)
diff --git a/sqlb/query_builder_dependecy.go b/sqlb/query_builder_dependecy.go
index a2cc3ce..de4d484 100644
--- a/sqlb/query_builder_dependecy.go
+++ b/sqlb/query_builder_dependecy.go
@@ -7,10 +7,11 @@ import (
 	"github.com/qjebbs/go-sqlf/v2"
 )
 
-// collectDependencies collects the dependencies of the tables.
-func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, error) {
+// collectDependencies collects the dependencies of the tables, returns the
+// required tables and the required CTEs.
+func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, map[Table]bool, error) {
 	if len(b.tables) == 0 || b.tables[0].Fragment == nil {
-		return nil, errors.New("no from table")
+		return nil, nil, errors.New("no from table")
 	}
 	builders := []sqlf.FragmentBuilder{
 		b.selects,
@@ -28,7 +29,7 @@ func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, error) {
 	for _, table := range tables {
 		err := b.collectDepsFromTable(deps, table)
 		if err != nil {
-			return nil, err
+			return nil, nil, err
 		}
 	}
 	if b.distinct {
@@ -39,28 +40,27 @@ func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, error) {
 			}
 			err := b.collectDepsFromTable(deps, t.Names.AppliedName())
 			if err != nil {
-				return nil, err
+				return nil, nil, err
 			}
 		}
 	}
-	// mark for CTEs
+	ctes := make(map[Table]bool)
 	for _, t := range b.tables {
 		if b.distinct && t.Optional && !deps[t.Names] {
 			continue
 		}
 		if cte, ok := b.ctesDict[t.Names.Name]; ok {
-			b.collectDepsFromCTE(deps, cte)
+			b.collectDepsFromCTE(ctes, cte)
 		}
 	}
-	return deps, nil
+	return deps, ctes, nil
 }
 
-func (b *QueryBuilder) collectDepsFromCTE(deps map[TableAliased]bool, cte *cte) error {
-	key := NewTableAliased(cte.name, "")
-	if deps[key] {
+func (b *QueryBuilder) collectDepsFromCTE(deps map[Table]bool, cte *cte) error {
+	if deps[cte.name] {
 		return nil
 	}
-	deps[key] = true
+	deps[cte.name] = true
 	for _, dep := range cte.deps {
 		if cte, ok := b.ctesDict[dep]; ok {
 			err := b.collectDepsFromCTE(deps, cte)
-- 
2.43.0


From bb5f6e10f285dcb01129946554c11d93a5e6d3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:25 +0000
Subject: [PATCH 18/27] fix: don't build an empty UNION

---
 sqlb/query_builder_build.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sqlb/query_builder_build.go b/sqlb/query_builder_build.go
index 2422819..d30273a 100644
--- a/sqlb/query_builder_build.go
+++ b/sqlb/query_builder_build.go
@@ -198,5 +198,8 @@ func (b *QueryBuilder) buildUnion(ctx *sqlf.Context) (string, error) {
 		}
 		clauses = append(clauses, query)
 	}
+	if len(clauses) == 0 {
+		return "", nil
+	}
 	return "UNION (" + strings.Join(clauses, ") UNION (") + ")", nil
 }
-- 
2.43.0


From e19201ac9fb491557ea6d6ac81245e5c2dbedb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:26 +0000
Subject: [PATCH 19/27] fix: keep the tables and their names in step when
 From() is called again or shares a name with a join

---
 sqlb/query_builder_join.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sqlb/query_builder_join.go b/sqlb/query_builder_join.go
index 1d2e23b..448df44 100644
--- a/sqlb/query_builder_join.go
+++ b/sqlb/query_builder_join.go
@@ -12,6 +12,10 @@ func (b *QueryBuilder) From(t TableAliased) *QueryBuilder {
 		b.pushError(fmt.Errorf("from table is empty"))
 		return b
 	}
+	if old, ok := b.tablesDict[t.AppliedName()]; ok && old != b.tables[0] {
+		b.pushError(fmt.Errorf("table '%s' is already joined", t.AppliedName()))
+		return b
+	}
 	tableAndAlias := string(t.Name)
 	if t.Alias != "" {
 		tableAndAlias = tableAndAlias + " AS " + string(t.Alias)
@@ -24,6 +28,7 @@ func (b *QueryBuilder) From(t TableAliased) *QueryBuilder {
 	if len(b.tables) == 0 {
 		b.tables = append(b.tables, table)
 	} else {
+		delete(b.tablesDict, b.tables[0].Names.AppliedName())
 		b.tables[0] = table
 	}
 	b.tablesDict[t.AppliedName()] = table
@@ -108,6 +113,10 @@ func (b *QueryBuilder) join(joinStr string, t TableAliased, on *sqlf.Fragment, o
 		Optional: optional,
 	}
 	if target, replacing := b.tablesDict[t.AppliedName()]; replacing {
+		if target == b.tables[0] {
+			b.pushError(fmt.Errorf("table '%s' is already the from table", t.AppliedName()))
+			return b
+		}
 		*target = *table
 		return b
 	}
-- 
2.43.0


From 1a6d997a57902f13282cec524b937a21452162dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:52 +0000
Subject: [PATCH 20/27] fix: don't panic on nil slice pointers in ArgsFlatted

---
 util/args.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/util/args.go b/util/args.go
index b685cd5..057b400 100644
--- a/util/args.go
+++ b/util/args.go
@@ -45,25 +45,25 @@ func argsFrom(v any) []any {
 	case []string:
 		return Ttoa(a)
 	case *[]bool:
-		return Ttoa(*a)
+		return ptoa(a)
 	case *[]float64:
-		return Ttoa(*a)
+		return ptoa(a)
 	case *[]float32:
-		return Ttoa(*a)
+		return ptoa(a)
 	case *[]int64:
-		return Ttoa(*a)
+		return ptoa(a)
 	case *[]int32:
-		return Ttoa(*a)
+		return ptoa(a)
 	case *[]int:
-		return Ttoa(*a)
+		return ptoa(a)
 	case *[]uint64:
-		return Ttoa(*a)
+		return ptoa(a)
 	case *[]uint32:
-		return Ttoa(*a)
+		return ptoa(a)
 	case *[]uint:
-		return Ttoa(*a)
+		return ptoa(a)
 	case *[]string:
-		return Ttoa(*a)
+		return ptoa(a)
 	default:
 		return convertArrayReflect(v)
 	}
@@ -81,6 +81,15 @@ func Ttoa[T any](slice []T) []any {
 	return b
 }
 
+// ptoa is like Ttoa, but it converts from a slice pointer.
+// A nil pointer is not a slice, but a value.
+func ptoa[T any](slice *[]T) []any {
+	if slice == nil {
+		return []any{slice}
+	}
+	return Ttoa(*slice)
+}
+
 func convertArrayReflect(slice any) []any {
 	rv := reflect.ValueOf(slice)
 	if rv.Kind() == reflect.Pointer {
-- 
2.43.0


From caf41fb02d80039a04d19e261e82ff9528ed8a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:53 +0000
Subject: [PATCH 21/27] fix: don't overwrite the slices passed in when
 appending to a fragment

---
 fragment.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fragment.go b/fragment.go
index 6b407fa..11274e1 100644
--- a/fragment.go
+++ b/fragment.go
@@ -36,12 +36,14 @@ func (f *Fragment) WithFragments(fragments ...FragmentBuilder) *Fragment {
 
 // AppendArgs appends args to f.
 func (f *Fragment) AppendArgs(args ...any) *Fragment {
-	f.Args = append(f.Args, args...)
+	// don't append in place, the array could be shared with others
+	f.Args = append(f.Args[:len(f.Args):len(f.Args)], args...)
 	return f
 }
 
 // AppendFragments appends fragments to f.
 func (f *Fragment) AppendFragments(fragments ...FragmentBuilder) *Fragment {
-	f.Fragments = append(f.Fragments, fragments...)
+	// don't append in place, the array could be shared with others
+	f.Fragments = append(f.Fragments[:len(f.Fragments):len(f.Fragments)], fragments...)
 	return f
 }
-- 
2.43.0


From 0990a597514f7cfeedf4cef6ac4a8008ae5f0036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:54 +0000
Subject: [PATCH 22/27] fix: report the error that ends the iteration of rows
 in Scan

---
 util/scan.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/scan.go b/util/scan.go
index 0df3e6e..7d23223 100644
--- a/util/scan.go
+++ b/util/scan.go
@@ -46,6 +46,9 @@ func Scan[T any](db QueryAble, query string, args []any, fn NewScanDestFunc[T])
 		}
 		results = append(results, dest)
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 	return results, nil
 }
 
-- 
2.43.0


From 993302a134d240454ceb87bba5a889b391591fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:55 +0000
Subject: [PATCH 23/27] fix: don't overwrite the array behind the scan
 destinations

---
 util/scan.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/scan.go b/util/scan.go
index 7d23223..1364492 100644
--- a/util/scan.go
+++ b/util/scan.go
@@ -61,6 +61,7 @@ func ScanRow(rows *sql.Rows, dest ...any) error {
 	}
 	nBlacholes := len(cols) - len(dest)
 	bh := &blackhole{}
+	dest = dest[:len(dest):len(dest)] // don't append in place, the array is owned by the caller
 	for i := 0; i < nBlacholes; i++ {
 		dest = append(dest, &bh)
 	}
-- 
2.43.0


From a7ee0b4c4e1aa1cc37e02f27bd56c29c8942044b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:56 +0000
Subject: [PATCH 24/27] fix: interpolate floats without losing precision

---
 util/interpolate.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/interpolate.go b/util/interpolate.go
index b304ef8..de83a48 100644
--- a/util/interpolate.go
+++ b/util/interpolate.go
@@ -5,6 +5,7 @@ import (
 	"database/sql/driver"
 	"fmt"
 	"reflect"
+	"strconv"
 	"strings"
 	"time"
 
@@ -110,7 +111,7 @@ func encodeValue(arg any, opts *interpolateOptions) ([]byte, error) {
 		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 			buf.WriteString(fmt.Sprintf("%d", primative.Uint()))
 		case reflect.Float32, reflect.Float64:
-			buf.WriteString(fmt.Sprintf("%f", primative.Float()))
+			buf.WriteString(strconv.FormatFloat(primative.Float(), 'f', -1, primative.Type().Bits()))
 		case reflect.String:
 			buf.Write(quoteStringValue(primative.String()))
 		default:
-- 
2.43.0


From d8cc516d87fe7bc18bea5fda02b5bc7a4b9ec8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:56 +0000
Subject: [PATCH 25/27] fix: interpolate nil pointers as NULL instead of
 panicking

---
 util/interpolate.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/util/interpolate.go b/util/interpolate.go
index de83a48..427ad3b 100644
--- a/util/interpolate.go
+++ b/util/interpolate.go
@@ -71,6 +71,11 @@ func Interpolate(query string, args []any, options ...InterpolateOption) (string
 }
 
 func encodeValue(arg any, opts *interpolateOptions) ([]byte, error) {
+	if rv := reflect.ValueOf(arg); rv.Kind() == reflect.Pointer && rv.IsNil() {
+		// the driver takes a nil pointer as NULL, and it's
+		// not safe to call the methods on it
+		arg = nil
+	}
 	buf := bytes.NewBuffer(nil)
 	switch v := arg.(type) {
 	case nil:
-- 
2.43.0


From 53b41cbc593ef1ab8b0369f24d9bbe05ee15dc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:57 +0000
Subject: [PATCH 26/27] fix: reject the function names that can never be called

---
 func.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/func.go b/func.go
index 62b6f38..5d99d41 100644
--- a/func.go
+++ b/func.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"fmt"
 	"reflect"
-	"unicode"
 
 	"github.com/qjebbs/go-sqlf/v2/syntax"
 )
@@ -139,7 +138,9 @@ func goodName(name string) bool {
 		return false
 	}
 	for _, r := range name {
-		if r != '_' && !unicode.IsLetter(r) {
+		// be in step with the scanner, which takes only ASCII letters and
+		// underscore, or the function could never be called.
+		if r != '_' && !('a' <= r && r <= 'z') && !('A' <= r && r <= 'Z') {
 			return false
 		}
 	}
-- 
2.43.0


From bbd1131739f5bf120a3b6d8f669d8e24b79ccf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:02 +0000
Subject: [PATCH 27/27] fix: fail if the condition of a join refers to a table
 that was never joined

Without DISTINCT, the conditions of the joins that nothing else referred to
were not checked, so that the query was built with an undefined table.
---
 sqlb/query_builder_dependecy.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/sqlb/query_builder_dependecy.go b/sqlb/query_builder_dependecy.go
index de4d484..e871eed 100644
--- a/sqlb/query_builder_dependecy.go
+++ b/sqlb/query_builder_dependecy.go
@@ -32,16 +32,14 @@ func (b *QueryBuilder) collectDependencies() (map[TableAliased]bool, map[Table]b
 			return nil, nil, err
 		}
 	}
-	if b.distinct {
-		// tables that are never trimmed may require optional ones
-		for _, t := range b.tables[1:] {
-			if t.Optional {
-				continue
-			}
-			err := b.collectDepsFromTable(deps, t.Names.AppliedName())
-			if err != nil {
-				return nil, nil, err
-			}
+	// tables that are never trimmed may require other ones
+	for _, t := range b.tables[1:] {
+		if b.distinct && t.Optional {
+			continue
+		}
+		err := b.collectDepsFromTable(deps, t.Names.AppliedName())
+		if err != nil {
+			return nil, nil, err
 		}
 	}
 	ctes := make(map[Table]bool)
-- 
2.43.0

