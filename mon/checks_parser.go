package main

// The parser: C24, C25, C27, C28, C29. Totality, literals, errors, COPY and the console are in
// checks_input.go.

import (
	"fmt"
	"io"
	"regexp"
	"strconv"
	"strings"

	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/types"
)

// parseOne parses a text that must be one statement.
func (t *Case) parseOne(text string) sql.Stmt {
	p := parser.NewParser(strings.NewReader(text), "src")
	s, err := p.Parse()
	if err != nil {
		t.Failf("%q does not parse: %v", text, err)
	}
	if s2, err := p.Parse(); err != io.EOF {
		t.Failf("%q: more after the only statement: %v %v", text, s2, err)
	}
	return s
}

// ---------------------------------------------------------------- C28

func init() {
	register(&Check{ID: "C28",
		Rule: "statements of every kind built clause by clause together with the AST they denote, written as tokens and parsed; " +
			"also several in one script through one parser; distinct by statement structure",
		Run: func(c *Ctx) {
			per := c.N(900, 12000)
			for _, k := range stmtKinds {
				n := per
				switch k {
				case "begin", "commit", "rollback", "start":
					n = 20
				case "select", "create table", "insert", "update":
					n = per * 4
				}
				c.Phase(k, n, func(t *Case) { stmtMeaning(t, k) })
			}
			c.Phase("scripts", c.N(2500, 40000), scriptMeaning)
			c.Phase("reject", c.N(6000, 60000), stmtReject)
		}})
}

func stmtMeaning(t *Case, kind string) {
	g := newSQLGen(t)
	g.simple = t.IntN(5) == 0
	want := g.stmt(kind)
	text := genLayout(t).render(t, g.toks)
	if t.IntN(2) == 0 {
		text = plainLayout.render(t, g.toks)
	}
	t.Logf("text: %q", text)
	if _, ok := want.(*sql.Copy); ok {
		text += ";\n"
		s, err := parser.NewParser(strings.NewReader(text), "src").Parse()
		if err != nil {
			t.Failf("%q does not parse: %v", text, err)
		}
		compareAST(t, text, s, want)
		return
	}
	if t.IntN(2) == 0 {
		text += ";"
	}
	compareAST(t, text, t.parseOne(text), want)
	t.Count("tokens", len(g.toks))
}

func compareAST(t *Case, text string, got sql.Stmt, want sql.Stmt) {
	dg, dw := dumpAST(got), dumpAST(want)
	if dg != dw {
		failDiff(t, text, dg, dw)
	}
	t.Count("statements compared", 1)
	t.Distinct(dw)
	t.Sample("%q -> %s", text, dw)
}

// failDiff reports where two dumps differ.
func failDiff(t *Case, text, got, want string) {
	t.Logf("got:  %s", got)
	t.Logf("want: %s", want)
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	cut := func(s string) string { return s[max(0, i-120):min(len(s), i+160)] }
	t.Failf("%q\nparsed to   ...%s...\nbut it says ...%s...", text, cut(got), cut(want))
}

// scriptMeaning: many statements through one parser; what one says must not show up in another.
func scriptMeaning(t *Case) {
	var parts []string
	var want []string
	for n := 2 + t.IntN(6); n > 0; n-- {
		g := newSQLGen(t)
		k := stmtKinds[t.IntN(len(stmtKinds))]
		for k == "copy" {
			k = stmtKinds[t.IntN(len(stmtKinds))]
		}
		want = append(want, dumpAST(g.stmt(k)))
		parts = append(parts, genLayout(t).render(t, g.toks))
	}
	text := strings.Join(parts, ";")
	p := parser.NewParser(strings.NewReader(text), "src")
	var got []sql.Stmt
	for i := range want {
		s, err := p.Parse()
		if err != nil {
			t.Failf("statement %d of %q: %v", i, text, err)
		}
		got = append(got, s)
	}
	if s, err := p.Parse(); err != io.EOF {
		t.Failf("after the script %q: %v %v", text, s, err)
	}
	// Only now, when all of them have been parsed.
	for i, s := range got {
		if d := dumpAST(s); d != want[i] {
			failDiff(t, fmt.Sprintf("%s (statement %d)", text, i), d, want[i])
		}
	}
	t.Count("statements compared", len(got))
	t.Distinct(text)
}

// wrongStatements break a rule of the grammar that is no matter of a token too many.
var wrongStatements = []string{
	"SELECT * FROM a JOIN b", "SELECT * FROM a LEFT JOIN b", "SELECT * FROM a RIGHT OUTER JOIN b WHERE x", "SELECT * FROM a FULL JOIN b",
	"SELECT * FROM a INNER JOIN b", "SELECT * FROM a CROSS JOIN b ON x = y", "SELECT * FROM a CROSS JOIN b USING (x)",
	"SELECT * FROM a JOIN b ON x USING (y)", "SELECT * FROM a JOIN b USING (x, y, x)", "SELECT * FROM a JOIN b USING (x, X)",
	"SELECT * FROM a JOIN b USING ()", "SELECT * FROM a JOIN b USING x", "SELECT * FROM a OUTER JOIN b ON x", "SELECT * FROM a LEFT b ON x",
	"SELECT * FROM a INNER b ON x", "SELECT * FROM a CROSS b", "SELECT * FROM a INNER OUTER JOIN b ON x",
	"SELECT * FROM (SELECT 1)", "SELECT * FROM (VALUES (1))", "SELECT * FROM (SELECT 1) AS", "SELECT * FROM (SELECT 1) AS a ()",
	"SELECT * FROM (SELECT 1) (x)", "SELECT * FROM a AS", "SELECT * FROM a@", "SELECT * FROM a@b@c", "SELECT * FROM a.b.c.d",
	"SELECT * FROM", "SELECT * FROM ()", "SELECT", "SELECT FROM a", "SELECT *, a FROM b", "SELECT a.*.b FROM a", "SELECT a.* AS b FROM a",
	"SELECT a AS FROM b", "SELECT a b c FROM b", "SELECT a FROM b WHERE", "SELECT a FROM b GROUP a", "SELECT a FROM b GROUP BY",
	"SELECT a FROM b ORDER a", "SELECT a FROM b ORDER BY", "SELECT a FROM b ORDER BY 1", "SELECT a FROM b ORDER BY a ASC DESC",
	"SELECT a FROM b ORDER BY a.b", "SELECT a FROM b ORDER BY a + 1", "SELECT a FROM b HAVING", "SELECT a FROM b HAVING x GROUP BY y",
	"SELECT a FROM b ORDER BY c WHERE x", "SELECT a FROM b WHERE x WHERE y", "SELECT a FROM b ORDER BY c HAVING x",
	"SELECT a FROM b GROUP BY c GROUP BY d", "SELECT a FROM b FROM c",
	"VALUES", "VALUES ()", "VALUES (1), (1, 2)", "VALUES (1, 2), (3, 4), (5)", "VALUES (1) (2)", "VALUES 1", "VALUES (DEFAULT)",
	"INSERT INTO t VALUES", "INSERT INTO t VALUES ()", "INSERT INTO t VALUES 1", "INSERT INTO t (a, b, a) VALUES (1, 2, 3)",
	"INSERT INTO t (a, A) VALUES (1, 2)", "INSERT INTO t () VALUES (1)", "INSERT t VALUES (1)", "INSERT INTO t (a.b) VALUES (1)",
	"INSERT INTO t (a)", "INSERT INTO t VALUES (1) (2)", "INSERT INTO t VALUES (DEFAULT + 1)", "INSERT INTO VALUES (1)",
	"UPDATE t", "UPDATE t SET", "UPDATE t SET a", "UPDATE t SET a = ", "UPDATE t SET a == 1", "UPDATE t SET a 1", "UPDATE t SET a.b = 1",
	"UPDATE t SET a = 1 b = 2", "UPDATE t SET WHERE x", "UPDATE t WHERE x SET a = 1", "UPDATE t SET a = DEFAULT + 1", "UPDATE SET a = 1",
	"DELETE t", "DELETE FROM", "DELETE FROM t WHERE", "DELETE FROM t, u", "DELETE FROM t WHERE x WHERE y",
	"SET a", "SET a TO", "SET a = ", "SET = 1", "SET a TO NULL", "SET a TO b", "SET a TO 1 + 1", "SET a TO (SELECT 1)", "SET a 1",
	"SET TABLE TO 'x'", "SET a TO f(1)", "SET a TO - x", "USE", "USE NULL", "USE a", "USE a.b", "USE 1 + 1", "USE DATABASE 'a'",
	"SET a TO (1)", "SET a = ('x')", "SET a TO ((TRUE))", "USE (1)", "USE ('a')", "SELECT a AS 'b'", "SELECT 1 AS 'b' FROM t", "SELECT * FROM t AS 'a'",
	"SELECT * FROM (SELECT 1) AS 'a'", "SELECT 'a' 'b'", "SELECT a 'b'", "SELECT * FROM t 'a'", "CREATE TABLE 't' (a INT)", "DROP TABLE 't'",
	"CREATE DATABASE 'd'", "SELECT $0", "SELECT $1", "ALTER TABLE t ADD FOREIGN KEY (a) REFERENCES r ON DELETE NO ACTION ON DELETE CASCADE",
	"ALTER TABLE t ADD FOREIGN KEY (a) REFERENCES r ON UPDATE RESTRICT ON DELETE CASCADE ON UPDATE NO ACTION",
	"SHOW", "SHOW 1", "SHOW COLUMNS", "SHOW COLUMNS FROM", "SHOW COLUMNS t", "SHOW CONSTRAINTS", "SHOW CONSTRAINTS FROM a.b.c.d",
	"SHOW SCHEMAS FROM", "SHOW SCHEMAS FROM a.b", "SHOW TABLES FROM", "SHOW TABLES FROM a.b.c", "SHOW TABLES a", "SHOW DATABASES FROM a",
	"SHOW CONFIG FROM a", "SHOW a b",
	"CREATE", "CREATE t", "CREATE UNIQUE TABLE t (a INT)", "CREATE TABLE", "CREATE TABLE t", "CREATE TABLE (a INT)",
	"CREATE TABLE IF EXISTS t (a INT)", "CREATE TABLE IF NOT t (a INT)", "CREATE TABLE a.b.c.d (a INT)",
	"CREATE TABLE t (a INT) WITH x = 1", "CREATE INDEX ON t (a)", "CREATE INDEX i t (a)", "CREATE INDEX i ON t", "CREATE INDEX i ON t ()",
	"CREATE INDEX i ON t USING (a)", "CREATE INDEX i ON t USING hash (a)", "CREATE INDEX i ON t (a) USING btree", "CREATE INDEX a.i ON t (a)",
	"CREATE INDEX IF EXISTS i ON t (a)", "CREATE INDEX i ON t (a ASC DESC)", "CREATE UNIQUE i ON t (a)",
	"CREATE DATABASE", "CREATE DATABASE a.b", "CREATE DATABASE a WITH", "CREATE DATABASE a WITH b", "CREATE DATABASE a WITH b =",
	"CREATE DATABASE a WITH = 1", "CREATE DATABASE a b = 1", "CREATE DATABASE a WITH b = NULL", "CREATE DATABASE IF NOT EXISTS a",
	"CREATE SCHEMA", "CREATE SCHEMA a.b.c", "CREATE SCHEMA IF NOT EXISTS a", "CREATE SCHEMA a, b",
	"DROP", "DROP a", "DROP DATABASE", "DROP DATABASE a, b", "DROP DATABASE a.b", "DROP DATABASE IF a", "DROP DATABASE IF NOT EXISTS a",
	"DROP SCHEMA", "DROP SCHEMA a, b", "DROP SCHEMA a.b.c", "DROP SCHEMA IF a", "DROP TABLE", "DROP TABLE a b", "DROP TABLE a.b.c.d",
	"DROP TABLE IF NOT EXISTS a", "DROP TABLE a CASCADE RESTRICT", "DROP TABLE CASCADE", "DROP TABLE a CASCADE, b", "DROP INDEX i",
	"DROP INDEX i, j ON t", "DROP INDEX ON t", "DROP INDEX a.i ON t", "DROP INDEX i ON t, u", "DROP INDEX i ON t CASCADE",
	"ALTER t ADD FOREIGN KEY (a) REFERENCES r", "ALTER TABLE t", "ALTER TABLE t ADD", "ALTER TABLE t ADD COLUMN a INT",
	"ALTER TABLE t ADD CONSTRAINT FOREIGN KEY (a) REFERENCES r", "ALTER TABLE t ADD CONSTRAINT c", "ALTER TABLE t DROP",
	"ALTER TABLE t DROP CONSTRAINT", "ALTER TABLE t DROP CONSTRAINT IF c", "ALTER TABLE t DROP COLUMN a", "ALTER TABLE t ALTER",
	"ALTER TABLE t ALTER a", "ALTER TABLE t ALTER COLUMN a DROP", "ALTER TABLE t ALTER a DROP NULL", "ALTER TABLE t ALTER a DROP NOT",
	"ALTER TABLE t ALTER a SET DEFAULT 1", "ALTER TABLE t DROP CONSTRAINT a DROP CONSTRAINT b", "ALTER TABLE DROP CONSTRAINT a",
	"EXPLAIN", "EXPLAIN VERBOSE", "EXPLAIN INSERT INTO t VALUES (1)", "EXPLAIN EXPLAIN SELECT 1", "EXPLAIN VERBOSE VERBOSE SELECT 1",
	"BEGIN 1", "BEGIN TRANSACTION x", "COMMIT x", "ROLLBACK 1", "START", "START x", "TRANSACTION", "a", "1", "'a'", "(SELECT 1)", ", SELECT 1",
	"SELECT 1 SELECT 2", "SELECT a.b.", "SELECT a..b", "SELECT .a", "SELECT a.1x", "SELECT (1", "SELECT 1)", "SELECT ()", "SELECT f(", "SELECT f(,)",
	"SELECT f(1,)", "SELECT f(1 2)", "SELECT COUNT(", "SELECT COUNT(* , 1)", "SELECT SUM(*)", "SELECT 1 +", "SELECT * 1", "SELECT / 1", "SELECT 1 + / 2",
	"SELECT a AND", "SELECT AND a", "SELECT NOT", "SELECT a OR OR b", "SELECT a IS", "SELECT a IS NOT", "SELECT a IS 1", "SELECT a IS TRUE",
	"SELECT a IN", "SELECT a IN 1", "SELECT a IN (1)", "SELECT a IN ()", "SELECT a NOT", "SELECT a NOT b", "SELECT a NOT IN b", "SELECT EXISTS a",
	"SELECT EXISTS (1)", "SELECT EXISTS ()", "SELECT a = ANY b", "SELECT a = ANY (1)", "SELECT a + ANY (SELECT 1)", "SELECT a = ALL ()",
	"SELECT ANY (SELECT 1)", "SELECT (SELECT)", "SELECT (SELECT 1", "SELECT 1 = = 2", "SELECT a != != b", "SELECT a < > b", "SELECT a ! = b",
	"SELECT a | | b", "SELECT TABLE t", "SELECT VALUES (1)", "SELECT DEFAULT", "SELECT select", "SELECT a.select",
}

// wrongLists: lists, some of them long, with one place in them that breaks a rule.
func wrongLists(t *Case) {
	n := 2 + t.IntN(4)
	if t.IntN(3) == 0 {
		n = 2 + t.IntN(300)
	}
	at := t.IntN(n)
	list := func(n int, item func(i int) string) string {
		var b strings.Builder
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(item(i))
		}
		return b.String()
	}
	cols := func(i int) string { return fmt.Sprintf("c%d", i) }
	twice := func(i int) string { // the one at at is also another one
		if i == at {
			i = (at + 1 + t.IntN(n-1)) % n
			return fmt.Sprintf([]string{"c%d", "C%d", `"c%d"`, "[c%d]"}[t.IntN(4)], i)
		}
		return cols(i)
	}
	var text, what string
	switch t.IntN(8) {
	case 0:
		what = "rows of different lengths"
		w := 1 + t.IntN(4)
		text = "VALUES " + list(n, func(i int) string {
			m := w
			if i == at {
				m = []int{w + 1, w + 2, w + 200, max(1, w-1)}[t.IntN(4)]
				if m == w {
					m++
				}
			}
			return "(" + list(m, strconv.Itoa) + ")"
		})
	case 1:
		what = "a column twice in USING"
		text = "SELECT * FROM a JOIN b USING (" + list(n, twice) + ")"
	case 2:
		what = "a column twice in INSERT"
		text = "INSERT INTO t (" + list(n, twice) + ") VALUES (" + list(n, strconv.Itoa) + ")"
	case 3:
		what = "a column twice in a key"
		text = []string{"CREATE INDEX i ON t (", "CREATE UNIQUE INDEX i ON t USING BTREE ("}[t.IntN(2)] + list(n, func(i int) string {
			return twice(i) + []string{"", " ASC", " DESC"}[t.IntN(3)]
		}) + ")"
	case 4:
		what = "a column twice in a table"
		text = "CREATE TABLE t (" + list(n, func(i int) string { return twice(i) + []string{" INT", " TEXT", " BOOL"}[t.IntN(3)] }) + ")"
	case 5:
		what = "a column twice in a primary key"
		text = "CREATE TABLE t (" + list(n, func(i int) string { return cols(i) + " INT" }) + ", PRIMARY KEY (" + list(n, twice) + "))"
	case 6:
		what = "an empty place in a list"
		none := func(item func(i int) string) func(i int) string {
			return func(i int) string {
				if i == at {
					return ""
				}
				return item(i)
			}
		}
		switch t.IntN(6) {
		case 0:
			text = "SELECT " + list(n, none(cols)) + " FROM t"
		case 1:
			text = "SELECT f(" + list(n, none(cols)) + ")"
		case 2:
			text = "SELECT * FROM " + list(n, none(cols))
		case 3:
			text = "SELECT * FROM t GROUP BY " + list(n, none(cols))
		case 4:
			text = "INSERT INTO t VALUES " + list(n, none(func(int) string { return "(1)" }))
		case 5:
			text = "DROP TABLE " + list(n, none(cols))
		}
	case 7:
		what = "two constraints of one name"
		other := (at + 1 + t.IntN(n-1)) % n
		text = "CREATE TABLE t (" + list(n, func(i int) string {
			k := i
			if i == other {
				k = at
			}
			return cols(i) + fmt.Sprintf(" INT CONSTRAINT n%d ", k) + []string{"NOT NULL", "UNIQUE", "DEFAULT 1", "CHECK (true)", "REFERENCES r"}[t.IntN(5)]
		}) + ")"
	}
	t.refused(text, what)
	t.Count("rejected", 1)
}

// stmtReject: a statement with one token taken away or doubled either is an error or still means
// what the tokens say; here only such changes are made for which it must be an error.
func stmtReject(t *Case) {
	if t.IntN(8) == 0 {
		wrongLists(t)
		return
	}
	if t.IntN(4) == 0 {
		text := wrongStatements[t.IntN(len(wrongStatements))]
		if t.IntN(2) == 0 {
			text = asciiCase(t, text)
		}
		t.refused(text, "wrong")
		return
	}
	g := newSQLGen(t)
	g.simple = true
	k := stmtKinds[t.IntN(len(stmtKinds))]
	for k == "copy" {
		k = stmtKinds[t.IntN(len(stmtKinds))]
	}
	g.stmt(k)
	toks := append([]tok(nil), g.toks...)
	what := ""
	switch t.IntN(4) {
	case 0: // unbalanced
		var at []int
		for i, tk := range toks {
			if tk.text == "(" || tk.text == ")" {
				at = append(at, i)
			}
		}
		if len(at) == 0 {
			return
		}
		i := at[t.IntN(len(at))]
		toks = append(toks[:i:i], toks[i+1:]...)
		what = "a parenthesis is missing"
	case 1: // ends in the middle
		last := toks[len(toks)-1]
		if last.text == ")" || len(toks) < 2 || (k == "rollback" || k == "commit" || k == "begin") {
			return
		}
		toks = append(toks, tok{",", tkPunct})
		what = "a comma at the end"
	case 2: // something that no statement has there
		i := 1 + t.IntN(len(toks))
		x := []tok{{"SELECT", tkWord}, {"CREATE", tkWord}, {"@", tkPunct}, {"=", tkOp}}[t.IntN(4)]
		if i < len(toks) && toks[i].kind == tkOp || toks[i-1].kind == tkOp {
			return
		}
		if x.text == "=" && k == "create database" || x.text == "@" || (x.text == "SELECT" && toks[i-1].text == "(") {
			return
		}
		if x.text == "=" && i < len(toks) {
			return // may join two expressions
		}
		toks = append(toks[:i:i], append([]tok{x}, toks[i:]...)...)
		what = "an extra " + x.text
	case 3: // a second operand
		toks = append(toks, tok{"1", tkNumber}, tok{"2", tkNumber})
		if k == "create database" {
			return
		}
		what = "two numbers at the end"
	}
	text := plainLayout.render(t, toks)
	t.Logf("text: %q (%s)", text, what)
	p := parser.NewParser(strings.NewReader(text), "src")
	s, err := p.Parse()
	if err == nil {
		t.Failf("%q (%s) parses to %s", text, what, dumpAST(s))
	}
	t.Count("rejected", 1)
	t.Distinct(text)
}

// ---------------------------------------------------------------- C24

func init() {
	register(&Check{ID: "C24",
		Rule: "scripts of valid, broken and empty statements; a broken one is a statement with tokens dropped, doubled, swapped, " +
			"replaced or with a bad token put in; every part is also parsed alone, twice, and a part that fails alone may yield " +
			"nothing but errors; distinct by script",
		Run: func(c *Ctx) {
			c.Phase("scripts", c.N(12000, 200000), errorScript)
			c.Phase("bad-token", c.N(8000, 100000), badTokenScript)
		}})
}

// Tokens that are wrong wherever they stand. All of them end on their own.
var badTokens = []tok{{"$", tkWord}, {"#", tkOp}, {"\\", tkOp}, {"$x", tkWord}, {"$0", tkWord}, {"e'\\xzz'", tkString},
	{"e'\\u12'", tkString}, {"e'\\U00110000'", tkString}, {"x'0'", tkString}, {"x'0g;'", tkString}, {"b'\\400'", tkString},
	{"e'\\xz;SELECT 1;'", tkString}, {"b'\\9\\x0;'", tkString}, {"x';'", tkString}, {"99999999999999999999", tkNumber},
	{"=!", tkOp}, {"&&", tkOp}, {"!", tkOp}, {"|=", tkOp}, {"{", tkPunct}, {"}", tkPunct}, {"]", tkPunct}, {"?", tkPunct},
	{":", tkPunct}, {"~", tkPunct}, {"^", tkPunct}, {"$99999999999999999999", tkWord}, {"x'00'';'", tkString},
	{"e'\\ud800'", tkString}, {"b'\\x'", tkString}, {"e'it''s \\x'", tkString}, {"e'\\xq''\\';'", tkString},
	{"b'\\xq''a''\\';SELECT 2;'", tkString}, {"e'\\xq''\\\\'';SELECT 2;'", tkString}, {"e'\\xq\\';'", tkString},
	{"\u20ac", tkPunct}, {"\u0300", tkPunct}}

// breakTokens changes a token list somehow; the result may still be a statement.
func breakTokens(t *Case, toks []tok) []tok {
	out := append([]tok(nil), toks...)
	for n := 1 + t.IntN(2); n > 0 && len(out) > 0; n-- {
		i := t.IntN(len(out))
		switch t.IntN(7) {
		case 0:
			out = append(out[:i], out[i+1:]...)
		case 1:
			out = append(out[:i+1], out[i:]...)
		case 2:
			j := t.IntN(len(out))
			out[i], out[j] = out[j], out[i]
		case 3:
			out[i] = toks[t.IntN(len(toks))]
		case 4:
			out = out[:i+1]
		case 5:
			x := []tok{{"SELECT", tkWord}, {")", tkPunct}, {"(", tkPunct}, {",", tkPunct}, {"TABLE", tkWord}, {"1", tkNumber},
				{"NOT", tkWord}, {"'x;y'", tkString}, {"*", tkOp}, {".", tkPunct}, {"nosuch", tkWord}, {"BEGIN", tkWord},
				{"COMMIT", tkWord}}[t.IntN(13)]
			out = append(out[:i], append([]tok{x}, out[i:]...)...)
		case 6:
			out = append(out[:i], append([]tok{badTokens[t.IntN(len(badTokens))]}, out[i:]...)...)
		}
	}
	return out
}

// adjacentStrings: two string literals with nothing between them but white space may be one.
func adjacentStrings(toks []tok) bool {
	for i := 1; i < len(toks); i++ {
		if toks[i-1].kind == tkString && toks[i].kind == tkString {
			return true
		}
	}
	return false
}

func hasWord(toks []tok, w string) bool {
	for _, tk := range toks {
		if strings.EqualFold(tk.text, w) {
			return true
		}
	}
	return false
}

// outcomes parses a text to its end. A statement is given by its dump, an error by its message
// without the position. Empty statements are left out.
func (t *Case) outcomes(text string) []string {
	p := parser.NewParser(strings.NewReader(text), "src")
	var out []string
	for n := 0; ; n++ {
		if n > len(text)+2 {
			t.Failf("%q: the end of the input is not reported after %d results", text, n)
		}
		s, err := p.Parse()
		switch {
		case err == io.EOF:
			return out
		case err != nil:
			out = append(out, "error: "+stripPosition(err.Error()))
		case s != nil:
			out = append(out, dumpAST(s))
		}
	}
}

var positionRe = regexp.MustCompile(`src:\d+:\d+: `)

func stripPosition(s string) string { return positionRe.ReplaceAllString(s, "") }

func isError(s string) bool { return strings.HasPrefix(s, "error: ") }

type scriptPart struct {
	text string
	want []string // of the part alone
	good bool
	dump string
}

// part makes a part of a script.
func (t *Case) part() scriptPart {
	if t.IntN(8) == 0 {
		return scriptPart{text: []string{"", " ", "\n", "/* ; */", "-- ;\n", " /**/ "}[t.IntN(6)]}
	}
	for {
		g := newSQLGen(t)
		g.simple = t.IntN(3) == 0
		k := stmtKinds[t.IntN(len(stmtKinds))]
		s := g.stmt(k)
		p := scriptPart{good: t.IntN(2) == 0}
		toks := g.toks
		if p.good {
			if k == "copy" {
				continue // C31
			}
			p.dump = dumpAST(s)
		} else {
			toks = breakTokens(t, toks)
			if adjacentStrings(toks) {
				continue
			}
		}
		p.text = genLayout(t).render(t, toks)
		return p
	}
}

func errorScript(t *Case) {
	var ps []scriptPart
	for n := 2 + t.IntN(6); n > 0; n-- {
		ps = append(ps, t.part())
	}
	runScript(t, ps)
}

func badTokenScript(t *Case) {
	var ps []scriptPart
	for n := 1 + t.IntN(3); n > 0; n-- {
		p := t.part()
		ps = append(ps, p)
		g := newSQLGen(t)
		g.stmt(stmtKinds[t.IntN(len(stmtKinds))])
		i := t.IntN(len(g.toks) + 1)
		toks := append(g.toks[:i:i], badTokens[t.IntN(len(badTokens))])
		if t.IntN(4) > 0 {
			toks = append(toks, g.toks[i:]...)
		}
		if !adjacentStrings(toks) {
			ps = append(ps, scriptPart{text: genLayout(t).render(t, toks)})
		}
		ps = append(ps, t.part())
	}
	runScript(t, ps)
}

func runScript(t *Case, ps []scriptPart) {
	var text strings.Builder
	var want []string
	bad := 0
	for i := range ps {
		p := &ps[i]
		p.want = t.outcomes(p.text + ";")
		if len(p.want) > 0 && strings.HasPrefix(p.want[0], "Copy{") {
			return // what follows is data: C31
		}
		t.Logf("part %d: %q: %s", i, p.text, p.want)
		if p.good && (len(p.want) != 1 || p.want[0] != p.dump) {
			t.Failf("%q alone: %s", p.text, p.want)
		}
		switch {
		case len(p.want) == 0 && strings.TrimSpace(p.text) != "" && !strings.Contains(p.text, "/*") && !strings.Contains(p.text, "--"):
			t.Failf("%q yields nothing", p.text)
		case len(p.want) > 1:
			for _, w := range p.want {
				if !isError(w) {
					t.Failf("%q is one statement at most, but yields %q", p.text, p.want)
				}
			}
		}
		if len(p.want) > 0 && isError(p.want[0]) {
			bad++
		}
		want = append(want, p.want...)
		text.WriteString(p.text)
		text.WriteString(";")
	}
	got := t.outcomes(text.String())
	for i := 0; i < len(got) || i < len(want); i++ {
		if i >= len(got) || i >= len(want) || got[i] != want[i] {
			t.Failf("%q\nresult %d is %q, but alone the statement gives %q\nall: %q\nwant: %q", text.String(), i,
				at(got, i), at(want, i), got, want)
		}
	}
	t.Count("parts", len(ps))
	t.Count("broken parts", bad)
	t.Count("results compared", len(got))
	t.Distinct(text.String())
	t.Sample("%q -> %q", text.String(), got)
}

func at(l []string, i int) string {
	if i < len(l) {
		return l[i]
	}
	return "(none)"
}

// ---------------------------------------------------------------- C25

func init() {
	register(&Check{ID: "C25",
		Rule: "all pairs of binary operators with all short prefix combinations, sampled longer chains, with parentheses, calls, " +
			"subqueries, IN, ANY, IS NULL, in every place a statement has for an expression; the expected tree is made by a " +
			"precedence climber over the operands; distinct by token sequence",
		Run: func(c *Ctx) {
			n := len(refOps)
			c.Phase("pairs", n*n, exprPairs)
			c.Phase("triples", n*n*n, exprTriple)
			c.Phase("chains", c.N(12000, 200000), exprChain)
			c.Phase("places", c.N(8000, 100000), exprPlaces)
			c.Phase("parens", c.N(6000, 100000), exprParens)
		}})
}

func (t *Case) parseExprText(text string) sql.Expr {
	e, err := parser.NewParser(strings.NewReader(text), "src").ParseExpr()
	if err != nil {
		t.Failf("expression %q: %v", text, err)
	}
	return e
}

func compareExpr(t *Case, toks []tok, want sql.Expr) {
	text := plainLayout.render(t, toks)
	got := dumpAST(t.parseExprText(text))
	dw := dumpAST(want)
	if got != dw {
		t.Logf("text: %s", text)
		failDiff(t, text, got, dw)
	}
	t.Count("expressions compared", 1)
	t.Distinct(text)
	t.Sample("%s -> %s", text, dw)
}

// simpleTerms makes a chain a OP b OP c with prefix operators.
func simpleTerms(t *Case, ops []refOp, prefix []int) ([]tok, []term) {
	var toks []tok
	var ts []term
	for i := 0; i <= len(ops); i++ {
		var tm term
		for _, o := range [][]sql.Op{nil, {sql.NotOp}, {sql.NegateOp}, {sql.NotOp, sql.NegateOp}, {sql.NegateOp, sql.NotOp},
			{sql.NotOp, sql.NotOp}, {sql.NegateOp, sql.NegateOp}}[prefix[i]] {
			tm.prefix = append(tm.prefix, o)
			if o == sql.NotOp {
				toks = append(toks, tok{"NOT", tkWord})
			} else {
				toks = append(toks, tok{"-", tkOp})
			}
		}
		name := string(rune('a'+i%26)) + "_"
		toks = append(toks, tok{name, tkWord})
		tm.e = sql.Ref{types.ID(name, true)}
		if i < len(ops) {
			tm.op = ops[i]
			s := ops[i].texts[t.IntN(len(ops[i].texts))]
			k := tkOp
			if s == "AND" || s == "OR" {
				k = tkWord
			}
			toks = append(toks, tok{s, k})
		}
		ts = append(ts, tm)
	}
	return toks, ts
}

func exprPairs(t *Case) {
	n := len(refOps)
	ops := []refOp{refOps[t.index/n], refOps[t.index%n]}
	for m := 0; m < 7*7*7; m++ {
		toks, ts := simpleTerms(t, ops, []int{m % 7, m / 7 % 7, m / 49})
		compareExpr(t, toks, group(ts))
	}
}

func exprTriple(t *Case) {
	n := len(refOps)
	ops := []refOp{refOps[t.index/n/n], refOps[t.index/n%n], refOps[t.index%n]}
	toks, ts := simpleTerms(t, ops, []int{0, 0, 0, 0})
	compareExpr(t, toks, group(ts))
	toks, ts = simpleTerms(t, ops, []int{t.IntN(7), t.IntN(7), t.IntN(7), t.IntN(7)})
	compareExpr(t, toks, group(ts))
}

// exprChain: long chains of everything.
func exprChain(t *Case) {
	g := newSQLGen(t)
	n := 1 + t.IntN(8)
	if t.IntN(10) == 0 {
		n = 10 + t.IntN(40)
	}
	want := g.exprOf(n)
	compareExpr(t, g.toks, want)
}

// exprPlaces: the same expression in all the places of statements.
func exprPlaces(t *Case) {
	g := newSQLGen(t)
	g.simple = true
	e := g.exprOf(1 + t.IntN(6))
	et := g.toks
	text := plainLayout.render(t, et)
	want := dumpAST(e)
	places := []struct {
		before, after string
		get           func(s sql.Stmt) sql.Expr
	}{
		{"SELECT", "AS z", func(s sql.Stmt) sql.Expr { return s.(*sql.Select).Results[0].(sql.ExprResult).Expr }},
		{"SELECT 1 + 1,", "", func(s sql.Stmt) sql.Expr { return s.(*sql.Select).Results[1].(sql.ExprResult).Expr }},
		{"SELECT * FROM t WHERE", "", func(s sql.Stmt) sql.Expr { return s.(*sql.Select).Where }},
		{"SELECT * FROM t GROUP BY", "", func(s sql.Stmt) sql.Expr { return s.(*sql.Select).GroupBy[0] }},
		{"SELECT * FROM t GROUP BY x,", "", func(s sql.Stmt) sql.Expr { return s.(*sql.Select).GroupBy[1] }},
		{"SELECT * FROM t HAVING", "ORDER BY x", func(s sql.Stmt) sql.Expr { return s.(*sql.Select).Having }},
		{"SELECT * FROM a JOIN b ON", "", func(s sql.Stmt) sql.Expr { return s.(*sql.Select).From.(sql.FromJoin).On }},
		{"DELETE FROM t WHERE", "", func(s sql.Stmt) sql.Expr { return s.(*sql.Delete).Where }},
		{"UPDATE t SET x =", "", func(s sql.Stmt) sql.Expr { return s.(*sql.Update).ColumnUpdates[0].Expr }},
		{"UPDATE t SET x = 1 WHERE", "", func(s sql.Stmt) sql.Expr { return s.(*sql.Update).Where }},
		{"INSERT INTO t VALUES (1,", ", 2)", func(s sql.Stmt) sql.Expr { return s.(*sql.InsertValues).Rows[0][1] }},
		{"VALUES (1), (", ")", func(s sql.Stmt) sql.Expr { return s.(*sql.Values).Expressions[1][0] }},
		{"CREATE TABLE t (x INT DEFAULT", ")", func(s sql.Stmt) sql.Expr { return s.(*sql.CreateTable).ColumnDefaults[0] }},
		{"CREATE TABLE t (x INT CHECK (", "))", func(s sql.Stmt) sql.Expr { return s.(*sql.CreateTable).Constraints[0].Check }},
		{"CREATE TABLE t (x INT, CHECK (", "))", func(s sql.Stmt) sql.Expr { return s.(*sql.CreateTable).Constraints[0].Check }},
		{"SELECT f(1,", ", 2)", func(s sql.Stmt) sql.Expr {
			return s.(*sql.Select).Results[0].(sql.ExprResult).Expr.(*sql.SExpr).Args[1]
		}},
		{"SELECT 1 * (", ")", func(s sql.Stmt) sql.Expr {
			return s.(*sql.Select).Results[0].(sql.ExprResult).Expr.(*sql.BinaryExpr).Right.(*sql.UnaryExpr).Expr
		}},
		{"SELECT - f(", ") * 2", func(s sql.Stmt) sql.Expr {
			return s.(*sql.Select).Results[0].(sql.ExprResult).Expr.(*sql.BinaryExpr).Left.(*sql.UnaryExpr).Expr.(*sql.SExpr).Args[0]
		}},
		{"SELECT x IN (VALUES (", "))", func(s sql.Stmt) sql.Expr {
			return s.(*sql.Select).Results[0].(sql.ExprResult).Expr.(*sql.Subquery).Stmt.(*sql.Values).Expressions[0][0]
		}},
		{"SELECT EXISTS (SELECT", ")", func(s sql.Stmt) sql.Expr {
			return s.(*sql.Select).Results[0].(sql.ExprResult).Expr.(*sql.Subquery).Stmt.(*sql.Select).Results[0].(sql.ExprResult).Expr
		}},
		{"SELECT (", ") IS NULL", func(s sql.Stmt) sql.Expr {
			return s.(*sql.Select).Results[0].(sql.ExprResult).Expr.(*sql.SExpr).Args[0].(*sql.UnaryExpr).Expr
		}},
		{"SELECT (", ") IN (SELECT 1)", func(s sql.Stmt) sql.Expr {
			return s.(*sql.Select).Results[0].(sql.ExprResult).Expr.(*sql.Subquery).Expr.(*sql.UnaryExpr).Expr
		}},
		{"SELECT * FROM (SELECT", ") AS z", func(s sql.Stmt) sql.Expr {
			return s.(*sql.Select).From.(sql.FromStmt).Stmt.(*sql.Select).Results[0].(sql.ExprResult).Expr
		}},
		{"EXPLAIN SELECT 1 WHERE", "", func(s sql.Stmt) sql.Expr { return s.(*sql.Explain).Stmt.(*sql.Select).Where }},
	}
	pl := places[t.index%len(places)]
	full := pl.before + " " + text + " " + pl.after
	s := t.parseOne(full)
	var got sql.Expr
	if p := Try(func() { got = pl.get(s) }); p != nil {
		t.Failf("%q has no expression in its place: %s", full, dumpAST(s))
	}
	if d := dumpAST(got); d != want {
		failDiff(t, full, d, want)
	}
	t.Count("places", 1)
	t.Distinct(full)
}

// exprParens: writing out the grouping with parentheses gives the same tree but for them.
func exprParens(t *Case) {
	n := 1 + t.IntN(7)
	var ops []refOp
	prefix := []int{t.IntN(7)}
	for i := 0; i < n; i++ {
		ops = append(ops, refOps[t.IntN(len(refOps))])
		prefix = append(prefix, t.IntN(7))
		if t.IntN(2) == 0 {
			prefix[i] = 0
		}
	}
	toks, ts := simpleTerms(t, ops, prefix)
	tree := group(ts)
	text := fullParens(t, tree)
	bare := plainLayout.render(t, toks)
	a, b := t.parseExprText(text), t.parseExprText(bare)
	if da, db := dumpAST(stripParens(a)), dumpAST(b); da != db {
		failDiff(t, bare+"  against  "+text, db, da)
	}
	// A pair of parentheses anywhere around an operand changes nothing else.
	i := t.IntN(len(toks))
	if toks[i].kind == tkWord && strings.HasSuffix(toks[i].text, "_") {
		out := append(append(append([]tok(nil), toks[:i]...), tok{"(", tkPunct}, toks[i], tok{")", tkPunct}), toks[i+1:]...)
		c := t.parseExprText(plainLayout.render(t, out))
		if dc, db := dumpAST(stripParens(c)), dumpAST(b); dc != db {
			failDiff(t, plainLayout.render(t, out), dc, db)
		}
	}
	t.Count("pairs compared", 1)
	t.Distinct(bare)
}

func fullParens(t *Case, e sql.Expr) string {
	switch e := e.(type) {
	case *sql.UnaryExpr:
		op := "-"
		if e.Op == sql.NotOp {
			op = "NOT"
		}
		return op + " (" + fullParens(t, e.Expr) + ")"
	case *sql.BinaryExpr:
		for _, o := range refOps {
			if o.op == e.Op {
				return "(" + fullParens(t, e.Left) + ") " + o.texts[0] + " (" + fullParens(t, e.Right) + ")"
			}
		}
		panic("op")
	}
	return e.String()
}

// stripParens takes the nodes of parentheses out of an expression, in place.
func stripParens(e sql.Expr) sql.Expr {
	switch e := e.(type) {
	case *sql.UnaryExpr:
		if e.Op == sql.NoOp {
			return stripParens(e.Expr)
		}
		e.Expr = stripParens(e.Expr)
	case *sql.BinaryExpr:
		e.Left = stripParens(e.Left)
		e.Right = stripParens(e.Right)
	case *sql.SExpr:
		for i := range e.Args {
			e.Args[i] = stripParens(e.Args[i])
		}
	case *sql.Subquery:
		if e.Expr != nil {
			e.Expr = stripParens(e.Expr)
		}
		stripStmt(e.Stmt)
	}
	return e
}

func stripFrom(fi sql.FromItem) sql.FromItem {
	switch fi := fi.(type) {
	case sql.FromJoin:
		fi.Left = stripFrom(fi.Left)
		fi.Right = stripFrom(fi.Right)
		if fi.On != nil {
			fi.On = stripParens(fi.On)
		}
		return fi
	case sql.FromStmt:
		stripStmt(fi.Stmt)
	}
	return fi
}

func stripStmt(s sql.Stmt) {
	opt := func(e *sql.Expr) {
		if *e != nil {
			*e = stripParens(*e)
		}
	}
	list := func(es []sql.Expr) {
		for i := range es {
			opt(&es[i])
		}
	}
	switch s := s.(type) {
	case *sql.Select:
		for i, r := range s.Results {
			if er, ok := r.(sql.ExprResult); ok {
				er.Expr = stripParens(er.Expr)
				s.Results[i] = er
			}
		}
		if s.From != nil {
			s.From = stripFrom(s.From)
		}
		opt(&s.Where)
		list(s.GroupBy)
		opt(&s.Having)
	case *sql.Values:
		for _, r := range s.Expressions {
			list(r)
		}
	case *sql.InsertValues:
		for _, r := range s.Rows {
			list(r)
		}
	case *sql.Update:
		for i := range s.ColumnUpdates {
			opt(&s.ColumnUpdates[i].Expr)
		}
		opt(&s.Where)
	case *sql.Delete:
		opt(&s.Where)
	case *sql.Explain:
		stripStmt(s.Stmt)
	case *sql.CreateTable:
		list(s.ColumnDefaults)
		for i := range s.Constraints {
			opt(&s.Constraints[i].Check)
			if s.Constraints[i].Check != nil {
				s.Constraints[i].ColNum = -1 // printed as a check of the table
			}
		}
	}
}

// ---------------------------------------------------------------- C27

func init() {
	register(&Check{ID: "C27",
		Rule: "token sequences of statements of every kind, and broken ones, each written in many layouts (white space of every kind " +
			"or none where none is needed, comments, letter case); distinct by text",
		Run: func(c *Ctx) {
			c.Phase("valid", c.N(6000, 80000), func(t *Case) { layouts(t, false) })
			c.Phase("broken", c.N(4000, 50000), func(t *Case) { layouts(t, true) })
		}})
}

func layouts(t *Case, broken bool) {
	g := newSQLGen(t)
	k := stmtKinds[t.IntN(len(stmtKinds))]
	for k == "copy" {
		k = stmtKinds[t.IntN(len(stmtKinds))]
	}
	want := dumpAST(g.stmt(k))
	toks := g.toks
	if broken {
		toks = breakTokens(t, toks)
		if adjacentStrings(toks) {
			return
		}
		out := t.outcomes(plainLayout.render(t, toks))
		want = strings.Join(out, "; ")
		if len(out) > 0 && isError(out[0]) {
			want = "error"
		}
	}
	for n := 0; n < 6; n++ {
		text := genLayout(t).render(t, toks)
		if t.IntN(3) == 0 {
			text = layout{spaces: wildSpaces, comments: true}.gap(t) + text
		}
		if t.IntN(3) == 0 {
			text += " " + layout{spaces: wildSpaces, comments: true}.gap(t)
		}
		out := t.outcomes(text)
		got := strings.Join(out, "; ")
		if broken && len(out) > 0 && isError(out[0]) {
			got = "error"
		}
		if got != want {
			t.Logf("plain: %s", plainLayout.render(t, toks))
			failDiff(t, text, got, want)
		}
		t.Count("layouts compared", 1)
		t.Distinct(text)
		t.Sample("%q", text)
	}
}

// ---------------------------------------------------------------- C29

func init() {
	register(&Check{ID: "C29",
		Rule: "statements and expressions over plain names and the literals that print as literals, parsed, printed, parsed again; " +
			"the two trees must be the same but for parentheses, and the print of the second the same text; distinct by printed text",
		Run: func(c *Ctx) {
			for _, k := range stmtKinds {
				c.Phase(k, c.N(700, 10000), func(t *Case) { printAgain(t, k) })
			}
			c.Phase("expressions", c.N(10000, 150000), printExpr)
		}})
}

func printAgain(t *Case, kind string) {
	g := newSQLGen(t)
	g.print = true
	want := g.stmt(kind)
	text := plainLayout.render(t, g.toks)
	parse := func(text string) sql.Stmt {
		if kind == "copy" {
			s, err := parser.NewParser(strings.NewReader(text+";\n"), "src").Parse()
			if err != nil {
				t.Failf("%q does not parse: %v", text, err)
			}
			return s
		}
		return t.parseOne(text)
	}
	t.Logf("text: %s", text)
	s1 := parse(text)
	p1 := s1.String()
	t.Logf("printed: %s", p1)
	s2 := parse(p1)
	p2 := s2.String()
	stripStmt(s1)
	stripStmt(s2)
	stripStmt(want)
	d1, d2 := dumpAST(s1), dumpAST(s2)
	if d1 != d2 {
		failDiff(t, text+"  printed as  "+p1, d2, d1)
	}
	if cd, ok := s1.(*sql.CreateDatabase); ok && len(cd.Options) > 1 {
		p2 = p1 // printed in any order
	}
	if p1 != p2 {
		t.Failf("%q prints as\n%s\nwhich prints as\n%s", text, p1, p2)
	}
	t.Count("round trips", 1)
	t.Distinct(p1)
	t.Sample("%s -> %s", text, p1)
}

func printExpr(t *Case) {
	g := newSQLGen(t)
	g.print = true
	g.exprOf(1 + t.IntN(8))
	text := plainLayout.render(t, g.toks)
	t.Logf("text: %s", text)
	e1 := t.parseExprText(text)
	p1 := e1.String()
	e2 := t.parseExprText(p1)
	p2 := e2.String()
	if d1, d2 := dumpAST(stripParens(e1)), dumpAST(stripParens(e2)); d1 != d2 {
		failDiff(t, text+"  printed as  "+p1, d2, d1)
	}
	if p1 != p2 {
		t.Failf("%q prints as\n%s\nwhich prints as\n%s", text, p1, p2)
	}
	t.Count("round trips", 1)
	t.Distinct(p1)
}
