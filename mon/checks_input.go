package main

// The parser at its edges: C23 (any input), C26 (literals), C30 (faults and positions), C31 (COPY),
// C32 (table definitions), C33 (console).

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/types"
)

// watchedReader counts what the parser reads.
type watchedReader struct {
	r      *strings.Reader
	reads  int
	atEnd  int // reads after the end was reported
	ended  bool
	failAt int   // rune at which to fail; -1 for never
	fail   error // what with
	once   bool  // only once
	failed int
}

func newWatchedReader(text string) *watchedReader {
	return &watchedReader{r: strings.NewReader(text), failAt: -1}
}

func (w *watchedReader) ReadRune() (rune, int, error) {
	if w.failAt >= 0 && w.reads >= w.failAt && (!w.once || w.failed == 0) {
		w.failed++
		return 0, 0, w.fail
	}
	w.reads++
	if w.ended {
		w.atEnd++
	}
	r, n, err := w.r.ReadRune()
	if err != nil {
		w.ended = true
	}
	return r, n, err
}

// ---------------------------------------------------------------- C23

func init() {
	register(&Check{ID: "C23",
		Rule: "byte soup, chunks of SQL in any order, statements changed byte by byte and cut anywhere, and structures repeated and " +
			"nested thousands of times, read through a counting reader; distinct by input",
		Run: func(c *Ctx) {
			c.Phase("bytes", c.N(20000, 300000), func(t *Case) { total(t, string(soup(t))) })
			c.Phase("chunks", c.N(30000, 500000), func(t *Case) { total(t, chunkSoup(t)) })
			c.Phase("mutants", c.N(30000, 500000), func(t *Case) { total(t, mutant(t)) })
			rounds := 3
			if c.Quick {
				rounds = 1
			}
			c.Phase("growth", len(growthShapes)*rounds, growth)
		}})
}

const soupBytes = " \n;'\"`[]()-+*/.,@$=<>!|&%\\eEbBxX019azAZ_\xc3\xa9\x80\xff\x00"

func soup(t *Case) []byte {
	b := make([]byte, t.IntN(200))
	mode := t.IntN(3)
	for i := range b {
		switch {
		case mode == 0:
			b[i] = byte(t.IntN(256))
		case mode == 1:
			b[i] = byte(t.IntN(128))
		default:
			b[i] = soupBytes[t.IntN(len(soupBytes))]
		}
	}
	return b
}

var sqlChunks = []string{"'", "\"", "`", "[", "]", "e'", "b'", "x'", "E'\\", "X'0", "--", "/*", "*/", ";", ";;", "(", ")", ",", ".",
	"@", "$1", "$", "-", "+", "*", "=", "==", "<>", "<=", "||", "|", "&", "!", "!=", "<<", ">>", "%", "/", "1", "0", "1.5", "3.", ".5",
	"99999999999999999999", "9223372036854775808", "-9223372036854775808", strings.Repeat("9", 400) + ".0", "\\x41", "\\u", "\\777",
	"\n", "\t", "\x00", "\xff", "\u00a0", "\ufeff", "é", "'a'\n'b'", "TRUE", "NULL", "NOT", "IN (", "IS NOT", "IS", "ANY", "EXISTS(",
	"COUNT(*)", "SELECT", "FROM t", "WHERE", "GROUP BY", "ORDER BY x", "HAVING", "JOIN", "ON", "USING (", "CROSS", "LEFT OUTER JOIN",
	"INSERT INTO t", "VALUES (", "DEFAULT", "UPDATE t SET", "DELETE FROM", "CREATE TABLE t (", "INT", "VARCHAR(", "PRIMARY KEY",
	"UNIQUE", "CHECK (", "REFERENCES", "FOREIGN KEY (", "CONSTRAINT", "CREATE DATABASE d WITH", "DROP TABLE IF EXISTS", "CASCADE",
	"ALTER TABLE t", "ADD", "DROP CONSTRAINT", "COPY t FROM STDIN", "COPY t (a) FROM STDIN DELIMITER '|';\n", "EXPLAIN", "SHOW",
	"SHOW TABLES FROM", "SET", "TO", "USE", "BEGIN", "COMMIT", "START TRANSACTION", "PREPARE", "EXECUTE", "DETACH", "AS", "a", "t.",
	"ON DELETE SET", "NULL", "ALL (", "SOME"}

func chunkSoup(t *Case) string {
	var b strings.Builder
	for n := 1 + t.IntN(30); n > 0; n-- {
		b.WriteString(sqlChunks[t.IntN(len(sqlChunks))])
		if t.IntN(3) > 0 {
			b.WriteString(" ")
		}
	}
	return b.String()
}

func mutant(t *Case) string {
	g := newSQLGen(t)
	g.stmt(stmtKinds[t.IntN(len(stmtKinds))])
	b := []byte(genLayout(t).render(t, g.toks))
	for n := t.IntN(4); n > 0 && len(b) > 0; n-- {
		i := t.IntN(len(b))
		switch t.IntN(5) {
		case 0:
			b = append(b[:i], b[i+1:]...)
		case 1:
			b[i] = byte(t.IntN(256))
		case 2:
			b = append(b[:i:i], append([]byte(sqlChunks[t.IntN(len(sqlChunks))]), b[i:]...)...)
		case 3:
			b = b[:i]
		case 4:
			j := t.IntN(len(b))
			b = append(b[:i:i], b[min(i, j):max(i, j)]...)
		}
	}
	return string(b)
}

// total parses a text to its end and complains about anything but statements and errors.
func total(t *Case, text string) {
	t.Logf("text: %q", text)
	w := newWatchedReader(text)
	runes := utf8.RuneCountInString(text)
	p := parser.NewParser(w, "src")
	calls, stmts, errs := 0, 0, 0
	for {
		s, err := p.Parse()
		calls++
		if err == io.EOF {
			if s != nil {
				t.Failf("%q: a statement along with the end of the input: %v", text, s)
			}
			break
		}
		if err != nil && s != nil {
			t.Failf("%q: both a statement and an error: %v: %v", text, s, err)
		}
		if calls > runes+2 {
			t.Failf("%q: %d results and no end", text, calls)
		}
		if err != nil {
			errs++
			if err.Error() == "" {
				t.Failf("%q: an error without a message", text)
			}
		} else {
			stmts++
			if s != nil {
				if pan := Try(func() { _ = s.String() }); pan != nil {
					t.Failf("%q: printing %s panics: %v", text, dumpAST(s), pan)
				}
			}
		}
	}
	for i := 0; i < 3; i++ {
		if s, err := p.Parse(); err != io.EOF || s != nil {
			t.Failf("%q: after the end of the input: %v %v", text, s, err)
		}
		calls++
	}
	if w.atEnd > 4*calls {
		t.Failf("%q: read %d times after the end of the input, in %d calls", text, w.atEnd, calls)
	}
	if w.reads-w.atEnd > runes+1 {
		t.Failf("%q: %d reads for %d characters", text, w.reads-w.atEnd, runes)
	}
	e, err := parser.NewParser(strings.NewReader(text), "src").ParseExpr()
	if err == nil {
		if pan := Try(func() { _ = e.String() }); pan != nil {
			t.Failf("%q: printing the expression panics: %v", text, pan)
		}
		t.Count("expressions", 1)
	}
	t.Count("characters", runes)
	t.Count("statements", stmts)
	t.Count("errors", errs)
	t.Distinct(text)
	if stmts > 1 {
		t.Sample("%q -> %d statements, %d errors", text, stmts, errs)
	}
}

// growthShapes are structures of a size; what the size means is up to the shape.
var growthShapes = []struct {
	name string
	size int
	make func(n int) string
}{
	{"parens", 1500, func(n int) string { return "SELECT " + strings.Repeat("(", n) + "1" + strings.Repeat(")", n) }},
	{"open parens", 5000, func(n int) string { return "SELECT " + strings.Repeat("(", n) }},
	{"negations", 1500, func(n int) string { return "SELECT " + strings.Repeat("- ", n) + "x" }},
	{"nots", 1500, func(n int) string { return "SELECT " + strings.Repeat("NOT ", n) + "x" }},
	{"mixed prefixes", 600, func(n int) string { return "SELECT " + strings.Repeat("NOT - ", n) + "x * 2 AND y" }},
	{"one operator", 250, func(n int) string { return "SELECT a" + strings.Repeat(" + a", n) }},
	{"falling", 150, func(n int) string { return "SELECT a" + strings.Repeat(" || a * a + a << a < a = a AND a OR a", n/8) }},
	{"rising", 150, func(n int) string { return "SELECT a" + strings.Repeat(" OR a AND a = a < a << a + a * a || a", n/8) }},
	{"negated operands", 150, func(n int) string { return "SELECT - a" + strings.Repeat(" * - a + NOT a", n/2) }},
	{"nested operators", 250, func(n int) string { return "SELECT " + strings.Repeat("(a + ", n) + "a" + strings.Repeat(") * b", n) }},
	{"calls", 1000, func(n int) string { return "SELECT " + strings.Repeat("f(1, ", n) + "a" + strings.Repeat(")", n) }},
	{"arguments", 20000, func(n int) string { return "SELECT f(1" + strings.Repeat(", 1", n) + ")" }},
	{"subqueries", 300, func(n int) string { return "SELECT " + strings.Repeat("(SELECT ", n) + "a" + strings.Repeat(")", n) }},
	{"in chain", 1000, func(n int) string { return "SELECT a" + strings.Repeat(" IN (SELECT 1)", n) }},
	{"is null chain", 1000, func(n int) string { return "SELECT a" + strings.Repeat(" IS NOT NULL", n) }},
	{"from parens", 2000, func(n int) string { return "SELECT * FROM " + strings.Repeat("(", n) + "t" + strings.Repeat(")", n) }},
	{"from nested", 300, func(n int) string {
		return "SELECT * FROM " + strings.Repeat("(SELECT * FROM ", n) + "t" + strings.Repeat(") AS a", n)
	}},
	{"joins", 1000, func(n int) string { return "SELECT * FROM t" + strings.Repeat(" JOIN t ON a = b", n) }},
	{"nested joins", 1000, func(n int) string {
		return "SELECT * FROM t" + strings.Repeat(" JOIN t", n) + strings.Repeat(" ON a = b", n)
	}},
	{"tables", 10000, func(n int) string { return "SELECT * FROM t" + strings.Repeat(", t", n) }},
	{"rows", 10000, func(n int) string { return "INSERT INTO t VALUES (1)" + strings.Repeat(", (1)", n) }},
	{"columns", 1500, func(n int) string {
		var b strings.Builder
		b.WriteString("CREATE TABLE t (a INT")
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, ", c%d INT UNIQUE", i)
		}
		return b.String() + ")"
	}},
	{"key columns", 1500, func(n int) string {
		var b strings.Builder
		b.WriteString("CREATE INDEX i ON t (a")
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, ", c%d DESC", i)
		}
		return b.String() + ")"
	}},
	{"references", 10000, func(n int) string { return "SELECT a" + strings.Repeat(".a", n) }},
	{"long name", 4000, func(n int) string { return "SELECT " + strings.Repeat("a", n) }},
	{"long string", 300000, func(n int) string { return "SELECT '" + strings.Repeat("a", n) + "'" }},
	{"string pieces", 50000, func(n int) string { return "SELECT 'a'" + strings.Repeat("\n'a'", n) }},
	{"quotes", 100000, func(n int) string { return "SELECT '" + strings.Repeat("''", n) + "'" }},
	{"digits", 20000, func(n int) string { return "SELECT " + strings.Repeat("1", n) }},
	{"fraction", 20000, func(n int) string { return "SELECT 1." + strings.Repeat("1", n) }},
	{"hex", 100000, func(n int) string { return "SELECT x'" + strings.Repeat("ab", n) + "'" }},
	{"comments", 50000, func(n int) string { return strings.Repeat("/* */ -- \n", n) + "SELECT 1" }},
	{"stars", 300000, func(n int) string { return "/*" + strings.Repeat("*", n) }},
	{"spaces", 300000, func(n int) string { return strings.Repeat(" ", n) + "SELECT 1" }},
	{"semicolons", 50000, func(n int) string { return strings.Repeat(";", n) }},
	{"statements", 20000, func(n int) string { return strings.Repeat("BEGIN;", n) }},
	{"errors", 20000, func(n int) string { return strings.Repeat("x;", n) }},
	{"no semicolon", 50000, func(n int) string { return strings.Repeat("x ", n) }},
	{"bad tokens", 20000, func(n int) string { return strings.Repeat("# ", n) + ";" }},
	{"bad strings", 20000, func(n int) string { return strings.Repeat("e'\\x' ", n) }},
	{"options", 10000, func(n int) string { return "CREATE DATABASE d WITH" + strings.Repeat(" a 1", n) }},
	{"actions", 3000, func(n int) string {
		return "ALTER TABLE t DROP CONSTRAINT a" + strings.Repeat(", DROP CONSTRAINT a", n)
	}},
	{"exists nested", 300, func(n int) string {
		return "SELECT " + strings.Repeat("EXISTS (SELECT ", n) + "a" + strings.Repeat(")", n)
	}},
	{"in nested", 300, func(n int) string {
		return "SELECT " + strings.Repeat("a IN (SELECT ", n) + "a" + strings.Repeat(")", n)
	}},
	{"any nested", 300, func(n int) string {
		return "SELECT " + strings.Repeat("a = ANY (SELECT NOT ", n) + "a" + strings.Repeat(")", n)
	}},
	{"all chain", 500, func(n int) string { return "SELECT a" + strings.Repeat(" < ALL (VALUES (1))", n) }},
	{"negated parens", 600, func(n int) string {
		return "SELECT " + strings.Repeat("- (", n) + "a" + strings.Repeat(")", n)
	}},
	{"nots and parens", 400, func(n int) string {
		return "SELECT " + strings.Repeat("NOT (b AND ", n) + "a" + strings.Repeat(" OR c)", n)
	}},
	{"calls and operators", 300, func(n int) string {
		return "SELECT " + strings.Repeat("f(a * ", n) + "a" + strings.Repeat(" + b) - c", n)
	}},
	{"values nested", 300, func(n int) string {
		return strings.Repeat("VALUES ((", n) + "SELECT 1" + strings.Repeat("))", n)
	}},
	{"wheres", 200, func(n int) string {
		return strings.Repeat("SELECT a FROM t WHERE b = (", n) + "VALUES (1)" + strings.Repeat(")", n)
	}},
	{"joined subqueries", 200, func(n int) string {
		return "SELECT * FROM " + strings.Repeat("(SELECT * FROM t JOIN ", n) + "t" +
			strings.Repeat(" ON a) AS a", n)
	}},
	{"join parens", 400, func(n int) string {
		return "SELECT * FROM " + strings.Repeat("(t JOIN ", n) + "t" + strings.Repeat(" ON a = b)", n)
	}},
	{"checks", 200, func(n int) string {
		return "CREATE TABLE t (a INT CHECK " + strings.Repeat("(b + ", n) + "a" + strings.Repeat(")", n) + ")"
	}},
	{"default", 300, func(n int) string {
		return "CREATE TABLE t (a INT DEFAULT 1" + strings.Repeat(" + 1", n) + ")"
	}},
	{"sets", 3000, func(n int) string { return "UPDATE t SET a = 1" + strings.Repeat(", a = a + 1", n) }},
	{"order", 5000, func(n int) string { return "SELECT a ORDER BY a" + strings.Repeat(", a DESC", n) }},
	{"group", 3000, func(n int) string { return "SELECT a FROM t GROUP BY a" + strings.Repeat(", a + 1", n) }},
	{"results", 5000, func(n int) string { return "SELECT a AS b" + strings.Repeat(", a AS b", n) }},
	{"aliases", 3000, func(n int) string {
		return "SELECT * FROM (SELECT 1) AS a (b" + strings.Repeat(", b", n) + ")"
	}},
	{"drops", 5000, func(n int) string { return "DROP TABLE t" + strings.Repeat(", a.b.t", n) }},
}

// cpuTime is what the worker has used; unlike the time of day it does not count waiting for a busy machine.
func cpuTime() time.Duration {
	var u syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &u); err != nil {
		panic(err)
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// growth: doubling a structure must not blow up the work. A case that never ends is stopped by the
// driver.
func growth(t *Case) {
	sh := growthShapes[t.index%len(growthShapes)]
	size := sh.size << (t.index / len(growthShapes))
	measure := func(n int) (time.Duration, int) {
		text := sh.make(n)
		start := cpuTime()
		p := parser.NewParser(strings.NewReader(text), "src")
		results := 0
		for {
			s, err := p.Parse()
			if err == io.EOF {
				break
			}
			results++
			if err == nil && s != nil {
				if pan := Try(func() { _ = s.String() }); pan != nil {
					t.Failf("%s of size %d: printing panics: %v", sh.name, n, pan)
				}
			}
			if results > len(text)+1 {
				t.Failf("%s of size %d: %d results and no end", sh.name, n, results)
			}
		}
		return cpuTime() - start, results
	}
	half, _ := measure(size / 2)
	full, results := measure(size)
	t.Logf("%s: %v for %d, %v for %d", sh.name, half, size/2, full, size)
	if full > 5*time.Second && full > 40*half {
		t.Failf("%s: %v for %d, but %v for %d", sh.name, half, size/2, full, size)
	}
	t.Count("growth microseconds", int(full.Microseconds()))
	t.Count("growth results", results)
	t.Distinct(fmt.Sprintf("%s %d", sh.name, size))
}

// ---------------------------------------------------------------- C26

func init() {
	register(&Check{ID: "C26",
		Rule: "all code points as \\u escapes, all bytes as \\x and octal escapes, boundary and random integers, floats against exact " +
			"rational rounding, texts and byte strings in random spellings, quoted names, several in one statement; and literals that " +
			"denote nothing, in any position; distinct by literal text",
		Run: func(c *Ctx) {
			c.Phase("code-points", 256, litCodePoints)
			c.Phase("octets", 8, litOctets)
			c.Phase("numbers", c.N(6000, 100000), litNumbers)
			c.Phase("texts", c.N(12000, 200000), litTexts)
			c.Phase("names", c.N(6000, 100000), litNames)
			c.Phase("many", c.N(6000, 100000), litMany)
			c.Phase("bad", c.N(12000, 150000), litBad)
			c.Phase("pieces", c.N(4000, 50000), litPieces)
		}})
}

// parseLiterals parses VALUES (lit, lit, ...) and returns the values.
func (t *Case) parseLiterals(lits []string) []types.Value {
	text := "VALUES (" + strings.Join(lits, ", ") + ")"
	s := t.parseOne(text)
	row := s.(*sql.Values).Expressions[0]
	if len(row) != len(lits) {
		t.Failf("%q: %d values", text, len(row))
	}
	var vals []types.Value
	for i, e := range row {
		l, ok := e.(sql.Literal)
		if !ok {
			t.Failf("%s in %q is no literal but %s", lits[i], text, dumpAST(e))
		}
		vals = append(vals, l.Value)
	}
	return vals
}

func (t *Case) wantLiterals(lits []string, want []types.Value) {
	vals := t.parseLiterals(lits)
	for i := range want {
		if !identical(vals[i], want[i]) {
			t.Failf("%s denotes %s but got %s (literal %d of %q)", lits[i], show(want[i]), show(vals[i]), i, lits)
		}
		t.Distinct(lits[i])
	}
	t.Count("literals compared", len(want))
}

// mustFail parses a statement that holds a bad literal.
func (t *Case) mustFail(text, why string) {
	p := parser.NewParser(strings.NewReader(text), "src")
	s, err := p.Parse()
	if err == nil {
		t.Failf("%q (%s) parses to %s", text, why, dumpAST(s))
	} else if err == io.EOF {
		t.Failf("%q (%s) is taken for the end of the input", text, why)
	}
	t.Count("bad literals", 1)
	t.Distinct(text)
}

func litCodePoints(t *Case) {
	var lits []string
	var want []types.Value
	for lo := 0; lo < 256; lo++ {
		r := rune(t.index<<8 | lo)
		u := fmt.Sprintf([]string{"%04x", "%04X"}[lo%2], r)
		if r >= 0xd800 && r < 0xe000 {
			t.mustFail("SELECT e'\\u"+u+"'", "a surrogate")
			t.mustFail("SELECT e'\\U0000"+u+"'", "a surrogate")
			continue
		}
		lits = append(lits, "e'\\u"+u+"'", "E'<\\U0000"+u+">'")
		want = append(want, types.StringValue(string(r)), types.StringValue("<"+string(r)+">"))
		if r != 0 && r != '\'' {
			lits = append(lits, "'"+string(r)+"'")
			want = append(want, types.StringValue(string(r)))
		}
	}
	// Other planes.
	for n := 0; n < 8; n++ {
		r := rune(0x10000 + t.IntN(0x100000))
		lits = append(lits, fmt.Sprintf("e'\\U%08x'", r), "'"+string(r)+"'")
		want = append(want, types.StringValue(string(r)), types.StringValue(string(r)))
		bad := uint32(0x110000) + uint32(t.Uint64()%0xffef0000)
		t.mustFail(fmt.Sprintf("SELECT e'\\U%08X'", bad), "not a code point")
	}
	t.wantLiterals(lits, want)
}

func litOctets(t *Case) {
	var lits []string
	var want []types.Value
	for lo := 0; lo < 32; lo++ {
		c := t.index*32 + lo
		for _, f := range []string{"\\x%02x", "\\x%02X", "\\%03o"} {
			x := fmt.Sprintf(f, c)
			lits = append(lits, "e'"+x+"'", "b'"+x+"'", "b'a"+x+"b'", "e'"+x+x+"'")
			want = append(want, types.StringValue(string(rune(c))), types.BytesValue{byte(c)},
				types.BytesValue{'a', byte(c), 'b'}, types.StringValue(string(rune(c))+string(rune(c))))
		}
		lits = append(lits, fmt.Sprintf("x'%02x'", c), fmt.Sprintf("X'00%02XfF'", c))
		want = append(want, types.BytesValue{byte(c)}, types.BytesValue{0, byte(c), 255})
		// What follows an escape is not part of it.
		lits = append(lits, fmt.Sprintf("e'\\x%02xa'", c), fmt.Sprintf("b'\\%03o7'", c))
		want = append(want, types.StringValue(string(rune(c))+"a"), types.BytesValue{byte(c), '7'})
	}
	for r, s := range shortEscapes {
		lits = append(lits, "e'"+s+"'", "b'"+s+"'", "'"+s+"'")
		want = append(want, types.StringValue(string(r)), types.BytesValue{byte(r)}, types.StringValue(s))
	}
	lits = append(lits, `e'\\'`, `e'\''`, `b'\\'`, `'\'`, `e''''`, `b''''`, `''''`, `''`, `e''`, `b''`, `x''`)
	want = append(want, types.StringValue(`\`), types.StringValue(`'`), types.BytesValue(`\`), types.StringValue(`\`),
		types.StringValue(`'`), types.BytesValue(`'`), types.StringValue(`'`), types.StringValue(""), types.StringValue(""),
		types.BytesValue{}, types.BytesValue{})
	t.wantLiterals(lits, want)
	for o := 0400 + t.index*32; o < 0400+(t.index+1)*32; o++ {
		t.mustFail(fmt.Sprintf("SELECT e'\\%o'", o), "octal escape out of range")
		t.mustFail(fmt.Sprintf("SELECT b'\\%o'", o), "octal escape out of range")
	}
}

func litNumbers(t *Case) {
	var lits []string
	var want []types.Value
	maxInt := new(big.Int).SetUint64(1 << 63)
	for n := 0; n < 6; n++ {
		// An integer around a boundary or of random length.
		var i *big.Int
		switch t.IntN(4) {
		case 0:
			i = new(big.Int).Add(maxInt, big.NewInt(int64(t.IntN(7)-3)))
		case 1:
			i = new(big.Int).Lsh(big.NewInt(1), uint(t.IntN(70)))
			i.Add(i, big.NewInt(int64(t.IntN(3)-1)))
		case 2:
			i = big.NewInt(int64(t.Uint64() >> (1 + t.IntN(63))))
		default:
			i = new(big.Int).Mul(new(big.Int).SetUint64(t.Uint64()), new(big.Int).SetUint64(t.Uint64()>>t.IntN(64)))
		}
		s := strings.Repeat("0", t.IntN(3)*t.IntN(12)) + i.String()
		neg := t.IntN(2) == 0
		if neg {
			s = "-" + s
			i = new(big.Int).Neg(i)
		} else if t.IntN(3) == 0 {
			s = "+" + s
		}
		if i.IsInt64() {
			lits = append(lits, s)
			want = append(want, types.Int64Value(i.Int64()))
		} else {
			t.mustFail("SELECT "+s, "out of range")
		}
		// A float.
		digits := func(n int) string {
			b := make([]byte, n)
			for i := range b {
				b[i] = byte('0' + t.IntN(10))
			}
			return string(b)
		}
		whole, frac := digits(1+t.IntN(20)), digits(t.IntN(25))
		switch t.IntN(12) {
		case 0:
			whole = digits(280 + t.IntN(40))
		case 1:
			whole, frac = "0", strings.Repeat("0", 280+t.IntN(60))+digits(1+t.IntN(20))
		case 2:
			// Half way between two floats, and next to it.
			m := int64(1)<<53 + int64(t.IntN(1<<20))*2
			whole = strconv.FormatInt(m+1, 10)
			frac = []string{"0", strings.Repeat("0", 30) + "1", "", "00"}[t.IntN(4)]
		}
		s = whole + "." + frac
		r, ok := new(big.Rat).SetString(strings.TrimSuffix(s, "."))
		if !ok {
			panic(s)
		}
		f, _ := r.Float64()
		sign := ""
		if t.IntN(3) == 0 {
			sign = "-"
			f = -f
		}
		if f > 1.7976931348623157e308 || f < -1.7976931348623157e308 {
			t.mustFail("SELECT "+sign+s, "out of range")
			continue
		}
		lits = append(lits, sign+s)
		want = append(want, types.Float64Value(f))
	}
	t.wantLiterals(lits, want)
	// A number ends where no digit follows; letters next to it are the next word.
	n := t.Uint64() >> (1 + t.IntN(63))
	digits := strconv.FormatUint(n, 10)
	name := []string{"_1", "_000", "e5", "E5", "e", "x1f", "xyz", "b01", "o7", "f", "d", "L", "B"}[t.IntN(12)]
	num, val := digits, types.Value(types.Int64Value(n))
	if t.IntN(2) == 0 {
		num += "." + []string{"5", "25", "125"}[t.IntN(3)]
		f, _ := strconv.ParseFloat(num, 64)
		val = types.Float64Value(f)
	}
	text := "SELECT " + num + name
	sel := t.parseOne(text).(*sql.Select)
	if len(sel.Results) != 1 {
		t.Failf("%q: %s", text, dumpAST(sel))
	}
	er, ok := sel.Results[0].(sql.ExprResult)
	if !ok || er.Alias != types.ID(name, false) {
		t.Failf("%q: the number ends at %s, which is a name: %s", text, name, dumpAST(sel))
	} else if l, ok := er.Expr.(sql.Literal); !ok || !identical(l.Value, val) {
		t.Failf("%q: %s denotes %s, but this is %s", text, num, show(val), dumpAST(sel))
	}
	t.mustFail("VALUES ("+num+name+")", "a number and a name")
}

func litTexts(t *Case) {
	g := newSQLGen(t)
	var lits []string
	var want []types.Value
	for n := 1 + t.IntN(4); n > 0; n-- {
		if t.IntN(3) > 0 {
			s := g.text()
			if t.IntN(20) == 0 {
				s = strings.Repeat(s+"x", 1+t.IntN(1+3000/(len(s)+1)))
			}
			lits = append(lits, g.spellString(s))
			want = append(want, types.StringValue(s))
		} else {
			b := genBytes(t, 40)
			if t.IntN(400) == 0 {
				b = []byte(g.longText(18, ""))
			}
			lits = append(lits, g.spellBytes(b))
			want = append(want, types.BytesValue(b))
		}
	}
	t.wantLiterals(lits, want)
}

// litNames: quoted names keep their text, unquoted ones are folded.
func litNames(t *Case) {
	g := newSQLGen(t)
	var names, lits []string
	for n := 1 + t.IntN(4); n > 0; n-- {
		var name string
		switch t.IntN(4) {
		case 0:
			name = g.quotedName()
		case 1:
			name = g.plainName()
		default:
			for name == "" {
				name = g.text()
			}
		}
		q := t.IntN(3)
		open, end := "\"`["[q:q+1], "\"`]"[q:q+1]
		name = strings.ReplaceAll(name, end, "x")
		if t.IntN(200) == 0 {
			name += strings.ReplaceAll(g.longText(14, ""), end, "x")
		} else if utf8.RuneCountInString(name) > 60 {
			name = "n"
		}
		names = append(names, cutName(name))
		lits = append(lits, open+name+end)
	}
	if t.IntN(100) == 0 {
		// A name without quotes, which may be as long.
		name := "n" + strings.Repeat([]string{"a", "_", "B0", "\u00e9"}[t.IntN(4)], t.IntN(1<<t.IntN(16)))
		if t.IntN(2) == 0 {
			name = strings.Repeat("$_", t.IntN(1<<t.IntN(15)))
			name = "n" + name
		}
		names = append(names, cutName(strings.ToLower(name)))
		lits = append(lits, name)
	}
	text := "SELECT " + strings.Join(lits, ".")
	s := t.parseOne(text)
	ref, ok := s.(*sql.Select).Results[0].(sql.ExprResult).Expr.(sql.Ref)
	if !ok || len(ref) != len(names) {
		t.Failf("%q parses to %s", text, dumpAST(s))
	}
	for i, id := range ref {
		if id.String() != names[i] {
			t.Failf("%q: name %d is %q, want %q", text, i, id.String(), names[i])
		}
		if id != types.ID(names[i], true) {
			t.Failf("%q: name %d is not the identifier of %q", text, i, names[i])
		}
		if id.IsReserved() {
			t.Failf("%q: quoted name %q is reserved", text, names[i])
		}
	}
	t.Count("names compared", len(names))
	t.Distinct(text)
}

// litMany: many literals of all kinds in statements of many kinds; none disturbs another.
func litMany(t *Case) {
	g := newSQLGen(t)
	var lits []string
	var want []types.Value
	for n := 5 + t.IntN(40); n > 0; n-- {
		mark := len(g.toks)
		l := g.literal(true)
		lits = append(lits, g.toks[mark].text)
		want = append(want, l.Value)
	}
	// All tokens around are literals too: f(lit, lit), lit || lit.
	sep := []string{", ", ",", "\n,\n", ",/* ' */"}[t.IntN(4)]
	text := "INSERT INTO t VALUES (" + strings.Join(lits, sep) + ")"
	s := t.parseOne(text)
	row := s.(*sql.InsertValues).Rows[0]
	for i := range want {
		l, ok := row[i].(sql.Literal)
		if !ok || !identical(l.Value, want[i]) {
			t.Failf("%s denotes %s but got %s (literal %d of %q)", lits[i], show(want[i]), dumpAST(row[i]), i, text)
		}
	}
	t.Count("literals compared", len(want))
	t.Distinct(text)
}

func litBad(t *Case) {
	g := newSQLGen(t)
	var lit, why string
	hex := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = "0123456789abcdefABCDEF"[t.IntN(22)]
		}
		return string(b)
	}
	notHex := func() string { return []string{"g", "'", " ", "x", "-", "\\", "é", "G", "\n"}[t.IntN(9)] }
	pre := []string{"", "a", "''", "é", "x y;"}[t.IntN(5)]
	open := []string{"e'", "E'", "b'"}[t.IntN(3)]
	switch t.IntN(12) {
	case 11: // a character that nothing starts with or holds
		litOdd(t)
		return
	case 0:
		lit, why = open+pre+"\\x"+hex(t.IntN(2))+notHex()+"'", "too few digits"
	case 1:
		lit, why = open+pre+"\\u"+hex(t.IntN(4))+notHex()+"'", "too few digits"
	case 2:
		lit, why = open+pre+"\\U"+hex(t.IntN(8))+notHex()+"'", "too few digits"
	case 3:
		d := "01234567"[t.IntN(8) : t.IntN(1)+8][:1]
		lit, why = open+pre+"\\"+d+[]string{"", "0", "7"}[t.IntN(3)]+[]string{"8", "'", "9", "a", " "}[t.IntN(5)]+"'", "too few digits"
	case 4:
		lit, why = []string{"x'", "X'"}[t.IntN(2)]+hex(2*t.IntN(4)+1)+"'", "odd number of digits"
	case 5:
		lit, why = []string{"x'", "X'"}[t.IntN(2)]+hex(t.IntN(5))+[]string{"g", " ", "-", "\\x00", "é", "\n"}[t.IntN(6)]+hex(t.IntN(5))+"'", "no hex digit"
	case 6:
		s := g.text()
		lit, why = g.spellString(s), "no end quote"
		lit = lit[:len(lit)-1]
		if strings.HasSuffix(lit, "'") || strings.HasSuffix(lit, "\\") {
			lit += "x"
		}
	case 7:
		lit, why = g.spellBytes(genBytes(t, 6)), "no end quote"
		lit = lit[:len(lit)-1]
	case 8:
		q := []string{"\"", "`", "["}[t.IntN(3)]
		lit, why = q+"abc; x", "no end quote"
		t.mustFail("SELECT 1, "+lit, why)
		return
	case 9:
		lit, why = fmt.Sprintf("%d%018d", 10+t.IntN(1000), t.Uint64()%1000000000000000000), "out of range"
	case 10:
		lit, why = []string{"$", "$0", "$x", "$00", "$99999999999999999999"}[t.IntN(5)], "no parameter"
	}
	// Whatever is around the literal, the statement is an error.
	before := []string{"SELECT ", "VALUES (1, ", "INSERT INTO t VALUES ('ok', ", "UPDATE t SET a = ", "DELETE FROM t WHERE a = ",
		"SELECT f(1, 2) + ", "SET x TO ", "SELECT * FROM a JOIN b ON a.x < "}[t.IntN(8)]
	after := ""
	if why != "no end quote" {
		after = []string{"", ";", ", 2", ")", " ; SELECT 1", "\n"}[t.IntN(6)]
	}
	text := before + lit + after
	t.Logf("text: %q (%s)", text, why)
	t.mustFail(text, why)
	t.Sample("%s: %q", why, text)
}

// litPieces: two strings with a line break between them are one; on one line they are two.
func litPieces(t *Case) {
	g := newSQLGen(t)
	n := 2 + t.IntN(4)
	open := []string{"'", "e'", "b'"}[t.IntN(3)]
	lit, all := open, ""
	for i := 0; i < n; i++ {
		var s string
		if open == "'" {
			s = g.text()
			lit += strings.ReplaceAll(s, "'", "''")
		} else {
			for m := t.IntN(6); m > 0; m-- {
				c := rune(t.IntN(128))
				s += string(c)
				lit += g.spellRune(c)
			}
		}
		all += s
		if i < n-1 {
			lit += "'" + []string{"\n", "\r\n", " \n ", "\n\n", "\t\r\t", "\u00a0\n"}[t.IntN(6)] + "'"
		}
	}
	lit += "'"
	want := types.Value(types.StringValue(all))
	if open == "b'" {
		want = types.BytesValue(all)
	}
	t.wantLiterals([]string{lit, "'next'"}, []types.Value{want, types.StringValue("next")})
	t.mustFail("VALUES ('a' 'b')", "two strings on one line")
	t.mustFail("VALUES ('a'\t \v'b')", "two strings on one line")
	gap := ""
	for n := 1 + t.IntN(3); n > 0; n-- {
		gap += []string{" ", "\t", "\v", "\f", "\u0085", "\u00a0", "\u1680", "\u2003", "\u2028", "\u2029", "\u202f", "\u3000"}[t.IntN(12)]
	}
	t.mustFail("VALUES ("+open+"a'"+gap+"'b')", "two strings without a line end between them")
}

// litOdd: characters that are no white space, start nothing and belong to no name.
func litOdd(t *Case) {
	odd := []rune{0, 1, 0x1c, 0x1f, 0x7f, 0xad, 0xb2, 0xbc, 0x300, 0x200b, 0x200d, 0x2060, 0x2160, 0x20ac, 0x180e, 0xfeff, 0xfffd, 0x1f600, 0xe000}
	r := odd[t.IntN(len(odd))]
	for t.IntN(2) == 0 {
		r = rune(0x80 + t.IntN(0x10ff80))
		if utf8.ValidRune(r) && !unicode.IsSpace(r) && !unicode.IsLetter(r) && !unicode.IsDigit(r) {
			break
		}
		r = odd[t.IntN(len(odd))]
	}
	form := []string{"SELECT a%cb", "SELECT a%c", "SELECT %ca", "SELECT 1%c", "SELECT 1 %c2", "SELECT%c1", "SELECT a %c FROM t", "SELECT a FROM t%c",
		"%cSELECT 1", "SELECT 1.%c5", "SELECT a AS b%cc", "VALUES (1%c, 2)", "SELECT 'a'%c", "SELECT 1 %c", "SELECT a.%cb"}[t.IntN(15)]
	text := fmt.Sprintf(form, r)
	t.mustFail(text, fmt.Sprintf("the character %U", r))
}

// ---------------------------------------------------------------- C30

func init() {
	register(&Check{ID: "C30",
		Rule: "scripts read through a reader that fails at each position in turn, for good or once; and statements of many lines with a " +
			"bad token planted at a known line and column; distinct by script and position",
		Run: func(c *Ctx) {
			c.Phase("faults", c.N(1500, 20000), readFaults)
			c.Phase("positions", c.N(12000, 200000), errorPosition)
			c.Phase("script-positions", c.N(4000, 60000), scriptPosition)
		}})
}

var errPlanted = errors.New("planted read failure")

// plantedFailures are what a reader fails with; none of them is the end of the input.
var plantedFailures = []error{errPlanted, errPlanted, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress,
	context.Canceled, context.DeadlineExceeded, os.ErrClosed, syscall.EINTR, errors.New("EOF"),
	&os.PathError{Op: "read", Path: "script.sql", Err: syscall.EIO}}

func readFaults(t *Case) {
	// The script, with the position after each statement's semicolon.
	var text string
	var stmts []string
	var ends []int
	for n := 1 + t.IntN(4); n > 0; n-- {
		g := newSQLGen(t)
		g.simple = t.IntN(2) == 0
		k := stmtKinds[t.IntN(len(stmtKinds))]
		for k == "copy" {
			k = stmtKinds[t.IntN(len(stmtKinds))]
		}
		stmts = append(stmts, dumpAST(g.stmt(k)))
		text += genLayout(t).render(t, g.toks)
		text += ";"
		ends = append(ends, utf8.RuneCountInString(text))
		if t.IntN(3) == 0 {
			text += []string{" ", "\n", "-- c\n", "/* ; */"}[t.IntN(4)]
		}
	}
	if t.IntN(3) == 0 {
		// A last one without its semicolon.
		g := newSQLGen(t)
		g.simple = true
		stmts = append(stmts, dumpAST(g.stmt([]string{"select", "insert", "begin", "drop table", "show"}[t.IntN(5)])))
		text += plainLayout.render(t, g.toks)
	}
	total := utf8.RuneCountInString(text)
	t.Logf("script: %q", text)
	step := 1 + total/300
	for pos := t.IntN(step); pos <= total; pos += step {
		readFault(t, text, stmts, ends, pos, false)
		readFault(t, text, stmts, ends, pos, true)
	}
	readFault(t, text, stmts, ends, total, false)
	t.Distinct(text)
	t.Sample("%q failing at each of %d positions", text, total+1)
}

func readFault(t *Case, text string, stmts []string, ends []int, pos int, once bool) {
	fail := plantedFailures[t.IntN(len(plantedFailures))]
	w := newWatchedReader(text)
	w.failAt, w.fail, w.once = pos, fail, once
	p := parser.NewParser(w, "src")
	complete := 0
	for complete < len(ends) && ends[complete] <= pos {
		complete++
	}
	for i := 0; i < complete; i++ {
		s, err := p.Parse()
		if err != nil || dumpAST(s) != stmts[i] {
			t.Failf("%q failing at %d: statement %d, which was read to its semicolon: %v %s", text, pos, i, err, dumpAST(s))
		}
	}
	s, err := p.Parse()
	if err == io.EOF {
		t.Failf("%q failing at %d with %q: the failure is taken for the end of the input", text, pos, fail)
	} else if err == nil {
		t.Failf("%q failing at %d with %q: the failure is lost, and the statement is %s", text, pos, fail, dumpAST(s))
	} else if !strings.Contains(err.Error(), fail.Error()) {
		t.Failf("%q failing at %d with %q: the error is %q", text, pos, fail, err)
	} else if start := complete == 0 && pos == 0 || complete > 0 && pos == ends[complete-1]; start && !errors.Is(err, fail) {
		t.Failf("%q failing at %d, between statements, with %q: the error %q is not that one", text, pos, fail, err)
	}
	t.Count("faults", 1)
	if !once {
		for i := 0; i < 3; i++ {
			s, err := p.Parse()
			if err == nil || err == io.EOF {
				t.Failf("%q failing at %d for good: then %v %v", text, pos, s, err)
			}
		}
		return
	}
	// After one failure the rest may be parsed, but not the statement it was in. Where comments and
	// strings hold semicolons, there is no telling where that one ends.
	if strings.Count(text, ";") != len(ends) {
		return
	}
	t.Count("failures gone after one", 1)
	next := complete + 1
	for n := 0; ; n++ {
		if n > len(text)+2 {
			t.Failf("%q failing once at %d: no end", text, pos)
		}
		s, err := p.Parse()
		if err == io.EOF {
			return
		}
		if err != nil || s == nil {
			continue
		}
		d := dumpAST(s)
		from := next
		if complete == 0 && pos == 0 || complete > 0 && pos == ends[complete-1] {
			from-- // nothing of that statement had been read
		}
		for from < len(stmts) && stmts[from] != d {
			from++
		}
		if from >= len(stmts) {
			t.Failf("%q failing once at %d: %s is made of the rest", text, pos, d)
		}
		next = from + 1
	}
}

// place gives the line and column of a byte offset.
func place(text string, off int) string {
	line, col := 1, 0
	for _, r := range text[:off] {
		col++
		if r == '\n' {
			line++
			col = 0
		}
	}
	return fmt.Sprintf("src:%d:%d", line, col+1)
}

// errorPosition: a token that is wrong where it stands, in the middle of a statement.
func errorPosition(t *Case) {
	text, places, what := brokenStatement(t)
	t.Logf("text: %q (%s)", text, what)
	s, err := parser.NewParser(strings.NewReader(text), "src").Parse()
	if err == nil {
		t.Failf("%q (%s) parses to %s", text, what, dumpAST(s))
	}
	wantPlace(t, text, places, what, err)
}

func wantPlace(t *Case, text string, places []string, what string, err error) {
	ok := false
	for _, pl := range places {
		ok = ok || strings.Contains(err.Error(), pl+":")
	}
	if !ok {
		t.Failf("%q: %s at %s, but the error is %q", text, what, places, err)
	}
	t.Count("positions compared", 1)
	t.Distinct(text)
	t.Sample("%q: %v", text, err)
}

// brokenStatement makes a statement cut off by a bad token, and the places an error may name.
func brokenStatement(t *Case) (string, []string, string) {
	for {
		g := newSQLGen(t)
		k := stmtKinds[t.IntN(len(stmtKinds))]
		if k == "copy" {
			continue
		}
		g.stmt(k)
		i := t.IntN(len(g.toks) + 1)
		bad := []tok{{"#", tkPunct}, {"?", tkPunct}, {"}", tkPunct}, {"$", tkWord}, {"$x", tkWord}, {"e'\\x'", tkString},
			{"e'\\u00'", tkString}, {"99999999999999999999", tkNumber}, {"{", tkPunct}, {"x'0'", tkString}, {"BEGIN", tkWord},
			{"TRANSACTION", tkWord}}[t.IntN(12)]
		if i == 0 && bad.kind == tkWord && bad.text[0] != '$' || k == "start" {
			continue
		}
		if i > 0 && g.toks[i-1].text == "SHOW" {
			continue // any word may follow
		}
		toks := append(g.toks[:i:i], bad)
		if adjacentStrings(toks) {
			continue
		}
		l := genLayout(t)
		text, off := l.renderAt(t, toks, len(toks)-1)
		places := []string{place(text, off)}
		if bad.kind == tkWord && bad.text[0] != '$' && i > 0 {
			// A clause that is missing something may be complained about instead.
			var prev int
			text, prev, off = l.renderAt2(t, toks)
			places = []string{place(text, off), place(text, prev)}
		}
		return text, places, fmt.Sprintf("%q", bad.text)
	}
}

// renderAt renders tokens and gives the offset of one of them.
func (l layout) renderAt(t *Case, toks []tok, at int) (string, int) {
	var b strings.Builder
	off := 0
	for i, tk := range toks {
		if i > 0 {
			b.WriteString(l.between(t, toks[i-1], tk))
		} else if t.IntN(3) == 0 {
			b.WriteString(l.gap(t))
		}
		if i == at {
			off = b.Len()
		}
		s := tk.text
		if l.cases && tk.kind == tkWord {
			s = asciiCase(t, s)
		}
		b.WriteString(s)
	}
	return b.String(), off
}

// renderAt2 gives the offsets of the last two tokens.
func (l layout) renderAt2(t *Case, toks []tok) (string, int, int) {
	head, prev := l.renderAt(t, toks[:len(toks)-1], len(toks)-2)
	head += l.between(t, toks[len(toks)-2], toks[len(toks)-1])
	return head + toks[len(toks)-1].text, prev, len(head)
}

// scriptPosition: an error in a later statement, after others and their errors.
func scriptPosition(t *Case) {
	text := ""
	want := 0
	for n := t.IntN(4); n > 0; n-- {
		if t.IntN(4) == 0 {
			// Data lines are lines too.
			g := newSQLGen(t)
			g.stmt("copy")
			text += genLayout(t).render(t, g.toks) + ";\n"
			for _, line := range copyData(t) {
				text += line + "\n"
			}
			text += "\\.\n"
			want++
			continue
		}
		p := t.part()
		out := t.outcomes(p.text + ";")
		if len(out) > 0 && strings.HasPrefix(out[0], "Copy{") {
			continue
		}
		want += len(out)
		text += p.text + ";"
		if t.IntN(2) == 0 {
			text += "\n"
		}
	}
	last, places, what := brokenStatement(t)
	// Places are of the statement alone; find them again in the script.
	for i, pl := range places {
		var line, col int
		fmt.Sscanf(pl, "src:%d:%d", &line, &col)
		var tl, tc int
		fmt.Sscanf(place(text, len(text)), "src:%d:%d", &tl, &tc)
		if line == 1 {
			col += tc - 1
		}
		places[i] = fmt.Sprintf("src:%d:%d", line+tl-1, col)
	}
	text += last
	t.Logf("text: %q (%s)", text, what)
	p := parser.NewParser(strings.NewReader(text), "src")
	for n := 0; n < want; {
		s, err := p.Parse()
		if err == io.EOF {
			t.Failf("%q ends after %d results", text, n)
		}
		if err != nil || s != nil {
			n++
		}
		if cp, ok := s.(*sql.Copy); ok {
			skipCopyData(t, text, cp)
		}
	}
	for {
		s, err := p.Parse()
		if err == nil && s == nil {
			continue
		}
		if err == nil {
			t.Failf("%q (%s) parses to %s", text, what, dumpAST(s))
		}
		wantPlace(t, text, places, what, err)
		return
	}
}

func skipCopyData(t *Case, text string, cp *sql.Copy) {
	line := ""
	for {
		r, _, err := cp.From.ReadRune()
		if err != nil {
			t.Failf("%q: %v in the data of a COPY", text, err)
		}
		if r != '\n' {
			line += string(r)
			continue
		}
		if line == "\\." {
			return
		}
		line = ""
	}
}

// ---------------------------------------------------------------- C31

func init() {
	register(&Check{ID: "C31",
		Rule: "COPY statements in scripts, their data of hostile lines (quotes, semicolons, comments, SQL, multi-byte text, empty " +
			"lines), read from the reader to an end marker or to the end; distinct by script",
		Run: func(c *Ctx) {
			c.Phase("scripts", c.N(12000, 200000), copyScript)
			c.Phase("statement", c.N(4000, 50000), copyStatement)
		}})
}

func copyData(t *Case) []string {
	var lines []string
	n, wide := t.IntN(6), 6
	if t.IntN(300) == 0 {
		n = t.IntN(1 << t.IntN(16))
	} else if t.IntN(300) == 0 {
		wide = 1 + t.IntN(1<<t.IntN(16))
	}
	for ; n > 0; n-- {
		var b strings.Builder
		for m := t.IntN(wide); m > 0; m-- {
			b.WriteString([]string{"abc", "\t", "'", "\"", ";", "--", "/*", "*/", "`", "[", "\\", "\\.", "\\N", "12", "|", ",", "é", "日本",
				"\U0001F600", " ", "\r", "COPY t FROM STDIN;", "SELECT 1;", "e'", "\x00", "$", "#", "\u0085", "\u2028", "\v"}[t.IntN(30)])
		}
		l := b.String()
		if l == "\\." || l == "\\.\r" {
			l = "x"
		}
		lines = append(lines, l)
	}
	return lines
}

func copyScript(t *Case) {
	var text strings.Builder
	type item struct {
		dump  string
		lines []string
		line  int // of the first data line
		copy  bool
	}
	var items []item
	lineNo := func() int { return 1 + strings.Count(text.String(), "\n") }
	ends := false // whether the data goes to the end of the input
	for n := 1 + t.IntN(5); n > 0 && !ends; n-- {
		g := newSQLGen(t)
		k := stmtKinds[t.IntN(len(stmtKinds))]
		if t.IntN(2) == 0 {
			k = "copy"
		}
		it := item{dump: dumpAST(g.stmt(k))}
		l := genLayout(t)
		text.WriteString(l.render(t, g.toks))
		if k != "copy" {
			text.WriteString(";")
			if t.IntN(3) > 0 {
				text.WriteString([]string{"\n", " ", "\n\n"}[t.IntN(3)])
			}
			items = append(items, it)
			continue
		}
		it.copy = true
		if t.IntN(3) == 0 {
			text.WriteString(l.between(t, g.toks[len(g.toks)-1], tok{";", tkPunct}))
		}
		text.WriteString(";" + []string{"", " ", "\t", "\r", "\f", "\v", "\u0085", "\u2028", " \u3000\f\r\r"}[t.IntN(9)])
		if t.IntN(12) == 0 {
			text.WriteString(strings.Repeat([]string{" ", "\t", " \r"}[t.IntN(3)], t.IntN(1<<t.IntN(16))))
		}
		text.WriteString("\n")
		it.line = lineNo()
		it.lines = copyData(t)
		for _, s := range it.lines {
			text.WriteString(s + "\n")
		}
		if t.IntN(6) == 0 {
			ends = true
			if t.IntN(2) == 0 {
				it.lines = append(it.lines, "last line")
				text.WriteString("last line") // without a line break
			}
		} else {
			text.WriteString("\\.\n")
		}
		items = append(items, it)
	}
	// An error with a known place at the end.
	bad := ""
	if !ends && t.IntN(2) == 0 {
		bad = place(text.String(), text.Len())
		text.WriteString("#")
	}
	src := text.String()
	t.Logf("script: %q", src)
	p := parser.NewParser(strings.NewReader(src), "src")
	for i, it := range items {
		s, err := p.Parse()
		if err != nil {
			t.Failf("%q: statement %d: %v", src, i, err)
		}
		if d := dumpAST(s); d != it.dump {
			failDiff(t, fmt.Sprintf("%q (statement %d)", src, i), d, it.dump)
		}
		if !it.copy {
			continue
		}
		cp := s.(*sql.Copy)
		if cp.FromLine != it.line {
			t.Failf("%q: the data of statement %d begins on line %d, not %d", src, i, it.line, cp.FromLine)
		}
		var got []string
		var b strings.Builder
		for {
			r, size, err := cp.From.ReadRune()
			if err == io.EOF {
				if !ends {
					t.Failf("%q: statement %d: end of the data without its marker; read %q %q", src, i, got, b.String())
				}
				if b.Len() > 0 {
					got = append(got, b.String())
				}
				break
			} else if err != nil {
				t.Failf("%q: statement %d: reading data: %v", src, i, err)
			}
			if size != utf8.RuneLen(r) {
				t.Failf("%q: size %d for %q", src, size, r)
			}
			t.Count("data characters", 1)
			if r != '\n' {
				b.WriteRune(r)
				continue
			}
			if b.String() == "\\." {
				break
			}
			got = append(got, b.String())
			b.Reset()
		}
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", it.lines) {
			t.Failf("%q: statement %d: the data is\n%q\nbut the lines are\n%q", src, i, got, it.lines)
		}
		t.Count("copies", 1)
	}
	s, err := p.Parse()
	if bad != "" {
		if err == nil || !strings.Contains(err.Error(), bad+":") {
			t.Failf("%q: want an error at %s, got %v %v", src, bad, s, err)
		}
	} else if err != io.EOF {
		t.Failf("%q: after the script: %v %v", src, s, err)
	}
	t.Distinct(src)
	t.Sample("%q", src)
}

// copyStatement: the statement itself, and ones that are wrong and must not eat what follows.
func copyStatement(t *Case) {
	g := newSQLGen(t)
	want := dumpAST(g.stmt("copy"))
	text := genLayout(t).render(t, g.toks)
	s, err := parser.NewParser(strings.NewReader(text), "src").Parse()
	if err != nil || dumpAST(s) != want {
		t.Failf("%q: %v %s, want %s", text, err, dumpAST(s), want)
	}
	wrong := []string{"COPY t FROM", "COPY FROM STDIN", "COPY t (a, a) FROM STDIN", "COPY t (a,) FROM STDIN", "COPY t FROM STDIN x",
		"COPY t FROM STDOUT", "COPY t FROM STDIN DELIMITER 'ab'", "COPY t FROM STDIN DELIMITER ''", "COPY t FROM STDIN DELIMITER 1",
		"COPY t FROM STDIN DELIMITER '|' '|'", "COPY t () FROM STDIN", "COPY t FROM STDIN DELIMITER '|' x", "COPY t FROM STDIN (",
		"COPY t FROM STDIN DELIMITER"}[t.IntN(14)]
	script := wrong + "; SELECT 1;\nSELECT 2;"
	out := t.outcomes(script)
	sel := func(i int) string {
		return dumpAST(&sql.Select{Results: []sql.SelectResult{sql.ExprResult{Expr: sql.Literal{Value: types.Int64Value(i)}}}})
	}
	if len(out) != 3 || !isError(out[0]) || out[1] != sel(1) || out[2] != sel(2) {
		t.Failf("%q: %q", script, out)
	}
	// A delimiter is the one written or none.
	d := g.rune()
	text = "COPY t FROM STDIN DELIMITER " + g.spellString(string(d))
	s, err = parser.NewParser(strings.NewReader(text), "src").Parse()
	if err != nil && d < 128 {
		t.Failf("%q: %v", text, err)
	}
	if err == nil && s.(*sql.Copy).Delimiter != d {
		t.Failf("%q: the delimiter is %q", text, s.(*sql.Copy).Delimiter)
	}
	t.Count("statements compared", 1)
	t.Distinct(text)
}

// ---------------------------------------------------------------- C33

func init() {
	register(&Check{ID: "C33",
		Rule: "scripts of good, broken and empty statements, COPY and garbage given to the console program in one piece, in pieces with " +
			"delays, and statement by statement; its output compared with what the parser gives; distinct by script",
		Run: func(c *Ctx) {
			c.Phase("scripts", c.N(600, 6000), consoleScript)
			c.Phase("long", c.N(24, 200), consoleLong)
			c.Phase("interactive", c.N(64, 400), consoleInteractive)
		}})
}

func consoleText(t *Case) string {
	var b strings.Builder
	for n := t.IntN(8); n > 0; n-- {
		switch t.IntN(8) {
		case 0:
			b.WriteString(mutant(t))
		case 1:
			b.WriteString(chunkSoup(t))
		case 2:
			b.WriteString("COPY t (a) FROM STDIN;\n1\n\\.\n")
		default:
			b.WriteString(t.part().text)
		}
		if t.IntN(5) > 0 {
			b.WriteString([]string{";", ";\n", " ;\n\n"}[t.IntN(3)])
		}
	}
	return b.String()
}

// consoleAnswers is what the console must print for a text.
func consoleAnswers(text string) (string, int) {
	var b strings.Builder
	n := 0
	p := parser.NewParser(strings.NewReader(text), "console")
	for {
		b.WriteString("maho: ")
		s, err := p.Parse()
		if err == io.EOF {
			return b.String(), n
		}
		n++
		if err != nil {
			fmt.Fprintf(&b, "maho: %s\n", err)
		} else {
			fmt.Fprintln(&b, s)
		}
	}
}

func consoleScript(t *Case) {
	var text string
	for {
		text = consoleText(t)
		if !strings.Contains(strings.ToUpper(text), "WITH") {
			break // options print in any order
		}
	}
	consoleRun(t, text)
}

// consoleLong: hundreds of statements, long runs of bad ones, long lines.
func consoleLong(t *Case) {
	var b strings.Builder
	for n := 2 + t.IntN(6); n > 0; n-- {
		switch t.IntN(5) {
		case 4:
			// A long error, if it tells what it found, and a long text.
			x := strings.Repeat([]string{"x", "é", " ab"}[t.IntN(3)], 1+t.IntN(1<<(5+t.IntN(17))))
			b.WriteString([]string{"select 1 '%s';", "'%s';\n", "create table t (a '%s');", "select 1 from '%s' ;", "update t set a = '%s';"}[t.IntN(5)])
			s := strings.Replace(b.String(), "%s", x, 1)
			b.Reset()
			b.WriteString(s)
		case 0:
			bad := []string{"bad;\n", "';\n';\n", "select ?;", "create x; ", "\n;", "insert into t values (#);\n"}[t.IntN(6)]
			b.WriteString(strings.Repeat(bad, 1+t.IntN(1500)))
		case 1:
			b.WriteString("select '" + strings.Repeat([]string{"x", "it''s ", "\n", "é日本", ";"}[t.IntN(5)], 1+t.IntN(60000)) + "';")
		case 2:
			b.WriteString("values " + strings.Repeat("(1, 'a', null), ", t.IntN(2000)) + "(2, 'b', true);\n")
		default:
			for m := t.IntN(200); m > 0; m-- {
				text := t.part().text
				if !strings.Contains(strings.ToUpper(text), "WITH") && !strings.Contains(strings.ToUpper(text), "COPY") {
					b.WriteString(text + ";\n")
				}
			}
		}
	}
	consoleRun(t, b.String())
}

func consoleRun(t *Case, text string) {
	t.Logf("input: %q", text)
	if len(text) > 2000 {
		t.Logf("(%d bytes)", len(text))
	}
	want, n := consoleAnswers(text)
	cmd := exec.Command(os.Getenv("MAHO_CONSOLE"))
	cmd.Dir = os.Getenv("MAHO_TMP")
	var out, errOut bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errOut
	if t.IntN(4) > 0 {
		cmd.Stdin = strings.NewReader(text)
		if err := cmd.Run(); err != nil {
			t.Failf("%q: %v %s", text, err, errOut.String())
		}
	} else {
		in, err := cmd.StdinPipe()
		if err != nil {
			panic(err)
		}
		if err := cmd.Start(); err != nil {
			panic(err)
		}
		for i := 0; i < len(text); {
			j := min(len(text), i+1+t.IntN(max(20, len(text)/50)))
			in.Write([]byte(text[i:j]))
			if t.IntN(4) == 0 {
				time.Sleep(time.Duration(t.IntN(300)) * time.Microsecond)
			}
			i = j
		}
		in.Close()
		if err := cmd.Wait(); err != nil {
			t.Failf("%q in pieces: %v %s", text, err, errOut.String())
		}
	}
	if errOut.Len() > 0 {
		t.Failf("%q: on standard error: %s", text, errOut.String())
	}
	got := strings.TrimSuffix(out.String(), "\n")
	if got != want {
		t.Logf("got:\n%s", got)
		t.Logf("want:\n%s", want)
		failDiff(t, text, got, want)
	}
	t.Count("answers", n)
	t.Count("runs", 1)
	t.Distinct(text)
	t.Sample("%q -> %q", text, got)
}

// consoleInteractive: every answer comes before the next statement is given.
func consoleInteractive(t *Case) {
	cmd := exec.Command(os.Getenv("MAHO_CONSOLE"))
	cmd.Dir = os.Getenv("MAHO_TMP")
	in, err := cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	answered := make(chan byte, 1<<20)
	go func() {
		defer close(answered)
		var buf [4096]byte
		for {
			n, err := out.Read(buf[:])
			for _, c := range buf[:n] {
				answered <- c
			}
			if err != nil {
				return
			}
		}
	}()
	text, given := "", ""
	for n := 1 + t.IntN(6); n > 0; n-- {
		g := newSQLGen(t)
		k := stmtKinds[t.IntN(len(stmtKinds))]
		for k == "copy" || k == "create database" {
			k = stmtKinds[t.IntN(len(stmtKinds))]
		}
		g.stmt(k)
		toks := g.toks
		if t.IntN(3) == 0 {
			toks = append(toks, tok{"SELECT", tkWord})
		}
		stmt := plainLayout.render(t, toks) + ";"
		text += stmt
		in.Write([]byte(stmt))
		want, _ := consoleAnswers(text)
		for len(given) < len(want) {
			select {
			case c, ok := <-answered:
				if !ok {
					t.Failf("%q: ended early: %q", text, given)
				}
				given += string([]byte{c})
			case <-time.After(60 * time.Second):
				cmd.Process.Kill()
				t.Failf("%q: no answer; so far %q, want %q", text, given, want)
			}
		}
		if given != want {
			cmd.Process.Kill()
			failDiff(t, text, given, want)
		}
		t.Count("answers waited for", 1)
	}
	in.Close()
	for range answered {
	}
	if err := cmd.Wait(); err != nil {
		t.Failf("%q: %v", text, err)
	}
	t.Count("runs", 1)
	t.Distinct(text)
}
