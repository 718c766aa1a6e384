package main

// A generator of SQL: statements and expressions as token lists together with the AST they must
// parse to. The AST is put together here from the meaning of the clauses; operator grouping comes
// from a reference precedence climber. Nothing here uses the parser or its printing.

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/types"
)

type tokKind int

const (
	tkWord   tokKind = iota // keyword or unquoted identifier
	tkQuoted                // quoted identifier
	tkString                // string, bytes
	tkNumber
	tkOp    // operator characters
	tkPunct // ( ) , . @ ;
)

type tok struct {
	text string
	kind tokKind
}

// ---------------------------------------------------------------- dump

// dumpAST renders an AST in a canonical form: pointers are followed, nil and empty lists are the
// same, identifiers show their number.
func dumpAST(v any) string {
	var b strings.Builder
	dumpValue(&b, reflect.ValueOf(v))
	return b.String()
}

func dumpValue(b *strings.Builder, v reflect.Value) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	if v.CanInterface() {
		switch x := v.Interface().(type) {
		case types.Identifier:
			if x == 0 {
				b.WriteString("-")
			} else {
				fmt.Fprintf(b, "%q#%d", x.String(), int(x))
			}
			return
		case types.BoolValue, types.Int64Value, types.Float64Value, types.StringValue, types.BytesValue:
			fmt.Fprintf(b, "%T:%s", x, show(x.(types.Value)))
			return
		}
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		dumpValue(b, v.Elem())
	case reflect.Struct:
		fmt.Fprintf(b, "%s{", v.Type().Name())
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if v.Type().Name() == "Copy" && (f.Name == "From" || f.Name == "FromLine") {
				continue
			}
			fv := v.Field(i)
			if isEmptyField(fv) {
				continue
			}
			fmt.Fprintf(b, "%s=", f.Name)
			dumpValue(b, fv)
			b.WriteString(" ")
		}
		b.WriteString("}")
	case reflect.Slice:
		name := v.Type().Name()
		fmt.Fprintf(b, "%s[", name)
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteString(", ")
			}
			dumpValue(b, v.Index(i))
		}
		b.WriteString("]")
	case reflect.Map:
		var ks []string
		for _, k := range v.MapKeys() {
			var kb strings.Builder
			dumpValue(&kb, k)
			kb.WriteString(":")
			dumpValue(&kb, v.MapIndex(k))
			ks = append(ks, kb.String())
		}
		sort.Strings(ks)
		fmt.Fprintf(b, "map[%s]", strings.Join(ks, ", "))
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	default:
		fmt.Fprintf(b, "%v", v)
	}
}

func isEmptyField(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		return v.IsNil()
	case reflect.Slice, reflect.Map:
		return v.Len() == 0
	}
	return false
}

// ---------------------------------------------------------------- tokens

type sqlGen struct {
	*Case
	toks    []tok
	print   bool // only what C29 promises to print
	simple  bool // only plain names
	nameNum int
	depth   int
	long    int // how much longer than usual lists may be yet
}

func newSQLGen(t *Case) *sqlGen {
	g := &sqlGen{Case: t}
	if t.IntN(80) == 0 {
		g.long = 10 << t.IntN(7)
	}
	return g
}

// count picks the length of a list: below k, or now and then far above.
func (g *sqlGen) count(k int) int {
	n := g.IntN(k)
	if g.long > 0 && g.pct(30) {
		m := g.IntN(g.long + 1)
		g.long -= m
		n += m
	}
	return n
}

func (g *sqlGen) pct(n int) bool { return g.IntN(100) < n }

func (g *sqlGen) add(k tokKind, text string) { g.toks = append(g.toks, tok{text, k}) }

// kw adds key words.
func (g *sqlGen) kw(words ...string) {
	for _, w := range words {
		for _, x := range strings.Fields(w) {
			g.add(tkWord, x)
		}
	}
}

func (g *sqlGen) p(s string) { g.add(tkPunct, s) }

var unreservedNames, reservedNames []string

func init() {
	for n, k := range refKeywords {
		if k.reserved {
			reservedNames = append(reservedNames, n)
		} else {
			unreservedNames = append(unreservedNames, n)
		}
	}
	sort.Strings(unreservedNames)
	sort.Strings(reservedNames)
}

// plainName makes a name that is no keyword.
func (g *sqlGen) plainName() string {
	for {
		g.nameNum++
		var n string
		switch g.IntN(8) {
		case 0:
			n = string("abcdefghijklmnopqrstuvwxyz_"[g.IntN(27)])
		case 1:
			n = strings.ToLower(reservedNames[g.IntN(len(reservedNames))]) + "_"
		case 2:
			n = fmt.Sprintf("_x$%d", g.nameNum)
		case 3:
			n = fmt.Sprintf("%c%d", "ebxtn"[g.IntN(5)], g.nameNum)
		default:
			n = fmt.Sprintf("%s%d", []string{"col", "tbl", "name", "in_", "asx", "nullable"}[g.IntN(6)], g.nameNum)
		}
		if g.IntN(2500) == 0 {
			n += g.longText(14, "abc_12é$名")
		}
		if _, ok := refKeywords[strings.ToUpper(n)]; !ok {
			return n
		}
	}
}

// id adds an identifier and returns what it denotes.
func (g *sqlGen) id() types.Identifier {
	r := g.IntN(100)
	if g.print {
		r = g.IntN(76)
	}
	switch {
	case g.simple || r < 60:
		n := g.plainName()
		if g.pct(6) {
			n = knownNames[g.IntN(len(knownNames))]
		}
		if !g.simple && g.pct(15) {
			g.add(tkQuoted, `"`+n+`"`)
			return types.ID(n, true)
		}
		g.add(tkWord, n)
		return types.ID(n, true)
	case r < 72:
		n := unreservedNames[g.IntN(len(unreservedNames))]
		// Some unreserved words mean something in their place.
		if n == "COUNT" || n == "PRECISION" || n == "STDIN" || n == "BTREE" {
			n = "TEXT"
		}
		g.add(tkWord, n)
		return refKeywords[n].id
	case r < 76:
		n := []string{"é", "straße", "имя", "名前", "ñandú"}[g.IntN(5)] + strconv.Itoa(g.IntN(9))
		g.add(tkWord, n)
		return types.ID(n, true)
	}
	n := g.quotedName()
	return g.quote(n)
}

// knownNames are names with a meaning to the engine; in the text they are names like any other.
var knownNames = func() []string {
	var ns []string
	for n := range refKnown {
		if _, ok := refKeywords[strings.ToUpper(n)]; !ok {
			ns = append(ns, n)
		}
	}
	sort.Strings(ns)
	return append(ns, "maho", "maho", "public", "system", "info")
}()

func (g *sqlGen) quote(n string) types.Identifier {
	q := g.IntN(3)
	open, end := "\"`["[q:q+1], "\"`]"[q:q+1]
	if strings.Contains(n, end) {
		n = strings.ReplaceAll(n, end, "_")
	}
	g.add(tkQuoted, open+n+end)
	return types.ID(n, true)
}

// quotedName makes a name that needs quotes.
func (g *sqlGen) quotedName() string {
	switch g.IntN(7) {
	case 0:
		return reservedNames[g.IntN(len(reservedNames))]
	case 1:
		return strings.ToLower(reservedNames[g.IntN(len(reservedNames))])
	case 2:
		return "Mixed" + strconv.Itoa(g.IntN(50))
	case 3:
		return "with space;" + strconv.Itoa(g.IntN(9))
	case 4:
		return "--" + strconv.Itoa(g.IntN(9)) + "/*'"
	case 5:
		return strconv.Itoa(g.IntN(9)) + ".x,y(é)\n"
	}
	return strings.ToUpper(g.plainName()) + "'"
}

// ids adds a list of different identifiers in parentheses.
func (g *sqlGen) ids(n int) []types.Identifier {
	var ids []types.Identifier
	g.p("(")
	for i := 0; i < n; i++ {
		if i > 0 {
			g.p(",")
		}
		ids = append(ids, g.newID(ids))
	}
	g.p(")")
	return ids
}

// anyIDs is ids where one may be given twice.
func (g *sqlGen) anyIDs(n int) []types.Identifier {
	if !g.pct(15) {
		return g.ids(n)
	}
	g.p("(")
	id := g.id()
	ids := []types.Identifier{id}
	text := g.toks[len(g.toks)-1]
	for i := 0; i < n; i++ {
		g.p(",")
		if g.pct(50) {
			g.toks = append(g.toks, text)
			ids = append(ids, id)
		} else {
			ids = append(ids, g.id())
		}
	}
	g.p(")")
	return ids
}

// newID adds an identifier that is not one of ids.
func (g *sqlGen) newID(ids []types.Identifier) types.Identifier {
	for {
		mark := len(g.toks)
		id := g.id()
		dup := false
		for _, o := range ids {
			dup = dup || o == id
		}
		if !dup {
			return id
		}
		g.toks = g.toks[:mark]
	}
}

func (g *sqlGen) database() types.Identifier {
	if g.pct(20) {
		n := []string{"maho", "system", "public"}[g.IntN(3)]
		g.add(tkWord, n)
		return types.ID(n, true)
	}
	return g.id()
}

func (g *sqlGen) tableName() types.TableName {
	var tn types.TableName
	switch g.IntN(4) {
	case 0:
		tn.Database = g.database()
		g.p(".")
		tn.Schema = g.id()
		g.p(".")
	case 1:
		tn.Schema = g.id()
		g.p(".")
	}
	tn.Table = g.id()
	return tn
}

func (g *sqlGen) schemaName() types.SchemaName {
	var sn types.SchemaName
	if g.pct(40) {
		sn.Database = g.database()
		g.p(".")
	}
	sn.Schema = g.id()
	return sn
}

// ---------------------------------------------------------------- literals

// text makes valid UTF-8 text.
func (g *sqlGen) text() string {
	if g.IntN(2500) == 0 {
		return g.longText(18, "")
	}
	if g.pct(50) {
		return []string{"", "'", "''", "abc", "x;y", "-- no", "/* no */", "it's", "\\", "\\n", "\n", "\"", "日本", "\x00",
			"a\tb", "\r\n", "E'x'", ";", "''''", "\\'", "%", "\U0001F600", "\u0085", "\u2028"}[g.IntN(24)]
	}
	var b strings.Builder
	for n := g.IntN(12); n > 0; n-- {
		b.WriteRune(g.rune())
	}
	return b.String()
}

// longText makes a text of up to 1 << bits characters, those given or any.
func (g *sqlGen) longText(bits int, of string) string {
	runes := []rune(of)
	n := 1 << g.IntN(bits+1)
	n += g.IntN(n)
	var b strings.Builder
	for b.Len() < n {
		r := g.rune()
		if of != "" {
			r = runes[g.IntN(len(runes))]
		}
		for m := 1 << g.IntN(8); m > 0; m-- {
			b.WriteRune(r)
		}
	}
	return b.String()
}

func (g *sqlGen) rune() rune {
	switch g.IntN(5) {
	case 0:
		return rune(g.IntN(128))
	case 1:
		return []rune{'\'', '\\', ';', '\n', '"', '-', '/', '*'}[g.IntN(8)]
	case 2:
		return rune('a' + g.IntN(26))
	case 3:
		return rune(0x80 + g.IntN(0x780))
	}
	for {
		r := rune(g.IntN(unicode.MaxRune + 1))
		if utf8.ValidRune(r) {
			return r
		}
	}
}

// spellString spells a text as a string literal.
func (g *sqlGen) spellString(s string) string {
	if g.print || (g.pct(60) && !strings.ContainsRune(s, utf8.RuneError)) {
		return "'" + strings.ReplaceAll(s, "'", "''") + "'"
	}
	var b strings.Builder
	b.WriteString([]string{"e'", "E'"}[g.IntN(2)])
	for _, r := range s {
		b.WriteString(g.spellRune(r))
	}
	b.WriteString("'")
	return b.String()
}

var shortEscapes = map[rune]string{7: `\a`, 8: `\b`, 9: `\t`, 10: `\n`, 11: `\v`, 12: `\f`, 13: `\r`}

// spellRune spells one character inside an escape string.
func (g *sqlGen) spellRune(r rune) string {
	for {
		switch g.IntN(7) {
		case 0:
			if s, ok := shortEscapes[r]; ok {
				return s
			}
		case 1:
			if r < 256 {
				return fmt.Sprintf([]string{`\x%02x`, `\x%02X`}[g.IntN(2)], r)
			}
		case 2:
			if r < 256 {
				return fmt.Sprintf(`\%03o`, r)
			}
		case 3:
			if r < 0x10000 {
				return fmt.Sprintf([]string{`\u%04x`, `\u%04X`}[g.IntN(2)], r)
			}
		case 4:
			return fmt.Sprintf([]string{`\U%08x`, `\U%08X`}[g.IntN(2)], r)
		case 5:
			// A backslash before a character that means nothing there is dropped.
			if r == '\\' || r == '\'' || r == '"' || r == '?' {
				return `\` + string(r)
			}
		default:
			if r == '\'' {
				return "''"
			}
			if r != '\\' {
				return string(r)
			}
		}
	}
}

func (g *sqlGen) spellBytes(bs []byte) string {
	var b strings.Builder
	if g.pct(50) {
		b.WriteString([]string{"x'", "X'"}[g.IntN(2)])
		for _, c := range bs {
			fmt.Fprintf(&b, []string{"%02x", "%02X"}[g.IntN(2)], c)
		}
	} else {
		b.WriteString("b'")
		for _, c := range bs {
			b.WriteString(g.spellByte(c))
		}
	}
	b.WriteString("'")
	return b.String()
}

// spellByte spells one byte inside a bytes literal.
func (g *sqlGen) spellByte(c byte) string {
	if c < 128 && g.pct(60) {
		for {
			s := g.spellRune(rune(c))
			// These stand for a character, which is the same for one byte.
			if s != "" {
				return s
			}
		}
	}
	return fmt.Sprintf([]string{`\x%02x`, `\x%02X`, `\%03o`}[g.IntN(3)], c)
}

var intTexts = []string{"0", "1", "7", "42", "00012", "9223372036854775807", "2147483648", "65536", "100"}

// literal adds a literal. When signed is false it does not start with a sign.
func (g *sqlGen) literal(signed bool) sql.Literal {
	n := 10
	if g.print {
		n = 7
	}
	switch g.IntN(n) {
	case 0, 1:
		s := g.text()
		g.add(tkString, g.spellString(s))
		return sql.Literal{Value: types.StringValue(s)}
	case 2, 3:
		s := intTexts[g.IntN(len(intTexts))]
		if g.pct(40) {
			s = strconv.Itoa(g.IntN(100000))
		}
		i, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			panic(err)
		}
		if signed && g.pct(25) {
			if g.pct(70) {
				s = "-" + s
				i = -i
			} else {
				s = "+" + s
			}
		}
		g.add(tkNumber, s)
		return sql.Literal{Value: types.Int64Value(i)}
	case 4:
		g.kw("TRUE")
		return sql.Literal{Value: types.BoolValue(true)}
	case 5:
		g.kw("FALSE")
		return sql.Literal{Value: types.BoolValue(false)}
	case 6:
		g.kw("NULL")
		return sql.Literal{}
	case 7, 8:
		s := []string{"0.0", "1.5", "3.", "0.1", "123456.789", "00.5", "9007199254740993.0", "0.000001"}[g.IntN(8)]
		f, err := strconv.ParseFloat(s, 64)
		if err != nil {
			panic(err)
		}
		if signed && g.pct(25) {
			s = "-" + s
			f = -f
		}
		g.add(tkNumber, s)
		return sql.Literal{Value: types.Float64Value(f)}
	}
	bs := genBytes(g.Case, 8)
	g.add(tkString, g.spellBytes(bs))
	return sql.Literal{Value: types.BytesValue(bs)}
}

// ---------------------------------------------------------------- expressions

type refOp struct {
	op    sql.Op
	prec  int
	texts []string
}

// The binary operators and their levels, loosest first.
var refOps = []refOp{
	{sql.OrOp, 1, []string{"OR"}}, {sql.AndOp, 2, []string{"AND"}},
	{sql.EqualOp, 4, []string{"=", "=="}}, {sql.NotEqualOp, 4, []string{"!=", "<>"}},
	{sql.LessThanOp, 5, []string{"<"}}, {sql.LessEqualOp, 5, []string{"<="}},
	{sql.GreaterThanOp, 5, []string{">"}}, {sql.GreaterEqualOp, 5, []string{">="}},
	{sql.LShiftOp, 6, []string{"<<"}}, {sql.RShiftOp, 6, []string{">>"}},
	{sql.BinaryAndOp, 6, []string{"&"}}, {sql.BinaryOrOp, 6, []string{"|"}},
	{sql.AddOp, 7, []string{"+"}}, {sql.SubtractOp, 7, []string{"-"}},
	{sql.MultiplyOp, 8, []string{"*"}}, {sql.DivideOp, 8, []string{"/"}}, {sql.ModuloOp, 8, []string{"%"}},
	{sql.ConcatOp, 10, []string{"||"}},
}

const (
	notPrec    = 3
	negatePrec = 9
)

// An operand with what stands before it, and the operator after it.
type term struct {
	prefix []sql.Op // NotOp, NegateOp, outermost first
	e      sql.Expr
	op     refOp // after the operand; not for the last
}

// climb groups terms by precedence: binary operators associate to the left, a prefix operator takes
// everything that binds tighter.
type climber struct {
	ts  []term
	pos int // term
	pre int // prefix operators of the term already taken
}

func group(ts []term) sql.Expr {
	c := &climber{ts: ts}
	return c.expr(0)
}

func (c *climber) expr(minPrec int) sql.Expr {
	var e sql.Expr
	t := c.ts[c.pos]
	if c.pre < len(t.prefix) {
		op := t.prefix[c.pre]
		c.pre++
		if op == sql.NotOp {
			e = &sql.UnaryExpr{Op: op, Expr: c.expr(notPrec)}
		} else {
			e = &sql.UnaryExpr{Op: op, Expr: c.expr(negatePrec)}
		}
	} else {
		e = t.e
	}
	for c.pos < len(c.ts)-1 && c.ts[c.pos].op.prec > minPrec {
		op := c.ts[c.pos].op
		c.pos++
		c.pre = 0
		e = &sql.BinaryExpr{Op: op.op, Left: e, Right: c.expr(op.prec)}
	}
	return e
}

func (g *sqlGen) opTok(o refOp) {
	s := o.texts[g.IntN(len(o.texts))]
	if s == "AND" || s == "OR" {
		g.kw(s)
	} else {
		g.add(tkOp, s)
	}
}

// expr adds an expression and returns what it denotes.
func (g *sqlGen) expr() sql.Expr {
	n := 1
	switch g.IntN(6) {
	case 0, 1:
		n = 2
	case 2:
		n = 3 + g.IntN(3)
	}
	if n > 2 {
		n += g.count(1)
	}
	if g.depth > 3 {
		n = 1
	}
	return g.exprOf(n)
}

func (g *sqlGen) exprOf(n int) sql.Expr {
	g.depth++
	defer func() { g.depth-- }()
	var ts []term
	for i := 0; i < n; i++ {
		var t term
		for g.pct(15) && len(t.prefix) < 3 {
			if g.pct(50) {
				t.prefix = append(t.prefix, sql.NotOp)
				g.kw("NOT")
			} else {
				t.prefix = append(t.prefix, sql.NegateOp)
				g.add(tkOp, "-")
			}
		}
		// Something after the operand binds to the operand alone, so it is only written where
		// there is no other reading: between operators no tighter than AND.
		loose := i == 0 || ts[i-1].op.prec <= 2
		for _, p := range t.prefix {
			loose = loose && p == sql.NotOp
		}
		var post bool
		t.e, post = g.operand(loose)
		if i < n-1 {
			t.op = refOps[g.IntN(len(refOps))]
			if post {
				t.op = refOps[g.IntN(2)]
			}
			g.opTok(t.op)
		}
		ts = append(ts, t)
	}
	return group(ts)
}

func (g *sqlGen) subquery() sql.Stmt {
	g.depth += 2
	defer func() { g.depth -= 2 }()
	switch g.IntN(5) {
	case 0:
		return g.values()
	case 1:
		g.kw("TABLE")
		return &sql.Select{From: &sql.FromTableAlias{TableName: g.tableName()}}
	case 2:
		return g.show()
	}
	return g.sel()
}

func (g *sqlGen) operand(post bool) (sql.Expr, bool) {
	e := g.primary()
	if !post || g.depth > 4 || !g.pct(18) {
		return e, false
	}
	switch g.IntN(4) {
	case 0:
		g.kw("IS NULL")
		return &sql.SExpr{Name: types.ID("is_null", true), Args: []sql.Expr{e}}, true
	case 1:
		g.kw("IS NOT NULL")
		return &sql.UnaryExpr{Op: sql.NotOp,
			Expr: &sql.SExpr{Name: types.ID("is_null", true), Args: []sql.Expr{e}}}, true
	case 2:
		sq := &sql.Subquery{Op: sql.Any, ExprOp: sql.EqualOp, Expr: e}
		if g.pct(50) {
			g.kw("NOT")
			sq.Op, sq.ExprOp = sql.All, sql.NotEqualOp
		}
		g.kw("IN")
		g.p("(")
		sq.Stmt = g.subquery()
		g.p(")")
		return sq, true
	}
	sq := &sql.Subquery{Expr: e}
	o := refOps[g.IntN(8)]
	if g.print && o.prec <= 2 {
		o = refOps[2] // AND ANY prints without parentheses
	}
	sq.ExprOp = o.op
	g.opTok(o)
	switch g.IntN(3) {
	case 0:
		g.kw("ANY")
		sq.Op = sql.Any
	case 1:
		g.kw("SOME")
		sq.Op = sql.Any
	default:
		g.kw("ALL")
		sq.Op = sql.All
	}
	g.p("(")
	sq.Stmt = g.subquery()
	g.p(")")
	return sq, true
}

func (g *sqlGen) ref() sql.Ref {
	ref := sql.Ref{g.id()}
	more := 25
	if g.pct(3) {
		more = 90
	}
	for n := g.count(1); n > 0 || g.pct(more) && len(ref) < 12; n-- {
		g.p(".")
		ref = append(ref, g.id())
	}
	return ref
}

func (g *sqlGen) primary() sql.Expr {
	n := 12
	if g.depth > 4 {
		n = 7
	}
	switch g.IntN(n) {
	case 0, 1, 2:
		return g.literal(true)
	case 7, 8:
		g.p("(")
		e := g.expr()
		g.p(")")
		return &sql.UnaryExpr{Op: sql.NoOp, Expr: e}
	case 9, 10:
		return g.call()
	case 11:
		if g.depth > 3 {
			return g.ref()
		}
		if g.pct(50) {
			g.kw("EXISTS")
			g.p("(")
			s := g.subquery()
			g.p(")")
			return &sql.Subquery{Op: sql.Exists, Stmt: s}
		}
		g.p("(")
		s := g.subquery()
		g.p(")")
		return &sql.Subquery{Op: sql.Scalar, Stmt: s}
	}
	return g.ref()
}

func (g *sqlGen) call() sql.Expr {
	if g.pct(15) {
		g.kw("COUNT")
		g.p("(")
		g.add(tkOp, "*")
		g.p(")")
		return &sql.SExpr{Name: types.COUNT_ALL}
	}
	se := &sql.SExpr{}
	if g.pct(15) {
		g.kw("COUNT")
		se.Name = types.COUNT
	} else {
		se.Name = g.id()
	}
	g.p("(")
	for n := g.count(4); n > 0; n-- {
		if len(se.Args) > 0 {
			g.p(",")
		}
		se.Args = append(se.Args, g.expr())
	}
	g.p(")")
	return se
}

// ---------------------------------------------------------------- queries

func (g *sqlGen) alias(required bool) types.Identifier {
	if !required && g.pct(60) {
		return 0
	}
	if g.pct(60) {
		g.kw("AS")
	}
	return g.id()
}

func (g *sqlGen) values() *sql.Values {
	s := &sql.Values{}
	g.kw("VALUES")
	cols := 1 + g.count(3)
	for r := g.count(3); r >= 0; r-- {
		var row []sql.Expr
		g.p("(")
		for c := 0; c < cols; c++ {
			if c > 0 {
				g.p(",")
			}
			row = append(row, g.expr())
		}
		g.p(")")
		s.Expressions = append(s.Expressions, row)
		if r > 0 {
			g.p(",")
		}
	}
	return s
}

func (g *sqlGen) sel() *sql.Select {
	g.depth++
	defer func() { g.depth-- }()
	s := &sql.Select{}
	g.kw("SELECT")
	if g.pct(25) {
		g.add(tkOp, "*")
	} else {
		for n := g.count(3); n >= 0; n-- {
			if g.pct(15) {
				s.Results = append(s.Results, sql.TableResult{Table: g.id()})
				g.p(".")
				g.add(tkOp, "*")
			} else {
				e := g.expr()
				s.Results = append(s.Results, sql.ExprResult{Expr: e, Alias: g.alias(false)})
			}
			if n > 0 {
				g.p(",")
			}
		}
	}
	if g.pct(70) {
		g.kw("FROM")
		s.From = g.fromList()
	}
	if g.pct(40) {
		g.kw("WHERE")
		s.Where = g.expr()
	}
	if g.pct(25) {
		g.kw("GROUP BY")
		for n := g.count(3); n >= 0; n-- {
			s.GroupBy = append(s.GroupBy, g.expr())
			if n > 0 {
				g.p(",")
			}
		}
	}
	if g.pct(20) {
		g.kw("HAVING")
		s.Having = g.expr()
	}
	if g.pct(25) {
		g.kw("ORDER BY")
		for n := g.count(3); n >= 0; n-- {
			by := sql.OrderBy{Expr: sql.Ref{g.id()}}
			switch g.IntN(3) {
			case 0:
				g.kw("DESC")
				by.Reverse = true
			case 1:
				g.kw("ASC")
			}
			s.OrderBy = append(s.OrderBy, by)
			if n > 0 {
				g.p(",")
			}
		}
	}
	return s
}

func (g *sqlGen) fromList() sql.FromItem {
	fi := g.fromItem()
	for n := g.count(1); n > 0 || g.pct(20); n-- {
		g.p(",")
		fi = sql.FromJoin{Left: fi, Right: g.fromItem(), Type: sql.CrossJoin}
	}
	return fi
}

func (g *sqlGen) fromPrimary() sql.FromItem {
	g.depth++
	defer func() { g.depth-- }()
	if g.depth < 5 {
		switch g.IntN(8) {
		case 0:
			g.p("(")
			s := g.subquery()
			g.p(")")
			fs := sql.FromStmt{Stmt: s, Alias: g.alias(true)}
			if g.pct(40) {
				fs.ColumnAliases = g.anyIDs(1 + g.count(3))
			}
			return fs
		case 1:
			g.p("(")
			fi := g.fromList()
			g.p(")")
			return fi
		}
	}
	tn := g.tableName()
	if g.pct(12) {
		g.p("@")
		in := g.id()
		return &sql.FromIndexAlias{TableName: tn, Index: in, Alias: g.alias(false)}
	}
	return &sql.FromTableAlias{TableName: tn, Alias: g.alias(false)}
}

// fromItem adds a chain of joins; only joins with a condition chain, and a CROSS JOIN is the last.
func (g *sqlGen) fromItem() sql.FromItem {
	fi := g.fromPrimary()
	for n := g.count(1); n > 0 || g.pct(25); n-- {
		k := g.IntN(5)
		if k == 4 {
			g.kw("CROSS JOIN")
			return sql.FromJoin{Left: fi, Right: g.fromPrimary(), Type: sql.CrossJoin}
		}
		fi = g.join(fi, k)
	}
	return fi
}

func (g *sqlGen) join(left sql.FromItem, k int) sql.FromItem {
	fj := sql.FromJoin{Left: left}
	outer := func() {
		if g.pct(40) {
			g.kw("OUTER")
		}
		g.kw("JOIN")
	}
	switch k {
	case 0:
		fj.Type = sql.Join
		if g.pct(40) {
			g.kw("INNER")
		}
		g.kw("JOIN")
	case 1:
		fj.Type = sql.LeftJoin
		g.kw("LEFT")
		outer()
	case 2:
		fj.Type = sql.RightJoin
		g.kw("RIGHT")
		outer()
	case 3:
		fj.Type = sql.FullJoin
		g.kw("FULL")
		outer()
	}
	fj.Right = g.fromPrimary()
	if g.depth < 4 && g.pct(15) {
		// a JOIN b JOIN c ON ... ON ...
		fj.Right = g.join(fj.Right, g.IntN(4))
	}
	if g.pct(60) {
		g.kw("ON")
		fj.On = g.expr()
	} else {
		g.kw("USING")
		fj.Using = g.ids(1 + g.count(3))
	}
	return fj
}

// ---------------------------------------------------------------- statements

var stmtKinds = []string{"alter", "begin", "commit", "copy", "create database", "create index", "create schema",
	"create table", "delete", "drop database", "drop index", "drop schema", "drop table", "explain", "insert",
	"rollback", "select", "set", "show", "start", "update", "use", "values"}

// stmt adds a statement of a kind and returns what it denotes.
func (g *sqlGen) stmt(kind string) sql.Stmt {
	switch kind {
	case "alter":
		return g.alter()
	case "begin":
		g.kw("BEGIN")
		return &sql.Begin{}
	case "start":
		g.kw("START TRANSACTION")
		return &sql.Begin{}
	case "commit":
		g.kw("COMMIT")
		return &sql.Commit{}
	case "rollback":
		g.kw("ROLLBACK")
		return &sql.Rollback{}
	case "copy":
		return g.copyStmt()
	case "create database":
		g.kw("CREATE DATABASE")
		s := &sql.CreateDatabase{Database: g.id()}
		if g.pct(60) {
			g.kw("WITH")
			s.Options = g.options()
		}
		return s
	case "drop database":
		g.kw("DROP DATABASE")
		ie := g.ifExists()
		return &sql.DropDatabase{IfExists: ie, Database: g.id()}
	case "create schema":
		g.kw("CREATE SCHEMA")
		return &sql.CreateSchema{Schema: g.schemaName()}
	case "drop schema":
		g.kw("DROP SCHEMA")
		ie := g.ifExists()
		return &sql.DropSchema{IfExists: ie, Schema: g.schemaName()}
	case "create index":
		g.kw("CREATE")
		s := &sql.CreateIndex{}
		uniq := g.pct(30)
		if uniq {
			g.kw("UNIQUE")
		}
		g.kw("INDEX")
		s.IfNotExists = g.ifNotExists()
		s.Index = g.id()
		g.kw("ON")
		s.Table = g.tableName()
		if g.pct(30) {
			g.kw("USING BTREE")
		}
		s.Key = g.newKey(uniq)
		return s
	case "drop index":
		g.kw("DROP INDEX")
		s := &sql.DropIndex{IfExists: g.ifExists()}
		s.Index = g.id()
		g.kw("ON")
		s.Table = g.tableName()
		return s
	case "create table":
		return g.createTable(newTableSpec(g))
	case "drop table":
		g.kw("DROP TABLE")
		s := &sql.DropTable{IfExists: g.ifExists()}
		for n := g.count(3); n >= 0; n-- {
			s.Tables = append(s.Tables, g.tableName())
			if n > 0 {
				g.p(",")
			}
		}
		switch g.IntN(3) {
		case 0:
			g.kw("CASCADE")
			s.Cascade = true
		case 1:
			g.kw("RESTRICT")
		}
		return s
	case "delete":
		g.kw("DELETE FROM")
		s := &sql.Delete{Table: g.tableName()}
		s.Where = g.where()
		return s
	case "explain":
		g.kw("EXPLAIN")
		s := &sql.Explain{}
		if g.pct(40) {
			g.kw("VERBOSE")
			s.Verbose = true
		}
		s.Stmt = g.sel()
		return s
	case "insert":
		return g.insert()
	case "select":
		return g.sel()
	case "values":
		return g.values()
	case "update":
		g.kw("UPDATE")
		s := &sql.Update{Table: g.tableName()}
		g.kw("SET")
		for n := g.count(3); n >= 0; n-- {
			cu := sql.ColumnUpdate{Column: g.id()}
			g.add(tkOp, "=")
			if g.pct(15) {
				g.kw("DEFAULT")
			} else {
				cu.Expr = g.expr()
			}
			s.ColumnUpdates = append(s.ColumnUpdates, cu)
			if n > 0 {
				g.p(",")
			}
		}
		s.Where = g.where()
		return s
	case "set":
		g.kw("SET")
		s := &sql.Set{}
		switch g.IntN(3) {
		case 0:
			g.kw("DATABASE")
			s.Variable = types.DATABASE
		case 1:
			g.kw("SCHEMA")
			s.Variable = types.SCHEMA
		default:
			s.Variable = g.id()
		}
		if g.pct(50) {
			g.add(tkOp, "=")
		} else {
			g.kw("TO")
		}
		s.Value = g.setValue()
		return s
	case "use":
		g.kw("USE")
		return &sql.Set{Variable: types.DATABASE, Value: g.setValue()}
	case "show":
		return g.show()
	}
	panic("kind " + kind)
}

func (g *sqlGen) where() sql.Expr {
	if g.pct(50) {
		return nil
	}
	g.kw("WHERE")
	return g.expr()
}

func (g *sqlGen) ifExists() bool {
	if g.pct(40) {
		g.kw("IF EXISTS")
		return true
	}
	return false
}

func (g *sqlGen) ifNotExists() bool {
	if g.pct(40) {
		g.kw("IF NOT EXISTS")
		return true
	}
	return false
}

// option values which are numbers
func (g *sqlGen) optionNumber() string {
	i := int64(genU64(g.Case))
	switch g.IntN(3) {
	case 0:
		i = int64(g.IntN(100000))
	case 1:
		if !g.print {
			f := float64(g.IntN(1000000)) / []float64{1, 2, 4, 8, 10, 100, 1000}[g.IntN(7)]
			s := strconv.FormatFloat(f, 'f', -1, 64)
			if !strings.Contains(s, ".") {
				s += ".0"
			}
			if g.pct(20) && f != 0 {
				s = "-" + s
				f = -f
			}
			g.add(tkNumber, s)
			return strconv.FormatFloat(f, 'g', -1, 64)
		}
	}
	g.add(tkNumber, strconv.FormatInt(i, 10))
	return strconv.FormatInt(i, 10)
}

func (g *sqlGen) setValue() string {
	switch g.IntN(4) {
	case 0:
		i := int64(g.IntN(100000))
		if g.pct(30) {
			i = int64(genU64(g.Case))
		}
		g.add(tkNumber, strconv.FormatInt(i, 10))
		return strconv.FormatInt(i, 10)
	case 1:
		if g.pct(50) {
			g.kw("TRUE")
			return "true"
		}
		g.kw("FALSE")
		return "false"
	}
	s := g.text()
	g.add(tkString, g.spellString(s))
	return s
}

func (g *sqlGen) options() map[types.Identifier]string {
	m := map[types.Identifier]string{}
	var ids []types.Identifier
	var words [][]tok
	for n := g.count(3); n >= 0; n-- {
		var id types.Identifier
		if len(ids) > 0 && !g.print && g.pct(12) {
			// Given again: the last value counts.
			i := g.IntN(len(ids))
			id = ids[i]
			g.toks = append(g.toks, words[i]...)
		} else {
			mark := len(g.toks)
			id = g.newID(ids)
			ids = append(ids, id)
			words = append(words, append([]tok(nil), g.toks[mark:]...))
		}
		if g.pct(60) {
			g.add(tkOp, "=")
		}
		k := g.IntN(4)
		if g.print {
			k = g.IntN(2)
		}
		switch k {
		case 0:
			m[id] = g.optionNumber()
		case 3:
			bs := genBytes(g.Case, 8)
			g.add(tkString, g.spellBytes(bs))
			m[id] = string(bs)
		case 1:
			n := g.plainName()
			g.add(tkWord, n)
			m[id] = cutName(n)
		default:
			s := g.text()
			g.add(tkString, g.spellString(s))
			m[id] = s
		}
	}
	return m
}

func (g *sqlGen) copyStmt() *sql.Copy {
	g.kw("COPY")
	s := &sql.Copy{Table: g.tableName(), Delimiter: '\t'}
	if g.pct(75) {
		s.Columns = g.ids(1 + g.count(4))
	}
	g.kw("FROM STDIN")
	if g.pct(50) {
		g.kw("DELIMITER")
		d := string([]byte{"|,;:. xX'0\"#"[g.IntN(11)]})
		if g.print && d == "'" {
			d = "|"
		}
		g.add(tkString, "'"+strings.ReplaceAll(d, "'", "''")+"'")
		s.Delimiter = rune(d[0])
	}
	return s
}

func (g *sqlGen) insert() sql.Stmt {
	g.kw("INSERT INTO")
	s := &sql.InsertValues{Table: g.tableName()}
	if g.pct(60) {
		s.Columns = g.ids(1 + g.count(4))
	}
	g.kw("VALUES")
	// Rows of many, of mostly the same.
	width, pct := 4, 12
	if g.pct(10) {
		width, pct = 10, 50
	}
	for r := g.count(3); r >= 0; r-- {
		var row []sql.Expr
		g.p("(")
		for c := g.count(width); c >= 0; c-- {
			if g.pct(pct) {
				g.kw("DEFAULT")
				row = append(row, nil)
			} else {
				row = append(row, g.expr())
			}
			if c > 0 {
				g.p(",")
			}
		}
		g.p(")")
		s.Rows = append(s.Rows, row)
		if r > 0 {
			g.p(",")
		}
	}
	return s
}

func lit(v types.Value) sql.Expr { return sql.Literal{Value: v} }

func nameIs(col string, v sql.Expr) *sql.BinaryExpr {
	return &sql.BinaryExpr{Op: sql.EqualOp, Left: sql.Ref{types.ID(col, true)}, Right: v}
}

func (g *sqlGen) show() sql.Stmt {
	g.kw("SHOW")
	meta := func(db, tbl types.Identifier) sql.FromItem {
		return &sql.FromTableAlias{TableName: types.TableName{Database: db, Schema: types.METADATA, Table: tbl}}
	}
	info := func(tbl types.Identifier) sql.FromItem {
		return &sql.FromTableAlias{TableName: types.TableName{Database: types.SYSTEM, Schema: types.INFO, Table: tbl}}
	}
	current := &sql.Subquery{Op: sql.Scalar, Stmt: &sql.Show{Variable: types.SCHEMA}}
	ofTable := func(tbl types.Identifier) sql.Stmt {
		g.kw("FROM")
		tn := g.tableName()
		var in sql.Expr = current
		if tn.Schema != 0 {
			in = lit(types.StringValue(tn.Schema.String()))
		}
		return &sql.Select{From: meta(tn.Database, tbl), Where: &sql.BinaryExpr{Op: sql.AndOp,
			Left: nameIs("table_name", lit(types.StringValue(tn.Table.String()))), Right: nameIs("schema_name", in)}}
	}
	switch g.IntN(9) {
	case 0:
		g.kw("COLUMNS")
		return ofTable(types.COLUMNS)
	case 1:
		g.kw("CONSTRAINTS")
		return ofTable(types.CONSTRAINTS)
	case 2:
		if g.print {
			break // has a column named by a reserved word
		}
		g.kw("CONFIG")
		return &sql.Select{Results: []sql.SelectResult{
			sql.ExprResult{Expr: sql.Ref{types.ID("name", true)}}, sql.ExprResult{Expr: sql.Ref{types.ID("value", true)}},
			sql.ExprResult{Expr: sql.Ref{types.ID("by", false)}}},
			From: info(types.CONFIG), Where: nameIs("hidden", lit(types.BoolValue(false)))}
	case 3:
		g.kw("DATABASES")
		return &sql.Select{From: info(types.DATABASES)}
	case 4:
		g.kw("SCHEMAS")
		var db types.Identifier
		if g.pct(50) {
			g.kw("FROM")
			db = g.id()
		}
		return &sql.Select{From: meta(db, types.SCHEMAS)}
	case 5:
		g.kw("TABLES")
		var sn types.SchemaName
		var in sql.Expr = current
		if g.pct(50) {
			g.kw("FROM")
			sn = g.schemaName()
			in = lit(types.StringValue(sn.Schema.String()))
		}
		return &sql.Select{From: meta(sn.Database, types.TABLES), Where: nameIs("schema_name", in)}
	case 6:
		g.kw("DATABASE")
		return &sql.Show{Variable: types.DATABASE}
	case 7:
		g.kw("SCHEMA")
		return &sql.Show{Variable: types.SCHEMA}
	}
	n := g.plainName()
	g.add(tkWord, n)
	return &sql.Show{Variable: types.ID(n, true)}
}

func (g *sqlGen) foreignKey(cn types.Identifier) sql.ForeignKey {
	g.kw("FOREIGN KEY")
	fk := sql.ForeignKey{Name: cn, FKCols: g.anyIDs(1 + g.count(3))}
	g.kw("REFERENCES")
	fk.RefTable = g.tableName()
	if g.pct(60) {
		fk.RefCols = g.anyIDs(1 + g.count(3))
	}
	g.onActions(&fk)
	return fk
}

func (g *sqlGen) refAction() sql.RefAction {
	switch g.IntN(5) {
	case 0:
		g.kw("NO ACTION")
		return sql.NoAction
	case 1:
		g.kw("RESTRICT")
		return sql.Restrict
	case 2:
		g.kw("CASCADE")
		return sql.Cascade
	case 3:
		g.kw("SET NULL")
		return sql.SetNull
	}
	g.kw("SET DEFAULT")
	return sql.SetDefault
}

func (g *sqlGen) onActions(fk *sql.ForeignKey) {
	order := []string{"DELETE", "UPDATE"}
	if g.pct(50) {
		order = []string{"UPDATE", "DELETE"}
	}
	for _, o := range order {
		if g.pct(60) {
			continue
		}
		g.kw("ON", o)
		a := g.refAction()
		if o == "DELETE" {
			fk.OnDelete = a
		} else {
			fk.OnUpdate = a
		}
	}
}

func (g *sqlGen) alter() sql.Stmt {
	g.kw("ALTER TABLE")
	s := &sql.AlterTable{Table: g.tableName()}
	for n := g.count(3); n >= 0; n-- {
		switch g.IntN(3) {
		case 0:
			g.kw("ADD")
			var cn types.Identifier
			if g.print || g.pct(50) {
				g.kw("CONSTRAINT")
				cn = g.id()
			}
			s.Actions = append(s.Actions, &sql.AddForeignKey{ForeignKey: g.foreignKey(cn)})
		case 1:
			g.kw("DROP CONSTRAINT")
			ie := g.ifExists()
			s.Actions = append(s.Actions, &sql.DropConstraint{Name: g.id(), IfExists: ie})
		default:
			g.kw("ALTER")
			if g.pct(50) {
				g.kw("COLUMN")
			}
			dc := &sql.DropConstraint{Column: g.id()}
			g.kw("DROP")
			if g.pct(50) {
				g.kw("DEFAULT")
				dc.Type = sql.DefaultConstraint
			} else {
				g.kw("NOT NULL")
				dc.Type = sql.NotNullConstraint
			}
			s.Actions = append(s.Actions, dc)
		}
		if n > 0 {
			g.p(",")
		}
	}
	return s
}

// newKey adds a key of new column names.
func (g *sqlGen) newKey(unique bool) sql.IndexKey {
	k := sql.IndexKey{Unique: unique}
	g.p("(")
	for n := g.count(3); n >= 0; n-- {
		k.Columns = append(k.Columns, g.newID(k.Columns))
		k.Reverse = append(k.Reverse, g.direction())
		if n > 0 {
			g.p(",")
		}
	}
	g.p(")")
	return k
}

func (g *sqlGen) direction() bool {
	switch g.IntN(3) {
	case 0:
		g.kw("ASC")
	case 1:
		g.kw("DESC")
		return true
	}
	return false
}

// ---------------------------------------------------------------- create table

type typeSpec struct {
	name  string
	sized bool // may have a size
	ct    types.ColumnType
}

var typeSpecs = []typeSpec{
	{"BINARY", true, types.ColumnType{Type: types.BytesType, Fixed: true, Size: 1}},
	{"VARBINARY", true, types.ColumnType{Type: types.BytesType, Size: 1}},
	{"BLOB", true, types.ColumnType{Type: types.BytesType, Size: types.MaxColumnSize}},
	{"BYTEA", true, types.ColumnType{Type: types.BytesType, Size: types.MaxColumnSize}},
	{"BYTES", true, types.ColumnType{Type: types.BytesType, Size: types.MaxColumnSize}},
	{"CHAR", true, types.ColumnType{Type: types.StringType, Fixed: true, Size: 1}},
	{"CHARACTER", true, types.ColumnType{Type: types.StringType, Fixed: true, Size: 1}},
	{"VARCHAR", true, types.ColumnType{Type: types.StringType, Size: 1}},
	{"TEXT", true, types.ColumnType{Type: types.StringType, Size: types.MaxColumnSize}},
	{"BOOL", false, types.ColumnType{Type: types.BoolType, Size: 1}},
	{"BOOLEAN", false, types.ColumnType{Type: types.BoolType, Size: 1}},
	{"DOUBLE", false, types.ColumnType{Type: types.Float64Type, Size: 8}},
	{"DOUBLE PRECISION", false, types.ColumnType{Type: types.Float64Type, Size: 8}},
	{"REAL", false, types.ColumnType{Type: types.Float64Type, Size: 4}},
	{"SMALLINT", false, types.ColumnType{Type: types.Int64Type, Size: 2}},
	{"INT2", false, types.ColumnType{Type: types.Int64Type, Size: 2}},
	{"INT", false, types.ColumnType{Type: types.Int64Type, Size: 4}},
	{"INTEGER", false, types.ColumnType{Type: types.Int64Type, Size: 4}},
	{"INT4", false, types.ColumnType{Type: types.Int64Type, Size: 4}},
	{"INT8", false, types.ColumnType{Type: types.Int64Type, Size: 8}},
	{"BIGINT", false, types.ColumnType{Type: types.Int64Type, Size: 8}},
}

// The types a printed column reads back as.
var printSpecs = []int{4, 9, 11, 16}

type colSpec struct {
	name    types.Identifier
	tok     tok
	typ     typeSpec
	size    int64 // -1: none given
	dflt    bool
	notNull bool
	cons    []conSpec // constraints of the column, in order, with DEFAULT and NOT NULL among them
}

type conSpec struct {
	kind    string // default, notnull, primary, unique, check, references; foreign for tables; raw
	raw     string // something wrong
	name    types.Identifier
	nameTok tok
	cols    []int
	rev     []bool
}

type tableSpec struct {
	cols []*colSpec
	cons []conSpec // of the table
	mix  []int     // order of columns (>= 0) and table constraints (^i)
}

func (g *sqlGen) freshName(used map[types.Identifier]bool) (types.Identifier, tok) {
	for {
		mark := len(g.toks)
		id := g.id()
		tk := g.toks[mark]
		g.toks = g.toks[:mark]
		if !used[id] {
			used[id] = true
			return id, tk
		}
	}
}

// newTableSpec makes a well-formed definition.
func newTableSpec(g *sqlGen) *tableSpec {
	ts := &tableSpec{}
	colNames := map[types.Identifier]bool{}
	conNames := map[types.Identifier]bool{}
	keys := map[string]bool{}
	primary := false
	name := func(c *conSpec, pct int) {
		if g.print && (c.kind == "references" || c.kind == "foreign") {
			pct = 100
		}
		if g.print && (c.kind == "default" || c.kind == "notnull") {
			pct = 0 // the name of these is not printed
		}
		if g.pct(pct) {
			c.name, c.nameTok = g.freshName(conNames)
		}
	}
	generated := func(c *conSpec) bool {
		// A generated name may be the same as another: that is not specified, so avoid it.
		if c.name != 0 || (c.kind != "primary" && c.kind != "unique") {
			return true
		}
		id := generatedName(ts, *c)
		if conNames[id] {
			return false
		}
		conNames[id] = true
		return true
	}
	keyOf := func(c *conSpec) string { return fmt.Sprint(c.cols, c.rev) }
	for n := 1 + g.count(5); n > 0; n-- {
		col := &colSpec{size: -1}
		col.name, col.tok = g.freshName(colNames)
		col.typ = typeSpecs[g.IntN(len(typeSpecs))]
		if g.print {
			col.typ = typeSpecs[printSpecs[g.IntN(len(printSpecs))]]
		}
		if col.typ.sized && !g.print && g.pct(60) {
			col.size = int64([]uint32{0, 1, 2, 10, 255, 65535, types.MaxColumnSize - 1, types.MaxColumnSize}[g.IntN(8)])
		}
		ts.cols = append(ts.cols, col)
		i := len(ts.cols) - 1
		for m := g.IntN(4); m > 0; m-- {
			c := conSpec{}
			switch g.IntN(6) {
			case 0:
				if col.dflt {
					continue
				}
				col.dflt = true
				c.kind = "default"
			case 1:
				if col.notNull {
					continue
				}
				col.notNull = true
				c.kind = "notnull"
			case 2, 3:
				c.kind = "unique"
				if !primary && g.pct(50) {
					c.kind = "primary"
				}
				c.cols, c.rev = []int{i}, []bool{false}
				if keys[keyOf(&c)] {
					continue
				}
			case 4:
				c.kind = "check"
			default:
				c.kind = "references"
			}
			name(&c, 40)
			if !generated(&c) {
				continue
			}
			if c.kind == "primary" {
				primary = true
			}
			if c.cols != nil {
				keys[keyOf(&c)] = true
			}
			col.cons = append(col.cons, c)
		}
		ts.mix = append(ts.mix, i)
	}
	for n := g.count(4); n > 0; n-- {
		c := conSpec{}
		switch g.IntN(4) {
		case 0, 1:
			c.kind = "unique"
			if !primary && g.pct(60) {
				c.kind = "primary"
			}
			for _, i := range g.Perm(len(ts.cols))[:1+g.IntN(len(ts.cols))] {
				c.cols = append(c.cols, i)
				c.rev = append(c.rev, g.pct(40))
			}
			if keys[keyOf(&c)] {
				continue
			}
		case 2:
			c.kind = "check"
		default:
			c.kind = "foreign"
		}
		name(&c, 50)
		if !generated(&c) {
			continue
		}
		if c.kind == "primary" {
			primary = true
		}
		if c.cols != nil {
			keys[keyOf(&c)] = true
		}
		ts.cons = append(ts.cons, c)
		ts.mix = append(ts.mix, ^(len(ts.cons) - 1))
	}
	// Constraints may stand between and before the columns they name.
	if !g.print && g.pct(40) {
		cols := []int{}
		g.Shuffle(len(ts.mix), func(i, j int) { ts.mix[i], ts.mix[j] = ts.mix[j], ts.mix[i] })
		for i, m := range ts.mix { // but the columns keep their order
			if m >= 0 {
				cols = append(cols, i)
			}
		}
		for k, i := range cols {
			ts.mix[i] = k
		}
	}
	return ts
}

func generatedName(ts *tableSpec, c conSpec) types.Identifier {
	s := ""
	for _, i := range c.cols {
		s += ts.cols[i].name.String() + "_"
	}
	return types.ID(s+c.kind, false)
}

func (ts *tableSpec) key(c conSpec) sql.IndexKey {
	k := sql.IndexKey{Unique: true}
	for j, i := range c.cols {
		k.Columns = append(k.Columns, ts.cols[i].name)
		k.Reverse = append(k.Reverse, c.rev[j])
	}
	return k
}

// createTable adds the statement of a definition and returns what it denotes.
func (g *sqlGen) createTable(ts *tableSpec) *sql.CreateTable {
	g.kw("CREATE TABLE")
	s := &sql.CreateTable{IfNotExists: g.ifNotExists()}
	s.Table = g.tableName()
	g.p("(")
	for n, m := range ts.mix {
		if n > 0 {
			g.p(",")
		}
		if m >= 0 {
			g.column(ts, s, m)
		} else {
			g.tableConstraint(ts, s, ts.cons[^m])
		}
	}
	g.p(")")
	return s
}

func (g *sqlGen) conName(c conSpec) {
	if c.name != 0 {
		g.kw("CONSTRAINT")
		g.toks = append(g.toks, c.nameTok)
	}
}

func (g *sqlGen) column(ts *tableSpec, s *sql.CreateTable, i int) {
	col := ts.cols[i]
	g.toks = append(g.toks, col.tok)
	g.kw(col.typ.name)
	ct := col.typ.ct
	if col.size >= 0 {
		g.p("(")
		g.add(tkNumber, strconv.FormatInt(col.size, 10))
		g.p(")")
		ct.Size = uint32(col.size)
	}
	var dflt sql.Expr
	for _, c := range col.cons {
		g.conName(c)
		switch c.kind {
		case "default":
			g.kw("DEFAULT")
			if c.name != 0 {
				s.Constraints = append(s.Constraints, sql.Constraint{Type: sql.DefaultConstraint, Name: c.name, ColNum: i})
			}
			dflt = g.expr()
		case "notnull":
			g.kw("NOT NULL")
			if c.name != 0 {
				s.Constraints = append(s.Constraints, sql.Constraint{Type: sql.NotNullConstraint, Name: c.name, ColNum: i})
			}
			ct.NotNull = true
		case "primary", "unique":
			con := sql.Constraint{Type: sql.PrimaryConstraint, Name: c.name, ColNum: -1, Key: ts.key(c)}
			if c.kind == "primary" {
				g.kw("PRIMARY KEY")
			} else {
				g.kw("UNIQUE")
				con.Type = sql.UniqueConstraint
			}
			if c.name == 0 {
				con.Name = generatedName(ts, c)
			}
			s.Constraints = append(s.Constraints, con)
		case "check":
			g.kw("CHECK")
			g.p("(")
			con := sql.Constraint{Type: sql.CheckConstraint, Name: c.name, ColNum: i, Check: g.expr()}
			g.p(")")
			s.Constraints = append(s.Constraints, con)
		case "references":
			g.kw("REFERENCES")
			fk := &sql.ForeignKey{Name: c.name, FKCols: []types.Identifier{col.name}, RefTable: g.tableName()}
			if g.pct(60) {
				fk.RefCols = g.ids(1)
			}
			g.onActions(fk)
			s.ForeignKeys = append(s.ForeignKeys, fk)
		case "raw":
			g.kw(c.raw)
		default:
			panic(c.kind)
		}
	}
	s.Columns = append(s.Columns, col.name)
	s.ColumnTypes = append(s.ColumnTypes, ct)
	s.ColumnDefaults = append(s.ColumnDefaults, dflt)
}

func (g *sqlGen) tableConstraint(ts *tableSpec, s *sql.CreateTable, c conSpec) {
	g.conName(c)
	switch c.kind {
	case "primary", "unique":
		con := sql.Constraint{Type: sql.PrimaryConstraint, Name: c.name, ColNum: -1, Key: ts.key(c)}
		if c.kind == "primary" {
			g.kw("PRIMARY KEY")
		} else {
			g.kw("UNIQUE")
			con.Type = sql.UniqueConstraint
		}
		if c.name == 0 {
			con.Name = generatedName(ts, c)
		}
		g.p("(")
		for j, i := range c.cols {
			if j > 0 {
				g.p(",")
			}
			g.toks = append(g.toks, ts.cols[i].tok)
			if c.rev[j] {
				g.kw("DESC")
			} else if g.pct(50) {
				g.kw("ASC")
			}
		}
		g.p(")")
		s.Constraints = append(s.Constraints, con)
	case "check":
		g.kw("CHECK")
		g.p("(")
		con := sql.Constraint{Type: sql.CheckConstraint, Name: c.name, ColNum: -1, Check: g.expr()}
		g.p(")")
		s.Constraints = append(s.Constraints, con)
	case "foreign":
		fk := g.foreignKey(c.name)
		s.ForeignKeys = append(s.ForeignKeys, &fk)
	case "raw":
		g.kw(c.raw)
	default:
		panic(c.kind)
	}
}

// ---------------------------------------------------------------- layout

func wordy(k tokKind) bool { return k == tkWord || k == tkNumber || k == tkString }

// needSpace: whether two tokens run together when nothing is between them.
func needSpace(a, b tok) bool {
	switch {
	case wordy(a.kind) && wordy(b.kind):
		return true
	case a.kind == tkOp && b.kind == tkOp:
		return true
	case a.kind == tkOp && b.kind == tkNumber:
		return true // - 1 is not -1
	case a.kind == tkNumber && b.text == ".":
		return true
	case a.kind == tkWord && b.kind == tkQuoted, a.kind == tkQuoted && b.kind == tkWord:
		return false
	}
	return false
}

type layout struct {
	spaces   []string
	comments bool
	tight    bool // nothing where nothing is needed
	cases    bool // change the case of words
	long     *int // the length of something very long still to be put between tokens, or nil
}

var plainLayout = layout{spaces: []string{" "}}

// The last are the rest of the characters with the property White_Space.
var wildSpaces = []string{" ", "  ", "\n", "\t", "\r\n", " \n ", "\v", "\f", "\u00a0", "\u2003", "\u0085", "\n\n", "\r", "\u1680",
	"\u2000\u2001\u2002", "\u2004\u2005\u2006", "\u2007\u2008\u2009", "\u200a", "\u2028", "\u2029", "\u202f", "\u205f", "\u3000"}

func genLayout(t *Case) layout {
	l := layout{spaces: wildSpaces, comments: t.IntN(2) == 0, tight: t.IntN(3) == 0, cases: t.IntN(2) == 0}
	if t.IntN(4) == 0 {
		l.spaces = []string{" "}
	}
	if t.IntN(400) == 0 {
		n := 1 << t.IntN(18)
		n += t.IntN(n)
		l.long = &n
	}
	return l
}

// render writes the tokens in a layout.
func (l layout) render(t *Case, toks []tok) string {
	var b strings.Builder
	for i, tk := range toks {
		if i > 0 {
			b.WriteString(l.between(t, toks[i-1], tk))
		} else if l.comments && t.IntN(4) == 0 {
			b.WriteString(l.gap(t))
		}
		s := tk.text
		if l.cases && tk.kind == tkWord {
			s = asciiCase(t, s)
		}
		b.WriteString(s)
	}
	return b.String()
}

func (l layout) between(t *Case, a, b tok) string {
	need := needSpace(a, b)
	if !need && (l.tight || t.IntN(3) == 0) {
		return ""
	}
	s := l.gap(t)
	if need && s == "" {
		return " "
	}
	if a.text == "-" && strings.HasPrefix(s, "--") || a.text == "/" && strings.HasPrefix(s, "*") {
		return " " + s
	}
	return s
}

// gap is white space and comments, and not empty.
func (l layout) gap(t *Case) string {
	s := ""
	if l.long != nil && *l.long > 0 && t.IntN(8) == 0 {
		n := *l.long
		*l.long = 0
		p := [][3]string{{"", "\n", ""}, {"", " ", ""}, {"", "\u2029", ""}, {"/*", "x\n", "*/"}, {"/*", "é*", "**/"},
			{"--", "--'", "\n"}, {"", "--\n", ""}, {"", "/**/", " "}}[t.IntN(8)]
		s = p[0] + strings.Repeat(p[1], n) + p[2]
	}
	for {
		if l.comments && t.IntN(3) == 0 {
			s += l.comment(t)
		} else {
			s += l.spaces[t.IntN(len(l.spaces))]
		}
		if t.IntN(3) > 0 {
			return s
		}
	}
}

func (l layout) comment(t *Case) string {
	text := []string{"", " c ", "; SELECT 1;", "'", "\"", " it's -- ", "*", "**", " é日本 ", "/", "/*", "[", "e'\\", "- "}[t.IntN(14)]
	if t.IntN(4) == 0 {
		g := newSQLGen(t)
		text = ""
		for n := t.IntN(8); n > 0; n-- {
			switch t.IntN(3) {
			case 0:
				text += string(g.rune())
			case 1:
				text += []string{"\u2028", "\u2029", "\u0085", "\r", "\v", "\f", "*", "/", "\x00", "\ufeff", "\\", "--"}[t.IntN(12)]
			default:
				text += g.text()
			}
		}
		text = strings.ReplaceAll(text, "\n", "")
		for strings.Contains(text, "*/") {
			text = strings.ReplaceAll(text, "*/", "")
		}
	}
	if t.IntN(2) == 0 {
		return "--" + text + "\n"
	}
	if t.IntN(3) == 0 {
		text += "\n;\n--"
	}
	return "/*" + text + "*/"
}

func asciiCase(t *Case, s string) string {
	b := []byte(s)
	mode := t.IntN(3)
	for i, c := range b {
		up := mode == 0 || (mode == 2 && t.IntN(2) == 0)
		switch {
		case up && c >= 'a' && c <= 'z':
			b[i] = c - 32
		case !up && c >= 'A' && c <= 'Z':
			b[i] = c + 32
		}
	}
	return string(b)
}
