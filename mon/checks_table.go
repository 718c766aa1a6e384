package main

// C32: definitions of tables. A well-formed definition is made as a structure and must be accepted as
// what it says; then one fault is put into it, and it must be refused without hurting what follows.

import (
	"fmt"
	"strings"

	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/types"
)

func init() {
	register(&Check{ID: "C32",
		Rule: "well-formed CREATE TABLE and CREATE INDEX statements made as structures and compared with what the parser gives; the same " +
			"with one fault put in (a name given twice in any spelling, a second primary key, a repeated key column, a repeated key, " +
			"sizes, clauses given twice or cut short), which must be refused; and definitions one step from a fault, which must not; " +
			"distinct by statement",
		Run: func(c *Ctx) {
			c.Phase("valid", c.N(12000, 200000), tableValid)
			c.Phase("near", c.N(8000, 100000), tableNear)
			c.Phase("faults", c.N(24000, 300000), tableFault)
			c.Phase("sizes", len(typeSpecs)*c.N(20, 200), tableSizes)
			c.Phase("indexes", c.N(6000, 60000), indexKeys)
		}})
}

func (t *Case) tableAccepted(g *sqlGen, want sql.Stmt) {
	text := genLayout(t).render(t, g.toks)
	t.Logf("text: %q", text)
	s := t.parseOne(text)
	if got, want := dumpAST(s), dumpAST(want); got != want {
		failDiff(t, text, got, want)
	}
	ct, ok := s.(*sql.CreateTable)
	if ok {
		names := map[types.Identifier]bool{}
		for _, c := range ct.Constraints {
			if c.Name == 0 && (c.Type == sql.PrimaryConstraint || c.Type == sql.UniqueConstraint) {
				t.Failf("%q: a key without a name", text)
			}
			if c.Name != 0 && names[c.Name] {
				t.Failf("%q: two constraints %s", text, c.Name)
			}
			names[c.Name] = true
		}
	}
	t.Count("accepted", 1)
	t.Distinct(text)
}

func tableValid(t *Case) {
	g := newSQLGen(t)
	g.simple = t.IntN(4) == 0
	want := g.createTable(newTableSpec(g))
	t.tableAccepted(g, want)
}

// respell writes a name in another way that denotes the same.
func (g *sqlGen) respell(id types.Identifier, tk tok) tok {
	text := tk.text
	if tk.kind == tkQuoted {
		n := text[1 : len(text)-1]
		var as []tok
		for _, q := range []string{"\"\"", "``", "[]"} {
			if !strings.Contains(n, q[1:]) {
				as = append(as, tok{q[:1] + n + q[1:], tkQuoted})
			}
		}
		if strings.ToLower(n) == n && plainWord(n) {
			as = append(as, tok{n, tkWord}, tok{strings.ToUpper(n), tkWord})
		}
		return as[g.IntN(len(as))]
	}
	if !plainWord(strings.ToLower(text)) {
		return tk
	}
	low := strings.ToLower(text)
	return []tok{{text, tkWord}, {strings.ToUpper(text), tkWord}, {strings.ToUpper(text[:1]) + text[1:], tkWord},
		{`"` + low + `"`, tkQuoted}, {"[" + low + "]", tkQuoted}, {"`" + low + "`", tkQuoted}}[g.IntN(6)]
}

// plainWord tells whether a lower case ASCII word is a name without quotes, and no key word.
func plainWord(n string) bool {
	for i, r := range n {
		if !(r >= 'a' && r <= 'z' || r == '_' || i > 0 && (r >= '0' && r <= '9' || r == '$')) {
			return false
		}
	}
	_, kw := refKeywords[strings.ToUpper(n)]
	return n != "" && !kw
}

// moreColumns makes a definition with at least n columns.
func moreColumns(g *sqlGen, n int) *tableSpec {
	for {
		ts := newTableSpec(g)
		if len(ts.cols) >= n {
			return ts
		}
	}
}

func (ts *tableSpec) addCon(g *sqlGen, c conSpec) {
	ts.cons = append(ts.cons, c)
	at := g.IntN(len(ts.mix) + 1)
	ts.mix = append(ts.mix[:at:at], append([]int{^(len(ts.cons) - 1)}, ts.mix[at:]...)...)
}

func (ts *tableSpec) allCons() []*conSpec {
	var cs []*conSpec
	for _, col := range ts.cols {
		for i := range col.cons {
			cs = append(cs, &col.cons[i])
		}
	}
	for i := range ts.cons {
		cs = append(cs, &ts.cons[i])
	}
	return cs
}

// tableNear: nearly wrong.
func tableNear(t *Case) {
	g := newSQLGen(t)
	ts := moreColumns(g, 2)
	switch t.IntN(5) {
	case 0: // names that differ only in case
		a, b := ts.cols[0], ts.cols[1]
		if t.IntN(2) == 0 {
			a, b = b, a
		}
		a.name, a.tok = types.ID("near", true), tok{"near", tkWord}
		b.name, b.tok = types.ID("NEAR", true), tok{`"NEAR"`, tkQuoted}
		// Names made for keys on both would be the same, which is not specified.
		for i, c := range ts.allCons() {
			if c.name == 0 && c.cols != nil {
				n := fmt.Sprintf("named%d", i)
				c.name, c.nameTok = types.ID(n, true), tok{n, tkWord}
			}
		}
	case 1: // a key and its columns in another order or direction, by names of their own
		var used = map[types.Identifier]bool{}
		for _, c := range ts.allCons() {
			used[c.name] = true
		}
		for _, c := range [][]bool{{false, false}, {true, false}, {false, true}, {true, true}} {
			for _, order := range [][]int{{0, 1}, {1, 0}} {
				if t.IntN(3) == 0 || ts.hasKey(order, c) {
					continue
				}
				k := conSpec{kind: "unique", cols: order, rev: c}
				k.name, k.nameTok = g.freshName(used)
				if ts.generates(k.name) {
					continue
				}
				ts.addCon(g, k)
			}
		}
	case 2: // constraints and columns have names of their own
		used := map[types.Identifier]bool{}
		for _, c := range ts.allCons() {
			used[c.name] = true
		}
		col := ts.cols[t.IntN(len(ts.cols))]
		if !used[col.name] && !ts.generates(col.name) {
			ts.addCon(g, conSpec{kind: "check", name: col.name, nameTok: g.respell(col.name, col.tok)})
		}
	case 3: // many checks and foreign keys without names
		for n := 2 + t.IntN(6); n > 0; n-- {
			ts.addCon(g, conSpec{kind: []string{"check", "foreign"}[t.IntN(2)]})
		}
	case 4: // many columns
		for n := t.IntN(40); n > 0; n-- {
			i := len(ts.cols)
			col := &colSpec{size: -1, typ: typeSpecs[t.IntN(len(typeSpecs))]}
			col.name, col.tok = types.ID(fmt.Sprintf("many%d", i), true), tok{fmt.Sprintf("many%d", i), tkWord}
			if t.IntN(3) == 0 {
				col.cons = append(col.cons, conSpec{kind: "unique", cols: []int{i}, rev: []bool{false}})
			}
			ts.cols = append(ts.cols, col)
			ts.mix = append(ts.mix, i)
		}
	}
	t.tableAccepted(g, g.createTable(ts))
}

func (ts *tableSpec) hasKey(cols []int, rev []bool) bool {
	for _, c := range ts.allCons() {
		if fmt.Sprint(c.cols, c.rev) == fmt.Sprint(cols, rev) {
			return true
		}
	}
	return false
}

// generates tells whether an unnamed key gets a name.
func (ts *tableSpec) generates(id types.Identifier) bool {
	for _, c := range ts.allCons() {
		if c.name == 0 && c.cols != nil && generatedName(ts, *c) == id {
			return true
		}
	}
	return false
}

var badTails = []string{"INT ( 4 )", "BOOL ( 1 )", "DOUBLE ( 8 )", "REAL ( 4 )", "INT NULL", "INT NOT", "INT PRIMARY", "INT UNIQUE KEY",
	"INT KEY", "VARCHAR ( )", "VARCHAR ( -1 )", "VARCHAR ( 4294967295 )", "VARCHAR ( 4294967296 )", "VARBINARY ( 4294967295 )",
	"BLOB ( 4294967297 )", "CHAR ( 9223372036854775807 )", "CHAR ( 1 , 2 )", "CHAR ( '1' )", "CHAR ( 1.0 )", "CHAR ( a )", "BINARY ( NULL )",
	"TEXT 1", "INTEGERS", "NOTYPE", "", "INT INT", "INT CHECK x", "INT CHECK ( )", "INT CHECK ( x", "INT CHECK ( x , y )",
	"INT DEFAULT", "INT DEFAULT , ", "INT REFERENCES", "INT REFERENCES r ( )", "INT REFERENCES r ( a , b )", "INT REFERENCES r ( a",
	"INT REFERENCES a . b . c . d", "INT CONSTRAINT", "INT CONSTRAINT c", "INT CONSTRAINT c CONSTRAINT d UNIQUE",
	"INT UNIQUE CONSTRAINT c", "INT REFERENCES r ON", "INT REFERENCES r ON INSERT CASCADE", "INT REFERENCES r ON DELETE",
	"INT REFERENCES r ON DELETE SET", "INT REFERENCES r ON DELETE NO", "INT REFERENCES r ON UPDATE SET VALUES",
	"INT REFERENCES r ON DELETE CASCADE ON DELETE CASCADE", "INT REFERENCES r ON DELETE NO ACTION ON DELETE SET NULL",
	"INT REFERENCES r ON UPDATE CASCADE ON DELETE CASCADE ON UPDATE RESTRICT", "INT REFERENCES r ON UPDATE NO ACTION ON UPDATE NO ACTION",
	"INT NOT NULL NOT NULL", "INT NOT NULL UNIQUE NOT NULL", "INT DEFAULT 1 DEFAULT 1", "INT DEFAULT 1 NOT NULL DEFAULT 2",
	"INT DEFAULT NULL DEFAULT NULL", "INT PRIMARY KEY ( a )", "INT ; ",
	"REAL PRECISION", "FLOAT PRECISION", "INT PRECISION", "TEXT PRECISION", "BOOL PRECISION", "DOUBLE PRECISION PRECISION", "PRECISION",
	"PRECISION DOUBLE", "DOUBLE PRECISION ( 8 )", "VARCHAR ( 8 ) PRECISION", "VARCHAR ( 8 ) ( 8 )", "DOUBLE REAL", "INT BIGINT"}

var badConstraints = []string{"PRIMARY KEY ( )", "PRIMARY KEY", "PRIMARY ( a )", "UNIQUE a", "UNIQUE ( )", "UNIQUE ( a , )", "UNIQUE ( a b )",
	"UNIQUE ( a DESC ASC )", "UNIQUE ( a", "UNIQUE ( a + 1 )", "UNIQUE ( a . b )", "CHECK", "CHECK ( )", "CHECK x", "FOREIGN KEY ( a )",
	"FOREIGN KEY ( ) REFERENCES r", "FOREIGN KEY REFERENCES r", "FOREIGN ( a ) REFERENCES r", "FOREIGN KEY ( a ) REFERENCES r ( )",
	"FOREIGN KEY ( a ) REFERENCES", "FOREIGN KEY ( a ASC ) REFERENCES r", "FOREIGN KEY ( a ) REFERENCES r ON DELETE CASCADE ON DELETE CASCADE",
	"FOREIGN KEY ( a ) REFERENCES r ON UPDATE CASCADE ON UPDATE NO ACTION", "FOREIGN KEY ( a ) REFERENCES r NOT NULL", "CONSTRAINT c",
	"CONSTRAINT c a INT", "CONSTRAINT c NOT NULL", "CONSTRAINT c DEFAULT 1", "CONSTRAINT UNIQUE ( a )", "CONSTRAINT c CONSTRAINT d UNIQUE ( a )",
	"NOT NULL", "DEFAULT 1", "REFERENCES r", "", "1", "'a'"}

func tableFault(t *Case) {
	g := newSQLGen(t)
	g.simple = t.IntN(4) == 0
	ts := newTableSpec(g)
	fault := ""
	ncols := len(ts.cols)
	switch t.IntN(10) {
	case 0:
		fault = "two columns of one name"
		old := ts.cols[t.IntN(ncols)]
		col := &colSpec{size: -1, name: old.name, tok: g.respell(old.name, old.tok), typ: typeSpecs[t.IntN(len(typeSpecs))]}
		ts.cols = append(ts.cols, col)
		at := t.IntN(len(ts.mix) + 1)
		ts.mix = append(ts.mix[:at:at], append([]int{ncols}, ts.mix[at:]...)...)
	case 1:
		fault = "two constraints of one name"
		for len(ts.allCons()) < 2 {
			if t.IntN(2) == 0 {
				ts.addCon(g, conSpec{kind: []string{"check", "foreign"}[t.IntN(2)]})
			} else if col := ts.cols[t.IntN(ncols)]; !col.dflt {
				col.dflt = true
				col.cons = append(col.cons, conSpec{kind: "default"})
			} else if !col.notNull {
				col.notNull = true
				col.cons = append(col.cons, conSpec{kind: "notnull"})
			}
		}
		cs := ts.allCons()
		i := t.IntN(len(cs))
		j := (i + 1 + t.IntN(len(cs)-1)) % len(cs)
		a, b := cs[i], cs[j]
		if a.name == 0 {
			a.name, a.nameTok = g.freshName(map[types.Identifier]bool{})
		}
		b.name, b.nameTok = a.name, g.respell(a.name, a.nameTok)
	case 2:
		fault = "two primary keys"
		has := false
		for _, c := range ts.allCons() {
			has = has || c.kind == "primary"
		}
		for n := 2; n > 0; n-- {
			if has && n == 2 {
				continue
			}
			i := t.IntN(ncols)
			if t.IntN(2) == 0 {
				ts.cols[i].cons = append(ts.cols[i].cons, conSpec{kind: "primary", cols: []int{i}, rev: []bool{false}})
			} else {
				ts.addCon(g, conSpec{kind: "primary", cols: []int{i}, rev: []bool{t.IntN(2) == 0}})
			}
		}
		for _, c := range ts.allCons() {
			if c.kind == "primary" && t.IntN(2) == 0 && c.name == 0 {
				c.name, c.nameTok = g.freshName(map[types.Identifier]bool{})
			}
		}
	case 3:
		fault = "a column twice in a key"
		cols := t.Perm(ncols)[:1+t.IntN(ncols)]
		at := t.IntN(len(cols) + 1)
		cols = append(cols[:at:at], append([]int{cols[t.IntN(len(cols))]}, cols[at:]...)...)
		c := conSpec{kind: []string{"unique", "primary"}[t.IntN(2)], cols: cols}
		for range cols {
			c.rev = append(c.rev, t.IntN(2) == 0)
		}
		if t.IntN(2) == 0 {
			c.name, c.nameTok = g.freshName(map[types.Identifier]bool{})
		}
		ts.addCon(g, c)
	case 4:
		fault = "a key twice"
		var keys []conSpec
		for _, c := range ts.allCons() {
			if c.cols != nil {
				keys = append(keys, *c)
			}
		}
		if len(keys) == 0 {
			c := conSpec{kind: "unique", cols: t.Perm(ncols)[:1+t.IntN(ncols)]}
			for range c.cols {
				c.rev = append(c.rev, t.IntN(2) == 0)
			}
			ts.addCon(g, c)
			keys = append(keys, c)
		}
		c := keys[t.IntN(len(keys))]
		c.kind = "unique"
		c.name, c.nameTok = 0, tok{}
		if t.IntN(3) > 0 {
			c.name, c.nameTok = g.freshName(map[types.Identifier]bool{})
		}
		ts.addCon(g, c)
	case 5, 6:
		col := ts.cols[t.IntN(ncols)]
		tail := badTails[t.IntN(len(badTails))]
		fault = "column " + tail
		col.typ, col.size, col.cons = typeSpec{name: tail}, -1, nil
	case 7:
		raw := badConstraints[t.IntN(len(badConstraints))]
		fault = "constraint " + raw
		ts.addCon(g, conSpec{kind: "raw", raw: raw})
	case 8:
		fault = "a default or not null twice"
		col := ts.cols[t.IntN(ncols)]
		k := []string{"default", "notnull"}[t.IntN(2)]
		for n := 2; n > 0; n-- {
			at := t.IntN(len(col.cons) + 1)
			c := conSpec{kind: k}
			if t.IntN(3) == 0 {
				c.name, c.nameTok = types.ID(fmt.Sprintf("own%d", n), true), tok{fmt.Sprintf("own%d", n), tkWord}
			}
			col.cons = append(col.cons[:at:at], append([]conSpec{c}, col.cons[at:]...)...)
		}
	case 9:
		fault = "cut or changed"
	}
	g.createTable(ts)
	if fault == "cut or changed" {
		// The parentheses around the definitions.
		last := len(g.toks) - 1
		open := 0
		for g.toks[open].text != "(" {
			open++
		}
		switch t.IntN(6) {
		case 0:
			g.toks = g.toks[:last]
		case 1:
			g.p(")")
		case 2:
			g.toks = append(g.toks[:open:open], g.toks[open+1:]...)
		case 3:
			g.toks = append(g.toks[:last:last], tok{",", tkPunct}, tok{")", tkPunct})
		case 4:
			g.toks = g.toks[:open]
		case 5:
			g.toks = append(g.toks[:open:open], tok{"(", tkPunct}, tok{")", tkPunct})
		}
	}
	text := genLayout(t).render(t, g.toks)
	t.refused(text, fault)
}

// refused: the statement fails and the one after it does not.
func (t *Case) refused(text, fault string) {
	t.Logf("text: %q (%s)", text, fault)
	out := t.outcomes(text)
	if len(out) == 0 || !isError(out[0]) {
		t.Failf("%q (%s) is accepted: %s", text, fault, strings.Join(out, "; "))
	}
	if !strings.HasSuffix(fault, "; ") {
		for _, o := range out {
			if !isError(o) {
				t.Failf("%q (%s) also gives %s", text, fault, o)
			}
		}
	}
	out = t.outcomes(text + "; SELECT 17")
	want := dumpAST(&sql.Select{Results: []sql.SelectResult{sql.ExprResult{Expr: sql.Literal{Value: types.Int64Value(17)}}}})
	if len(out) < 2 || out[len(out)-1] != want {
		t.Failf("%q (%s) then SELECT 17: %q", text, fault, out)
	}
	t.Count("refused", 1)
	t.Seen("faults", fault)
	t.Distinct(text)
	t.Sample("%s: %q", fault, text)
}

// tableSizes: every type with every size.
func tableSizes(t *Case) {
	ty := typeSpecs[t.index%len(typeSpecs)]
	g := newSQLGen(t)
	g.kw("CREATE TABLE")
	want := &sql.CreateTable{Table: g.tableName(), Columns: []types.Identifier{types.ID("c", true)}, ColumnDefaults: []sql.Expr{nil}}
	name := g.toks
	with := func(size string) string {
		g.toks = name[:len(name):len(name)]
		g.p("(")
		g.add(tkWord, "c")
		g.kw(ty.name)
		if size != "" {
			g.p("(")
			g.add(tkNumber, size)
			g.p(")")
		}
		g.p(")")
		return genLayout(t).render(t, g.toks)
	}
	accept := func(size string, ct types.ColumnType) {
		text := with(size)
		want.ColumnTypes = []types.ColumnType{ct}
		if got, want := dumpAST(t.parseOne(text)), dumpAST(want); got != want {
			failDiff(t, text, got, want)
		}
		t.Count("accepted", 1)
		t.Distinct(text)
	}
	accept("", ty.ct)
	n := t.Uint32() >> t.IntN(32)
	if n > types.MaxColumnSize {
		n--
	}
	sizes := []uint32{0, 1, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, types.MaxColumnSize - 1, types.MaxColumnSize, n}
	for _, n := range sizes {
		text := fmt.Sprint(n)
		if !ty.sized {
			t.refused(with(text), "a size for "+ty.name)
			continue
		}
		ct := ty.ct
		ct.Size = n
		accept(text, ct)
		accept("00"+text, ct)
	}
	over := uint64(types.MaxColumnSize) + 1 + t.Uint64()>>(2+t.IntN(62))
	for _, s := range []string{"-1", "- 1", "4294967295", "4294967296", "4294967297", "8589934592", "9223372036854775807",
		"9223372036854775808", "18446744073709551617", "1.0", "1.", "'1'", "x'01'", "NULL", "TRUE", "n", "1 + 1", "(1)", "1, 2", "*",
		fmt.Sprint(over), fmt.Sprintf("-%d", 1+t.Uint32()>>t.IntN(32))} {
		t.refused(with(s), "size "+s)
	}
}

func indexKeys(t *Case) {
	g := newSQLGen(t)
	want := g.stmt("create index")
	t.tableAccepted(g, want)
	g = newSQLGen(t)
	unique := t.IntN(2) == 0
	g.kw("CREATE")
	if unique {
		g.kw("UNIQUE")
	}
	g.kw("INDEX")
	g.id()
	g.kw("ON")
	g.tableName()
	g.p("(")
	n := 1 + t.IntN(5)
	var ids []types.Identifier
	var toks []tok
	for range n {
		ids = append(ids, g.newID(ids))
		toks = append(toks, g.toks[len(g.toks)-1])
		g.toks = g.toks[:len(g.toks)-1]
	}
	again, at := t.IntN(n), t.IntN(n+1)
	twice := g.respell(ids[again], toks[again])
	toks = append(toks[:at:at], append([]tok{twice}, toks[at:]...)...)
	for i, tk := range toks {
		if i > 0 {
			g.p(",")
		}
		g.toks = append(g.toks, tk)
		g.direction()
	}
	g.p(")")
	t.refused(genLayout(t).render(t, g.toks), "a column twice in an index")
}
