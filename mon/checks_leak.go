package main

// C36: what has been done leaves nothing behind: cycles of operations which end where they began, repeated with an eye on
// the heap, the goroutines and the open files of this process, and on the memory of the console.

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"syscall"
	"time"

	"github.com/leftmike/maho/encode"
	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/evaluate"
	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/storage/basic"
	"github.com/leftmike/maho/testutil"
	"github.com/leftmike/maho/types"
)

func init() {
	register(&Check{ID: "C36",
		Rule: "random cycles of operations that end where they began (of the store, the engine, sessions, typed tables, the " +
			"parser and the conversions), repeated many times, with the heap, goroutines and open files compared between " +
			"early and late repetitions, and the console with short and long input; distinct by cycle",
		Run: func(c *Ctx) {
			c.Phase("store", c.N(48, 1600), leakStore)
			c.Phase("engine", c.N(32, 800), leakEngine)
			c.Phase("sessions", c.N(32, 800), leakSessions)
			c.Phase("typed", c.N(24, 600), leakTyped)
			c.Phase("parser", c.N(48, 1600), leakParser)
			c.Phase("stream", c.N(32, 640), leakStream)
			c.Phase("values", c.N(48, 1600), leakValues)
			c.Phase("console", c.N(8, 64), leakConsole)
		}})
}

type usage struct {
	objects, bytes   int64
	goroutines, open int
}

func inUse() usage {
	runtime.GC()
	runtime.GC()
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	es, _ := os.ReadDir("/proc/self/fd")
	return usage{int64(ms.HeapObjects), int64(ms.HeapAlloc), runtime.NumGoroutine(), len(es)}
}

// leakCheck repeats a cycle. One in ten repetitions that leaves an object behind, or two bytes per repetition, is a leak,
// when it goes on in another, longer run.
func leakCheck(t *Case, n int, cycle func(i int)) {
	step := 0
	window := func(n int) (objects, bytes int64) {
		before := inUse()
		for i := 0; i < n; i++ {
			cycle(step)
			step++
		}
		after := inUse()
		for i := 0; i < 200 && (after.goroutines > before.goroutines || after.open > before.open); i++ {
			time.Sleep(10 * time.Millisecond)
			after = inUse()
		}
		if after.goroutines > before.goroutines {
			t.Failf("%d repetitions leave %d more goroutines", n, after.goroutines-before.goroutines)
		}
		if after.open > before.open {
			t.Failf("%d repetitions leave %d more files open", n, after.open-before.open)
		}
		return after.objects - before.objects, after.bytes - before.bytes
	}
	for i := 0; i < n; i++ {
		cycle(step)
		step++
	}
	var seen []string
	for m := 3 * n; ; m *= 2 {
		objects, bytes := window(m)
		seen = append(seen, fmt.Sprintf("%d repetitions: %d more objects, %d more bytes", m, objects, bytes))
		if objects <= int64(m/10+300) && bytes <= int64(2*m+128<<10) {
			break
		}
		if m > 8*n {
			t.Failf("memory grows: %s", strings.Join(seen, "; "))
		}
	}
	t.Count("repetitions", step)
	t.Count("measurements", len(seen)+1)
	runtime.KeepAlive(cycle)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// leakStore: transactions on one table, put back as it was at the end of each cycle.
func leakStore(t *Case) {
	st, err := basic.NewStore("")
	must(err)
	shape := t.IntN(largeShapes)
	names, cts, key := largeDef(shape)
	tn := types.TableName{Table: types.ID("leak", true)}
	base, size := int64(t.IntN(60)), int64(1+t.IntN(8))
	tx := st.Begin()
	must(tx.CreateTable(bg, 20, tn, names, cts, key))
	open := func(tx storage.Transaction) storage.Table {
		tbl, err := tx.OpenTable(bg, 20, tn, names, cts, key)
		must(err)
		return tbl
	}
	var rows []types.Row
	for k := int64(0); k < base; k++ {
		rows = append(rows, largeRow(shape, k, k))
	}
	must(open(tx).Insert(bg, rows))
	must(tx.Commit(bg))

	walk := func(tbl storage.Table, cols []types.ColumnNum, min, max types.Row, stop int,
		fn func(row types.Row, ref storage.RowRef)) {

		rs, err := tbl.Rows(bg, cols, min, max, nil)
		must(err)
		for n := 0; n != stop; n++ {
			row, err := rs.Next(bg)
			if err == io.EOF {
				break
			}
			must(err)
			if fn != nil {
				ref, err := rs.Current()
				must(err)
				fn(row, ref)
			}
		}
		must(rs.Close(bg))
	}
	type op struct {
		name string
		do   func(i int, tx storage.Transaction)
	}
	later, newer := int64(1000), int64(10000)
	fresh, next := t.IntN(2) == 0, storage.TableId(5000)
	ops := []op{
		{"scan", func(i int, tx storage.Transaction) { walk(open(tx), nil, nil, nil, -1, nil) }},
		{"scan of columns", func(i int, tx storage.Transaction) {
			walk(open(tx), []types.ColumnNum{2, 0}, largeRow(shape, 3, 0), nil, 5, nil)
		}},
		{"scan ended early", func(i int, tx storage.Transaction) { walk(open(tx), nil, nil, nil, 2, nil) }},
		{"insert", func(i int, tx storage.Transaction) {
			var rows []types.Row
			for k := later; k < later+size; k++ {
				rows = append(rows, largeRow(shape, k, int64(i)))
			}
			open(tx).Insert(bg, rows)
		}},
		{"insert what is there", func(i int, tx storage.Transaction) {
			tbl := open(tx)
			tbl.Insert(bg, []types.Row{largeRow(shape, 2000, int64(i))})
			if tbl.Insert(bg, []types.Row{largeRow(shape, 2000, int64(i))}) == nil {
				t.Failf("a row is inserted twice")
			}
		}},
		{"update", func(i int, tx storage.Transaction) {
			walk(open(tx), nil, nil, nil, int(size), func(row types.Row, ref storage.RowRef) {
				must(ref.Update(bg, []types.ColumnNum{1}, []types.Value{types.Int64Value(1000 + i)}))
			})
		}},
		{"update of the key", func(i int, tx storage.Transaction) {
			j := int64(0)
			walk(open(tx), nil, nil, nil, int(size), func(row types.Row, ref storage.RowRef) {
				j++
				ref.Update(bg, []types.ColumnNum{0}, []types.Value{largeKey(shape, 3000+j)})
			})
		}},
		{"new rows, moved to new keys", func(i int, tx storage.Transaction) {
			tbl := open(tx)
			var rows []types.Row
			from := newer
			for ; newer < from+size; newer++ {
				rows = append(rows, largeRow(shape, newer, int64(i)))
			}
			must(tbl.Insert(bg, rows))
			walk(tbl, nil, nil, nil, -1, func(row types.Row, ref storage.RowRef) {
				must(ref.Update(bg, []types.ColumnNum{0}, []types.Value{largeKey(shape, newer)}))
				newer++
			})
		}},
		{"delete", func(i int, tx storage.Transaction) {
			walk(open(tx), nil, nil, nil, int(size), func(row types.Row, ref storage.RowRef) { must(ref.Delete(bg)) })
		}},
		{"delete all", func(i int, tx storage.Transaction) {
			walk(open(tx), nil, nil, nil, -1, func(row types.Row, ref storage.RowRef) { must(ref.Delete(bg)) })
		}},
		{"create and drop", func(i int, tx storage.Transaction) {
			tid := storage.TableId(30)
			if fresh {
				next++
				tid = next
			}
			must(tx.CreateTable(bg, tid, tn, names, cts, key))
			tbl, err := tx.OpenTable(bg, tid, tn, names, cts, key)
			must(err)
			must(tbl.Insert(bg, []types.Row{largeRow(shape, int64(i), 1)}))
			must(tx.DropTable(bg, tid))
		}},
		{"drop and create", func(i int, tx storage.Transaction) {
			must(tx.DropTable(bg, 20))
			must(tx.CreateTable(bg, 20, tn, names, cts, key))
		}},
		{"open another", func(i int, tx storage.Transaction) {
			Try(func() { tx.OpenTable(bg, 31, tn, names, cts, key) })
			Try(func() { tx.OpenTable(bg, 20, tn, names[:2], cts[:2], key) })
		}},
		{"next statement", func(i int, tx storage.Transaction) { tx.NextStmt() }},
		{"nothing", func(i int, tx storage.Transaction) {}},
	}
	type txn struct {
		ops          []op
		roll, misuse bool
		open         bool // try to roll back with a scan open
	}
	var txns []txn
	desc := ""
	for n := 1 + t.IntN(4); n > 0; n-- {
		x := txn{roll: t.IntN(2) == 0, misuse: t.IntN(3) == 0}
		x.open = x.roll && t.IntN(3) == 0
		for m := 1 + t.IntN(4); m > 0; m-- {
			o := ops[t.IntN(len(ops))]
			x.ops = append(x.ops, o)
			desc += o.name + ", "
		}
		desc += fmt.Sprintf("rollback %v, with a scan open %v, ended again %v; ", x.roll, x.open, x.misuse)
		txns = append(txns, x)
	}
	t.Logf("table of %d rows, %d at a time, shape %d: %s", base, size, shape, desc)
	// All of it in one transaction, or in transactions of their own.
	var long storage.Transaction
	if t.IntN(3) == 0 {
		long = st.Begin()
		desc = "in one transaction: " + desc
	}
	leakCheck(t, 300+3000/(1+int(base)), func(i int) {
		for _, x := range txns {
			if long != nil {
				for _, o := range x.ops {
					o.do(i, long)
				}
				continue
			}
			tx := st.Begin()
			for _, o := range x.ops {
				o.do(i, tx)
			}
			if x.open {
				rs, err := open(tx).Rows(bg, nil, nil, nil, nil)
				must(err)
				if Try(func() { tx.Rollback() }) == nil {
					t.Failf("rollback with a scan open")
				}
				must(rs.Close(bg))
			}
			if x.roll {
				must(tx.Rollback())
			} else {
				must(tx.Commit(bg))
			}
			if x.misuse {
				Try(func() { tx.Commit(bg) })
				Try(func() { tx.Rollback() })
			}
		}
		tx := long
		if tx == nil {
			tx = st.Begin()
		}
		tbl := open(tx)
		walk(tbl, nil, nil, nil, -1, func(row types.Row, ref storage.RowRef) { must(ref.Delete(bg)) })
		must(tbl.Insert(bg, rows))
		if long == nil {
			must(tx.Commit(bg))
		}
	})
	runtime.KeepAlive(st)
	runtime.KeepAlive(long)
	t.Distinct(desc)
	t.Sample("%s", desc)
}

// leakEngine: databases, schemas and tables which go again.
func leakEngine(t *Case) {
	st, eng := newEngine(t)
	db := func(i int) types.Identifier { return plainID(fmt.Sprintf("d%d", i)) }
	sn := func(d types.Identifier, i int) types.SchemaName {
		return types.SchemaName{Database: d, Schema: plainID(fmt.Sprintf("s%d", i))}
	}
	def := genEngDef(t, 2+t.IntN(4))
	table := func(tx engine.Transaction, i int) types.TableName {
		tn := types.TableName{Database: types.MAHO, Schema: types.PUBLIC, Table: plainID(fmt.Sprintf("t%d", i))}
		must(tx.CreateTable(bg, tn, def.names, def.cts, def.key))
		return tn
	}
	// What is there all the time.
	must(eng.CreateDatabase(db(9), nil))
	tx := eng.Begin()
	must(tx.CreateSchema(bg, sn(db(9), 9)))
	old := table(tx, 0)
	must(tx.Commit(bg))

	type op struct {
		name string
		do   func(i int)
	}
	var long engine.Transaction
	in := func(commit bool, fn func(tx engine.Transaction)) {
		if long != nil {
			fn(long)
			return
		}
		tx := eng.Begin()
		fn(tx)
		if commit {
			must(tx.Commit(bg))
		} else {
			must(tx.Rollback())
		}
	}
	ops := []op{
		{"database made and dropped", func(i int) {
			must(eng.CreateDatabase(db(i%3), nil))
			must(eng.DropDatabase(db(i%3), i%2 == 0))
		}},
		{"database made twice", func(i int) {
			if eng.CreateDatabase(db(9), nil) == nil {
				t.Failf("a database is made twice")
			}
		}},
		{"database not there dropped", func(i int) {
			eng.DropDatabase(db(8), false)
			must(eng.DropDatabase(db(8), true))
		}},
		{"databases listed", func(i int) { eng.ListDatabases() }},
		{"schemas made and dropped", func(i int) {
			in(true, func(tx engine.Transaction) {
				must(tx.CreateSchema(bg, sn(db(9), i%3)))
				must(tx.CreateSchema(bg, sn(db(9), 7)))
			})
			in(true, func(tx engine.Transaction) {
				must(tx.DropSchema(bg, sn(db(9), i%3), false))
				must(tx.DropSchema(bg, sn(db(9), 7), true))
			})
		}},
		{"schema made and rolled back", func(i int) {
			in(false, func(tx engine.Transaction) { must(tx.CreateSchema(bg, sn(db(9), i%3))) })
		}},
		{"schema made twice", func(i int) {
			in(i%2 == 0, func(tx engine.Transaction) {
				if tx.CreateSchema(bg, sn(db(9), 9)) == nil || tx.CreateSchema(bg, sn(db(8), 1)) == nil {
					t.Failf("a schema is made twice")
				}
			})
		}},
		{"schema dropped and rolled back", func(i int) {
			in(false, func(tx engine.Transaction) { must(tx.DropSchema(bg, sn(db(9), 9), false)) })
		}},
		{"schemas listed", func(i int) {
			in(i%2 == 0, func(tx engine.Transaction) {
				tx.ListSchemas(bg, db(9))
				tx.ListSchemas(bg, db(8))
			})
		}},
		{"tables made and rolled back", func(i int) {
			in(false, func(tx engine.Transaction) {
				tx.OpenTable(bg, table(tx, 1+i%3))
				table(tx, 7)
			})
		}},
		{"table made twice", func(i int) {
			in(i%2 == 0, func(tx engine.Transaction) {
				if tx.CreateTable(bg, old, def.names, def.cts, def.key) == nil {
					t.Failf("a table is made twice")
				}
			})
		}},
		{"table opened", func(i int) {
			in(i%2 == 0, func(tx engine.Transaction) {
				tbl, err := tx.OpenTable(bg, old)
				must(err)
				tbl.Type().Encode()
				old := old
				old.Table = plainID("missing")
				tx.OpenTable(bg, old)
			})
		}},
		{"another engine", func(i int) { eng = engine.NewEngine(st) }},
		{"ended twice", func(i int) {
			tx := eng.Begin()
			must(tx.Commit(bg))
			Try(func() { tx.Commit(bg) })
			Try(func() { tx.Rollback() })
		}},
		{"a store of its own", func(i int) {
			if i%10 == 0 {
				st, err := basic.NewStore("")
				must(err)
				must(engine.Init(st))
				must(engine.NewEngine(st).CreateDatabase(db(1), nil))
			}
		}},
	}
	n := 1 + t.IntN(4)
	var do []op
	desc := ""
	if t.IntN(3) == 0 {
		long = eng.Begin()
		desc = "in one transaction: "
		var inOne []op
		for _, o := range ops {
			switch o.name {
			case "schemas made and dropped", "schema made twice", "schemas listed", "table made twice", "table opened",
				"a store of its own":
				inOne = append(inOne, o)
			}
		}
		ops = inOne
	}
	for len(do) < n {
		o := ops[t.IntN(len(ops))]
		do = append(do, o)
		desc += o.name + "; "
	}
	t.Logf("%s", desc)
	leakCheck(t, 400, func(i int) {
		for _, o := range do {
			o.do(i)
		}
	})
	runtime.KeepAlive(eng)
	runtime.KeepAlive(long)
	t.Distinct(desc)
	t.Sample("%s", desc)
}

// leakSessions: sessions and statements.
func leakSessions(t *Case) {
	_, eng := newEngine(t)
	dc, cancel := context.WithCancel(bg)
	defer cancel()
	ses := evaluate.NewSession(eng, types.MAHO, types.PUBLIC)
	// Each of these ends where it began.
	scripts := [][]string{
		{"CREATE DATABASE x", "DROP DATABASE x"},
		{"CREATE SCHEMA y", "DROP SCHEMA y"},
		{"BEGIN", "CREATE SCHEMA y", "CREATE TABLE y.t (c1 INT PRIMARY KEY, c2 TEXT DEFAULT 'abc')", "ROLLBACK"},
		{"BEGIN", "CREATE TABLE t (c1 INT, c2 TEXT, PRIMARY KEY (c2 DESC))", "CREATE INDEX i ON t (c1)", "ROLLBACK"},
		{"BEGIN", "COMMIT"}, {"BEGIN", "BEGIN", "COMMIT"}, {"COMMIT"}, {"ROLLBACK"},
		{"SET DATABASE TO 'x'", "SET SCHEMA TO 'y'", "CREATE SCHEMA y", "SET DATABASE TO 'maho'", "SET SCHEMA TO 'public'"},
		{"SET nothing TO '1'"},
		{"DROP SCHEMA IF EXISTS y"}, {"DROP SCHEMA nowhere.y"}, {"DROP DATABASE nowhere"},
		{"DROP TABLE t"}, {"BEGIN", "DROP TABLE t", "CREATE INDEX i ON t (c1)", "COMMIT"}, {"SELECT * FROM", "INSERT 3"},
		{"CREATE TABLE nowhere.z.t (c1 INT)"}, {"BEGIN", "CREATE TABLE nowhere.t (c1 INT)", "ROLLBACK"},
		{"BEGIN", "CREATE DATABASE x", "DROP DATABASE maho", "COMMIT"},
	}
	var do [][]string
	desc := ""
	for n := 1 + t.IntN(4); n > 0; n-- {
		s := scripts[t.IntN(len(scripts))]
		do = append(do, s)
		desc += strings.Join(s, "; ") + "; "
	}
	how := t.IntN(3)
	desc += []string{"in one session", "in a session each", "with contexts of their own"}[how]
	t.Logf("%s", desc)
	leakCheck(t, 300, func(i int) {
		ctx := context.Context(bg)
		if how == 1 {
			ses = evaluate.NewSession(eng, types.MAHO, types.PUBLIC)
		} else if how == 2 {
			ctx = context.WithValue(dc, ctxKey{}, i)
		}
		for _, s := range do {
			for _, text := range s {
				stmt, err := parser.NewParser(strings.NewReader(text), "src").Parse()
				if err != nil {
					continue
				}
				ses.Evaluate(ctx, stmt)
			}
		}
	})
	t.Distinct(desc)
	t.Sample("%s", desc)
}

type leakRow struct {
	A    int64   `maho:"primary"`
	B    string  `maho:"size=128"`
	Cdef []byte  `maho:"size=128"`
	D    *string `maho:"size=128"`
}

// leakTyped: a typed table.
func leakTyped(t *Case) {
	st, err := basic.NewStore("")
	must(err)
	tn := types.TableName{Table: plainID("typed")}
	ti := engine.MakeTypedInfo(40, tn, leakRow{})
	tx := st.Begin()
	must(engine.CreateTypedTable(bg, tx, ti))
	must(tx.Commit(bg))
	again, commit, what, keys := t.IntN(2) == 0, t.IntN(2) == 0, t.IntN(5), 7
	if t.IntN(2) == 0 {
		keys = 1 << 30
	}
	t.Logf("made again %v, committed %v, what %d, keys %d", again, commit, what, keys)
	leakCheck(t, 800, func(i int) {
		if again {
			ti = engine.MakeTypedInfo(40, tn, leakRow{})
		}
		tx := st.Begin()
		s := fmt.Sprint("text ", i)
		must(engine.TypedTableInsert(bg, tx, ti, &leakRow{int64(i % keys), s, []byte(s), nil}))
		switch what {
		case 1:
			must(engine.TypedTableLookup(bg, tx, ti, &leakRow{A: int64(i % keys)}))
		case 2:
			must(engine.TypedTableUpdate(bg, tx, ti, nil, nil, func(row types.Row) (interface{}, error) {
				return &struct{ B string }{s + s}, nil
			}))
		case 3:
			engine.TypedTableSelect(bg, tx, ti, nil, nil, func(row types.Row) error {
				var lr leakRow
				ti.RowToStruct(row, &lr)
				return io.EOF
			})
		case 4:
			if engine.TypedTableInsert(bg, tx, ti, &leakRow{int64(i % keys), s, []byte(s), &s}) == nil {
				t.Failf("a row is inserted twice")
			}
		}
		if !commit {
			must(tx.Rollback())
			return
		}
		must(tx.Commit(bg))
		tx = st.Begin()
		must(engine.TypedTableDelete(bg, tx, ti, nil, nil, func(row types.Row) (bool, error) { return true, nil }))
		must(tx.Commit(bg))
	})
	t.Distinct(fmt.Sprint(again, commit, what, keys))
}

// leakText gives statements, some of them cut off or with a token changed.
func leakText(t *Case, n int) []string {
	var texts []string
	for len(texts) < n {
		g := newSQLGen(t)
		k := stmtKinds[t.IntN(len(stmtKinds))]
		g.stmt(k)
		toks := g.toks
		if t.IntN(3) == 0 {
			toks = toks[:t.IntN(len(toks)+1)]
		} else if t.IntN(4) == 0 {
			toks[t.IntN(len(toks))] = tok{"~?", tkPunct}
		}
		if text := plainLayout.render(t, toks); len(text) < 4000 {
			texts = append(texts, text)
		}
	}
	return texts
}

// closed ends a statement, whatever it leaves open.
func closed(text string) string {
	for _, end := range []string{";\n", "';\n", "\";\n", "*/;\n", "`;\n"} {
		p := parser.NewParser(strings.NewReader(text+end+"SELECT 12345;"), "src")
		last := ""
		if Try(func() {
			for {
				stmt, err := p.Parse()
				if err == io.EOF {
					break
				}
				last = fmt.Sprint(stmt, err)
			}
		}) == nil && strings.Contains(last, "12345") && strings.Contains(last, "SELECT") && !strings.Contains(last, "parser:") {
			return text + end
		}
	}
	return "SELECT 1;\n"
}

// leakParser: a parser each for a few statements, printed, too.
func leakParser(t *Case) {
	texts := leakText(t, 1+t.IntN(8))
	for _, text := range texts {
		t.Logf("%s", text)
	}
	lit, data := t.IntN(2) == 0, t.IntN(2) == 0
	leakCheck(t, 400, func(i int) {
		for _, text := range texts {
			p := parser.NewParser(strings.NewReader(text), "src")
			for {
				var stmt any
				var err error
				if Try(func() { stmt, err = p.Parse() }) != nil || err == io.EOF {
					break
				} else if err == nil {
					_ = fmt.Sprint(stmt)
					if cp, ok := stmt.(*sql.Copy); ok && data {
						readLine(cp)
					}
				} else {
					_ = err.Error()
				}
			}
		}
		if lit {
			_, err := parser.NewParser(strings.NewReader(fmt.Sprintf("c = 'text %d' or %d + %d.5 = b'%08x'", i, i, i, i)), "src").ParseExpr()
			must(err)
		}
	})
	t.Distinct(strings.Join(texts, ";"))
	t.Count("statements", len(texts))
}

// cycleReader gives the same bytes over and over.
type cycleReader struct {
	text string
	at   int
}

func (r *cycleReader) Read(b []byte) (int, error) {
	n := copy(b, r.text[r.at:])
	r.at = (r.at + n) % len(r.text)
	return n, nil
}

func (r *cycleReader) ReadRune() (rune, int, error) {
	c := r.text[r.at]
	r.at = (r.at + 1) % len(r.text)
	return rune(c), 1, nil
}

// readLine reads a line of the data of a COPY.
func readLine(cp *sql.Copy) {
	for {
		if r, _, err := cp.From.ReadRune(); err != nil || r == '\n' {
			return
		}
	}
}

// leakStream: one parser whose input does not end.
func leakStream(t *Case) {
	var sb, all strings.Builder
	n := 1
	if t.IntN(2) == 0 {
		n += t.IntN(6)
	}
	texts := leakText(t, n)
	data := t.IntN(2) == 0
	if t.IntN(6) == 0 {
		texts[0] = "COPY t (a, b) FROM STDIN"
	}
	for _, text := range texts {
		for _, r := range text {
			if r < 0x80 {
				sb.WriteRune(r)
			}
		}
		ascii := sb.String()
		sb.Reset()
		all.WriteString(closed(ascii))
		if t.IntN(3) == 0 {
			all.WriteString("-- " + strings.Repeat("comment ", t.IntN(40)) + "\n")
		}
		if t.IntN(3) == 0 {
			all.WriteString(strings.Repeat(" \t\n", t.IntN(40)))
		}
		if t.IntN(3) == 0 {
			all.WriteString(strings.Repeat("x ~ ", t.IntN(40)) + "\n")
		}
	}
	t.Logf("%s", all.String())
	p := parser.NewParser(&cycleReader{text: all.String()}, "src")
	stmts, errs := 0, 0
	leakCheck(t, 1000, func(i int) {
		for range 16 {
			stmt, err := p.Parse()
			if err == io.EOF {
				t.Failf("the input has ended")
			} else if err == nil {
				_ = fmt.Sprint(stmt)
				stmts++
				if cp, ok := stmt.(*sql.Copy); ok && data {
					readLine(cp)
				}
			} else {
				errs++
			}
		}
	})
	runtime.KeepAlive(p)
	t.Count("statements of a stream", stmts)
	t.Count("errors of a stream", errs)
	t.Distinct(all.String())
}

// leakValues: conversions, comparisons, keys, names and notation, mostly of values that are new each time.
func leakValues(t *Case) {
	long := strings.Repeat("z", types.MaxIdentifier)
	key := []types.ColumnKey{types.MakeColumnKey(1, true), types.MakeColumnKey(0, false)}
	cts := []types.ColumnType{types.Int64ColType, types.StringColType, types.BoolColType}
	type op struct {
		name string
		do   func(i int)
	}
	names := []string{"alpha", "Beta", "SELECT", "select", "Gamma Delta", long, long + "y", "é"}
	tt := &engine.TableType{Version: 1, ColumnNames: []types.Identifier{plainID("a"), plainID("b"), plainID("c")}, ColumnTypes: cts, Key: key}
	all := []op{
		{"names", func(i int) {
			id := types.ID(names[i%len(names)], i%3 == 0)
			_ = id.String()
			b, err := id.GobEncode()
			must(err)
			must(id.GobDecode(b))
			_ = types.TableName{Database: id, Schema: id, Table: id}.String()
		}},
		{"names cut to their length", func(i int) { types.ID(long+fmt.Sprint(i), true) }},
		{"casts", func(i int) {
			for _, v := range []types.Value{types.Int64Value(i), types.Float64Value(i), types.StringValue(fmt.Sprint(i)),
				types.BytesValue(fmt.Sprint(i)), types.BoolValue(i%2 == 0), types.StringValue(fmt.Sprint("no number ", i)), nil} {
				for _, vt := range []types.ValueType{types.BoolType, types.StringType, types.BytesType, types.Float64Type, types.Int64Type} {
					types.CastValue(vt, v)
				}
				_ = types.FormatValue(v)
			}
		}},
		{"rows converted", func(i int) {
			types.ConvertRow(cts, types.Row{types.StringValue(fmt.Sprint(i)), types.StringValue(fmt.Sprint(i)), types.StringValue("true")})
			types.ConvertRow(cts, types.Row{types.StringValue(fmt.Sprint("x", i))})
		}},
		{"values compared", func(i int) {
			types.Compare(types.StringValue(fmt.Sprint(i)), types.StringValue(fmt.Sprint(i+1)))
			types.Compare(types.Int64Value(i), types.Float64Value(i))
		}},
		{"keys", func(i int) {
			b := encode.MakeKey(key, types.Row{types.Int64Value(i), types.StringValue(fmt.Sprint("a\x00b", i))})
			b = encode.EncodeZigzag64(encode.EncodeVarint(b, uint64(i)), int64(-i))
			encode.DecodeVarint(b)
		}},
		{"notation", func(i int) {
			testutil.ParseRows(strings.NewReader(fmt.Sprintf("(%d, 'text %d', true), (%d.5, NULL)", i, i, i)))
			testutil.ParseRow(strings.NewReader(fmt.Sprintf("(%d, 'text %d", i, i)))
			testutil.ParseColumns(strings.NewReader("a INT PRIMARY KEY, b TEXT"))
		}},
		{"rows compared", func(i int) {
			r1 := []types.Row{{types.Int64Value(i)}, {types.Int64Value(i + 1)}}
			r2 := []types.Row{{types.Int64Value(i + 1)}, {types.Int64Value(i)}}
			testutil.RowsEqual(r1, r2, true)
			_ = testutil.FormatRows(r1, ";")
		}},
		{"definitions", func(i int) {
			tt.Version = uint32(i%100 + 1)
			b, err := tt.Encode()
			must(err)
			_, err = engine.DecodeTableType(b)
			must(err)
		}},
	}
	desc := ""
	var do []op
	for n := 1 + t.IntN(3); n > 0; n-- {
		o := all[t.IntN(len(all))]
		do = append(do, o)
		desc += o.name + "; "
	}
	t.Logf("%s", desc)
	leakCheck(t, 1500, func(i int) {
		for _, o := range do {
			Try(func() { o.do(i) })
		}
	})
	t.Distinct(desc)
	t.Sample("%s", desc)
}

type leakInput struct {
	cycleReader
	left int
}

func (r *leakInput) Read(b []byte) (int, error) {
	if r.left <= 0 {
		return 0, io.EOF
	}
	n, _ := r.cycleReader.Read(b[:min(len(b), r.left)])
	r.left -= n
	return n, nil
}

type countLines int

func (c *countLines) Write(b []byte) (int, error) {
	*c += countLines(bytes.Count(b, []byte("\n")))
	return len(b), nil
}

// leakConsole: the memory of the console after a long input, against that after a short one.
func leakConsole(t *Case) {
	var sb strings.Builder
	for _, text := range leakText(t, 1+t.IntN(20)) {
		sb.WriteString(closed(text))
	}
	text := sb.String()
	run := func(n int) int64 {
		cmd := exec.Command(os.Getenv("MAHO_CONSOLE"))
		cmd.Dir = os.Getenv("MAHO_TMP")
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=50")
		var lines countLines
		cmd.Stdin, cmd.Stdout = &leakInput{cycleReader: cycleReader{text: text}, left: n}, &lines
		if err := cmd.Run(); err != nil {
			t.Failf("console with %d bytes: %v", n, err)
		}
		t.Count("lines of answers", int(lines))
		return cmd.ProcessState.SysUsage().(*syscall.Rusage).Maxrss << 10
	}
	short, long := 1<<20, 12<<20
	if !t.c.Quick {
		long = 100 << 20
	}
	a, b := run(short), run(long)
	t.Logf("%d bytes of input: %d resident; %d bytes: %d", short, a, long, b)
	t.Count("console runs", 2)
	if b-a > int64(long)/2+8<<20 {
		t.Failf("the console uses %d MB after %d MB of input, and %d MB after %d MB", b>>20, long>>20, a>>20, short>>20)
	}
	t.Distinct(text)
	t.Sample("%d MB and %d MB", a>>20, b>>20)
}
