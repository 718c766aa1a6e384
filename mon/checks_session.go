package main

// C19 to C22: sessions. For C19 to C21 the session runs on an engine that records every call made to
// it, keeps a small catalog, and fails where it is told to; for C22 on the real engine, concurrently.

import (
	"context"
	"errors"
	"fmt"
	"maps"
	"reflect"
	"slices"
	"strings"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/evaluate"
	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"
)

// ---------------------------------------------------------------- the recording engine

type recCall struct {
	tx     int // 0: of the engine itself
	op     string
	name   any // types.TableName, types.SchemaName or types.Identifier
	detail string
	err    error
}

func (c recCall) String() string {
	s := fmt.Sprintf("%d:%s %v %s", c.tx, c.op, c.name, c.detail)
	if c.err != nil {
		s += " -> " + c.err.Error()
	}
	return s
}

func (c recCall) read() bool {
	switch c.op {
	case "open table", "list schemas", "list tables", "list databases":
		return true
	}
	return false
}

func (c recCall) ends() bool { return c.op == "commit" || c.op == "rollback" }

type recView struct {
	dbs     map[types.Identifier]bool
	schemas map[types.SchemaName]bool
	tables  map[types.TableName]*engine.TableType
}

func newRecView() *recView {
	return &recView{map[types.Identifier]bool{}, map[types.SchemaName]bool{}, map[types.TableName]*engine.TableType{}}
}

func (v *recView) clone() *recView {
	return &recView{maps.Clone(v.dbs), maps.Clone(v.schemas), maps.Clone(v.tables)}
}

type recEngine struct {
	calls  []recCall
	txs    []*recTx // number 1 first
	view   *recView // committed
	fail   map[int]error
	tries  int  // calls that can fail
	yes    bool // everything works: tables are there, except for those to create
	has    map[types.TableName]bool
	misuse string
	cancel func() // cancels the running statement
}

type recTx struct {
	eng     *recEngine
	n       int
	ended   bool
	view    *recView
	journal []func(v *recView)
}

var errNatural = errors.New("the engine refuses")

// call records a call and decides whether it fails.
func (e *recEngine) call(c recCall, natural error) error {
	e.tries++
	c.err = natural
	if f := e.fail[e.tries-1]; f != nil {
		c.err = f
		if e.cancel != nil && errors.Is(f, context.Canceled) {
			e.cancel()
		}
	}
	e.calls = append(e.calls, c)
	return c.err
}

func (e *recEngine) exists(ok bool) error {
	if ok || e.yes {
		return nil
	}
	return errNatural
}

func (e *recEngine) missing(ok bool) error {
	if !ok || e.yes {
		return nil
	}
	return errNatural
}

func optString(o map[types.Identifier]string) string {
	var s []string
	for k, v := range o {
		s = append(s, fmt.Sprintf("%d=%q", k, v))
	}
	slices.Sort(s)
	return strings.Join(s, " ")
}

func (e *recEngine) CreateDatabase(dn types.Identifier, opts storage.OptionsMap) error {
	err := e.call(recCall{0, "create database", dn, optString(opts), nil}, e.missing(e.view.dbs[dn]))
	if err == nil {
		e.view.dbs[dn] = true
	}
	return err
}

func (e *recEngine) DropDatabase(dn types.Identifier, ifExists bool) error {
	err := e.call(recCall{0, "drop database", dn, fmt.Sprint(ifExists), nil}, e.exists(e.view.dbs[dn] || ifExists))
	if err == nil {
		delete(e.view.dbs, dn)
	}
	return err
}

func (e *recEngine) ListDatabases() ([]types.Identifier, error) {
	if err := e.call(recCall{0, "list databases", nil, "", nil}, nil); err != nil {
		return nil, err
	}
	return slices.Collect(maps.Keys(e.view.dbs)), nil
}

func (e *recEngine) Begin() engine.Transaction {
	tx := &recTx{eng: e, n: len(e.txs) + 1, view: e.view.clone()}
	e.txs = append(e.txs, tx)
	e.calls = append(e.calls, recCall{tx.n, "begin", nil, "", nil})
	return tx
}

func (tx *recTx) call(op string, name any, detail string, natural error) error {
	if tx.ended && tx.eng.misuse == "" {
		tx.eng.misuse = fmt.Sprintf("%s of transaction %d, which has ended", op, tx.n)
	}
	return tx.eng.call(recCall{tx.n, op, name, detail, nil}, natural)
}

func (tx *recTx) change(fn func(v *recView)) {
	fn(tx.view)
	tx.journal = append(tx.journal, fn)
}

func (tx *recTx) Commit(ctx context.Context) error {
	err := tx.call("commit", nil, "", nil)
	tx.ended = true
	if err == nil {
		for _, fn := range tx.journal {
			fn(tx.eng.view)
		}
	}
	return err
}

func (tx *recTx) Rollback() error {
	err := tx.call("rollback", nil, "", nil)
	tx.ended = true
	return err
}

func (tx *recTx) CreateSchema(ctx context.Context, sn types.SchemaName) error {
	err := tx.call("create schema", sn, "", tx.eng.missing(tx.view.schemas[sn]))
	if err == nil {
		tx.change(func(v *recView) { v.schemas[sn] = true })
	}
	return err
}

func (tx *recTx) DropSchema(ctx context.Context, sn types.SchemaName, ifExists bool) error {
	err := tx.call("drop schema", sn, fmt.Sprint(ifExists), tx.eng.exists(tx.view.schemas[sn] || ifExists))
	if err == nil {
		tx.change(func(v *recView) { delete(v.schemas, sn) })
	}
	return err
}

func (tx *recTx) ListSchemas(ctx context.Context, dn types.Identifier) ([]types.Identifier, error) {
	if err := tx.call("list schemas", dn, "", nil); err != nil {
		return nil, err
	}
	var ids []types.Identifier
	for sn := range tx.view.schemas {
		if sn.Database == dn {
			ids = append(ids, sn.Schema)
		}
	}
	return ids, nil
}

var yesColumns = func() []types.Identifier {
	ids := []types.Identifier{types.ID("x", true), types.ID("y", true), types.ID("z", true)}
	for i := len(ids); i < 70; i++ {
		ids = append(ids, types.ID(fmt.Sprintf("w%d", i), true))
	}
	return ids
}()

type recTable struct {
	tn types.TableName
	tt *engine.TableType
}

func (t recTable) Name() types.TableName    { return t.tn }
func (t recTable) Type() *engine.TableType  { return t.tt }
func (t recTable) TableId() storage.TableId { return 1000 }

func (tx *recTx) OpenTable(ctx context.Context, tn types.TableName) (engine.Table, error) {
	tt, ok := tx.view.tables[tn]
	if tx.eng.yes {
		tt, ok = &engine.TableType{ColumnNames: yesColumns}, tx.eng.has[tn]
		if tx.eng.has == nil {
			ok = tn.Table%2 == 0
		}
	}
	var natural error
	if !ok {
		natural = errNatural
	}
	if err := tx.call("open table", tn, "", natural); err != nil {
		return nil, err
	}
	c := *tt
	return recTable{tn, &c}, nil
}

func keyString(key []types.ColumnKey) string {
	var s []string
	for _, k := range key {
		s = append(s, fmt.Sprintf("%d/%v", k.Column(), k.Reverse()))
	}
	return strings.Join(s, " ")
}

func tableDetail(cols []types.Identifier, cts []types.ColumnType, primary []types.ColumnKey) string {
	return fmt.Sprintf("columns %d types %#v key %s", cols, cts, keyString(primary))
}

func (tx *recTx) CreateTable(ctx context.Context, tn types.TableName, cols []types.Identifier, cts []types.ColumnType,
	primary []types.ColumnKey) error {

	err := tx.call("create table", tn, tableDetail(cols, cts, primary), tx.eng.missing(tx.view.tables[tn] != nil))
	if err == nil {
		tt := &engine.TableType{Version: 1, ColumnNames: slices.Clone(cols), ColumnTypes: slices.Clone(cts),
			Key: slices.Clone(primary)}
		tx.change(func(v *recView) { v.tables[tn] = tt })
	}
	return err
}

func (tx *recTx) DropTable(ctx context.Context, tn types.TableName) error {
	err := tx.call("drop table", tn, "", tx.eng.exists(tx.view.tables[tn] != nil))
	if err == nil {
		tx.change(func(v *recView) { delete(v.tables, tn) })
	}
	return err
}

func (tx *recTx) ListTables(ctx context.Context, sn types.SchemaName) ([]types.Identifier, error) {
	if err := tx.call("list tables", sn, "", nil); err != nil {
		return nil, err
	}
	var ids []types.Identifier
	for tn := range tx.view.tables {
		if tn.SchemaName() == sn {
			ids = append(ids, tn.Table)
		}
	}
	return ids, nil
}

func (tx *recTx) CreateIndex(ctx context.Context, tn types.TableName, in types.Identifier, key []types.ColumnKey) error {
	err := tx.call("create index", tn, fmt.Sprintf("%d key %s", in, keyString(key)), tx.eng.exists(tx.view.tables[tn] != nil))
	if err == nil && tx.view.tables[tn] != nil {
		tx.change(func(v *recView) {
			if tt := v.tables[tn]; tt != nil {
				c := *tt
				c.Indexes = append(slices.Clone(tt.Indexes), engine.IndexType{Name: in, Key: key})
				v.tables[tn] = &c
			}
		})
	}
	return err
}

func (tx *recTx) DropIndex(ctx context.Context, tn types.TableName, in types.Identifier) error {
	tt := tx.view.tables[tn]
	has := tt != nil && slices.ContainsFunc(tt.Indexes, func(it engine.IndexType) bool { return it.Name == in })
	err := tx.call("drop index", tn, fmt.Sprint(int(in)), tx.eng.exists(has))
	if err == nil && has {
		tx.change(func(v *recView) {
			if tt := v.tables[tn]; tt != nil {
				c := *tt
				c.Indexes = slices.DeleteFunc(slices.Clone(tt.Indexes), func(it engine.IndexType) bool { return it.Name == in })
				v.tables[tn] = &c
			}
		})
	}
	return err
}

// ---------------------------------------------------------------- statements

type sesGen struct {
	*Case
	names []types.Identifier
}

func newSesGen(t *Case) *sesGen {
	g := &sesGen{Case: t}
	for _, n := range []string{"a", "b", "c"} {
		g.names = append(g.names, types.ID(n, true))
	}
	if t.IntN(2) == 0 {
		g.names = append(g.names, types.PUBLIC, types.ID("A", true), types.TEXT)
		if t.IntN(2) == 0 {
			for _, n := range []string{"a_", "ab", "b ", "_b", "c_", ""}[t.IntN(5):] {
				g.names = append(g.names, types.ID(n, true))
			}
		}
	}
	return g
}

func (g *sesGen) id() types.Identifier { return g.names[g.IntN(len(g.names))] }

func (g *sesGen) maybe() types.Identifier {
	if g.IntN(3) > 0 {
		return 0
	}
	return g.id()
}

func (g *sesGen) table() types.TableName {
	tn := types.TableName{Table: g.id()}
	if g.IntN(2) == 0 {
		tn.Schema = g.id()
		tn.Database = g.maybe()
	}
	return tn
}

func (g *sesGen) schema() types.SchemaName {
	return types.SchemaName{Database: g.maybe(), Schema: g.id()}
}

func (g *sesGen) indexKey(cols []types.Identifier, bad bool) sql.IndexKey {
	k := sql.IndexKey{Unique: true}
	for _, i := range g.Perm(len(cols))[:1+g.IntN(len(cols))] {
		k.Columns = append(k.Columns, cols[i])
		k.Reverse = append(k.Reverse, g.IntN(2) == 0)
	}
	if bad {
		near := cols[g.IntN(len(cols))].String()
		nowhere := []string{"nowhere", near + "_", near + "x", "_" + near, strings.ToUpper(near) + " ", near[:len(near)-1] + "!"}
		if len(near) > 1 {
			nowhere = append(nowhere, near[:len(near)-1], near[1:])
		}
		nid := types.ID(nowhere[g.IntN(len(nowhere))], true)
		for slices.Contains(cols, nid) {
			nid = types.ID("nowhere", true)
		}
		k.Columns[g.IntN(len(k.Columns))] = nid
	}
	return k
}

var sesColumns = []string{"x", "y", "z", "X", "select", "col5", "x_", "col"}

func (g *sesGen) createTable() *sql.CreateTable {
	s := &sql.CreateTable{Table: g.table(), IfNotExists: g.IntN(3) == 0}
	var names []types.Identifier
	for _, i := range g.Perm(len(sesColumns))[:1+g.IntN(len(sesColumns))] {
		names = append(names, types.ID(sesColumns[i], true))
	}
	if g.IntN(12) == 0 {
		// A wide table.
		names = append(names, yesColumns[3:4+g.IntN(len(yesColumns)-3)]...)
		g.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	}
	for _, name := range names {
		s.Columns = append(s.Columns, name)
		ct := typeSpecs[g.IntN(len(typeSpecs))].ct
		ct.NotNull = g.IntN(2) == 0
		s.ColumnTypes = append(s.ColumnTypes, ct)
		var d sql.Expr
		if g.IntN(3) == 0 {
			d = sql.Literal{Value: types.Int64Value(g.IntN(9))}
		}
		s.ColumnDefaults = append(s.ColumnDefaults, d)
	}
	primary := g.IntN(4) > 0
	for n := g.IntN(3); n > 0; n-- {
		switch g.IntN(4) {
		case 0:
			s.Constraints = append(s.Constraints, sql.Constraint{Type: sql.UniqueConstraint, Name: types.ID(fmt.Sprintf("u%d", n), true),
				ColNum: -1, Key: g.indexKey(s.Columns, false)})
		case 1:
			s.Constraints = append(s.Constraints, sql.Constraint{Type: sql.CheckConstraint, ColNum: -1,
				Check: sql.Literal{Value: types.BoolValue(true)}})
		case 2:
			s.Constraints = append(s.Constraints, sql.Constraint{Type: sql.NotNullConstraint, Name: types.ID(fmt.Sprintf("n%d", n), true),
				ColNum: g.IntN(len(s.Columns))})
		case 3:
			s.ForeignKeys = append(s.ForeignKeys, &sql.ForeignKey{FKCols: s.Columns[:1], RefTable: g.table()})
		}
	}
	if primary {
		at := g.IntN(len(s.Constraints) + 1)
		c := sql.Constraint{Type: sql.PrimaryConstraint, Name: types.ID("p", true), ColNum: -1, Key: g.indexKey(s.Columns, g.IntN(6) == 0)}
		s.Constraints = append(s.Constraints[:at:at], append([]sql.Constraint{c}, s.Constraints[at:]...)...)
	}
	return s
}

func (g *sesGen) createIndex() *sql.CreateIndex {
	var cols []types.Identifier
	for _, c := range sesColumns[:1+g.IntN(3)] {
		cols = append(cols, types.ID(c, true))
	}
	if g.IntN(12) == 0 {
		cols = yesColumns[:3+g.IntN(len(yesColumns)-2)]
	}
	s := &sql.CreateIndex{Index: g.id(), Table: g.table(), Key: g.indexKey(cols, g.IntN(6) == 0), IfNotExists: g.IntN(3) == 0}
	if g.IntN(6) == 0 {
		s.Index = s.Table.Table
	}
	return s
}

// ddl makes a statement that runs in a transaction. It is a function, because evaluating a statement
// changes it.
func (g *sesGen) ddl() sql.Stmt {
	switch g.IntN(10) {
	case 0, 1, 2:
		return g.createTable()
	case 3:
		s := &sql.DropTable{}
		n := 1 + g.IntN(3)
		if g.IntN(12) == 0 {
			n = 4 + g.IntN(60)
		}
		for ; n > 0; n-- {
			s.Tables = append(s.Tables, g.table())
		}
		s.Cascade = g.IntN(4) == 0
		s.IfExists = g.IntN(3) == 0
		return s
	case 4, 5:
		return g.createIndex()
	case 6:
		return &sql.DropIndex{Index: g.id(), Table: g.table(), IfExists: g.IntN(3) == 0}
	case 7, 8:
		return &sql.CreateSchema{Schema: g.schema()}
	}
	return &sql.DropSchema{Schema: g.schema(), IfExists: g.IntN(2) == 0}
}

func (g *sesGen) setStmt() sql.Stmt {
	v := []types.Identifier{types.DATABASE, types.SCHEMA, types.DATABASE, types.SCHEMA, types.ID("other", true), types.ID("database", true),
		types.ID("schema", true), types.TABLE, types.PUBLIC}[g.IntN(9)]
	val := []string{"a", "b", "C", "c", "public", "Public", "text", "a b", "maho", "system", "info", "System",
		"private", "tables"}[g.IntN(14)]
	if g.IntN(40) == 0 {
		val = longMixed(g.Case)
	}
	return &sql.Set{Variable: v, Value: val}
}

func (g *sesGen) stmt() sql.Stmt {
	switch r := g.IntN(100); {
	case r < 14:
		return &sql.Begin{}
	case r < 24:
		return &sql.Commit{}
	case r < 32:
		return &sql.Rollback{}
	case r < 37:
		s := &sql.CreateDatabase{Database: g.id()}
		for n := g.IntN(3); n > 0; n-- {
			if s.Options == nil {
				s.Options = map[types.Identifier]string{}
			}
			s.Options[g.id()] = fmt.Sprint(g.IntN(100))
		}
		return s
	case r < 42:
		return &sql.DropDatabase{Database: g.id(), IfExists: g.IntN(2) == 0}
	case r < 50:
		return g.setStmt()
	}
	return g.ddl()
}

// copyStmt makes a deep copy of a statement.
func copyStmt(s sql.Stmt) sql.Stmt {
	return deepCopy(reflect.ValueOf(s)).Interface().(sql.Stmt)
}

func deepCopy(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return v
		}
		c := reflect.New(v.Type().Elem())
		c.Elem().Set(deepCopy(v.Elem()))
		return c
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		c := reflect.New(v.Type()).Elem()
		c.Set(deepCopy(v.Elem()))
		return c
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		c := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			c.Index(i).Set(deepCopy(v.Index(i)))
		}
		return c
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		c := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			c.SetMapIndex(k, deepCopy(v.MapIndex(k)))
		}
		return c
	case reflect.Struct:
		c := reflect.New(v.Type()).Elem()
		c.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if c.Field(i).CanSet() {
				c.Field(i).Set(deepCopy(v.Field(i)))
			}
		}
		return c
	}
	return v
}

// ---------------------------------------------------------------- the session as it should be

type sesModel struct {
	n      int
	ses    *evaluate.Session
	tx     int // its open transaction
	db, sc types.Identifier
}

func (m *sesModel) table(tn types.TableName) types.TableName {
	if tn.Database == 0 {
		tn.Database = m.db
		if tn.Schema == 0 {
			tn.Schema = m.sc
		}
	}
	return tn
}

func (m *sesModel) schema(sn types.SchemaName) types.SchemaName {
	if sn.Database == 0 {
		sn.Database = m.db
	}
	return sn
}

// settle follows a SET; it tells whether it must work.
func (m *sesModel) settle(s *sql.Set) bool {
	switch s.Variable {
	case types.DATABASE:
		m.db = types.ID(s.Value, false)
	case types.SCHEMA:
		m.sc = types.ID(s.Value, false)
	default:
		return false
	}
	return true
}

func mapKey(k sql.IndexKey, cols []types.Identifier) ([]types.ColumnKey, bool) {
	var key []types.ColumnKey
	for i, c := range k.Columns {
		at := slices.Index(cols, c)
		if at < 0 {
			return nil, false
		}
		key = append(key, types.MakeColumnKey(types.ColumnNum(at), k.Reverse[i]))
	}
	return key, true
}

// ifExists says whether a statement drops tables or an index if they exist.
func ifExists(stmt sql.Stmt) bool {
	switch s := stmt.(type) {
	case *sql.DropTable:
		return s.IfExists
	case *sql.DropIndex:
		return s.IfExists
	}
	return false
}

// planOf gives the changes a statement must ask the engine for, and whether it fails without any.
func (m *sesModel) planOf(stmt sql.Stmt, v *recView) (plan []recCall, fails bool) {
	switch s := stmt.(type) {
	case *sql.CreateDatabase:
		return []recCall{{0, "create database", s.Database, optString(s.Options), nil}}, false
	case *sql.DropDatabase:
		return []recCall{{0, "drop database", s.Database, fmt.Sprint(s.IfExists), nil}}, false
	case *sql.CreateSchema:
		return []recCall{{0, "create schema", m.schema(s.Schema), "", nil}}, false
	case *sql.DropSchema:
		return []recCall{{0, "drop schema", m.schema(s.Schema), fmt.Sprint(s.IfExists), nil}}, false
	case *sql.DropTable:
		for _, tn := range s.Tables {
			plan = append(plan, recCall{0, "drop table", m.table(tn), "", nil})
		}
		return plan, false
	case *sql.DropIndex:
		return []recCall{{0, "drop index", m.table(s.Table), fmt.Sprint(int(s.Index)), nil}}, false
	case *sql.CreateTable:
		tn := m.table(s.Table)
		if v.tables[tn] != nil {
			return nil, !s.IfNotExists
		}
		var key []types.ColumnKey
		for _, c := range s.Constraints {
			if c.Type == sql.PrimaryConstraint {
				var ok bool
				if key, ok = mapKey(c.Key, s.Columns); !ok {
					return nil, true
				}
			}
		}
		return []recCall{{0, "create table", tn, tableDetail(s.Columns, s.ColumnTypes, key), nil}}, false
	case *sql.CreateIndex:
		tn := m.table(s.Table)
		tt := v.tables[tn]
		if tt == nil {
			return nil, true
		}
		if slices.ContainsFunc(tt.Indexes, func(it engine.IndexType) bool { return it.Name == s.Index }) {
			return nil, !s.IfNotExists
		}
		key, ok := mapKey(s.Key, tt.ColumnNames)
		if !ok {
			return nil, true
		}
		return []recCall{{0, "create index", tn, fmt.Sprintf("%d key %s", s.Index, keyString(key)), nil}}, false
	}
	panic(fmt.Sprintf("no plan for %T", stmt))
}

// sesRun is one history on one recording engine.
type sesRun struct {
	*Case
	eng   *recEngine
	ms    []*sesModel
	owner map[int]int // transaction to session
	trans bool        // judge transactions (C19)
	ops   bool        // judge operations (C21)
	late  bool        // the context of the statement was cancelled before it
}

func (t *Case) newSesRun(sessions int) *sesRun {
	r := &sesRun{Case: t, eng: &recEngine{view: newRecView()}, owner: map[int]int{}}
	for i := range sessions {
		m := &sesModel{n: i, db: types.MAHO, sc: types.PUBLIC}
		if i > 0 {
			m.db, m.sc = types.ID("a", true), types.ID(fmt.Sprintf("s%d", i), true)
		}
		m.ses = evaluate.NewSession(r.eng, m.db, m.sc)
		r.ms = append(r.ms, m)
	}
	return r
}

func (r *sesRun) context() string {
	var b strings.Builder
	n := max(0, len(r.eng.calls)-25)
	for _, c := range r.eng.calls[n:] {
		b.WriteString("\n  ")
		b.WriteString(c.String())
	}
	return b.String()
}

// step runs a statement and judges what it did.
func (r *sesRun) step(m *sesModel, stmt sql.Stmt) error {
	mark := len(r.eng.calls)
	view := r.eng.view
	if m.tx != 0 {
		view = r.eng.txs[m.tx-1].view
	}
	view = view.clone()
	run := copyStmt(stmt)
	var err error
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	r.eng.cancel = cancel
	// A statement may come when its caller has already given up; COMMIT and ROLLBACK end the transaction all the same.
	r.late = false
	if r.trans && r.eng.fail != nil && r.IntN(8) == 0 || r.ops && r.IntN(12) == 0 {
		r.late = true
		cancel()
	}
	if pan := Try(func() { err = m.ses.Evaluate(ctx, run) }); pan != nil {
		r.Failf("session %d: %s panics: %v%s", m.n, stmt, pan, r.context())
	}
	calls := r.eng.calls[mark:]
	what := fmt.Sprintf("session %d: %s (error %v)", m.n, dumpAST(stmt), err)
	if r.late {
		what += " with a context already cancelled"
		r.Count("statements with a cancelled context", 1)
	}
	r.Logf("%s: %v", what, calls)
	if r.eng.misuse != "" {
		if r.trans {
			r.Failf("%s: %s%s", what, r.eng.misuse, r.context())
		}
		r.eng.misuse = ""
	}
	r.transactions(m, stmt, what, calls, err)
	if r.ops && (!r.late || err == nil) {
		r.operations(m, stmt, view, what, calls, err)
	}
	if s, ok := stmt.(*sql.Set); ok && (!r.late || err == nil) {
		works := m.settle(s)
		if works != (err == nil) {
			r.Failf("%s: want it to work: %v", what, works)
		}
	}
	r.Count("engine calls observed", len(calls))
	r.Count("statements", 1)
	return err
}

// transactions is the automaton of C19. It follows the session's transaction in any case.
func (r *sesRun) transactions(m *sesModel, stmt sql.Stmt, what string, calls []recCall, err error) {
	fail := func(format string, args ...any) {
		if r.trans {
			r.Failf("%s: %s%s", what, fmt.Sprintf(format, args...), r.context())
		}
	}
	var changes, all []recCall // those of transactions and engine that are not only reads
	for _, c := range calls {
		if c.tx != 0 {
			if o, ok := r.owner[c.tx]; !ok && c.op != "begin" {
				fail("a call on an unknown transaction: %s", c)
			} else if ok && o != m.n {
				fail("a call on a transaction of session %d: %s", o, c)
			} else if !ok {
				r.owner[c.tx] = m.n
			}
		}
		all = append(all, c)
		if !c.read() {
			changes = append(changes, c)
		}
	}
	none := func(why string) {
		if len(changes) > 0 {
			fail("%s, but calls %v", why, changes)
		}
		if err == nil {
			fail("%s, but no error", why)
		}
		r.Seen("transitions", why)
	}
	only := func(want string) recCall {
		if len(changes) != 1 || changes[0].op != want {
			fail("want one call of %s, got %v", want, changes)
			return recCall{}
		}
		c := changes[0]
		if c.err == nil && err != nil {
			fail("the engine has no error")
		} else if c.err != nil && !errors.Is(err, c.err) {
			fail("the engine's error %v is lost", c.err)
		}
		r.Seen("transitions", fmt.Sprintf("%s %v tx %v", want, c.err == nil, m.tx != 0))
		return c
	}
	switch stmt.(type) {
	case *sql.Begin:
		if m.tx != 0 {
			none("begin in a transaction")
			return
		}
		if r.late && err != nil {
			// It may be refused, without a transaction left open.
			if n := len(changes); n > 0 && (changes[0].op != "begin" || n != 2 || changes[1].op != "rollback") {
				fail("refused, but calls %v", changes)
			}
			return
		}
		m.tx = only("begin").tx
		return
	case *sql.Commit, *sql.Rollback:
		op := "commit"
		if _, ok := stmt.(*sql.Rollback); ok {
			op = "rollback"
		}
		if m.tx == 0 {
			none(op + " without a transaction")
			return
		}
		if r.late && err != nil && len(changes) == 1 && changes[0].op == "rollback" {
			op = "rollback"
		}
		if c := only(op); c.tx != m.tx {
			fail("%s of transaction %d instead of %d", op, c.tx, m.tx)
		}
		m.tx = 0
		return
	case *sql.CreateDatabase, *sql.DropDatabase:
		op := "create database"
		if _, ok := stmt.(*sql.DropDatabase); ok {
			op = "drop database"
		}
		if m.tx != 0 {
			none(op + " in a transaction")
			return
		}
		if r.late && err != nil && len(changes) == 0 {
			return
		}
		only(op)
		return
	case *sql.Set:
		if len(changes) > 0 {
			fail("a setting calls the engine: %v", changes)
		}
		return
	}

	if r.late && err != nil && len(all) == 0 {
		return
	}

	// A statement that runs in a transaction: its own, or the one it is in.
	var lost error
	for _, c := range all {
		if c.ends() || c.err == nil {
			continue
		}
		if c.err == errNatural && ifExists(stmt) {
			continue // what IF EXISTS makes of it is not specified
		}
		if c.read() {
			if _, ok := stmt.(*sql.CreateIndex); !ok {
				continue // a lookup that finds nothing
			}
		}
		if lost == nil {
			lost = c.err
		}
	}
	if lost != nil && !errors.Is(err, lost) {
		fail("the engine's error %v is lost", lost)
	}
	if m.tx != 0 {
		for _, c := range all {
			if c.tx != m.tx || c.op == "begin" || c.ends() {
				fail("in transaction %d, but calls %s", m.tx, c)
			}
		}
		r.Seen("transitions", fmt.Sprintf("%T in a transaction %v", stmt, err == nil))
		return
	}
	if len(all) < 2 || all[0].op != "begin" || !all[len(all)-1].ends() {
		fail("not from begin to end: %v", all)
		return
	}
	own := all[0].tx
	for i, c := range all {
		if c.tx != own || (c.op == "begin") != (i == 0) || c.ends() != (i == len(all)-1) {
			fail("call %s does not belong in a transaction of its own", c)
		}
	}
	end := all[len(all)-1]
	r.Seen("transitions", fmt.Sprintf("%T own %s %v, error %v", stmt, end.op, end.err == nil, err != nil))
	switch {
	case err == nil && (end.op != "commit" || end.err != nil):
		fail("it worked, but its transaction ends with %s", end)
	case err != nil && end.op == "commit" && end.err == nil:
		fail("it failed, but its transaction was committed")
	case end.op == "commit" && end.err != nil && !errors.Is(err, end.err):
		fail("the error of the commit is lost")
	}
}

// operations compares what the engine was asked to change with the statement (C21).
func (r *sesRun) operations(m *sesModel, stmt sql.Stmt, view *recView, what string, calls []recCall, err error) {
	fail := func(format string, args ...any) {
		r.Failf("%s: %s%s", what, fmt.Sprintf(format, args...), r.context())
	}
	var got []recCall
	var ended error
	planted := false // a lookup was made to fail
	for _, c := range calls {
		switch {
		case c.op == "begin":
		case c.ends():
			ended = c.err
		case c.read():
			planted = planted || c.err != nil && c.err != errNatural
		default:
			c.tx = 0
			got = append(got, c)
		}
	}
	switch stmt.(type) {
	case *sql.Begin, *sql.Commit, *sql.Rollback, *sql.Set:
		if len(got) > 0 {
			fail("changes something: %v", got)
		}
		return
	case *sql.CreateDatabase, *sql.DropDatabase:
		if m.tx != 0 {
			if len(got) > 0 {
				fail("changes something: %v", got)
			}
			return
		}
	}
	plan, fails := m.planOf(stmt, view)
	if planted {
		if _, ok := stmt.(*sql.CreateTable); ok {
			return // a table that cannot be looked up is taken for missing
		}
		plan, fails = nil, true
	}
	r.Seen("statement outcomes", fmt.Sprintf("%T %d %v %v %v", stmt, len(plan), fails, err == nil, m.tx != 0))
	if ifExists(stmt) && !planted {
		for _, c := range calls {
			if c.err == errNatural {
				return // something that is not there
			}
		}
	}
	if fails {
		if len(got) > 0 {
			fail("must fail and do nothing, but calls %v", got)
		} else if err == nil {
			fail("must fail")
		}
		return
	}
	for i, c := range got {
		if i >= len(plan) {
			fail("one change too many: %s", c)
		}
		p := plan[i]
		if c.op != p.op || c.name != p.name || c.detail != p.detail {
			fail("change %d is\n%s\nbut the statement says\n%s", i, c, p)
		}
		r.Count("operations compared", 1)
		if c.err != nil {
			if i < len(got)-1 {
				fail("goes on after an error: %v", got)
			}
			if !errors.Is(err, c.err) {
				fail("the engine's error %v is lost", c.err)
			}
			return
		}
	}
	if len(got) < len(plan) {
		fail("does not do %s", plan[len(got)])
	}
	if err != nil && !(ended != nil && errors.Is(err, ended)) {
		fail("must work")
	}
}

// finish checks that what is open is what sessions have open, and that they still work.
func (r *sesRun) finish() {
	r.eng.fail = nil
	open := map[int]bool{}
	for _, m := range r.ms {
		if m.tx != 0 {
			open[m.tx] = true
		}
	}
	for _, tx := range r.eng.txs {
		if tx.ended == open[tx.n] && r.trans {
			r.Failf("transaction %d: ended %v, open in a session %v%s", tx.n, tx.ended, open[tx.n], r.context())
		}
	}
	for _, m := range r.ms {
		if m.tx != 0 {
			r.step(m, &sql.Commit{})
		}
		for _, s := range []sql.Stmt{&sql.Commit{}, &sql.Begin{}, &sql.CreateSchema{Schema: types.SchemaName{Schema: types.ID("last", true)}},
			&sql.Begin{}, &sql.Rollback{}, &sql.Rollback{}} {
			r.step(m, s)
		}
	}
}

type sesStep struct {
	ses  int
	stmt sql.Stmt
}

func genHistory(t *Case, sessions, n int) []sesStep {
	g := newSesGen(t)
	var h []sesStep
	for range n {
		h = append(h, sesStep{t.IntN(sessions), g.stmt()})
	}
	return h
}

// play runs a history with failures at some calls, and returns how many calls could have failed.
func (t *Case) play(h []sesStep, sessions int, fail map[int]error, trans, ops bool) *sesRun {
	r := t.newSesRun(sessions)
	r.eng.fail, r.trans, r.ops = fail, trans, ops
	r.eng.yes = t.yes
	for _, s := range h {
		r.step(r.ms[s.ses], s.stmt)
	}
	r.finish()
	return r
}

func historyString(h []sesStep) string {
	var b strings.Builder
	for _, s := range h {
		fmt.Fprintf(&b, "%d %s; ", s.ses, dumpAST(s.stmt))
	}
	return b.String()
}

// ---------------------------------------------------------------- C19

func init() {
	register(&Check{ID: "C19",
		Rule: "random histories of all statements by one to four sessions on one recording engine, first undisturbed, then with each call " +
			"failing in turn, then with each call and the one after it; an automaton over the recorded calls; distinct by history",
		Run: func(c *Ctx) {
			c.Phase("histories", c.N(3000, 60000), func(t *Case) {
				n := 1 + t.IntN(4)
				h := genHistory(t, n, 5+t.IntN(40))
				t.play(h, n, nil, true, false)
				t.yes = true
				t.play(h, n, nil, true, false)
				t.Distinct(historyString(h))
			})
			c.Phase("faults", c.N(400, 8000), sesFaults)
			c.Phase("long", c.N(8, 80), func(t *Case) {
				n := 1 + t.IntN(2)
				h := longHistory(t, n)
				t.play(h, n, nil, true, false)
				t.yes = true
				t.play(h, n, nil, true, false)
				t.Distinct(fmt.Sprint(len(h), t.index))
			})
		}})
}

// longHistory has transactions of thousands of statements.
func longHistory(t *Case, sessions int) []sesStep {
	g := newSesGen(t)
	var h []sesStep
	for range 1 + t.IntN(3) {
		for s := range sessions {
			h = append(h, sesStep{s, &sql.Begin{}})
		}
		for n := 100 + t.IntN(3000); n > 0; {
			stmt := g.stmt()
			switch stmt.(type) {
			case *sql.Commit, *sql.Rollback:
				continue
			}
			h = append(h, sesStep{t.IntN(sessions), stmt})
			n--
		}
		for s := range sessions {
			if t.IntN(3) == 0 {
				h = append(h, sesStep{s, &sql.Rollback{}})
			} else {
				h = append(h, sesStep{s, &sql.Commit{}})
			}
		}
	}
	return h
}

func sesFaults(t *Case) {
	n := 1 + t.IntN(3)
	h := genHistory(t, n, 4+t.IntN(16))
	whole := t.play(h, n, nil, true, false)
	for i := 0; i < whole.eng.tries; i++ {
		one := fmt.Errorf("planted error %d", i)
		t.play(h, n, map[int]error{i: one}, true, false)
		t.play(h, n, map[int]error{i: one, i + 1: fmt.Errorf("planted error %d", i+1)}, true, false)
		t.play(h, n, map[int]error{i: context.Canceled}, true, false)
		t.play(h, n, map[int]error{i: fmt.Errorf("stopped: %w", context.Canceled)}, true, false)
		t.Count("faults planted", 5)
	}
	rate := 1 + t.IntN(5)
	fail := map[int]error{}
	for i := 0; i < 300; i++ {
		if t.IntN(rate) == 0 {
			fail[i] = fmt.Errorf("planted error %d", i)
		}
	}
	t.play(h, n, fail, true, false)
	t.Distinct(historyString(h))
	t.Sample("%d sessions, %d calls that can fail: %s", n, whole.eng.tries, historyString(h))
}

// ---------------------------------------------------------------- C21

func init() {
	register(&Check{ID: "C21",
		Rule: "histories of DDL by sessions in and out of transactions on a recording engine with a catalog, undisturbed and with each " +
			"call failing in turn, the recorded changes compared with the statements; and DDL scripts as text through parser and " +
			"session to the real engine, its catalog compared with a model; distinct by history",
		Run: func(c *Ctx) {
			c.Phase("histories", c.N(3000, 60000), func(t *Case) {
				n := 1 + t.IntN(2)
				h := opsHistory(t, n, 10+t.IntN(40))
				t.play(h, n, nil, false, true)
				t.Distinct(historyString(h))
			})
			c.Phase("faults", c.N(300, 6000), func(t *Case) {
				n := 1 + t.IntN(2)
				h := opsHistory(t, n, 5+t.IntN(15))
				whole := t.play(h, n, nil, false, true)
				for i := 0; i < whole.eng.tries; i++ {
					t.play(h, n, map[int]error{i: fmt.Errorf("planted error %d", i)}, false, true)
					t.Count("faults planted", 1)
				}
				t.Distinct(historyString(h))
			})
			c.Phase("engine", c.N(1500, 30000), sesEngine)
		}})
}

// opsHistory is a history with fewer transactions that end and more tables that meet.
func opsHistory(t *Case, sessions, n int) []sesStep {
	g := newSesGen(t)
	g.names = g.names[:2+t.IntN(2)]
	var h []sesStep
	for range n {
		s := g.stmt()
		if t.IntN(2) == 0 {
			s = g.ddl()
		}
		if d, ok := s.(*sql.DropTable); ok && len(d.Tables) > 1 && t.IntN(2) == 0 {
			d.Tables = d.Tables[:1]
		}
		h = append(h, sesStep{t.IntN(sessions), s})
	}
	return h
}

// sesEngine: DDL as text, through the parser and a session to the real engine.
func sesEngine(t *Case) {
	_, eng := newEngine(t)
	ses := evaluate.NewSession(eng, types.MAHO, types.PUBLIC)
	g := newSesGen(t)
	g.names = g.names[:2]
	m := &sesModel{ses: ses, db: types.MAHO, sc: types.PUBLIC}
	tx := eng.Begin()
	tx.Rollback()
	cat := newRecView()
	used := map[types.SchemaName]bool{{Database: types.SYSTEM, Schema: types.INFO}: true}
	dbUsed := map[types.Identifier]bool{}
	dbs, err := eng.ListDatabases()
	if err != nil {
		t.Failf("list databases: %v", err)
	}
	for _, d := range dbs {
		cat.dbs[d] = true
	}
	// Schemas are those of databases made here, and those which are there from the start.
	cat.schemas[types.SchemaName{Database: types.MAHO, Schema: types.PUBLIC}] = true
	cat.schemas[types.SchemaName{Database: types.SYSTEM, Schema: types.INFO}] = true
	dbUsed[types.MAHO], dbUsed[types.SYSTEM] = true, true
	cur := cat // what the session sees
	inTx := false
	run := func(s sql.Stmt) error {
		text := s.String()
		if ct, ok := s.(*sql.CreateTable); ok {
			text = t.spellTable(ct)
		}
		t.Logf("%s", text)
		parsed, err := parser.NewParser(strings.NewReader(text), "src").Parse()
		if err != nil {
			t.Failf("%q does not parse: %v", text, err)
		}
		return ses.Evaluate(bg, parsed)
	}
	expect := func(s sql.Stmt, want bool) bool {
		err := run(s)
		if (err == nil) != want {
			t.Failf("%s: want it to work: %v; error: %v", dumpAST(s), want, err)
		}
		t.Count("statements on the engine", 1)
		return want
	}
	for n := 5 + t.IntN(30); n > 0; n-- {
		switch t.IntN(12) {
		case 0:
			if expect(&sql.Begin{}, !inTx) {
				inTx, cur = true, cat.clone()
			}
		case 1:
			if expect(&sql.Commit{}, inTx) {
				inTx, cat = false, cur
			}
		case 2:
			if expect(&sql.Rollback{}, inTx) {
				inTx, cur = false, cat
			}
		case 3:
			d := g.id()
			if expect(&sql.CreateDatabase{Database: d}, !inTx && !cat.dbs[d]) {
				cat.dbs[d] = true
			}
		case 4:
			d := g.id()
			s := &sql.DropDatabase{Database: d, IfExists: t.IntN(2) == 0}
			if dbUsed[d] {
				continue // what becomes of the things in it is not specified
			}
			if expect(s, !inTx && (cat.dbs[d] || s.IfExists)) {
				delete(cat.dbs, d)
			}
		case 5, 6:
			s := &sql.CreateSchema{Schema: g.schema()}
			sn := m.schema(s.Schema)
			if expect(s, cur.dbs[sn.Database] && !cur.schemas[sn]) {
				cur.schemas[sn] = true
				dbUsed[sn.Database] = true
			}
		case 7:
			s := &sql.DropSchema{Schema: g.schema(), IfExists: t.IntN(2) == 0}
			sn := m.schema(s.Schema)
			if used[sn] {
				continue
			}
			if expect(s, cur.schemas[sn] || s.IfExists) {
				delete(cur.schemas, sn)
			}
		case 8, 9, 10:
			s := g.createTable()
			s.ForeignKeys, s.IfNotExists = nil, t.IntN(3) == 0
			tn := m.table(s.Table)
			plan, fails := m.planOf(s, cur)
			want := !fails
			if want && len(plan) > 0 && !cur.schemas[tn.SchemaName()] {
				want = false
			}
			if expect(s, want) && len(plan) > 0 {
				var key []types.ColumnKey
				for _, c := range s.Constraints {
					if c.Type == sql.PrimaryConstraint {
						key, _ = mapKey(c.Key, s.Columns)
					}
				}
				cur.tables[tn] = &engine.TableType{Version: 1, ColumnNames: s.Columns, ColumnTypes: s.ColumnTypes, Key: key}
				used[tn.SchemaName()] = true
			}
		case 11:
			s := g.setStmt().(*sql.Set)
			s.Variable = []types.Identifier{types.DATABASE, types.SCHEMA, types.ID("other", true)}[t.IntN(3)]
			expect(s, m.settle(s))
		}
	}
	if inTx {
		expect(&sql.Commit{}, true)
		cat = cur
	}
	// What the engine has.
	dbs, err = eng.ListDatabases()
	if err != nil || len(dbs) != len(cat.dbs) {
		t.Failf("the engine lists databases %v (%v), want %v", dbs, err, cat.dbs)
	}
	etx := eng.Begin()
	defer etx.Rollback()
	for _, d := range dbs {
		if !cat.dbs[d] {
			t.Failf("there is a database %s", d)
		}
		sns, err := etx.ListSchemas(bg, d)
		if err != nil {
			t.Failf("list schemas of %s: %v", d, err)
		}
		n := 0
		for sn := range cat.schemas {
			if sn.Database == d {
				n++
			}
		}
		for _, s := range sns {
			if !cat.schemas[types.SchemaName{Database: d, Schema: s}] {
				t.Failf("there is a schema %s.%s", d, s)
			}
		}
		if len(sns) != n {
			t.Failf("the engine lists schemas %v of %s, want %d", sns, d, n)
		}
	}
	for _, d := range append(slices.Clone(g.names), types.MAHO, types.SYSTEM) {
		for _, s := range append(slices.Clone(g.names), types.PUBLIC, types.INFO) {
			for _, n := range g.names {
				tn := types.TableName{Database: d, Schema: s, Table: n}
				tbl, err := etx.OpenTable(bg, tn)
				want := cat.tables[tn]
				if (err == nil) != (want != nil) {
					t.Failf("table %s: want it there: %v; error: %v", tn, want != nil, err)
				}
				if want == nil {
					continue
				}
				got := tbl.Type()
				if g, w := tableDetail(got.ColumnNames, got.ColumnTypes, got.Key),
					tableDetail(want.ColumnNames, want.ColumnTypes, want.Key); g != w {
					t.Failf("table %s has\n%s\nwant\n%s", tn, g, w)
				}
				t.Count("tables compared", 1)
			}
		}
	}
	t.Distinct(strings.Join(t.trace, ";"))
}

func quoteID(id types.Identifier) string { return `"` + id.String() + `"` }

// spell writes a name so that it reads back as itself.
func spellID(id types.Identifier) string {
	if types.ID(id.String(), true) == id {
		return quoteID(id)
	}
	return id.String()
}

// spellTable writes a table definition; printing one loses sizes.
func (t *Case) spellTable(s *sql.CreateTable) string {
	var b strings.Builder
	b.WriteString("CREATE TABLE ")
	if s.IfNotExists {
		b.WriteString("IF NOT EXISTS ")
	}
	if s.Table.Database != 0 {
		b.WriteString(spellID(s.Table.Database) + ".")
	}
	if s.Table.Schema != 0 {
		b.WriteString(spellID(s.Table.Schema) + ".")
	}
	b.WriteString(spellID(s.Table.Table) + " (")
	for i, c := range s.Columns {
		if i > 0 {
			b.WriteString(", ")
		}
		ct := s.ColumnTypes[i]
		b.WriteString(spellID(c) + " ")
		nn := ct.NotNull
		ct.NotNull = false
		for _, ts := range typeSpecs {
			if ts.ct == ct {
				b.WriteString(ts.name)
				break
			}
		}
		if nn {
			b.WriteString(" NOT NULL")
		}
		if s.ColumnDefaults[i] != nil {
			b.WriteString(" DEFAULT " + s.ColumnDefaults[i].String())
		}
	}
	for _, c := range s.Constraints {
		if c.Type != sql.PrimaryConstraint {
			continue
		}
		b.WriteString(", PRIMARY KEY (")
		for i, n := range c.Key.Columns {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(spellID(n))
			if c.Key.Reverse[i] {
				b.WriteString(" DESC")
			}
		}
		b.WriteString(")")
	}
	return b.String() + ")"
}

// ---------------------------------------------------------------- C20

func init() {
	register(&Check{ID: "C20",
		Rule: "histories of several sessions: settings as text and as statements, in and out of transactions, and between them " +
			"statements of every kind with names given in part; the names that reach the recording engine, and those in the resolved " +
			"statement, compared with a model; distinct by history",
		Run: func(c *Ctx) {
			c.Phase("histories", c.N(4000, 60000), resolveHistory)
			c.Phase("statements", c.N(6000, 100000), resolveStatements)
		}})
}

// resolveHistory: the names that reach the engine.
func resolveHistory(t *Case) {
	r := t.newSesRun(1 + t.IntN(4))
	r.eng.yes = true
	g := newSesGen(t)
	for range 4 {
		g.names = append(g.names, genIdentifier(t))
	}
	if t.IntN(2) == 0 {
		for range 3 {
			g.names = append(g.names, []types.Identifier{types.MAHO, types.SYSTEM, types.PUBLIC, types.PRIVATE, types.INFO,
				types.TABLES, types.DATABASES, types.SCHEMAS, types.ROWID}[t.IntN(9)])
		}
	}
	g.names = slices.DeleteFunc(g.names, func(id types.Identifier) bool { return id == 0 })
	for n := 10 + t.IntN(40); n > 0; n-- {
		m := r.ms[t.IntN(len(r.ms))]
		mark := len(r.eng.calls)
		var stmt sql.Stmt
		var want []any
		switch t.IntN(12) {
		case 0:
			stmt = &sql.Begin{}
		case 1:
			stmt = &sql.Commit{}
		case 2:
			stmt = &sql.Rollback{}
		case 3:
			stmt = g.setStmt()
		case 4:
			stmt = t.setText(g)
		case 5:
			s := g.createTable()
			stmt = s
			r.eng.has = map[types.TableName]bool{}
			s.Constraints = nil
			want = []any{m.table(s.Table)}
		case 6:
			s := g.createIndex()
			stmt = s
			s.Key = g.indexKey(yesColumns, false)
			// Only that table is there.
			r.eng.has = map[types.TableName]bool{m.table(s.Table): true}
			want = []any{m.table(s.Table)}
		case 7, 8:
			s := &sql.DropTable{}
			k := 1 + t.IntN(4)
			if t.IntN(12) == 0 {
				k = 5 + t.IntN(60)
			}
			for ; k > 0; k-- {
				s.Tables = append(s.Tables, g.table())
				want = append(want, m.table(s.Tables[len(s.Tables)-1]))
			}
			s.IfExists = t.IntN(3) == 0
			r.eng.has = map[types.TableName]bool{}
			for _, tn := range want {
				r.eng.has[tn.(types.TableName)] = true
			}
			stmt = s
		case 9:
			s := &sql.DropIndex{Index: g.id(), Table: g.table()}
			stmt, want = s, []any{m.table(s.Table)}
		case 10:
			s := &sql.CreateSchema{Schema: g.schema()}
			stmt, want = s, []any{m.schema(s.Schema)}
		case 11:
			s := &sql.DropSchema{Schema: g.schema(), IfExists: t.IntN(2) == 0}
			stmt, want = s, []any{m.schema(s.Schema)}
		}
		db, sc := m.db, m.sc
		err := r.step(m, stmt)
		var got []any
		for _, c := range r.eng.calls[mark:] {
			switch {
			case c.op == "begin" || c.ends():
			case c.read():
				if tn, ok := c.name.(types.TableName); ok && !slices.Contains(want, any(tn)) {
					r.Failf("%s, in %s.%s, looks up %s", dumpAST(stmt), db, sc, tn)
				}
			default:
				got = append(got, c.name)
			}
		}
		if len(want) > 0 && err != nil {
			r.Failf("%s, in %s.%s: %v%s", dumpAST(stmt), db, sc, err, r.context())
		}
		if !slices.Equal(got, want) {
			r.Failf("%s, in %s.%s, acts on %v, want %v", dumpAST(stmt), db, sc, got, want)
		}
		t.Count("names compared", len(want))
		for _, m := range r.ms {
			m.compare(t, g)
		}
	}
	r.finish()
	t.Distinct(strings.Join(t.trace, ";"))
}

// compare asks a session for names as statements do.
func (m *sesModel) compare(t *Case, g *sesGen) {
	for _, tn := range []types.TableName{{Table: g.id()}, {Schema: g.id(), Table: g.id()}, {Database: g.id(), Schema: g.id(), Table: g.id()}} {
		if got, want := m.ses.ResolveTable(tn), m.table(tn); got != want {
			t.Failf("session %d completes %s to %s, want %s", m.n, tn, got, want)
		}
	}
	for _, sn := range []types.SchemaName{{Schema: g.id()}, {Database: g.id(), Schema: g.id()}} {
		if got, want := m.ses.ResolveSchema(sn), m.schema(sn); got != want {
			t.Failf("session %d completes %s to %s, want %s", m.n, sn, got, want)
		}
	}
	t.Count("names compared", 5)
}

// setText makes a setting from text.
func (t *Case) setText(g *sesGen) sql.Stmt {
	val := []string{"a", "b", "Mixed", "public", "PUBLIC", "has space", "info", "x9", "select", "Table", "CREATE", "set",
		"sys", "system", "default"}[t.IntN(15)]
	if t.IntN(40) == 0 {
		val = longMixed(t)
	}
	want := &sql.Set{Variable: []types.Identifier{types.DATABASE, types.SCHEMA}[t.IntN(2)], Value: val}
	text := fmt.Sprintf("SET %s %s '%s'", want.Variable, []string{"=", "TO"}[t.IntN(2)], val)
	if want.Variable == types.DATABASE && t.IntN(2) == 0 {
		text = "USE '" + val + "'"
	}
	t.Logf("%s", text)
	compareAST(t, text, t.parseOne(asciiCase2(t, text)), want)
	return want
}

// longMixed makes a long name of letters of both cases.
func longMixed(t *Case) string {
	b := make([]rune, 1+t.IntN(1<<(3+t.IntN(8))))
	for i := range b {
		b[i] = []rune("abzABZ_9 éÉ名")[t.IntN(12)]
	}
	return string(b)
}

// asciiCase2 changes the case of the words before the value.
func asciiCase2(t *Case, s string) string {
	i := strings.Index(s, "'")
	return asciiCase(t, s[:i]) + s[i:]
}

// resolveStatements: every kind of statement, parsed, and resolved by a session.
func resolveStatements(t *Case) {
	r := t.newSesRun(1)
	m := r.ms[0]
	sg := newSesGen(t)
	for n := t.IntN(4); n > 0; n-- {
		r.step(m, sg.setStmt())
	}
	g := newSQLGen(t)
	g.simple = t.IntN(3) == 0
	var stmt sql.Stmt
	for {
		g.toks = nil
		stmt = g.stmt(stmtKinds[t.IntN(len(stmtKinds))])
		if _, ok := stmt.(*sql.Copy); !ok || t.IntN(2) == 0 {
			break
		}
	}
	want := copyStmt(stmt)
	v := reflect.ValueOf(want).Elem()
	names := 0
	for i := 0; i < v.NumField(); i++ {
		switch n := v.Field(i).Interface().(type) {
		case types.TableName:
			v.Field(i).Set(reflect.ValueOf(m.table(n)))
			names++
		case types.SchemaName:
			v.Field(i).Set(reflect.ValueOf(m.schema(n)))
			names++
		case []types.TableName:
			for j := range n {
				n[j] = m.table(n[j])
				names++
			}
		}
	}
	before := dumpAST(stmt)
	stmt.Resolve(m.ses)
	// What is below the statement may be completed or not, so that only the fields are compared.
	got := reflect.ValueOf(stmt).Elem()
	for i := 0; i < v.NumField(); i++ {
		switch f := v.Field(i).Interface().(type) {
		case types.TableName, types.SchemaName, []types.TableName, types.Identifier, []types.Identifier, bool, sql.IndexKey,
			[]types.ColumnType, map[types.Identifier]string, rune, int:
			if !reflect.DeepEqual(f, got.Field(i).Interface()) {
				t.Failf("%s, in %s.%s: %s becomes %v, want %v", before, m.db, m.sc, v.Type().Field(i).Name, got.Field(i).Interface(), f)
			}
		}
	}
	t.Count("names compared", names)
	if names > 0 {
		t.Seen("kinds with names", fmt.Sprintf("%T", stmt))
		t.Distinct(before)
	}
	if i := strings.Index(before, "{"); i > 0 {
		t.Sample("%s in %s.%s", before, m.db, m.sc)
	}
}
