package main

// C15 to C17: the engine's catalog.

import (
	"context"
	"errors"
	"fmt"
	"math/rand/v2"
	"slices"
	"sort"
	"strings"
	"sync"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/storage/basic"
	"github.com/leftmike/maho/types"
)

func init() {
	register(&Check{ID: "C15",
		Rule: "random table definitions (keyword names, all types and sizes, keys and index keys in all directions, from " +
			"one column to far too large) created and opened again in the same and later transactions and engines, and " +
			"encoded and decoded; distinct by definition",
		Run: func(c *Ctx) {
			c.Phase("create-open", c.N(1500, 30000), defCreateOpen)
			c.Phase("encode", c.N(4000, 80000), defEncode)
			c.Phase("large", c.N(320, 4000), defLarge)
		}})
	register(&Check{ID: "C16",
		Rule: "random histories of database, schema and table operations over commits, rollbacks and re-created engines, " +
			"in lock step with a model of the catalog; distinct by the catalog they end in",
		Run: func(c *Ctx) {
			c.Phase("histories", c.N(2500, 40000), func(t *Case) { catalogHistory(t, false) })
			c.Phase("close-names", c.N(2500, 30000), func(t *Case) { catalogHistory(t, true) })
			c.Phase("many", c.N(64, 800), catalogMany)
			c.Phase("lists", c.N(48, 800), catalogLists)
			c.Phase("long", c.N(8, 80), catalogLong)
			c.Phase("fresh", c.N(8, 8), catalogFresh)
		}})
	register(&Check{ID: "C17",
		Rule: "histories of table creations with failures, rollbacks and re-created engines, serial and concurrent; the " +
			"worker is built with the race detector; distinct by the assignment of ids",
		Run: func(c *Ctx) {
			c.Phase("serial", c.N(600, 10000), tidSerial)
			c.Phase("many", c.N(8, 64), tidMany)
			c.Phase("concurrent", c.N(200, 4000), tidConcurrent)
		}})
}

func newEngine(t *Case) (storage.Store, engine.Engine) {
	st, err := basic.NewStore("")
	if err != nil {
		t.Failf("NewStore: %s", err)
	}
	if err := engine.Init(st); err != nil {
		t.Failf("Init: %s", err)
	}
	st = t.storeOf(st)
	return st, t.engineOf(st)
}

func plainID(s string) types.Identifier { return types.ID(s, true) }

type engDef struct {
	names []types.Identifier
	cts   []types.ColumnType
	key   []types.ColumnKey
}

func genEngDef(t *Case, n int) engDef {
	var d engDef
	for len(d.names) < n {
		id := genIdentifier(t)
		if n > 20 || slices.Contains(d.names, id) || id == 0 {
			id = types.ID(fmt.Sprintf("col%d", len(d.names)), true)
		}
		d.names = append(d.names, id)
		d.cts = append(d.cts, genWideColType(t))
	}
	if t.IntN(5) > 0 {
		limit := 5
		if t.IntN(3) == 0 {
			limit = n
		}
		for _, c := range t.Perm(n)[:1+t.IntN(n)] {
			d.key = append(d.key, types.MakeColumnKey(types.ColumnNum(c), t.IntN(2) == 0))
			if len(d.key) == limit {
				break
			}
		}
	}
	return d
}

// genWideColType makes column types of all sizes, also those no statement asks for.
func genWideColType(t *Case) types.ColumnType {
	ct := genColType(t)
	switch ct.Type {
	case types.StringType, types.BytesType:
		switch t.IntN(6) {
		case 0:
			ct.Size = max(t.Uint32()%types.MaxColumnSize>>t.IntN(32), 1)
		case 1:
			ct.Size = 2<<t.IntN(20) - uint32(t.IntN(2))
		}
	case types.BoolType:
		ct.Size = uint32(t.IntN(2))
	}
	return ct
}

func (d engDef) copy() engDef {
	return engDef{slices.Clone(d.names), slices.Clone(d.cts), slices.Clone(d.key)}
}

func (d engDef) String() string {
	s := fmt.Sprintf("columns %d %v types %v key %v", d.names, d.names, d.cts, d.key)
	return s
}

func (d engDef) same(tt *engine.TableType) string {
	switch {
	case tt == nil:
		return "no type"
	case !slices.Equal(tt.ColumnNames, d.names):
		return fmt.Sprintf("columns %d %v", tt.ColumnNames, tt.ColumnNames)
	case !slices.Equal(tt.ColumnTypes, d.cts):
		return fmt.Sprintf("types %#v", tt.ColumnTypes)
	case !slices.Equal(tt.Key, d.key):
		return fmt.Sprintf("key %v", tt.Key)
	case len(tt.Indexes) != 0 || len(tt.ColumnDefaults) != 0:
		return fmt.Sprintf("indexes %v defaults %v", tt.Indexes, tt.ColumnDefaults)
	}
	return ""
}

func checkDef(t *Case, tx engine.Transaction, tn types.TableName, d engDef, when string) storage.TableId {
	tbl, err := tx.OpenTable(bg, tn)
	if err != nil {
		t.Failf("open table %s, %s: %s", tn, when, err)
	}
	if diff := d.same(tbl.Type()); diff != "" {
		t.Failf("table %s, %s, was created with %s and has %s", tn, when, d, diff)
	}
	if tbl.Name() != tn {
		t.Failf("table %s, %s, says its name is %s", tn, when, tbl.Name())
	}
	t.Count("definitions read back", 1)
	return tbl.TableId()
}

func defCreateOpen(t *Case) {
	st, eng := newEngine(t)
	defs := map[types.TableName]engDef{}
	var order []types.TableName
	for i := 0; i < 1+t.IntN(4); i++ {
		tn := types.TableName{Database: types.MAHO, Schema: types.PUBLIC, Table: plainID(fmt.Sprintf("t%d", i))}
		if t.IntN(3) == 0 {
			tn.Table = types.ID(genName(t, 1+t.IntN(20)), true)
		}
		if _, ok := defs[tn]; ok {
			continue
		}
		n := 1 + t.IntN(12)
		if t.IntN(8) == 0 {
			n = 1 + t.IntN(60)
		}
		d := genEngDef(t, n)
		tx := eng.Begin()
		arg := d.copy()
		if err := tx.CreateTable(bg, tn, arg.names, arg.cts, arg.key); err != nil {
			t.Failf("create table %s %s: %s", tn, d, err)
		}
		checkDef(t, tx, tn, d, "in the transaction which created it")
		for _, o := range order {
			checkDef(t, tx, o, defs[o], "next to the creation of another")
		}
		if t.IntN(4) == 0 {
			if err := tx.Rollback(); err != nil {
				t.Failf("rollback: %s", err)
			}
			continue
		}
		if err := tx.Commit(bg); err != nil {
			t.Failf("commit: %s", err)
		}
		// What the caller does with its slices afterwards is its own business.
		for j := range arg.names {
			arg.names[j] = types.SELECT
			arg.cts[j] = types.ColumnType{}
		}
		defs[tn] = d
		order = append(order, tn)
		t.Distinct(d.String())
		t.Sample("%s %s", tn, d)
	}
	for i := 0; i < 2; i++ {
		tx := eng.Begin()
		for _, tn := range order {
			checkDef(t, tx, tn, defs[tn], "in a later transaction")
		}
		if err := tx.Commit(bg); err != nil {
			t.Failf("commit: %s", err)
		}
		eng = t.engineOf(st)
	}
}

func defEncode(t *Case) {
	d := genEngDef(t, 1+t.IntN(30))
	tt := &engine.TableType{Version: t.Uint32() >> t.IntN(32), ColumnNames: d.names, ColumnTypes: d.cts, Key: d.key}
	for n := t.IntN(4); n > 0; n-- {
		k := genEngDef(t, len(d.names)).key
		tt.Indexes = append(tt.Indexes, engine.IndexType{Name: genIdentifier(t), Key: k})
	}
	buf, err := tt.Encode()
	if err != nil {
		t.Failf("encode %+v: %s", tt, err)
	}
	back, err := engine.DecodeTableType(append([]byte(nil), buf...))
	if err != nil {
		t.Failf("decode of %+v: %s", tt, err)
	}
	idx := back.Indexes
	back.Indexes = nil
	if diff := d.same(back); diff != "" {
		t.Failf("%s is encoded and decoded to %s", d, diff)
	}
	if back.Version != tt.Version {
		t.Failf("version %d is encoded and decoded to %d", tt.Version, back.Version)
	}
	if len(idx) != len(tt.Indexes) {
		t.Failf("indexes %v are encoded and decoded to %v", tt.Indexes, idx)
	}
	for i, it := range tt.Indexes {
		if idx[i].Name != it.Name || !slices.Equal(idx[i].Key, it.Key) {
			t.Failf("index %d %s %v is encoded and decoded to %d %s %v", it.Name, it.Name, it.Key, idx[i].Name,
				idx[i].Name, idx[i].Key)
		}
	}
	t.Distinct(fmt.Sprintf("%s %v", d, tt.Indexes))
	t.Count("definitions encoded and decoded", 1)
	// Cut off, it is an error and not a panic.
	cut := t.IntN(len(buf))
	if p := Try(func() { _, err = engine.DecodeTableType(buf[:cut]) }); p != nil {
		t.Failf("decode of the first %d bytes of a definition: panic: %v", cut, p)
	} else if err == nil {
		t.Failf("decode of the first %d of %d bytes of a definition succeeds", cut, len(buf))
	}
}

// defLarge: a definition is either stored whole or refused with an error.
func defLarge(t *Case) {
	_, eng := newEngine(t)
	n := 200 + t.IntN(1500)
	var d engDef
	for i := 0; i < n; i++ {
		d.names = append(d.names, types.ID(fmt.Sprintf("%s%d", strings.Repeat("n", t.IntN(30)), i), true))
		d.cts = append(d.cts, genColType(t))
	}
	d.key = []types.ColumnKey{types.MakeColumnKey(types.ColumnNum(t.IntN(n)), t.IntN(2) == 0)}
	tn := types.TableName{Database: types.MAHO, Schema: types.PUBLIC, Table: plainID("large")}
	tx := eng.Begin()
	var err error
	arg := d.copy()
	if p := Try(func() { err = tx.CreateTable(bg, tn, arg.names, arg.cts, arg.key) }); p != nil {
		t.Failf("create table with %d columns: panic: %v", n, p)
	}
	ok := err == nil
	// The transaction is still usable.
	small := genEngDef(t, 2)
	stn := tn
	stn.Table = plainID("small")
	if err := tx.CreateTable(bg, stn, small.names, small.cts, small.key); err != nil {
		t.Failf("create table after one with %d columns: %s", n, err)
	}
	for i := 0; i < 2; i++ {
		checkDef(t, tx, stn, small, "next to a large one")
		if ok {
			checkDef(t, tx, tn, d, fmt.Sprintf("with %d columns", n))
		} else if _, err := tx.OpenTable(bg, tn); err == nil {
			t.Failf("the table with %d columns, which was refused, opens", n)
		}
		if err := tx.Commit(bg); err != nil {
			t.Failf("commit: %s", err)
		}
		tx = eng.Begin()
	}
	if err := tx.Rollback(); err != nil {
		t.Failf("rollback: %s", err)
	}
	if ok {
		t.Count("large definitions stored", 1)
	} else {
		t.Count("large definitions refused", 1)
	}
	t.Distinct(fmt.Sprint(n, ok))
}

// ---------------------------------------------------------------- catalog

type catTable struct {
	def engDef
	tid storage.TableId
}

type catalog struct {
	dbs     map[string]bool
	schemas map[string]map[string]bool   // also of dropped databases
	tables  map[types.TableName]catTable // also of dropped schemas
	gone    map[string]bool              // databases dropped with schemas in them: not looked at again
	goneS   map[types.SchemaName]bool    // schemas dropped with tables in them
}

func newCatalog() *catalog {
	return &catalog{
		dbs:     map[string]bool{"system": true, "maho": true},
		schemas: map[string]map[string]bool{"system": {"info": true}, "maho": {"public": true}},
		tables:  map[types.TableName]catTable{},
		gone:    map[string]bool{},
		goneS:   map[types.SchemaName]bool{},
	}
}

func (c *catalog) clone() *catalog {
	n := newCatalog()
	n.dbs = map[string]bool{}
	n.schemas = map[string]map[string]bool{}
	for k := range c.dbs {
		n.dbs[k] = true
	}
	for d, m := range c.schemas {
		n.schemas[d] = map[string]bool{}
		for s := range m {
			n.schemas[d][s] = true
		}
	}
	for k, v := range c.tables {
		n.tables[k] = v
	}
	for k := range c.gone {
		n.gone[k] = true
	}
	for k := range c.goneS {
		n.goneS[k] = true
	}
	return n
}

func sortedKeys(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func idNames(ids []types.Identifier) []string {
	var ss []string
	for _, id := range ids {
		ss = append(ss, id.String())
	}
	return ss
}

func (c *catalog) String() string {
	var sb strings.Builder
	for _, d := range sortedKeys(c.dbs) {
		fmt.Fprintf(&sb, "%q %q; ", d, sortedKeys(c.schemas[d]))
	}
	var ts []string
	for tn, ct := range c.tables {
		ts = append(ts, fmt.Sprintf("%q %d", tn.String(), ct.tid))
	}
	sort.Strings(ts)
	return sb.String() + strings.Join(ts, " ")
}

type catSim struct {
	*Case
	st        storage.Store
	eng       engine.Engine
	committed *catalog
	names     []string
	sep       string // when not empty, what the names are put together with
	few       int    // when not 0, the number of databases that most operations are in
	tx        engine.Transaction
	m         *catalog
}

// late makes a context, sometimes a cancelled one; gaveUp tells whether an operation failed because of that.
func (s *catSim) late() context.Context {
	if s.IntN(30) == 0 {
		ctx, cancel := context.WithCancel(bg)
		cancel()
		return ctx
	}
	return bg
}

func (s *catSim) gaveUp(ctx context.Context, err error) bool {
	if ctx.Err() == nil {
		return false
	}
	if errors.Is(err, context.Canceled) {
		s.Count("operations given up because of their context", 1)
		return true
	}
	s.Count("operations carried through despite a cancelled context", 1)
	return false
}

func (s *catSim) name() string { return s.names[s.IntN(len(s.names))] }

// db picks a database name, mostly of one that exists.
func (s *catSim) db() string {
	c := s.committed
	if s.IntN(5) > 0 {
		dbs := sortedKeys(c.dbs)
		if s.few > 0 {
			dbs = slices.DeleteFunc(dbs, func(d string) bool { return d == "system" })
			dbs = dbs[len(dbs)-min(s.few, len(dbs)):]
		}
		if len(dbs) == 0 {
			return s.name()
		}
		if d := dbs[s.IntN(len(dbs))]; d != "system" || s.IntN(5) == 0 {
			return d
		}
	}
	return s.name()
}

func (s *catSim) listDatabases() {
	got, err := s.eng.ListDatabases()
	if err != nil {
		s.Failf("list databases: %s", err)
	}
	want := sortedKeys(s.committed.dbs)
	if !slices.Equal(idNames(got), want) {
		s.Failf("databases are %q, want %q", idNames(got), want)
	}
	for i, d := range want {
		if got[i] != plainID(d) {
			s.Failf("database %q is listed as identifier %d, not %d", d, got[i], plainID(d))
		}
	}
	s.Count("listings compared", 1)
}

func (s *catSim) listSchemas(d string) {
	if s.m.gone[d] {
		return
	}
	ctx := s.late()
	got, err := s.tx.ListSchemas(ctx, plainID(d))
	if s.gaveUp(ctx, err) {
		return
	}
	if !s.m.dbs[d] {
		if err == nil {
			s.Failf("schemas of %q, which does not exist: %q, no error", d, idNames(got))
		}
		s.Count("operations refused", 1)
		return
	}
	if err != nil {
		s.Failf("list schemas of %q: %s", d, err)
	}
	want := sortedKeys(s.m.schemas[d])
	if !slices.Equal(idNames(got), want) {
		s.Failf("schemas of %q are %q, want %q", d, idNames(got), want)
	}
	for i, n := range want {
		if got[i] != plainID(n) {
			s.Failf("schema %q is listed as identifier %d, not %d", n, got[i], plainID(n))
		}
	}
	s.Count("listings compared", 1)
}

func (s *catSim) openTable(tn types.TableName) {
	if s.m.goneS[tn.SchemaName()] || s.m.gone[tn.Database.String()] {
		return
	}
	ct, want := s.m.tables[tn]
	ctx := s.late()
	tbl, err := s.tx.OpenTable(ctx, tn)
	if s.gaveUp(ctx, err) {
		return
	}
	if !want {
		if err == nil && tn.Database != types.SYSTEM {
			s.Failf("table %s, which does not exist, opens", tn)
		}
		s.Count("operations refused", 1)
		return
	}
	if err != nil {
		s.Failf("open table %s: %s", tn, err)
	}
	if diff := ct.def.same(tbl.Type()); diff != "" {
		s.Failf("table %s was created with %s and has %s", tn, ct.def, diff)
	}
	if tbl.TableId() != ct.tid {
		s.Failf("table %s had id %d and has id %d", tn, ct.tid, tbl.TableId())
	}
	s.Count("tables opened", 1)
}

func (s *catSim) checkAll() {
	for _, d := range sortedKeys(s.m.dbs) {
		s.listSchemas(d)
	}
	var tns []types.TableName
	for tn := range s.m.tables {
		tns = append(tns, tn)
	}
	sort.Slice(tns, func(i, j int) bool { return tns[i].String() < tns[j].String() })
	for _, tn := range tns {
		s.openTable(tn)
		if s.sep == "" {
			continue
		}
		// Other names which give the same text.
		parts := strings.Split(strings.Join([]string{tn.Database.String(), tn.Schema.String(), tn.Table.String()}, s.sep), s.sep)
		for n := 0; n < 4 && len(parts) > 3; n++ {
			i := 1 + s.IntN(len(parts)-2)
			j := i + 1 + s.IntN(len(parts)-i-1)
			s.openTable(types.TableName{Database: plainID(strings.Join(parts[:i], s.sep)), Schema: plainID(strings.Join(parts[i:j], s.sep)),
				Table: plainID(strings.Join(parts[j:], s.sep))})
		}
	}
	for n := 0; n < 3; n++ {
		s.openTable(types.TableName{Database: plainID(s.db()), Schema: plainID(s.name()), Table: plainID(s.name())})
		s.listSchemas(s.name())
	}
}

func (s *catSim) expect(what string, want bool, err error) bool {
	s.Logf("%s: expected to succeed: %v; error: %v", what, want, err)
	if want && err != nil {
		s.Failf("%s: unexpected error: %s", what, err)
	} else if !want && err == nil {
		s.Failf("%s: succeeded; expected an error", what)
	}
	if want {
		s.Count("operations done", 1)
	} else {
		s.Count("operations refused", 1)
	}
	return want
}

func (s *catSim) outside() {
	c := s.committed
	switch s.IntN(5) {
	case 0, 1:
		d := s.name()
		if s.IntN(3) == 0 {
			d = s.db()
		}
		if c.gone[d] {
			return
		}
		if s.IntN(8) == 0 {
			opts := storage.OptionsMap{}
			for n := 1 + s.IntN(3)*s.IntN(2); n > 0; n-- {
				o := []string{"opt", "path", "PATH", "database", "a", "config", "text", ""}[s.IntN(8)]
				opts[types.ID(o, s.IntN(2) == 0)] = []string{"x", "", "0", "default", "a b"}[s.IntN(5)]
			}
			err := s.eng.CreateDatabase(plainID(d), opts)
			s.expect(fmt.Sprintf("create database %q with unknown options %v", d, opts), false, err)
		} else if s.expect(fmt.Sprintf("create database %q", d), !c.dbs[d], s.eng.CreateDatabase(plainID(d), nil)) {
			c.dbs[d] = true
			if c.schemas[d] == nil {
				c.schemas[d] = map[string]bool{}
			}
		}
	case 2:
		d := s.db()
		if c.gone[d] || (d == "system" || d == "maho") && s.IntN(6) > 0 {
			return
		}
		ifExists := s.IntN(2) == 0
		err := s.eng.DropDatabase(plainID(d), ifExists)
		if s.expect(fmt.Sprintf("drop database %q if exists %v", d, ifExists), c.dbs[d] || ifExists, err) && c.dbs[d] {
			delete(c.dbs, d)
			if len(c.schemas[d]) > 0 {
				c.gone[d] = true
			}
		}
	case 3:
		s.Logf("new engine")
		s.eng = s.engineOf(s.st)
	}
	s.listDatabases()
}

func (s *catSim) inside() {
	m := s.m
	switch s.IntN(8) {
	case 0, 1:
		d, n := s.db(), s.name()
		if s.IntN(4) == 0 && len(m.schemas[d]) > 0 {
			ks := sortedKeys(m.schemas[d])
			n = ks[s.IntN(len(ks))]
		}
		sn := types.SchemaName{Database: plainID(d), Schema: plainID(n)}
		if m.gone[d] || m.goneS[sn] {
			return
		}
		ctx := s.late()
		err := s.tx.CreateSchema(ctx, sn)
		if s.gaveUp(ctx, err) {
			return
		}
		if s.expect(fmt.Sprintf("create schema %q.%q", d, n), m.dbs[d] && !m.schemas[d][n], err) {
			m.schemas[d][n] = true
		}
	case 2:
		d := s.db()
		n := s.name()
		if s.IntN(3) > 0 && len(m.schemas[d]) > 0 {
			ks := sortedKeys(m.schemas[d])
			n = ks[s.IntN(len(ks))]
		}
		sn := types.SchemaName{Database: plainID(d), Schema: plainID(n)}
		if m.gone[d] || m.goneS[sn] || d == "system" {
			return
		}
		ifExists := s.IntN(2) == 0
		err := s.tx.DropSchema(bg, sn, ifExists)
		if s.expect(fmt.Sprintf("drop schema %q.%q if exists %v", d, n, ifExists), m.schemas[d][n] || ifExists, err) {
			for tn := range m.tables {
				if tn.SchemaName() == sn {
					m.goneS[sn] = true
				}
			}
			delete(m.schemas[d], n)
		}
	case 3, 4, 5:
		d := s.db()
		n := s.name()
		if s.IntN(5) > 0 && len(m.schemas[d]) > 0 {
			ks := sortedKeys(m.schemas[d])
			n = ks[s.IntN(len(ks))]
		}
		tn := types.TableName{Database: plainID(d), Schema: plainID(n), Table: plainID(s.name())}
		if m.gone[d] || m.goneS[tn.SchemaName()] || d == "system" {
			return
		}
		_, exists := m.tables[tn]
		def := genEngDef(s.Case, 1+s.IntN(3))
		a := def.copy()
		ctx := s.late()
		err := s.tx.CreateTable(ctx, tn, a.names, a.cts, a.key)
		if s.gaveUp(ctx, err) {
			return
		}
		if s.expect(fmt.Sprintf("create table %q.%q.%q", d, n, tn.Table), m.schemas[d][n] && !exists, err) {
			tbl, err := s.tx.OpenTable(bg, tn)
			if err != nil {
				s.Failf("open table %s, just created: %s", tn, err)
			}
			m.tables[tn] = catTable{def, tbl.TableId()}
		}
		s.openTable(tn)
	case 6:
		s.listSchemas(s.db())
	case 7:
		if s.IntN(3) == 0 {
			s.checkAll()
		}
	}
}

func catalogHistory(t *Case, close bool) {
	st, eng := newEngine(t)
	s := &catSim{Case: t, st: st, eng: eng, committed: newCatalog()}
	s.names = []string{"a", "b", "c", "d1", "sales", "public", "info", "Maho", "x y"}
	if close {
		// Names which are prefixes of each other or next to each other in order.
		s.names = []string{"a", "a\x00", "a\x01", "ab", "aa", "b", "A", "a ", "a\xff", "a.b", "é", "z"}
	}
	if close && t.IntN(3) == 0 {
		// Names which, put together, could be taken for others.
		sep := []string{".", ".", "\x00", " ", "/", "\"", "\".\"", "\xff"}[t.IntN(8)]
		s.sep = sep
		s.names = []string{"a", "b", "a" + sep + "b", "b" + sep + "a", "a" + sep + "a", "a" + sep, sep + "a", sep}
	}
	if close && t.IntN(3) == 0 {
		// Names of the greatest length, alike but for a few places.
		l := strings.Repeat("abcdefgh", types.MaxIdentifier/8)
		s.names = []string{l, l[:len(l)-1], l[:len(l)-1] + "H", l[:len(l)-1] + "\x00", "x" + l[1:], l[:len(l)-2], l[:64] + "X" + l[65:],
			l[:len(l)-2] + "é", l[:len(l)/2], "a"}
		s.sep = ""
	}
	t.Shuffle(len(s.names), func(i, j int) { s.names[i], s.names[j] = s.names[j], s.names[i] })
	s.names = s.names[:4+t.IntN(5)]
	s.history(12, 4, 8)
}

// catalogLong: thousands of transactions.
func catalogLong(t *Case) {
	st, eng := newEngine(t)
	s := &catSim{Case: t, st: st, eng: eng, committed: newCatalog()}
	s.names = []string{"a", "b", "c", "d1", "sales", "x y"}
	// Names whose tables were left behind are not used again: new ones take their place.
	for n := 0; n < 125; n++ {
		s.transactions(20, 3, 4)
		s.names[s.IntN(len(s.names))] = fmt.Sprintf("n%d", n)
	}
	t.Distinct(s.committed.String())
}

// catalogMany: many databases, schemas and tables.
func catalogMany(t *Case) {
	st, eng := newEngine(t)
	s := &catSim{Case: t, st: st, eng: eng, committed: newCatalog()}
	for n := 10 + t.IntN(150); n > 0; n-- {
		name := fmt.Sprintf("%c%d", 'a'+rune(t.IntN(4)), t.IntN(200))
		if t.IntN(20) == 0 {
			name += strings.Repeat("long", 1+t.IntN(30))
		}
		s.names = append(s.names, name)
	}
	if t.IntN(2) == 0 {
		s.few = 1 + t.IntN(3)
	}
	s.history(2+t.IntN(5), 1+t.IntN(60), 1+t.IntN(250))
}

// catalogLists: long lists of databases, and of schemas in one database with others next to it, made in some order and
// partly removed again.
func catalogLists(t *Case) {
	st, eng := newEngine(t)
	s := &catSim{Case: t, st: st, eng: eng, committed: newCatalog()}
	some := func() []string {
		n := 1 + t.IntN(64<<t.IntN(6))
		names := make([]string, n)
		for i := range names {
			names[i] = fmt.Sprintf("n%d", i)
			if i%7 == 3 {
				names[i] += strings.Repeat("x", i%(types.MaxIdentifier-10))
			}
		}
		switch t.IntN(3) {
		case 0:
			t.Shuffle(n, func(i, j int) { names[i], names[j] = names[j], names[i] })
		case 1:
			slices.Reverse(names)
		}
		return names
	}
	c := s.committed
	for _, n := range append(some(), "before", "d", "dd") {
		if err := s.eng.CreateDatabase(plainID(n), nil); err != nil {
			t.Failf("create database %q: %s", n, err)
		}
		c.dbs[n] = true
		c.schemas[n] = map[string]bool{}
	}
	s.listDatabases()
	dropDbs := 2 + t.IntN(5)
	for i, n := range sortedKeys(c.dbs) {
		if n[0] == 'n' && i%dropDbs == 0 {
			if err := s.eng.DropDatabase(plainID(n), t.IntN(2) == 0); err != nil {
				t.Failf("drop database %q: %s", n, err)
			}
			delete(c.dbs, n)
		}
	}
	s.listDatabases()
	t.Count("databases listed", len(c.dbs))

	for txn := 1 + t.IntN(3); txn > 0; txn-- {
		s.tx = s.eng.Begin()
		s.m = c.clone()
		for _, d := range []string{"before", "d", "dd", "maho"} {
			names := some()
			if t.IntN(2) == 0 {
				names = names[:min(len(names), 1+t.IntN(4))]
			}
			for _, n := range names {
				err := s.tx.CreateSchema(bg, types.SchemaName{Database: plainID(d), Schema: plainID(n)})
				if (err == nil) == s.m.schemas[d][n] {
					t.Failf("create schema %q.%q, which exists: %v: %v", d, n, s.m.schemas[d][n], err)
				}
				s.m.schemas[d][n] = true
			}
			s.listSchemas(d)
			t.Count("schemas listed", len(s.m.schemas[d]))
			drop := 1 + t.IntN(6)
			for i, n := range sortedKeys(s.m.schemas[d]) {
				if (i+txn)%drop == 0 {
					err := s.tx.DropSchema(bg, types.SchemaName{Database: plainID(d), Schema: plainID(n)}, t.IntN(2) == 0)
					if err != nil {
						t.Failf("drop schema %q.%q: %s", d, n, err)
					}
					delete(s.m.schemas[d], n)
				}
			}
			s.listSchemas(d)
		}
		for _, d := range []string{"before", "d", "dd", "maho"} {
			s.listSchemas(d)
		}
		if t.IntN(3) == 0 {
			if err := s.tx.Rollback(); err != nil {
				t.Failf("rollback: %s", err)
			}
		} else {
			if err := s.tx.Commit(bg); err != nil {
				t.Failf("commit: %s", err)
			}
			s.committed, c = s.m, s.m
		}
	}
	s.listDatabases()
	t.Distinct(fmt.Sprint(len(c.dbs), len(c.schemas["d"]), len(c.schemas["dd"]), len(c.schemas["before"]), len(c.schemas["maho"])))
}

func (s *catSim) history(txns, outside, inside int) {
	s.transactions(txns, outside, inside)
	if len(s.committed.tables) > 0 || len(s.committed.dbs) > 2 {
		s.Distinct(s.committed.String())
	}
	s.Sample("%s", s.committed)
}

func (s *catSim) transactions(txns, outside, inside int) {
	t := s.Case
	for i := 0; i < txns; i++ {
		for n := t.IntN(outside); n > 0; n-- {
			s.outside()
		}
		s.Logf("begin")
		s.tx = s.eng.Begin()
		s.m = s.committed.clone()
		for n := t.IntN(inside); n > 0; n-- {
			s.inside()
		}
		tx := s.tx
		if t.IntN(3) == 0 {
			s.Logf("rollback")
			if err := tx.Rollback(); err != nil {
				t.Failf("rollback: %s", err)
			}
			t.Count("rollbacks", 1)
		} else {
			s.Logf("commit")
			if err := tx.Commit(bg); err != nil {
				t.Failf("commit: %s", err)
			}
			s.committed = s.m
			t.Count("commits", 1)
		}
		if t.IntN(2) == 0 {
			for n := 0; n < 2; n++ {
				var err error
				if p := Try(func() {
					if t.IntN(2) == 0 {
						err = tx.Commit(bg)
					} else {
						err = tx.Rollback()
					}
				}); p != nil || err == nil {
					t.Failf("ending a finished transaction again: error %v panic %v; expected an error", err, p)
				}
			}
			t.Count("second ends refused", 1)
		}
		if t.IntN(2) == 0 {
			s.tx = s.eng.Begin()
			s.m = s.committed.clone()
			s.checkAll()
			s.m = s.committed
			if err := s.tx.Commit(bg); err != nil {
				t.Failf("commit: %s", err)
			}
			s.listDatabases()
		}
	}
}

// catalogFresh: what a fresh store contains.
func catalogFresh(t *Case) {
	st, eng := newEngine(t)
	if t.index%2 == 1 {
		eng = t.engineOf(st)
	}
	dbs, err := eng.ListDatabases()
	if err != nil || !slices.Equal(dbs, []types.Identifier{types.MAHO, types.SYSTEM}) {
		t.Failf("databases of a fresh store: %v %v", dbs, err)
	}
	tx := eng.Begin()
	for d, want := range map[types.Identifier]types.Identifier{types.MAHO: types.PUBLIC, types.SYSTEM: types.INFO} {
		ss, err := tx.ListSchemas(bg, d)
		if err != nil || !slices.Equal(ss, []types.Identifier{want}) {
			t.Failf("schemas of %s in a fresh store: %v %v", d, ss, err)
		}
	}
	ids := map[storage.TableId]bool{}
	for _, n := range []types.Identifier{types.SEQUENCES, types.DATABASES, types.SCHEMAS, types.TABLES} {
		tn := types.TableName{Database: types.SYSTEM, Schema: types.INFO, Table: n}
		tbl, err := tx.OpenTable(bg, tn)
		if err != nil {
			t.Failf("open table %s of a fresh store: %s", tn, err)
		}
		if ids[tbl.TableId()] || tbl.TableId() < storage.EngineTableId || tbl.TableId() > 511 {
			t.Failf("table %s of a fresh store has id %d", tn, tbl.TableId())
		}
		ids[tbl.TableId()] = true
		// Its definition is the one the store has it under.
		tt := tbl.Type()
		t.Distinct(fmt.Sprint(tn, tt.ColumnNames))
	}
	if err := tx.Rollback(); err != nil {
		t.Failf("rollback: %s", err)
	}
	// The store itself agrees with the definitions in the catalog.
	for _, n := range []types.Identifier{types.SEQUENCES, types.DATABASES, types.SCHEMAS, types.TABLES} {
		tn := types.TableName{Database: types.SYSTEM, Schema: types.INFO, Table: n}
		etx := eng.Begin()
		tbl, err := etx.OpenTable(bg, tn)
		if err != nil {
			t.Failf("open table %s: %s", tn, err)
		}
		if err := etx.Rollback(); err != nil {
			t.Failf("rollback: %s", err)
		}
		stx := st.Begin()
		tt := tbl.Type()
		if _, err := stx.OpenTable(bg, tbl.TableId(), tn, tt.ColumnNames, tt.ColumnTypes, tt.Key); err != nil {
			t.Failf("open table %s in the store: %s", tn, err)
		}
		if err := stx.Rollback(); err != nil {
			t.Failf("rollback: %s", err)
		}
		t.Count("metadata tables checked", 1)
	}
}

// ---------------------------------------------------------------- table ids

// tidSerial creates tables with failures and rollbacks in between and watches the ids.
func tidSerial(t *Case) {
	st, eng := newEngine(t)
	committed := map[types.TableName]storage.TableId{}
	n := 0
	for i := 0; i < 10; i++ {
		if t.IntN(4) == 0 {
			eng = t.engineOf(st)
		}
		tx := eng.Begin()
		cur := map[types.TableName]storage.TableId{}
		for k, v := range committed {
			cur[k] = v
		}
		for k := t.IntN(6); k > 0; k-- {
			tn := types.TableName{Database: types.MAHO, Schema: types.PUBLIC, Table: plainID(fmt.Sprintf("t%d", t.IntN(n+3)))}
			n += t.IntN(2)
			if t.IntN(6) == 0 {
				tn.Schema = plainID("missing")
			}
			d := genEngDef(t, 1+t.IntN(2))
			_, exists := cur[tn]
			err := tx.CreateTable(bg, tn, d.names, d.cts, d.key)
			if want := !exists && tn.Schema == types.PUBLIC; want != (err == nil) {
				t.Failf("create table %s: expected to succeed: %v, error: %v", tn, want, err)
			}
			if err != nil {
				t.Count("creations refused", 1)
				continue
			}
			tbl, err := tx.OpenTable(bg, tn)
			if err != nil {
				t.Failf("open table %s: %s", tn, err)
			}
			t.Logf("table %s has id %d", tn, tbl.TableId())
			cur[tn] = tbl.TableId()
			t.Count("tables created", 1)
		}
		checkTids(t, tx, cur)
		if t.IntN(3) == 0 {
			t.Logf("rollback")
			if err := tx.Rollback(); err != nil {
				t.Failf("rollback: %s", err)
			}
		} else {
			t.Logf("commit")
			if err := tx.Commit(bg); err != nil {
				t.Failf("commit: %s", err)
			}
			committed = cur
		}
	}
	tx := eng.Begin()
	checkTids(t, tx, committed)
	if err := tx.Rollback(); err != nil {
		t.Failf("rollback: %s", err)
	}
	t.Distinct(fmt.Sprint(committed))
	t.Sample("%v", committed)
}

// tidMany creates many tables.
func tidMany(t *Case) {
	_, eng := newEngine(t)
	all := map[types.TableName]storage.TableId{}
	total := 400 + t.IntN(1000)
	each := 1 + t.IntN(400)
	if t.index == 0 {
		// More than 16 bits of ids.
		total, each = 66000+t.IntN(3000), 20000
	}
	for len(all) < total {
		tx := eng.Begin()
		for i := 0; i < each && len(all) < total; i++ {
			tn := types.TableName{Database: types.MAHO, Schema: types.PUBLIC, Table: plainID(fmt.Sprintf("m%d", len(all)))}
			if err := tx.CreateTable(bg, tn, []types.Identifier{plainID("k")}, []types.ColumnType{types.Int64ColType},
				nil); err != nil {
				t.Failf("create table %s: %s", tn, err)
			}
			if total > 60000 && i%50 > 0 {
				all[tn] = 0 // looked up in the end
				continue
			}
			tbl, err := tx.OpenTable(bg, tn)
			if err != nil {
				t.Failf("open table %s: %s", tn, err)
			}
			all[tn] = tbl.TableId()
		}
		if err := tx.Commit(bg); err != nil {
			t.Failf("commit: %s", err)
		}
	}
	tx := eng.Begin()
	checkTids(t, tx, all)
	if err := tx.Rollback(); err != nil {
		t.Failf("rollback: %s", err)
	}
	t.Count("tables created", len(all))
	t.Distinct(fmt.Sprint(t.index, total, each))
}

func checkTids(t *Case, tx engine.Transaction, tables map[types.TableName]storage.TableId) {
	by := map[storage.TableId]types.TableName{}
	for _, n := range []types.Identifier{types.SEQUENCES, types.DATABASES, types.SCHEMAS, types.TABLES} {
		tn := types.TableName{Database: types.SYSTEM, Schema: types.INFO, Table: n}
		tbl, err := tx.OpenTable(bg, tn)
		if err != nil {
			t.Failf("open table %s: %s", tn, err)
		}
		by[tbl.TableId()] = tn
	}
	for tn, tid := range tables {
		tbl, err := tx.OpenTable(bg, tn)
		if err != nil {
			t.Failf("open table %s: %s", tn, err)
		}
		if tid == 0 {
			tid = tbl.TableId()
		}
		if tbl.TableId() != tid {
			t.Failf("the id of table %s was %d and is %d", tn, tid, tbl.TableId())
		}
		if tid <= 511 {
			t.Failf("table %s has the reserved id %d", tn, tid)
		}
		if other, ok := by[tid]; ok {
			t.Failf("tables %s and %s both have id %d", tn, other, tid)
		}
		by[tid] = tn
		t.Count("table ids checked", 1)
	}
}

// tidConcurrent has goroutines with engines of their own create tables in one store.
func tidConcurrent(t *Case) {
	st, eng := newEngine(t)
	clients := 2 + t.IntN(6)
	each := 3 + t.IntN(6)
	var mu sync.Mutex
	all := map[types.TableName]storage.TableId{}
	var g guard
	var wg sync.WaitGroup
	for cl := 0; cl < clients; cl++ {
		r := rand.New(rand.NewPCG(t.Uint64(), uint64(cl)))
		e := eng
		if r.IntN(2) == 0 {
			e = engine.NewEngine(st)
		}
		g.run(&wg, func() {
			for i := 0; i < each; i++ {
				if r.IntN(5) == 0 {
					e = engine.NewEngine(st)
				}
				tx := e.Begin()
				mine := map[types.TableName]storage.TableId{}
				for k := 1 + r.IntN(3); k > 0; k-- {
					tn := types.TableName{Database: types.MAHO, Schema: types.PUBLIC,
						Table: plainID(fmt.Sprintf("t%d_%d", cl, r.IntN(each*2)))}
					jitter(r)
					if err := tx.CreateTable(bg, tn, []types.Identifier{plainID("k")},
						[]types.ColumnType{types.Int64ColType}, nil); err != nil {
						continue
					}
					jitter(r)
					tbl, err := tx.OpenTable(bg, tn)
					if err != nil {
						panic(err)
					}
					mine[tn] = tbl.TableId()
				}
				jitter(r)
				if r.IntN(3) == 0 {
					if err := tx.Rollback(); err != nil {
						panic(err)
					}
					continue
				}
				if err := tx.Commit(bg); err != nil {
					panic(err)
				}
				mu.Lock()
				for tn, tid := range mine {
					if _, ok := all[tn]; ok {
						g.failf("table %s was created twice", tn)
					}
					all[tn] = tid
				}
				mu.Unlock()
			}
		})
	}
	g.wait(t, &wg)
	tx := eng.Begin()
	checkTids(t, tx, all)
	if err := tx.Rollback(); err != nil {
		t.Failf("rollback: %s", err)
	}
	t.Count("tables created", len(all))
	t.Distinct(fmt.Sprint(t.index, len(all)))
	t.Seen("id assignments", fmt.Sprint(all))
}
