package main

// C37: calls leave what they are given as it is and do not keep it, and what they return is the caller's: the other checks'
// histories with a store and an engine between them whose arguments are copies that are compared and then overwritten, and
// whose results are copied and then overwritten.

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"maps"
	"reflect"
	"slices"
	"strings"

	"github.com/leftmike/maho/encode"
	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/evaluate"
	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/parser/sql"
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/testutil"
	"github.com/leftmike/maho/types"
)

func init() {
	register(&Check{ID: "C37",
		Rule: "the histories of the store, catalog and large-table checks run with callers which overwrite every list, row and " +
			"byte they gave or got once a call is done; statements evaluated and printed, and conversions, keys, definitions " +
			"and notation, with their arguments and earlier results compared afterwards; distinct as in those checks",
		Run: func(c *Ctx) {
			share := func(fn func(t *Case)) func(t *Case) {
				return func(t *Case) {
					t.share = true
					fn(t)
				}
			}
			c.Phase("store", c.N(4000, 80000), share(func(t *Case) {
				cfg := defaultCfg()
				if t.IntN(2) == 0 {
					cfg.wOpenScan, cfg.wWalk = 30, 25
				}
				if t.IntN(3) == 0 {
					cfg.genDef = bytesDef
				}
				s := newStoreSim(t, cfg)
				s.history()
				s.done()
			}))
			c.Phase("large", c.N(100, 2000), share(storeLarge))
			c.Phase("catalog", c.N(800, 16000), share(func(t *Case) { catalogHistory(t, t.IntN(2) == 0) }))
			c.Phase("definitions", c.N(800, 16000), share(defCreateOpen))
			c.Phase("typed", c.N(1500, 30000), share(func(t *Case) { typedHistory(t, t.IntN(6)+1) }))
			c.Phase("statements", c.N(1000, 20000), shareStatements)
			c.Phase("parsed", c.N(1000, 20000), shareParsed)
			c.Phase("values", c.N(4000, 80000), shareValues)
		}})
}

// bytesDef is a definition with bytes in the key and out of it.
func bytesDef(s *storeSim) ([]types.Identifier, []types.ColumnType, []types.ColumnKey) {
	names, cts, key := s.someDef()
	for i := range cts {
		if s.IntN(2) == 0 {
			cts[i] = types.ColumnType{Type: types.BytesType, Size: []uint32{8, 64, 4096}[s.IntN(3)], Fixed: false, NotNull: s.IntN(2) == 0}
		}
	}
	return names, cts, key
}

// A lent is something given to a call: a copy of what the caller has.
type lent struct {
	what   string
	own    any
	copied any
	tail   func() bool // what follows the list is as it was
}

// roomy moves a list to the front of a longer one, and gives a check of what follows it there.
func roomy[E any](l []E, fill E, same func(a, b E) bool) ([]E, func() bool) {
	if l == nil {
		return nil, nil
	}
	n := len(l)
	all := append(append(make([]E, 0, n+2), l...), fill, fill)
	return all[:n], func() bool { return same(all[n], fill) && same(all[n+1], fill) }
}

// withRoom does so for some of the things lent.
func withRoom(v any) (any, func() bool) {
	switch v := v.(type) {
	case []types.Row:
		fill := types.Row{types.StringValue("after")}
		return roomy(v, fill, func(a, b types.Row) bool { return identicalRows(a, b) })
	case types.Row:
		r, tail := roomy([]types.Value(v), types.Value(types.StringValue("after")), identical)
		return types.Row(r), tail
	case []types.Value:
		return roomy(v, types.Value(types.StringValue("after")), identical)
	case []types.Identifier:
		return roomy(v, scribbledName, func(a, b types.Identifier) bool { return a == b })
	case []types.ColumnType:
		return roomy(v, scribbledType, func(a, b types.ColumnType) bool { return a == b })
	case []types.ColumnKey:
		return roomy(v, types.MakeColumnKey(54321, true), func(a, b types.ColumnKey) bool { return a == b })
	case []types.ColumnNum:
		return roomy(v, 54321, func(a, b types.ColumnNum) bool { return a == b })
	case []byte:
		return roomy(v, 0xA5, func(a, b byte) bool { return a == b })
	}
	return v, nil
}

func copyAny(v any) any {
	switch v := v.(type) {
	case []types.Row:
		if v == nil {
			return v
		}
		n := make([]types.Row, len(v))
		for i, r := range v {
			n[i] = copyAny(r).(types.Row)
		}
		return n
	case types.Row:
		if v == nil {
			return v
		}
		return copyRow(v)
	case []types.Value:
		if v == nil {
			return v
		}
		return []types.Value(copyRow(v))
	case []types.Identifier:
		return slices.Clone(v)
	case []types.ColumnType:
		return slices.Clone(v)
	case []types.ColumnKey:
		return slices.Clone(v)
	case []types.ColumnNum:
		return slices.Clone(v)
	case []byte:
		return slices.Clone(v)
	case storage.OptionsMap:
		return maps.Clone(v)
	case *engine.TableType:
		n := *v
		n.ColumnNames, n.ColumnTypes, n.Key = slices.Clone(v.ColumnNames), slices.Clone(v.ColumnTypes), slices.Clone(v.Key)
		n.ColumnDefaults = slices.Clone(v.ColumnDefaults)
		n.Indexes = slices.Clone(v.Indexes)
		for i := range n.Indexes {
			n.Indexes[i].Key = slices.Clone(v.Indexes[i].Key)
		}
		return &n
	}
	panic(fmt.Sprintf("cannot copy %T", v))
}

func sameAny(a, b any) bool {
	switch a := a.(type) {
	case []types.Row:
		b := b.([]types.Row)
		return len(a) == len(b) && (a == nil) == (b == nil) && slices.EqualFunc(a, b, func(x, y types.Row) bool { return sameAny(x, y) })
	case types.Row:
		return (a == nil) == (b.(types.Row) == nil) && identicalRows(a, b.(types.Row))
	case []types.Value:
		return (a == nil) == (b.([]types.Value) == nil) && identicalRows(a, b.([]types.Value))
	}
	return reflect.DeepEqual(a, b)
}

var (
	scribbledName = types.ID("scribbled", true)
	scribbledType = types.ColumnType{Type: types.StringType, Size: 3, Fixed: true}
)

func scribbleBytes(b []byte) {
	for i := range b {
		b[i] ^= 0x5A
	}
}

func scribbleAny(v any) {
	switch v := v.(type) {
	case []types.Row:
		for i, r := range v {
			scribbleAny(r)
			v[i] = nil
		}
	case types.Row:
		scribbleAny([]types.Value(v))
	case []types.Value:
		for i, x := range v {
			if b, ok := x.(types.BytesValue); ok {
				scribbleBytes(b)
			}
			v[i] = types.StringValue("scribbled")
		}
	case []types.Identifier:
		for i := range v {
			v[i] = scribbledName
		}
	case []types.ColumnType:
		for i := range v {
			v[i] = scribbledType
		}
	case []types.ColumnKey:
		for i := range v {
			v[i] = types.MakeColumnKey(12345, i%2 == 0)
		}
	case []types.ColumnNum:
		for i := range v {
			v[i] = 12345
		}
	case []byte:
		scribbleBytes(v)
	case storage.OptionsMap:
		if v != nil {
			clear(v)
			v[scribbledName] = "scribbled"
		}
	case *engine.TableType:
		scribbleAny(v.ColumnNames)
		scribbleAny(v.ColumnTypes)
		scribbleAny(v.Key)
		for i := range v.Indexes {
			scribbleAny(v.Indexes[i].Key)
			v.Indexes[i] = engine.IndexType{Name: scribbledName}
		}
		*v = engine.TableType{Version: 99}
	default:
		panic(fmt.Sprintf("cannot overwrite %T", v))
	}
}

// A loan is what one call is given.
type loan struct {
	t     *Case
	call  string
	items []lent
}

func (t *Case) loan(call string) *loan { return &loan{t: t, call: call} }

func lend[T any](l *loan, what string, v T) T {
	c, tail := withRoom(copyAny(v))
	l.items = append(l.items, lent{what, v, c, tail})
	return c.(T)
}

// done is for the end of the call, whether it returns or panics.
func (l *loan) done() {
	for _, it := range l.items {
		if !sameAny(it.own, it.copied) {
			l.t.report("", fmt.Sprintf("%s changes the %s it is given: %v has become %v", l.call, it.what, it.own, it.copied))
			panic(caseAbort{})
		}
		if it.tail != nil && !it.tail() {
			l.t.report("", fmt.Sprintf("%s writes behind the end of the %s it is given: %v", l.call, it.what, it.own))
			panic(caseAbort{})
		}
		scribbleAny(it.copied)
	}
	l.t.Count("arguments compared and overwritten", len(l.items))
}

// returned takes a result: some are overwritten at once, others are kept, to see that they stay as they are.
func returned[T any](t *Case, v T) T {
	c := copyAny(v).(T)
	if len(t.held) < 16 && t.IntN(4) == 0 {
		t.held = append(t.held, [2]any{v, copyAny(v)})
		t.Count("results kept", 1)
		return c
	}
	for _, h := range t.held {
		if !sameAny(h[0], h[1]) {
			t.report("", fmt.Sprintf("a result has changed since it was returned, from %v to %v", h[1], h[0]))
			panic(caseAbort{})
		}
	}
	if len(t.held) == 16 {
		t.held = t.held[8:]
	}
	scribbleAny(v)
	t.Count("results overwritten", 1)
	return c
}

type shareStore struct {
	storage.Store
	t *Case
}

func (st *shareStore) SetupColumns(colNames []types.Identifier, colTypes []types.ColumnType,
	primary []types.ColumnKey) ([]types.Identifier, []types.ColumnType, []types.ColumnKey) {

	l := st.t.loan("set up columns")
	n, c, k := st.Store.SetupColumns(lend(l, "names", colNames), lend(l, "types", colTypes), lend(l, "key", primary))
	n, c, k = slices.Clone(n), slices.Clone(c), slices.Clone(k) // may be what was given
	l.done()
	return n, c, k
}

func (st *shareStore) Begin() storage.Transaction { return &shareTx{st.Store.Begin(), st} }

type shareTx struct {
	storage.Transaction
	st *shareStore
}

func (tx *shareTx) Store() storage.Store { return tx.st }

func (tx *shareTx) OpenTable(ctx context.Context, tid storage.TableId, tn types.TableName, colNames []types.Identifier,
	colTypes []types.ColumnType, primary []types.ColumnKey) (storage.Table, error) {

	l := tx.st.t.loan("open table")
	defer l.done()
	tbl, err := tx.Transaction.OpenTable(ctx, tid, tn, lend(l, "names", colNames), lend(l, "types", colTypes), lend(l, "key", primary))
	if err != nil {
		return nil, err
	}
	return &shareTable{tbl, tx.st.t}, nil
}

func (tx *shareTx) CreateTable(ctx context.Context, tid storage.TableId, tn types.TableName, colNames []types.Identifier,
	colTypes []types.ColumnType, primary []types.ColumnKey) error {

	l := tx.st.t.loan("create table")
	defer l.done()
	return tx.Transaction.CreateTable(ctx, tid, tn, lend(l, "names", colNames), lend(l, "types", colTypes), lend(l, "key", primary))
}

type shareTable struct {
	storage.Table
	t *Case
}

func (tbl *shareTable) Rows(ctx context.Context, cols []types.ColumnNum, minRow, maxRow types.Row,
	pred storage.Predicate) (storage.Rows, error) {

	l := tbl.t.loan("open scan")
	defer l.done()
	rows, err := tbl.Table.Rows(ctx, lend(l, "columns", cols), lend(l, "lower bound", minRow), lend(l, "upper bound", maxRow), pred)
	if err != nil {
		return nil, err
	}
	return &shareRows{rows, tbl.t}, nil
}

func (tbl *shareTable) Insert(ctx context.Context, rows []types.Row) error {
	l := tbl.t.loan("insert")
	defer l.done()
	return tbl.Table.Insert(ctx, lend(l, "rows", rows))
}

type shareRows struct {
	storage.Rows
	t *Case
}

func (rs *shareRows) Next(ctx context.Context) (types.Row, error) {
	row, err := rs.Rows.Next(ctx)
	if row != nil {
		row = returned(rs.t, row)
	}
	return row, err
}

func (rs *shareRows) Current() (storage.RowRef, error) {
	ref, err := rs.Rows.Current()
	if err != nil {
		return nil, err
	}
	return shareRef{ref, rs.t}, nil
}

type shareRef struct {
	storage.RowRef
	t *Case
}

func (rr shareRef) Update(ctx context.Context, cols []types.ColumnNum, vals []types.Value) error {
	l := rr.t.loan("update")
	defer l.done()
	return rr.RowRef.Update(ctx, lend(l, "columns", cols), lend(l, "values", vals))
}

type shareEngine struct {
	engine.Engine
	t *Case
}

func (eng *shareEngine) CreateDatabase(dn types.Identifier, opts storage.OptionsMap) error {
	l := eng.t.loan("create database")
	defer l.done()
	return eng.Engine.CreateDatabase(dn, lend(l, "options", opts))
}

func (eng *shareEngine) ListDatabases() ([]types.Identifier, error) {
	ids, err := eng.Engine.ListDatabases()
	return returned(eng.t, ids), err
}

func (eng *shareEngine) Begin() engine.Transaction { return &shareEngTx{eng.Engine.Begin(), eng.t} }

type shareEngTx struct {
	engine.Transaction
	t *Case
}

func (tx *shareEngTx) ListSchemas(ctx context.Context, dn types.Identifier) ([]types.Identifier, error) {
	ids, err := tx.Transaction.ListSchemas(ctx, dn)
	return returned(tx.t, ids), err
}

func (tx *shareEngTx) OpenTable(ctx context.Context, tn types.TableName) (engine.Table, error) {
	tbl, err := tx.Transaction.OpenTable(ctx, tn)
	if err != nil {
		return nil, err
	}
	return &shareEngTable{tbl, returned(tx.t, tbl.Type())}, nil
}

func (tx *shareEngTx) CreateTable(ctx context.Context, tn types.TableName, colNames []types.Identifier,
	colTypes []types.ColumnType, primary []types.ColumnKey) error {

	l := tx.t.loan("create table")
	defer l.done()
	return tx.Transaction.CreateTable(ctx, tn, lend(l, "names", colNames), lend(l, "types", colTypes), lend(l, "key", primary))
}

func (tx *shareEngTx) CreateIndex(ctx context.Context, tn types.TableName, in types.Identifier, key []types.ColumnKey) error {
	l := tx.t.loan("create index")
	defer l.done()
	return tx.Transaction.CreateIndex(ctx, tn, in, lend(l, "key", key))
}

type shareEngTable struct {
	engine.Table
	tt *engine.TableType
}

func (tbl *shareEngTable) Type() *engine.TableType { return tbl.tt }

// storeOf and engineOf are what a case works with.
func (t *Case) storeOf(st storage.Store) storage.Store {
	if t.share {
		return &shareStore{st, t}
	}
	return st
}

func (t *Case) engineOf(st storage.Store) engine.Engine {
	eng := engine.NewEngine(st)
	if t.share {
		return &shareEngine{eng, t}
	}
	return eng
}

// shareStatements: evaluating a statement only completes the names in it, printing it changes nothing.
func shareStatements(t *Case) {
	t.share = true
	_, eng := newEngine(t)
	ses := evaluate.NewSession(eng, types.MAHO, types.PUBLIC)
	kinds := []string{"create table", "create index", "create schema", "create database", "drop table", "drop index", "drop schema",
		"drop database", "begin", "commit", "rollback"}
	for n := 3 + t.IntN(12); n > 0; n-- {
		g := newSQLGen(t)
		k := kinds[t.IntN(len(kinds))]
		if t.IntN(3) == 0 {
			k = "create table"
		}
		g.stmt(k)
		text := plainLayout.render(t, g.toks)
		parse := func() sql.Stmt {
			s, err := parser.NewParser(strings.NewReader(text+";"), "src").Parse()
			if err != nil {
				return nil
			}
			return s
		}
		a, b := parse(), parse()
		if a == nil || b == nil {
			continue
		}
		t.Logf("%s", text)
		printed, was := fmt.Sprint(a), dumpAST(a)
		if was != dumpAST(b) || !samePrint(a, printed) {
			t.Failf("%s: printing it changes it", text)
		}
		b.Resolve(ses)
		want := dumpAST(b)
		b.Resolve(ses)
		if dumpAST(b) != want {
			t.Failf("%s: resolving it again changes it:\n%s\n%s", text, want, dumpAST(b))
		}
		for i := 0; i < 2; i++ {
			var err error
			if p := Try(func() { err = ses.Evaluate(bg, a) }); p != nil {
				t.Logf("panic %v", p) // the other checks say when that may be
				t.Count("statements not evaluated", 1)
				return
			}
			if got := dumpAST(a); got != want {
				t.Failf("%s: evaluating it (%v) changes it:\n%s\n%s", text, err, want, got)
			}
			if i == 0 && t.IntN(2) == 0 {
				break
			}
		}
		t.Count("statements compared after evaluation", 1)
		t.Distinct(text)
	}
}

// samePrint says whether a statement prints as before; options print in any order.
func samePrint(s sql.Stmt, was string) bool {
	if _, ok := s.(*sql.CreateDatabase); ok {
		return len(fmt.Sprint(s)) == len(was)
	}
	return fmt.Sprint(s) == was
}

// shareParsed: the statements of one parser do not change with the ones after them.
func shareParsed(t *Case) {
	var text strings.Builder
	n := 2 + t.IntN(30)
	for i := 0; i < n; i++ {
		g := newSQLGen(t)
		k := stmtKinds[t.IntN(len(stmtKinds))]
		for k == "copy" {
			k = stmtKinds[t.IntN(len(stmtKinds))]
		}
		g.stmt(k)
		text.WriteString(plainLayout.render(t, g.toks) + ";\n")
		if t.IntN(6) == 0 {
			text.WriteString("SELECT 'wrong' b'00' FROM;\n")
		}
	}
	p := parser.NewParser(strings.NewReader(text.String()), "src")
	var stmts []sql.Stmt
	var dumps, prints []string
	for {
		s, err := p.Parse()
		if err == io.EOF {
			break
		} else if err != nil {
			continue
		}
		stmts, dumps, prints = append(stmts, s), append(dumps, dumpAST(s)), append(prints, fmt.Sprint(s))
	}
	for i, s := range stmts {
		if got := dumpAST(s); got != dumps[i] {
			t.Failf("statement %d has changed since it was parsed:\n%s\n%s", i, dumps[i], got)
		}
		if !samePrint(s, prints[i]) {
			t.Failf("statement %d prints differently than when it was parsed:\n%s\n%s", i, prints[i], s)
		}
	}
	t.Count("statements compared with what they were", len(stmts))
	t.Distinct(text.String())
}

// shareValues: conversions, keys, definitions and notation.
func shareValues(t *Case) {
	type kept struct {
		what string
		v    any
		was  any
	}
	var all []kept
	keep := func(what string, v any) { all = append(all, kept{what, v, copyAny(v)}) }
	for n := 4 + t.IntN(12); n > 0; n-- {
		switch t.IntN(8) {
		case 0: // a row converted
			var cts []types.ColumnType
			var row types.Row
			for m := t.IntN(6); m > 0; m-- {
				ct := genAnyColType(t)
				cts = append(cts, ct)
				if t.IntN(10) > 0 {
					row = append(row, genFit(t, ct))
				} else {
					row = append(row, genOffer(t, ct))
				}
			}
			l := t.loan("convert row")
			lrow := lend(l, "row", row)
			got, err := types.ConvertRow(lend(l, "types", cts), lrow)
			if err == nil {
				got = got[:len(got):len(got)]
				if len(got) > 0 && len(lrow) > 0 && &got[0] == &lrow[0] {
					t.Failf("convert row returns the row it is given")
				}
				got = copyRow(got) // the bytes may be those given
			}
			l.done()
			t.Count("rows converted", 1)
		case 1: // a cast
			v := genAnyValue(t)
			vt := []types.ValueType{types.BoolType, types.StringType, types.BytesType, types.Float64Type, types.Int64Type}[t.IntN(5)]
			c := copyValue(v)
			got, err := types.CastValue(vt, c)
			if !identical(c, v) {
				t.Failf("casting %s to %s changes it to %s", show(v), vt, show(c))
			}
			if _, bytes := c.(types.BytesValue); err == nil && !(bytes && vt == types.BytesType) {
				keep("cast value", types.Row{got})
				if again, err := types.CastValue(vt, copyValue(v)); err == nil {
					if b, ok := again.(types.BytesValue); ok {
						scribbleBytes(b)
					}
				}
				if bytes {
					scribbleBytes(c.(types.BytesValue))
				}
			}
			_ = types.FormatValue(c)
		case 2: // comparisons
			l := t.loan("compare rows")
			var a, b types.Row
			for m := t.IntN(5); m > 0; m-- {
				v := genAnyValue(t)
				a, b = append(a, v), append(b, near(t, v))
			}
			testutil.CompareRows(lend(l, "row", a), lend(l, "other row", b))
			testutil.RowsEqual(lend(l, "rows", []types.Row{a, b}), lend(l, "other rows", []types.Row{b, a}), false)
			_ = testutil.FormatRows(lend(l, "printed rows", []types.Row{a, b}), ";")
			_ = lend(l, "printed row", a).String()
			l.done()
		case 3: // keys
			var row types.Row
			for m := 1 + t.IntN(5); m > 0; m-- {
				row = append(row, genAnyValue(t))
			}
			key := genKey(t, len(row))
			l := t.loan("make key")
			k := encode.MakeKey(lend(l, "key", key), lend(l, "row", row))
			keep("key", k)
			l.done()
		case 4: // numbers encoded into a buffer with room
			pre := genBytes(t, 12)
			buf := append(make([]byte, 0, 64), pre...)
			u := genU64(t)
			var out []byte
			switch t.IntN(4) {
			case 0:
				out = encode.EncodeVarint(buf, u)
			case 1:
				out = encode.EncodeZigzag64(buf, int64(u))
			case 2:
				out = encode.EncodeUint32(buf, uint32(u))
			case 3:
				out = encode.EncodeUint64(buf, u)
			}
			if !bytes.Equal(buf, pre) || !bytes.HasPrefix(out, pre) {
				t.Failf("encoding %d after %x gives %x, and what was before is %x", u, pre, out, buf)
			}
			in := slices.Clone(out[len(pre):])
			rest, _, _ := encode.DecodeVarint(in)
			encode.DecodeZigzag64(in)
			if !bytes.Equal(in, out[len(pre):]) || len(rest) > len(in) {
				t.Failf("decoding changes %x to %x", out[len(pre):], in)
			}
			keep("encoded number", out)
		case 5: // a definition encoded and decoded
			d := genEngDef(t, 1+t.IntN(6))
			tt := &engine.TableType{Version: 1, ColumnNames: d.names, ColumnTypes: d.cts, Key: d.key}
			for m := t.IntN(3); m > 0; m-- {
				tt.Indexes = append(tt.Indexes, engine.IndexType{Name: plainID(fmt.Sprint("i", m)), Key: genKey(t, len(d.names))})
			}
			l := t.loan("encode definition")
			enc, err := lend(l, "definition", tt).Encode()
			l.done()
			if err != nil {
				t.Failf("encode %s: %v", d, err)
			}
			keep("encoded definition", enc)
			l = t.loan("decode definition")
			dec, err := engine.DecodeTableType(lend(l, "bytes", enc))
			l.done()
			if err != nil {
				t.Failf("decode %s: %v", d, err)
			}
			if !slices.Equal(dec.ColumnNames, d.names) || !slices.Equal(dec.ColumnTypes, d.cts) || !slices.Equal(dec.Key, d.key) ||
				len(dec.Indexes) != len(tt.Indexes) {
				t.Failf("%s reads back as %v, after the bytes were overwritten", d, dec)
			}
			keep("definition", dec)
		case 6: // notation
			text := fmt.Sprintf("(%d, 'text %d', b'%02x', true), (NULL, %d.5)", t.IntN(100), t.IntN(100), t.IntN(256), t.IntN(9))
			rows, err := testutil.ParseRows(strings.NewReader(text))
			if err == nil {
				keep("rows", rows)
			}
			ids := testutil.MustParseIdentifiers(fmt.Sprintf("a%d, b%d", t.IntN(9), t.IntN(9)))
			keep("names", ids)
		case 7: // a typed definition
			st := reflect.New(genTypedDef(t, 1+t.IntN(5), typedKinds).typ)
			var ti, other *engine.TypedInfo
			if Try(func() {
				ti = engine.MakeTypedInfo(40, types.TableName{Table: plainID("typed")}, st.Elem().Interface())
				other = engine.MakeTypedInfo(41, types.TableName{Table: plainID("typed")}, st.Elem().Interface())
			}) == nil {
				was := copyAny(ti.TableType()).(*engine.TableType)
				scribbleAny(other.TableType())
				if !sameAny(ti.TableType(), was) {
					t.Failf("two typed infos of one struct share what they are made of")
				}
			}
		}
	}
	for _, k := range all {
		if !sameAny(k.v, k.was) {
			t.Failf("a %s has changed from %v to %v", k.what, k.was, k.v)
		}
	}
	t.Count("results compared with what they were", len(all))
	t.Distinct(fmt.Sprint(len(all), t.Int64()))
}
