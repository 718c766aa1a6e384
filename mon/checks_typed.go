package main

// C18: typed tables, over struct types made by reflection.

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"strings"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/storage/basic"
	"github.com/leftmike/maho/types"
)

func init() {
	register(&Check{ID: "C18",
		Rule: "struct types of all supported field types and tags made by reflection; random histories of insert, lookup, " +
			"select, update and delete over several transactions in lock step with a model that converts structs on its own; " +
			"distinct by struct type and final contents",
		Run: func(c *Ctx) {
			c.Phase("histories", c.N(9000, 80000), func(t *Case) { typedHistory(t, t.IntN(6)+1) })
			c.Phase("wide", c.N(1200, 8000), func(t *Case) {
				n := 6 + t.IntN(14)
				if t.IntN(20) == 0 {
					n = 20 + t.IntN(100)
				}
				typedHistory(t, n)
			})
			c.Phase("many", c.N(40, 1000), typedMany)
			c.Phase("one-kind", c.N(1500, 20000), typedOneKind)
			c.Phase("refused", c.N(1500, 20000), typedRefused)
		}})
}

type (
	namedBool   bool
	namedInt    int
	namedInt16  int16
	namedString string
	namedFloat  float32
	namedBytes  []byte
)

var typedKinds = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)),
	reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)),
	reflect.TypeOf(""), reflect.TypeOf([]byte(nil)), reflect.TypeOf(namedBool(false)), reflect.TypeOf(namedInt(0)),
	reflect.TypeOf(namedInt16(0)), reflect.TypeOf(namedString("")), reflect.TypeOf(namedFloat(0)),
	reflect.TypeOf(namedBytes(nil)), reflect.TypeOf(types.Identifier(0)), reflect.TypeOf(types.BoolValue(false)),
}

type typedField struct {
	name string
	col  string
	typ  reflect.Type // of the field
	base reflect.Type // what it points to, or itself
	ct   types.ColumnType
	key  bool
}

type typedDef struct {
	flds []typedField
	typ  reflect.Type
	key  []types.ColumnKey
}

// fieldNames are field names with the column each must get.
var fieldNames = [][2]string{{"A", "a"}, {"Bc", "bc"}, {"FooBar", "foo_bar"}, {"ID", "id"}, {"TableID", "table_id"},
	{"X1", "x1"}, {"Long9Name", "long9_name"}, {"Abc_def", "abc_def"}, {"OneTwoThree", "one_two_three"},
	{"ÉtatCivil", "état_civil"}, {"XÉé", "xéé"}, {"TableÉ", "table_é"}, {"ΩmegaBéta", "ωmega_béta"}, {"URLPath2", "urlpath2"},
	{"A1B2", "a1_b2"}, {"F0", "f0"}, {"F3", "f3"}, {"FoobaR", "fooba_r"}, {"TaBleID", "ta_ble_id"}, {"BC", ""}, {"Id", ""},
	{"Table_ID", ""}, {"X1Y", ""}, {"OneTWOThree", ""}, {"Foobar", ""}, {"XéÉ", ""}}

func genTypedDef(t *Case, n int, kinds []reflect.Type) *typedDef {
	d := &typedDef{}
	var sf []reflect.StructField
	// A field of a name is at another place in another struct.
	order, used := t.Perm(len(fieldNames)), map[string]bool{}
	for i := 0; i < n; i++ {
		f := typedField{}
		var tags []string
		if t.IntN(3) == 0 && i < len(fieldNames) {
			f.name, f.col = fieldNames[order[i]][0], fieldNames[order[i]][1]
		} else {
			f.name, f.col = fmt.Sprintf("F%d", i), fmt.Sprintf("f%d", i)
		}
		if f.col == "" {
			// This would get the name of another's column.
			f.col = fmt.Sprintf("Other_%d", i)
			tags = append(tags, "name="+f.col)
		}
		if used[f.name] {
			f.name, f.col = fmt.Sprintf("G%d", i), fmt.Sprintf("g%d", i)
		}
		used[f.name] = true
		f.base = kinds[t.IntN(len(kinds))]
		f.typ = f.base
		slice := f.base.Kind() == reflect.Slice
		if !slice && t.IntN(3) == 0 {
			f.typ = reflect.PointerTo(f.base)
		}
		f.ct.NotNull = f.typ == f.base
		f.ct.Size = 1
		if len(tags) == 0 && t.IntN(4) == 0 {
			f.col = fmt.Sprintf("Named_%d", i)
			tags = append(tags, "name="+f.col)
		}
		switch f.base.Kind() {
		case reflect.Bool:
			f.ct.Type = types.BoolType
		case reflect.Float32, reflect.Float64:
			f.ct.Type = types.Float64Type
			f.ct.Size = 8
		case reflect.String, reflect.Slice:
			f.ct.Type = types.StringType
			if slice {
				f.ct.Type = types.BytesType
				f.ct.NotNull = false
				if t.IntN(2) == 0 {
					f.ct.NotNull = true
					tags = append(tags, "notnull")
				}
			}
			if t.IntN(5) > 0 {
				f.ct.Size = uint32(1 + t.IntN(90))
				if t.IntN(6) == 0 {
					f.ct.Size = []uint32{127, 128, 255, 256, 300, 1000, 4096, 40000, 65535, 65536, 70000,
						types.MaxColumnSize}[t.IntN(12)]
				}
				tags = append(tags, fmt.Sprintf("size=%d", f.ct.Size))
			}
		default:
			f.ct.Type = types.Int64Type
			f.ct.Size = uint32(f.base.Size())
		}
		if t.IntN(3) == 0 {
			f.key = true
			tags = append(tags, "primary")
		}
		if i == n-1 && len(d.key) == 0 && !f.key {
			f.key = true
			tags = append(tags, "primary")
		}
		if f.key {
			d.key = append(d.key, types.MakeColumnKey(types.ColumnNum(i), false))
		}
		t.Shuffle(len(tags), func(i, j int) { tags[i], tags[j] = tags[j], tags[i] })
		fld := reflect.StructField{Name: f.name, Type: f.typ}
		if len(tags) > 0 {
			fld.Tag = reflect.StructTag(`maho:"` + strings.Join(tags, ",") + `"`)
		}
		sf = append(sf, fld)
		d.flds = append(d.flds, f)
	}
	d.typ = reflect.StructOf(sf)
	return d
}

// typedRefused: a definition with one field that cannot be a column, or whose tag says nothing a column can be, is refused; the
// same definition without the fault is not.
func typedRefused(t *Case) {
	n := 1 + t.IntN(6)
	d := genTypedDef(t, n, typedKinds)
	var sf []reflect.StructField
	for i := 0; i < n; i++ {
		sf = append(sf, d.typ.Field(i))
	}
	at := t.IntN(n)
	tagged := func(typ any, tag string) {
		sf[at].Type, sf[at].Tag = reflect.TypeOf(typ), reflect.StructTag(`maho:"`+tag+`"`)
	}
	big := []string{"4294967295", "4294967296", "4294967297", "4294967423", "8589934593", "1099511627776", "9223372036854775807",
		"9223372036854775808", "18446744073709551617", "79228162514264337593543950337"}
	what := ""
	switch t.IntN(9) {
	case 0, 1:
		what = "size=" + big[t.IntN(len(big))]
		tagged([]any{"", []byte(nil), new(string)}[t.IntN(3)], what)
	case 2:
		what = "size=" + []string{"0", "-1", "", "x", "1x", " 1", "1.5", "0x10", "1e3", "-4294967295", "00"}[t.IntN(11)]
		tagged("", what)
	case 3:
		what = []string{"nonsense", "size", "name", "size=1=2", "name=a=b", "primary=1", "notnull=true", "Size=1", "primary,", ",",
			"primary,size", "size=4;primary", "primary primary", "null"}[t.IntN(14)]
		tagged("", what)
	case 4:
		what = "notnull"
		tagged([]any{"", 0, false, 1.5, new(string), new(int)}[t.IntN(6)], what)
	case 5:
		typ := []any{uint(0), uint8(0), uint16(0), uint32(0), uint64(0), uintptr(0), complex(0, 0), struct{}{}, map[string]int{},
			[4]byte{}, [0]int{}, func() {}, make(chan int), []any{nil}}[t.IntN(14)]
		sf[at].Type, what = reflect.TypeOf(typ), fmt.Sprintf("%T", typ)
	case 6:
		typ := []any{[]int{}, []string{}, []int8{}, []bool{}, [][]byte{}, []rune{}}[t.IntN(6)]
		sf[at].Type, what = reflect.TypeOf(typ), fmt.Sprintf("%T", typ)
	case 7:
		typ := []any{new([]byte), new(*int), new(*string), new([]int), new(struct{}), new(uint), new([2]byte)}[t.IntN(7)]
		sf[at].Type, what = reflect.TypeOf(typ), fmt.Sprintf("%T", typ)
	case 8:
		typ := []any{any(nil), (*any)(nil), (*error)(nil)}[1+t.IntN(2)]
		sf[at].Type, what = reflect.TypeOf(typ).Elem(), fmt.Sprintf("%T", typ)
	}
	bad := reflect.StructOf(sf)
	tid := storage.TableId(16 + t.IntN(1000))
	tn := types.TableName{Database: types.MAHO, Schema: types.PUBLIC, Table: plainID("typed")}
	mk := func(typ reflect.Type) {
		if t.IntN(2) == 0 {
			engine.MakeTypedInfo(tid, tn, reflect.New(typ).Interface())
		} else {
			engine.MakeTypedInfo(tid, tn, reflect.New(typ).Elem().Interface())
		}
	}
	if t.IntN(2) == 0 {
		mk(d.typ)
	}
	t.Logf("field %d: %s: %s", at, what, bad)
	if pan := Try(func() { mk(bad) }); pan == nil {
		t.Failf("a struct with a field of %q was taken for a table: %s", what, bad)
	} else if isRuntimeError(pan) {
		t.Failf("a struct with a field of %q: %v", what, pan)
	}
	mk(d.typ)
	t.Count("refused", 1)
	t.Distinct(fmt.Sprint(what, at, n))
}

// genFieldValue makes the column value of a field; the struct is made from it.
func genFieldValue(t *Case, f typedField) types.Value {
	if f.typ.Kind() == reflect.Pointer || (f.base.Kind() == reflect.Slice && !f.ct.NotNull) {
		if t.IntN(4) == 0 {
			return nil
		}
	}
	switch f.base.Kind() {
	case reflect.Bool:
		return types.BoolValue(t.IntN(2) == 0)
	case reflect.Float32, reflect.Float64:
		v := float64(genTyped(t, types.Float64Type).(types.Float64Value))
		if f.base.Kind() == reflect.Float32 {
			v = float64(float32(v))
		}
		return types.Float64Value(v)
	case reflect.String, reflect.Slice:
		s := genStr(t)
		if t.IntN(12) == 0 {
			s = strings.Repeat(s+"x", 90)
		} else if f.ct.Size > 90 && t.IntN(3) == 0 {
			s = strings.Repeat(s+"y", int(min(f.ct.Size, 70000))/(len(s)+1)+1)
		}
		s = s[:min(len(s), int(f.ct.Size))]
		if f.base.Kind() == reflect.String {
			return types.StringValue(s)
		}
		return types.BytesValue(s)
	default:
		bits := uint(f.base.Bits())
		switch t.IntN(4) {
		case 0:
			return types.Int64Value(math.MaxInt64 >> (64 - bits))
		case 1:
			return types.Int64Value(math.MinInt64 >> (64 - bits))
		case 2:
			return types.Int64Value(int64(t.Uint64()) >> (64 - bits))
		}
		return types.Int64Value(t.IntN(10) - 4)
	}
}

func (d *typedDef) genRow(t *Case) types.Row {
	var row types.Row
	for _, f := range d.flds {
		row = append(row, genFieldValue(t, f))
	}
	return row
}

// setField sets a field of a struct to a column value.
func setField(t *Case, f typedField, fv reflect.Value, v types.Value) {
	if v == nil {
		fv.SetZero()
		return
	}
	tv := fv
	if f.typ.Kind() == reflect.Pointer {
		p := reflect.New(f.base)
		fv.Set(p)
		tv = p.Elem()
	}
	switch x := v.(type) {
	case types.BoolValue:
		tv.SetBool(bool(x))
	case types.Int64Value:
		tv.SetInt(int64(x))
	case types.Float64Value:
		tv.SetFloat(float64(x))
	case types.StringValue:
		tv.SetString(string(x))
	case types.BytesValue:
		if len(x) == 0 && f.ct.NotNull && t.IntN(2) == 0 {
			tv.SetZero() // nil means empty in a notnull field
			return
		}
		tv.SetBytes(append([]byte{}, x...))
	}
}

// getField is the column value of a field.
func getField(f typedField, fv reflect.Value) types.Value {
	if f.typ.Kind() == reflect.Pointer {
		if fv.IsNil() {
			return nil
		}
		fv = fv.Elem()
	}
	switch f.base.Kind() {
	case reflect.Bool:
		return types.BoolValue(fv.Bool())
	case reflect.Float32, reflect.Float64:
		return types.Float64Value(fv.Float())
	case reflect.String:
		return types.StringValue(fv.String())
	case reflect.Slice:
		if fv.IsNil() && !f.ct.NotNull {
			return nil
		}
		return types.BytesValue(append([]byte{}, fv.Bytes()...))
	default:
		return types.Int64Value(fv.Int())
	}
}

// makeStruct makes a pointer to a struct with the values of a row.
func (d *typedDef) makeStruct(t *Case, row types.Row) any {
	p := reflect.New(d.typ)
	for i, f := range d.flds {
		setField(t, f, p.Elem().Field(i), row[i])
	}
	return p.Interface()
}

func (d *typedDef) rowOf(st any) types.Row {
	var row types.Row
	v := reflect.ValueOf(st).Elem()
	for i, f := range d.flds {
		row = append(row, getField(f, v.Field(i)))
	}
	return row
}

// scribble overwrites what a struct points to; a table must not see it.
func (d *typedDef) scribble(st any) {
	v := reflect.ValueOf(st).Elem()
	for i, f := range d.flds {
		fv := v.Field(i)
		if f.base.Kind() == reflect.Slice {
			for j, b := range fv.Bytes() {
				fv.Bytes()[j] = b ^ 0x55
			}
		} else if f.typ.Kind() == reflect.Pointer && !fv.IsNil() {
			fv.Elem().SetZero()
		}
		fv.SetZero()
	}
}

func (d *typedDef) String() string { return d.typ.String() }

type typedSim struct {
	*Case
	many bool
	d    *typedDef
	ti   *engine.TypedInfo
	tx   storage.Transaction
	m    *mtable // in the transaction

	ctx    context.Context // of the walk
	cancel func()

	lates  bool // contexts are cancelled now and then
	broken bool // an operation with a cancelled context has said so: the transaction is rolled back
}

// late makes a context, sometimes a cancelled one.
func (s *typedSim) late() context.Context {
	if s.lates && s.IntN(40) == 0 {
		ctx, cancel := context.WithCancel(bg)
		cancel()
		return ctx
	}
	return bg
}

// gaveUp tells whether an operation failed because of its cancelled context.
func (s *typedSim) gaveUp(ctx context.Context, err error) bool {
	if ctx.Err() != nil && errors.Is(err, context.Canceled) {
		s.broken = true
		s.Count("operations given up because of their context", 1)
		return true
	}
	if ctx.Err() != nil && err == nil {
		s.Count("operations done despite a cancelled context", 1)
	}
	return false
}

func typedOneKind(t *Case) {
	k := typedKinds[t.index%len(typedKinds)]
	typedRun(t, genTypedDef(t, 1+t.IntN(3), []reflect.Type{k}))
}

func typedHistory(t *Case, n int) { typedRun(t, genTypedDef(t, n, typedKinds)) }

// typedMany: hundreds of rows, in few large inserts.
func typedMany(t *Case) {
	kinds := typedKinds
	if t.IntN(2) == 0 {
		kinds = []reflect.Type{reflect.TypeOf(int64(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(""), reflect.TypeOf(float64(0))}
	}
	typedRunN(t, genTypedDef(t, 1+t.IntN(4), kinds), true)
}

func typedRun(t *Case, d *typedDef) { typedRunN(t, d, false) }

func typedRunN(t *Case, d *typedDef, many bool) {
	tid := storage.TableId(16 + t.IntN(1000))
	tn := types.TableName{Database: types.MAHO, Schema: types.PUBLIC, Table: plainID("typed")}
	mk := func() *engine.TypedInfo {
		if t.IntN(2) == 0 {
			return engine.MakeTypedInfo(tid, tn, reflect.New(d.typ).Interface())
		}
		return engine.MakeTypedInfo(tid, tn, reflect.New(d.typ).Elem().Interface())
	}
	t.Logf("%s", d)
	s := &typedSim{Case: t, many: many, d: d, ti: mk(), lates: true}
	if s.ti.TableId() != tid || s.ti.TableName() != tn {
		t.Failf("typed info of table %d %s says %d %s", tid, tn, s.ti.TableId(), s.ti.TableName())
	}
	tt := s.ti.TableType()
	s.m = &mtable{tid: tid, tn: tn, key: d.key}
	for i, f := range d.flds {
		s.m.colTypes = append(s.m.colTypes, f.ct)
		got := tt.ColumnTypes[i]
		if f.ct.Type == types.BoolType {
			got.Size = f.ct.Size
		}
		if tt.ColumnNames[i] != plainID(f.col) || got != f.ct {
			t.Failf("field %s %s of %s became column %s %#v; expected %s %#v", f.name, f.typ, d, tt.ColumnNames[i],
				tt.ColumnTypes[i], f.col, f.ct)
		}
	}
	if len(tt.ColumnNames) != len(d.flds) || fmt.Sprint(tt.Key) != fmt.Sprint(d.key) {
		t.Failf("%s has columns %v and key %v; expected key %v", d, tt.ColumnNames, tt.Key, d.key)
	}

	st, err := basic.NewStore("")
	if err != nil {
		t.Failf("NewStore: %s", err)
	}
	st = t.storeOf(st)
	tx := st.Begin()
	if err := engine.CreateTypedTable(bg, tx, s.ti); err != nil {
		t.Failf("create %s: %s", d, err)
	}
	if err := tx.Commit(bg); err != nil {
		t.Failf("commit: %s", err)
	}
	for n := 2 + t.IntN(3); n > 0; n-- {
		s.tx = st.Begin()
		if t.IntN(2) == 0 {
			s.ti = mk()
		}
		before := s.m.clone()
		for o := 3 + t.IntN(10); o > 0 && !s.broken; o-- {
			s.step()
		}
		if !s.broken {
			s.checkAll()
		}
		// A scan left open makes these panic.
		if s.broken || t.IntN(4) == 0 {
			s.broken = false
			t.Logf("rollback")
			if err := s.tx.Rollback(); err != nil {
				t.Failf("rollback: %s", err)
			}
			s.m = before
		} else {
			t.Logf("commit")
			if err := s.tx.Commit(bg); err != nil {
				t.Failf("commit: %s", err)
			}
		}
	}
	s.tx = st.Begin()
	s.checkAll()
	if err := s.tx.Commit(bg); err != nil {
		t.Failf("commit: %s", err)
	}
	if len(s.m.rows) > 0 {
		t.Distinct(d.String() + showRows(s.m.sorted()))
		t.Sample("%s with %s", d, showRows(s.m.sorted()))
	}
}

func (s *typedSim) step() {
	switch s.IntN(10) {
	case 0, 1, 2, 3:
		s.insert()
	case 4, 5:
		s.lookup()
	case 6:
		s.sel()
	case 7, 8:
		s.update()
	default:
		s.delete()
	}
}

// nearRow is a row, most often with the key of one that is there.
func (s *typedSim) nearRow() types.Row {
	row := s.d.genRow(s.Case)
	if len(s.m.rows) > 0 && s.IntN(3) > 0 {
		o := s.m.rows[s.IntN(len(s.m.rows))]
		for i, f := range s.d.flds {
			if f.key && s.IntN(6) > 0 {
				row[i] = copyValue(o[i])
			}
		}
	}
	return row
}

func (s *typedSim) insert() {
	var rows []types.Row
	var structs []any
	n, near := s.IntN(4), 12
	if s.many && s.IntN(3) > 0 {
		n = s.IntN(1 << s.IntN(10))
		near = 12 * (1 + n)
	}
	for ; n >= 0; n-- {
		row := s.d.genRow(s.Case)
		if s.IntN(near) == 0 {
			row = s.nearRow()
		}
		if s.many && near > 12 {
			// Spread the keys; repeated ones end the insert.
			for i, f := range s.d.flds {
				switch v := row[i].(type) {
				case types.Int64Value:
					row[i] = types.Int64Value(int64(s.Uint64()) >> (64 - f.base.Bits()))
				case types.StringValue:
					if x := fmt.Sprintf("%x%s", s.Uint32(), string(v)); len(x) <= int(f.ct.Size) {
						row[i] = types.StringValue(x)
					}
				}
			}
		}
		rows = append(rows, row)
		structs = append(structs, s.d.makeStruct(s.Case, row))
	}
	want := true
	for _, r := range rows {
		if s.m.find(r) >= 0 {
			want = false
			break
		}
		s.m.rows = append(s.m.rows, copyRow(r))
		s.m.ids = append(s.m.ids, 0)
	}
	s.Logf("insert %d: %s", len(rows), showRows(rows))
	ctx := s.late()
	err := engine.TypedTableInsert(ctx, s.tx, s.ti, structs...)
	if s.gaveUp(ctx, err) {
		return
	}
	if (err == nil) != want {
		s.Failf("insert %s: error %v; expected success %t", showRows(rows), err, want)
	}
	for i, st := range structs {
		if got := s.d.rowOf(st); !identicalRows(got, rows[i]) {
			s.Failf("insert changed its struct from %s to %s", showRow(rows[i]), showRow(got))
		}
		s.d.scribble(st)
	}
	s.Count("structs inserted", len(rows))
}

func (s *typedSim) lookup() {
	row := s.nearRow()
	st := s.d.makeStruct(s.Case, row)
	s.Logf("lookup %s", showRow(row))
	// What the fields point at might be someone else's, too.
	shared := reflect.New(reflect.TypeOf(st).Elem())
	shared.Elem().Set(reflect.ValueOf(st).Elem())
	ctx := s.late()
	err := engine.TypedTableLookup(ctx, s.tx, s.ti, st)
	if s.gaveUp(ctx, err) {
		return
	}
	if got := s.d.rowOf(shared.Interface()); !identicalRows(got, row) {
		s.Failf("lookup of %s changes what the fields pointed at to %s", showRow(row), showRow(got))
	}
	i := s.m.find(row)
	if i < 0 {
		if err != io.EOF {
			s.Failf("lookup of %s, which is not there: %v; expected EOF", showRow(row), err)
		}
		s.Count("lookups missed", 1)
		return
	}
	if err != nil {
		s.Failf("lookup of %s: %s", showRow(row), err)
	}
	if got := s.d.rowOf(st); !identicalRows(got, s.m.rows[i]) {
		s.Failf("lookup of %s found %s; expected %s", showRow(row), showRow(got), showRow(s.m.rows[i]))
	}
	s.d.scribble(st)
	s.Count("lookups found", 1)
}

// rng makes a range and the rows in it.
func (s *typedSim) rng() (minSt, maxSt any, want []types.Row) {
	var lo, hi types.Row
	if s.IntN(2) == 0 {
		lo = s.nearRow()
		minSt = s.d.makeStruct(s.Case, lo)
	}
	if s.IntN(2) == 0 {
		hi = s.nearRow()
		maxSt = s.d.makeStruct(s.Case, hi)
	}
	for _, r := range s.m.sorted() {
		if (lo == nil || refKeyCmp(s.d.key, lo, r) <= 0) && (hi == nil || refKeyCmp(s.d.key, r, hi) <= 0) {
			want = append(want, r)
		}
	}
	s.Logf("range %s to %s", showRow(lo), showRow(hi))
	return
}

var errTyped = errors.New("callback says no")

// outcome picks the visit at which the callback ends the walk, and how.
func (s *typedSim) outcome(n int) (int, error) {
	switch s.IntN(4) {
	case 0:
		return s.IntN(n + 1), []error{errTyped, errTyped, fmt.Errorf("cannot read: %s", io.EOF), io.ErrUnexpectedEOF}[s.IntN(4)]
	case 1:
		return s.IntN(n + 1), io.EOF
	}
	return -1, nil
}

// walk checks the visits of a walk: do is called for each row after it is checked.
func (s *typedSim) walk(what string, want []types.Row, stopAt int, stopErr error,
	run func(fn func(row types.Row) error) error, do func(row types.Row)) error {

	visits := 0
	s.ctx, s.cancel = context.WithCancel(bg)
	defer s.cancel()
	lateAt := -2 // the visit in which the context is cancelled, or -1 before all
	if s.lates && s.IntN(15) == 0 {
		lateAt = s.IntN(len(want)+1) - 1
	}
	if lateAt == -1 {
		s.cancel()
	}
	err := run(func(row types.Row) error {
		if visits >= len(want) {
			s.Failf("%s visits %s after all of %s", what, showRow(row), showRows(want))
		}
		if stopAt >= 0 && visits > stopAt {
			s.Failf("%s goes on after its callback returned %v", what, stopErr)
		}
		st := s.d.makeStruct(s.Case, s.d.genRow(s.Case))
		s.ti.RowToStruct(row, st)
		if !identicalRows(row, want[visits]) || !identicalRows(s.d.rowOf(st), want[visits]) {
			s.Failf("%s visits row %s as struct %s; expected %s", what, showRow(row), showRow(s.d.rowOf(st)),
				showRow(want[visits]))
		}
		s.d.scribble(st)
		visits++
		if visits-1 == stopAt {
			if s.IntN(2) == 0 {
				s.cancel() // who asked for the walk does not want it any more
			}
			return stopErr
		}
		if visits-1 == lateAt {
			s.cancel()
		}
		do(row)
		return nil
	})
	s.Count("rows visited", visits)
	if lateAt != -2 && s.gaveUp(s.ctx, err) {
		return err
	}
	if stopAt >= 0 && visits <= stopAt && err != nil {
		return err
	}
	if stopAt >= 0 && stopAt < len(want) {
		if visits != stopAt+1 {
			s.Failf("%s visited %d rows; expected %d", what, visits, stopAt+1)
		}
		if stopErr == io.EOF && err != nil {
			s.Failf("%s returned %s after its callback returned EOF", what, err)
		}
		if stopErr != io.EOF && !errors.Is(err, stopErr) {
			s.Failf("%s returned %v after its callback returned %v", what, err, stopErr)
		}
		s.Count("walks ended by the callback", 1)
		return nil
	}
	if err == nil && visits != len(want) {
		s.Failf("%s visited %d rows of %s", what, visits, showRows(want))
	}
	return err
}

func (s *typedSim) sel() {
	lo, hi, want := s.rng()
	at, serr := s.outcome(len(want))
	left := 12 // inner operations: each may be large itself
	err := s.walk("select", want, at, serr, func(fn func(row types.Row) error) error {
		return engine.TypedTableSelect(s.ctx, s.tx, s.ti, lo, hi, fn)
	}, func(row types.Row) {
		if s.broken || left == 0 || s.IntN(3) > 0 {
			return
		}
		left--
		if s.IntN(2) == 0 {
			s.insert() // is not seen by the walk
		} else {
			s.lookup()
		}
	})
	if err != nil && !s.broken {
		s.Failf("select: %s", err)
	}
}

// updType makes a struct type of some of the fields.
func (s *typedSim) updType() ([]int, reflect.Type) {
	var cols []int
	for i, f := range s.d.flds {
		if s.IntN(3) == 0 && (!f.key || s.IntN(3) == 0) {
			cols = append(cols, i)
		}
	}
	s.Shuffle(len(cols), func(i, j int) { cols[i], cols[j] = cols[j], cols[i] })
	var sf []reflect.StructField
	for _, c := range cols {
		sf = append(sf, reflect.StructField{Name: s.d.flds[c].name, Type: s.d.flds[c].typ})
	}
	return cols, reflect.StructOf(sf)
}

func (s *typedSim) update() {
	lo, hi, want := s.rng()
	at, serr := s.outcome(len(want))
	cols, typ := s.updType()
	collided := false
	var upd any
	err := s.walk("update", want, at, serr, func(fn func(row types.Row) error) error {
		return engine.TypedTableUpdate(s.ctx, s.tx, s.ti, lo, hi, func(row types.Row) (any, error) {
			if collided {
				s.Failf("update goes on after a row could not be updated")
			}
			upd = nil
			err := fn(row)
			return upd, err
		})
	}, func(row types.Row) {
		if s.IntN(4) == 0 {
			return
		}
		i := s.m.find(row)
		nr := copyRow(s.m.rows[i])
		p := reflect.New(typ)
		for j, c := range cols {
			nr[c] = genFieldValue(s.Case, s.d.flds[c])
			setField(s.Case, s.d.flds[c], p.Elem().Field(j), nr[c])
		}
		s.Logf("update %s to %s", showRow(s.m.rows[i]), showRow(nr))
		if o := s.m.find(nr); o >= 0 && o != i {
			collided = true
		} else {
			s.m.rows[i] = nr
			s.Count("rows updated", 1)
		}
		upd = p.Interface()
	})
	if s.broken {
		return
	}
	if collided && err == nil {
		s.Failf("update to a key of another row succeeded")
	}
	if !collided && err != nil {
		s.Failf("update: %s", err)
	}
	if collided {
		s.Count("updates that collided", 1)
	}
}

func (s *typedSim) delete() {
	lo, hi, want := s.rng()
	at, serr := s.outcome(len(want))
	del := false
	err := s.walk("delete", want, at, serr, func(fn func(row types.Row) error) error {
		return engine.TypedTableDelete(s.ctx, s.tx, s.ti, lo, hi, func(row types.Row) (bool, error) {
			del = false
			err := fn(row)
			if err != nil {
				return s.IntN(2) == 0, err
			}
			return del, nil
		})
	}, func(row types.Row) {
		if s.IntN(2) == 0 {
			return
		}
		s.Logf("delete %s", showRow(row))
		s.m.remove(s.m.find(row))
		s.Count("rows deleted", 1)
		del = true
	})
	if err != nil && !s.broken {
		s.Failf("delete: %s", err)
	}
}

func (s *typedSim) checkAll() {
	var got []types.Row
	if err := engine.TypedTableSelect(bg, s.tx, s.ti, nil, nil, func(row types.Row) error {
		got = append(got, copyRow(row))
		return nil
	}); err != nil {
		s.Failf("select of everything: %s", err)
	}
	want := s.m.sorted()
	same := len(got) == len(want)
	for i := 0; same && i < len(got); i++ {
		same = identicalRows(got[i], want[i])
	}
	if !same {
		s.Failf("the table holds %s; expected %s", showRows(got), showRows(want))
	}
	for _, r := range want {
		p := s.d.genRow(s.Case)
		for i, f := range s.d.flds {
			if f.key {
				p[i] = r[i]
			}
		}
		st := s.d.makeStruct(s.Case, p)
		if err := engine.TypedTableLookup(bg, s.tx, s.ti, st); err != nil {
			s.Failf("lookup of %s: %s", showRow(r), err)
		}
		if g := s.d.rowOf(st); !identicalRows(g, r) {
			s.Failf("lookup of %s found %s", showRow(r), showRow(g))
		}
	}
}
