package main

// A simulator of store histories: it drives a real storage.Store and an executable model (tables
// as lists of rows with the reference key order) in lock step and compares everything observable
// after each step.

import (
	"context"
	"fmt"
	"io"
	"math"
	"slices"
	"sort"
	"strings"

	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/storage/basic"
	"github.com/leftmike/maho/types"
)

var bg = context.Background()

// gone is a context that was cancelled.
var gone = func() context.Context {
	ctx, cancel := context.WithCancel(bg)
	cancel()
	return ctx
}()

type mtable struct {
	tid      storage.TableId
	tn       types.TableName
	colNames []types.Identifier
	colTypes []types.ColumnType
	key      []types.ColumnKey
	rows     []types.Row // never changed in place
	ids      []int64     // of the rows, in parallel
	lastID   int64
}

func (mt *mtable) clone() *mtable {
	nmt := *mt
	nmt.rows = append([]types.Row(nil), mt.rows...)
	nmt.ids = append([]int64(nil), mt.ids...)
	return &nmt
}

func (mt *mtable) find(row types.Row) int {
	for i, r := range mt.rows {
		if refKeyCmp(mt.key, r, row) == 0 {
			return i
		}
	}
	return -1
}

func (mt *mtable) sorted() []types.Row {
	var rs []types.Row
	for _, i := range mt.order() {
		rs = append(rs, mt.rows[i])
	}
	return rs
}

// order gives the positions of the rows in key order.
func (mt *mtable) order() []int {
	is := make([]int, len(mt.rows))
	for i := range is {
		is[i] = i
	}
	sort.SliceStable(is, func(a, b int) bool { return refKeyCmp(mt.key, mt.rows[is[a]], mt.rows[is[b]]) < 0 })
	return is
}

func (mt *mtable) insert(row types.Row) (types.Row, bool) {
	nr, ok := refConvertRow(mt.colTypes, row)
	if !ok || mt.find(nr) >= 0 {
		return nil, false
	}
	nr = copyRow(nr)
	mt.rows = append(mt.rows, nr)
	mt.lastID += 1
	mt.ids = append(mt.ids, mt.lastID)
	return nr, true
}

// update changes row i of the model; it tells what the row became.
func (mt *mtable) update(i int, cols []types.ColumnNum, vals []types.Value) bool {
	nr := copyRow(mt.rows[i])
	for j, c := range cols {
		v, ok := refConvert(mt.colTypes[c], vals[j])
		if !ok {
			return false
		}
		nr[c] = copyValue(v)
	}
	if f := mt.find(nr); f >= 0 && f != i {
		return false
	}
	mt.rows[i] = nr
	return true
}

func (mt *mtable) remove(i int) {
	mt.rows = append(append([]types.Row(nil), mt.rows[:i]...), mt.rows[i+1:]...)
	mt.ids = append(append([]int64(nil), mt.ids[:i]...), mt.ids[i+1:]...)
}

type mstate struct {
	tables map[storage.TableId]*mtable
}

func (ms *mstate) clone() *mstate {
	n := &mstate{tables: map[storage.TableId]*mtable{}}
	for tid, mt := range ms.tables {
		n.tables[tid] = mt.clone()
	}
	return n
}

func (ms *mstate) tids() []storage.TableId {
	var tids []storage.TableId
	for tid := range ms.tables {
		tids = append(tids, tid)
	}
	slices.Sort(tids)
	return tids
}

type oscan struct {
	mt     *mtable // definition only
	tid    storage.TableId
	rows   storage.Rows
	want   []types.Row // full rows, in order
	ids    []int64
	cols   []types.ColumnNum
	next   int
	closed bool
}

// mref is a row reference the simulator holds on to.
type mref struct {
	tid storage.TableId
	ref storage.RowRef
	row types.Row // the row it was taken from
	id  int64
}

// simCfg weights the operations of a history.
type simCfg struct {
	tables    int // about how many tables
	txns      int
	ops       int // per transaction
	maxRows   int
	scans     int // kept open at a time
	wCreate   int
	wDrop     int
	wOpen     int
	wInsert   int
	wScan     int // a scan read to its end
	wWalk     int // a scan with updates and deletes of the current row
	wOpenScan int // open, step or close a scan kept open across operations
	wRef      int // use a reference taken earlier
	wMisuse   int
	wCheck    int
	badPct    int // share of offered values that do not fit
	dupPct    int // share of rows offered with an existing key
	rollback  int // percent
	rowidPct  int
	genDef    func(s *storeSim) ([]types.Identifier, []types.ColumnType, []types.ColumnKey)
	bigBatch  bool
	tidPool   []storage.TableId
}

func defaultCfg() simCfg {
	return simCfg{
		tables: 3, txns: 6, ops: 25, maxRows: 60, scans: 4,
		wCreate: 4, wDrop: 1, wOpen: 3, wInsert: 20, wScan: 10, wWalk: 10, wOpenScan: 10, wRef: 5,
		wMisuse: 1, wCheck: 4, badPct: 4, dupPct: 12, rollback: 30, rowidPct: 15,
		tidPool: []storage.TableId{16, 17, 18, 0x100, 0x110, 0x1000, 0x10000, 0x10010, 0x1000010,
			0x7FFFFFFF, 0x80000000, 0x80000010, 0xFFFFFFFF},
	}
}

type storeSim struct {
	*Case
	cfg       simCfg
	st        storage.Store
	committed *mstate
	uniq      int64

	// In a transaction:
	tx      storage.Transaction
	m       *mstate
	handles map[storage.TableId]storage.Table
	scans   []*oscan
	refs    []mref
}

func newStoreSim(t *Case, cfg simCfg) *storeSim {
	st, err := basic.NewStore("")
	if err != nil {
		t.Failf("NewStore: %s", err)
	}
	return &storeSim{Case: t, cfg: cfg, st: t.storeOf(st), committed: &mstate{tables: map[storage.TableId]*mtable{}}}
}

func (s *storeSim) pct(n int) bool { return s.IntN(100) < n }

var colNamePool = []string{"a", "b", "c", "id", "val", "Name", "select", "int", "path", "key", "count",
	"name", "columns", "x y", "été", "primary", "zz"}

func (s *storeSim) genNames(n int) []types.Identifier {
	var ids []types.Identifier
	for len(ids) < n {
		var id types.Identifier
		switch s.IntN(4) {
		case 0:
			id = types.ID(colNamePool[s.IntN(len(colNamePool))], s.IntN(2) == 0)
		default:
			id = types.ID(fmt.Sprintf("c%d", len(ids)+s.IntN(3)*20), true)
		}
		if id != types.ROWID && !slices.Contains(ids, id) {
			ids = append(ids, id)
		}
	}
	return ids
}

func (s *storeSim) genColType() types.ColumnType {
	ct := genColType(s.Case)
	return ct
}

func genColType(t *Case) types.ColumnType {
	var ct types.ColumnType
	switch t.IntN(10) {
	case 0:
		ct = types.ColumnType{Type: types.BoolType}
	case 1, 2, 3:
		ct = types.ColumnType{Type: types.StringType, Size: []uint32{1, 3, 8, 128, 4096, types.MaxColumnSize}[t.IntN(6)],
			Fixed: t.IntN(4) == 0}
	case 4, 5:
		ct = types.ColumnType{Type: types.BytesType, Size: []uint32{1, 4, 64, types.MaxColumnSize}[t.IntN(4)],
			Fixed: t.IntN(4) == 0}
	case 6:
		ct = types.ColumnType{Type: types.Float64Type, Size: []uint32{0, 8}[t.IntN(2)]}
	default:
		ct = types.ColumnType{Type: types.Int64Type, Size: []uint32{2, 4, 8, 8}[t.IntN(4)]}
	}
	ct.NotNull = t.IntN(3) == 0
	return ct
}

func genKey(t *Case, ncols int) []types.ColumnKey {
	n := 1
	for n < ncols && n < 4 && t.IntN(2) == 0 {
		n += 1
	}
	perm := t.Perm(ncols)
	var key []types.ColumnKey
	for _, c := range perm[:n] {
		key = append(key, types.MakeColumnKey(types.ColumnNum(c), t.IntN(2) == 0))
	}
	return key
}

func (s *storeSim) genDef() ([]types.Identifier, []types.ColumnType, []types.ColumnKey) {
	if s.cfg.genDef != nil {
		return s.cfg.genDef(s)
	}
	n := 1 + s.IntN(6)
	names := s.genNames(n)
	var cts []types.ColumnType
	for i := 0; i < n; i++ {
		cts = append(cts, s.genColType())
	}
	if s.pct(s.cfg.rowidPct) {
		return s.st.SetupColumns(names, cts, nil)
	}
	return names, cts, genKey(s.Case, n)
}

func (s *storeSim) genTableName() types.TableName {
	p := []string{"a", "t", "tbl", "maho", "public", "int", "Table", "x.y"}
	id := func() types.Identifier { return types.ID(p[s.IntN(len(p))], s.IntN(3) > 0) }
	return types.TableName{Database: id(), Schema: id(), Table: id()}
}

var (
	intPool = []int64{0, 1, -1, 2, 3, 7, 127, 128, 255, 256, -128, -129, -255, -256, 32767, -32768, 32768,
		65535, 65536, math.MaxInt32, math.MinInt32, math.MaxInt32 + 1, 1 << 40, -(1 << 40), math.MaxInt64,
		math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1, 1 << 53, 1<<53 + 1}
	floatPool = []float64{0, math.Copysign(0, -1), 1, -1, 0.5, -0.5, 1.5, 2, -2, 1e-300, -1e-300,
		5e-324, -5e-324, 1e300, -1e300, math.Inf(1), math.Inf(-1), math.NaN(), 255, 256, -256,
		math.MaxFloat64, -math.MaxFloat64, 1 << 53}
	strPool = []string{"", "a", "b", "aa", "ab", "A", "\x00", "\x00\x00", "\x01", "\x00\x01", "\x01\x00", "\x02",
		"a\x00", "a\x00b", "a\x01", "a\x01\x01", "ab\x00", "\xff", "\xff\xff", "\xfe", "\xff\x00", "z", "zz", "é",
		"日本", "\x7f", "\x80", "\xff\xff\xff", "\x00a", "\x01a"}
)

// genTyped makes a value of a value type.
func genTyped(t *Case, vt types.ValueType) types.Value {
	switch vt {
	case types.BoolType:
		return types.BoolValue(t.IntN(2) == 0)
	case types.StringType:
		return types.StringValue(genStr(t))
	case types.BytesType:
		return types.BytesValue(genStr(t))
	case types.Float64Type:
		if t.IntN(3) == 0 {
			return types.Float64Value(t.NormFloat64() * math.Pow(10, float64(t.IntN(12)-4)))
		}
		return types.Float64Value(floatPool[t.IntN(len(floatPool))])
	default:
		switch t.IntN(4) {
		case 0:
			return types.Int64Value(intPool[t.IntN(len(intPool))])
		case 1:
			return types.Int64Value(t.IntN(2000) - 1000)
		default:
			return types.Int64Value(t.IntN(24) - 8)
		}
	}
}

func genStr(t *Case) string {
	if t.IntN(3) > 0 {
		return strPool[t.IntN(len(strPool))]
	}
	n := t.IntN(5)
	if t.IntN(10) == 0 {
		n = t.IntN(80)
	}
	if t.IntN(40) == 0 {
		return longStr(t)
	}
	b := make([]byte, n)
	for i := range b {
		if t.IntN(2) == 0 {
			b[i] = "\x00\x01\x02ab\xfe\xff"[t.IntN(7)]
		} else {
			b[i] = byte(t.IntN(256))
		}
	}
	return string(b)
}

// longStr is long text that is all alike but for a few places.
func longStr(t *Case) string {
	n := 16 << t.IntN(9)
	n += t.IntN(n)
	b := []byte(strings.Repeat([]string{"a", "b", "\x00", "\xff", "é", "ab"}[t.IntN(6)], n/2))
	for k := t.IntN(4); k > 0; k-- {
		b[t.IntN(len(b))] = byte(t.IntN(256))
	}
	return string(b)
}

// genFit makes a value that fits the column.
func genFit(t *Case, ct types.ColumnType) types.Value {
	if !ct.NotNull && t.IntN(6) == 0 {
		return nil
	}
	for {
		v := genTyped(t, ct.Type)
		if fits(ct, v) {
			return v
		}
		switch x := v.(type) {
		case types.StringValue:
			v = x[:min(len(x), int(ct.Size))]
		case types.BytesValue:
			v = x[:min(len(x), int(ct.Size))]
		case types.Int64Value:
			v = types.Int64Value(int16(x))
		}
		if fits(ct, v) {
			return v
		}
	}
}

var textPool = []string{"t", " true\t", "no", "OFF", "1", "0", " 12 ", "-7", "+5", "1.5", "1e3", "abc", "", " ",
	"12x", "99999", "-99999", "9999999999", "9223372036854775807", "9223372036854775808", "off\n", "yes", "inf", "--1"}

// genOffer makes a value to offer to the column, which may be of any type and may not fit.
func genOffer(t *Case, ct types.ColumnType) types.Value {
	var v types.Value
	switch t.IntN(8) {
	case 0:
		v = nil
	case 1, 2:
		v = types.StringValue(textPool[t.IntN(len(textPool))])
	case 3:
		v = genTyped(t, ct.Type)
	case 4:
		// Around the size limit.
		n := 0
		if ct.Size < 10000 {
			n = int(ct.Size)
		}
		n += t.IntN(3) - 1
		if n < 0 {
			n = 0
		}
		if t.IntN(60) == 0 {
			n = []int{254, 255, 256, 300, 32768, 65535, 65536, 65537, 70000, 131072}[t.IntN(10)] + t.IntN(3)
		}
		s := strings.Repeat("x", n)
		if t.IntN(3) == 0 {
			// The size counts bytes, not characters.
			c := []string{"é", "名", "\xff", "𐍈"}[t.IntN(4)]
			s = strings.Repeat(c, n/len(c)+t.IntN(2)) + s[:n%len(c)]
		}
		if t.IntN(2) == 0 {
			v = types.StringValue(s)
		} else {
			v = types.BytesValue(s)
		}
	case 5:
		lim := []int64{math.MaxInt16, math.MinInt16, math.MaxInt32, math.MinInt32}
		i := lim[t.IntN(4)] + int64(t.IntN(3)-1)
		switch t.IntN(3) {
		case 0:
			v = types.Int64Value(i)
		case 1:
			v = types.Float64Value(i)
		default:
			v = types.StringValue(fmt.Sprint(i))
		}
	default:
		v = genTyped(t, types.ValueType(1+t.IntN(5)))
	}
	return v
}

func (s *storeSim) genValue(ct types.ColumnType) types.Value {
	if s.pct(s.cfg.badPct) {
		return genOffer(s.Case, ct)
	}
	if s.IntN(12) == 0 {
		// Another type which converts.
		v := genOffer(s.Case, ct)
		if _, ok := refConvert(ct, v); ok {
			return v
		}
	}
	return genFit(s.Case, ct)
}

func (s *storeSim) genRow(mt *mtable) types.Row {
	n := len(mt.colTypes)
	if s.IntN(25) == 0 {
		// A short row, as long as no key column or NOT NULL column is left out.
		k := n
		for k > 1 {
			c := types.ColumnNum(k - 1)
			if mt.colTypes[c].NotNull || types.ColumnKeyUpdated(mt.key, []types.ColumnNum{c}) {
				break
			}
			k -= 1
		}
		n = k
	}
	row := make(types.Row, n)
	for i := range row {
		row[i] = s.genValue(mt.colTypes[i])
	}
	if s.pct(s.cfg.badPct) && s.IntN(3) == 0 {
		row = append(row, types.Int64Value(1)) // maybe too long
	}
	if len(mt.rows) > 0 && s.pct(s.cfg.dupPct) {
		from := mt.rows[s.IntN(len(mt.rows))]
		for _, ck := range mt.key {
			if int(ck.Column()) < len(row) {
				row[ck.Column()] = copyValue(from[ck.Column()])
			}
		}
	} else if c, ok := s.uniqCol(mt); ok && int(c) < len(row) && s.pct(60) {
		s.uniq += 1
		row[c] = types.Int64Value(s.uniq)
	}
	return row
}

// uniqCol finds a 64-bit integer column to make rows unique with.
func (s *storeSim) uniqCol(mt *mtable) (types.ColumnNum, bool) {
	for i := len(mt.colTypes) - 1; i >= 0; i-- {
		ct := mt.colTypes[i]
		if ct.Type == types.Int64Type && ct.Size == 8 {
			return types.ColumnNum(i), true
		}
	}
	return 0, false
}

func copyDef(mt *mtable) ([]types.Identifier, []types.ColumnType, []types.ColumnKey) {
	return slices.Clone(mt.colNames), slices.Clone(mt.colTypes), slices.Clone(mt.key)
}

// begin starts a transaction.
func (s *storeSim) begin() {
	s.Logf("begin")
	s.tx = s.st.Begin()
	s.m = s.committed.clone()
	s.handles = map[storage.TableId]storage.Table{}
	s.scans = nil
	s.refs = nil
	s.Count("transactions", 1)
}

func (s *storeSim) closeScans() {
	for _, sc := range s.scans {
		s.closeScan(sc)
	}
	s.scans = nil
}

func (s *storeSim) closeScan(sc *oscan) {
	sc.closed = true
	if s.IntN(8) == 0 {
		// Who closes a scan may have been told to stop; the scan is closed all the same, or else it can be closed again.
		if err := sc.rows.Close(gone); err == nil {
			return
		}
	}
	if err := sc.rows.Close(bg); err != nil {
		s.Failf("close scan of table %d: unexpected error: %s", sc.tid, err)
	}
}

func (s *storeSim) commit() {
	s.closeScans()
	s.Logf("commit")
	if s.IntN(12) == 0 {
		s.Logf("with a cancelled context")
		s.Count("commits with a cancelled context", 1)
		if err := s.tx.Commit(gone); err != nil {
			// Not committed; it might have to be ended.
			Try(func() { s.tx.Rollback() })
			return
		}
		s.committed = s.m
		return
	}
	if err := s.tx.Commit(bg); err != nil {
		s.Failf("commit: unexpected error: %s", err)
	}
	s.committed = s.m
	s.Count("commits", 1)
}

func (s *storeSim) rollback() {
	s.closeScans()
	s.Logf("rollback")
	if err := s.tx.Rollback(); err != nil {
		s.Failf("rollback: unexpected error: %s", err)
	}
	s.Count("rollbacks", 1)
}

// handle opens the table, or uses the handle opened earlier in the transaction.
func (s *storeSim) handle(tid storage.TableId) storage.Table {
	if h, ok := s.handles[tid]; ok && s.IntN(4) > 0 {
		return h
	}
	mt := s.m.tables[tid]
	names, cts, key := copyDef(mt)
	var h storage.Table
	var err error
	if p := Try(func() { h, err = s.tx.OpenTable(bg, tid, mt.tn, names, cts, key) }); p != nil {
		s.Failf("open table %d %s, which exists with this definition, panicked: %v", tid, mt.tn, p)
	} else if err != nil {
		s.Failf("open table %d %s, which exists with this definition, failed: %s", tid, mt.tn, err)
	}
	s.checkMeta(h, mt)
	s.handles[tid] = h
	return h
}

func (s *storeSim) checkMeta(h storage.Table, mt *mtable) {
	if h.TID() != mt.tid {
		s.Failf("table %d: TID() is %d", mt.tid, h.TID())
	}
	if h.Name() != mt.tn {
		s.Failf("table %d: created as %v, name is %v", mt.tid, mt.tn, h.Name())
	}
	if h.Version() != 1 {
		s.Failf("table %d: version is %d, not 1", mt.tid, h.Version())
	}
	if !slices.Equal(h.ColumnNames(), mt.colNames) {
		s.Failf("table %d: created with columns %v, has %v", mt.tid, mt.colNames, h.ColumnNames())
	}
	if !slices.Equal(h.ColumnTypes(), mt.colTypes) {
		s.Failf("table %d: created with types %v, has %v", mt.tid, mt.colTypes, h.ColumnTypes())
	}
	if !slices.Equal(h.Key(), mt.key) {
		s.Failf("table %d: created with key %v, has %v", mt.tid, mt.key, h.Key())
	}
	s.Count("definitions checked", 1)
}

// readAll reads all rows of a scan.
func readAll(t *Case, rows storage.Rows, limit int) []types.Row {
	var got []types.Row
	for {
		r, err := rows.Next(bg)
		if err == io.EOF {
			break
		} else if err != nil {
			t.Failf("next: unexpected error: %s", err)
		}
		got = append(got, copyRow(r))
		if len(got) > limit {
			t.Failf("scan returns more rows than expected (%d): %s", limit, showRows(got))
		}
	}
	if _, err := rows.Next(bg); err != io.EOF {
		t.Failf("next after the end: %v; expected end of data", err)
	}
	return got
}

func (s *storeSim) compareRows(what string, got, want []types.Row) {
	if len(got) != len(want) {
		s.Failf("%s: got %d rows, want %d\n got %s\nwant %s", what, len(got), len(want), showRows(got),
			showRows(want))
	}
	for i := range got {
		if !identicalRows(got[i], want[i]) {
			s.Failf("%s: row %d is %s, want %s\n got %s\nwant %s", what, i, showRow(got[i]), showRow(want[i]),
				showRows(got), showRows(want))
		}
	}
	s.Count("rows compared", len(want))
}

// checkTable compares a full scan of the table with the model.
func (s *storeSim) checkTable(tid storage.TableId) {
	mt := s.m.tables[tid]
	h := s.handle(tid)
	rows, err := h.Rows(bg, nil, nil, nil, nil)
	if err != nil {
		s.Failf("scan of table %d: unexpected error: %s", tid, err)
	}
	want := mt.sorted()
	got := readAll(s.Case, rows, len(want)+50)
	if err := rows.Close(bg); err != nil {
		s.Failf("close: %s", err)
	}
	s.compareRows(fmt.Sprintf("table %d key %v", tid, mt.key), got, want)
	for _, r := range got {
		for i, v := range r {
			if v != nil && !fits(mt.colTypes[i], v) {
				s.Failf("table %d: stored value %s does not fit its column %v", tid, show(v), mt.colTypes[i])
			}
		}
	}
	s.Count("table states compared", 1)
}

// checkAll compares the whole store with the model.
func (s *storeSim) checkAll() {
	for _, tid := range s.m.tids() {
		s.checkTable(tid)
	}
	for _, tid := range s.cfg.tidPool {
		if _, ok := s.m.tables[tid]; !ok && s.IntN(4) == 0 {
			s.mustNotOpen(tid)
		}
	}
}

func (s *storeSim) mustNotOpen(tid storage.TableId) {
	names, cts, key := s.someDef()
	tn := s.genTableName()
	if mt, ok := s.committed.tables[tid]; ok {
		// The definition it had.
		names, cts, key = copyDef(mt)
		tn = mt.tn
	}
	var err error
	p := Try(func() { _, err = s.tx.OpenTable(bg, tid, tn, names, cts, key) })
	if p == nil && err == nil {
		s.Failf("table %d, which does not exist, was opened", tid)
	}
	s.Count("missing tables refused", 1)
}

func (s *storeSim) someDef() ([]types.Identifier, []types.ColumnType, []types.ColumnKey) {
	return []types.Identifier{types.ID("c1", true), types.ID("c2", true)},
		[]types.ColumnType{types.Int64ColType, types.StringColType},
		[]types.ColumnKey{types.MakeColumnKey(0, false)}
}

func (s *storeSim) create() {
	tid := s.cfg.tidPool[s.IntN(len(s.cfg.tidPool))]
	if _, ok := s.m.tables[tid]; ok {
		return
	}
	names, cts, key := s.genDef()
	mt := &mtable{tid: tid, tn: s.genTableName(), colNames: names, colTypes: cts, key: key}
	s.Logf("create table %d %s columns %v types %v key %v", tid, mt.tn, names, cts, key)
	n, c, k := copyDef(mt)
	var err error
	if p := Try(func() { err = s.tx.CreateTable(bg, tid, mt.tn, n, c, k) }); p != nil {
		s.Failf("create table %d: panic: %v", tid, p)
	} else if err != nil {
		s.Failf("create table %d: unexpected error: %s", tid, err)
	}
	s.m.tables[tid] = mt
	delete(s.handles, tid)
	s.Count("tables created", 1)
	s.checkTable(tid)
}

func (s *storeSim) drop() {
	tid, ok := s.pick()
	if !ok {
		return
	}
	for i := len(s.scans) - 1; i >= 0; i-- {
		if s.scans[i].tid == tid {
			s.closeScan(s.scans[i])
			s.scans = slices.Delete(s.scans, i, i+1)
		}
	}
	s.refs = slices.DeleteFunc(s.refs, func(r mref) bool { return r.tid == tid })
	s.Logf("drop table %d", tid)
	if err := s.tx.DropTable(bg, tid); err != nil {
		s.Failf("drop table %d: unexpected error: %s", tid, err)
	}
	mt := s.m.tables[tid]
	delete(s.m.tables, tid)
	delete(s.handles, tid)
	s.Count("tables dropped", 1)
	s.mustNotOpen(tid)
	if s.IntN(2) == 0 {
		// Create it again, often under the same definition: it must be empty.
		nmt := &mtable{tid: tid, tn: mt.tn, colNames: mt.colNames, colTypes: mt.colTypes, key: mt.key}
		s.Logf("create table %d again", tid)
		n, c, k := copyDef(nmt)
		if err := s.tx.CreateTable(bg, tid, nmt.tn, n, c, k); err != nil {
			s.Failf("create table %d again: unexpected error: %s", tid, err)
		}
		s.m.tables[tid] = nmt
		s.checkTable(tid)
	}
}

func (s *storeSim) pick() (storage.TableId, bool) {
	tids := s.m.tids()
	if len(tids) == 0 {
		return 0, false
	}
	return tids[s.IntN(len(tids))], true
}

// openWrong opens a table under a definition which differs in one place.
func (s *storeSim) openWrong() {
	tid, ok := s.pick()
	if !ok {
		return
	}
	mt := s.m.tables[tid]
	tn := mt.tn
	names, cts, key := copyDef(mt)
	other := types.ID("something_else", true)
	what := ""
	switch s.IntN(10) {
	case 0:
		what, tn.Table = "table name", other
	case 1:
		what, tn.Schema = "schema name", other
	case 2:
		what, tn.Database = "database name", other
	case 3:
		what, names[s.IntN(len(names))] = "column name", other
	case 4:
		i := s.IntN(len(cts))
		what, cts[i].NotNull = "not null", !cts[i].NotNull
	case 5:
		i := s.IntN(len(cts))
		what, cts[i].Size = "column size", cts[i].Size^4
	case 6:
		i := s.IntN(len(cts))
		what, cts[i].Fixed = "fixed", !cts[i].Fixed
	case 7:
		i := s.IntN(len(key))
		what, key[i] = "key direction", -key[i]
	case 8:
		what = "number of columns"
		names = append(names, other)
		cts = append(cts, types.Int64ColType)
	case 9:
		if len(key) > 1 {
			what = "key order"
			key[0], key[1] = key[1], key[0]
		} else {
			what = "key length"
			key = append(key, key[0])
		}
	}
	s.Logf("open table %d with the wrong %s", tid, what)
	var err error
	p := Try(func() { _, err = s.tx.OpenTable(bg, tid, tn, names, cts, key) })
	if p == nil && err == nil {
		s.Failf("table %d was opened under a definition with a different %s", tid, what)
	}
	s.Count("wrong definitions refused", 1)
}

func (s *storeSim) insert() {
	tid, ok := s.pick()
	if !ok {
		return
	}
	mt := s.m.tables[tid]
	if len(mt.rows) >= s.cfg.maxRows {
		return
	}
	h := s.handle(tid)
	n := 1
	if s.IntN(3) == 0 {
		n = s.IntN(5)
	}
	if s.cfg.bigBatch && s.IntN(3) == 0 {
		n = 5 + s.IntN(40)
	}
	var rows []types.Row
	want := true
	tmp := mt.clone()
	for i := 0; i < n; i++ {
		row := s.genRow(tmp)
		rows = append(rows, row)
		if want {
			if _, ok := tmp.insert(row); !ok {
				want = false
			}
		}
	}
	s.Logf("insert table %d %s; expected to succeed: %v", tid, showRows(rows), want)
	s.doInsert(h, tid, rows, want)
	s.m.tables[tid] = tmp
	if !want {
		s.Count("inserts refused", 1)
		s.checkTable(tid)
	} else {
		s.Count("rows inserted", n)
	}
}

func (s *storeSim) doInsert(h storage.Table, tid storage.TableId, rows []types.Row, want bool) {
	var err error
	arg := make([]types.Row, len(rows))
	for i, r := range rows {
		arg[i] = copyRow(r)
	}
	if p := Try(func() { err = h.Insert(bg, arg) }); p != nil {
		s.Failf("insert into table %d of %s: panic: %v", tid, showRows(rows), p)
	}
	if want && err != nil {
		s.Failf("insert into table %d of %s: unexpected error: %s", tid, showRows(rows), err)
	} else if !want && err == nil {
		s.Failf("insert into table %d of %s succeeded; expected an error (table %s)", tid, showRows(rows),
			showRows(s.m.tables[tid].sorted()))
	}
	for i := range rows {
		if !identicalRows(arg[i], rows[i]) {
			s.Failf("insert changed the row it was given: %s to %s", showRow(rows[i]), showRow(arg[i]))
		}
	}
}

// scanArgs makes the arguments of a scan and the rows it must return (all columns).
func (s *storeSim) scanArgs(mt *mtable) (cols []types.ColumnNum, minRow, maxRow types.Row,
	pred storage.Predicate, want []types.Row, ids []int64, what string) {

	if s.IntN(3) == 0 {
		cols = []types.ColumnNum{}
		for n := s.IntN(len(mt.colTypes) + 2); n > 0; n-- {
			cols = append(cols, types.ColumnNum(s.IntN(len(mt.colTypes))))
		}
	}
	bound := func() types.Row {
		row := make(types.Row, len(mt.colTypes))
		var from types.Row
		if len(mt.rows) > 0 && s.IntN(4) > 0 {
			from = mt.rows[s.IntN(len(mt.rows))]
		}
		for i := range row {
			if from != nil && s.IntN(8) > 0 {
				row[i] = copyValue(from[i])
			} else {
				ct := mt.colTypes[i]
				ct.NotNull = false
				row[i] = genFit(s.Case, ct)
			}
			if !types.ColumnKeyUpdated(mt.key, []types.ColumnNum{types.ColumnNum(i)}) && s.IntN(2) == 0 {
				row[i] = nil
			}
		}
		return row
	}
	if s.IntN(3) == 0 {
		minRow = bound()
	}
	if s.IntN(3) == 0 {
		maxRow = bound()
	}
	if minRow != nil && maxRow != nil && s.IntN(6) > 0 && refKeyCmp(mt.key, minRow, maxRow) > 0 {
		minRow, maxRow = maxRow, minRow
	}
	var predCol types.ColumnNum
	var fn func(v types.Value) bool
	if s.IntN(3) == 0 {
		predCol = types.ColumnNum(s.IntN(len(mt.colTypes)))
		pred, fn = genPred(s.Case, predCol, mt)
	}
	for _, i := range mt.order() {
		r := mt.rows[i]
		if minRow != nil && refKeyCmp(mt.key, r, minRow) < 0 {
			continue
		}
		if maxRow != nil && refKeyCmp(mt.key, r, maxRow) > 0 {
			continue
		}
		if fn != nil && (r[predCol] == nil || !fn(r[predCol])) {
			continue
		}
		want = append(want, r)
		ids = append(ids, mt.ids[i])
	}
	what = fmt.Sprintf("scan of table %d key %v cols %v", mt.tid, mt.key, cols)
	if minRow != nil {
		what += " min " + showRow(minRow)
	}
	if maxRow != nil {
		what += " max " + showRow(maxRow)
	}
	if pred != nil {
		what += fmt.Sprintf(" predicate %s", pred)
	}
	return
}

func project(rows []types.Row, cols []types.ColumnNum) []types.Row {
	if cols == nil {
		return rows
	}
	out := make([]types.Row, len(rows))
	for i, r := range rows {
		nr := make(types.Row, len(cols))
		for j, c := range cols {
			nr[j] = r[c]
		}
		out[i] = nr
	}
	return out
}

func projectRow(r types.Row, cols []types.ColumnNum) types.Row {
	return project([]types.Row{r}, cols)[0]
}

func (s *storeSim) openScan(mt *mtable) (*oscan, string) {
	h := s.handle(mt.tid)
	cols, minRow, maxRow, pred, want, ids, what := s.scanArgs(mt)
	var rows storage.Rows
	var err error
	if p := Try(func() { rows, err = h.Rows(bg, cols, minRow, maxRow, pred) }); p != nil {
		s.Failf("%s: panic: %v (table %s)", what, p, showRows(mt.sorted()))
	} else if err != nil {
		s.Failf("%s: unexpected error: %s", what, err)
	}
	s.Count("scans", 1)
	if len(want) > 0 && len(want) < len(mt.rows) {
		s.Count("scans returning some rows only", 1)
	}
	return &oscan{mt: mt, tid: mt.tid, rows: rows, want: want, ids: ids, cols: cols}, what
}

func (s *storeSim) scan() {
	tid, ok := s.pick()
	if !ok {
		return
	}
	sc, what := s.openScan(s.m.tables[tid])
	got := readAll(s.Case, sc.rows, len(sc.want)+50)
	s.Logf("%s: %d rows", what, len(got))
	s.closeScan(sc)
	s.compareRows(what, got, project(sc.want, sc.cols))
}

// step reads one row of an open scan; it returns false at the end.
func (s *storeSim) step(sc *oscan) bool {
	r, err := sc.rows.Next(bg)
	if sc.next == len(sc.want) {
		if err != io.EOF {
			s.Failf("open scan of table %d: got %s %v; expected end of data", sc.tid, showRow(r), err)
		}
		return false
	}
	if err != nil {
		s.Failf("open scan of table %d: row %d: unexpected error: %s; want %s", sc.tid, sc.next, err,
			showRow(sc.want[sc.next]))
	}
	want := projectRow(sc.want[sc.next], sc.cols)
	if !identicalRows(r, want) {
		s.Failf("open scan of table %d: row %d is %s, want %s, as it was when the scan was opened", sc.tid,
			sc.next, showRow(r), showRow(want))
	}
	sc.next += 1
	s.Count("rows compared", 1)
	return true
}

func (s *storeSim) current(sc *oscan) mref {
	ref, err := sc.rows.Current()
	if err != nil {
		s.Failf("current of table %d: unexpected error: %s", sc.tid, err)
	}
	return mref{tid: sc.tid, ref: ref, row: sc.want[sc.next-1], id: sc.ids[sc.next-1]}
}

// useRef updates or deletes the row of a reference, if it is still there.
func (s *storeSim) useRef(r mref) {
	mt := s.m.tables[r.tid]
	i := mt.find(r.row)
	if i < 0 || mt.ids[i] != r.id {
		return // gone, or its key was changed
	}
	if s.IntN(3) == 0 {
		s.Logf("delete table %d %s", r.tid, showRow(mt.rows[i]))
		var err error
		if p := Try(func() { err = r.ref.Delete(bg) }); p != nil {
			s.Failf("delete of %s: panic: %v", showRow(mt.rows[i]), p)
		} else if err != nil {
			s.Failf("delete of %s: unexpected error: %s", showRow(mt.rows[i]), err)
		}
		mt.remove(i)
		s.Count("rows deleted", 1)
		return
	}

	var cols []types.ColumnNum
	var vals []types.Value
	perm := s.Perm(len(mt.colTypes))
	for _, c := range perm[:1+s.IntN(len(perm))] {
		cols = append(cols, types.ColumnNum(c))
		vals = append(vals, s.genValue(mt.colTypes[c]))
	}
	switch s.IntN(30) {
	case 0:
		cols, vals = nil, nil
	case 1, 2, 3, 4:
		// Almost what is there.
		for j, c := range cols {
			v := mt.rows[i][c]
			if f, ok := v.(types.Float64Value); ok && s.IntN(2) == 0 {
				vals[j] = -f
				continue
			}
			if s.IntN(3) == 0 {
				v = near(s.Case, v)
			}
			if _, ok := refConvert(mt.colTypes[c], v); ok {
				vals[j] = copyValue(v)
			}
		}
	}
	if len(mt.rows) > 1 && s.pct(s.cfg.dupPct) {
		// The key of another row, or its own.
		from := mt.rows[s.IntN(len(mt.rows))]
		cols, vals = nil, nil
		for _, ck := range mt.key {
			cols = append(cols, ck.Column())
			vals = append(vals, copyValue(from[ck.Column()]))
		}
	}
	tmp := mt.clone()
	want := tmp.update(i, cols, vals)
	s.Logf("update table %d %s columns %v values %s; expected to succeed: %v", r.tid, showRow(mt.rows[i]), cols,
		showRow(vals), want)
	s.Count("rows updated", 1)
	before := mt.rows[i]
	var err error
	if p := Try(func() { err = r.ref.Update(bg, cols, copyRow(vals)) }); p != nil {
		s.Failf("update of %s columns %v to %s: panic: %v", showRow(before), cols, showRow(vals), p)
	}
	if want && err != nil {
		s.Failf("update of %s columns %v to %s: unexpected error: %s", showRow(before), cols, showRow(vals), err)
	} else if !want && err == nil {
		s.Failf("update of %s columns %v to %s succeeded; expected an error (table %s)", showRow(before), cols,
			showRow(vals), showRows(mt.sorted()))
	}
	if want {
		if refKeyCmp(mt.key, before, tmp.rows[i]) != 0 {
			s.Count("rows moved by a key change", 1)
		}
		s.m.tables[r.tid] = tmp
	} else {
		s.Count("updates refused", 1)
		s.checkTable(r.tid)
	}
}

// walk scans and changes rows on the way.
func (s *storeSim) walk() {
	tid, ok := s.pick()
	if !ok {
		return
	}
	sc, what := s.openScan(s.m.tables[tid])
	s.Logf("walk %s", what)
	pct := 10 + s.IntN(60)
	var held []mref // taken from rows the scan has passed
	for s.step(sc) {
		if s.IntN(8) == 0 {
			held = append(held, s.current(sc))
		} else if len(held) > 0 && s.IntN(8) == 0 {
			s.useRef(held[s.IntN(len(held))])
			s.Count("rows changed after the scan had passed them", 1)
		} else if s.pct(pct) {
			s.useRef(s.current(sc))
		} else if s.IntN(12) == 0 {
			s.insert()
		} else if s.IntN(12) == 0 && len(s.refs) < 20 {
			s.refs = append(s.refs, s.current(sc))
		}
		if s.IntN(60) == 0 {
			break
		}
	}
	s.closeScan(sc)
	s.checkTable(tid)
}

func (s *storeSim) openScanOp() {
	switch {
	case len(s.scans) == 0 || (len(s.scans) < s.cfg.scans && s.IntN(4) == 0):
		if tid, ok := s.pick(); ok {
			sc, what := s.openScan(s.m.tables[tid])
			s.Logf("open %s", what)
			s.scans = append(s.scans, sc)
			s.Count("scans kept open", 1)
		}
	case s.IntN(6) == 0:
		i := s.IntN(len(s.scans))
		for s.IntN(2) == 0 && s.step(s.scans[i]) {
		}
		s.Logf("close scan of table %d", s.scans[i].tid)
		s.closeScan(s.scans[i])
		s.scans = slices.Delete(s.scans, i, i+1)
	default:
		sc := s.scans[s.IntN(len(s.scans))]
		s.Logf("step scan of table %d", sc.tid)
		if s.step(sc) && s.IntN(2) == 0 {
			s.useRef(s.current(sc))
		}
	}
}

func (s *storeSim) op() {
	c := s.cfg
	ws := []int{c.wCreate, c.wDrop, c.wOpen, c.wInsert, c.wScan, c.wWalk, c.wOpenScan, c.wRef, c.wMisuse, c.wCheck}
	sum := 0
	for _, w := range ws {
		sum += w
	}
	n := s.IntN(sum)
	k := 0
	for n >= ws[k] {
		n -= ws[k]
		k += 1
	}
	if len(s.m.tables) < c.tables && s.IntN(2+len(s.m.tables)) == 0 {
		k = 0
	}
	switch k {
	case 0:
		if len(s.m.tables) < c.tables {
			s.create()
		}
	case 1:
		s.drop()
	case 2:
		if s.IntN(2) == 0 {
			s.openWrong()
		} else if tid, ok := s.pick(); ok {
			delete(s.handles, tid)
			s.handle(tid)
		}
	case 3:
		s.insert()
	case 4:
		s.scan()
	case 5:
		s.walk()
	case 6:
		s.openScanOp()
	case 7:
		if len(s.refs) > 0 {
			s.useRef(s.refs[s.IntN(len(s.refs))])
		}
	case 8:
		s.misuse()
	case 9:
		if s.IntN(8) == 0 {
			s.tx.NextStmt()
		}
		if tid, ok := s.pick(); ok {
			s.checkTable(tid)
		}
	}
	s.Count("operations", 1)
}

// mustPanic runs a misuse, which has to be reported by a panic.
func (s *storeSim) mustPanic(what string, fn func()) {
	s.Logf("misuse: %s", what)
	if p := Try(fn); p == nil {
		s.Failf("misuse not reported: %s", what)
	}
	s.Count("misuses reported", 1)
	s.Seen("misuse kinds", what)
}

func (s *storeSim) misuse() {
	tid, ok := s.pick()
	switch s.IntN(10) {
	case 0:
		for _, tid := range s.cfg.tidPool {
			if _, ok := s.m.tables[tid]; !ok {
				s.mustPanic("drop a table which does not exist", func() { s.tx.DropTable(bg, tid) })
				return
			}
		}
	case 1:
		for _, tid := range s.cfg.tidPool {
			if _, ok := s.m.tables[tid]; !ok {
				s.mustNotOpen(tid)
				return
			}
		}
	case 2:
		if ok {
			n, c, k := s.genDef()
			s.mustPanic("create a table which exists", func() { s.tx.CreateTable(bg, tid, s.genTableName(), n, c, k) })
			s.checkTable(tid)
		}
	case 3:
		if ok {
			rows, err := s.handle(tid).Rows(bg, nil, nil, nil, nil)
			if err != nil {
				s.Failf("scan: %s", err)
			}
			s.mustPanic("current before the first next", func() { rows.Current() })
			rows.Close(bg)
		}
	case 4:
		if ok {
			rows, err := s.handle(tid).Rows(bg, nil, nil, nil, nil)
			if err != nil {
				s.Failf("scan: %s", err)
			}
			for n := s.IntN(3); n > 0; n-- {
				rows.Next(bg)
			}
			rows.Close(bg)
			s.mustPanic("next on a closed scan", func() { rows.Next(bg) })
			s.mustPanic("current on a closed scan", func() { rows.Current() })
			s.mustPanic("close a closed scan", func() { rows.Close(bg) })
			s.mustPanic("next on a closed scan", func() { rows.Next(bg) })
		}
	case 5:
		if len(s.scans) > 0 {
			if s.IntN(2) == 0 {
				s.mustPanic("commit with open scans", func() { s.tx.Commit(bg) })
			} else {
				s.mustPanic("roll back with open scans", func() { s.tx.Rollback() })
			}
			s.checkAll()
		}
	case 6, 7:
		// A row that is gone, deleted or moved away by its key.
		if ok && len(s.m.tables[tid].rows) > 0 {
			mt := s.m.tables[tid]
			rows, err := s.handle(tid).Rows(bg, nil, nil, nil, nil)
			if err != nil {
				s.Failf("scan: %s", err)
			}
			n := 1 + s.IntN(len(mt.rows))
			for i := 0; i < n; i++ {
				rows.Next(bg)
			}
			ref, err := rows.Current()
			if err != nil {
				s.Failf("current: %s", err)
			}
			row := mt.sorted()[n-1]
			i := mt.find(row)
			if err := ref.Delete(bg); err != nil {
				s.Failf("delete: %s", err)
			}
			mt.remove(i)
			rows.Close(bg)
			c := types.ColumnNum(s.IntN(len(row)))
			s.mustPanic("delete a row which is gone", func() { ref.Delete(bg) })
			s.mustPanic("update a row which is gone", func() {
				ref.Update(bg, []types.ColumnNum{c}, []types.Value{row[c]})
			})
			s.checkTable(tid)
		}
	case 8:
		if ok && len(s.m.tables[tid].rows) > 0 {
			rows, err := s.handle(tid).Rows(bg, nil, nil, nil, nil)
			if err != nil {
				s.Failf("scan: %s", err)
			}
			rows.Next(bg)
			ref, err := rows.Current()
			if err != nil {
				s.Failf("current: %s", err)
			}
			row := s.m.tables[tid].sorted()[0]
			s.mustPanic("update with fewer values than columns", func() {
				ref.Update(bg, []types.ColumnNum{0}, nil)
			})
			s.mustPanic("update with more values than columns", func() {
				ref.Update(bg, []types.ColumnNum{0}, []types.Value{row[0], row[0]})
			})
			rows.Close(bg)
			s.checkTable(tid)
		}
	case 9:
		if s.IntN(2) == 0 {
			n, c, k := s.someDef()
			for _, tid := range s.cfg.tidPool {
				if _, ok := s.m.tables[tid]; !ok {
					s.mustPanic("create a table with more names than types", func() {
						s.tx.CreateTable(bg, tid, s.genTableName(), append(n, types.ID("c3", true)), c, k)
					})
					s.mustNotOpen(tid)
					return
				}
			}
		}
	}
}

// endTwice ends the transaction and checks that it cannot be ended again.
func (s *storeSim) endTwice(tx storage.Transaction) {
	for n := 1 + s.IntN(2); n > 0; n-- {
		var err error
		if s.IntN(2) == 0 {
			if p := Try(func() { err = tx.Commit(bg) }); p != nil {
				s.Failf("second commit: panic: %v", p)
			} else if err == nil {
				s.Failf("second commit of a finished transaction succeeded")
			}
		} else {
			if p := Try(func() { err = tx.Rollback() }); p != nil {
				s.Failf("second rollback: panic: %v", p)
			} else if err == nil {
				s.Failf("second rollback of a finished transaction succeeded")
			}
		}
		s.Count("second ends refused", 1)
	}
}

// txn runs one transaction.
func (s *storeSim) txn() {
	s.begin()
	for n := s.IntN(s.cfg.ops) + 1; n > 0; n-- {
		s.op()
	}
	if s.IntN(40) == 0 {
		// Nothing is left of anything.
		for len(s.m.tables) > 0 {
			s.drop()
		}
	}
	if s.IntN(2) == 0 {
		s.checkAll()
	}
	tx := s.tx
	if s.pct(s.cfg.rollback) {
		s.rollback()
	} else {
		s.commit()
	}
	if s.IntN(3) == 0 {
		s.endTwice(tx)
	}
}

// history runs a whole history and checks the final state.
func (s *storeSim) history() {
	for i := 0; i < s.cfg.txns; i++ {
		s.txn()
		if s.IntN(2) == 0 {
			s.verify()
		}
	}
	s.verify()
}

// verify checks the whole state in a transaction of its own.
func (s *storeSim) verify() {
	s.begin()
	s.checkAll()
	if s.IntN(2) == 0 {
		s.commit()
	} else {
		s.rollback()
	}
}

func (s *storeSim) fingerprint() string {
	var sb strings.Builder
	for _, tid := range s.committed.tids() {
		mt := s.committed.tables[tid]
		fmt.Fprintf(&sb, "%d %v %v %s;", tid, mt.colTypes, mt.key, showRows(mt.sorted()))
	}
	return sb.String()
}

// Predicates.

type predBase struct {
	col  types.ColumnNum
	name string
	fn   func(v types.Value) bool
}

func (p predBase) Column() types.ColumnNum { return p.col }
func (p predBase) String() string          { return fmt.Sprintf("column %d %s", p.col, p.name) }

type boolPred struct{ predBase }

func (p boolPred) BoolPred(v types.BoolValue) bool { return p.fn(v) }

type stringPred struct{ predBase }

func (p stringPred) StringPred(v types.StringValue) bool { return p.fn(v) }

type bytesPred struct{ predBase }

func (p bytesPred) BytesPred(v types.BytesValue) bool { return p.fn(v) }

type floatPred struct{ predBase }

func (p floatPred) Float64Pred(v types.Float64Value) bool { return p.fn(v) }

type intPred struct{ predBase }

func (p intPred) Int64Pred(v types.Int64Value) bool { return p.fn(v) }

func genPred(t *Case, col types.ColumnNum, mt *mtable) (storage.Predicate, func(v types.Value) bool) {
	ct := mt.colTypes[col]
	b := predBase{col: col}
	var pivot types.Value
	if len(mt.rows) > 0 {
		pivot = mt.rows[t.IntN(len(mt.rows))][col]
	}
	if pivot == nil {
		pivot = genTyped(t, ct.Type)
	}
	switch t.IntN(6) {
	case 0:
		b.name, b.fn = "= "+show(pivot), func(v types.Value) bool { return refCmp(v, pivot) == 0 }
	case 1:
		b.name, b.fn = "< "+show(pivot), func(v types.Value) bool { return refCmp(v, pivot) < 0 }
	case 2:
		b.name, b.fn = "> "+show(pivot), func(v types.Value) bool { return refCmp(v, pivot) > 0 }
	case 3:
		b.name, b.fn = "!= "+show(pivot), func(v types.Value) bool { return refCmp(v, pivot) != 0 }
	case 4:
		b.name, b.fn = "true", func(v types.Value) bool { return true }
	case 5:
		b.name, b.fn = "false", func(v types.Value) bool { return false }
	}
	switch ct.Type {
	case types.BoolType:
		return boolPred{b}, b.fn
	case types.StringType:
		return stringPred{b}, b.fn
	case types.BytesType:
		return bytesPred{b}, b.fn
	case types.Float64Type:
		return floatPred{b}, b.fn
	default:
		return intPred{b}, b.fn
	}
}
