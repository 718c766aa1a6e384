package main

// Tables of thousands of rows: what holds for a few rows must hold for many. Shared by C02 to C06.

import (
	"fmt"
	"io"
	"reflect"
	"sort"
	"strings"

	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/storage/basic"
	"github.com/leftmike/maho/types"
)

// ltable is the model of one large table: its rows are made from a number and a value.
type ltable struct {
	shape int
	rows  map[int64]int64
}

func (lt *ltable) clone() *ltable {
	if lt == nil {
		return nil
	}
	n := &ltable{shape: lt.shape, rows: make(map[int64]int64, len(lt.rows))}
	for k, v := range lt.rows {
		n.rows[k] = v
	}
	return n
}

const largeShapes = 5

func largeDef(shape int) ([]types.Identifier, []types.ColumnType, []types.ColumnKey) {
	names := []types.Identifier{types.ID("k", true), types.ID("v", true), types.ID("g", true)}
	kt := types.Int64ColType
	gt := types.ColumnType{Type: types.Int64Type, Size: 2}
	switch shape {
	case 2:
		kt = types.ColumnType{Type: types.StringType, Size: 40, NotNull: true}
	case 3:
		kt = types.ColumnType{Type: types.BytesType, Size: 1000}
	}
	cts := []types.ColumnType{kt, types.NullInt64ColType, gt}
	switch shape {
	case 0, 2:
		return names, cts, []types.ColumnKey{types.MakeColumnKey(0, false)}
	case 1, 3:
		return names, cts, []types.ColumnKey{types.MakeColumnKey(0, true)}
	}
	return names, cts, []types.ColumnKey{types.MakeColumnKey(2, true), types.MakeColumnKey(0, false)}
}

func largeKey(shape int, k int64) types.Value {
	switch shape {
	case 2:
		return types.StringValue(fmt.Sprintf("%d/%x", k%10, k))
	case 3:
		return types.BytesValue(strings.Repeat("\x00\x01\xff", int(k%40)) + fmt.Sprint(k))
	}
	return types.Int64Value(k)
}

func largeRow(shape int, k, v int64) types.Row {
	return types.Row{largeKey(shape, k), types.Int64Value(v), types.Int64Value(k % 7)}
}

// sorted gives the numbers of the rows in key order.
func (lt *ltable) sorted() []int64 {
	ks := make([]int64, 0, len(lt.rows))
	for k := range lt.rows {
		ks = append(ks, k)
	}
	_, _, key := largeDef(lt.shape)
	sort.Slice(ks, func(i, j int) bool {
		return refKeyCmp(key, largeRow(lt.shape, ks[i], 0), largeRow(lt.shape, ks[j], 0)) < 0
	})
	return ks
}

func (lt *ltable) want() []types.Row {
	var rows []types.Row
	for _, k := range lt.sorted() {
		rows = append(rows, largeRow(lt.shape, k, lt.rows[k]))
	}
	return rows
}

func (t *Case) readAll(rows storage.Rows) []types.Row {
	var got []types.Row
	for {
		row, err := rows.Next(bg)
		if err == io.EOF {
			return got
		} else if err != nil {
			t.Failf("next: %v", err)
		}
		got = append(got, row)
	}
}

func (t *Case) sameRows(what string, got, want []types.Row) {
	for i := range got {
		if i >= len(want) {
			t.Failf("%s: row %d of %d is %s, but there are only %d", what, i, len(got), got[i], len(want))
		}
		if !refRowSame(got[i], want[i]) {
			t.Failf("%s: row %d is %s, want %s", what, i, got[i], want[i])
		}
	}
	if len(got) != len(want) {
		t.Failf("%s: %d rows, want %d", what, len(got), len(want))
	}
	t.Count("rows compared", len(got))
}

func storeLarge(t *Case) {
	st, err := basic.NewStore("")
	if err != nil {
		t.Failf("new store: %v", err)
	}
	st = t.storeOf(st)
	n := 1 + t.IntN(4)
	base := storage.TableId(16 + t.IntN(5000))
	span := int64(100 << t.IntN(7))
	committed := make([]*ltable, n)
	def := func(i int, lt *ltable) (storage.TableId, types.TableName, []types.Identifier, []types.ColumnType, []types.ColumnKey) {
		names, cts, key := largeDef(lt.shape)
		return base + storage.TableId(i), types.TableName{Table: types.ID(fmt.Sprintf("t%d", i), true)}, names, cts, key
	}
	open := func(tx storage.Transaction, i int, lt *ltable) storage.Table {
		tid, tn, names, cts, key := def(i, lt)
		tbl, err := tx.OpenTable(bg, tid, tn, names, cts, key)
		if err != nil {
			t.Failf("open table: %v", err)
		}
		return tbl
	}
	scan := func(tbl storage.Table, cols []types.ColumnNum, min, max types.Row) storage.Rows {
		rows, err := tbl.Rows(bg, cols, min, max, nil)
		if err != nil {
			t.Failf("rows: %v", err)
		}
		return rows
	}
	check := func(what string, tx storage.Transaction, state []*ltable) {
		for i, lt := range state {
			if lt == nil {
				if Try(func() {
					tid, tn, names, cts, key := def(i, &ltable{})
					tx.OpenTable(bg, tid, tn, names, cts, key)
				}) == nil {
					t.Failf("%s: table %d opens although it does not exist", what, i)
				}
				continue
			}
			rows := scan(open(tx, i, lt), nil, nil, nil)
			got := t.readAll(rows)
			rows.Close(bg)
			t.sameRows(fmt.Sprintf("%s: table %d", what, i), got, lt.want())
		}
		t.Count("table states compared", len(state))
	}

	for txn := 4 + t.IntN(5); txn > 0; txn-- {
		tx := st.Begin()
		state := make([]*ltable, n)
		for i := range state {
			state[i] = committed[i].clone()
		}
		for op := 1 + t.IntN(6); op > 0; op-- {
			i := t.IntN(n)
			lt := state[i]
			if lt == nil {
				lt = &ltable{shape: t.IntN(largeShapes), rows: map[int64]int64{}}
				tid, tn, names, cts, key := def(i, lt)
				if err := tx.CreateTable(bg, tid, tn, names, cts, key); err != nil {
					t.Failf("create table: %v", err)
				}
				state[i] = lt
				t.Count("tables created", 1)
			}
			switch t.IntN(8) {
			case 0: // drop it
				if err := tx.DropTable(bg, base+storage.TableId(i)); err != nil {
					t.Failf("drop table: %v", err)
				}
				t.Count("rows dropped with their table", len(lt.rows))
				state[i] = nil
			case 1, 2, 3: // insert many, in one batch or several
				tbl := open(tx, i, lt)
				for left := 1 + t.IntN(int(span)); left > 0; {
					batch := 1 + t.IntN(left)
					left -= batch
					up := t.IntN(3)
					from := t.Int64N(span)
					var rows []types.Row
					fail := t.IntN(12) == 0
					for j := 0; j < batch; j++ {
						k := t.Int64N(span)
						if up == 1 {
							k = from + int64(j)
						} else if up == 2 {
							k = span - from - int64(j)
							if k < 0 {
								break
							}
						}
						if _, ok := lt.rows[k]; ok {
							if !fail {
								continue
							}
							// This row must fail; those before it stay, and those after it are not attempted.
							rows = append(rows, largeRow(lt.shape, k, -1))
							break
						}
						v := t.Int64N(1000)
						lt.rows[k] = v
						rows = append(rows, largeRow(lt.shape, k, v))
					}
					if len(rows) > 0 && rows[len(rows)-1][1] != types.Int64Value(-1) && t.IntN(10) == 0 {
						// A row which is there after many which are not.
						ks := lt.sorted()
						rows = append(rows, largeRow(lt.shape, ks[t.IntN(len(ks))], -1))
						t.Count("batches which failed at their end", 1)
					}
					dup := len(rows) > 0 && rows[len(rows)-1][1] == types.Int64Value(-1)
					err := tbl.Insert(bg, rows)
					if (err != nil) != dup {
						t.Failf("insert of %d rows (duplicate at the end %v): %v", len(rows), dup, err)
					}
					t.Count("rows inserted", len(rows))
				}
			case 4, 5, 6: // walk a range, changing rows, with another scan open
				tbl := open(tx, i, lt)
				snap := lt.want()
				other := scan(tbl, []types.ColumnNum{1, 2, 0, 1}, nil, nil)
				lo, hi := t.IntN(len(snap)+1), t.IntN(len(snap)+1)
				if lo > hi {
					lo, hi = hi, lo
				}
				var min, max types.Row
				want := snap
				if lo < hi && t.IntN(4) > 0 {
					min, max, want = snap[lo], snap[hi-1], snap[lo:hi]
				}
				ks := lt.sorted()
				if min != nil {
					ks = ks[lo:hi]
				}
				rows := scan(tbl, nil, min, max)
				mod, what := 1+t.IntN(5), t.IntN(3)
				for j := 0; ; j++ {
					row, err := rows.Next(bg)
					if err == io.EOF {
						if j != len(want) {
							t.Failf("walk of table %d: %d rows, want %d", i, j, len(want))
						}
						break
					} else if err != nil {
						t.Failf("next: %v", err)
					}
					if j >= len(want) || !refRowSame(row, want[j]) {
						t.Failf("walk of table %d: row %d of %d is %s", i, j, len(want), row)
					}
					if j%mod != 0 {
						continue
					}
					rr, err := rows.Current()
					if err != nil {
						t.Failf("current: %v", err)
					}
					k := ks[j]
					switch what {
					case 0:
						if err := rr.Delete(bg); err != nil {
							t.Failf("delete: %v", err)
						}
						delete(lt.rows, k)
						t.Count("rows deleted", 1)
					case 1:
						v := t.Int64N(1000)
						if err := rr.Update(bg, []types.ColumnNum{1}, []types.Value{types.Int64Value(v)}); err != nil {
							t.Failf("update: %v", err)
						}
						lt.rows[k] = v
						t.Count("rows updated", 1)
					case 2:
						nk := t.Int64N(span * 2)
						_, taken := lt.rows[nk]
						taken = taken && nk != k
						nr := largeRow(lt.shape, nk, 0)
						err := rr.Update(bg, []types.ColumnNum{2, 0}, []types.Value{nr[2], nr[0]})
						if (err != nil) != taken {
							t.Failf("update of key %d to %d: %v", k, nk, err)
						}
						if !taken {
							v := lt.rows[k]
							delete(lt.rows, k)
							lt.rows[nk] = v
							t.Count("rows moved", 1)
						}
					}
				}
				rows.Close(bg)
				for j := range snap {
					snap[j] = types.Row{snap[j][1], snap[j][2], snap[j][0], snap[j][1]}
				}
				t.sameRows(fmt.Sprintf("scan of table %d open while it was changed", i), t.readAll(other), snap)
				other.Close(bg)
			case 7:
				check("in the transaction", tx, state)
			}
		}
		if t.IntN(3) == 0 {
			if err := tx.Rollback(); err != nil {
				t.Failf("rollback: %v", err)
			}
			t.Count("rollbacks", 1)
		} else {
			if err := tx.Commit(bg); err != nil {
				t.Failf("commit: %v", err)
			}
			committed = state
			t.Count("commits", 1)
		}
		tx = st.Begin()
		check("afterwards", tx, committed)
		tx.Rollback()
	}
	rows := 0
	for _, lt := range committed {
		if lt != nil {
			rows += len(lt.rows)
		}
	}
	if rows > 0 {
		t.Distinct(fmt.Sprintf("large %d %d %d %d", t.index, n, span, rows))
	}
	t.Sample("%d tables of up to %d rows, %d rows at the end", n, span, rows)
}

// refRowSame tells whether two rows have the same values of the same types.
func refRowSame(a, b types.Row) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if (a[i] == nil) != (b[i] == nil) {
			return false
		}
		if a[i] != nil && (reflect.TypeOf(a[i]) != reflect.TypeOf(b[i]) || refCmp(a[i], b[i]) != 0) {
			return false
		}
	}
	return true
}

// hugePred takes the rows whose value is n modulo m.
type hugePred struct{ m, n int64 }

func (p hugePred) Column() types.ColumnNum           { return 1 }
func (p hugePred) Int64Pred(v types.Int64Value) bool { return int64(v)%p.m == p.n }

// storeHuge: one table of more rows than 16 bits count, filled, scanned, updated, moved and emptied.
func storeHuge(t *Case) {
	st, err := basic.NewStore("")
	if err != nil {
		t.Failf("new store: %v", err)
	}
	st = t.storeOf(st)
	names, cts, key := largeDef(0)
	tn := types.TableName{Table: types.ID("huge", true)}
	tid := storage.TableId(16 + t.IntN(1<<20))
	n := int64(65530 + t.IntN(20))
	if t.IntN(2) == 0 {
		n = 66000 + t.Int64N(80000)
	}
	tx := st.Begin()
	if err := tx.CreateTable(bg, tid, tn, names, cts, key); err != nil {
		t.Failf("create table: %v", err)
	}
	open := func() storage.Table {
		tbl, err := tx.OpenTable(bg, tid, tn, names, cts, key)
		if err != nil {
			t.Failf("open table: %v", err)
		}
		return tbl
	}
	tbl := open()
	mul := int64(1)
	if t.IntN(2) == 0 {
		mul = 7919 // not in key order; prime to every n here but its multiples
		for n%mul == 0 {
			n++
		}
	}
	var rows []types.Row
	for i := int64(0); i < n; i++ {
		k := i * mul % n
		rows = append(rows, largeRow(0, k, k%1000))
	}
	batch := []int{1000, 65536, len(rows), len(rows)}[t.IntN(4)]
	for lo := 0; lo < len(rows); lo += batch {
		if err := tbl.Insert(bg, rows[lo:min(lo+batch, len(rows))]); err != nil {
			t.Failf("insert of rows %d to %d: %v", lo, min(lo+batch, len(rows)), err)
		}
	}
	rows = nil
	t.Count("rows inserted", int(n))

	val := func(k int64) int64 { return k % 1000 } // the value of a row
	have := func(k int64) bool { return k < n }
	walk := func(what string, cols []types.ColumnNum, lo, hi int64, pred *hugePred, fn func(k int64, rows storage.Rows)) {
		var minRow, maxRow types.Row
		if lo > 0 {
			minRow = largeRow(0, lo, 0)
		} else {
			lo = 0
		}
		if hi < n*2 {
			maxRow = largeRow(0, hi, 0)
		}
		var p storage.Predicate
		if pred != nil {
			p = *pred
		}
		rs, err := tbl.Rows(bg, cols, minRow, maxRow, p)
		if err != nil {
			t.Failf("%s: rows: %v", what, err)
		}
		hv, vl := have, val
		seen := 0
		for k := lo; k <= hi; k++ {
			if !hv(k) || pred != nil && vl(k)%pred.m != pred.n {
				continue
			}
			row, err := rs.Next(bg)
			if err != nil {
				t.Failf("%s: after %d rows: %v, want the row of %d", what, seen, err, k)
			}
			want := largeRow(0, k%n, vl(k))
			want[0] = types.Int64Value(k)
			if cols != nil {
				want = projectRow(want, cols)
			}
			if !refRowSame(row, want) {
				t.Failf("%s: row %d is %s, want %s", what, seen, row, want)
			}
			seen++
			if fn != nil {
				fn(k, rs)
			}
		}
		if row, err := rs.Next(bg); err != io.EOF {
			t.Failf("%s: after %d rows %s %v, want the end", what, seen, row, err)
		}
		if err := rs.Close(bg); err != nil {
			t.Failf("%s: close: %v", what, err)
		}
		t.Count("rows compared", seen)
	}
	all := n * 2
	walk("all rows", nil, 0, all, nil, nil)
	a, b := t.Int64N(n/2), n/2+t.Int64N(n/2)
	walk("a range", []types.ColumnNum{1, 0}, a, b, nil, nil)
	walk("every other row", []types.ColumnNum{0}, 0, all, &hugePred{2, t.Int64N(2)}, nil)
	walk("all by predicate", nil, 0, all, &hugePred{1, 0}, nil)
	if t.IntN(2) == 0 {
		if err := tx.Commit(bg); err != nil {
			t.Failf("commit: %v", err)
		}
		tx = st.Begin()
		tbl = open()
	}
	walk("update of all rows", nil, 0, all, nil, func(k int64, rs storage.Rows) {
		rr, err := rs.Current()
		if err == nil {
			err = rr.Update(bg, []types.ColumnNum{1}, []types.Value{types.Int64Value(k % 500)})
		}
		if err != nil {
			t.Failf("update of %d: %v", k, err)
		}
	})
	val = func(k int64) int64 { return k % 500 }
	walk("all rows after the update", nil, 0, all, nil, nil)
	// Every third row goes, some of the others move behind the end.
	walk("delete of every third row", nil, 0, all, nil, func(k int64, rs storage.Rows) {
		if k%3 != 0 {
			return
		}
		rr, err := rs.Current()
		if err == nil {
			err = rr.Delete(bg)
		}
		if err != nil {
			t.Failf("delete of %d: %v", k, err)
		}
	})
	have = func(k int64) bool { return k < n && k%3 != 0 }
	walk("all rows after the delete", nil, 0, all, nil, nil)
	if err := tbl.Insert(bg, []types.Row{largeRow(0, n-1-(n-1)%3, 0), largeRow(0, n-1-(n-1)%3, 0)}); err == nil {
		t.Failf("a row was inserted twice")
	}
	last := n - 1 - (n-1)%3
	have = func(k int64) bool { return k == last || k < n && k%3 != 0 }
	val = func(k int64) int64 {
		if k == last {
			return 0
		}
		return k % 500
	}
	walk("all rows after the insert", nil, 0, all, nil, nil)
	if t.IntN(2) == 0 {
		if err := tx.DropTable(bg, tid); err != nil {
			t.Failf("drop table: %v", err)
		}
		if err := tx.CreateTable(bg, tid, tn, names, cts, key); err != nil {
			t.Failf("create table: %v", err)
		}
		tbl = open()
		have = func(k int64) bool { return false }
		walk("a table created again", nil, 0, all, nil, nil)
	}
	if err := tx.Commit(bg); err != nil {
		t.Failf("commit: %v", err)
	}
	tx = st.Begin()
	tbl = open()
	walk("all rows after the commit", nil, 0, all, nil, nil)
	tx.Rollback()
	t.Count("tables of more than 65535 rows", 1)
	t.Distinct(fmt.Sprint("huge", n, mul, batch))
}
