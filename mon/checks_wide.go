package main

// Wide keys: of many columns, or of columns with texts alike for thousands of bytes. Shared by C04, C05
// and C09. And transactions with many scans open, for C08.

import (
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/storage/basic"
	"github.com/leftmike/maho/types"
)

// wideTable is a definition whose rows differ only far into their keys.
type wideTable struct {
	cts  []types.ColumnType
	key  []types.ColumnKey
	base types.Row
	far  []int // columns of the key, the late ones first
}

// genPrefix is a long text, made of the bytes the encoding treats specially and others.
func genPrefix(t *Case, most int) string {
	n := 1 + t.IntN(1+t.IntN(most))
	unit := []string{"a", "\x00", "\x01", "\xff", "a\x00", "\x00\x01", "\xfe\xff", "é", "abcdefgh"}[t.IntN(9)]
	s := strings.Repeat(unit, n/len(unit)+1)
	if t.IntN(2) == 0 {
		s = s[:n]
	}
	return s
}

func genWide(t *Case) *wideTable {
	w := &wideTable{}
	n := 1 + t.IntN(4)
	long := true
	if t.IntN(2) == 0 {
		n = 2 + t.IntN(100)
		long = t.IntN(4) == 0
	}
	for i := 0; i < n; i++ {
		vt := types.ValueType(1 + t.IntN(5))
		if long && t.IntN(3) > 0 {
			vt = []types.ValueType{types.StringType, types.BytesType}[t.IntN(2)]
		}
		ct := types.ColumnType{Type: vt}
		var v types.Value
		switch vt {
		case types.Int64Type:
			ct.Size = 8
			v = types.Int64Value(t.IntN(5) - 2)
		case types.StringType, types.BytesType:
			ct.Size = types.MaxColumnSize
			s := []string{"", "a", "\x00", "\xff"}[t.IntN(4)]
			if long && t.IntN(1+n/4) == 0 {
				s = genPrefix(t, []int{5000, 40000, 70000}[t.IntN(3)])
			}
			v = types.StringValue(s)
			if vt == types.BytesType {
				v = types.BytesValue(s)
			}
		case types.BoolType:
			v = types.BoolValue(t.IntN(2) == 0)
		default:
			ct.Size = 8
			v = types.Float64Value(t.IntN(5) - 2)
		}
		w.cts = append(w.cts, ct)
		w.base = append(w.base, v)
	}
	cols := t.Perm(n)
	if t.IntN(2) == 0 {
		cols = cols[:1+t.IntN(n)]
	}
	for _, c := range cols {
		w.key = append(w.key, types.MakeColumnKey(types.ColumnNum(c), t.IntN(2) == 0))
		w.far = append([]int{c}, w.far...)
	}
	return w
}

// another makes a row which differs from some row in one column of the key, mostly one of the last.
func (w *wideTable) another(t *Case, from types.Row) types.Row {
	row := copyRow(from)
	c := w.far[t.IntN(1+t.IntN(len(w.far)))]
	tail := func(s string) string {
		switch t.IntN(4) {
		case 0:
			return s + []string{"\x00", "\x01", "\xff", "a", "\x02"}[t.IntN(5)]
		case 1:
			if len(s) > 0 {
				return s[:len(s)-1]
			}
		case 2:
			if len(s) > 0 {
				return s[:len(s)-1] + string([]byte{byte(t.IntN(256))})
			}
		}
		return s + string([]byte{byte(t.IntN(256))})
	}
	switch v := row[c].(type) {
	case types.StringValue:
		row[c] = types.StringValue(tail(string(v)))
	case types.BytesValue:
		row[c] = types.BytesValue(tail(string(v)))
	case types.Int64Value:
		row[c] = v + types.Int64Value(t.IntN(7)-3)
	case types.Float64Value:
		row[c] = v + types.Float64Value(t.IntN(7)-3)/2
	case types.BoolValue:
		row[c] = !v
	case nil:
		row[c] = w.base[c]
		return row
	}
	if t.IntN(10) == 0 {
		row[c] = nil
	}
	return row
}

// short shows a row with its long texts cut.
func shortRow(r types.Row) string {
	s := showRow(r)
	if len(s) > 400 {
		s = fmt.Sprintf("%s…%s (%d bytes)", s[:200], s[len(s)-200:], len(s))
	}
	return s
}

func keyWide(t *Case) {
	w := genWide(t)
	rows := []types.Row{w.base}
	for i := 0; i < 4; i++ {
		rows = append(rows, w.another(t, rows[t.IntN(len(rows))]))
	}
	for _, a := range rows {
		for _, b := range rows {
			checkKeys(t, w.key, a, b)
		}
	}
	t.Distinct(fmt.Sprint(w.key, shortRow(rows[1])))
	t.Seen("wide key columns", fmt.Sprint(len(w.key)))
}

// storeWide is a history of one table with a wide key.
func storeWide(t *Case) {
	st, err := basic.NewStore("")
	if err != nil {
		t.Failf("new store: %v", err)
	}
	w := genWide(t)
	var names []types.Identifier
	for i := range w.cts {
		names = append(names, types.ID(fmt.Sprintf("c%d", i), true))
	}
	tid := storage.TableId(16 + t.IntN(100))
	tn := types.TableName{Table: types.ID("wide", true)}
	tx := st.Begin()
	if err := tx.CreateTable(bg, tid, tn, names, w.cts, w.key); err != nil {
		t.Failf("create table: %v", err)
	}
	tbl, err := tx.OpenTable(bg, tid, tn, names, w.cts, w.key)
	if err != nil {
		t.Failf("open table: %v", err)
	}
	var model []types.Row // in key order
	find := func(row types.Row) (int, bool) {
		i := sort.Search(len(model), func(i int) bool { return refKeyCmp(w.key, model[i], row) >= 0 })
		return i, i < len(model) && refKeyCmp(w.key, model[i], row) == 0
	}
	add := func(row types.Row) {
		i, _ := find(row)
		model = append(model[:i:i], append([]types.Row{row}, model[i:]...)...)
	}
	some := func() types.Row {
		if len(model) == 0 {
			return w.base
		}
		return model[t.IntN(len(model))]
	}
	same := func(what string, got, want []types.Row) {
		if len(got) != len(want) {
			t.Failf("%s: %d rows, want %d (key %v)", what, len(got), len(want), w.key)
		}
		for i := range got {
			if !refRowSame(got[i], want[i]) {
				t.Failf("%s: row %d is %s, want %s (key %v)", what, i, shortRow(got[i]), shortRow(want[i]), w.key)
			}
		}
		t.Count("rows compared", len(got))
	}
	for op := 20 + t.IntN(30); op > 0; op-- {
		switch t.IntN(5) {
		case 0, 1:
			row := w.another(t, some())
			if t.IntN(6) == 0 {
				row = copyRow(some())
			}
			_, dup := find(row)
			err := tbl.Insert(bg, []types.Row{copyRow(row)})
			if dup != (err != nil) {
				t.Failf("insert of %s among %d rows: %v; expected the key to be there: %t (key %v)", shortRow(row), len(model),
					err, dup, w.key)
			}
			if !dup {
				add(row)
			}
			t.Count(fmt.Sprintf("rows inserted: %t", !dup), 1)
		case 2, 3: // a range
			var min, max types.Row
			if t.IntN(3) > 0 {
				min = copyRow(some())
				if t.IntN(2) == 0 {
					min = w.another(t, min)
				}
			}
			if t.IntN(3) > 0 {
				max = copyRow(some())
				if t.IntN(2) == 0 {
					max = w.another(t, max)
				}
			}
			var want []types.Row
			for _, row := range model {
				if (min == nil || refKeyCmp(w.key, row, min) >= 0) && (max == nil || refKeyCmp(w.key, row, max) <= 0) {
					want = append(want, row)
				}
			}
			rows, err := tbl.Rows(bg, nil, min, max, nil)
			if err != nil {
				t.Failf("rows: %v", err)
			}
			same("range", t.readAll(rows), want)
			rows.Close(bg)
			t.Count("ranges read", 1)
		default: // one row updated or deleted
			if len(model) == 0 {
				continue
			}
			at := t.IntN(len(model))
			rows, err := tbl.Rows(bg, nil, nil, nil, nil)
			if err != nil {
				t.Failf("rows: %v", err)
			}
			for i := 0; i <= at; i++ {
				if _, err := rows.Next(bg); err != nil {
					t.Failf("next: %v", err)
				}
			}
			ref, err := rows.Current()
			if err != nil {
				t.Failf("current: %v", err)
			}
			old := model[at]
			if t.IntN(4) == 0 {
				if err := ref.Delete(bg); err != nil {
					t.Failf("delete: %v", err)
				}
				model = append(model[:at:at], model[at+1:]...)
				t.Count("rows deleted", 1)
			} else {
				row := w.another(t, old)
				if t.IntN(4) == 0 {
					row = w.another(t, some())
				}
				var cols []types.ColumnNum
				var vals []types.Value
				for i := range row {
					if !identical(row[i], old[i]) || t.IntN(20) == 0 {
						cols, vals = append(cols, types.ColumnNum(i)), append(vals, copyValue(row[i]))
					}
				}
				i, dup := find(row)
				dup = dup && i != at
				if err := ref.Update(bg, cols, vals); dup != (err != nil) {
					t.Failf("update of %s to %s: %v; expected the key to be there: %t (key %v)", shortRow(old), shortRow(row), err,
						dup, w.key)
				}
				if !dup {
					model = append(model[:at:at], model[at+1:]...)
					add(row)
				}
				t.Count(fmt.Sprintf("rows updated: %t", !dup), 1)
			}
			rows.Close(bg)
		}
	}
	rows, err := tbl.Rows(bg, nil, nil, nil, nil)
	if err != nil {
		t.Failf("rows: %v", err)
	}
	same("at the end", t.readAll(rows), model)
	rows.Close(bg)
	if err := tx.Commit(bg); err != nil {
		t.Failf("commit: %v", err)
	}
	t.Seen("wide key columns", fmt.Sprint(len(w.key)))
	t.Distinct(fmt.Sprint(w.key, len(model), shortRow(some())))
}

// storeManyScans: a transaction does not end as long as one scan of many is open.
func storeManyScans(t *Case) {
	s := newStoreSim(t, defaultCfg())
	s.begin()
	s.create()
	s.insert()
	tid, _ := s.pick()
	n := []int{1, 2, 127, 128, 255, 256, 257, 512, 1000, 4096, 32768, 65535, 65536}[t.IntN(13)]
	var open []storage.Rows
	for i := 0; i < n; i++ {
		rows, err := s.handle(tid).Rows(bg, nil, nil, nil, nil)
		if err != nil {
			t.Failf("rows: %v", err)
		}
		open = append(open, rows)
	}
	t.Shuffle(len(open), func(i, j int) { open[i], open[j] = open[j], open[i] })
	end := func() {
		s.mustPanic(fmt.Sprintf("end with %d open scans", len(open)), func() {
			if t.IntN(2) == 0 {
				s.tx.Commit(bg)
			} else {
				s.tx.Rollback()
			}
		})
	}
	for len(open) > 0 {
		if len(open) == n || len(open)&(len(open)-1) == 0 || t.IntN(1000) == 0 {
			end()
		}
		if t.IntN(8) == 0 {
			if _, err := open[0].Next(bg); err != nil && err != io.EOF {
				t.Failf("next: %v", err)
			}
		}
		if err := open[0].Close(bg); err != nil {
			t.Failf("close: %v", err)
		}
		open = open[1:]
	}
	t.Count("scans open at once", n)
	t.Distinct(fmt.Sprint(n, t.index))
	s.commit()
	s.verify()
}
