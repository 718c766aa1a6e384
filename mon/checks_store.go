package main

// C02 to C08: histories of one store against the model.

import (
	"fmt"
	"math"
	"slices"

	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/types"
)

const simRule = "each case is a random history of store transactions (tables, rows, scans and " +
	"references from seeded generators) run in lock step with an executable model; non-trivial and " +
	"distinct by the committed state it ends in, when that holds at least one row"

// simPhase runs histories of a configuration.
func simPhase(c *Ctx, name string, quick, thorough int, mod func(t *Case, cfg *simCfg)) {
	c.Phase(name, c.N(quick, thorough), func(t *Case) {
		cfg := defaultCfg()
		if mod != nil {
			mod(t, &cfg)
		}
		s := newStoreSim(t, cfg)
		s.history()
		s.done()
	})
}

func (s *storeSim) done() {
	n := 0
	for _, mt := range s.committed.tables {
		n += len(mt.rows)
	}
	fp := s.fingerprint()
	if n > 0 {
		s.Distinct(fp)
	}
	s.Sample("%d tables, %d rows at the end: %s", len(s.committed.tables), n, fp)
}

func init() {
	register(&Check{ID: "C02", Rule: simRule, Run: func(c *Ctx) {
		simPhase(c, "mix", 4000, 60000, func(t *Case, cfg *simCfg) {
			cfg.txns = 8
			cfg.ops = 12
			cfg.rollback = 50
			cfg.wCreate, cfg.wDrop = 5, 4
			cfg.badPct = 6
		})
		// Short transactions of one or two operations, alternating between commit and rollback.
		simPhase(c, "short", 3000, 40000, func(t *Case, cfg *simCfg) {
			cfg.txns = 30
			cfg.ops = 2
			cfg.rollback = 40
			cfg.wDrop = 4
		})
		simPhase(c, "misuse", 1000, 10000, func(t *Case, cfg *simCfg) {
			cfg.wMisuse = 8
			cfg.rollback = 50
		})
		simPhase(c, "long", 6, 60, func(t *Case, cfg *simCfg) {
			cfg.txns = 3000
			cfg.ops = 3
			cfg.rollback = 30
		})
		c.Phase("refused-definition", c.N(400, 4000), storeRefusedDefinition)
		c.Phase("large", c.N(20, 400), storeLarge)
	}})
	register(&Check{ID: "C03", Rule: simRule, Run: func(c *Ctx) {
		simPhase(c, "long", 6, 60, func(t *Case, cfg *simCfg) {
			cfg.txns = 2500
			cfg.ops = 4
			cfg.rollback = 10
		})
		simPhase(c, "open-scans", 4000, 60000, func(t *Case, cfg *simCfg) {
			cfg.wOpenScan = 60
			cfg.wWalk = 15
			cfg.wRef = 15
			cfg.ops = 60
			cfg.txns = 3
			cfg.tables = 2
			if t.IntN(8) == 0 {
				cfg.scans = 100
				cfg.ops = 300
			}
		})
		simPhase(c, "walks", 3000, 40000, func(t *Case, cfg *simCfg) {
			cfg.wWalk = 40
			cfg.tables = 1 + t.IntN(2)
			cfg.maxRows = 200
			cfg.bigBatch = true
			cfg.txns = 3
		})
		simPhase(c, "mix", 1500, 20000, nil)
		c.Phase("large", c.N(20, 400), storeLarge)
		c.Phase("huge", c.N(3, 40), storeHuge)
	}})
	register(&Check{ID: "C04", Rule: simRule, Run: func(c *Ctx) {
		simPhase(c, "ranges", 2500, 40000, func(t *Case, cfg *simCfg) {
			cfg.tables = 1 + t.IntN(3)
			cfg.wScan = 60
			cfg.wInsert = 30
			cfg.maxRows = 40 + t.IntN(200)
			cfg.bigBatch = true
			cfg.txns = 3
			cfg.ops = 40
			cfg.badPct = 0
			cfg.dupPct = 2
		})
		// Keys made of one type, so that every value is near another.
		simPhase(c, "dense-keys", 2500, 40000, func(t *Case, cfg *simCfg) {
			cfg.tables = 1
			cfg.wScan = 60
			cfg.wInsert = 40
			cfg.maxRows = 150
			cfg.bigBatch = true
			cfg.txns = 2
			cfg.ops = 40
			cfg.badPct = 0
			cfg.dupPct = 0
			cfg.genDef = denseKeyDef
		})
		c.Phase("wide-keys", c.N(300, 8000), storeWide)
		simPhase(c, "mix", 1000, 10000, nil)
		c.Phase("large", c.N(20, 400), storeLarge)
		c.Phase("huge", c.N(4, 60), storeHuge)
	}})
	register(&Check{ID: "C05", Rule: simRule, Run: func(c *Ctx) {
		simPhase(c, "collisions", 4000, 60000, func(t *Case, cfg *simCfg) {
			cfg.dupPct = 45
			cfg.badPct = 10
			cfg.wWalk = 25
			cfg.tables = 2
			cfg.txns = 4
			cfg.ops = 30
			if t.IntN(8) == 0 {
				cfg.scans = 100
				cfg.wOpenScan = 40 + t.IntN(100)
				cfg.ops = 200
			}
		})
		simPhase(c, "dense-keys", 3000, 40000, func(t *Case, cfg *simCfg) {
			cfg.dupPct = 25
			cfg.badPct = 5
			cfg.tables = 1
			cfg.txns = 3
			cfg.ops = 40
			cfg.wWalk = 25
			cfg.maxRows = 120
			cfg.bigBatch = true
			cfg.genDef = denseKeyDef
		})
		c.Phase("key-moves", c.N(1500, 20000), storeKeyMoves)
		c.Phase("wide-keys", c.N(300, 8000), storeWide)
		c.Phase("large", c.N(20, 400), storeLarge)
	}})
	register(&Check{ID: "C06", Rule: simRule, Run: func(c *Ctx) {
		simPhase(c, "many-tables", 4000, 50000, func(t *Case, cfg *simCfg) {
			cfg.tables = 8
			cfg.wCreate = 20
			cfg.wDrop = 6
			cfg.wOpen = 20
			cfg.ops = 25
			cfg.maxRows = 12
			cfg.wScan = 4
			cfg.wWalk = 6
			n := 12
			if t.IntN(2) == 0 {
				// Neighbouring ids.
				base := storage.TableId(t.Uint32())
				if base < 100 || base > math.MaxUint32-100 {
					base = 255
				}
				cfg.tidPool = nil
				for i := 0; i < n; i++ {
					cfg.tidPool = append(cfg.tidPool, base+storage.TableId(i))
				}
			} else if t.IntN(2) == 0 {
				cfg.tidPool = nil
				for i := 0; len(cfg.tidPool) < n; i++ {
					tid := storage.TableId(t.Uint32() >> t.IntN(28))
					if tid >= storage.EngineTableId && !slices.Contains(cfg.tidPool, tid) {
						cfg.tidPool = append(cfg.tidPool, tid)
					}
				}
			}
		})
		// Tables with the same definition and the same keys, so that a mix-up collides.
		simPhase(c, "twins", 2500, 40000, func(t *Case, cfg *simCfg) {
			names := []types.Identifier{types.ID("k", true), types.ID("v", true), types.ID("w", true)}
			cts := []types.ColumnType{types.Int64ColType, types.NullStringColType, types.NullInt64ColType}
			key := []types.ColumnKey{types.MakeColumnKey(0, false)}
			cfg.genDef = func(s *storeSim) ([]types.Identifier, []types.ColumnType, []types.ColumnKey) {
				return names, cts, key
			}
			cfg.tables = 6
			cfg.wCreate, cfg.wDrop, cfg.wOpen = 10, 5, 10
			cfg.maxRows = 20
		})
		c.Phase("definitions", c.N(2000, 30000), storeDefinitions)
		c.Phase("refused-definition", c.N(400, 4000), storeRefusedDefinition)
		c.Phase("large", c.N(20, 400), storeLarge)
	}})
	register(&Check{ID: "C07", Rule: simRule, Run: func(c *Ctx) {
		c.Phase("matrix", c.N(6000, 100000), storeConform)
		simPhase(c, "hostile", 3000, 40000, func(t *Case, cfg *simCfg) {
			cfg.badPct = 25
			cfg.dupPct = 3
			cfg.wWalk = 25
			cfg.txns = 4
		})
	}})
	register(&Check{ID: "C08", Rule: simRule, Run: func(c *Ctx) {
		simPhase(c, "misuse", 4000, 60000, func(t *Case, cfg *simCfg) {
			cfg.wMisuse = 60
			cfg.wOpenScan = 25
			cfg.wCheck = 6
			cfg.ops = 30
			cfg.txns = 6
			if t.IntN(8) == 0 {
				cfg.scans = 50
			}
		})
		c.Phase("many-scans", c.N(60, 1000), storeManyScans)
		simPhase(c, "mix", 1000, 10000, nil)
	}})
}

// denseKeyDef has one to three key columns of types with many edge values.
func denseKeyDef(s *storeSim) ([]types.Identifier, []types.ColumnType, []types.ColumnKey) {
	n := 1 + s.IntN(3)
	var cts []types.ColumnType
	one := types.ValueType(1 + s.IntN(5))
	for i := 0; i < n; i++ {
		vt := one
		if s.IntN(4) == 0 {
			vt = types.ValueType(1 + s.IntN(5))
		}
		ct := types.ColumnType{Type: vt, NotNull: s.IntN(3) == 0}
		switch vt {
		case types.StringType, types.BytesType:
			ct.Size = 4096
		case types.Int64Type:
			ct.Size = 8
		}
		cts = append(cts, ct)
	}
	perm := s.Perm(n)
	var key []types.ColumnKey
	for _, c := range perm {
		key = append(key, types.MakeColumnKey(types.ColumnNum(c), s.IntN(2) == 0))
	}
	cts = append(cts, types.NullInt64ColType)
	return s.genNames(n + 1), cts, key
}

// storeKeyMoves updates keys of a small integer-keyed table in every way: to itself, to a free
// key, to a taken key, together with other columns and with values which do not fit.
func storeKeyMoves(t *Case) {
	cfg := defaultCfg()
	cfg.tables = 1
	cfg.tidPool = cfg.tidPool[:1]
	cfg.rollback = 20
	cfg.wInsert, cfg.wWalk, cfg.wScan, cfg.wRef = 20, 30, 5, 10
	cfg.wCreate, cfg.wDrop = 0, 0
	cfg.dupPct = 30
	cfg.badPct = 8
	cfg.txns = 3
	cfg.ops = 30
	desc := t.IntN(2) == 0
	two := t.IntN(2) == 0
	vt := types.ValueType(1 + t.IntN(5))
	cfg.genDef = func(s *storeSim) ([]types.Identifier, []types.ColumnType, []types.ColumnKey) {
		ct := types.ColumnType{Type: vt, Size: 4}
		if vt == types.Int64Type {
			ct.Size = 2
		}
		names := []types.Identifier{types.ID("v", true), types.ID("k", true), types.ID("w", true)}
		cts := []types.ColumnType{types.NullInt64ColType, ct, {Type: types.StringType, Size: 4}}
		key := []types.ColumnKey{types.MakeColumnKey(1, desc)}
		if two {
			key = append(key, types.MakeColumnKey(2, !desc))
		}
		return names, cts, key
	}
	s := newStoreSim(t, cfg)
	s.begin()
	s.create()
	s.commit()
	s.history()
	s.done()
}

// storeDefinitions creates a table with an arbitrary definition and checks it through every way
// of opening it, next to tables with similar definitions.
func storeDefinitions(t *Case) {
	cfg := defaultCfg()
	s := newStoreSim(t, cfg)
	tids := t.Perm(len(cfg.tidPool))[:2+t.IntN(4)]
	s.begin()
	for _, i := range tids {
		n := 1 + t.IntN(30)
		names := s.genNames(n)
		for j := range names {
			// Any name, keywords included.
			if t.IntN(3) == 0 {
				id := genIdentifier(t)
				if !slices.Contains(names, id) && id != types.ROWID {
					names[j] = id
				}
			}
		}
		var cts []types.ColumnType
		for range names {
			cts = append(cts, genColType(t))
		}
		key := genKey(t, n)
		if t.IntN(6) == 0 {
			names, cts, key = s.st.SetupColumns(names, cts, nil)
		}
		tn := types.TableName{Database: genIdentifier(t), Schema: genIdentifier(t), Table: genIdentifier(t)}
		mt := &mtable{tid: cfg.tidPool[i], tn: tn, colNames: names, colTypes: cts, key: key}
		t.Logf("create table %d %v columns %v types %v key %v", mt.tid, tn, names, cts, key)
		nn, cc, kk := copyDef(mt)
		if err := s.tx.CreateTable(bg, mt.tid, tn, nn, cc, kk); err != nil {
			t.Failf("create table %d: %s", mt.tid, err)
		}
		s.m.tables[mt.tid] = mt
		t.Distinct(fmt.Sprint(tn, names, cts, key))
		for n := t.IntN(3); n > 0; n-- {
			s.insert()
		}
		if t.IntN(3) == 0 {
			s.checkAll()
		}
		if t.IntN(3) == 0 {
			s.commit()
			s.begin()
		}
		for n := t.IntN(3); n > 0; n-- {
			s.openWrong()
		}
	}
	s.checkAll()
	s.commit()
	s.verify()
	s.verify()
}

// storeRefusedDefinition: a definition which misuses the reserved column name is refused with an
// error and leaves nothing behind.
func storeRefusedDefinition(t *Case) {
	s := newStoreSim(t, defaultCfg())
	s.begin()
	s.create()
	for i := 0; i < 4; i++ {
		n := 1 + t.IntN(4)
		if t.IntN(4) == 0 {
			n = 5 + t.IntN(60)
		}
		names := s.genNames(n)
		var cts []types.ColumnType
		for range names {
			cts = append(cts, genColType(t))
		}
		key := genKey(t, n)
		at := t.IntN(n)
		names[at] = types.ROWID
		ok := at == 0 && cts[0] == types.Int64ColType && len(key) == 1 && key[0] == types.MakeColumnKey(0, false)
		if ok {
			continue
		}
		tid := s.cfg.tidPool[t.IntN(len(s.cfg.tidPool))]
		if _, exists := s.m.tables[tid]; exists {
			continue
		}
		var err error
		if p := Try(func() { err = s.tx.CreateTable(bg, tid, s.genTableName(), names, cts, key) }); p != nil {
			t.Failf("create table with columns %v: panic: %v", names, p)
		} else if err == nil {
			t.Failf("create table with columns %v types %v key %v: the reserved column name was accepted", names,
				cts, key)
		}
		t.Count("reserved names refused", 1)
		t.Distinct(fmt.Sprint(names, cts, key))
		s.mustNotOpen(tid)
		s.insert()
	}
	s.checkAll()
	if t.IntN(2) == 0 {
		s.commit()
	} else {
		s.rollback()
	}
	s.verify()
}

// storeConform offers single values of every kind to a column of every kind, by insert and by
// update of a key column and of another column.
func storeConform(t *Case) {
	s := newStoreSim(t, defaultCfg())
	s.begin()
	ct := genColType(t)
	kct := genColType(t)
	names := []types.Identifier{types.ID("k", true), types.ID("kk", true), types.ID("v", true)}
	mt := &mtable{tid: 100, tn: s.genTableName(), colNames: names,
		colTypes: []types.ColumnType{types.Int64ColType, kct, ct},
		key:      []types.ColumnKey{types.MakeColumnKey(0, false), types.MakeColumnKey(1, t.IntN(2) == 0)}}
	n, cc, kk := copyDef(mt)
	if err := s.tx.CreateTable(bg, mt.tid, mt.tn, n, cc, kk); err != nil {
		t.Failf("create table: %s", err)
	}
	s.m.tables[mt.tid] = mt
	h := s.handle(mt.tid)
	for i := 0; i < 12; i++ {
		s.uniq += 1
		v := genOffer(t, ct)
		kv := genFit(t, kct)
		if t.IntN(4) == 0 {
			kv = genOffer(t, kct)
		}
		row := types.Row{types.Int64Value(s.uniq), kv, v}
		_, cok := refConvert(ct, v)
		t.Seen("column type and offered value", fmt.Sprintf("%v %v %T %v", ct, ct.NotNull, v, cok))
		t.Distinct(fmt.Sprintf("%v %v %s", ct, ct.NotNull, show(v)))
		if t.IntN(2) == 0 || len(mt.rows) == 0 {
			if t.IntN(10) == 0 {
				row = append(row, nil)
			}
			tmp := s.m.tables[mt.tid].clone()
			_, want := tmp.insert(row)
			t.Logf("insert %s into %v %v; expected to succeed: %v", showRow(row), kct, ct, want)
			s.doInsert(h, mt.tid, []types.Row{row}, want)
			s.m.tables[mt.tid] = tmp
			mt = tmp
		} else {
			rows, err := h.Rows(bg, nil, nil, nil, nil)
			if err != nil {
				t.Failf("scan: %s", err)
			}
			at := t.IntN(len(mt.rows))
			for j := 0; j <= at; j++ {
				if _, err := rows.Next(bg); err != nil {
					t.Failf("next: %s", err)
				}
			}
			ref, err := rows.Current()
			if err != nil {
				t.Failf("current: %s", err)
			}
			cols := []types.ColumnNum{2}
			vals := []types.Value{v}
			if t.IntN(2) == 0 {
				cols, vals = append(cols, 1), append(vals, kv)
			}
			if t.IntN(3) == 0 {
				slices.Reverse(cols)
				slices.Reverse(vals)
			}
			tmp := mt.clone()
			i := mt.order()[at]
			want := tmp.update(i, cols, vals)
			t.Logf("update %s columns %v to %s of %v %v; expected to succeed: %v", showRow(mt.rows[i]), cols,
				showRow(vals), kct, ct, want)
			if p := Try(func() { err = ref.Update(bg, cols, copyRow(vals)) }); p != nil {
				t.Failf("update: panic: %v", p)
			}
			if want != (err == nil) {
				t.Failf("update %s columns %v to %s of column types %v %v: expected to succeed: %v, got error: %v",
					showRow(mt.rows[i]), cols, showRow(vals), kct, ct, want, err)
			}
			rows.Close(bg)
			s.m.tables[mt.tid] = tmp
			mt = tmp
		}
		s.checkTable(mt.tid)
		mt = s.m.tables[mt.tid]
	}
	s.commit()
	s.verify()
}

var identPool = []string{"a", "A", "select", "SELECT", "int", "INT", "Int", "columns", "COLUMNS", "id", "name",
	"NAME", "Name", "path", "Path", "x y", "", "\"", "été", "ÉTÉ", "日本語", "count", "COUNT", "sum", "public", "private",
	"tables", "TABLES", "null", "NULL", "db", "table", "TABLE", "ſ", "K", "\x00", "\xff"}

// genIdentifier makes any identifier: ordinary, quoted, keyword, reserved or not.
func genIdentifier(t *Case) types.Identifier {
	switch t.IntN(4) {
	case 0:
		return types.ID(identPool[t.IntN(len(identPool))], true)
	case 1:
		return types.ID(identPool[t.IntN(len(identPool))], false)
	case 2:
		return types.ID(fmt.Sprintf("n%d", t.IntN(500)), t.IntN(2) == 0)
	default:
		n := 1 + t.IntN(12)
		if t.IntN(8) == 0 {
			n = 100 + t.IntN(100)
		}
		b := make([]rune, n)
		for i := range b {
			b[i] = []rune("abcXYZ_019 é日ß\"'.")[t.IntN(17)]
		}
		return types.ID(string(b), true)
	}
}
