package main

// C34: the engine and typed tables over a store whose calls fail.

import (
	"context"
	"errors"
	"fmt"
	"io"
	"reflect"
	"slices"
	"strings"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/evaluate"
	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/storage/basic"
	"github.com/leftmike/maho/types"
)

func init() {
	register(&Check{ID: "C34",
		Rule: "random operations of the engine, of sessions and of typed tables over a store wrapped so that each call it " +
			"makes fails in turn (before or after it took effect, alone or with every later call), or so that it honours the " +
			"context; distinct by operation, failing call and kind of failure",
		Run: func(c *Ctx) {
			c.Phase("databases", c.N(600, 12000), faultDatabases)
			c.Phase("transactions", c.N(1200, 24000), faultTransactions)
			c.Phase("init", c.N(160, 800), faultInit)
			c.Phase("sessions", c.N(600, 12000), faultSessions)
			c.Phase("typed", c.N(1500, 30000), faultTyped)
		}})
}

type ctxKey struct{}

// never is a context which could be cancelled but is not.
var never, _ = context.WithCancel(bg)

// A faultStore is a store which fails a call, and watches its transactions and scans.
type faultStore struct {
	storage.Store
	t *Case

	open   int // transactions
	scans  int
	calls  []string // since arm
	failAt int      // the call to fail; < 0 for none
	after  bool     // fail after the call took effect
	stay   bool     // every later call fails, too
	err    error
	fired  string // the call that failed
	mark   any    // the value calls must carry in their context, if any
	honour bool   // fail calls with the error of their context
}

func (fs *faultStore) arm(k int, after, stay bool, err error) {
	fs.calls, fs.failAt, fs.after, fs.stay, fs.err, fs.fired = nil, k, after, stay, err, ""
}

func (fs *faultStore) disarm() { fs.arm(-1, false, false, nil) }

// call runs a call; ends is for calls which end what they are called on even when they fail.
func (fs *faultStore) call(ctx context.Context, name string, fn func() error, ends func()) error {
	n := len(fs.calls)
	fs.calls = append(fs.calls, name)
	if ctx != nil && fs.mark != nil && ctx.Value(ctxKey{}) != fs.mark {
		fs.t.Failf("%s is called with another context than the operation's; calls %v", name, fs.calls)
	}
	if ctx != nil && fs.mark != nil && ctx.Done() == nil {
		fs.t.Failf("%s is called with a context which is not cancelled with the operation's; calls %v", name, fs.calls)
	}
	fs.t.Count("store calls observed", 1)
	if ctx != nil && fs.honour && ctx.Err() != nil {
		if fs.fired == "" {
			fs.fired = name
		}
		if ends != nil {
			ends()
		}
		return ctx.Err()
	}
	hit := n == fs.failAt || (fs.stay && fs.fired != "")
	if hit && !fs.after {
		if fs.fired == "" {
			fs.fired = name
		}
		if ends != nil {
			ends()
		}
		return fs.err
	}
	err := fn()
	if hit && (err == nil || err == io.EOF) {
		if fs.fired == "" {
			fs.fired = name
		}
		return fs.err
	}
	return err
}

// told says whether an error is, wraps, or at least quotes what the store said.
func (fs *faultStore) told(err error) bool {
	if err == nil {
		return false
	}
	return errors.Is(err, fs.err) || strings.Contains(err.Error(), fs.err.Error())
}

// wrote says whether a row was added or removed before the failing call.
func (fs *faultStore) wrote() bool {
	return fs.fired != "" && fs.failAt > 0 && (slices.Contains(fs.calls[:fs.failAt], "insert") ||
		slices.Contains(fs.calls[:fs.failAt], "delete"))
}

func (fs *faultStore) settled(what string) {
	if fs.open != 0 {
		fs.t.Failf("%s leaves a transaction of the store open; calls %v, failed %q", what, fs.calls, fs.fired)
	}
	fs.closed(what)
}

func (fs *faultStore) closed(what string) {
	if fs.scans != 0 {
		fs.t.Failf("%s leaves a scan of the store open; calls %v, failed %q", what, fs.calls, fs.fired)
	}
}

func (fs *faultStore) Begin() storage.Transaction {
	if fs.open != 0 {
		fs.t.Failf("a second transaction of the store is begun while one is open, which never returns; calls %v, failed %q",
			fs.calls, fs.fired)
	}
	fs.open++
	return &faultTx{Transaction: fs.Store.Begin(), fs: fs}
}

type faultTx struct {
	storage.Transaction
	fs   *faultStore
	done bool
}

func (tx *faultTx) end() {
	tx.done = true
	tx.fs.open--
}

var errFaultEnded = errors.New("the transaction has ended")

func (tx *faultTx) Store() storage.Store { return tx.fs }

func (tx *faultTx) Commit(ctx context.Context) error {
	if tx.done {
		return errFaultEnded
	}
	if tx.fs.scans != 0 {
		tx.fs.t.Failf("commit with a scan open; calls %v, failed %q", tx.fs.calls, tx.fs.fired)
	}
	tx.end()
	return tx.fs.call(ctx, "commit", func() error { return tx.Transaction.Commit(ctx) },
		func() { tx.Transaction.Rollback() })
}

func (tx *faultTx) Rollback() error {
	if tx.done {
		return errFaultEnded
	}
	tx.end()
	return tx.fs.call(nil, "rollback", tx.Transaction.Rollback, func() { tx.Transaction.Rollback() })
}

func (tx *faultTx) live(what string) {
	if tx.done {
		tx.fs.t.Failf("%s after the transaction ended; calls %v, failed %q", what, tx.fs.calls, tx.fs.fired)
	}
}

func (tx *faultTx) OpenTable(ctx context.Context, tid storage.TableId, tn types.TableName, colNames []types.Identifier,
	colTypes []types.ColumnType, primary []types.ColumnKey) (storage.Table, error) {

	tx.live("open table")
	var tbl storage.Table
	err := tx.fs.call(ctx, "open table", func() (err error) {
		tbl, err = tx.Transaction.OpenTable(ctx, tid, tn, colNames, colTypes, primary)
		return
	}, nil)
	if err != nil {
		return nil, err
	}
	return &faultTable{tbl, tx}, nil
}

func (tx *faultTx) CreateTable(ctx context.Context, tid storage.TableId, tn types.TableName, colNames []types.Identifier,
	colTypes []types.ColumnType, primary []types.ColumnKey) error {

	tx.live("create table")
	return tx.fs.call(ctx, "create table", func() error {
		return tx.Transaction.CreateTable(ctx, tid, tn, colNames, colTypes, primary)
	}, nil)
}

type faultTable struct {
	storage.Table
	tx *faultTx
}

func (tbl *faultTable) Rows(ctx context.Context, cols []types.ColumnNum, minRow, maxRow types.Row,
	pred storage.Predicate) (storage.Rows, error) {

	tbl.tx.live("rows")
	var rows storage.Rows
	err := tbl.tx.fs.call(ctx, "rows", func() (err error) {
		rows, err = tbl.Table.Rows(ctx, cols, minRow, maxRow, pred)
		if err == nil && tbl.tx.fs.after && len(tbl.tx.fs.calls)-1 == tbl.tx.fs.failAt {
			rows.Close(ctx)
		}
		return
	}, nil)
	if err != nil {
		return nil, err
	}
	tbl.tx.fs.scans++
	return &faultRows{rows, tbl.tx, false}, nil
}

func (tbl *faultTable) Insert(ctx context.Context, rows []types.Row) error {
	tbl.tx.live("insert")
	return tbl.tx.fs.call(ctx, "insert", func() error { return tbl.Table.Insert(ctx, rows) }, nil)
}

type faultRows struct {
	storage.Rows
	tx     *faultTx
	closed bool
}

func (r *faultRows) Next(ctx context.Context) (types.Row, error) {
	if r.closed {
		r.tx.fs.t.Failf("next after close")
	}
	var row types.Row
	err := r.tx.fs.call(ctx, "next", func() (err error) {
		row, err = r.Rows.Next(ctx)
		return
	}, nil)
	if err != nil {
		return nil, err
	}
	return row, nil
}

func (r *faultRows) Current() (storage.RowRef, error) {
	var rr storage.RowRef
	err := r.tx.fs.call(nil, "current", func() (err error) {
		rr, err = r.Rows.Current()
		return
	}, nil)
	if err != nil {
		return nil, err
	}
	return &faultRef{rr, r.tx}, nil
}

// Close doesn't fail: nothing is said about what a failing close does.
func (r *faultRows) Close(ctx context.Context) error {
	if !r.closed {
		r.closed = true
		r.tx.fs.scans--
	}
	return r.Rows.Close(ctx)
}

type faultRef struct {
	storage.RowRef
	tx *faultTx
}

func (rr *faultRef) Update(ctx context.Context, cols []types.ColumnNum, vals []types.Value) error {
	return rr.tx.fs.call(ctx, "update", func() error { return rr.RowRef.Update(ctx, cols, vals) }, nil)
}

func (rr *faultRef) Delete(ctx context.Context) error {
	return rr.tx.fs.call(ctx, "delete", func() error { return rr.RowRef.Delete(ctx) }, nil)
}

func newFaultStore(t *Case) *faultStore {
	st, err := basic.NewStore("")
	if err != nil {
		t.Failf("NewStore: %s", err)
	}
	fs := &faultStore{Store: st, t: t}
	fs.disarm()
	return fs
}

type faultError struct{ n int }

func (e *faultError) Error() string { return fmt.Sprintf("the disk of store %d is on fire", e.n) }

func genFault(t *Case) error {
	switch t.IntN(8) {
	case 0:
		return context.Canceled
	case 4:
		// Not the one that says that there are no more rows.
		return errors.New("EOF")
	case 3:
		return fmt.Errorf("the file ends too early: %s", io.EOF)
	case 1:
		return io.ErrUnexpectedEOF
	case 2:
		return io.ErrClosedPipe
	}
	return &faultError{t.IntN(1000)}
}

// ---------------------------------------------------------------- catalog operations

// A faultOp is an operation; run leaves what it found in got.
type faultOp struct {
	desc    string
	run     func() error
	want    bool   // succeeds when no call fails
	apply   func() // changes the model as a success does
	lenient bool   // may do without a call that failed
	got     []types.Identifier
	list    []string // what got must be after a success
}

type faultSim struct {
	*catSim
	fs  *faultStore
	ctx context.Context
}

func newFaultSim(t *Case) *faultSim {
	fs := newFaultStore(t)
	if err := engine.Init(fs); err != nil {
		t.Failf("Init: %s", err)
	}
	fs.settled("Init")
	s := &faultSim{&catSim{Case: t, st: fs, eng: engine.NewEngine(fs), committed: newCatalog()}, fs, bg}
	s.names = []string{"a", "b", "c", "d1", "public", "Maho"}
	t.Shuffle(len(s.names), func(i, j int) { s.names[i], s.names[j] = s.names[j], s.names[i] })
	s.names = s.names[:3+t.IntN(3)]
	for n := t.IntN(6); n > 0; n-- {
		s.outside()
	}
	s.tx = s.eng.Begin()
	s.m = s.committed.clone()
	for n := t.IntN(10); n > 0; n-- {
		s.inside()
	}
	if err := s.tx.Commit(bg); err != nil {
		t.Failf("commit: %s", err)
	}
	s.committed = s.m
	fs.settled("filling the catalog")
	return s
}

// verify compares everything there is with the model, in a transaction of its own.
func (s *faultSim) verify(when string) {
	s.fs.disarm()
	s.fs.settled(when)
	s.Logf("verify: %s", when)
	s.listDatabases()
	s.tx = s.eng.Begin()
	s.m = s.committed.clone()
	s.checkAll()
	if err := s.tx.Commit(bg); err != nil {
		s.Failf("commit: %s", err)
	}
	s.fs.settled("looking at the catalog")
	s.Count("catalogs compared", 1)
}

func (s *faultSim) dbOp() *faultOp {
	c := s.committed
	for {
		switch s.IntN(3) {
		case 0:
			d := s.name()
			if c.gone[d] {
				continue
			}
			return &faultOp{
				desc: fmt.Sprintf("create database %q", d),
				run:  func() error { return s.eng.CreateDatabase(plainID(d), nil) },
				want: !c.dbs[d],
				apply: func() {
					c.dbs[d] = true
					if c.schemas[d] == nil {
						c.schemas[d] = map[string]bool{}
					}
				},
			}
		case 1:
			d, ife := s.db(), s.IntN(2) == 0
			if c.gone[d] || d == "system" || d == "maho" {
				continue
			}
			return &faultOp{
				desc: fmt.Sprintf("drop database %q if exists %t", d, ife),
				run:  func() error { return s.eng.DropDatabase(plainID(d), ife) },
				want: c.dbs[d] || ife,
				apply: func() {
					if c.dbs[d] {
						delete(c.dbs, d)
						if len(c.schemas[d]) > 0 {
							c.gone[d] = true
						}
					}
				},
			}
		default:
			op := &faultOp{desc: "list databases", want: true, apply: func() {}, list: sortedKeys(c.dbs)}
			op.run = func() (err error) {
				op.got, err = s.eng.ListDatabases()
				return
			}
			return op
		}
	}
}

func (s *faultSim) txOp() *faultOp {
	m := s.m
	schema := func() (string, string) {
		d, n := s.db(), s.name()
		if s.IntN(4) > 0 && len(m.schemas[d]) > 0 {
			ks := sortedKeys(m.schemas[d])
			n = ks[s.IntN(len(ks))]
		}
		return d, n
	}
	for {
		d, n := schema()
		sn := types.SchemaName{Database: plainID(d), Schema: plainID(n)}
		if m.gone[d] || m.goneS[sn] || d == "system" {
			continue
		}
		switch s.IntN(6) {
		case 0:
			return &faultOp{
				desc:  fmt.Sprintf("create schema %q.%q", d, n),
				run:   func() error { return s.tx.CreateSchema(s.ctx, sn) },
				want:  m.dbs[d] && !m.schemas[d][n],
				apply: func() { m.schemas[d][n] = true },
			}
		case 1:
			ife := s.IntN(2) == 0
			return &faultOp{
				desc: fmt.Sprintf("drop schema %q.%q if exists %t", d, n, ife),
				run:  func() error { return s.tx.DropSchema(s.ctx, sn, ife) },
				want: m.schemas[d][n] || ife,
				apply: func() {
					for tn := range m.tables {
						if tn.SchemaName() == sn {
							m.goneS[sn] = true
						}
					}
					delete(m.schemas[d], n)
				},
			}
		case 2:
			op := &faultOp{desc: fmt.Sprintf("list schemas of %q", d), want: m.dbs[d], apply: func() {},
				list: sortedKeys(m.schemas[d])}
			op.run = func() (err error) {
				op.got, err = s.tx.ListSchemas(s.ctx, plainID(d))
				return
			}
			return op
		case 3, 4:
			tn := types.TableName{Database: plainID(d), Schema: plainID(n), Table: plainID(s.name())}
			_, exists := m.tables[tn]
			def := genEngDef(s.Case, 1+s.IntN(3))
			return &faultOp{
				desc: fmt.Sprintf("create table %s", tn),
				run: func() error {
					a := def.copy()
					return s.tx.CreateTable(s.ctx, tn, a.names, a.cts, a.key)
				},
				want: m.schemas[d][n] && !exists,
				apply: func() {
					s.fs.disarm()
					tbl, err := s.tx.OpenTable(s.ctx, tn)
					if err != nil {
						s.Failf("open table %s, just created: %s", tn, err)
					}
					m.tables[tn] = catTable{def, tbl.TableId()}
				},
			}
		default:
			tn := types.TableName{Database: plainID(d), Schema: plainID(n), Table: plainID(s.name())}
			for o := range m.tables {
				if o.SchemaName() == sn {
					tn = o
					break
				}
			}
			ct, exists := m.tables[tn]
			return &faultOp{
				desc: fmt.Sprintf("open table %s", tn),
				run: func() error {
					tbl, err := s.tx.OpenTable(s.ctx, tn)
					if err == nil {
						if diff := ct.def.same(tbl.Type()); diff != "" || tbl.TableId() != ct.tid {
							s.Failf("table %s was created as %d with %s and has id %d and %s", tn, ct.tid, ct.def,
								tbl.TableId(), diff)
						}
					}
					return err
				},
				want: exists, apply: func() {},
			}
		}
	}
}

// attempt runs the operation with the k-th call failing. It returns false if the operation made
// no such call, and checks what the operation says then.
func (s *faultSim) attempt(op *faultOp, k int, after, stay bool) bool {
	fault := genFault(s.Case)
	s.fs.arm(k, after, stay, fault)
	op.got = nil
	err := op.run()
	s.Logf("%s with call %d failing, after %t, stay %t: calls %v: error %v", op.desc, k, after, stay, s.fs.calls, err)
	fired := s.fs.fired
	if fired == "" {
		s.fs.disarm()
		if (err == nil) != op.want {
			s.Failf("%s: error %v; expected success %t", op.desc, err, op.want)
		}
		if err == nil && op.list != nil && !slices.Equal(idNames(op.got), op.list) {
			s.Failf("%s: got %q, want %q", op.desc, idNames(op.got), op.list)
		}
		return false
	}
	if op.lenient && err == nil {
		// It went on after the failure, and succeeded: then it has done what it says.
		s.fs.disarm()
		if !op.want {
			s.Failf("%s succeeds, after %s failed with %v", op.desc, fired, fault)
		}
		s.Count("statements that went on", 1)
		return false
	}
	// What made the operation roll back may be reported rather than that the rollback failed.
	if err == nil || (!s.fs.told(err) && fired != "rollback" && !op.lenient) {
		s.Failf("%s returns %v although %s failed with %v; calls %v", op.desc, err, fired, fault, s.fs.calls)
	}
	if len(op.got) != 0 {
		s.Failf("%s returns %q together with %v", op.desc, idNames(op.got), err)
	}
	kind, _, _ := strings.Cut(op.desc, "\"")
	s.Distinct(fmt.Sprint(kind, s.fs.calls[:k+1], after, stay))
	s.Seen("places of failures", fmt.Sprint(kind, s.fs.calls[:k+1]))
	s.Count("failures injected", 1)
	return true
}

func faultDatabases(t *Case) {
	s := newFaultSim(t)
	for n := 0; n < 4; n++ {
		op := s.dbOp()
		stay := t.IntN(3) == 0
		k := 0
		for ; s.attempt(op, k, false, stay); k++ {
			s.verify(fmt.Sprintf("%s, whose call %d failed", op.desc, k))
		}
		// The last attempt had no failure.
		if op.want {
			op.apply()
		}
		s.verify(op.desc)

		// Failures after the call took effect.
		op = s.dbOp()
		for k := 0; s.attempt(op, k, true, false); k++ {
			if s.fs.fired == "commit" {
				op.apply()
				op = nil
				break
			}
			s.verify(fmt.Sprintf("%s, whose call %d failed", op.desc, k))
		}
		if op != nil && op.want {
			op.apply()
		}
		s.verify("after failures that took effect")
	}
	t.Sample("%s", s.committed)
}

func faultTransactions(t *Case) {
	s := newFaultSim(t)
	for n := 0; n < 3; n++ {
		mark := t.Int()
		s.ctx = context.WithValue(never, ctxKey{}, mark)
		s.fs.disarm()
		s.fs.mark = nil
		s.tx = s.eng.Begin()
		s.m = s.committed.clone()
		torn := false // something unknown happened in the transaction
		for o := t.IntN(5); o >= 0 && !torn; o-- {
			op := s.txOp()
			s.fs.mark = mark
			switch t.IntN(4) {
			case 0, 1:
				stay := t.IntN(3) == 0
				for k := 0; s.attempt(op, k, false, stay); k++ {
					s.fs.closed(op.desc)
					if s.fs.open != 1 {
						t.Failf("%s, which fails, ends the caller's transaction", op.desc)
					}
					if s.fs.wrote() {
						// It failed after its change was made: nothing says that is undone before rollback.
						torn = true
						break
					}
					if t.IntN(4) == 0 {
						s.fs.disarm()
						s.fs.mark = nil
						s.checkAll()
						s.fs.mark = mark
					}
				}
				if op.want && !torn {
					op.apply()
				}
			case 2:
				// A call fails after it took effect: the transaction must be rolled back.
				for k := t.IntN(8); k >= 0; k-- {
					if s.attempt(op, k, true, false) {
						s.fs.closed(op.desc)
						torn = true
						break
					}
					if op.want {
						op.apply()
					}
					op = s.txOp()
				}
			case 3:
				// A store which looks at the context.
				ctx, cancel := context.WithCancel(s.ctx)
				cancel()
				was := s.ctx
				s.ctx = ctx
				s.fs.disarm()
				s.fs.honour = true
				s.fs.err = context.Canceled
				err := op.run()
				s.Logf("%s with a cancelled context: %v", op.desc, err)
				if !s.fs.told(err) {
					t.Failf("%s with a cancelled context returns %v", op.desc, err)
				}
				s.fs.honour = false
				s.ctx = was
				s.Count("operations with a cancelled context", 1)
			}
			if s.fs.open != 1 {
				t.Failf("%s ends the caller's transaction", op.desc)
			}
			s.fs.closed(op.desc)
		}
		s.fs.disarm()
		s.fs.mark = nil
		if !torn {
			s.checkAll()
		}
		what := "commit"
		var err error
		fault := genFault(t)
		ended := t.IntN(8)
		if torn {
			ended = t.IntN(2)
		}
		s.fs.disarm()
		switch ended {
		case 0:
			what = "rollback"
			err = s.tx.Rollback()
		case 1:
			what = "failing rollback"
			s.fs.arm(0, t.IntN(2) == 0, false, fault)
			if err = s.tx.Rollback(); !s.fs.told(err) {
				t.Failf("rollback returns %v although the store's failed with %v", err, fault)
			}
			err = nil
		case 2:
			what = "commit failing before it took effect"
			s.fs.mark = mark
			s.fs.arm(0, false, false, fault)
			if err = s.tx.Commit(s.ctx); !s.fs.told(err) {
				t.Failf("commit returns %v although the store's failed with %v", err, fault)
			}
			err = nil
		case 3:
			what = "commit failing after it took effect"
			s.fs.mark = mark
			s.fs.arm(0, true, false, fault)
			if err = s.tx.Commit(s.ctx); !s.fs.told(err) {
				t.Failf("commit returns %v although the store's failed with %v", err, fault)
			}
			err = nil
			s.committed = s.m
		case 4:
			what = "commit with a cancelled context"
			ctx, cancel := context.WithCancel(s.ctx)
			cancel()
			s.fs.honour = true
			s.fs.err = context.Canceled
			if err = s.tx.Commit(ctx); !s.fs.told(err) {
				t.Failf("commit with a cancelled context returns %v", err)
			}
			s.fs.honour = false
			err = nil
		default:
			s.fs.mark = mark
			err = s.tx.Commit(s.ctx)
			s.committed = s.m
		}
		s.fs.mark = nil
		s.Logf("%s: %v", what, err)
		if err != nil {
			t.Failf("%s: %s", what, err)
		}
		t.Count(what, 1)
		s.verify(what)
	}
	t.Sample("%s", s.committed)
}

func faultInit(t *Case) {
	fs := newFaultStore(t)
	after := t.IntN(3) == 0
	stay := !after && t.IntN(3) == 0
	k := 0
	for ; ; k++ {
		fault := genFault(t)
		fs.arm(k, after, stay, fault)
		err := engine.Init(fs)
		t.Logf("Init with call %d failing, after %t: calls %v: %v", k, after, fs.calls, err)
		fs.settled("Init")
		if fs.fired == "" {
			if err != nil {
				t.Failf("Init, after a failed one: %s", err)
			}
			break
		}
		if !fs.told(err) {
			t.Failf("Init returns %v although %s failed with %v; calls %v", err, fs.fired, fault, fs.calls)
		}
		t.Distinct(fmt.Sprint(fs.calls[:k+1], after, stay))
		t.Count("failures injected", 1)
		if after && fs.fired == "commit" {
			break
		}
	}
	if k < 5 {
		t.Failf("Init made %d calls on its store: %v", k, fs.calls)
	}
	fs.disarm()
	s := &faultSim{&catSim{Case: t, st: fs, eng: engine.NewEngine(fs), committed: newCatalog()}, fs, bg}
	s.names = []string{"a", "b", "public", "maho"}
	s.verify("Init")
	for n := 0; n < 3; n++ {
		s.outside()
	}
	s.verify("some databases")
	t.Sample("Init: %d calls failed in turn, after %t", k, after)
}

// ---------------------------------------------------------------- sessions

func faultSessions(t *Case) {
	s := newFaultSim(t)
	ses := evaluate.NewSession(s.eng, types.MAHO, types.PUBLIC)
	eval := func(text string, ctx context.Context) error {
		stmt, err := parser.NewParser(strings.NewReader(text), "src").Parse()
		if err != nil {
			t.Failf("parse %s: %s", text, err)
		}
		return ses.Evaluate(ctx, stmt)
	}
	q := func(name string) string { return "\"" + name + "\"" }
	for n := 0; n < 6; n++ {
		mark := t.Int()
		s.ctx = context.WithValue(never, ctxKey{}, mark)
		s.m = s.committed.clone()
		op := s.sessionOp(q, eval)
		before := s.committed
		explicit := !strings.Contains(op.desc, "DATABASE") && t.IntN(3) == 0
		s.fs.disarm()
		stay := t.IntN(3) == 0
		if explicit {
			if err := eval("BEGIN", s.ctx); err != nil {
				t.Failf("begin: %s", err)
			}
		}
		if !strings.Contains(op.desc, "DATABASE") {
			s.fs.mark = mark
		}
		after := t.IntN(4) == 0
		k := 0
		torn := false
		for ; s.attempt(op, k, after, stay); k++ {
			if explicit {
				if s.fs.open != 1 {
					t.Failf("%s, which fails, ends the session's transaction", op.desc)
				}
				s.fs.closed(op.desc)
				if after || s.fs.wrote() {
					torn = true
					break
				}
				continue
			}
			if after && s.fs.calls[k] == "commit" {
				torn = true
				break
			}
			m := s.fs.mark
			s.fs.mark = nil
			s.verify(fmt.Sprintf("%s, whose call %d failed", op.desc, k))
			s.fs.mark = m
		}
		s.fs.disarm()
		s.m = s.committed.clone()
		s.fs.mark = nil
		if explicit {
			fault := genFault(t)
			end := "COMMIT"
			if torn || t.IntN(3) == 0 {
				end = "ROLLBACK"
			}
			fails := t.IntN(3) == 0
			if fails {
				s.fs.arm(0, false, false, fault)
			}
			err := eval(end, s.ctx)
			if fails != (err != nil) || (fails && !s.fs.told(err)) {
				t.Failf("%s: error %v; the store's failed: %t %v", end, err, fails, fault)
			}
			s.fs.disarm()
			// The transaction has ended, whether or not the store said so.
			if err := eval("ROLLBACK", s.ctx); err == nil {
				t.Failf("rollback without a transaction succeeds, after %s: %v", end, err)
			}
			s.committed = before
			if end == "COMMIT" && !fails && op.want {
				s.adopt(op)
			}
		} else if op.want {
			s.adopt(op)
		}
		s.verify(op.desc)
		t.Count("session statements", 1)
	}
	t.Sample("%s", s.committed)
}

// adopt changes the committed catalog as the statement did.
func (s *faultSim) adopt(op *faultOp) {
	s.fs.disarm()
	s.m = s.committed
	s.tx = s.eng.Begin()
	op.apply()
	if err := s.tx.Commit(bg); err != nil {
		s.Failf("commit: %s", err)
	}
}

// sessionOp makes an operation which is a statement.
func (s *faultSim) sessionOp(q func(string) string, eval func(string, context.Context) error) *faultOp {
	c := s.committed
	for {
		d, n := s.db(), s.name()
		if s.IntN(3) > 0 && len(c.schemas[d]) > 0 {
			ks := sortedKeys(c.schemas[d])
			n = ks[s.IntN(len(ks))]
		}
		sn := types.SchemaName{Database: plainID(d), Schema: plainID(n)}
		if c.gone[d] || c.goneS[sn] || d == "system" {
			continue
		}
		var op *faultOp
		var text string
		ife := s.IntN(2) == 0
		ifex := ""
		if ife {
			ifex = "IF EXISTS "
		}
		switch s.IntN(5) {
		case 0:
			text = "CREATE DATABASE " + q(n)
			if c.gone[n] {
				continue
			}
			op = &faultOp{want: !c.dbs[n], apply: func() {
				s.m.dbs[n] = true
				if s.m.schemas[n] == nil {
					s.m.schemas[n] = map[string]bool{}
				}
			}}
		case 1:
			if d == "maho" {
				continue
			}
			text = "DROP DATABASE " + ifex + q(d)
			op = &faultOp{want: c.dbs[d] || ife, apply: func() {
				if s.m.dbs[d] {
					delete(s.m.dbs, d)
					if len(s.m.schemas[d]) > 0 {
						s.m.gone[d] = true
					}
				}
			}}
		case 2:
			text = "CREATE SCHEMA " + q(d) + "." + q(n)
			op = &faultOp{want: c.dbs[d] && !c.schemas[d][n], apply: func() { s.m.schemas[d][n] = true }}
		case 3:
			text = "DROP SCHEMA " + ifex + q(d) + "." + q(n)
			op = &faultOp{want: c.schemas[d][n] || ife, apply: func() {
				for tn := range s.m.tables {
					if tn.SchemaName() == sn {
						s.m.goneS[sn] = true
					}
				}
				delete(s.m.schemas[d], n)
			}}
		default:
			tn := types.TableName{Database: plainID(d), Schema: plainID(n), Table: plainID(s.name())}
			_, exists := c.tables[tn]
			text = fmt.Sprintf("CREATE TABLE %s.%s.%s (c1 INT, c2 TEXT, PRIMARY KEY (c1))", q(d), q(n), q(tn.Table.String()))
			// It looks whether the table exists first, and the creation finds out anyway.
			op = &faultOp{lenient: true, want: c.schemas[d][n] && !exists, apply: func() {
				tbl, err := s.tx.OpenTable(bg, tn)
				if err != nil {
					s.Failf("open table %s, just created: %s", tn, err)
				}
				tt := tbl.Type()
				s.m.tables[tn] = catTable{engDef{tt.ColumnNames, tt.ColumnTypes, tt.Key}, tbl.TableId()}
			}}
		}
		op.desc = text
		op.run = func() error { return eval(text, s.ctx) }
		return op
	}
}

// ---------------------------------------------------------------- typed tables

func faultTyped(t *Case) {
	d := genTypedDef(t, 1+t.IntN(4), typedKinds)
	tid := storage.TableId(16 + t.IntN(1000))
	tn := types.TableName{Database: types.MAHO, Schema: types.PUBLIC, Table: plainID("typed")}
	t.Logf("%s", d)
	ti := engine.MakeTypedInfo(tid, tn, reflect.New(d.typ).Interface())
	s := &typedSim{Case: t, d: d, ti: ti, m: &mtable{tid: tid, tn: tn, key: d.key}}
	for _, f := range d.flds {
		s.m.colTypes = append(s.m.colTypes, f.ct)
	}
	fs := newFaultStore(t)
	mark := t.Int()
	ctx := context.WithValue(never, ctxKey{}, mark)

	check := func(what string, fault, err error) {
		fs.closed(what)
		if fs.open != 1 {
			t.Failf("%s ends the caller's transaction; calls %v", what, fs.calls)
		}
		if fs.fired != "" {
			if !fs.told(err) {
				t.Failf("%s returns %v although %s failed with %v; calls %v", what, err, fs.fired, fault, fs.calls)
			}
			t.Distinct(fmt.Sprint(what, fs.calls, len(d.flds)))
			t.Seen("places of failures", fmt.Sprint(what, fs.calls))
			t.Count("failures injected", 1)
		}
	}
	calm := func() {
		fs.disarm()
		fs.mark = nil
		s.checkAll()
		fs.mark = mark
	}

	tx := fs.Begin()
	fs.mark = mark
	fault := genFault(t)
	fs.arm(0, false, false, fault)
	err := engine.CreateTypedTable(ctx, tx, ti)
	if fs.fired == "" {
		t.Failf("CreateTypedTable made no call on the transaction")
	}
	check("create", fault, err)
	fs.disarm()
	if err := engine.CreateTypedTable(ctx, tx, ti); err != nil {
		t.Failf("create: %s", err)
	}
	s.tx = tx
	fs.mark = nil
	for n := 1 + t.IntN(3); n > 0; n-- {
		s.insert()
	}
	fs.mark = mark

	for n := 0; n < 5; n++ {
		stay := t.IntN(3) == 0
		what := []string{"insert", "lookup", "select", "update", "delete"}[t.IntN(5)]
		for k := 0; ; k++ {
			fault := genFault(t)
			lo, hi, want := s.rng()
			fs.arm(k, false, stay, fault)
			var err error
			ended := true
			switch what {
			case "insert":
				var rows []types.Row
				var structs []any
				for n := t.IntN(3); n >= 0; n-- {
					rows = append(rows, s.d.genRow(t))
					structs = append(structs, s.d.makeStruct(t, rows[len(rows)-1]))
				}
				err = engine.TypedTableInsert(ctx, tx, ti, structs...)
				if fs.fired == "" {
					ok := true
					for _, r := range rows {
						if s.m.find(r) >= 0 {
							ok = false
							break
						}
						s.m.rows = append(s.m.rows, copyRow(r))
						s.m.ids = append(s.m.ids, 0)
					}
					if ok != (err == nil) {
						t.Failf("insert %s: error %v; expected success %t", showRows(rows), err, ok)
					}
				}
			case "lookup":
				row := s.nearRow()
				err = engine.TypedTableLookup(ctx, tx, ti, s.d.makeStruct(t, row))
				if fs.fired == "" {
					if i := s.m.find(row); (i >= 0) != (err == nil) || (err != nil && err != io.EOF) {
						t.Failf("lookup of %s: %v; it is row %d of the table", showRow(row), err, i)
					}
				}
			case "select":
				visits := 0
				err = engine.TypedTableSelect(ctx, tx, ti, lo, hi, func(row types.Row) error {
					ended = ended && fs.fired == ""
					if visits < len(want) && !identicalRows(row, want[visits]) {
						t.Failf("select visits %s; expected %s", showRow(row), showRow(want[visits]))
					}
					visits++
					return nil
				})
				if fs.fired == "" && (err != nil || visits != len(want)) {
					t.Failf("select visits %d rows of %s: error %v", visits, showRows(want), err)
				}
			case "update", "delete":
				// What the callback asked for last is done once the walk goes on without an error.
				pending := func() {}
				settle := func() {
					pending()
					pending = func() {}
				}
				visits := 0
				collided := false
				visit := func(row types.Row) {
					settle()
					ended = ended && fs.fired == ""
					if visits < len(want) && !identicalRows(row, want[visits]) {
						t.Failf("%s visits %s; expected %s", what, showRow(row), showRow(want[visits]))
					}
					visits++
				}
				if what == "delete" {
					err = engine.TypedTableDelete(ctx, tx, ti, lo, hi, func(row types.Row) (bool, error) {
						visit(row)
						if t.IntN(3) == 0 {
							return false, nil
						}
						r := copyRow(row)
						pending = func() { s.m.remove(s.m.find(r)) }
						return true, nil
					})
				} else {
					cols, typ := s.updType()
					err = engine.TypedTableUpdate(ctx, tx, ti, lo, hi, func(row types.Row) (any, error) {
						visit(row)
						if t.IntN(3) == 0 {
							return nil, nil
						}
						i := s.m.find(row)
						nr := copyRow(s.m.rows[i])
						p := reflect.New(typ)
						for j, c := range cols {
							nr[c] = genFieldValue(t, s.d.flds[c])
							setField(t, s.d.flds[c], p.Elem().Field(j), nr[c])
						}
						if o := s.m.find(nr); o >= 0 && o != i {
							collided = true
						}
						pending = func() { s.m.rows[i] = nr }
						return p.Interface(), nil
					})
				}
				if fs.fired == "" {
					if collided != (err != nil) || (err == nil && visits != len(want)) {
						t.Failf("%s visits %d rows of %s: error %v, collision %t", what, visits, showRows(want), err, collided)
					}
					if err == nil {
						settle()
					}
				} else if fs.fired == "next" {
					settle()
				}
			}
			t.Logf("%s with call %d failing, stay %t: calls %v: %v", what, k, stay, fs.calls, err)
			if !ended {
				t.Failf("%s visits a row after %s failed; calls %v", what, fs.fired, fs.calls)
			}
			check(what, fault, err)
			fired := fs.fired
			calm()
			if fired == "" || k > 40 {
				break
			}
		}
	}
	fs.disarm()
	fs.mark = mark
	if err := tx.Commit(ctx); err != nil {
		t.Failf("commit: %s", err)
	}
	t.Sample("%s with %s", d, showRows(s.m.sorted()))
}
