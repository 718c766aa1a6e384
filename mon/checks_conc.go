package main

// C01 and C14: concurrent transactions of one store and concurrent use of identifiers. The worker
// for these is built with the race detector; a report of it ends the worker and is a violation.

import (
	"fmt"
	"io"
	"math/rand/v2"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"

	"github.com/leftmike/maho/storage"
	"github.com/leftmike/maho/storage/basic"
	"github.com/leftmike/maho/types"
)

func init() {
	register(&Check{ID: "C01",
		Rule: "each case runs 2 to 8 goroutines of short transactions on one store, with yields and delays between the " +
			"calls, records every transaction with what it read and wrote (values are unique) and its times at the " +
			"client, and asks porcupine for an order consistent with real time; distinct by the order of commits and " +
			"what was read",
		Run: func(c *Ctx) {
			c.Phase("held", len(holdTimes(c)), func(t *Case) { concRegisters(t, 3+t.IntN(4), holdTimes(c)[t.index]) })
			c.Phase("overtaken", len(holdTimes(c)), func(t *Case) { concHeld(t, holdTimes(c)[t.index]) })
			c.Phase("long", c.N(2, 8), func(t *Case) { concRegisters(t, 400, 0) })
			c.Phase("registers", c.N(480, 8000), func(t *Case) { concRegisters(t, 3+t.IntN(8), 0) })
			c.Phase("catalog", c.N(240, 4000), concCatalog)
			c.Phase("transfers", c.N(240, 4000), concTransfers)
		}})
	register(&Check{ID: "C14",
		Rule: "each case runs up to 8 goroutines over fresh names (each first used by many goroutines at once), creating, " +
			"looking up, printing, encoding and decoding; distinct by the name-to-identifier assignment order",
		Run: func(c *Ctx) {
			c.Phase("storm", c.N(600, 10000), identStorm)
			c.Phase("handoff", c.N(300, 4000), identHandoff)
		}})
}

// holdTimes are how long one transaction stays open while others wait to begin.
func holdTimes(c *Ctx) []time.Duration {
	return []time.Duration{300 * time.Millisecond, 1200 * time.Millisecond, 3500 * time.Millisecond,
		12 * time.Second, 35 * time.Second, 65 * time.Second}[:c.N(4, 6)]
}

// jitter yields or delays, so that the interleavings vary.
func jitter(r *rand.Rand) {
	switch r.IntN(10) {
	case 0, 1, 2:
		runtime.Gosched()
	case 3:
		time.Sleep(time.Duration(r.IntN(50)) * time.Microsecond)
	case 4:
		for n := r.IntN(5); n > 0; n-- {
			runtime.Gosched()
		}
	}
}

// clock gives strictly increasing times.
type clock struct{ n atomic.Int64 }

func (c *clock) now() int64 { return c.n.Add(1) }

// guard collects the first failure of concurrent goroutines.
type guard struct {
	mu   sync.Mutex
	msg  string
	died bool
}

func (g *guard) failf(format string, args ...any) {
	g.mu.Lock()
	defer g.mu.Unlock()
	if g.msg == "" {
		g.msg = fmt.Sprintf(format, args...)
	}
}

func (g *guard) run(wg *sync.WaitGroup, fn func()) {
	wg.Add(1)
	go func() {
		defer wg.Done()
		defer func() {
			if p := recover(); p != nil {
				buf := make([]byte, 8192)
				g.failf("panic: %v\n%s", p, buf[:runtime.Stack(buf, false)])
				g.mu.Lock()
				g.died = true
				g.mu.Unlock()
			}
		}()
		fn()
	}()
}

// wait for the goroutines; but not for those which one that has panicked leaves waiting.
func (g *guard) wait(t *Case, wg *sync.WaitGroup) {
	done := make(chan struct{})
	go func() {
		wg.Wait()
		close(done)
	}()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	for grace := 6; ; {
		select {
		case <-done:
			g.check(t)
			return
		case <-tick.C:
		}
		g.mu.Lock()
		died := g.died
		g.mu.Unlock()
		if died {
			if grace--; grace == 0 {
				g.check(t)
			}
		}
	}
}

func (g *guard) check(t *Case) {
	g.mu.Lock()
	msg := g.msg
	g.mu.Unlock()
	if msg != "" {
		t.Failf("%s", msg)
	}
}

// txnEvent is one transaction as its client saw it: a list of reads of the whole state and
// writes, in order.
type txnEvent struct {
	steps     []txnStep
	committed bool
}

type txnStep struct {
	read  bool
	state string // read: the state seen
	del   bool
	key   int
	val   int64 // write
}

func stateString(m map[int]int64) string {
	var ks []int
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	var sb strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&sb, "%d=%d ", k, m[k])
	}
	return sb.String()
}

func parseState(s string) map[int]int64 {
	m := map[int]int64{}
	for _, f := range strings.Fields(s) {
		var k int
		var v int64
		fmt.Sscanf(f, "%d=%d", &k, &v)
		m[k] = v
	}
	return m
}

var txnModel = porcupine.Model{
	Init: func() any { return "" },
	Step: func(st, in, out any) (bool, any) {
		ev := in.(*txnEvent)
		cur := st.(string)
		var m map[int]int64
		for _, sp := range ev.steps {
			if sp.read {
				if sp.state != cur {
					return false, st
				}
				continue
			}
			if m == nil {
				m = parseState(cur)
			}
			if sp.del {
				delete(m, sp.key)
			} else {
				m[sp.key] = sp.val
			}
			cur = stateString(m)
		}
		if !ev.committed {
			return true, st
		}
		return true, cur
	},
}

var concDef = struct {
	tn    types.TableName
	names []types.Identifier
	cts   []types.ColumnType
	key   []types.ColumnKey
}{
	types.TableName{Database: types.ID("db", true), Schema: types.ID("sc", true), Table: types.ID("reg", true)},
	[]types.Identifier{types.ID("k", true), types.ID("v", true)},
	[]types.ColumnType{types.Int64ColType, types.Int64ColType},
	[]types.ColumnKey{types.MakeColumnKey(0, false)},
}

func concOpen(tx storage.Transaction, tid storage.TableId) storage.Table {
	tbl, err := tx.OpenTable(bg, tid, concDef.tn, concDef.names, concDef.cts, concDef.key)
	if err != nil {
		panic(fmt.Sprintf("open table: %s", err))
	}
	return tbl
}

func concCreate(tx storage.Transaction, tid storage.TableId) {
	if err := tx.CreateTable(bg, tid, concDef.tn, concDef.names, concDef.cts, concDef.key); err != nil {
		panic(fmt.Sprintf("create table: %s", err))
	}
}

// concRead reads the whole table; each row is handed to visit, if there is one, as current row.
func concRead(r *rand.Rand, tbl storage.Table, visit func(k int, v int64, rows storage.Rows)) map[int]int64 {
	rows, err := tbl.Rows(bg, nil, nil, nil, nil)
	if err != nil {
		panic(fmt.Sprintf("scan: %s", err))
	}
	m := map[int]int64{}
	last := -1
	for {
		row, err := rows.Next(bg)
		if err == io.EOF {
			break
		} else if err != nil {
			panic(fmt.Sprintf("next: %s", err))
		}
		k, v := int(row[0].(types.Int64Value)), int64(row[1].(types.Int64Value))
		if k <= last {
			panic(fmt.Sprintf("scan out of order: %d after %d", k, last))
		}
		last = k
		m[k] = v
		if visit != nil {
			visit(k, v, rows)
		}
		if r.IntN(4) == 0 {
			jitter(r)
		}
	}
	if err := rows.Close(bg); err != nil {
		panic(fmt.Sprintf("close: %s", err))
	}
	return m
}

// concTxn runs one transaction of a client and records it.
func concTxn(r *rand.Rand, st storage.Store, tid storage.TableId, uniq func() int64, readOnly bool,
	hold time.Duration) *txnEvent {

	ev := &txnEvent{}
	tx := st.Begin()
	jitter(r)
	tbl := concOpen(tx, tid)
	m := concRead(r, tbl, nil)
	ev.steps = append(ev.steps, txnStep{read: true, state: stateString(m)})
	for n := r.IntN(4); n > 0 && !readOnly; n-- {
		jitter(r)
		k := r.IntN(5)
		if _, ok := m[k]; !ok {
			v := uniq()
			if err := tbl.Insert(bg, []types.Row{{types.Int64Value(k), types.Int64Value(v)}}); err != nil {
				panic(fmt.Sprintf("insert %d: %s; read %s", k, err, stateString(m)))
			}
			m[k] = v
			ev.steps = append(ev.steps, txnStep{key: k, val: v})
			continue
		}
		del := r.IntN(3) == 0
		concRead(r, tbl, func(rk int, v int64, rows storage.Rows) {
			if rk != k {
				return
			}
			ref, err := rows.Current()
			if err != nil {
				panic(fmt.Sprintf("current: %s", err))
			}
			if del {
				if err := ref.Delete(bg); err != nil {
					panic(fmt.Sprintf("delete: %s", err))
				}
				delete(m, k)
				ev.steps = append(ev.steps, txnStep{del: true, key: k})
				return
			}
			nv := uniq()
			if err := ref.Update(bg, []types.ColumnNum{1}, []types.Value{types.Int64Value(nv)}); err != nil {
				panic(fmt.Sprintf("update: %s", err))
			}
			m[k] = nv
			ev.steps = append(ev.steps, txnStep{key: k, val: nv})
		})
		if r.IntN(2) == 0 {
			jitter(r)
			ev.steps = append(ev.steps, txnStep{read: true, state: stateString(concRead(r, tbl, nil))})
		}
	}
	jitter(r)
	if hold > 0 {
		time.Sleep(hold)
		ev.steps = append(ev.steps, txnStep{read: true, state: stateString(concRead(r, tbl, nil))})
	}
	if r.IntN(4) == 0 {
		if err := tx.Rollback(); err != nil {
			panic(fmt.Sprintf("rollback: %s", err))
		}
		return ev
	}
	if err := tx.Commit(bg); err != nil {
		panic(fmt.Sprintf("commit: %s", err))
	}
	ev.committed = true
	return ev
}

// concRegisters: transactions over one small table; the history has to be strictly serializable.
func concRegisters(t *Case, each int, hold time.Duration) {
	st, err := basic.NewStore("")
	if err != nil {
		t.Failf("NewStore: %s", err)
	}
	const tid = 20
	tx := st.Begin()
	concCreate(tx, tid)
	if err := tx.Commit(bg); err != nil {
		t.Failf("commit: %s", err)
	}
	clients := 2 + t.IntN(7)
	readers := t.IntN(3)
	if hold > 0 {
		readers = t.IntN(clients)
	}
	var ck clock
	var last atomic.Int64
	uniq := func() int64 { return last.Add(1) }
	var mu sync.Mutex
	var ops []porcupine.Operation
	var g guard
	var wg sync.WaitGroup
	start := make(chan struct{})
	for cl := 0; cl < clients; cl++ {
		r := rand.New(rand.NewPCG(t.Uint64(), uint64(cl)))
		g.run(&wg, func() {
			<-start
			for i := 0; i < each; i++ {
				call := ck.now()
				var h time.Duration
				if cl == clients-1 && i == 1 {
					h = hold
				}
				ev := concTxn(r, st, tid, uniq, cl < readers, h)
				ret := ck.now()
				mu.Lock()
				ops = append(ops, porcupine.Operation{ClientId: cl, Input: ev, Call: call, Return: ret})
				mu.Unlock()
			}
		})
	}
	close(start)
	g.wait(t, &wg)
	judge(t, ops)
}

// concHeld: one transaction reads everything, stays open, and then writes; the others, which also read and write, begin
// while it is open. Those must be ordered, whatever the store does to let them go on.
func concHeld(t *Case, hold time.Duration) {
	st, err := basic.NewStore("")
	if err != nil {
		t.Failf("NewStore: %s", err)
	}
	const tid = 20
	tx := st.Begin()
	concCreate(tx, tid)
	if err := tx.Commit(bg); err != nil {
		t.Failf("commit: %s", err)
	}
	var ck clock
	var mu sync.Mutex
	var ops []porcupine.Operation
	var g guard
	var wg sync.WaitGroup
	reading := make(chan struct{})
	for cl := 0; cl < 4; cl++ {
		r := rand.New(rand.NewPCG(t.Uint64(), uint64(cl)))
		g.run(&wg, func() {
			for i := 0; i < 3; i++ {
				if cl > 0 && i == 0 {
					<-reading
				}
				ev := &txnEvent{committed: true}
				call := ck.now()
				tx := st.Begin()
				tbl := concOpen(tx, tid)
				state := concRead(r, tbl, nil)
				ev.steps = append(ev.steps, txnStep{read: true, state: stateString(state)})
				if cl == 0 && i == 0 {
					close(reading)
					time.Sleep(hold)
				}
				k := 10*cl + i
				if err := tbl.Insert(bg, []types.Row{{types.Int64Value(k), types.Int64Value(k)}}); err != nil {
					g.failf("insert %d: %s", k, err)
				}
				ev.steps = append(ev.steps, txnStep{key: k, val: int64(k)})
				if err := tx.Commit(bg); err != nil {
					g.failf("commit: %s", err)
				}
				ret := ck.now()
				mu.Lock()
				ops = append(ops, porcupine.Operation{ClientId: cl, Input: ev, Call: call, Return: ret})
				mu.Unlock()
			}
		})
	}
	g.wait(t, &wg)
	judge(t, ops)
}

func judge(t *Case, ops []porcupine.Operation) {
	res, _ := porcupine.CheckOperationsVerbose(txnModel, ops, 60*time.Second)
	sort.Slice(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
	var sb strings.Builder
	overlaps := 0
	for i, op := range ops {
		ev := op.Input.(*txnEvent)
		fmt.Fprintf(&sb, "client %d [%d,%d] committed %v:", op.ClientId, op.Call, op.Return, ev.committed)
		for _, sp := range ev.steps {
			switch {
			case sp.read:
				fmt.Fprintf(&sb, " read{%s}", sp.state)
			case sp.del:
				fmt.Fprintf(&sb, " delete %d", sp.key)
			default:
				fmt.Fprintf(&sb, " %d:=%d", sp.key, sp.val)
			}
		}
		sb.WriteString("\n")
		if i > 0 && ops[i-1].Return > op.Call {
			overlaps += 1
		}
	}
	t.Count("transactions recorded", len(ops))
	t.Count("transactions overlapping the one before", overlaps)
	switch res {
	case porcupine.Illegal:
		t.Failf("the history of transactions is not serializable in any order consistent with real time:\n%s", sb.String())
	case porcupine.Unknown:
		t.Count("histories undecided", 1)
	default:
		t.Count("histories serializable", 1)
	}
	var order strings.Builder
	for _, op := range ops {
		fmt.Fprintf(&order, "%d ", op.ClientId)
	}
	t.Seen("interleavings", order.String())
	if overlaps > 0 {
		t.Distinct(sb.String())
	}
	t.Sample("%s", sb.String())
}

// concCatalog: transactions which create and drop tables next to ones which use them. A table is a
// key of the model; its value is a number kept in its one row.
func concCatalog(t *Case) {
	st, err := basic.NewStore("")
	if err != nil {
		t.Failf("NewStore: %s", err)
	}
	const dir = 20
	tx := st.Begin()
	concCreate(tx, dir)
	if err := tx.Commit(bg); err != nil {
		t.Failf("commit: %s", err)
	}
	var ck clock
	var last atomic.Int64
	var mu sync.Mutex
	var ops []porcupine.Operation
	var g guard
	var wg sync.WaitGroup
	clients := 2 + t.IntN(5)
	each := 3 + t.IntN(5)
	for cl := 0; cl < clients; cl++ {
		r := rand.New(rand.NewPCG(t.Uint64(), uint64(cl)))
		g.run(&wg, func() {
			for i := 0; i < each; i++ {
				call := ck.now()
				ev := &txnEvent{}
				tx := st.Begin()
				jitter(r)
				// The directory table tells which tables there are.
				m := concRead(r, concOpen(tx, dir), nil)
				seen := map[int]int64{}
				for k := range m {
					got := concRead(r, concOpen(tx, storage.TableId(100+k)), nil)
					if len(got) != 1 {
						panic(fmt.Sprintf("table %d has rows %s; expected one", 100+k, stateString(got)))
					}
					seen[k] = got[0]
				}
				if stateString(seen) != stateString(m) {
					panic(fmt.Sprintf("the directory says %s, the tables %s", stateString(m), stateString(seen)))
				}
				ev.steps = append(ev.steps, txnStep{read: true, state: stateString(m)})
				k := r.IntN(4)
				if _, ok := m[k]; ok {
					jitter(r)
					if err := tx.DropTable(bg, storage.TableId(100+k)); err != nil {
						panic(err)
					}
					concRead(r, concOpen(tx, dir), func(rk int, v int64, rows storage.Rows) {
						if rk == k {
							ref, _ := rows.Current()
							if err := ref.Delete(bg); err != nil {
								panic(err)
							}
						}
					})
					ev.steps = append(ev.steps, txnStep{del: true, key: k})
				} else {
					v := last.Add(1)
					concCreate(tx, storage.TableId(100+k))
					jitter(r)
					tbl := concOpen(tx, storage.TableId(100+k))
					if got := concRead(r, tbl, nil); len(got) != 0 {
						panic(fmt.Sprintf("new table %d has rows %s", 100+k, stateString(got)))
					}
					if err := tbl.Insert(bg, []types.Row{{types.Int64Value(0), types.Int64Value(v)}}); err != nil {
						panic(err)
					}
					if err := concOpen(tx, dir).Insert(bg, []types.Row{{types.Int64Value(k), types.Int64Value(v)}}); err != nil {
						panic(err)
					}
					ev.steps = append(ev.steps, txnStep{key: k, val: v})
				}
				jitter(r)
				if r.IntN(3) == 0 {
					if err := tx.Rollback(); err != nil {
						panic(err)
					}
				} else {
					if err := tx.Commit(bg); err != nil {
						panic(err)
					}
					ev.committed = true
				}
				ret := ck.now()
				mu.Lock()
				ops = append(ops, porcupine.Operation{ClientId: cl, Input: ev, Call: call, Return: ret})
				mu.Unlock()
			}
		})
	}
	g.wait(t, &wg)
	judge(t, ops)
}

// concTransfers: many goroutines move amounts between accounts; the sum is kept in every
// transaction, and no update is lost: each account counts its updates.
func concTransfers(t *Case) {
	st, err := basic.NewStore("")
	if err != nil {
		t.Failf("NewStore: %s", err)
	}
	const tid = 30
	const accounts = 12
	tx := st.Begin()
	concCreate(tx, tid)
	tbl := concOpen(tx, tid)
	for k := 0; k < accounts; k++ {
		if err := tbl.Insert(bg, []types.Row{{types.Int64Value(k), types.Int64Value(100)}}); err != nil {
			t.Failf("insert: %s", err)
		}
	}
	if err := tx.Commit(bg); err != nil {
		t.Failf("commit: %s", err)
	}
	var mu sync.Mutex
	net := map[int]int64{}
	var g guard
	var wg sync.WaitGroup
	clients := 4 + t.IntN(12)
	each := 5 + t.IntN(15)
	for cl := 0; cl < clients; cl++ {
		r := rand.New(rand.NewPCG(t.Uint64(), uint64(cl)))
		g.run(&wg, func() {
			for i := 0; i < each; i++ {
				tx := st.Begin()
				jitter(r)
				tbl := concOpen(tx, tid)
				from, to := r.IntN(accounts), r.IntN(accounts)
				amount := int64(r.IntN(20))
				var sum int64
				concRead(r, tbl, func(k int, v int64, rows storage.Rows) {
					sum += v
					d := int64(0)
					if k == from {
						d -= amount
					}
					if k == to {
						d += amount
					}
					if d == 0 {
						return
					}
					ref, err := rows.Current()
					if err != nil {
						panic(err)
					}
					if r.IntN(2) == 0 {
						err = ref.Update(bg, []types.ColumnNum{1}, []types.Value{types.Int64Value(v + d)})
					} else if err = ref.Delete(bg); err == nil {
						err = tbl.Insert(bg, []types.Row{{types.Int64Value(k), types.Int64Value(v + d)}})
					}
					if err != nil {
						panic(err)
					}
				})
				if sum != accounts*100 {
					panic(fmt.Sprintf("a transaction saw a total of %d, not %d", sum, accounts*100))
				}
				jitter(r)
				if r.IntN(4) == 0 {
					if err := tx.Rollback(); err != nil {
						panic(err)
					}
				} else {
					if err := tx.Commit(bg); err != nil {
						panic(err)
					}
					mu.Lock()
					if from != to {
						net[from] -= amount
						net[to] += amount
					}
					mu.Unlock()
				}
			}
		})
	}
	g.wait(t, &wg)
	tx = st.Begin()
	got := concRead(t.Rand, concOpen(tx, tid), nil)
	if err := tx.Rollback(); err != nil {
		t.Failf("rollback: %s", err)
	}
	for k := 0; k < accounts; k++ {
		if got[k] != 100+net[k] {
			t.Failf("account %d has %d after committed changes of %d; an update was lost or invented (%s)", k, got[k],
				net[k], stateString(got))
		}
	}
	t.Count("transactions recorded", clients*each)
	t.Distinct(stateString(got))
	t.Seen("final states", stateString(got))
}

// ---------------------------------------------------------------- identifiers

// identStorm has many goroutines use the same fresh names for the first time.
// identFixed are the identifiers there are from the start.
var identFixed = func() []identName {
	var all []identName
	for n, id := range refKnown {
		all = append(all, identName{n, id, false})
	}
	for n, k := range refKeywords {
		all = append(all, identName{n, k.id, true})
	}
	sort.Slice(all, func(i, j int) bool { return all[i].id < all[j].id })
	return all
}()

type identName struct {
	name string
	id   types.Identifier
	word bool
}

func identStorm(t *Case) {
	n := 10 + t.IntN(60)
	names := make([]string, n)
	for i := range names {
		names[i] = fmt.Sprintf("storm_%d_%d_%d", t.c.Seed, t.index, i)
		if t.IntN(6) == 0 {
			names[i] = strings.ToUpper(names[i])
		}
	}
	clients := 2 + t.IntN(8)
	got := make([][]types.Identifier, clients)
	var g guard
	var wg sync.WaitGroup
	start := make(chan struct{})
	for cl := 0; cl < clients; cl++ {
		r := rand.New(rand.NewPCG(t.Uint64(), uint64(cl)))
		order := make([]int, n)
		for i := range order {
			order[i] = i
		}
		if cl%2 == 1 {
			r.Shuffle(n, func(i, j int) { order[i], order[j] = order[j], order[i] })
		}
		got[cl] = make([]types.Identifier, n)
		g.run(&wg, func() {
			<-start
			for _, i := range order {
				id := types.ID(names[i], true)
				got[cl][i] = id
				if s := id.String(); s != names[i] {
					g.failf("identifier %d was created from %q and prints as %q", id, names[i], s)
				}
				switch r.IntN(4) {
				case 0:
					if lid := types.ID(names[i], false); (lid == id) != (strings.ToLower(names[i]) == names[i]) {
						g.failf("ID(%q, false) is %d, quoted it is %d", names[i], lid, id)
					}
				case 1:
					b, err := id.GobEncode()
					var back types.Identifier
					if err == nil {
						err = back.GobDecode(b)
					}
					if err != nil || back != id {
						g.failf("identifier %d %q is stored and loaded as %d: %v", id, names[i], back, err)
					}
				case 2:
					if id.IsReserved() {
						g.failf("identifier %d is reserved", id)
					}
				}
				if r.IntN(4) == 0 {
					// Names and keywords which were always there.
					k := identFixed[r.IntN(len(identFixed))]
					if s := k.id.String(); s != k.name {
						g.failf("the known identifier %d %q prints as %q", k.id, k.name, s)
					}
					if b, err := k.id.GobEncode(); err != nil || string(b[1:]) != k.name {
						g.failf("the known identifier %d %q is stored as %q: %v", k.id, k.name, b, err)
					}
					if id := types.ID(k.name, !k.word); id != k.id {
						g.failf("%q is the identifier %d; expected %d", k.name, id, k.id)
					}
				}
				if r.IntN(8) == 0 {
					jitter(r)
				}
			}
		})
	}
	close(start)
	g.wait(t, &wg)
	seen := map[types.Identifier]string{}
	for i, name := range names {
		for cl := range got {
			if got[cl][i] != got[0][i] {
				t.Failf("%q is identifier %d for one goroutine and %d for another", name, got[0][i], got[cl][i])
			}
		}
		if other, ok := seen[got[0][i]]; ok {
			t.Failf("%q and %q are both identifier %d", name, other, got[0][i])
		}
		seen[got[0][i]] = name
		if s := got[0][i].String(); s != name {
			t.Failf("identifier %d was created from %q and prints as %q", got[0][i], name, s)
		}
	}
	t.Count("names first used by many goroutines at once", n)
	t.Count("concurrent calls", n*clients*3)
	// The order in which the names got their identifiers tells the interleavings apart.
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	slices.SortFunc(idx, func(a, b int) int { return int(got[0][a]) - int(got[0][b]) })
	t.Seen("assignment orders", fmt.Sprint(idx))
	t.Distinct(fmt.Sprint(t.index, idx))
	t.Sample("%d goroutines, %d names, assigned in the order %v", clients, n, idx)
}

// identHandoff passes identifiers and their encodings between goroutines.
func identHandoff(t *Case) {
	type msg struct {
		id   types.Identifier
		name string
		enc  []byte
	}
	ch := make(chan msg, 4)
	var g guard
	var wg, senders sync.WaitGroup
	ns := 1 + t.IntN(4)
	for cl := 0; cl < ns; cl++ {
		r := rand.New(rand.NewPCG(t.Uint64(), uint64(cl)))
		senders.Add(1)
		g.run(&wg, func() {
			defer senders.Done()
			for i := 0; i < 40; i++ {
				name := fmt.Sprintf("handoff %d %d %d", t.c.Seed, t.index, r.IntN(60))
				var id types.Identifier
				switch r.IntN(3) {
				case 0:
					if err := id.GobDecode(append([]byte{0}, name...)); err != nil {
						panic(err)
					}
				default:
					id = types.ID(name, r.IntN(2) == 0)
				}
				enc, err := id.GobEncode()
				if err != nil {
					panic(err)
				}
				ch <- msg{id, name, enc}
			}
		})
	}
	go func() {
		senders.Wait()
		close(ch)
	}()
	var mu sync.Mutex
	all := map[string]types.Identifier{}
	for cl := 0; cl < 1+t.IntN(4); cl++ {
		g.run(&wg, func() {
			for m := range ch {
				if s := m.id.String(); s != m.name {
					g.failf("identifier %d was created from %q and prints as %q", m.id, m.name, s)
				}
				var back types.Identifier
				if err := back.GobDecode(m.enc); err != nil || back != m.id {
					g.failf("identifier %d %q is stored and loaded as %d: %v", m.id, m.name, back, err)
				}
				if id := types.ID(m.name, true); id != m.id {
					g.failf("%q is identifier %d in one goroutine and %d in another", m.name, m.id, id)
				}
				mu.Lock()
				all[m.name] = m.id
				mu.Unlock()
			}
		})
	}
	g.wait(t, &wg)
	ids := map[types.Identifier]string{}
	for name, id := range all {
		if other, ok := ids[id]; ok {
			t.Failf("%q and %q are both identifier %d", name, other, id)
		}
		ids[id] = name
	}
	t.Count("identifiers passed between goroutines", ns*40)
	t.Distinct(fmt.Sprint(t.index, len(all)))
}
