package main

// C38: what is separate does not meet: parsers, stores, engines, typed tables and conversions used by several goroutines at
// once, each with the oracle of the check it comes from, under the race detector.

import (
	"fmt"
	"io"
	"math/rand/v2"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/evaluate"
	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/storage/basic"
	"github.com/leftmike/maho/types"
)

func init() {
	register(&Check{ID: "C38",
		Rule: "cases of the other checks, each with a store, an engine, a parser or values of its own, run by two to eight " +
			"goroutines at once, all of one kind or of different kinds, built with the race detector; distinct as in those checks",
		Run: func(c *Ctx) {
			for _, g := range parallelGroups {
				g := g
				c.Phase(g.name, c.N(g.n, 30*g.n), func(t *Case) { parallel(t, g.cases) })
			}
			var all []parallelCase
			for _, g := range parallelGroups {
				all = append(all, g.cases...)
			}
			c.Phase("everything", c.N(120, 3600), func(t *Case) { parallel(t, all) })
			c.Phase("waiting", c.N(160, 4000), parallelWaiting)
		}})
}

type parallelCase struct {
	name string
	do   func(t *Case)
}

var parallelGroups = []struct {
	name  string
	n     int
	cases []parallelCase
}{
	{"parsers", 250, []parallelCase{
		{"statement", many(func(t *Case) { stmtMeaning(t, stmtKinds[t.IntN(len(stmtKinds))]) })},
		{"script", scriptMeaning}, {"rejected statement", many(stmtReject)}, {"bad script", errorScript}, {"bad token", badTokenScript},
		{"expression", exprChain}, {"places", many(exprPlaces)}, {"parentheses", many(exprParens)},
		{"layouts", func(t *Case) { layouts(t, t.IntN(3) == 0) }},
		{"print", many(func(t *Case) { printAgain(t, stmtKinds[t.IntN(len(stmtKinds))]) })}, {"print expression", printExpr},
		{"numbers", many(litNumbers)}, {"texts", many(litTexts)}, {"names", many(litNames)}, {"literals", many(litMany)}, {"bad literals", many(litBad)},
		{"pieces", many(litPieces)}, {"positions", many(errorPosition)}, {"script positions", many(scriptPosition)},
		{"copy", copyScript}, {"copy statement", many(copyStatement)},
		{"table", tableValid}, {"near table", tableNear}, {"bad table", tableFault}, {"index", many(indexKeys)},
		{"kept statements", shareParsed},
	}},
	{"stores", 160, []parallelCase{
		{"history", parallelStore},
		{"key moves", storeKeyMoves}, {"definitions", storeDefinitions}, {"refused definition", storeRefusedDefinition},
		{"wide keys", storeWide}, {"matrix", storeConform},
	}},
	{"engines", 120, []parallelCase{
		{"catalog", func(t *Case) { catalogHistory(t, t.IntN(2) == 0) }},
		{"tables", defCreateOpen}, {"encoded definition", defEncode}, {"table ids", tidSerial},
		{"typed", func(t *Case) { typedHistory(t, t.IntN(6)+1) }}, {"one kind", typedOneKind},
		{"names", resolveHistory}, {"names of statements", many(resolveStatements)}, {"sessions", sesEngine},
		{"recorded sessions", func(t *Case) {
			h := genHistory(t, 2, 10+t.IntN(20))
			t.play(h, 2, nil, true, false)
		}},
		{"failing transactions", faultTransactions}, {"failing init", faultInit}, {"failing typed", faultTyped},
		{"evaluated statements", shareStatements},
	}},
	{"values", 300, []parallelCase{
		{"cast", many(castCase)}, {"convert", many(convertCase)}, {"rows", many(convertRows)}, {"numbers", many(castNumbers)},
		{"compare", many(compareRandom)}, {"keys", many(keyPairs)}, {"sort", keySort}, {"wide keys", keyWide},
		{"codec", many(codecValues)}, {"codec of bytes", many(codecBytes)},
		{"identifiers", many(identPairs)}, {"long identifiers", many(identLong)}, {"stored identifiers", many(identStore)},
		{"notation", many(notationRows)}, {"printed notation", many(notationFormat)}, {"bad notation", many(notationMalformed)},
		{"mutated notation", many(notationMutated)}, {"compared notation", many(notationCompare)},
		{"column notation", many(notationColumns)}, {"kept values", many(shareValues)},
	}},
}

func parallelStore(t *Case) {
	cfg := defaultCfg()
	if t.IntN(2) == 0 {
		cfg.wOpenScan, cfg.wWalk = 30, 25
	}
	s := newStoreSim(t, cfg)
	s.history()
	s.done()
}

func many(fn func(t *Case)) func(t *Case) {
	return func(t *Case) {
		for n := 10; n > 0; n-- {
			fn(t)
		}
	}
}

// parallel runs cases in several goroutines. Each goroutine counts on its own, so that counting does not put them in an
// order which would hide races.
func parallel(t *Case, cases []parallelCase) {
	n := 2 + t.IntN(7)
	one, twins := t.IntN(2) == 0, t.IntN(4) == 0
	kind := t.IntN(len(cases))
	type worker struct {
		ctx   *Ctx
		cases []*Case
		do    []parallelCase
	}
	var ws []*worker
	seed := t.Uint64()
	desc := ""
	for i := 0; i < n; i++ {
		w := &worker{ctx: &Ctx{Prop: t.c.Prop, Tier: t.c.Tier, Seed: t.c.Seed, Quick: t.c.Quick, shards: 1,
			distinct: map[uint64]struct{}{}, counts: map[string]int{}, sets: map[string]map[uint64]struct{}{},
			findings: map[string]string{}, known: t.c.known}}
		rng := rand.New(rand.NewPCG(seed, uint64(i)))
		for m := 1 + rng.IntN(3); m > 0; m-- {
			if !one {
				kind = rng.IntN(len(cases))
			}
			s := rng.Uint64()
			if twins && len(ws) > 0 && len(ws[0].do) > len(w.do) {
				// The same case as another, at the same time.
				w.do = append(w.do, ws[0].do[len(w.do)])
				s = 1
			} else {
				w.do = append(w.do, cases[kind])
			}
			if twins && i == 0 {
				s = 1
			}
			if s == 1 {
				s = seed + uint64(len(w.do))
			}
			w.cases = append(w.cases, &Case{Rand: rand.New(rand.NewPCG(s, 7)), c: w.ctx, phase: t.phase, index: t.index})
			desc += w.do[len(w.do)-1].name + ", "
		}
		desc = strings.TrimSuffix(desc, ", ") + " | "
		ws = append(ws, w)
	}
	t.Logf("%s (twins %v)", desc, twins)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for _, w := range ws {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for i, fn := range w.do {
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(caseAbort); ok {
								return
							}
							w.cases[i].report("", fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack())))
						}
					}()
					fn.do(w.cases[i])
				}()
				runtime.Gosched()
			}
		}()
	}
	close(start)
	wg.Wait()
	for i, w := range ws {
		for h := range w.ctx.distinct {
			t.c.mu.Lock()
			t.c.distinct[h] = struct{}{}
			t.c.mu.Unlock()
		}
		var names []string
		for k := range w.ctx.counts {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			t.Count(k, w.ctx.counts[k])
		}
		t.Count("cases in parallel", len(w.do))
		for _, v := range w.ctx.violations {
			t.Logf("goroutine %d of %d:", i, n)
			for _, l := range v.Trace {
				t.Logf("%s", l)
			}
			t.Failf("with %d goroutines at once (%s): %s", n, desc, v.Message)
		}
	}
	t.Count("goroutines", n)
	t.Seen("kinds side by side", kindsTogether(desc))
	t.Sample("%s", desc)
}

// kindsTogether is the set of kinds in a case.
func kindsTogether(desc string) string {
	m := map[string]bool{}
	for _, s := range strings.FieldsFunc(desc, func(r rune) bool { return r == ',' || r == '|' }) {
		m[strings.TrimSpace(s)] = true
	}
	var l []string
	for s := range m {
		l = append(l, s)
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

// A meeting lets nobody go on until everybody is there.
type meeting struct {
	wg   sync.WaitGroup
	late chan struct{} // closed when it takes too long
}

func (m *meeting) meet() bool {
	m.wg.Done()
	all := make(chan struct{})
	go func() {
		m.wg.Wait()
		close(all)
	}()
	select {
	case <-all:
		return true
	case <-m.late:
		return false
	}
}

// meetReader meets before it gives the rest of its text.
type meetReader struct {
	head, tail string
	m          *meeting
	failed     *bool
}

func (r *meetReader) ReadRune() (rune, int, error) {
	if r.head == "" && r.m != nil {
		if !r.m.meet() {
			*r.failed = true
		}
		r.m = nil
		r.head, r.tail = r.tail, ""
	}
	if r.head == "" {
		return 0, 0, io.EOF
	}
	c := r.head[0]
	r.head = r.head[1:]
	return rune(c), 1, nil
}

// parallelWaiting: everybody waits, in the middle of something, for all the others to get as far.
func parallelWaiting(t *Case) {
	n := 2 + t.IntN(5)
	m := &meeting{late: make(chan struct{})}
	m.wg.Add(n)
	stop := time.AfterFunc(60*time.Second, func() { close(m.late) })
	defer stop.Stop()
	type rec struct {
		K int64  `maho:"primary"`
		S string `maho:"size=64"`
	}
	tn := types.TableName{Database: plainID("d"), Schema: plainID("s"), Table: plainID("t")}
	names, cts := []types.Identifier{plainID("k"), plainID("v")}, []types.ColumnType{types.Int64ColType, types.StringColType}
	key := []types.ColumnKey{types.MakeColumnKey(0, false)}
	at := 1 + 2*t.IntN(6)
	places := []struct {
		name string
		do   func(failed *bool)
	}{
		{"a transaction of a store", func(failed *bool) {
			st, err := basic.NewStore("")
			must(err)
			tx := st.Begin()
			must(tx.CreateTable(bg, 20, tn, names, cts, key))
			*failed = !m.meet()
			must(tx.Commit(bg))
		}},
		{"a scan of a store", func(failed *bool) {
			st, err := basic.NewStore("")
			must(err)
			tx := st.Begin()
			must(tx.CreateTable(bg, 20, tn, names, cts, key))
			tbl, err := tx.OpenTable(bg, 20, tn, names, cts, key)
			must(err)
			must(tbl.Insert(bg, []types.Row{{types.Int64Value(1), types.StringValue("x")}}))
			rs, err := tbl.Rows(bg, nil, nil, nil, nil)
			must(err)
			_, err = rs.Next(bg)
			must(err)
			*failed = !m.meet()
			must(rs.Close(bg))
			must(tx.Rollback())
		}},
		{"a transaction of an engine", func(failed *bool) {
			st, err := basic.NewStore("")
			must(err)
			must(engine.Init(st))
			tx := engine.NewEngine(st).Begin()
			must(tx.CreateTable(bg, types.TableName{Database: types.MAHO, Schema: types.PUBLIC, Table: plainID("t")}, names, cts, key))
			*failed = !m.meet()
			must(tx.Commit(bg))
		}},
		{"a transaction of a session", func(failed *bool) {
			st, err := basic.NewStore("")
			must(err)
			must(engine.Init(st))
			ses := evaluate.NewSession(engine.NewEngine(st), types.MAHO, types.PUBLIC)
			for _, s := range []string{"begin", "create table t (a int primary key)", "", "commit", "create schema z"} {
				if s == "" {
					*failed = !m.meet()
					continue
				}
				stmt, err := parser.NewParser(strings.NewReader(s), "src").Parse()
				must(err)
				must(ses.Evaluate(bg, stmt))
			}
		}},
		{"a walk over a typed table", func(failed *bool) {
			st, err := basic.NewStore("")
			must(err)
			ti := engine.MakeTypedInfo(40, tn, rec{})
			tx := st.Begin()
			must(engine.CreateTypedTable(bg, tx, ti))
			must(engine.TypedTableInsert(bg, tx, ti, &rec{1, "x"}))
			must(engine.TypedTableSelect(bg, tx, ti, nil, nil, func(row types.Row) error {
				*failed = !m.meet()
				return nil
			}))
			must(tx.Commit(bg))
		}},
		{"a predicate", func(failed *bool) {
			st, err := basic.NewStore("")
			must(err)
			tx := st.Begin()
			must(tx.CreateTable(bg, 20, tn, names, cts, key))
			tbl, err := tx.OpenTable(bg, 20, tn, names, cts, key)
			must(err)
			must(tbl.Insert(bg, []types.Row{{types.Int64Value(1), types.StringValue("x")}}))
			rs, err := tbl.Rows(bg, nil, nil, nil, meetPred{func() { *failed = !m.meet() }})
			must(err)
			must(rs.Close(bg))
			must(tx.Commit(bg))
		}},
		{"the input of a parser", func(failed *bool) {
			cut := []string{"select ", "|", "a, 'text", "|", " text', \"Id", "|", "entifier\" from t where b'a", "|", "bc' = /* co", "|",
				"mment */ 12", "|", "34;"}
			head, tail := strings.Join(cut[:at], ""), strings.Join(cut[at:], "")
			p := parser.NewParser(&meetReader{strings.ReplaceAll(head, "|", ""), strings.ReplaceAll(tail, "|", ""), m, failed}, "src")
			stmt, err := p.Parse()
			must(err)
			_ = fmt.Sprint(stmt)
		}},
	}
	one := -1
	if t.IntN(2) == 0 {
		one = t.IntN(len(places))
	}
	pans, failed := make([]any, n), make([]bool, n)
	which := make([]int, n)
	desc := ""
	for i := range which {
		which[i] = one
		if one < 0 {
			which[i] = t.IntN(len(places))
		}
		desc += places[which[i]].name + ", "
	}
	t.Logf("%s", desc)
	var wg sync.WaitGroup
	for i := range which {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			pans[i] = Try(func() { places[which[i]].do(&failed[i]) })
		}()
	}
	done := make(chan struct{})
	go func() {
		wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(120 * time.Second):
		t.Failf("%d goroutines, each in %swait for each other for ever", n, desc)
	}
	for i := range which {
		if failed[i] {
			t.Failf("%d goroutines, each in %s: some do not get there while the others are in the middle of theirs", n, desc)
		}
		if pans[i] != nil {
			t.Failf("%s: %v", places[which[i]].name, pans[i])
		}
	}
	t.Count("meetings", 1)
	t.Distinct(desc)
	t.Sample("%s", desc)
}

type meetPred struct{ meet func() }

func (p meetPred) Column() types.ColumnNum { return 1 }

func (p meetPred) StringPred(s types.StringValue) bool {
	p.meet()
	return true
}
