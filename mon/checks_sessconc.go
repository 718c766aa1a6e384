package main

// C22: sessions of one engine at the same time, with statements as text. The worker for this is
// built with the race detector; a report of it ends the worker and is a violation.

import (
	"fmt"
	"maps"
	"math/rand/v2"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/anishathalye/porcupine"

	"github.com/leftmike/maho/engine"
	"github.com/leftmike/maho/evaluate"
	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/types"
)

func init() {
	register(&Check{ID: "C22",
		Rule: "each case runs 2 to 8 sessions at the same time on one engine, each with a script of DDL text in and out of " +
			"transactions, next to readers of the catalog; every transaction is recorded with the outcome of each of its " +
			"statements and its times at the client, and porcupine is asked for an order consistent with real time in which " +
			"each ran alone; distinct by the recorded history",
		Run: func(c *Ctx) {
			c.Phase("held", len(holdTimes(c)), func(t *Case) { sesScripts(t, holdTimes(c)[t.index]) })
			c.Phase("scripts", c.N(500, 9000), func(t *Case) { sesScripts(t, 0) })
			c.Phase("contest", c.N(200, 3000), sesContest)
		}})
}

// scStmt is one statement with what the model needs to know about it.
type scStmt struct {
	text   string
	create string // the object it creates, or
	drop   string // the object it drops
	needs  string // the object it must find
	only   string // the object that, if it is there, leaves nothing to do; without it the statement fails
	maybe  bool   // IF EXISTS or IF NOT EXISTS
	never  bool   // always fails
}

type scEvent struct {
	stmts  []scStmt
	ok     []bool
	commit bool
	look   string // what a reader saw, of the kinds of objects given
	kinds  string
}

// scState is the objects there are, as lines in order.
func scState(m map[string]bool) string {
	return strings.Join(slices.Sorted(maps.Keys(m)), "\n")
}

func scObjects(s string) map[string]bool {
	m := map[string]bool{}
	for _, l := range strings.Split(s, "\n") {
		if l != "" {
			m[l] = true
		}
	}
	return m
}

// run says whether a statement works and what is there then.
func (s scStmt) run(m map[string]bool) bool {
	switch {
	case s.never:
		return false
	case s.only != "":
		return m[s.only]
	case s.create != "":
		if m[s.create] {
			return s.maybe
		}
		if s.needs != "" && !m[s.needs] {
			return false
		}
		m[s.create] = true
	case s.drop != "":
		if !m[s.drop] {
			return s.maybe
		}
		delete(m, s.drop)
	}
	return true
}

var sesTxnModel = porcupine.Model{
	Init: func() any { return "" },
	Step: func(st, in, out any) (bool, any) {
		ev := in.(*scEvent)
		m := scObjects(st.(string))
		if ev.kinds != "" {
			for o := range m {
				if !strings.Contains(ev.kinds, o[:1]) {
					delete(m, o)
				}
			}
			return scState(m) == ev.look, st
		}
		for i, s := range ev.stmts {
			if s.run(m) != ev.ok[i] {
				return false, st
			}
		}
		if !ev.commit {
			return true, st
		}
		return true, scState(m)
	},
}

// The names: databases x0, x1 and schemas maho.z0, maho.z1 come and go and stay empty; the others
// only come.
func (c *sesClient) random() scStmt {
	r := c.r
	word := func(s string) string {
		switch r.IntN(3) {
		case 0:
			return strings.ToUpper(s)
		case 1:
			return `"` + s + `"`
		}
		return s
	}
	// schema names a schema of the database, which may be left out where it is the session's.
	schema := func(d, sc string) string {
		if d == c.db && r.IntN(2) == 0 {
			return word(sc)
		}
		return word(d) + "." + word(sc)
	}
	table := func(sn, name string) scStmt {
		s := scStmt{create: "t " + sn + "." + name, maybe: r.IntN(4) == 0}
		if sn != "maho.public" {
			s.needs = "s " + sn
		}
		not := ""
		if s.maybe {
			not = "IF NOT EXISTS "
		}
		d, sc, _ := strings.Cut(sn, ".")
		full := schema(d, sc) + "." + word(name)
		if d == c.db && sc == c.sc && r.IntN(3) > 0 {
			full = word(name)
		}
		s.text = fmt.Sprintf("CREATE TABLE %s%s (a INT, b VARCHAR(%d), PRIMARY KEY (a))", not, full, 1+r.IntN(20))
		if r.IntN(10) == 0 {
			s.text = fmt.Sprintf("CREATE TABLE %s%s (a INT, PRIMARY KEY (nocolumn))", not, full)
			// It works only where the table is there already.
			s = scStmt{text: s.text, only: s.create, never: !s.maybe}
		}
		return s
	}
	switch n := r.IntN(100); {
	case n < 10:
		x := fmt.Sprintf("x%d", r.IntN(2))
		return scStmt{text: "CREATE DATABASE " + word(x), create: "d " + x}
	case n < 18:
		x := fmt.Sprintf("x%d", r.IntN(2))
		s := scStmt{text: "DROP DATABASE " + word(x), drop: "d " + x, maybe: r.IntN(3) == 0}
		if s.maybe {
			s.text = "DROP DATABASE IF EXISTS " + word(x)
		}
		return s
	case n < 24:
		x := fmt.Sprintf("p%d", r.IntN(3))
		return scStmt{text: "CREATE DATABASE " + word(x), create: "d " + x}
	case n < 38:
		x := fmt.Sprintf("z%d", r.IntN(2))
		return scStmt{text: "CREATE SCHEMA " + schema("maho", x), create: "s maho." + x}
	case n < 50:
		x := fmt.Sprintf("z%d", r.IntN(2))
		s := scStmt{text: "DROP SCHEMA " + schema("maho", x), drop: "s maho." + x, maybe: r.IntN(3) == 0}
		if s.maybe {
			s.text = "DROP SCHEMA IF EXISTS " + schema("maho", x)
		}
		return s
	case n < 60:
		x, y := fmt.Sprintf("p%d", r.IntN(3)), fmt.Sprintf("q%d", r.IntN(2))
		return scStmt{text: "CREATE SCHEMA " + schema(x, y), create: "s " + x + "." + y, needs: "d " + x}
	case n < 66:
		y := fmt.Sprintf("q%d", r.IntN(2))
		return scStmt{text: "CREATE SCHEMA " + schema("maho", y), create: "s maho." + y}
	case n < 80:
		return table("maho.public", fmt.Sprintf("t%d", r.IntN(4)))
	case n < 86:
		return table("maho.public", fmt.Sprintf("own%d_%d", c.own, r.IntN(4)))
	case n < 92:
		return table(fmt.Sprintf("maho.q%d", r.IntN(2)), fmt.Sprintf("t%d", r.IntN(3)))
	default:
		return table(fmt.Sprintf("p%d.q%d", r.IntN(3), r.IntN(2)), fmt.Sprintf("t%d", r.IntN(2)))
	}
}

// aboutDatabases says whether a statement must not be in a transaction.
func (s scStmt) aboutDatabases() bool {
	return strings.HasPrefix(s.create, "d ") || strings.HasPrefix(s.drop, "d ")
}

type sesClient struct {
	r   *rand.Rand
	ses *evaluate.Session
	eng engine.Engine
	own int

	db, sc string // the current ones
	moves  bool   // it changes them

	hold  time.Duration // how long the next transaction stays open
	burst int           // how many statements the next transaction has
}

func (c *sesClient) evaluate(text string) error {
	stmt, err := parser.NewParser(strings.NewReader(text), "src").Parse()
	if err != nil {
		panic(fmt.Sprintf("%s: %s", text, err))
	}
	jitter(c.r)
	return c.ses.Evaluate(bg, stmt)
}

func (c *sesClient) must(text string) {
	if err := c.evaluate(text); err != nil {
		panic(fmt.Sprintf("%s: %s", text, err))
	}
}

// script runs one transaction with statements from next.
func (c *sesClient) script(next func() scStmt) *scEvent {
	ev := &scEvent{commit: true}
	do := func(s scStmt) {
		err := c.evaluate(s.text)
		ev.stmts, ev.ok = append(ev.stmts, s), append(ev.ok, err == nil)
	}
	// Settings are the session's own, and no part of a transaction.
	set := func() {
		if c.moves && c.r.IntN(4) == 0 {
			if c.r.IntN(2) == 0 {
				c.db = []string{"maho", "maho", "p0", "p1"}[c.r.IntN(4)]
				do(scStmt{text: []string{"SET DATABASE = '" + c.db + "'", "USE '" + c.db + "'"}[c.r.IntN(2)]})
			} else {
				c.sc = []string{"public", "q0", "q1"}[c.r.IntN(3)]
				do(scStmt{text: "SET SCHEMA TO '" + c.sc + "'"})
			}
		}
	}
	set()
	if c.hold == 0 && c.r.IntN(3) == 0 {
		do(next())
		return ev
	}
	inside := func() {
		set()
		s := next()
		if s.aboutDatabases() {
			s.never = true
		}
		do(s)
		jitter(c.r)
	}
	c.must([]string{"BEGIN", "begin", "START TRANSACTION"}[c.r.IntN(3)])
	for n := c.burst + 1 + c.r.IntN(4); n > 0; n-- {
		inside()
	}
	if c.r.IntN(8) == 0 {
		do(scStmt{text: "BEGIN", never: true})
	}
	time.Sleep(c.hold)
	if c.hold > 0 {
		inside()
	}
	c.hold, c.burst = 0, 0
	if c.r.IntN(3) == 0 {
		ev.commit = false
		c.must("ROLLBACK")
	} else {
		c.must("COMMIT")
	}
	return ev
}

func scID(s string) types.Identifier { return types.ID(s, true) }

// look reads what there is of databases, or of the rest in one transaction.
func (c *sesClient) look() *scEvent {
	seen := map[string]bool{}
	if c.r.IntN(3) == 0 {
		dbs, err := c.eng.ListDatabases()
		if err != nil {
			panic(err)
		}
		for _, d := range dbs {
			if d != types.MAHO && d != types.SYSTEM {
				seen["d "+d.String()] = true
			}
		}
		return &scEvent{kinds: "d", look: scState(seen)}
	}
	tx := c.eng.Begin()
	var dbs []string
	for _, d := range []string{"maho", "p0", "p1", "p2"} {
		jitter(c.r)
		sns, err := tx.ListSchemas(bg, scID(d))
		if err != nil {
			continue
		}
		dbs = append(dbs, d)
		for _, s := range sns {
			if s != types.PUBLIC {
				seen["s "+d+"."+s.String()] = true
			}
		}
	}
	names := []string{"t0", "t1", "t2", "t3"}
	for own := range 8 {
		for i := range 4 {
			names = append(names, fmt.Sprintf("own%d_%d", own, i))
		}
	}
	ids := map[int64]string{}
	for _, d := range dbs {
		for _, s := range []string{"public", "q0", "q1"} {
			for _, n := range names {
				if strings.HasPrefix(n, "own") && s != "public" {
					continue
				}
				tbl, err := tx.OpenTable(bg, types.TableName{Database: scID(d), Schema: scID(s), Table: scID(n)})
				if err != nil {
					continue
				}
				o := "t " + d + "." + s + "." + n
				seen[o] = true
				if other, ok := ids[int64(tbl.TableId())]; ok {
					panic(fmt.Sprintf("%s and %s both have id %d", o, other, tbl.TableId()))
				}
				ids[int64(tbl.TableId())] = o
			}
		}
	}
	jitter(c.r)
	if err := tx.Rollback(); err != nil {
		panic(err)
	}
	return &scEvent{kinds: "st", look: scState(seen)}
}

// sesStorm runs the clients and returns their history, ending with two looks at everything.
func sesStorm(t *Case, clients, each int, work func(c *sesClient, i int) *scEvent) []porcupine.Operation {
	st, eng := newEngine(t)
	var ck clock
	var mu sync.Mutex
	var ops []porcupine.Operation
	var g guard
	var wg sync.WaitGroup
	start := make(chan struct{})
	for cl := range clients {
		c := &sesClient{r: rand.New(rand.NewPCG(t.Uint64(), uint64(cl))), eng: eng, own: cl, db: "maho", sc: "public"}
		if c.r.IntN(3) == 0 {
			c.eng = engine.NewEngine(st)
		}
		c.ses = evaluate.NewSession(c.eng, types.MAHO, types.PUBLIC)
		g.run(&wg, func() {
			<-start
			for i := range each {
				call := ck.now()
				ev := work(c, i)
				ret := ck.now()
				mu.Lock()
				ops = append(ops, porcupine.Operation{ClientId: cl, Input: ev, Call: call, Return: ret})
				mu.Unlock()
			}
		})
	}
	close(start)
	g.wait(t, &wg)
	c := &sesClient{r: t.Rand, eng: engine.NewEngine(st)}
	for range 6 {
		call := ck.now()
		ev := c.look()
		ops = append(ops, porcupine.Operation{ClientId: clients, Input: ev, Call: call, Return: ck.now()})
	}
	return ops
}

func sesHistory(ops []porcupine.Operation) (string, int) {
	sort.Slice(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
	var sb strings.Builder
	overlaps := 0
	for i, op := range ops {
		ev := op.Input.(*scEvent)
		fmt.Fprintf(&sb, "session %d [%d,%d] ", op.ClientId, op.Call, op.Return)
		if ev.kinds != "" {
			fmt.Fprintf(&sb, "sees {%s}", strings.ReplaceAll(ev.look, "\n", ", "))
		} else {
			fmt.Fprintf(&sb, "commits %v:", ev.commit)
		}
		for i, s := range ev.stmts {
			fmt.Fprintf(&sb, " %s: %v;", s.text, ev.ok[i])
		}
		sb.WriteString("\n")
		if i > 0 && ops[i-1].Return > op.Call {
			overlaps++
		}
	}
	return sb.String(), overlaps
}

func sesJudge(t *Case, ops []porcupine.Operation) {
	res := porcupine.CheckOperationsTimeout(sesTxnModel, ops, 30*time.Second)
	h, overlaps := sesHistory(ops)
	n := 0
	for _, op := range ops {
		ev := op.Input.(*scEvent)
		n += len(ev.stmts)
		for i, ok := range ev.ok {
			t.Seen("outcomes", fmt.Sprintf("%s %v", strings.Join(strings.Fields(ev.stmts[i].text + " -")[:2], " "), ok))
		}
	}
	t.Count("transactions recorded", len(ops))
	t.Count("statements", n)
	t.Count("transactions overlapping the one before", overlaps)
	switch res {
	case porcupine.Illegal:
		t.Failf("no order of the sessions' transactions consistent with real time explains what they saw:\n%s", h)
	case porcupine.Unknown:
		t.Count("histories undecided", 1)
	default:
		t.Count("histories explained", 1)
	}
	if overlaps > 0 {
		t.Distinct(h)
	}
	t.Sample("%s", h)
}

// sesScripts: random scripts.
func sesScripts(t *Case, hold time.Duration) {
	readers := t.IntN(3)
	moves := t.IntN(3) > 0
	ops := sesStorm(t, 2+t.IntN(7), 3+t.IntN(6), func(c *sesClient, i int) *scEvent {
		c.moves = moves
		if hold > 0 && c.own == 0 && i == 1 {
			c.hold, c.burst = hold, t.index*300
			return c.script(c.random)
		}
		if c.own < readers && c.r.IntN(2) == 0 {
			return c.look()
		}
		return c.script(c.random)
	})
	sesJudge(t, ops)
}

// sesContest: every session creates the same things; of each, exactly one creation works.
func sesContest(t *Case) {
	stmts := []scStmt{
		{text: "CREATE DATABASE p0", create: "d p0"},
		{text: "CREATE SCHEMA q0", create: "s maho.q0"},
		{text: "CREATE SCHEMA p0.q1", create: "s p0.q1", needs: "d p0"},
		{text: "CREATE TABLE t0 (a INT PRIMARY KEY)", create: "t maho.public.t0"},
		{text: "CREATE TABLE q0.t1 (a INT PRIMARY KEY)", create: "t maho.q0.t1", needs: "s maho.q0"},
		{text: "CREATE TABLE p0.q1.t1 (a INT PRIMARY KEY)", create: "t p0.q1.t1", needs: "s p0.q1"},
	}
	clients := 2 + t.IntN(7)
	ops := sesStorm(t, clients, len(stmts), func(c *sesClient, i int) *scEvent {
		s := stmts[i]
		if s.aboutDatabases() || c.r.IntN(2) == 0 {
			return &scEvent{commit: true, stmts: []scStmt{s}, ok: []bool{c.evaluate(s.text) == nil}}
		}
		ev := &scEvent{commit: c.r.IntN(4) > 0, stmts: []scStmt{s}}
		c.must("BEGIN")
		ev.ok = []bool{c.evaluate(s.text) == nil}
		jitter(c.r)
		if ev.commit {
			c.must("COMMIT")
		} else {
			c.must("ROLLBACK")
		}
		return ev
	})
	made := map[string]int{}
	for _, op := range ops {
		ev := op.Input.(*scEvent)
		for i, s := range ev.stmts {
			if ev.ok[i] && ev.commit {
				made[s.create]++
			}
		}
	}
	for _, n := range slices.Sorted(maps.Keys(made)) {
		if made[n] > 1 {
			h, _ := sesHistory(ops)
			t.Failf("%d sessions created %s:\n%s", made[n], n, h)
		}
		t.Count("creations with one winner", 1)
	}
	sesJudge(t, ops)
}
