package harness

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"testing"

	"github.com/effective-security/xdb/xsql"
)

// liveStmt is one statement a caller holds.
type liveStmt struct {
	b     xsql.Builder
	parts []int
	first int // number of the operation that made it
	runs  int // since it was built or extended
	sql   string
	args  []any
	dest  *stmtDest
}
type stmtDest struct {
	id   int64
	name string
	wide [6]string
}

// some statements are wide, some have no arguments, some many
func wideStmt(tag int) bool { return tag%4 == 1 }
func (l *liveStmt) columns() string {
	if wideStmt(l.first) {
		return "id, name, w0, w1, w2, w3, w4, w5"
	}
	return "id, name"
}
func stmtCond(tag int) (string, []any) {
	a := fmt.Sprintf("a%d", tag)
	switch {
	case tag%3 == 0:
		return fmt.Sprintf("m%dm IS NULL", tag), nil
	case tag%5 == 2:
		text, args := fmt.Sprintf("m%dm IN (?", tag), []any{a}
		for i := 0; i < 10; i++ {
			text, args = text+",?", append(args, i)
		}
		return text + ")", args
	}
	return fmt.Sprintf("m%dm=?", tag), []any{a}
}

type stmtLife struct {
	f    *FakeDB
	db   *sql.DB
	live map[int]*liveStmt
	pad  string
	many []any
	name func(tag int) string
}

func newStmtLife() *stmtLife {
	s := &stmtLife{f: &FakeDB{}, live: map[int]*liveStmt{}}
	s.db = s.f.DB()
	return s
}

var markRx = regexp.MustCompile(`m(\d+)m`)

func (s *stmtLife) build(tag int) *liveStmt {
	l := &liveStmt{first: tag, dest: &stmtDest{}, parts: []int{tag}}
	l.b = xsql.Postgres.From("t")
	if s.name != nil {
		l.b.SetName(s.name(tag))
	}
	l.b.Select("id").To(&l.dest.id).Select("name").To(&l.dest.name)
	if wideStmt(tag) {
		for i := range l.dest.wide {
			l.b.Select(fmt.Sprintf("w%d", i)).To(&l.dest.wide[i])
		}
	}
	s.where(l, tag)
	return l
}

func (s *stmtLife) where(l *liveStmt, tag int) {
	if s.pad != "" {
		l.b.Where(s.pad, s.many...)
		return
	}
	text, args := stmtCond(tag)
	l.b.Where(text, args...)
	l.runs = 0
}

func (l *liveStmt) want() (string, []any) {
	text := "SELECT " + l.columns() + " FROM t WHERE "
	var args []any
	n := 0
	for i, p := range l.parts {
		if i > 0 {
			text += " AND "
		}
		c, a := stmtCond(p)
		for _, r := range c {
			if r == '?' {
				n++
				text += fmt.Sprintf("$%d", n)
			} else {
				text += string(r)
			}
		}
		args = append(args, a...)
	}
	return text, args
}

// foreign reports whether the text shows what was written into a statement
// made after this one was last changed: the two share a buffer.
func (l *liveStmt) foreign(text string) bool {
	for _, m := range markRx.FindAllStringSubmatch(text, -1) {
		if n, _ := strconv.Atoi(m[1]); n > l.parts[len(l.parts)-1] {
			return true
		}
	}
	return false
}

func sameArgs(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// look compares a statement with the specification.
func (s *stmtLife) look(l *liveStmt, text string, args []any) (prop, msg string) {
	text = strings.Join(strings.Fields(text), " ") // newlines between clauses are as good
	wt, wa := l.want()
	if text == wt && sameArgs(args, wa) {
		return "", ""
	}
	msg = fmt.Sprintf("statement %v is %q %v instead of %q %v", l.parts, text, args, wt, wa)
	switch {
	case l.foreign(text):
		return "E02", "two statements share a buffer: " + msg
	case l.runs > 0:
		return "E02", fmt.Sprintf("after %d runs: %s", l.runs, msg)
	}
	return "B04", msg
}

// run executes the statement of one slot.
func (s *stmtLife) run(l *liveStmt, r Rec, exec xsql.Executor, closing bool) (prop, msg string) {
	how, fault, at, nrows := r.R("run").S("how"), r.R("run").S("fault"), r.R("run").I("at"), r.R("run").I("rows")
	ctx := context.Background()
	calls, got := 0, 0
	var text string
	var args []any
	seen := func(q string, nv []driver.NamedValue) {
		calls++
		text = q
		for _, v := range nv {
			args = append(args, v.Value)
		}
	}
	s.f.OnExec = func(c *FakeConn, q string, nv []driver.NamedValue) (driver.Result, error) {
		seen(q, nv)
		if fault == "query" {
			return nil, errFault
		}
		return driver.RowsAffected(3), nil
	}
	s.f.OnQuery = func(c *FakeConn, q string, nv []driver.NamedValue) (*FakeRows, error) {
		seen(q, nv)
		if fault == "query" {
			return nil, errFault
		}
		fr := &FakeRows{Cols: strings.Split(l.columns(), ", ")}
		for i := 0; i < nrows; i++ {
			v := []driver.Value{int64(100*l.first + i), fmt.Sprintf("n%d", i)}
			for k := 2; k < len(fr.Cols); k++ {
				v = append(v, fmt.Sprintf("%s%d", fr.Cols[k], i))
			}
			if fault == "scan" && i == at {
				v[0] = "not a number"
			}
			fr.Data = append(fr.Data, v)
		}
		fr.OnNext = func(i int) error {
			if fault == "next" && i == at || fault == "end" && i == nrows {
				return errFault
			}
			return nil
		}
		return fr, nil
	}
	dest, bad := l.dest, ""
	row := func() {
		if dest.id != int64(100*l.first+got) || dest.name != fmt.Sprintf("n%d", got) {
			bad = fmt.Sprintf("row %d reads as %+v", got, *dest)
		}
		for k, w := range dest.wide {
			if wideStmt(l.first) && w != fmt.Sprintf("w%d%d", k, got) {
				bad = fmt.Sprintf("row %d reads as %+v", got, *dest)
			}
		}
		got++
	}
	handler := func(*sql.Rows) {
		if fault == "panic" && got == at {
			panic(errFault)
		}
		row()
	}
	var err error
	cp := guard(func() {
		switch {
		case how == "Query" && closing:
			err = l.b.QueryAndClose(ctx, exec, handler)
		case how == "Query":
			err = l.b.Query(ctx, exec, handler)
		case how == "QueryRow" && closing:
			err = l.b.QueryRowAndClose(ctx, exec)
		case how == "QueryRow":
			err = l.b.QueryRow(ctx, exec)
		case closing:
			_, err = l.b.ExecAndClose(ctx, exec)
		default:
			_, err = l.b.Exec(ctx, exec)
		}
	})
	res := "ok"
	switch {
	case cp != nil && cp.val == any(errFault):
		res = "panic"
	case cp != nil:
		// a first run that fails without closing as well is about running
		prop = "E02"
		if l.runs == 0 {
			o := s.build(l.first)
			o.runs = 1
			if p, _ := s.run(o, r, exec, false); !closing || p != "" {
				prop = "E01"
			}
		}
		return prop, fmt.Sprintf("run %d panics: %v at %s", l.runs+1, cp.val, cp.stack)
	case errors.Is(err, sql.ErrNoRows):
		res = "norows"
	case err != nil:
		res = "error"
	}
	if how == "QueryRow" && res == "ok" {
		row()
	}
	if s.pad != "" {
		return "", ""
	}
	out := r.R("out")
	if calls != 1 || bad != "" || res != out.S("res") || got != out.I("got") {
		p := "E01"
		if l.runs > 0 {
			p = "E02"
		}
		return p, fmt.Sprintf("run %d: %d executions, outcome %s after %d rows (%v) %s", l.runs+1, calls, res, got, err, bad)
	}
	prop, msg = s.look(l, text, args)
	l.runs++
	return prop, msg
}

// probe takes statements from the pool after what happened before: none of
// them may be, or share storage with, another.
func (s *stmtLife) probe(tag int) (prop, msg string) {
	for round := 0; round < 2; round++ {
		a, b := s.build(tag+1), s.build(tag+2)
		if a.b == b.b {
			return "E02", "a closed statement is handed out twice"
		}
		a.b.Close()
		c := s.build(tag + 3)
		for i := 4; i < 10; i++ {
			c.parts = append(c.parts, tag+i)
			s.where(c, tag+i)
		}
		for _, l := range []*liveStmt{b, c} {
			if prop, msg = s.look(l, l.b.String(), l.b.Args()); msg != "" {
				return prop, msg
			}
		}
		b.b.Close()
		c.b.Close()
	}
	return "", ""
}

func (s *stmtLife) replay(res *Result, beh []Rec, looks bool) (prop, msg string, step int) {
	runs := 0
	for n, r := range beh {
		i := r.I("i")
		l := s.live[i]
		switch r.S("op") {
		case "Make":
			l = s.build(n + 1)
			for j, o := range s.live {
				if o.b == l.b {
					return "E02", fmt.Sprintf("the statement made is also the one in slot %d", j), n
				}
			}
			s.live[i] = l
		case "Extend":
			l.parts = append(l.parts, n+1)
			s.where(l, n+1)
		case "Clone":
			c := &liveStmt{b: l.b.Clone(), parts: append([]int{}, l.parts...), first: l.first, dest: l.dest}
			for j, o := range s.live {
				if o.b == c.b {
					return "E02", fmt.Sprintf("the clone is the statement in slot %d", j), n
				}
			}
			s.live[r.I("j")] = c
		case "Close":
			if cp := guard(l.b.Close); cp != nil {
				return "E02", fmt.Sprintf("Close panics after %d runs: %v", l.runs, cp.val), n
			}
			delete(s.live, i)
		case "Run":
			runs++
			if prop, msg = s.run(l, r, s.db, r.B("close")); msg != "" {
				return prop, js(r) + ": " + msg, n
			}
			if r.B("close") {
				delete(s.live, i)
			}
			if ok, m := settled(s.db, s.f, 0, 0); !ok {
				return "E02", js(r) + ": " + m, n
			}
		}
		if !looks {
			continue
		}
		for j, st := range r.L("st") { // the harness and the specification agree on what is held
			l, held := s.live[j+1]
			want := (Rec{"v": st}).IL("v")
			if held != (len(want) > 0) || held && fmt.Sprint(l.parts) != fmt.Sprint(want) {
				panic(HarnessError(fmt.Sprintf("slot %d after %s", j+1, js(r))))
			}
		}
		if n%3 == 2 || n == len(beh)-1 {
			for j, l := range s.live {
				if prop, msg = s.look(l, l.b.String(), l.b.Args()); msg != "" {
					return prop, fmt.Sprintf("slot %d: %s", j, msg), n
				}
			}
		}
	}
	if ok, m := settled(s.db, s.f, 0, 0); !ok {
		return "E02", m, len(beh) - 1
	}
	for j, l := range s.live {
		if cp := guard(l.b.Close); cp != nil {
			return "E02", fmt.Sprintf("Close panics: %v", cp.val), len(beh) - 1
		}
		delete(s.live, j)
	}
	if looks {
		prop, msg = s.probe(len(beh))
	}
	res.Count("runs", runs)
	return prop, msg, len(beh) - 1
}

func TestStmtLife(t *testing.T) {
	Replay(t, "E02", func(res *Result, i int, beh []Rec) {
		s := newStmtLife()
		defer s.db.Close()
		prop, msg, step := s.replay(res, beh, true)
		if msg != "" {
			res.Fail(prop, "stmtlife", msg, step, beh)
		}
		res.AddCase(beh, len(beh) > 3, len(beh))
	})
}

// TestStmtRecycle repeats the life of a statement: what it was built in is
// used again, so that the memory taken does not grow with the repetitions.
func TestStmtRecycle(t *testing.T) {
	const cycles, size = 60, 1 << 16
	pad := strings.Repeat("x", size)
	many := make([]any, 8)
	for i := range many {
		many[i] = 1
	}
	nul := &recycleExec{db: nopDB()}
	defer nul.db.Close()
	Replay(t, "E02", func(res *Result, i int, beh []Rec) {
		last := beh[len(beh)-1]
		if !(last.S("op") == "Close" || last.S("op") == "Run" && last.B("close") && last.R("run").S("fault") != "panic") {
			return
		}
		s := newStmtLife()
		defer s.db.Close()
		s.pad, s.many = pad, many
		s.name = func(tag int) string { return "recycled" }
		nul.db, nul.fail = s.db, last.S("op") == "Run" && last.R("run").S("fault") == "query"
		broken := ""
		life := func() {
			l := s.build(2)
			if last.S("op") == "Close" {
				l.b.Close()
			} else if prop, msg := s.run(l, last, nul, true); msg != "" {
				broken = prop + msg
			}
		}
		for k := 0; k < 8 && broken == ""; k++ {
			life()
		}
		if broken != "" {
			res.Fail(broken[:3], "recycle", js(last)+": "+broken[3:], 0, beh)
			return
		}
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		for k := 0; k < cycles; k++ {
			life()
		}
		runtime.ReadMemStats(&m1)
		if per := (m1.TotalAlloc - m0.TotalAlloc) / cycles; per > size/2 {
			res.Fail("E02", "recycle", fmt.Sprintf("%s: every statement takes another %d bytes: its buffers are not returned", js(last), per), 0, beh)
		}
		res.AddCase(beh, true, cycles)
	})
}

// recycleExec takes the statement without copying its arguments.
type recycleExec struct {
	db   *sql.DB
	fail bool
}

func (e *recycleExec) ExecContext(ctx context.Context, q string, args ...any) (sql.Result, error) {
	if e.fail {
		return nil, errFault
	}
	return driver.RowsAffected(1), nil
}
func (e *recycleExec) QueryContext(ctx context.Context, q string, args ...any) (*sql.Rows, error) {
	return e.db.QueryContext(ctx, "q")
}
func (e *recycleExec) QueryRowContext(ctx context.Context, q string, args ...any) *sql.Row {
	return e.db.QueryRowContext(ctx, "q")
}
