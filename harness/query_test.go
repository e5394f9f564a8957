package harness

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"testing"
	"time"

	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/xsql"
)

// userRow is a model of three columns.
type userRow struct {
	ID   int64
	Name string
	Note xdb.NULLString
}

func (u *userRow) ScanRow(r xdb.Row) error { return r.Scan(&u.ID, &u.Name, &u.Note) }

var errFault = errors.New("injected failure")

type pageSink struct {
	calls  int
	rows   []*userRow
	next   bool
	offset uint32
	cursor func(*userRow) string
}

func (p *pageSink) SetResult(rows []*userRow, hasNext bool, next uint32) {
	p.calls++
	p.rows, p.next, p.offset = rows, hasNext, next
}
func (p *pageSink) SetResultWithCursor(rows []*userRow, hasNext bool, cursor func(*userRow) string) {
	p.calls++
	p.rows, p.next, p.cursor = rows, hasNext, cursor
}

// row i of result tag, as the driver returns it
func rowValues(tag, i int) []driver.Value {
	var note driver.Value
	if i%3 == 1 {
		note = fmt.Sprintf("note %d", i)
	}
	if i%2 == 0 {
		return []driver.Value{int64(1000*tag + i), fmt.Sprintf("n%d.%d", tag, i), note}
	}
	return []driver.Value{int64(1000*tag + i), []byte(fmt.Sprintf("n%d.%d", tag, i)), note}
}

func rowWant(tag, i int) userRow {
	u := userRow{ID: int64(1000*tag + i), Name: fmt.Sprintf("n%d.%d", tag, i)}
	if i%3 == 1 {
		u.Note = xdb.NULLString(fmt.Sprintf("note %d", i))
	}
	return u
}

// settled waits for connections that database/sql gives back in the background.
func settled(db *sql.DB, f *FakeDB, inUse, cursors int) (bool, string) {
	for i := 0; ; i++ {
		_, c := f.Stats()
		u := db.Stats().InUse
		if u == inUse && c == cursors {
			return true, ""
		}
		if i > 400 {
			return false, fmt.Sprintf("%d connections in use (want %d), %d cursors open (want %d)", u, inUse, c, cursors)
		}
		time.Sleep(5 * time.Millisecond)
	}
}

type queryRun struct {
	f    *FakeDB
	db   *sql.DB
	prov *xdb.SQLProvider
}

func newQueryRun() *queryRun {
	q := &queryRun{f: &FakeDB{}}
	q.db = q.f.DB()
	p, err := xdb.New("postgres", q.db, nil)
	if err != nil {
		panic(HarnessError(err.Error()))
	}
	q.prov = p
	return q
}

func (q *queryRun) step(r Rec, tag int) (prop, msg string) {
	fn, nrows, fault, at := r.S("fn"), r.I("rows"), r.S("fault"), r.I("at")
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	queries := 0
	q.f.OnQuery = func(c *FakeConn, text string, args []driver.NamedValue) (*FakeRows, error) {
		queries++
		if fault == "query" {
			return nil, errFault
		}
		fr := &FakeRows{Cols: []string{"id", "name", "note"}}
		for i := 0; i < nrows; i++ {
			v := rowValues(tag, i)
			switch {
			case fault == "scan" && i == at:
				v[0] = "not a number"
			case fault == "columns":
				v = v[:2]
			}
			fr.Data = append(fr.Data, v)
		}
		if fault == "columns" {
			fr.Cols = fr.Cols[:2]
		}
		if fault == "close" {
			fr.CloseErr = errFault
		}
		fr.OnNext = func(i int) error {
			switch {
			case fault == "next" && i == at, fault == "end" && i == nrows:
				return errFault
			case fault == "cancel" && i == at:
				cancel()
			}
			return nil
		}
		return fr, nil
	}
	var exec xdb.DB
	release := func() {}
	held := 0
	switch r.S("exec") {
	case "db":
		exec = q.db
	case "conn":
		c, err := q.db.Conn(context.Background())
		if err != nil {
			panic(HarnessError(err.Error()))
		}
		exec, held, release = c, 1, func() { _ = c.Close() }
	case "tx":
		t, err := q.db.BeginTx(context.Background(), nil)
		if err != nil {
			panic(HarnessError(err.Error()))
		}
		exec, held, release = t, 1, func() { _ = t.Rollback() }
	case "prov":
		exec = q.prov
	case "provtx":
		t, err := q.prov.BeginTx(context.Background(), nil)
		if err != nil {
			panic(HarnessError(err.Error()))
		}
		exec, held, release = t, 1, func() { _ = t.Rollback() }
	}
	const text = "SELECT id, name, note FROM users"
	var (
		list []*userRow
		err  error
		sink pageSink
		got  int
		bad  string
		id   int64
		name string
		note xdb.NULLString
	)
	one := func(i int, u userRow) {
		if w := rowWant(tag, i); u != w && bad == "" {
			bad = fmt.Sprintf("row %d is %+v instead of %+v", i, u, w)
		}
	}
	handler := func(rows *sql.Rows) {
		if fault == "panic" && got == at {
			panic(errFault)
		}
		one(got, userRow{id, name, note})
		got++
	}
	const limit = 2
	run := func() {
		switch fn {
		case "List":
			list, err = xdb.ExecuteListQuery[userRow](ctx, exec, text, "a")
		case "Query":
			err = xdb.ExecuteQuery[userRow](ctx, exec, &sink, text, "a")
		case "PageParams":
			err = xdb.ExecuteQueryWithPagination[userRow](ctx, exec, &sink, text, xdb.NewQueryParams("q").SetPage(limit, 0))
		case "PageArgs":
			err = xdb.ExecuteQueryWithPagination[userRow](ctx, exec, &sink, text, "a", limit, 0)
		case "Cursor":
			err = xdb.ExecuteQueryWithCursor(ctx, exec, func(u *userRow) string { return u.Name }, &sink, text, xdb.NewQueryParams("q").SetCursor(limit, 0, "x"))
		case "CursorArgs":
			err = xdb.ExecuteQueryWithCursor(ctx, exec, func(u *userRow) string { return u.Name }, &sink, text, "x", limit)
		case "Builder", "BuilderAndClose":
			b := xsql.Postgres.Select("id, name, note").To(&id, &name, &note).From("users")
			if fn == "Builder" {
				defer b.Close()
				err = b.Query(ctx, exec, handler)
			} else {
				err = b.QueryAndClose(ctx, exec, handler)
			}
		case "QueryRow":
			var u *userRow
			u, err = xdb.QueryRow[userRow](ctx, exec, text, "a")
			if err == nil {
				if u == nil {
					bad = "no record without an error"
				} else {
					got = 1
					one(0, *u)
				}
			}
		case "BuilderRow", "BuilderRowAndClose":
			b := xsql.Postgres.Select("id, name, note").To(&id, &name, &note).From("users")
			if fn == "BuilderRow" {
				defer b.Close()
				err = b.QueryRow(ctx, exec)
			} else {
				err = b.QueryRowAndClose(ctx, exec)
			}
			if err == nil {
				got = 1
				one(0, userRow{id, name, note})
			}
		default:
			panic(HarnessError("fn " + fn))
		}
	}
	what := js(r)
	var cp *codePanic
	if ok, p := within(20*time.Second, func() { cp = guard(run) }); !ok || p != nil {
		return "E01", what + ": does not return"
	}
	res := "ok"
	switch {
	case cp != nil && cp.val == any(errFault):
		res = "panic"
	case cp != nil:
		return "E01", fmt.Sprintf("%s: panics: %v at %s", what, cp.val, cp.stack)
	case errors.Is(err, sql.ErrNoRows):
		res = "norows"
		if !xdb.IsNotFoundError(err) {
			return "R01", what + ": no rows is not recognised as not found"
		}
	case err != nil:
		res = "error"
	}
	switch fn {
	case "Query", "PageParams", "PageArgs", "Cursor", "CursorArgs":
		list = sink.rows
		want := 0
		if res == "ok" {
			want = 1
		}
		if sink.calls != want {
			return "E01", fmt.Sprintf("%s: the result is set %d times, outcome %s", what, sink.calls, res)
		}
	}
	switch fn {
	case "List", "Query", "PageParams", "PageArgs", "Cursor", "CursorArgs":
		if res == "ok" {
			got = len(list)
			seen := map[*userRow]bool{}
			for i, u := range list {
				if u == nil || seen[u] {
					return "E01", fmt.Sprintf("%s: record %d is shared or missing", what, i)
				}
				seen[u] = true
				if i < nrows {
					one(i, *u)
				}
			}
		}
	}
	if bad != "" {
		return "E01", what + ": " + bad
	}
	if queries != 1 {
		return "E01", fmt.Sprintf("%s: the query runs %d times", what, queries)
	}
	allowed := false
	for _, a := range r.RL("allowed") {
		if a.S("res") == res && (res == "error" && fn != "Builder" && fn != "BuilderAndClose" || a.I("got") == got) {
			allowed = true
		}
	}
	if !allowed {
		return "E01", fmt.Sprintf("%s: outcome %s after %d rows (%v)", what, res, got, err)
	}
	if ok, m := settled(q.db, q.f, held, 0); !ok {
		return "E02", fmt.Sprintf("%s: after the call: %s", what, m)
	}
	release()
	if ok, m := settled(q.db, q.f, 0, 0); !ok {
		return "E02", fmt.Sprintf("%s: after releasing the executor: %s", what, m)
	}
	return "", ""
}

func TestQuery(t *testing.T) {
	Replay(t, "E01", func(res *Result, i int, beh []Rec) {
		q := newQueryRun()
		defer q.prov.Close()
		faults := 0
		for n, r := range beh {
			if r.S("fault") != "none" {
				faults++
			}
			prop, msg := q.step(r, n+1)
			if msg != "" {
				res.Fail(prop, "query", msg, n, beh)
				break
			}
		}
		res.AddCase(beh, faults > 0, len(beh))
	})
}
