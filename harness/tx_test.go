package harness

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/xsql"
)

// txBackend is a database of numbered writes with transactions per connection.
type txBackend struct {
	mu        sync.Mutex
	committed map[int]bool
	buf       map[*FakeConn][]int
	begun     int
	opts      driver.TxOptions
	fault     bool
	execs     int
	queries   int
}

func (b *txBackend) attach(f *FakeDB) {
	fail := func() error {
		if b.fault {
			return errFault
		}
		return nil
	}
	f.OnBegin = func(c *FakeConn, o driver.TxOptions) error {
		b.mu.Lock()
		defer b.mu.Unlock()
		if err := fail(); err != nil {
			return err
		}
		b.begun++
		b.opts = o
		b.buf[c] = []int{}
		return nil
	}
	f.OnExec = func(c *FakeConn, q string, args []driver.NamedValue) (driver.Result, error) {
		b.mu.Lock()
		defer b.mu.Unlock()
		b.execs++
		if err := fail(); err != nil {
			return nil, err
		}
		n := int(anyInt(args[len(args)-1].Value))
		if l, ok := b.buf[c]; ok {
			b.buf[c] = append(l, n)
		} else {
			b.committed[n] = true
		}
		return driver.RowsAffected(1), nil
	}
	f.OnCommit = func(c *FakeConn) error {
		b.mu.Lock()
		defer b.mu.Unlock()
		l := b.buf[c]
		delete(b.buf, c)
		if err := fail(); err != nil {
			return err
		}
		for _, n := range l {
			b.committed[n] = true
		}
		return nil
	}
	f.OnRollback = func(c *FakeConn) error {
		b.mu.Lock()
		defer b.mu.Unlock()
		delete(b.buf, c)
		return fail()
	}
	f.OnQuery = func(c *FakeConn, q string, args []driver.NamedValue) (*FakeRows, error) {
		b.mu.Lock()
		defer b.mu.Unlock()
		b.queries++
		seen := map[int]bool{}
		for n := range b.committed {
			seen[n] = true
		}
		for _, n := range b.buf[c] {
			seen[n] = true
		}
		if strings.Contains(q, "one") {
			return &FakeRows{Cols: []string{"all"}, Data: [][]driver.Value{{setText(seen)}}}, nil
		}
		r := &FakeRows{Cols: []string{"n"}}
		for n := range seen {
			r.Data = append(r.Data, []driver.Value{int64(n)})
		}
		return r, nil
	}
}

func (b *txBackend) visible() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	return setText(b.committed)
}
func (b *txBackend) open() int {
	b.mu.Lock()
	defer b.mu.Unlock()
	return len(b.buf)
}

func setText(m map[int]bool) string {
	var l []int
	for n := range m {
		l = append(l, n)
	}
	sort.Ints(l)
	return strings.Trim(fmt.Sprint(l), "[]")
}
func listText(l []int) string {
	m := map[int]bool{}
	for _, n := range l {
		m[n] = true
	}
	return setText(m)
}

type txRun struct {
	b       *txBackend
	fakes   map[string]*FakeDB
	dbs     map[string]*sql.DB
	parents map[string]*xdb.SQLProvider
	txs     []xdb.Provider
	owner   []string
	cancels []context.CancelFunc
}

func newTxRun() *txRun {
	r := &txRun{b: &txBackend{committed: map[int]bool{}, buf: map[*FakeConn][]int{}},
		fakes: map[string]*FakeDB{}, dbs: map[string]*sql.DB{}, parents: map[string]*xdb.SQLProvider{}}
	return r
}
func (r *txRun) parent(name string) *xdb.SQLProvider {
	if p := r.parents[name]; p != nil {
		return p
	}
	f := &FakeDB{}
	r.b.attach(f)
	db := f.DB()
	p, err := xdb.New("postgres", db, nil)
	if err != nil {
		panic(HarnessError(err.Error()))
	}
	r.fakes[name], r.dbs[name], r.parents[name] = f, db, p
	return p
}

func readInts(rows *sql.Rows) (string, error) {
	defer rows.Close()
	m := map[int]bool{}
	for rows.Next() {
		var n int
		if err := rows.Scan(&n); err != nil {
			return "", err
		}
		m[n] = true
	}
	return setText(m), rows.Err()
}

func (r *txRun) step(o Rec) string {
	parent := r.parent(o.S("by"))
	var p xdb.Provider = parent
	t := o.I("t")
	if t > 0 {
		p = r.txs[t-1]
	}
	ctx := context.Background()
	if o.S("fault") == "ctx" {
		c, cancel := context.WithCancel(ctx)
		cancel()
		ctx = c
	}
	r.b.fault = o.S("fault") == "fault"
	r.b.execs, r.b.queries = 0, 0
	var err error
	var seen, bad string
	once := true
	cp := guard(func() {
		switch o.S("op") {
		case "Exec":
			n := o.I("write")
			switch o.S("how") {
			case "exec":
				_, err = p.ExecContext(ctx, "WRITE $1", n)
			case "dbexec":
				_, err = p.DB().ExecContext(ctx, "WRITE $1", n)
			case "builder":
				_, err = xsql.Postgres.InsertInto("t").Set("n", n).ExecAndClose(ctx, p)
			}
		case "Read":
			var rows *sql.Rows
			switch o.S("how") {
			case "query":
				if rows, err = p.QueryContext(ctx, "SELECT n"); err == nil {
					seen, err = readInts(rows)
				}
			case "dbquery":
				if rows, err = p.DB().QueryContext(ctx, "SELECT n"); err == nil {
					seen, err = readInts(rows)
				}
			case "row":
				err = p.QueryRowContext(ctx, "SELECT one").Scan(&seen)
			case "builder":
				var n int
				m := map[int]bool{}
				err = xsql.Postgres.From("t").Select("n").To(&n).QueryAndClose(ctx, p, func(*sql.Rows) { m[n] = true })
				seen = setText(m)
			case "list":
				var l []*keyRow
				l, err = xdb.ExecuteListQuery[keyRow](ctx, p, "SELECT n")
				m := map[int]bool{}
				for _, k := range l {
					m[int(k.N)] = true
				}
				seen = setText(m)
			}
		case "Begin":
			var opts *sql.TxOptions
			var want driver.TxOptions
			switch o.S("opts") {
			case "ro":
				opts = &sql.TxOptions{ReadOnly: true}
				want.ReadOnly = true
			case "serializable":
				opts = &sql.TxOptions{Isolation: sql.LevelSerializable}
				want.Isolation = driver.IsolationLevel(sql.LevelSerializable)
			case "default":
				opts = &sql.TxOptions{}
			}
			var cancel context.CancelFunc
			ctx, cancel = context.WithCancel(ctx)
			var np xdb.Provider
			np, err = p.BeginTx(ctx, opts)
			if err != nil {
				cancel()
				break
			}
			if r.b.opts != want {
				bad = fmt.Sprintf("begun with the options %+v", r.b.opts)
			}
			if np == nil || np.Tx() == nil {
				bad = "no transaction"
			}
			if np.Name() != parent.Name() {
				bad = "another name: " + np.Name()
			}
			r.txs = append(r.txs, np)
			r.owner = append(r.owner, o.S("by"))
			r.cancels = append(r.cancels, cancel)
		case "Commit":
			err = p.(interface{ Commit() error }).Commit()
		case "Rollback":
			err = p.(interface{ Rollback() error }).Rollback()
		case "Close":
			err = p.Close()
		case "Cancel":
			r.cancels[t-1]()
		default:
			panic(HarnessError("op " + o.S("op")))
		}
	})
	r.b.fault = false
	if cp != nil {
		return fmt.Sprintf("panics: %v at %s", cp.val, cp.stack)
	}
	if bad != "" {
		return bad
	}
	if (err == nil) != (o.S("res") == "ok") {
		return fmt.Sprintf("the result is %v", err)
	}
	if o.S("op") == "Read" && err == nil && seen != listText(o.IL("seen")) {
		return fmt.Sprintf("sees [%s] instead of [%s]", seen, listText(o.IL("seen")))
	}
	if r.b.execs > 1 || r.b.queries > 1 {
		once = false
	}
	if !once {
		return fmt.Sprintf("the database is asked %d times", r.b.execs+r.b.queries)
	}
	if r.b.begun != o.I("begun") {
		return fmt.Sprintf("%d transactions begun instead of %d", r.b.begun, o.I("begun"))
	}
	// database/sql rolls back in the background after cancelling
	for i := 0; r.b.open() != o.I("active"); i++ {
		if i > 1000 {
			return fmt.Sprintf("%d transactions are open instead of %d", r.b.open(), o.I("active"))
		}
		time.Sleep(time.Millisecond)
	}
	if v := r.b.visible(); v != listText(o.IL("committed")) {
		return fmt.Sprintf("[%s] is visible instead of [%s]", v, listText(o.IL("committed")))
	}
	return ""
}

func (r *txRun) end() string {
	for i, t := range r.txs {
		_ = t.Rollback()
		r.cancels[i]()
	}
	msg := ""
	for n, p := range r.parents {
		if ok, m := settled(r.dbs[n], r.fakes[n], 0, 0); !ok && msg == "" {
			msg = "at the end: " + m
		}
		_ = p.Close()
	}
	return msg
}

func TestTx(t *testing.T) {
	Replay(t, "T01", func(res *Result, i int, beh []Rec) {
		r := newTxRun()
		msg := ""
		step := 0
		ok, cp := within(30*time.Second, func() {
			for n, o := range beh {
				step = n
				if m := r.step(o); m != "" {
					msg = js(o) + ": " + m
					return
				}
			}
		})
		switch {
		case !ok:
			res.Fail("T01", "hang", js(beh[step])+" does not return", step, beh)
			return
		case cp != nil:
			panic(HarnessError(fmt.Sprint(cp.val, cp.stack)))
		case msg != "":
			res.Fail("T01", "tx", msg, step, beh)
		}
		if m := r.end(); m != "" && msg == "" {
			res.Fail("E02", "tx", m, len(beh), beh)
		}
		txs := len(r.txs)
		res.AddCase(beh, txs > 0, len(beh))
	})
}
