package harness

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"io"
	"sync"
)

// FakeDB is a scriptable database/sql driver that counts everything it hands
// out. Handlers run under no lock of the driver.
type FakeDB struct {
	mu      sync.Mutex
	Open    int // driver connections currently open
	Opened  int
	Cursors int // result sets currently open
	Closed  int
	Pings   int

	OnConnect  func() error
	OnPing     func(c *FakeConn) error
	OnQuery    func(c *FakeConn, q string, args []driver.NamedValue) (*FakeRows, error)
	OnExec     func(c *FakeConn, q string, args []driver.NamedValue) (driver.Result, error)
	OnBegin    func(c *FakeConn, o driver.TxOptions) error
	OnCommit   func(c *FakeConn) error
	OnRollback func(c *FakeConn) error
	OnClose    func(c *FakeConn) error
}

func (f *FakeDB) DB() *sql.DB { return sql.OpenDB(f) }

func (f *FakeDB) Connect(ctx context.Context) (driver.Conn, error) {
	if f.OnConnect != nil {
		if err := f.OnConnect(); err != nil {
			return nil, err
		}
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	f.Open++
	f.Opened++
	return &FakeConn{f: f, No: f.Opened}, nil
}
func (f *FakeDB) Driver() driver.Driver { return fakeDriver{f} }

type fakeDriver struct{ f *FakeDB }

func (d fakeDriver) Open(string) (driver.Conn, error) { return d.f.Connect(context.Background()) }

type FakeConn struct {
	f      *FakeDB
	No     int
	InTx   bool
	Data   any
	closed bool
}

func (c *FakeConn) Prepare(q string) (driver.Stmt, error) { return nil, driver.ErrSkip }
func (c *FakeConn) Close() error {
	c.f.mu.Lock()
	if !c.closed {
		c.closed = true
		c.f.Open--
		c.f.Closed++
	}
	c.f.mu.Unlock()
	if c.f.OnClose != nil {
		return c.f.OnClose(c)
	}
	return nil
}
func (c *FakeConn) Begin() (driver.Tx, error) {
	return c.BeginTx(context.Background(), driver.TxOptions{})
}
func (c *FakeConn) BeginTx(ctx context.Context, o driver.TxOptions) (driver.Tx, error) {
	if c.f.OnBegin != nil {
		if err := c.f.OnBegin(c, o); err != nil {
			return nil, err
		}
	}
	c.InTx = true
	return fakeTx{c}, nil
}
func (c *FakeConn) Ping(ctx context.Context) error {
	c.f.mu.Lock()
	c.f.Pings++
	c.f.mu.Unlock()
	if c.f.OnPing != nil {
		return c.f.OnPing(c)
	}
	return nil
}
func (c *FakeConn) CheckNamedValue(nv *driver.NamedValue) error { return nil }
func (c *FakeConn) ExecContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	if c.f.OnExec != nil {
		return c.f.OnExec(c, q, args)
	}
	return driver.RowsAffected(0), nil
}
func (c *FakeConn) QueryContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	if c.f.OnQuery == nil {
		return c.f.newRows(&FakeRows{}), nil
	}
	r, err := c.f.OnQuery(c, q, args)
	if err != nil {
		return nil, err
	}
	return c.f.newRows(r), nil
}
func (f *FakeDB) newRows(r *FakeRows) *FakeRows {
	r.f = f
	f.mu.Lock()
	f.Cursors++
	f.mu.Unlock()
	return r
}

type fakeTx struct{ c *FakeConn }

func (t fakeTx) Commit() error {
	t.c.InTx = false
	if t.c.f.OnCommit != nil {
		return t.c.f.OnCommit(t.c)
	}
	return nil
}
func (t fakeTx) Rollback() error {
	t.c.InTx = false
	if t.c.f.OnRollback != nil {
		return t.c.f.OnRollback(t.c)
	}
	return nil
}

// FakeRows is one result set. OnNext, when set, runs before row i (0-based,
// len(Data) meaning the end of the result) is delivered.
type FakeRows struct {
	f        *FakeDB
	Cols     []string
	Data     [][]driver.Value
	OnNext   func(i int) error
	CloseErr error
	i        int
	closed   bool
}

func (r *FakeRows) Columns() []string { return r.Cols }
func (r *FakeRows) Close() error {
	r.f.mu.Lock()
	if !r.closed {
		r.closed = true
		r.f.Cursors--
	}
	r.f.mu.Unlock()
	return r.CloseErr
}
func (r *FakeRows) Next(dest []driver.Value) error {
	if r.OnNext != nil {
		if err := r.OnNext(r.i); err != nil {
			return err
		}
	}
	if r.i >= len(r.Data) {
		return io.EOF
	}
	copy(dest, r.Data[r.i])
	r.i++
	return nil
}

func (f *FakeDB) Stats() (open, cursors int) {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.Open, f.Cursors
}

func nopDB() *sql.DB { return (&FakeDB{}).DB() }
