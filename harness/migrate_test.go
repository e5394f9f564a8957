package harness

import (
	"database/sql/driver"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/effective-security/xdb/migrate"
)

// migDB is a database as migrations see it: the version table and the lock.
type migDB struct {
	f          *FakeDB
	tab        bool
	ver        int
	dirty      bool
	buf        map[*FakeConn]*[2]int // version (-1 none), dirty
	ran        []string
	count      map[string]int
	faultClass string
	faultAt    int
	fired      bool
	unknown    string
}

func newMigDB() *migDB {
	m := &migDB{f: &FakeDB{}, ver: -1, buf: map[*FakeConn]*[2]int{}}
	m.f.OnPing = func(c *FakeConn) error { return m.hit("connect") }
	m.f.OnBegin = func(c *FakeConn, o driver.TxOptions) error {
		if err := m.hit("begin"); err != nil {
			return err
		}
		d := 0
		if m.dirty {
			d = 1
		}
		m.buf[c] = &[2]int{m.ver, d}
		return nil
	}
	m.f.OnCommit = func(c *FakeConn) error {
		b := m.buf[c]
		delete(m.buf, c)
		if err := m.hit("commit"); err != nil {
			return err
		}
		m.ver, m.dirty = b[0], b[1] == 1
		return nil
	}
	m.f.OnRollback = func(c *FakeConn) error { delete(m.buf, c); return nil }
	m.f.OnExec = m.exec
	m.f.OnQuery = m.query
	return m
}

// hit counts a statement and fails it when it is the one to fail.
func (m *migDB) hit(class string) error {
	m.count[class]++
	if m.faultClass == class && m.faultAt == m.count[class] {
		m.fired = true
		// texts that must not be taken for something else
		return fmt.Errorf("%s failed: no change, no rows in result set, lock timeout", class)
	}
	return nil
}

func migNorm(q string) string { return strings.ToLower(strings.Join(strings.Fields(q), " ")) }

func (m *migDB) exec(c *FakeConn, q string, args []driver.NamedValue) (driver.Result, error) {
	n := migNorm(q)
	arg := func(i int) any { return args[i].Value }
	class := ""
	switch {
	case strings.HasPrefix(n, "-- script"):
		m.ran = append(m.ran, strings.TrimPrefix(n, "-- script "))
		return driver.RowsAffected(0), m.hit("script")
	case strings.Contains(n, "pg_advisory_lock"):
		class = "lock"
	case strings.Contains(n, "pg_advisory_unlock"), strings.Contains(n, "sp_releaseapplock"):
		class = "unlock"
	case strings.Contains(n, "create table"):
		class = "create"
	case strings.HasPrefix(n, "truncate"):
		class = "truncate"
	case strings.HasPrefix(n, "insert into"):
		class = "insert"
	default:
		m.unknown = q
		return nil, errFault
	}
	if err := m.hit(class); err != nil {
		return nil, err
	}
	switch class {
	case "create":
		m.tab = true
	case "truncate":
		m.set(c, -1, 0)
	case "insert":
		d := 0
		switch v := arg(1).(type) {
		case bool:
			if v {
				d = 1
			}
		default:
			d = int(anyInt(v))
		}
		m.set(c, int(anyInt(arg(0))), d)
	}
	return driver.RowsAffected(0), nil
}

func (m *migDB) set(c *FakeConn, v, d int) {
	if b := m.buf[c]; b != nil {
		b[0], b[1] = v, d
	} else {
		m.ver, m.dirty = v, d == 1
	}
}

func (m *migDB) query(c *FakeConn, q string, args []driver.NamedValue) (*FakeRows, error) {
	n := migNorm(q)
	one := func(class string, vals ...driver.Value) (*FakeRows, error) {
		if err := m.hit(class); err != nil {
			return nil, err
		}
		r := &FakeRows{Cols: []string{"a", "b"}[:len(vals)]}
		r.Data = [][]driver.Value{vals}
		return r, nil
	}
	switch {
	case strings.Contains(n, "current_database"), strings.Contains(n, "db_name"):
		return one("dbname", "db")
	case strings.Contains(n, "current_schema"), strings.Contains(n, "schema_name"):
		return one("schema", "public")
	case strings.Contains(n, "sp_getapplock"):
		return one("lock", int64(0))
	case strings.Contains(n, "information_schema.tables"):
		k := int64(0)
		if m.tab {
			k = 1
		}
		return one("tablecheck", k)
	case strings.Contains(n, "version, dirty"):
		if err := m.hit("version"); err != nil {
			return nil, err
		}
		r := &FakeRows{Cols: []string{"version", "dirty"}}
		if !m.tab {
			return nil, fmt.Errorf("no such table")
		}
		if m.ver >= 0 {
			r.Data = [][]driver.Value{{int64(m.ver), m.dirty}}
		}
		return r, nil
	}
	m.unknown = q
	return nil, errFault
}

var migDirs = map[string]string{}

func migDir(files []Rec) string {
	key := js(files)
	if d, ok := migDirs[key]; ok {
		return d
	}
	base := env("HARNESS_TMP", os.TempDir())
	d, err := os.MkdirTemp(base, "mig")
	if err != nil {
		panic(HarnessError(err.Error()))
	}
	write := func(name, body string) {
		if err := os.WriteFile(filepath.Join(d, name), []byte(body), 0o644); err != nil {
			panic(HarnessError(err.Error()))
		}
	}
	write("README.md", "not a migration")
	write("notes.sql", "-- script notes")
	for _, f := range files {
		v := f.I("v")
		name := fmt.Sprintf(map[int]string{1: "%d_a", 2: "%04d_two.words", 3: "%06d_c-3"}[v%4], v)
		if v%4 == 0 {
			name = fmt.Sprintf("%d_tables", v)
		}
		for _, dir := range []string{"up", "down"} {
			if f.S("f") == dir || f.S("f") == "both" {
				write(name+"."+dir+".sql", fmt.Sprintf("-- script %d %s\n", v, dir))
			}
		}
	}
	migDirs[key] = d
	return d
}

func TestMigrate(t *testing.T) {
	Replay(t, "M01", func(res *Result, i int, beh []Rec) {
		m := newMigDB()
		db := m.f.DB()
		defer db.Close()
		faulty := false
		for n, r := range beh {
			fault := r.R("fault")
			m.ran, m.count, m.fired, m.unknown = nil, map[string]int{}, false, ""
			m.faultClass, m.faultAt = fault.S("c"), fault.I("k")
			inUse := db.Stats().InUse
			dialect := r.S("dialect")
			provider := dialect
			if dialect == "postgres" && i%2 == 1 {
				provider = "pgsql"
			}
			var err error
			dir := migDir(r.RL("files"))
			bad := r.S("bad")
			switch bad {
			case "nodir":
				dir = ""
			case "missing":
				dir = filepath.Join(dir, "missing")
			case "provider":
				provider = []string{"", "mysql", "sqlite3", "Postgres", "mssql"}[i%5]
			case "refused":
				db.SetMaxIdleConns(0)
				m.f.OnConnect = func() error { return errFault }
			}
			cp := guard(func() {
				err = migrate.Migrate(provider, "db", dir, r.I("force"), r.I("target"), db)
			})
			desc := fmt.Sprintf("Migrate(%s, force %d, target %d) of %s with fault %s %d", dialect, r.I("force"), r.I("target"), js(r.RL("files")), m.faultClass, m.faultAt)
			fail := func(prop, key, format string, args ...any) {
				res.Fail(prop, key, desc+" "+fmt.Sprintf(format, args...), n, beh)
			}
			if bad != "" {
				desc = bad + ": " + desc
				db.SetMaxIdleConns(2)
				m.f.OnConnect = nil
			}
			if cp != nil {
				fail("M01", "migrate", "panics: %v at %s", cp.val, cp.stack)
				return
			}
			if m.unknown != "" {
				panic(HarnessError("unknown statement " + m.unknown))
			}
			if m.faultClass != "none" && !m.fired {
				// the code sends other bookkeeping statements: the outcome is not known
				res.Count("fault not reached", 1)
				return
			}
			want := []string{}
			for _, s := range r.RL("ran") {
				want = append(want, fmt.Sprintf("%d %s", s.I("v"), s.S("dir")))
			}
			switch {
			case (err == nil) != r.B("ok"):
				fail("M01", "migrate", "returns %v", err)
				return
			case js(append([]string{}, m.ran...)) != js(want):
				fail("M01", "migrate", "runs %v instead of %v", m.ran, want)
				return
			case m.ver != r.I("ver") || m.dirty != r.B("dirty"):
				fail("M01", "migrate", "leaves version %d dirty %v recorded instead of %d %v", m.ver, m.dirty, r.I("ver"), r.B("dirty"))
				return
			}
			after := db.Stats().InUse - inUse
			if _, c := m.f.Stats(); c != 0 || after != 0 && (dialect != "sqlserver" || after > 1) {
				fail("E02", "migration", "leaves %d connections in use and %d cursors open", after, c)
				return
			} else if after != 0 {
				fail("E02", "sqlserver-migration-conn", "leaves the connection of the migration in use")
			}
			faulty = faulty || m.fired || bad != ""
		}
		res.AddCase(beh, faulty || len(beh) > 1, len(beh))
	})
}
