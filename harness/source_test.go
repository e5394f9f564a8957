package harness

import (
	"context"
	"database/sql"
	"fmt"
	"hash/fnv"
	"net"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/pkg/flake"
	"github.com/lib/pq"
	"github.com/microsoft/go-mssqldb/msdsn"
)

var classText = map[string]string{
	"plain": "ord7", "space": "or d e", "plus": "or+d", "percent": "p%41q%", "at": "a@b", "colon": "a:b", "slash": "a/b/",
	"quest": "a?b", "hash": "a#b", "amp": "a&b=c", "eq": "a=b", "unicode": "bé日ł", "quote": `a'b"c`, "backslash": `a\b`,
}

// srcText is the text that stands for a value "role-class" of the specification.
func srcText(v string) string {
	if v == "none" {
		return ""
	}
	role, class, ok := strings.Cut(v, "-")
	t, ok2 := classText[class]
	if !ok || !ok2 {
		panic(HarnessError("no text for " + v))
	}
	if role == "pa" && len(class)%2 == 1 {
		role = "zp" // a path may sort before or after the other texts
	}
	return role + t
}

// escape writes s with every byte outside keep percent-encoded.
func escape(s, keep, style string, plus bool) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		alnum := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
		switch {
		case style == "min" && c == ' ' && plus:
			b.WriteByte('+')
		case style == "min" && (alnum || strings.IndexByte(keep, c) >= 0):
			b.WriteByte(c)
		case style == "full" && alnum && i%3 != 0:
			b.WriteByte(c)
		default:
			fmt.Fprintf(&b, "%%%02X", c)
		}
	}
	return b.String()
}

type srcCfg struct {
	op, driver, wrap, style, user, pwd, path, dbkey, want, fault string
	q                                                            [][2]string
}

func readCfg(r Rec) srcCfg {
	c := r.R("cfg")
	s := srcCfg{op: c.S("op"), driver: c.S("driver"), wrap: c.S("wrap"), style: c.S("style"), fault: c.S("fault"), dbkey: c.S("dbkey")}
	g := r.R("given")
	s.user, s.pwd, s.path = g.S("user"), g.S("pwd"), g.S("path")
	for _, e := range g.L("q") {
		kv := e.([]any)
		s.q = append(s.q, [2]string{kv[0].(string), kv[1].(string)})
	}
	s.want = r.S("want")
	return s
}

// key and value of a parameter
func srcParam(driver string, kv [2]string) (string, string) {
	k, v := kv[0], kv[1]
	switch {
	case k == "encrypt" || k == "sslmode":
		return k, v
	case k == "app" && driver == "sqlserver":
		k = "app name"
	case k == "app":
		k = "application_name"
	case k == "extra" && driver == "sqlserver":
		k = "workstation id"
	case k == "extra":
		k = "search_path"
	}
	return k, srcText(v)
}

const (
	keepUser  = "-._~!$&'()*+,="
	keepPath  = "-._~!$&'()*+,=@:"
	keepQuery = "-._~!$'()*,/?:@"
)

func (c srcCfg) url(host string) string {
	var b strings.Builder
	if c.driver != "" {
		b.WriteString(c.driver + "://")
	} else {
		b.WriteString("//")
	}
	if c.user != "none" {
		b.WriteString(escape(srcText(c.user), keepUser, c.style, false))
		if c.pwd != "none" {
			b.WriteString(":" + escape(srcText(c.pwd), keepUser, c.style, false))
		}
		b.WriteString("@")
	}
	b.WriteString(host)
	if c.path != "none" {
		b.WriteString("/" + escape(srcText(c.path), keepPath, c.style, false))
	}
	for i, kv := range c.q {
		sep := "&"
		if i == 0 {
			sep = "?"
		}
		k, v := srcParam(c.driver, kv)
		b.WriteString(sep + escape(k, keepQuery+"_", "min", true) + "=" + escape(v, keepQuery, c.style, true))
	}
	u := b.String()
	switch c.wrap {
	case "badport":
		u = strings.Replace(u, host, "127.0.0.1:54x2", 1)
	case "badescape":
		u = strings.Replace(u, "://", "://%zz", 1)
	case "noscheme":
		u = strings.TrimPrefix(u, c.driver)
	case "control":
		u += "\x01"
	}
	return u
}

var srcSeq int

// wrapped gives the value that the caller passes, and undoes its traces.
func (c srcCfg) wrapped(dir, u string) (string, func()) {
	srcSeq++
	nop := func() {}
	file := func(s string) (string, func()) {
		p := filepath.Join(dir, fmt.Sprintf("src%d", srcSeq))
		if err := os.WriteFile(p, []byte(s), 0o600); err != nil {
			panic(HarnessError(err.Error()))
		}
		return "file://" + p, func() { os.Remove(p) }
	}
	env := func(s string) (string, func()) {
		k := fmt.Sprintf("VERIF_SRC_%d", srcSeq)
		os.Setenv(k, s)
		return "env://" + k, func() { os.Unsetenv(k) }
	}
	switch c.wrap {
	case "quoted":
		return `"` + u + `"`, nop
	case "spaced":
		return "\t " + u + " \n", nop
	case "file":
		return file(u)
	case "filenl":
		return file(u + "\n")
	case "filequoted":
		return file(`"` + u + "\"\n")
	case "env":
		return env(u)
	case "envquoted":
		return env(` "` + u + `"`)
	case "nofile":
		return "file://" + filepath.Join(dir, "missing"), nop
	case "noenv":
		return fmt.Sprintf("env://VERIF_SRC_UNSET_%d", srcSeq), nop
	}
	return u, nop
}

// deadPort is a port of the loopback network on which nothing listens, for as long as it is held.
func deadPort() (string, func()) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
	if err == nil {
		err = syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}})
	}
	if err != nil {
		panic(HarnessError(err.Error()))
	}
	sa, err := syscall.Getsockname(fd)
	if err != nil {
		panic(HarnessError(err.Error()))
	}
	return fmt.Sprintf("127.0.0.1:%d", sa.(*syscall.SockaddrInet4).Port), func() { syscall.Close(fd) }
}

func openPools() int { return strings.Count(stacks(), "created by database/sql.OpenDB") }

type srcSlot struct {
	cfg   srcCfg
	srv   *wireServer
	db    *sql.DB
	prov  xdb.Provider
	asked srcAsked
	dead  bool
}

func (s *srcSlot) close() error {
	if s.prov != nil {
		return s.prov.Close()
	}
	return s.db.Close()
}

type srcAsked struct {
	user, pwd, db string
	others        map[string]string
}

func readAsked(r Rec, driver string) srcAsked {
	a := srcAsked{user: srcText(r.S("user")), pwd: srcText(r.S("pwd")), db: srcText(r.S("db")), others: map[string]string{}}
	for _, e := range r.L("others") {
		kv := e.([]any)
		k, v := srcParam(driver, [2]string{kv[0].(string), kv[1].(string)})
		a.others[k] = v
	}
	return a
}

// TestDataSource replays the behaviours of DataSource.tla into ParseConnectionString, Open and NewProvider.
func TestDataSource(t *testing.T) {
	dir := t.TempDir()
	migrations := filepath.Join(dir, "migrations")
	os.MkdirAll(migrations, 0o755)
	os.WriteFile(filepath.Join(migrations, "000001_init.up.sql"), []byte("CREATE TABLE t (id bigint);"), 0o600)
	base := 0
	Replay(t, "C01", func(res *Result, bi int, beh []Rec) {
		slots := map[int]*srcSlot{}
		base = openPools()
		var cleanup []func()
		failed := false
		step := 0
		fail := func(prop, key, f string, args ...any) {
			failed = true
			res.Fail(prop, key, fmt.Sprintf("step %d %s: ", step, js(beh[step]))+fmt.Sprintf(f, args...), step, beh)
		}
		defer func() {
			for _, s := range slots {
				if s.db != nil || s.prov != nil {
					s.close()
				}
			}
			for _, f := range cleanup {
				f()
			}
		}()
		// what must be open now
		live := func() int {
			n := 0
			for _, s := range slots {
				if !s.dead {
					n++
				}
			}
			return n
		}
		settledAt := func(srv *wireServer, prop string, what string) {
			ok := settle(func() bool { return openPools() == base+live() && (srv == nil || srv.open() == 0) })
			if !ok {
				n := 0
				if srv != nil {
					n = srv.open()
				}
				fail(prop, "left-open", "%s: %d connection pools of %d expected and %d connections to the server are left open", what, openPools()-base, live(), n)
			}
		}
		seed := fnv.New32a()
		fmt.Fprint(seed, js(beh))
		salt := int(seed.Sum32() % 1000)
		for i, e := range beh {
			step = i
			slot := e.I("slot")
			ok := e.S("res") == "ok"
			switch op := e.S("op"); op {
			case "Use", "Close":
				s := slots[slot]
				if s == nil || s.dead {
					panic(HarnessError("slot not open"))
				}
				if op == "Use" {
					s.use(fail, i)
				} else {
					s.dead = true
					var err error
					if done, cp := within(20*time.Second, func() { err = s.close() }); !done || cp != nil {
						fail("C01", "close-hangs", "close: returned %v, panic %v", done, cp)
					} else if err != nil {
						fail("C01", "close-error", "close: %v", err)
					}
					settledAt(s.srv, "C01", "after close")
					s.srv.stop()
				}
			default:
				c := readCfg(e)
				asked := readAsked(e.R("asked"), c.driver)
				host, rel := c.host(salt + i)
				var srv *wireServer
				if op != "Parse" && rel == nil && (c.driver == "postgres" || c.driver == "sqlserver") {
					fault := c.fault
					if op == "Migrate" {
						fault = fmt.Sprintf("stmt%d", 1+(salt+i)%6)
					}
					srv = newWireServer(c.driver, fault)
					host = srv.addr()
				}
				if rel != nil {
					cleanup = append(cleanup, rel)
				}
				u := c.url(host)
				src, undo := c.wrapped(dir, u)
				if op == "Parse" {
					s, err := xdb.ParseConnectionString(src)
					undo()
					c.checkParsed(fail, ok, s, err, asked, host)
					break
				}
				want := srcText(c.want)
				var (
					db      *sql.DB
					prov    xdb.Provider
					drv, ds string
					err     error
				)
				done, cp := within(60*time.Second, func() {
					switch op {
					case "Open":
						db, drv, ds, err = xdb.Open(src, want)
					case "New":
						prov, err = xdb.NewProvider(src, want, flake.DefaultIDGenerator, nil)
					case "Migrate":
						prov, err = xdb.NewProvider(src, want, nil, &xdb.MigrationConfig{Source: migrations})
					default:
						panic(HarnessError("op " + op))
					}
				})
				undo()
				if srv != nil {
					cleanup = append(cleanup, srv.stop)
				}
				if !done || cp != nil {
					fail("C01", "open-hangs", "%s(%q, %q): returned %v, panic %v", op, src, want, done, cp)
					return
				}
				if !ok {
					if err == nil {
						prop := "C01"
						if op == "Migrate" {
							prop = "M01"
						}
						fail(prop, "error-expected", "%s(%q, %q) succeeded", op, u, want)
						if db != nil {
							db.Close()
						}
						if prov != nil {
							prov.Close()
						}
						return
					}
					if db != nil || prov != nil && !isNilProvider(prov) {
						fail("C01", "value-with-error", "%s(%q, %q): a connection was returned together with %v", op, u, want, err)
					}
					prop := "C01"
					if op == "Migrate" {
						prop = "E02"
					}
					settledAt(srv, prop, "after "+err.Error())
					if srv != nil {
						srv.stop()
					}
					break
				}
				if err != nil {
					fail("C01", "open-error", "%s(%q, %q): %v", op, u, want, err)
					break
				}
				if prov != nil {
					drv, ds = prov.Name(), prov.ConnectionString()
				} else if db == nil {
					fail("C01", "nil-db", "%s(%q, %q) returned neither a connection nor an error", op, u, want)
					return
				}
				if drv != c.driver {
					fail("C01", "driver", "%s(%q, %q): driver %q", op, u, want, drv)
				}
				s := &srcSlot{cfg: c, srv: srv, db: db, prov: prov, asked: asked}
				slots[slot] = s
				s.checkLogins(fail, u, want)
				c.checkString(fail, ds, asked, host)
			}
			if failed {
				return
			}
		}
		for _, s := range slots {
			if !s.dead {
				s.dead = true
				if err := s.close(); err != nil {
					fail("C01", "close-error", "close: %v", err)
				}
				settledAt(s.srv, "C01", "after the last close")
			}
		}
		res.AddCase(beh, len(beh) > 1 || beh[0].R("cfg").S("want") != "none", len(beh))
	})
}

func isNilProvider(p xdb.Provider) bool {
	s, ok := p.(*xdb.SQLProvider)
	return ok && s == nil
}

// settle waits for what is being closed in the background
func settle(ok func() bool) bool {
	for d := time.Microsecond * 50; ; d = d * 3 / 2 {
		if ok() {
			return true
		}
		if d > 2*time.Second {
			return false
		}
		time.Sleep(d)
	}
}

var parseHosts = []string{"127.0.0.1", "127.0.0.1:5432", "db.example.com", "db-1.example.com:1433", "[::1]:5432"}

// host is where nothing listens; a server replaces it
func (c srcCfg) host(salt int) (string, func()) {
	if c.op == "Parse" {
		return parseHosts[salt%len(parseHosts)], nil
	}
	if c.fault == "refused" {
		return deadPort()
	}
	return "127.0.0.1:1", nil
}

type failF func(prop, key, f string, args ...any)

func (c srcCfg) checkParsed(fail failF, ok bool, s *xdb.Source, err error, asked srcAsked, host string) {
	if !ok {
		if err == nil {
			fail("C01", "parse-error-expected", "parsed as %s", js(s))
		}
		return
	}
	if err != nil || s == nil {
		fail("C01", "parse-error", "%v", err)
		return
	}
	params := map[string]string{}
	for _, kv := range c.q {
		k, v := srcParam(c.driver, kv)
		params[k] = v
	}
	got := js([]any{s.Driver, s.Host, s.User, s.Password, s.Database, s.Params})
	want := js([]any{c.driver, host, asked.user, asked.pwd, asked.db, params})
	if got != want {
		fail("C01", "parsed", "parsed as %s instead of %s", got, want)
	}
	if s.Source == "" || strings.Trim(s.Source, "\"\n\t ") != s.Source {
		fail("C01", "parsed-source", "source %q", s.Source)
	}
	c.checkString(fail, s.Source, asked, host)
}

// checkString reads a connection string as the drivers do
func (c srcCfg) checkString(fail failF, ds string, asked srcAsked, host string) {
	u, err := url.Parse(ds)
	if err != nil {
		fail("C01", "string", "%q: %v", ds, err)
		return
	}
	pw, _ := u.User.Password()
	if got, want := []string{u.Scheme, u.Host, u.User.Username(), pw}, []string{c.driver, host, asked.user, asked.pwd}; js(got) != js(want) {
		fail("C01", "string-parts", "%q has %v instead of %v", ds, got, want)
	}
	others := map[string]string{}
	for k, v := range u.Query() {
		if strings.EqualFold(k, "database") && c.driver == "sqlserver" || k == "dbname" && c.driver == "postgres" {
			continue
		}
		if len(v) != 1 {
			fail("C01", "string-params", "%q: %d values of %q", ds, len(v), k)
			return
		}
		others[k] = v[0]
	}
	if js(others) != js(asked.others) {
		fail("C01", "string-params", "%q has parameters %s instead of %s", ds, js(others), js(asked.others))
	}
	switch c.driver {
	case "postgres":
		cfg, err := pq.NewConfig(ds)
		if err != nil {
			fail("C01", "string-pq", "%q: %v", ds, err)
			return
		}
		if cfg.Database != asked.db {
			fail("C01", "string-database", "%q names the database %q instead of %q", ds, cfg.Database, asked.db)
		}
	case "sqlserver":
		cfg, err := msdsn.Parse(ds)
		if err != nil {
			fail("C01", "string-mssql", "%q: %v", ds, err)
			return
		}
		if cfg.Database != asked.db || cfg.Instance != srcText(c.path) {
			fail("C01", "string-database", "%q names the database %q and the instance %q instead of %q and %q", ds, cfg.Database, cfg.Instance, asked.db, srcText(c.path))
		}
	}
	s, err := xdb.ParseConnectionString(ds)
	if err != nil {
		fail("C01", "string-parse", "%q: %v", ds, err)
	} else if s.Driver != c.driver || s.Database != asked.db || s.User != asked.user || s.Password != asked.pwd || s.Host != host {
		fail("C01", "string-parse", "%q is parsed as %s", ds, js(s))
	}
}

// checkLogins compares what the server was told
func (s *srcSlot) checkLogins(fail failF, u, want string) {
	s.srv.mu.Lock()
	logins := append([]wireLogin{}, s.srv.logins...)
	s.srv.mu.Unlock()
	if len(logins) == 0 {
		fail("C01", "not-connected", "no connection was made to the server of %q", u)
	}
	for _, l := range logins {
		ok := l.Password == s.asked.pwd && l.Database == s.asked.db
		if s.asked.user != "" {
			ok = ok && l.User == s.asked.user
		}
		for k, v := range s.asked.others {
			if k != "encrypt" && k != "sslmode" && l.Params[k] != v {
				ok = false
			}
		}
		if !ok {
			fail("C01", "login", "%q with database %q logged in as %s instead of %s %q %q %q", u, want, js(l), js(s.asked.others), s.asked.user, s.asked.pwd, s.asked.db)
			return
		}
	}
}

// use runs statements on several connections at a time
func (s *srcSlot) use(fail failF, i int) {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	db := s.db
	if s.prov != nil {
		db = s.prov.DB().(*sql.DB)
	}
	var conns []*sql.Conn
	defer func() {
		for _, c := range conns {
			c.Close()
		}
	}()
	for k := 0; k < 2; k++ {
		c, err := db.Conn(ctx)
		if err != nil {
			fail("C01", "use", "connection: %v", err)
			return
		}
		conns = append(conns, c)
		q := fmt.Sprintf("update t set a = %d", 10*i+k)
		if _, err := c.ExecContext(ctx, q); err != nil {
			fail("C01", "use", "statement: %v", err)
			return
		}
		s.srv.mu.Lock()
		n := len(s.srv.stmts)
		ok := n > 0 && s.srv.stmts[n-1] == q
		s.srv.mu.Unlock()
		if !ok {
			fail("C01", "use", "the statement was not run by the server of the source")
		}
	}
	s.checkLogins(fail, "", srcText(s.cfg.want))
}

var _ = net.IPv4len
