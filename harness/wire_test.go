package harness

import (
	"bytes"
	"database/sql/driver"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf16"
)

// Servers that speak enough of the PostgreSQL and SQL Server protocols to be
// logged in to, on the loopback network.

// wireLogin is what a client sent when it logged in.
type wireLogin struct {
	User, Password, Database string
	Params                   map[string]string
}

// wireServer counts the connections of one server and scripts its failures.
type wireServer struct {
	ln    net.Listener
	fault string // none drop garbage auth nodb ping, or stmtN: the N-th statement fails

	mu     sync.Mutex
	conns  map[net.Conn]bool
	logins []wireLogin
	stmts  []string
	nstmt  int
	closed bool

	// pg only
	onQuery func(c *pgConn, q string) bool // true: handled
	pgConns map[*pgConn]bool
	// catalog answers queries of a database; nil: results are empty
	catalog    func(db, q string, args []driver.NamedValue) *FakeRows
	catalogErr string
	dbs        map[string]bool // nil: all there are
}

func newWireServer(kind, fault string) *wireServer {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(HarnessError("listen: " + err.Error()))
	}
	s := &wireServer{ln: ln, fault: fault, conns: map[net.Conn]bool{}, pgConns: map[*pgConn]bool{}}
	s.serve(kind)
	return s
}

func (s *wireServer) serve(kind string) {
	ln := s.ln
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			if s.closed {
				s.mu.Unlock()
				c.Close()
				continue
			}
			s.conns[c] = true
			s.mu.Unlock()
			go func() {
				defer func() {
					s.mu.Lock()
					delete(s.conns, c)
					s.mu.Unlock()
					c.Close()
				}()
				s.mu.Lock()
				fault := s.fault
				s.mu.Unlock()
				switch fault {
				case "drop":
					return
				case "garbage":
					buf := make([]byte, 4096)
					c.SetReadDeadline(time.Now().Add(5 * time.Second))
					c.Read(buf)
					c.Write(bytes.Repeat([]byte("?!"), 40))
					return
				}
				if kind == "postgres" {
					s.pg(c, fault)
				} else {
					s.tds(c, fault)
				}
			}()
		}
	}()
}

func (s *wireServer) addr() string { return s.ln.Addr().String() }

func (s *wireServer) open() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.conns)
}

func (s *wireServer) stop() {
	s.mu.Lock()
	s.closed = true
	for c := range s.conns {
		c.Close()
	}
	s.mu.Unlock()
	s.ln.Close()
}

func (s *wireServer) login(l wireLogin) {
	s.mu.Lock()
	s.logins = append(s.logins, l)
	s.mu.Unlock()
}

// statement records a statement and tells whether it must fail.
func (s *wireServer) statement(q string) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	if q == ";" || q == "" || q == "select 1;" {
		return s.fault == "ping"
	}
	s.nstmt++
	s.stmts = append(s.stmts, q)
	return strings.HasPrefix(s.fault, "stmt") && s.fault == "stmt"+string(rune('0'+s.nstmt))
}

// ------------------------------------------------------------- PostgreSQL

type pgConn struct {
	c      net.Conn
	s      *wireServer
	login  wireLogin
	wmu    sync.Mutex
	listen map[string]bool // guarded by s.mu
	stmts  map[string]string
	bound  string
	args   []driver.NamedValue
}

func (p *pgConn) send(t byte, body ...byte) { p.sendAll(pgMsg(t, body...)) }
func (p *pgConn) sendAll(msgs ...[]byte) {
	p.wmu.Lock()
	defer p.wmu.Unlock()
	p.c.SetWriteDeadline(time.Now().Add(20 * time.Second))
	p.c.Write(bytes.Join(msgs, nil))
}
func pgMsg(t byte, body ...byte) []byte {
	b := []byte{t, 0, 0, 0, 0}
	binary.BigEndian.PutUint32(b[1:], uint32(4+len(body)))
	return append(b, body...)
}
func pgErr(code, msg string) []byte {
	return pgMsg('E', []byte("SERROR\x00VERROR\x00C"+code+"\x00M"+msg+"\x00\x00")...)
}
func pgNotify(channel, payload string) []byte {
	return pgMsg('A', []byte("\x00\x00\x00\x07"+channel+"\x00"+payload+"\x00")...)
}

var pgReady = pgMsg('Z', 'I')

func pgDone(tag string) []byte { return pgMsg('C', []byte(tag+"\x00")...) }

// pgRow is a result of one row of text columns.
func pgRow(vals ...string) []byte {
	d := binary.BigEndian.AppendUint16(nil, uint16(len(vals)))
	r := binary.BigEndian.AppendUint16(nil, uint16(len(vals)))
	for _, v := range vals {
		d = append(d, "c\x00"...)
		d = append(d, 0, 0, 0, 0, 0, 0, 0, 0, 0, 25, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0, 0)
		r = binary.BigEndian.AppendUint32(r, uint32(len(v)))
		r = append(r, v...)
	}
	return append(pgMsg('T', d...), pgMsg('D', r...)...)
}

func (s *wireServer) pg(c net.Conn, fault string) {
	var params map[string]string
	for {
		var n [4]byte
		if _, err := io.ReadFull(c, n[:]); err != nil {
			return
		}
		sz := binary.BigEndian.Uint32(n[:])
		if sz < 8 || sz > 1<<16 {
			return
		}
		b := make([]byte, sz-4)
		if _, err := io.ReadFull(c, b); err != nil {
			return
		}
		if binary.BigEndian.Uint32(b) == 80877103 { // SSLRequest
			c.Write([]byte("N"))
			continue
		}
		if binary.BigEndian.Uint32(b) == 80877102 { // CancelRequest
			return
		}
		params = map[string]string{}
		kv := strings.Split(string(b[4:]), "\x00")
		for i := 0; i+1 < len(kv) && kv[i] != ""; i += 2 {
			params[kv[i]] = kv[i+1]
		}
		break
	}
	p := &pgConn{c: c, s: s, listen: map[string]bool{}, stmts: map[string]string{}}
	l := wireLogin{User: params["user"], Database: params["database"], Params: params}
	p.send('R', 0, 0, 0, 3)
	t, b, err := pgRead(c)
	if err != nil || t != 'p' {
		return
	}
	l.Password = strings.TrimRight(string(b), "\x00")
	p.login = l
	s.login(l)
	switch fault {
	case "auth":
		p.sendAll(pgErr("28P01", "password authentication failed"))
		return
	case "nodb":
		p.sendAll(pgErr("3D000", "database does not exist"))
		return
	}
	if s.dbs != nil && !s.dbs[l.Database] {
		p.sendAll(pgErr("3D000", "database does not exist"))
		return
	}
	p.sendAll(pgMsg('R', 0, 0, 0, 0), pgMsg('K', 0, 0, 0, 1, 0, 0, 0, 2), pgReady)
	s.mu.Lock()
	s.pgConns[p] = true
	s.mu.Unlock()
	defer func() {
		s.mu.Lock()
		delete(s.pgConns, p)
		s.mu.Unlock()
	}()
	for {
		t, b, err := pgRead(c)
		if err != nil {
			return
		}
		if s.catalog != nil && p.extended(t, b) {
			continue
		}
		switch t {
		case 'Q':
			q := strings.TrimRight(string(b), "\x00")
			if s.onQuery != nil && s.onQuery(p, q) {
				continue
			}
			if s.statement(q) {
				p.sendAll(pgErr("58000", "scripted"), pgReady)
			} else if q == ";" || q == "" {
				p.sendAll(pgMsg('I'), pgReady)
			} else {
				p.sendAll(pgReply(p, q, true), pgReady)
			}
		case 'P':
			q := strings.SplitN(string(b), "\x00", 3)[1]
			fail := s.statement(q)
			// Describe and Sync follow; then Bind, Execute and Sync
			if fail {
				p.sendAll(pgErr("58000", "scripted"))
			} else {
				p.sendAll(pgMsg('1'), pgMsg('t', 0, 1, 0, 0, 0, 25), pgMsg('n'))
			}
		case 'B':
			p.sendAll(pgMsg('2'))
		case 'E':
			p.sendAll(pgDone("SELECT 0"))
		case 'D':
		case 'C':
			p.sendAll(pgMsg('3'))
		case 'S':
			p.sendAll(pgReady)
		case 'X':
			return
		}
	}
}

var reParam = regexp.MustCompile(`\$(\d+)`)

func pgColumns(r *FakeRows) []byte {
	d := binary.BigEndian.AppendUint16(nil, uint16(len(r.Cols)))
	for _, c := range r.Cols {
		d = append(d, c+"\x00"...)
		d = append(d, 0, 0, 0, 0, 0, 0, 0, 0, 0, 25, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0, 0)
	}
	return pgMsg('T', d...)
}

func pgData(r *FakeRows) []byte {
	var out []byte
	for _, row := range r.Data {
		d := binary.BigEndian.AppendUint16(nil, uint16(len(row)))
		for _, v := range row {
			t := ""
			switch x := v.(type) {
			case nil:
				d = binary.BigEndian.AppendUint32(d, 0xffffffff)
				continue
			case bool:
				t = "f"
				if x {
					t = "t"
				}
			case []byte:
				t = string(x)
			default:
				t = fmt.Sprint(x)
			}
			d = binary.BigEndian.AppendUint32(d, uint32(len(t)))
			d = append(d, t...)
		}
		out = append(out, pgMsg('D', d...)...)
	}
	return append(out, pgDone(fmt.Sprintf("SELECT %d", len(r.Data)))...)
}

// extended answers the messages of a query from the catalog.
func (p *pgConn) extended(t byte, b []byte) bool {
	str := func() string {
		i := bytes.IndexByte(b, 0)
		v := string(b[:i])
		b = b[i+1:]
		return v
	}
	num := func(n int) int {
		v := 0
		for _, x := range b[:n] {
			v = v<<8 | int(x)
		}
		b = b[n:]
		return v
	}
	params := func(q string) int {
		n := 0
		for _, m := range reParam.FindAllStringSubmatch(q, -1) {
			if k, _ := strconv.Atoi(m[1]); k > n {
				n = k
			}
		}
		return n
	}
	run := func(q string, args []driver.NamedValue) (r *FakeRows) {
		defer func() {
			if e := recover(); e != nil || r == nil {
				p.s.mu.Lock()
				p.s.catalogErr = fmt.Sprintf("catalog: %v: %s", e, q)
				p.s.mu.Unlock()
				r = &FakeRows{}
			}
		}()
		return p.s.catalog(p.login.Database, q, args)
	}
	switch t {
	case 'Q':
		q := strings.TrimRight(string(b), "\x00")
		if q == ";" || q == "" {
			return false
		}
		if p.s.statement(q) {
			p.sendAll(pgErr("58000", "scripted"), pgReady)
			return true
		}
		r := run(q, nil)
		p.sendAll(pgColumns(r), pgData(r), pgReady)
	case 'P':
		name, q := str(), str()
		if p.s.statement(q) {
			p.stmts[name] = ""
			p.sendAll(pgErr("58000", "scripted"))
			return true
		}
		p.stmts[name] = q
		p.sendAll(pgMsg('1'))
	case 'D':
		kind := num(1)
		name := str()
		q := p.stmts[name]
		if kind != 'S' || q == "" {
			return true
		}
		n := params(q)
		var args []driver.NamedValue
		d := binary.BigEndian.AppendUint16(nil, uint16(n))
		for i := 0; i < n; i++ {
			args = append(args, driver.NamedValue{Ordinal: i + 1})
			d = binary.BigEndian.AppendUint32(d, 25)
		}
		p.sendAll(pgMsg('t', d...), pgColumns(run(q, args)))
	case 'B':
		str()
		p.bound = p.stmts[str()]
		for i := num(2); i > 0; i-- {
			num(2)
		}
		p.args = nil
		for i, n := 0, num(2); i < n; i++ {
			v := driver.NamedValue{Ordinal: i + 1}
			if l := num(4); l != 0xffffffff {
				v.Value = string(b[:l])
				b = b[l:]
			}
			p.args = append(p.args, v)
		}
		p.sendAll(pgMsg('2'))
	case 'E':
		p.sendAll(pgData(run(p.bound, p.args)))
	default:
		return false
	}
	return true
}

func pgReply(p *pgConn, q string, _ bool) []byte {
	up := strings.ToUpper(q)
	switch {
	case strings.Contains(up, "CURRENT_DATABASE"):
		return append(pgRow(p.login.Database), pgDone("SELECT 1")...)
	case strings.Contains(up, "CURRENT_SCHEMA"):
		return append(pgRow("public"), pgDone("SELECT 1")...)
	case strings.HasPrefix(up, "SELECT COUNT"):
		return append(pgRow("1"), pgDone("SELECT 1")...)
	}
	return pgDone("OK")
}

func pgRead(c net.Conn) (byte, []byte, error) {
	var h [5]byte
	if _, err := io.ReadFull(c, h[:]); err != nil {
		return 0, nil, err
	}
	n := binary.BigEndian.Uint32(h[1:])
	if n < 4 || n > 1<<24 {
		return 0, nil, io.ErrUnexpectedEOF
	}
	b := make([]byte, n-4)
	_, err := io.ReadFull(c, b)
	return h[0], b, err
}

// ------------------------------------------------------------- SQL Server

func tdsRead(c net.Conn) (byte, []byte, error) {
	var body []byte
	for {
		var h [8]byte
		if _, err := io.ReadFull(c, h[:]); err != nil {
			return 0, nil, err
		}
		n := int(binary.BigEndian.Uint16(h[2:]))
		if n < 8 {
			return 0, nil, io.ErrUnexpectedEOF
		}
		b := make([]byte, n-8)
		if _, err := io.ReadFull(c, b); err != nil {
			return 0, nil, err
		}
		body = append(body, b...)
		if h[1]&1 != 0 {
			return h[0], body, nil
		}
	}
}

func tdsSend(c net.Conn, body ...[]byte) {
	b := bytes.Join(body, nil)
	h := []byte{4, 1, 0, 0, 0, 0, 1, 0}
	binary.BigEndian.PutUint16(h[2:], uint16(8+len(b)))
	c.SetWriteDeadline(time.Now().Add(20 * time.Second))
	c.Write(append(h, b...))
}

func ucs2(s string) []byte {
	var b []byte
	for _, u := range utf16.Encode([]rune(s)) {
		b = binary.LittleEndian.AppendUint16(b, u)
	}
	return b
}
func fromUcs2(b []byte) string {
	u := make([]uint16, len(b)/2)
	for i := range u {
		u[i] = binary.LittleEndian.Uint16(b[2*i:])
	}
	return string(utf16.Decode(u))
}

func tdsDone(status uint16) []byte {
	return append(binary.LittleEndian.AppendUint16([]byte{0xFD}, status), make([]byte, 10)...)
}
func tdsErr(num uint32, msg string) []byte {
	b := binary.LittleEndian.AppendUint32(nil, num)
	b = append(b, 1, 14)
	b = binary.LittleEndian.AppendUint16(b, uint16(len(msg)))
	b = append(b, ucs2(msg)...)
	b = append(b, 0, 0, 0, 0, 0, 0)
	return append(binary.LittleEndian.AppendUint16([]byte{0xAA}, uint16(len(b))), b...)
}

func (s *wireServer) tds(c net.Conn, fault string) {
	for {
		t, b, err := tdsRead(c)
		if err != nil {
			return
		}
		switch t {
		case 0x12: // prelogin: version and no encryption
			tdsSend(c, []byte{0, 0, 11, 0, 6, 1, 0, 17, 0, 1, 0xFF, 16, 0, 0, 0, 0, 0, 2})
		case 0x10:
			if len(b) < 94 {
				return
			}
			field := func(at int) []byte {
				o, n := int(binary.LittleEndian.Uint16(b[at:])), int(binary.LittleEndian.Uint16(b[at+2:]))
				if o+2*n > len(b) {
					return nil
				}
				return append([]byte{}, b[o:o+2*n]...)
			}
			pw := field(44)
			for i, x := range pw {
				x ^= 0xA5
				pw[i] = x<<4 | x>>4
			}
			s.login(wireLogin{User: fromUcs2(field(40)), Password: fromUcs2(pw), Database: fromUcs2(field(68)),
				Params: map[string]string{"workstation id": fromUcs2(field(36)), "app name": fromUcs2(field(48)), "server": fromUcs2(field(52))}})
			switch fault {
			case "auth":
				tdsSend(c, tdsErr(18456, "Login failed"), tdsDone(2))
				return
			case "nodb":
				tdsSend(c, tdsErr(4060, "Cannot open database"), tdsErr(18456, "Login failed"), tdsDone(2))
				return
			}
			ack := append([]byte{1, 0x74, 0, 0, 4, 4}, ucs2("fake")...)
			ack = append(ack, 16, 0, 0, 0)
			tdsSend(c, binary.LittleEndian.AppendUint16([]byte{0xAD}, uint16(len(ack))), ack, tdsDone(0))
		case 0x01:
			if len(b) < 4 {
				return
			}
			n := int(binary.LittleEndian.Uint32(b))
			if n > len(b) {
				return
			}
			if s.statement(fromUcs2(b[n:])) {
				tdsSend(c, tdsErr(50000, "scripted"), tdsDone(2))
			} else {
				tdsSend(c, tdsDone(0))
			}
		case 0x06: // attention
			tdsSend(c, tdsDone(0x20))
		default:
			tdsSend(c, tdsErr(50000, "unexpected"), tdsDone(2))
		}
	}
}
