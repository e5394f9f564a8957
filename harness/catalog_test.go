package harness

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"fmt"
	"os"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/effective-security/xdb/schema"
	"github.com/mattn/go-sqlite3"
)

// The catalog queries of the code are evaluated by SQLite over an emulation
// of the system catalogs of Postgres and SQL Server, filled from the catalog
// of the specification. A query that SQLite cannot evaluate is answered by
// what it asks for.

type catalogDB struct {
	lite    *sql.DB
	f       *FakeDB
	db      *sql.DB
	cat     Rec
	mssql   bool
	tables  map[int]Rec
	views   map[int]Rec
	schemas []string
	foreign map[string]bool // tables of another server, by "schema\x00table"

	faultQ, faultAt int // the query that fails, and after how many rows
	queries         int
	fired           bool
	idxText         map[string]string // "schema\x00table\x00index" -> columns as returned
	fallbacks       int
	asked           []string
	comma           bool // the difference is that of a column with a comma in its name
}

var (
	reLiteArg = regexp.MustCompile(`\$(\d+)`)
	reAny     = regexp.MustCompile(`(?i)([\w."\[\]]+)\s*=\s*ANY\s*\(([^()]*)\)`)
	reCast    = regexp.MustCompile(`::\w+(\[\])?`)
	reTyped   = regexp.MustCompile(`(?is)\bcross\s+apply\s*\(\s*select\s*\(\s*select\b(.*?)\bfor\s+xml\s+path\s*\(\s*''\s*\)\s*,\s*type\s*\)\s*\.value\(\s*'(?:\.|text\(\)\[1\])'\s*,\s*N?'[^']*'\s*\)\s*\)\s*(?:AS\s+)?\w+\s*\((\w+)\)`)
	reApply   = regexp.MustCompile(`(?is)\bcross\s+apply\s*\(\s*select\b(.*?)\bfor\s+xml\s+path\s*\(\s*''\s*\)\s*\)\s*(?:AS\s+)?\w+\s*\((\w+)\)`)
	rePlus    = regexp.MustCompile(`\+\s*'([^']*)'`)
	reLen     = regexp.MustCompile(`(?i)\blen\(`)
	reNString = regexp.MustCompile(`\bN'`)
)

// joinAgg is array_agg followed by array_to_string.
type joinAgg struct{ l []string }

func (j *joinAgg) Step(x any) { j.l = append(j.l, fmt.Sprint(x)) }
func (j *joinAgg) Done() string {
	return strings.Join(j.l, "\x01")
}

// xmlPath is FOR XML PATH (”): NULL when there is no row.
type xmlPath struct {
	s    *string
	text bool
}

var xmlEscape = strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;")

func (j *xmlPath) Step(x any) {
	if j.s == nil {
		j.s = new(string)
	}
	t := fmt.Sprint(x)
	if !j.text {
		t = xmlEscape.Replace(t)
	}
	*j.s += t
}
func (j *xmlPath) Done() any {
	if j.s == nil {
		return nil
	}
	return *j.s
}

func liteInts(v any) []string { return strings.Fields(fmt.Sprint(v)) }

func init() {
	sql.Register("catalog-sqlite", &sqlite3.SQLiteDriver{ConnectHook: func(c *sqlite3.SQLiteConn) error {
		fs := map[string]any{
			"pg_any": func(x any, l any) bool {
				for _, v := range liteInts(l) {
					if v == fmt.Sprint(x) {
						return true
					}
				}
				return false
			},
			"array_position": func(l any, x any) int64 {
				for i, v := range liteInts(l) {
					if v == fmt.Sprint(x) {
						return int64(i + 1)
					}
				}
				return 0
			},
			"array_to_string": func(l any, sep string) string {
				if l == nil {
					return ""
				}
				return strings.ReplaceAll(fmt.Sprint(l), "\x01", sep)
			},
			"schema_name": func(id int64) string { return liteSchemas.Load().([]string)[id] },
			"schema_id": func(n string) int64 {
				for i, s := range liteSchemas.Load().([]string) {
					if s == n {
						return int64(i)
					}
				}
				return -1
			},
		}
		for n, f := range fs {
			if err := c.RegisterFunc(n, f, true); err != nil {
				return err
			}
		}
		if err := c.RegisterAggregator("xml_path", func() *xmlPath { return &xmlPath{} }, true); err != nil {
			return err
		}
		if err := c.RegisterAggregator("xml_text", func() *xmlPath { return &xmlPath{text: true} }, true); err != nil {
			return err
		}
		return c.RegisterAggregator("array_agg", func() *joinAgg { return &joinAgg{} }, true)
	}})
}

var liteSchemas atomic.Value

const liteDDL = `
ATTACH ':memory:' AS information_schema;
ATTACH ':memory:' AS sys;
CREATE TABLE information_schema.tables (table_catalog TEXT, table_schema TEXT, table_name TEXT, table_type TEXT);
CREATE TABLE information_schema.columns (table_catalog TEXT, table_schema TEXT, table_name TEXT, column_name TEXT, data_type TEXT, udt_name TEXT, is_nullable TEXT, character_maximum_length INTEGER, ordinal_position INTEGER);
CREATE TABLE information_schema.views (table_catalog TEXT, table_schema TEXT, table_name TEXT);
CREATE TABLE information_schema.table_constraints (constraint_catalog TEXT, constraint_schema TEXT, constraint_name TEXT, table_schema TEXT, table_name TEXT, constraint_type TEXT);
CREATE TABLE information_schema.key_column_usage (constraint_schema TEXT, constraint_name TEXT, table_schema TEXT, table_name TEXT, column_name TEXT, ordinal_position INTEGER, position_in_unique_constraint INTEGER);
CREATE TABLE information_schema.constraint_column_usage (table_schema TEXT, table_name TEXT, column_name TEXT, constraint_schema TEXT, constraint_name TEXT);
CREATE TABLE pg_namespace (oid INTEGER, nspname TEXT);
CREATE TABLE pg_class (oid INTEGER, relname TEXT, relnamespace INTEGER, relkind TEXT);
CREATE TABLE pg_attribute (attrelid INTEGER, attname TEXT, attnum INTEGER, attisdropped BOOLEAN);
CREATE TABLE pg_index (indexrelid INTEGER, indrelid INTEGER, indisunique BOOLEAN, indisprimary BOOLEAN, indkey TEXT);
CREATE TABLE pg_indexes (schemaname TEXT, tablename TEXT, indexname TEXT);
CREATE TABLE pg_constraint (oid INTEGER, conname TEXT, connamespace INTEGER, contype TEXT, conrelid INTEGER, confrelid INTEGER, conkey TEXT, confkey TEXT);
CREATE TABLE sys.schemas (schema_id INTEGER, name TEXT);
CREATE TABLE sys.objects (object_id INTEGER, schema_id INTEGER, name TEXT, type TEXT, is_ms_shipped INTEGER);
CREATE TABLE sys.tables (object_id INTEGER, schema_id INTEGER, name TEXT, type TEXT, type_desc TEXT, is_ms_shipped INTEGER);
CREATE TABLE sys.views (object_id INTEGER, schema_id INTEGER, name TEXT, is_ms_shipped INTEGER);
CREATE TABLE sys.columns (object_id INTEGER, name TEXT, column_id INTEGER);
CREATE TABLE sys.indexes (object_id INTEGER, name TEXT, index_id INTEGER, is_primary_key BOOLEAN, is_unique BOOLEAN);
CREATE TABLE sys.index_columns (object_id INTEGER, index_id INTEGER, column_id INTEGER, key_ordinal INTEGER);
CREATE TABLE sys.extended_properties (class INTEGER, class_desc TEXT, major_id INTEGER, minor_id INTEGER, name TEXT, value TEXT);
CREATE TABLE sys.foreign_key_columns (constraint_object_id INTEGER, constraint_column_id INTEGER, parent_object_id INTEGER, parent_column_id INTEGER, referenced_object_id INTEGER, referenced_column_id INTEGER);
`

var liteTables = []string{"information_schema.tables", "information_schema.columns", "information_schema.views", "information_schema.table_constraints", "information_schema.key_column_usage", "information_schema.constraint_column_usage",
	"pg_namespace", "pg_class", "pg_attribute", "pg_index", "pg_indexes", "pg_constraint",
	"sys.schemas", "sys.objects", "sys.tables", "sys.views", "sys.columns", "sys.indexes", "sys.index_columns", "sys.extended_properties", "sys.foreign_key_columns"}

func newCatalogDB() *catalogDB {
	c := &catalogDB{f: &FakeDB{}}
	liteSchemas.Store([]string{})
	var err error
	if c.lite, err = sql.Open("catalog-sqlite", ":memory:"); err != nil {
		panic(HarnessError(err.Error()))
	}
	c.lite.SetMaxOpenConns(1)
	if _, err := c.lite.Exec(liteDDL); err != nil {
		panic(HarnessError("emulated catalog: " + err.Error()))
	}
	c.f.OnQuery = c.query
	c.db = c.f.DB()
	return c
}
func (c *catalogDB) close() {
	_ = c.db.Close()
	_ = c.lite.Close()
}

// load fills the emulated catalogs.
func (c *catalogDB) load(cat Rec) {
	c.cat = cat
	c.mssql = cat.S("dialect") != "postgres"
	c.tables, c.views = map[int]Rec{}, map[int]Rec{}
	tx, err := c.lite.Begin()
	if err != nil {
		panic(HarnessError(err.Error()))
	}
	defer tx.Rollback()
	for _, t := range liteTables {
		if _, err := tx.Exec("DELETE FROM " + t); err != nil {
			panic(HarnessError(err.Error()))
		}
	}
	ins := func(table string, vals ...any) {
		if _, err := tx.Exec("INSERT INTO "+table+" VALUES (?"+strings.Repeat(",?", len(vals)-1)+")", vals...); err != nil {
			panic(HarnessError(table + ": " + err.Error()))
		}
	}
	c.schemas = []string{"", "dbo", "pg_catalog", "information_schema"}
	schemaID := func(s string) int {
		for i, x := range c.schemas {
			if x == s {
				return i
			}
		}
		c.schemas = append(c.schemas, s)
		return len(c.schemas) - 1
	}
	oid := 1000
	next := func() int { oid++; return oid }
	oids := map[int]int{}
	lenOf := func(col Rec) any {
		if n := col.I("len"); n >= 0 {
			return n
		}
		return nil
	}
	relation := func(o int, s, n string, cols []Rec) {
		for _, col := range cols {
			ins("information_schema.columns", "db", s, n, col.S("name"), col.S("type"), col.S("udt"), col.S("nul"), lenOf(col), col.I("pos"))
			ins("pg_attribute", o, col.S("name"), col.I("pos"), false)
			ins("sys.columns", o, col.S("name"), col.I("pos"))
		}
	}
	for _, t := range cat.RL("tables") {
		c.tables[t.I("no")] = t
	}
	// some tables that have no indexes and no foreign keys are on another server
	tied := map[int]bool{}
	for _, k := range cat.RL("fks") {
		tied[k.I("from")], tied[k.I("to")] = true, true
	}
	c.foreign = map[string]bool{}
	for no, t := range c.tables {
		if !c.mssql && !tied[no] && len(t.RL("idx")) == 0 && (no+len(t.RL("cols")))%2 == 0 {
			c.foreign[t.S("s")+"\x00"+t.S("n")] = true
		}
	}
	for _, t := range c.tables {
		o := next()
		oids[t.I("no")] = o
		s, n, sid := t.S("s"), t.S("n"), schemaID(t.S("s"))
		ins("information_schema.tables", "db", s, n, c.tableType(s, n))
		// some tables are partitioned
		kind, ikind := "r", "i"
		if c.foreign[s+"\x00"+n] {
			kind = "f"
		} else if o%4 == 0 {
			kind, ikind = "p", "I"
		}
		ins("pg_class", o, n, sid, kind)
		ins("sys.tables", o, sid, n, "U", "USER_TABLE", 0)
		ins("sys.objects", o, sid, n, "U", 0)
		if o%3 == 0 {
			// a description of the table, of a column, and of an index
			ins("sys.extended_properties", 1, "OBJECT_OR_COLUMN", o, 0, "MS_Description", "text")
			ins("sys.extended_properties", 1, "OBJECT_OR_COLUMN", o, 2, "MS_Description", "text")
			ins("sys.extended_properties", 7, "INDEX", o, 1, "MS_Description", "text")
		}
		if o%3 == 1 {
			// a tool's mark on a column and on something else is none on the table
			ins("sys.extended_properties", 1, "OBJECT_OR_COLUMN", o, 1, "microsoft_database_tools_support", "1")
			ins("sys.extended_properties", 6, "TYPE", o, 0, "microsoft_database_tools_support", "1")
		}
		relation(o, s, n, t.RL("cols"))
		pos := colPos(t)
		// the heap
		ins("sys.indexes", o, nil, 0, false, false)
		for no, ix := range t.RL("idx") {
			io := next()
			// the names are unique in a schema
			name := t.S("n") + "_" + ix.S("name")
			var keys []string
			ins("sys.indexes", o, name, no+1, ix.B("primary"), ix.B("unique"))
			for k, col := range ix.SL("cols") {
				ins("sys.index_columns", o, no+1, pos[col], k+1)
				keys = append(keys, fmt.Sprint(pos[col]))
			}
			ins("pg_class", io, name, sid, ikind)
			ins("pg_index", io, o, ix.B("unique"), ix.B("primary"), strings.Join(keys, " "))
			ins("pg_indexes", s, n, name)
		}
	}
	for _, v := range cat.RL("views") {
		c.views[v.I("no")] = v
		o := next()
		s, n, sid := v.S("s"), v.S("n"), schemaID(v.S("s"))
		ins("information_schema.tables", "db", s, n, "VIEW")
		ins("information_schema.views", "db", s, n)
		ins("pg_class", o, n, sid, "v")
		ins("sys.views", o, sid, n, 0)
		ins("sys.objects", o, sid, n, "V", 0)
		relation(o, s, n, v.RL("cols"))
	}
	for _, k := range cat.RL("fks") {
		from, to := c.tables[k.I("from")], c.tables[k.I("to")]
		fpos, tpos := colPos(from), colPos(to)
		sid := schemaID(from.S("s"))
		ko := next()
		name := k.S("name")
		ins("sys.objects", ko, sid, name, "F", 0)
		ins("information_schema.table_constraints", "db", from.S("s"), name, from.S("s"), from.S("n"), "FOREIGN KEY")
		var ck, fk []string
		for i, p := range k.L("pairs") {
			col, ref := anyS(p.([]any)[0]), anyS(p.([]any)[1])
			ck, fk = append(ck, fmt.Sprint(fpos[col])), append(fk, fmt.Sprint(tpos[ref]))
			ins("sys.foreign_key_columns", ko, i+1, oids[k.I("from")], fpos[col], oids[k.I("to")], tpos[ref])
			ins("information_schema.key_column_usage", from.S("s"), name, from.S("s"), from.S("n"), col, i+1, i+1)
			ins("information_schema.constraint_column_usage", to.S("s"), to.S("n"), ref, from.S("s"), name)
		}
		ins("pg_constraint", ko, name, sid, "f", oids[k.I("from")], oids[k.I("to")], strings.Join(ck, " "), strings.Join(fk, " "))
	}
	// what belongs to the system
	if !c.mssql {
		ins("information_schema.tables", "db", "pg_catalog", "pg_class", "BASE TABLE")
		ins("information_schema.tables", "db", "information_schema", "sql_features", "BASE TABLE")
		ins("information_schema.tables", "db", "pg_temp_3", "scratch", "LOCAL TEMPORARY")
		ins("information_schema.tables", "db", "information_schema", "columns", "VIEW")
		ins("information_schema.tables", "db", "pg_catalog", "pg_tables", "VIEW")
		ins("information_schema.columns", "db", "information_schema", "columns", "id", "text", "text", "NO", nil, 1)
		ins("information_schema.columns", "db", "pg_catalog", "pg_tables", "id", "text", "text", "NO", nil, 1)
	}
	ins("sys.tables", next(), schemaID("dbo"), "spt_monitor", "U", "USER_TABLE", 1)
	dia := next()
	ins("sys.tables", dia, schemaID("dbo"), "sysdiagrams", "U", "USER_TABLE", 0)
	ins("sys.extended_properties", 1, "OBJECT_OR_COLUMN", dia, 0, "microsoft_database_tools_support", "1")
	for i, s := range c.schemas {
		ins("sys.schemas", i, s)
		ins("pg_namespace", i, s)
	}
	liteSchemas.Store(append([]string{}, c.schemas...))
	// other constraints
	for _, t := range c.tables {
		ins("information_schema.table_constraints", "db", t.S("s"), "pk_"+t.S("n"), t.S("s"), t.S("n"), "PRIMARY KEY")
		ins("pg_constraint", next(), "pk_"+t.S("n"), schemaID(t.S("s")), "p", oids[t.I("no")], 0, "1", nil)
	}
	if err := tx.Commit(); err != nil {
		panic(HarnessError(err.Error()))
	}
}

func (c *catalogDB) tableType(s, n string) string {
	switch {
	case c.mssql:
		return "USER_TABLE"
	case c.foreign[s+"\x00"+n]:
		return "FOREIGN"
	}
	return "BASE TABLE"
}

func colPos(t Rec) map[string]int {
	m := map[string]int{}
	for _, col := range t.RL("cols") {
		m[col.S("name")] = col.I("pos")
	}
	return m
}

func (c *catalogDB) query(_ *FakeConn, q string, args []driver.NamedValue) (*FakeRows, error) {
	c.queries++
	c.asked = append(c.asked, fmt.Sprintf("%.60q %v", strings.Join(strings.Fields(q), " "), args))
	fail := c.faultQ == c.queries
	if fail && c.faultAt == 0 {
		c.fired = true
		return nil, errFault
	}
	r, err := c.evaluate(q, args)
	if err != nil {
		c.fallbacks++
		if c.fallbacks == 1 && os.Getenv("HARNESS_DEBUG") != "" {
			fmt.Println("fallback:", err, q)
		}
		r = c.answer(q, args)
	}
	if len(r.Cols) == 4 {
		s, t := argText(args, 0), argText(args, 1)
		for _, d := range r.Data {
			c.idxText[s+"\x00"+t+"\x00"+fmt.Sprint(d[0])] = fmt.Sprint(d[3])
		}
	}
	if fail {
		r.OnNext = func(i int) error {
			if i == c.faultAt-1 {
				c.fired = true
				return errFault
			}
			return nil
		}
	}
	return r, nil
}

func argText(args []driver.NamedValue, i int) string {
	if i < len(args) {
		return fmt.Sprint(args[i].Value)
	}
	return ""
}

// evaluate runs the query over the emulated catalogs.
func (c *catalogDB) evaluate(q string, nv []driver.NamedValue) (*FakeRows, error) {
	// CROSS APPLY (SELECT x FROM ... FOR XML PATH ('')) D (name): name is the
	// concatenation of the rows as XML, and as text with TYPE and value
	agg, m := "xml_text", reTyped.FindStringSubmatch(q)
	if m == nil {
		agg, m = "xml_path", reApply.FindStringSubmatch(q)
	}
	if m != nil {
		q = strings.Replace(q, m[0], " ", 1)
		q = regexp.MustCompile(`\b`+m[2]+`\b`).ReplaceAllLiteralString(q, "(SELECT "+agg+"(xx) FROM (SELECT "+rePlus.ReplaceAllString(m[1], "|| '$1' AS xx ")+"))")
		q = reLen.ReplaceAllString(q, "length(")
	}
	q = reLiteArg.ReplaceAllString(q, "?$1")
	q = reAny.ReplaceAllString(q, "pg_any($1, $2)")
	q = reCast.ReplaceAllString(q, "")
	q = reNString.ReplaceAllString(q, "'")
	var args []any
	for _, a := range nv {
		if a.Name != "" {
			args = append(args, sql.Named(a.Name, a.Value))
		} else {
			args = append(args, a.Value)
		}
	}
	rows, err := c.lite.Query(q, args...)
	if err != nil {
		return nil, err
	}
	defer rows.Close()
	cols, err := rows.Columns()
	if err != nil {
		return nil, err
	}
	r := &FakeRows{Cols: cols}
	for rows.Next() {
		vals := make([]any, len(cols))
		ptrs := make([]any, len(cols))
		for i := range vals {
			ptrs[i] = &vals[i]
		}
		if err := rows.Scan(ptrs...); err != nil {
			return nil, err
		}
		d := make([]driver.Value, len(cols))
		for i, v := range vals {
			d[i] = v
		}
		r.Data = append(r.Data, d)
	}
	return r, rows.Err()
}

// answer gives what a query that cannot be evaluated asks for.
func (c *catalogDB) answer(q string, args []driver.NamedValue) *FakeRows {
	l := strings.ToLower(q)
	find := func() Rec {
		for _, t := range c.tables {
			if t.S("s") == argText(args, 0) && t.S("n") == argText(args, 1) {
				return t
			}
		}
		return nil
	}
	row := func(col Rec) []driver.Value {
		var ln driver.Value
		if n := col.I("len"); n >= 0 {
			ln = int64(n)
		}
		udt := col.S("udt")
		if c.mssql {
			udt = col.S("type")
		}
		return []driver.Value{col.S("name"), col.S("type"), udt, col.S("nul"), ln, int64(col.I("pos"))}
	}
	r := &FakeRows{}
	switch {
	case strings.Contains(l, "index"):
		r.Cols = []string{"index_name", "is_pk", "is_unique", "columns"}
		if t := find(); t != nil {
			for _, ix := range t.RL("idx") {
				r.Data = append(r.Data, []driver.Value{t.S("n") + "_" + ix.S("name"), ix.B("primary"), ix.B("unique"), strings.Join(ix.SL("cols"), ",")})
			}
		}
	case strings.Contains(l, "constraint") || strings.Contains(l, "foreign_key"):
		r.Cols = []string{"name", "s", "t", "c", "rs", "rt", "rc"}
		for _, k := range c.cat.RL("fks") {
			f, t := c.tables[k.I("from")], c.tables[k.I("to")]
			for _, p := range k.L("pairs") {
				r.Data = append(r.Data, []driver.Value{k.S("name"), f.S("s"), f.S("n"), anyS(p.([]any)[0]), t.S("s"), t.S("n"), anyS(p.([]any)[1])})
			}
		}
	case strings.Contains(l, "view"):
		r.Cols = []string{"s", "t", "name", "type", "udt", "nul", "len", "pos"}
		for _, v := range c.views {
			for _, col := range v.RL("cols") {
				r.Data = append(r.Data, append([]driver.Value{v.S("s"), v.S("n")}, row(col)...))
			}
		}
	case strings.Contains(l, "columns"):
		r.Cols = []string{"name", "type", "udt", "nul", "len", "pos"}
		if t := find(); t != nil {
			for _, col := range t.RL("cols") {
				r.Data = append(r.Data, row(col))
			}
		}
	case strings.Contains(l, "tables"):
		r.Cols = []string{"s", "n", "type"}
		for _, t := range c.tables {
			r.Data = append(r.Data, []driver.Value{t.S("s"), t.S("n"), c.tableType(t.S("s"), t.S("n"))})
		}
	default:
		panic(HarnessError("a catalog query that is not understood: " + q))
	}
	return r
}

// diffTable compares a listed table or view with its description.
func (c *catalogDB) diffTable(t *schema.Table, w Rec, view, dep bool) string {
	want := w.R("want")
	cols := want.RL("columns")
	if t.Schema != w.S("s") || t.Name != w.S("n") || t.SchemaName != w.S("s")+"."+w.S("n") || t.IsView != view {
		return fmt.Sprintf("identity %q %q %q view %v", t.Schema, t.Name, t.SchemaName, t.IsView)
	}
	if !view && t.Type != c.tableType(t.Schema, t.Name) {
		return fmt.Sprintf("type %q", t.Type)
	}
	if len(t.Columns) != len(cols) {
		return fmt.Sprintf("%d columns %v instead of %d", len(t.Columns), t.Columns.Names(), len(cols))
	}
	byName := map[string]*schema.Column{}
	for i, col := range cols {
		g := t.Columns[i]
		udt := col.S("udt")
		if c.mssql {
			udt = col.S("type")
		}
		if g.Name != col.S("name") || g.Type != col.S("type") || g.UdtType != udt || g.Nullable != col.B("nullable") ||
			int(g.MaxLength) != col.I("len") || int(g.Position) != col.I("pos") || g.SchemaName != t.SchemaName+"."+g.Name {
			return fmt.Sprintf("column %d is %s (%q) instead of %s", i, g.StructString(), g.SchemaName, js(col))
		}
		byName[g.Name] = g
	}
	// indexes by name
	idx := map[string]*schema.Index{}
	for _, ix := range t.Indexes {
		if idx[ix.Name] != nil {
			return "index " + ix.Name + " twice"
		}
		idx[ix.Name] = ix
	}
	wantIdx := want.RL("indexes")
	if len(idx) != len(wantIdx) {
		return fmt.Sprintf("indexes %v instead of %d", t.Indexes.Names(), len(wantIdx))
	}
	for _, x := range wantIdx {
		name := w.S("n") + "_" + x.S("name")
		g := idx[name]
		if g == nil {
			return "no index " + name
		}
		if g.IsPrimary != x.B("primary") || g.IsUnique != x.B("unique") || g.SchemaName != t.SchemaName+"."+name {
			return fmt.Sprintf("index %+v instead of %s", *g, js(x))
		}
		got := append([]string{}, g.ColumnNames...)
		if ret := c.idxText[w.S("s")+"\x00"+w.S("n")+"\x00"+name]; strings.Join(got, ",") != ret {
			return fmt.Sprintf("index %s has the columns %v, the catalog says %s", name, got, ret)
		}
		cs := x.SL("cols")
		sort.Strings(got)
		sort.Strings(cs)
		if !reflect.DeepEqual(got, cs) {
			split := strings.Split(strings.Join(cs, ","), ",")
			sort.Strings(split)
			c.comma = reflect.DeepEqual(got, split)
			return fmt.Sprintf("index %s has the columns %v instead of %v", name, got, cs)
		}
	}
	for _, col := range cols {
		g := byName[col.S("name")]
		var got, names []string
		for _, ix := range g.Indexes {
			if idx[ix.Name] != ix {
				return fmt.Sprintf("column %s is linked to an index that is not of the table", g.Name)
			}
			got = append(got, ix.Name)
		}
		for _, n := range col.SL("indexes") {
			names = append(names, w.S("n")+"_"+n)
		}
		sort.Strings(got)
		sort.Strings(names)
		if strings.Join(got, "|") != strings.Join(names, "|") {
			return fmt.Sprintf("column %s is linked to the indexes %v instead of %v", g.Name, got, names)
		}
		if dep {
			refs := col.RL("refs")
			if len(refs) == 0 && g.Ref != nil {
				return fmt.Sprintf("column %s is linked to the foreign key %+v", g.Name, *g.Ref)
			}
			ok := len(refs) == 0
			for _, r := range refs {
				ok = ok || g.Ref != nil && c.diffKey(g.Ref, r) == ""
			}
			if !ok {
				return fmt.Sprintf("column %s is linked to the foreign key %s instead of %s", g.Name, js(g.Ref), js(refs))
			}
		}
	}
	if pk := want.S("pk"); pk != t.PrimaryKeyName() || pk != "" && t.PrimaryKey != byName[pk] {
		return fmt.Sprintf("primary key %q instead of %q", t.PrimaryKeyName(), pk)
	}
	return ""
}

func (c *catalogDB) diffKey(k *schema.ForeignKey, r Rec) string {
	f, t := c.tables[r.I("from")], c.tables[r.I("to")]
	w := schema.ForeignKey{Name: r.S("name"), Schema: f.S("s"), Table: f.S("n"), Column: r.S("col"),
		RefSchema: t.S("s"), RefTable: t.S("n"), RefColumn: r.S("ref")}
	w.SchemaName = w.Schema + "." + w.Table + "." + w.Name
	if *k != w {
		return fmt.Sprintf("%+v instead of %+v", *k, w)
	}
	if k.ColumnSchemaName() != w.Schema+"."+w.Table+"."+w.Column || k.RefColumnSchemaName() != w.RefSchema+"."+w.RefTable+"."+w.RefColumn {
		return "qualified names " + k.ColumnSchemaName() + " " + k.RefColumnSchemaName()
	}
	return ""
}

// call makes one listing; it returns the property a difference belongs to.
func (c *catalogDB) call(p schema.Provider, r Rec) (prop, msg string) {
	ft := r.R("fault")
	c.faultQ, c.faultAt, c.queries, c.fired = ft.I("q"), ft.I("at"), 0, false
	c.idxText = map[string]string{}
	c.asked = nil
	var tt schema.Tables
	var kk schema.ForeignKeys
	var err error
	schemas, tables := r.SL("schemas"), r.SL("tables")
	s0, t0 := js(schemas), js(tables)
	ctx := context.Background()
	var cp *codePanic
	ok, hp := within(20*time.Second, func() {
		cp = guard(func() {
			switch r.S("op") {
			case "tables":
				tt, err = p.ListTables(ctx, schemas, tables, r.B("dep"))
			case "views":
				tt, err = p.ListViews(ctx, schemas, tables)
			case "keys":
				kk, err = p.ListForeignKeys(ctx, schemas, tables)
			}
		})
	})
	if !ok || hp != nil {
		return "S01", "does not return"
	}
	if cp != nil {
		return "S01", fmt.Sprintf("panics: %v at %s", cp.val, cp.stack)
	}
	if ok, m := settled(c.db, c.f, 0, 0); !ok {
		return "E02", m
	}
	if js(schemas) != s0 || js(tables) != t0 {
		return "S01", "the filters are changed"
	}
	if c.fired {
		if err == nil {
			return "S01", fmt.Sprintf("a failing catalog query (%d, row %d) is not reported", c.faultQ, c.faultAt)
		}
		return "", ""
	}
	if err != nil {
		return "S01", fmt.Sprintf("fails: %v (%s)", err, c.asked[len(c.asked)-1])
	}
	if r.S("op") == "keys" {
		want := r.RL("keys")
		if len(kk) != len(want) {
			return "S01", fmt.Sprintf("%d foreign keys instead of %d: %s", len(kk), len(want), js(kk))
		}
		for _, w := range want {
			n := 0
			for _, k := range kk {
				if c.diffKey(k, w) == "" {
					n++
				}
			}
			if n != 1 {
				return "S01", fmt.Sprintf("foreign key %s is listed %d times: %s", js(w), n, js(kk))
			}
		}
		return "", ""
	}
	view := r.S("op") == "views"
	pool := c.tables
	if view {
		pool = c.views
	}
	want := map[string]Rec{}
	for _, n := range r.IL("want") {
		want[pool[n].S("s")+"\x00"+pool[n].S("n")] = pool[n]
	}
	got := map[string]bool{}
	for i, t := range tt {
		k := t.Schema + "\x00" + t.Name
		if want[k] == nil {
			return "S01", fmt.Sprintf("lists %q.%q", t.Schema, t.Name)
		}
		if got[k] {
			return "S01", fmt.Sprintf("lists %q.%q twice", t.Schema, t.Name)
		}
		got[k] = true
		if i > 0 && tt[i-1].SchemaName > t.SchemaName {
			return "S01", fmt.Sprintf("%s before %s", tt[i-1].SchemaName, t.SchemaName)
		}
	}
	if len(got) != len(want) {
		return "S01", fmt.Sprintf("lists %d of %d: %s", len(got), len(want), strings.ReplaceAll(fmt.Sprint(sortedKeys(got)), "\x00", "."))
	}
	for _, t := range tt {
		if d := c.diffTable(t, want[t.Schema+"\x00"+t.Name], view, r.B("dep") && !view); d != "" {
			return "S02", fmt.Sprintf("%q.%q: %s", t.Schema, t.Name, d)
		}
	}
	return "", ""
}

func TestCatalog(t *testing.T) {
	Replay(t, "S01", func(res *Result, i int, beh []Rec) {
		c := newCatalogDB()
		defer c.close()
		var p schema.Provider
		calls := 0
		for n, r := range beh {
			if r.S("op") == "catalog" {
				c.load(r)
				if p == nil {
					p = schema.NewProvider(c.db, r.S("dialect"))
					if p.Name() != r.S("dialect") {
						res.Fail("S01", "name", "the provider is named "+p.Name(), n, beh)
					}
				}
				continue
			}
			calls++
			if prop, msg := c.call(p, r); msg != "" {
				key := "listing"
				if c.comma {
					key = "index-column-comma"
				}
				res.Fail(prop, key, fmt.Sprintf("%s %s: %s", c.cat.S("dialect"), js(r), msg), n, beh)
				break
			}
			if c.fired {
				res.Count("faults", 1)
			}
		}
		res.Count("fallbacks", c.fallbacks)
		res.AddCase(beh, calls > 1, len(beh))
	})
}
