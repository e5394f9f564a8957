package harness

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"
	"testing"

	"github.com/alecthomas/kong"
	"github.com/effective-security/x/ctl"
	"github.com/effective-security/xdb/internal/cli"
	clischema "github.com/effective-security/xdb/internal/cli/schema"
	"github.com/effective-security/xdb/pkg/print"
	"github.com/effective-security/xdb/schema"
	"gopkg.in/yaml.v3"
)

var errListFailed = errors.New("the list failed")

// printCatalog is a schema provider over a catalog of PrintCli.tla.
type printCatalog struct {
	objs schema.Tables
	recs []Rec
	fail string
	// calls counts the lists asked for
	calls int
}

func uni(s string) string { return strings.ReplaceAll(s, "Zz", "ж日") }

func u32(s string) uint32 {
	n, err := strconv.ParseUint(s, 10, 32)
	if err != nil {
		panic(HarnessError("number " + s))
	}
	return uint32(n)
}

func newPrintCatalog(cat []Rec) *printCatalog {
	c := &printCatalog{recs: cat}
	for _, r := range cat {
		t := &schema.Table{Schema: r.S("s"), Name: uni(r.S("n")), Type: r.S("ty"), IsView: r.B("view")}
		t.SchemaName = t.Schema + "." + t.Name
		for _, x := range r.RL("idx") {
			ix := &schema.Index{Name: uni(x.S("n")), IsPrimary: x.B("pk"), IsUnique: x.B("uq")}
			for _, n := range x.SL("cols") {
				ix.ColumnNames = append(ix.ColumnNames, uni(n))
			}
			ix.SchemaName = t.SchemaName + "." + ix.Name
			t.Indexes = append(t.Indexes, ix)
		}
		for _, x := range r.RL("cols") {
			col := &schema.Column{Name: uni(x.S("n")), Type: x.S("ty"), UdtType: x.S("u"), Nullable: x.B("null"), MaxLength: u32(x.S("ml")), Position: u32(x.S("pos"))}
			col.SchemaName = t.SchemaName + "." + col.Name
			for _, ix := range t.Indexes {
				for _, n := range ix.ColumnNames {
					if n == col.Name {
						col.Indexes = append(col.Indexes, ix)
					}
				}
			}
			if fk := x.I("fk"); fk != 0 {
				to := cat[fk-1]
				col.Ref = &schema.ForeignKey{Name: "fk_" + t.Name + "_" + col.Name, Schema: t.Schema, Table: t.Name, Column: col.Name,
					RefSchema: to.S("s"), RefTable: uni(to.S("n")), RefColumn: uni(to.RL("cols")[0].S("n"))}
				col.Ref.SchemaName = t.SchemaName + "." + col.Ref.Name
				if t.FKMap == nil {
					t.FKMap = map[string]*schema.ForeignKey{}
				}
				t.FKMap[col.SchemaName] = col.Ref
			}
			if r.S("pk") != "" && uni(r.S("pk")) == col.Name {
				t.PrimaryKey = col
			}
			t.Columns = append(t.Columns, col)
		}
		c.objs = append(c.objs, t)
	}
	return c
}

func (c *printCatalog) Name() string { return "postgres" }

func inFilter(f []string, s string) bool {
	for _, x := range f {
		if x == s {
			return true
		}
	}
	return len(f) == 0
}

func (c *printCatalog) pick(view bool, schemas, names []string) map[int]bool {
	m := map[int]bool{}
	for i, t := range c.objs {
		if t.IsView == view && inFilter(schemas, t.Schema) && inFilter(names, t.Name) {
			m[i] = true
		}
	}
	return m
}

func (c *printCatalog) ordered(m map[int]bool) schema.Tables {
	var res schema.Tables
	for i, t := range c.objs {
		if m[i] {
			res = append(res, t)
		}
	}
	return res
}

func (c *printCatalog) ListTables(_ context.Context, schemas, names []string, deps bool) (schema.Tables, error) {
	c.calls++
	if c.fail == "tables" {
		return nil, errListFailed
	}
	m := c.pick(false, schemas, names)
	for grown := deps; grown; {
		grown = false
		for i := range c.objs {
			if !m[i] {
				continue
			}
			for _, x := range c.recs[i].RL("cols") {
				if fk := x.I("fk"); fk != 0 && !m[fk-1] {
					m[fk-1], grown = true, true
				}
			}
		}
	}
	return c.ordered(m), nil
}

func (c *printCatalog) ListViews(_ context.Context, schemas, names []string) (schema.Tables, error) {
	c.calls++
	if c.fail == "views" {
		return nil, errListFailed
	}
	return c.ordered(c.pick(true, schemas, names)), nil
}

func (c *printCatalog) ListForeignKeys(_ context.Context, schemas, names []string) (schema.ForeignKeys, error) {
	c.calls++
	if c.fail == "keys" {
		return nil, errListFailed
	}
	var res schema.ForeignKeys
	for _, t := range c.ordered(c.pick(false, schemas, names)) {
		for _, x := range t.Columns {
			if x.Ref != nil {
				res = append(res, x.Ref)
			}
		}
	}
	return res, nil
}

// printApp is the command line of the tool.
type printApp struct {
	cli.Cli
	Schema clischema.Cmd `cmd:""`
}

// runCommand runs the command line as the tool does.
func runCommand(p schema.Provider, args []string) (string, error) {
	var out, eout bytes.Buffer
	app := &printApp{}
	app.Cli.WithErrWriter(&eout).WithWriter(&out)
	app.Cli.WithSchemaProvider(p)
	parser, err := kong.New(app, kong.Name("xdbcli"), kong.Writers(&out, &eout), kong.Exit(func(int) {}), ctl.BoolPtrMapper, kong.Vars{"version": "0"})
	if err != nil {
		panic(HarnessError("kong: " + err.Error()))
	}
	ctx, err := parser.Parse(args)
	if err != nil {
		return "", fmt.Errorf("arguments %q are refused: %w", args, err)
	}
	err = ctx.Run(&app.Cli)
	app.Close()
	return out.String(), err
}

type docColumn struct {
	Name      string `json:"Name" yaml:"name"`
	Type      string `json:"Type" yaml:"type"`
	UdtType   string `json:"UdtType" yaml:"udttype"`
	Nullable  bool   `json:"Nullable" yaml:"nullable"`
	MaxLength uint32 `json:"MaxLength" yaml:"maxlength"`
	Position  uint32 `json:"Position" yaml:"position"`
}

type docIndex struct {
	Name        string   `json:"Name" yaml:"name"`
	IsPrimary   bool     `json:"IsPrimary" yaml:"isprimary"`
	IsUnique    bool     `json:"IsUnique" yaml:"isunique"`
	ColumnNames []string `json:"ColumnNames" yaml:"columnnames"`
}

type docTable struct {
	Schema     string      `json:"Schema" yaml:"schema"`
	Name       string      `json:"Name" yaml:"name"`
	Type       string      `json:"Type" yaml:"type"`
	IsView     bool        `json:"IsView" yaml:"isview"`
	Columns    []docColumn `json:"Columns" yaml:"columns"`
	Indexes    []docIndex  `json:"Indexes" yaml:"indexes"`
	PrimaryKey *docColumn  `json:"PrimaryKey" yaml:"primarykey"`
}

type docKey struct {
	Name      string `json:"Name" yaml:"name"`
	Schema    string `json:"Schema" yaml:"schema"`
	Table     string `json:"Table" yaml:"table"`
	Column    string `json:"Column" yaml:"column"`
	RefSchema string `json:"RefSchema" yaml:"refschema"`
	RefTable  string `json:"RefTable" yaml:"reftable"`
	RefColumn string `json:"RefColumn" yaml:"refcolumn"`
}

// decodeOne reads the only document of the text.
func decodeOne(format, text string, v any) error {
	if format == "json" {
		d := json.NewDecoder(strings.NewReader(text))
		if err := d.Decode(v); err != nil {
			return err
		}
		var more any
		if err := d.Decode(&more); err != io.EOF {
			return errors.New("there is more than one JSON document")
		}
		return nil
	}
	d := yaml.NewDecoder(strings.NewReader(text))
	if err := d.Decode(v); err != nil {
		return err
	}
	var more any
	if err := d.Decode(&more); err != io.EOF {
		return errors.New("there is more than one YAML document")
	}
	return nil
}

func wantColumn(r Rec) docColumn {
	return docColumn{uni(r.S("n")), r.S("ty"), r.S("u"), r.B("null"), u32(r.S("ml")), u32(r.S("pos"))}
}

func wantTable(r Rec) docTable {
	t := docTable{Schema: r.S("s"), Name: uni(r.S("n")), Type: r.S("ty"), IsView: r.B("view")}
	for _, x := range r.RL("cols") {
		t.Columns = append(t.Columns, wantColumn(x))
	}
	for _, x := range r.RL("idx") {
		ix := docIndex{Name: uni(x.S("n")), IsPrimary: x.B("pk"), IsUnique: x.B("uq")}
		for _, n := range x.SL("cols") {
			ix.ColumnNames = append(ix.ColumnNames, uni(n))
		}
		t.Indexes = append(t.Indexes, ix)
	}
	for _, x := range r.RL("pk") {
		c := wantColumn(x)
		t.PrimaryKey = &c
	}
	return t
}

// textBlock is a printed table: its title, if it has one, and cells.
type textBlock struct {
	schema, table string
	header        []string
	rows          [][]string
	index         bool
}

func parseText(text string) ([]*textBlock, error) {
	var res []*textBlock
	var cur *textBlock
	var sch string
	index := false
	for _, l := range strings.Split(text, "\n") {
		switch {
		case strings.HasPrefix(l, "Schema: "):
			sch = l[len("Schema: "):]
		case strings.HasPrefix(l, "Table: "):
			cur = &textBlock{schema: sch, table: l[len("Table: "):]}
			res = append(res, cur)
			sch = ""
		case l == "Indexes:":
			index = true
		case strings.HasPrefix(l, "┌"):
			if cur == nil || cur.header != nil {
				cur = &textBlock{index: index}
				res = append(res, cur)
			}
			index = false
		case strings.HasPrefix(l, "│"):
			if cur == nil {
				return nil, fmt.Errorf("row outside a table: %q", l)
			}
			var cells []string
			for _, c := range strings.Split(strings.Trim(l, "│"), "│") {
				cells = append(cells, strings.TrimSpace(c))
			}
			if cur.header == nil {
				cur.header = cells
			} else {
				cur.rows = append(cur.rows, cells)
			}
		case l == "" || strings.HasPrefix(l, "├") || strings.HasPrefix(l, "└"):
		default:
			return nil, fmt.Errorf("unexpected line %q", l)
		}
	}
	return res, nil
}

func unis(l []string) []string {
	res := []string{}
	for _, s := range l {
		res = append(res, uni(s))
	}
	return res
}

func rowsOf(l []any) [][]string {
	var res [][]string
	for _, x := range l {
		var row []string
		for _, y := range x.([]any) {
			row = append(row, uni(anyS(y)))
		}
		res = append(res, row)
	}
	return res
}

const (
	columnsHeader = "ORD NAME TYPE UDT NULL MAX INDEX REF"
	indexesHeader = "NAME PRIMARY UNIQUE COLUMNS"
	keysHeader    = "NAME|SCHEMA|TABLE|COLUMN|FK SCHEMA|FK TABLE|FK COLUMN"
)

func diffRows(what string, got, want [][]string) string {
	if js(got) != js(want) && !(len(got) == 0 && len(want) == 0) {
		return fmt.Sprintf("%s has rows %s, expected %s", what, js(got), js(want))
	}
	return ""
}

// diffPrinted compares what a command printed with the document of the specification.
func diffPrinted(r Rec, text string) string {
	kind, o, want := r.S("kind"), r.S("o"), r.R("want").L("doc")
	isKeys := kind == "fks" || kind == "api-fks"
	if o != "table" {
		switch {
		case isKeys:
			var got, exp []docKey
			if err := decodeOne(o, text, &got); err != nil {
				return fmt.Sprintf("the %s output can not be read: %v: %q", o, err, text)
			}
			for _, k := range rowsOf(want) {
				exp = append(exp, docKey{k[0], k[1], k[2], k[3], k[4], k[5], k[6]})
			}
			if js(got) != js(exp) && len(got)+len(exp) > 0 {
				return fmt.Sprintf("printed %s, expected %s", js(got), js(exp))
			}
		default:
			var got, exp []docTable
			var err error
			if kind == "api-table" {
				got = make([]docTable, 1)
				err = decodeOne(o, text, &got[0])
			} else {
				err = decodeOne(o, text, &got)
			}
			if err != nil {
				return fmt.Sprintf("the %s output can not be read: %v: %q", o, err, text)
			}
			for _, x := range want {
				exp = append(exp, wantTable(Rec(x.(map[string]any))))
			}
			for i := range got {
				// an empty list is printed as null or []
				if len(got[i].Indexes) == 0 {
					got[i].Indexes = nil
				}
			}
			if js(got) != js(exp) && len(got)+len(exp) > 0 {
				return fmt.Sprintf("printed %s, expected %s", js(got), js(exp))
			}
		}
		return ""
	}
	if kind == "tables" || kind == "views" {
		exp := ""
		for _, x := range want {
			exp += uni(anyS(x)) + "\n"
		}
		if text != exp {
			return fmt.Sprintf("printed %q, expected %q", text, exp)
		}
		return ""
	}
	got, err := parseText(text)
	if err != nil {
		return fmt.Sprintf("the output can not be read: %v: %q", err, text)
	}
	switch {
	case isKeys || kind == "api-indexes":
		if len(got) != 1 || got[0].table != "" {
			return fmt.Sprintf("%d tables are printed, expected 1: %q", len(got), text)
		}
		if isKeys && strings.Join(got[0].header, "|") != keysHeader || !isKeys && strings.Join(got[0].header, " ") != indexesHeader {
			return fmt.Sprintf("header %s", js(got[0].header))
		}
		return diffRows("the table", got[0].rows, rowsOf(want))
	}
	i := 0
	next := func() *textBlock {
		if i < len(got) {
			i++
			return got[i-1]
		}
		return nil
	}
	for _, x := range want {
		w := Rec(x.(map[string]any))
		b := next()
		if b == nil {
			return fmt.Sprintf("%s.%s is not printed", w.S("s"), w.S("n"))
		}
		if b.schema != w.S("s") || b.table != uni(w.S("n")) {
			return fmt.Sprintf("printed table %q of schema %q, expected %q of %q", b.table, b.schema, uni(w.S("n")), w.S("s"))
		}
		if strings.Join(b.header, " ") != columnsHeader {
			return fmt.Sprintf("header %s", js(b.header))
		}
		if d := diffRows("table "+w.S("n"), b.rows, rowsOf(w.L("rows"))); d != "" {
			return d
		}
		if ix := rowsOf(w.L("idx")); len(ix) > 0 {
			if b = next(); b == nil || !b.index || b.table != "" {
				return fmt.Sprintf("the indexes of %s are not printed", w.S("n"))
			}
			if strings.Join(b.header, " ") != indexesHeader {
				return fmt.Sprintf("header %s", js(b.header))
			}
			if d := diffRows("the indexes of "+w.S("n"), b.rows, ix); d != "" {
				return d
			}
		}
	}
	if b := next(); b != nil {
		return fmt.Sprintf("more is printed than expected: %q", text)
	}
	return ""
}

// printArgs makes the command line of a call.
func printArgs(r Rec, alt bool) []string {
	kind := r.S("kind")
	cmd := map[string]string{"columns": "columns", "tables": "tables", "views": "views", "fks": "foreign-keys"}[kind]
	args := []string{"--sql-source=postgres://none"}
	if o := r.S("o"); o != "table" || alt {
		args = append(args, "--o="+o)
	}
	args = append(args, "schema", cmd, "--db=none")
	list := func(flag string, l []string) {
		if len(l) == 0 {
			return
		}
		if alt {
			args = append(args, "--"+flag+"="+strings.Join(l, ","))
			return
		}
		for _, x := range l {
			args = append(args, "--"+flag+"="+x)
		}
	}
	list("schema", r.SL("schemas"))
	if kind == "views" {
		list("view", unis(r.SL("names")))
	} else {
		list("table", unis(r.SL("names")))
	}
	if kind == "columns" && r.B("deps") {
		args = append(args, "--dependencies")
	}
	if (kind == "columns" || kind == "tables") && r.B("views") {
		args = append(args, "--views")
	}
	return args
}

func TestPrintCli(t *testing.T) {
	Replay(t, "P01", func(res *Result, i int, beh []Rec) {
		cat := newPrintCatalog(beh[0].RL("cat"))
		res.AddCase(beh, len(cat.objs) > 0, len(beh)-1)
		for n, r := range beh[1:] {
			kind := r.S("kind")
			res.Count(kind+"/"+r.S("o"), 1)
			if strings.HasPrefix(kind, "api-") {
				var v any
				cat.fail = ""
				switch kind {
				case "api-tables":
					v, _ = cat.ListTables(context.Background(), r.SL("schemas"), unis(r.SL("names")), false)
				case "api-fks":
					v, _ = cat.ListForeignKeys(context.Background(), r.SL("schemas"), unis(r.SL("names")))
				case "api-table":
					v = cat.objs[0]
				case "api-indexes":
					v = cat.objs[0].Indexes
				}
				var out bytes.Buffer
				if err := print.Object(&out, r.S("o"), v); err != nil {
					res.Fail("P01", "print-error", fmt.Sprintf("print.Object(%T, %s) fails: %v", v, r.S("o"), err), n+1, beh)
					return
				}
				if d := diffPrinted(r, out.String()); d != "" {
					res.Fail("P01", "print-"+kind+"-"+r.S("o"), fmt.Sprintf("print.Object(%T, %s): %s", v, r.S("o"), d), n+1, beh)
					return
				}
				continue
			}
			cat.fail = r.S("fail")
			args := printArgs(r, (i+n)%2 == 0)
			text, err := runCommand(cat, args)
			if r.R("want").B("fails") {
				if err == nil {
					res.Fail("P01", "no-error-"+kind, fmt.Sprintf("%q: the list of %s fails, the command does not: it prints %q", args, cat.fail, text), n+1, beh)
					return
				}
				if !errors.Is(err, errListFailed) {
					res.Fail("P01", "cause-"+kind, fmt.Sprintf("%q: the error %q does not have the cause", args, err), n+1, beh)
					return
				}
				continue
			}
			if err != nil {
				res.Fail("P01", "error-"+kind, fmt.Sprintf("%q fails: %v", args, err), n+1, beh)
				return
			}
			if d := diffPrinted(r, text); d != "" {
				res.Fail("P01", "output-"+kind+"-"+r.S("o"), fmt.Sprintf("%q: %s", args, d), n+1, beh)
				return
			}
		}
	})
}
