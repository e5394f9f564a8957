package harness

import (
	"bytes"
	"context"
	_ "embed"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/effective-security/xdb/internal/cli"
	clischema "github.com/effective-security/xdb/internal/cli/schema"
	"github.com/effective-security/xdb/schema"
	"gopkg.in/yaml.v3"
)

// the program that uses the generated code
//
//go:embed genrun.txt
var genRunText string

const genRoot = "github.com/effective-security/xdb/verif"

// specCatalog is a schema provider over the tables of a call of Codegen.tla.
type specCatalog struct {
	prov   string
	tables schema.Tables
	fks    map[string][]string // table -> tables it refers to
	bad    string
}

func (c *specCatalog) Name() string { return c.prov }
func passes(f []string, x string) bool {
	for _, y := range f {
		if x == y {
			return true
		}
	}
	return len(f) == 0
}
func (c *specCatalog) ListTables(ctx context.Context, schemas, tables []string, deps bool) (schema.Tables, error) {
	pick := map[string]bool{}
	for _, t := range c.tables {
		if !t.IsView && passes(schemas, t.Schema) && passes(tables, t.Name) {
			pick[t.SchemaName] = true
		}
	}
	for again := deps; again; {
		again = false
		for t := range pick {
			for _, r := range c.fks[t] {
				if !pick[r] {
					pick[r], again = true, true
				}
			}
		}
	}
	var res schema.Tables
	for _, t := range c.tables {
		if pick[t.SchemaName] {
			res = append(res, t)
		}
	}
	return res, nil
}
func (c *specCatalog) ListViews(ctx context.Context, schemas, views []string) (schema.Tables, error) {
	var res schema.Tables
	for _, t := range c.tables {
		if t.IsView && passes(schemas, t.Schema) && passes(views, t.Name) {
			res = append(res, t)
		}
	}
	return res, nil
}
func (c *specCatalog) ListForeignKeys(ctx context.Context, schemas, tables []string) (schema.ForeignKeys, error) {
	c.bad = "foreign keys were listed"
	return nil, nil
}

func makeCatalog(e Rec) *specCatalog {
	c := &specCatalog{prov: e.S("prov"), fks: map[string][]string{}}
	cat := e.RL("cat")
	for _, ct := range cat {
		t := &schema.Table{Schema: ct.S("s"), Name: ct.S("n"), IsView: ct.B("view"), SchemaName: ct.S("s") + "." + ct.S("n")}
		for i, x := range ct.RL("cols") {
			col := &schema.Column{Name: x.S("n"), Type: x.S("ty"), UdtType: x.S("u"), Nullable: x.B("null"), MaxLength: uint32(x.I("ml")),
				Position: uint32(i + 1), SchemaName: t.SchemaName + "." + x.S("n")}
			if k := x.I("fk"); k != 0 {
				r := cat[k-1]
				col.Ref = &schema.ForeignKey{Name: "fk_" + col.Name, Schema: t.Schema, Table: t.Name, Column: col.Name,
					RefSchema: r.S("s"), RefTable: r.S("n"), RefColumn: "id"}
				c.fks[t.SchemaName] = append(c.fks[t.SchemaName], r.S("s")+"."+r.S("n"))
			}
			t.Columns = append(t.Columns, col)
			if ct.S("pk") == col.Name {
				t.PrimaryKey = col
			}
		}
		for _, ix := range ct.RL("idx") {
			i := &schema.Index{Name: ix.S("n"), IsPrimary: ix.B("prim"), IsUnique: ix.B("uniq"), ColumnNames: ix.SL("cols"), SchemaName: t.SchemaName + "." + ix.S("n")}
			t.Indexes = append(t.Indexes, i)
			for _, col := range t.Columns {
				for _, cn := range i.ColumnNames {
					if cn == col.Name {
						col.Indexes = append(col.Indexes, i)
						break
					}
				}
			}
		}
		c.tables = append(c.tables, t)
	}
	return c
}

// genImports are the imports asked for.
var genImports = []string{"github.com/effective-security/xdb/xsql", "github.com/effective-security/xdb/pkg/flake"}

// tidy removes the imports a file does not use and adds those it needs.
func tidy(name string, src []byte, more map[string]string) ([]byte, string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, "", err
	}
	known := map[string]string{
		"xdb": "github.com/effective-security/xdb", "xdbschema": "github.com/effective-security/xdb/schema", "xsql": "github.com/effective-security/xdb/xsql",
		"values": "github.com/effective-security/x/values", "errors": "github.com/cockroachdb/errors", "pq": "github.com/lib/pq", "flake": "github.com/effective-security/xdb/pkg/flake",
	}
	for k, v := range more {
		known[k] = v
	}
	declared := map[string]bool{}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok {
			for _, s := range g.Specs {
				if v, ok := s.(*ast.ValueSpec); ok {
					for _, n := range v.Names {
						declared[n.Name] = true
					}
				}
			}
		}
	}
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if x, ok := s.X.(*ast.Ident); ok && known[x.Name] != "" && !declared[x.Name] && ast.IsExported(s.Sel.Name) {
				used[x.Name] = true
			}
		}
		return true
	})
	has := map[string]bool{}
	for _, s := range f.Imports {
		p, _ := strconv.Unquote(s.Path.Value)
		has[p] = true
	}
	for _, p := range genImports {
		if !has[p] {
			return nil, "", fmt.Errorf("does not import %s", p)
		}
	}
	// the imports of the file are replaced
	var decls []ast.Decl
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			for _, s := range g.Specs {
				p, _ := strconv.Unquote(s.(*ast.ImportSpec).Path.Value)
				found := false
				for _, k := range known {
					found = found || k == p
				}
				if !found {
					return nil, "", fmt.Errorf("imports %s", p)
				}
			}
			continue
		}
		decls = append(decls, d)
	}
	f.Decls, f.Imports = decls, nil
	var buf bytes.Buffer
	if err := format.Node(&buf, fset, f); err != nil {
		return nil, "", err
	}
	var imp strings.Builder
	imp.WriteString("import (\n")
	for _, k := range sortedKeys(used) {
		fmt.Fprintf(&imp, "\t%s %q\n", k, known[k])
	}
	imp.WriteString(")\n")
	txt := buf.String()
	i := strings.Index(txt, "package "+f.Name.Name)
	j := i + strings.Index(txt[i:], "\n")
	return []byte(txt[:j] + "\n\n" + imp.String() + txt[j:]), f.Name.Name, nil
}

// genCase is one generation: its packages are built and used by genrun.
type genCase struct {
	ID      int
	Beh     []Rec
	Step    int
	Op      Rec
	Entries []genEntry
}
type genEntry struct {
	Struct, Info, DB string
	Exp              Rec
}

// genOutput are the files of a run: what was written to each package, in order.
type genOutput struct{ model, schema []string }

func (o genOutput) text() string { return js([]any{o.model, o.schema}) }

func readDir(dir string) ([]string, map[string]string) {
	files := map[string]string{}
	ents, _ := os.ReadDir(dir)
	for _, e := range ents {
		b, _ := os.ReadFile(filepath.Join(dir, e.Name()))
		files[e.Name()] = string(b)
	}
	var res []string
	for _, k := range sortedKeys(files) {
		res = append(res, files[k])
	}
	return res, files
}

// TestCodegen generates code for the calls of Codegen.tla, and builds and uses it.
func TestCodegen(t *testing.T) {
	tmp := os.Getenv("HARNESS_TMP")
	if tmp == "" {
		tmp = t.TempDir()
	}
	root, err := os.MkdirTemp(tmp, "gen")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(root)
	src, repo := env("HARNESS_SRC", "/verif/harness"), env("HARNESS_REPO", "/repo")
	gm, err := os.ReadFile(filepath.Join(src, "go.mod"))
	if err != nil {
		t.Fatal(err)
	}
	gm = bytes.ReplaceAll(gm, []byte("=> /repo"), []byte("=> "+repo))
	gs, _ := os.ReadFile(filepath.Join(src, "go.sum"))
	os.WriteFile(filepath.Join(root, "go.mod"), gm, 0644)
	os.WriteFile(filepath.Join(root, "go.sum"), gs, 0644)

	texts := map[string]string{} // call -> what was generated from it before
	var cases []*genCase
	Replay(t, "G01", func(res *Result, bi int, beh []Rec) {
		base := filepath.Join(root, fmt.Sprintf("out%d", bi))
		defer os.RemoveAll(base)
		var odir string
		for i, e := range beh {
			fail := func(key, f string, args ...any) {
				res.Fail("G01", key, fmt.Sprintf("step %d: ", i)+fmt.Sprintf(f, args...), i, beh)
			}
			cat := makeCatalog(e)
			if !e.B("again") || odir == "" {
				odir = filepath.Join(base, strconv.Itoa(i))
			}
			out, msg := runGenerate(e, cat, odir)
			if msg != "" {
				fail("generate", "%s", msg)
				return
			}
			// the same input, the same output
			in := Rec{}
			for k, v := range e {
				if k != "again" && k != "exp" && k != "out" {
					in[k] = v
				}
			}
			key := js(in)
			if was, ok := texts[key]; ok {
				if was != out.text() {
					fail("differs", "generated otherwise than before: %s", firstDiff(was, out.text()))
					return
				}
				continue
			}
			texts[key] = out.text()
			c := &genCase{ID: len(cases), Beh: beh, Step: i, Op: e}
			exp, _ := e["exp"].(map[string]any)
			if len(exp) == 0 {
				if strings.Contains(out.text(), "TableInfo{") {
					fail("tables", "tables were generated, but none was selected")
					return
				}
				continue
			}
			for _, k := range sortedKeys(exp) {
				x := Rec(exp[k].(map[string]any))
				c.Entries = append(c.Entries, genEntry{Struct: x.S("struct"), Info: x.S("info"), Exp: x, DB: e.S("db")})
			}
			if msg := writePackages(root, c, out); msg != "" {
				fail("source", "%s", msg)
				return
			}
			cases = append(cases, c)
		}
		res.AddCase(beh, len(beh) > 1, len(beh))
	}, func(res *Result) { useGenerated(res, root, cases) })
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return fmt.Sprintf("...%.300q and ...%.300q", a[max(0, i-60):], b[max(0, i-60):])
}

func runGenerate(e Rec, cat *specCatalog, odir string) (genOutput, string) {
	var o genOutput
	cmd := clischema.GenerateCmd{
		DB: e.S("db"), Schema: e.SL("schemas"), Table: e.SL("tables"), View: e.SL("views"), Dependencies: e.B("deps"),
		StructSuffix: e.S("suffix"), UseSchema: e.B("useschema"),
		// the list of the caller has room
		Imports: append(make([]string, 0, 8), genImports...),
	}
	if e.S("pkgs") == "names" {
		cmd.PkgModel, cmd.PkgSchema = "entities", "tables"
	} else if e.S("out") != "files" {
		cmd.PkgModel, cmd.PkgSchema = "model", "schema"
	}
	mdir, sdir := filepath.Join(odir, "model"), filepath.Join(odir, "schema")
	if e.S("out") == "files" {
		cmd.OutModel, cmd.OutSchema = mdir, sdir
	}
	defs := e.R("defs")
	pairs := func(k string) map[string]string {
		m := map[string]string{}
		for _, x := range defs.L(k) {
			p := x.([]any)
			m[anyS(p[0])] = anyS(p[1])
		}
		return m
	}
	ov := map[string]any{"tables": pairs("tables"), "fields": pairs("fields"), "types": pairs("types"), "with_cached_props": defs.SL("cache"), "drop_columns": defs.SL("drop")}
	if len(defs.L("tables"))+len(defs.L("fields"))+len(defs.L("types"))+len(defs.L("cache"))+len(defs.L("drop")) > 0 {
		os.MkdirAll(odir, 0755)
		var b []byte
		if e.B("deps") {
			cmd.TypesDef = filepath.Join(odir, "types.yaml")
			b, _ = yaml.Marshal(ov)
		} else {
			cmd.TypesDef = filepath.Join(odir, "types.json")
			b, _ = json.Marshal(ov)
		}
		if err := os.WriteFile(cmd.TypesDef, b, 0644); err != nil {
			panic(HarnessError(err.Error()))
		}
	}
	var w bytes.Buffer
	ctl := (&cli.Cli{}).WithWriter(&w).WithErrWriter(&w).WithSchemaProvider(cat)
	var err error
	if cp := guard(func() { err = cmd.Run(ctl) }); cp != nil {
		return o, fmt.Sprintf("panic: %v at %s", cp.val, cp.stack)
	}
	if err != nil {
		return o, fmt.Sprintf("error: %.2000v", err)
	}
	if !reflect.DeepEqual(cmd.Imports, genImports) {
		return o, fmt.Sprintf("the imports were changed to %v", cmd.Imports)
	}
	if e.S("out") == "files" {
		o.model, _ = readDir(mdir)
		o.schema, _ = readDir(sdir)
		if w.Len() > 0 {
			return o, "written to the console: " + trunc(w.String(), 300)
		}
		return o, ""
	}
	const head = "// DO NOT EDIT!"
	for i, p := range strings.Split(w.String(), head) {
		switch {
		case i == 0 && strings.TrimSpace(p) != "":
			return o, "unexpected text: " + trunc(p, 300)
		case i == 0:
		case i%2 == 1:
			o.model = append(o.model, head+p)
		default:
			o.schema = append(o.schema, head+p)
		}
	}
	// files are read in the order of their names
	return o, ""
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// writePackages writes the generated files as packages of the module.
func writePackages(root string, c *genCase, o genOutput) string {
	wantM, wantS := "model", "schema"
	if c.Op.S("pkgs") == "names" {
		wantM, wantS = "entities", "tables"
	}
	for i, set := range [][]string{o.model, o.schema} {
		dir, want := "m", wantM
		if i == 1 {
			dir, want = "s", wantS
		}
		d := filepath.Join(root, "gen", fmt.Sprintf("c%d", c.ID), dir)
		os.MkdirAll(d, 0755)
		for j, txt := range set {
			b, pkg, err := tidy(fmt.Sprintf("f%d.go", j), []byte(txt), map[string]string{wantS: fmt.Sprintf("%s/gen/c%d/s", genRoot, c.ID)})
			if err != nil {
				return fmt.Sprintf("%v in\n%s", err, trunc(txt, 2000))
			}
			if pkg != want {
				return fmt.Sprintf("package %s instead of %s", pkg, want)
			}
			if err := os.WriteFile(filepath.Join(d, fmt.Sprintf("f%d.go", j)), b, 0644); err != nil {
				panic(HarnessError(err.Error()))
			}
		}
	}
	return ""
}

// useGenerated builds the packages with a program that uses them, and runs it.
func useGenerated(res *Result, root string, cases []*genCase) {
	os.RemoveAll(filepath.Join(root, "run"))
	for round := 0; round < 6 && len(cases) > 0; round++ {
		run := filepath.Join(root, "run")
		os.MkdirAll(run, 0755)
		os.WriteFile(filepath.Join(run, "main.go"), []byte(genRunText), 0644)
		for _, c := range cases {
			var b strings.Builder
			fmt.Fprintf(&b, "package main\n\nimport (\n\tm %q\n\ts %q\n)\n\nfunc init() {\n", fmt.Sprintf("%s/gen/c%d/m", genRoot, c.ID), fmt.Sprintf("%s/gen/c%d/s", genRoot, c.ID))
			fmt.Fprintf(&b, "\tcases = append(cases, genCase{ID: %d, Tables: s.%sTables, Dialects: []any{m.Dialect, s.Dialect}, Entries: []entry{\n", c.ID, map[string]string{"testdb": "Testdb", "my_db": "MyDb"}[c.Op.S("db")])
			for _, e := range c.Entries {
				fmt.Fprintf(&b, "\t\t{Model: &m.%s{}, Result: &m.%sResult{}, Slice: m.%sSlice{}, Info: &s.%s, Var: s.%s},\n", e.Struct, e.Struct, e.Struct, e.Info, e.Struct)
			}
			b.WriteString("\t}})\n}\n")
			os.WriteFile(filepath.Join(run, fmt.Sprintf("c%d.go", c.ID)), []byte(b.String()), 0644)
		}
		exps := map[int]any{}
		for _, c := range cases {
			var l []any
			for _, e := range c.Entries {
				l = append(l, e.Exp)
			}
			exps[c.ID] = Rec{"prov": c.Op.S("prov"), "exp": l}
		}
		os.WriteFile(filepath.Join(root, "exp.json"), []byte(js(exps)), 0644)
		bin := filepath.Join(root, "genrun")
		cmd := exec.Command("go", "build", "-gcflags=-e", "-o", bin, "./run")
		cmd.Dir = root
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local")
		b, err := cmd.CombinedOutput()
		if err == nil {
			runGenerated(res, root, bin, cases)
			return
		}
		// which do not compile?
		bad := map[int]string{}
		for _, l := range strings.Split(string(b), "\n") {
			var id int
			at := l
			if i := strings.Index(l, "gen/c"); i >= 0 {
				at = l[i+len("gen/c"):]
			} else if i := strings.Index(l, "run/c"); i >= 0 {
				at = l[i+len("run/c"):]
			} else {
				continue
			}
			if n, _ := fmt.Sscanf(at, "%d", &id); n == 1 && strings.Contains(l, ".go:") {
				if len(bad[id]) < 600 {
					bad[id] += strings.TrimSpace(l) + "\n"
				}
			}
		}
		if len(bad) == 0 {
			res.Error("the generated code does not build: " + trunc(string(b), 3000))
			return
		}
		var rest []*genCase
		for _, c := range cases {
			if msg, ok := bad[c.ID]; ok {
				res.Fail("G01", "compile", fmt.Sprintf("step %d: the generated code does not compile, or lacks a declaration: %s", c.Step, msg), c.Step, c.Beh)
				os.RemoveAll(filepath.Join(root, "gen", fmt.Sprintf("c%d", c.ID)))
				continue
			}
			rest = append(rest, c)
		}
		cases = rest
		os.RemoveAll(run)
	}
}

func runGenerated(res *Result, root, bin string, cases []*genCase) {
	cmd := exec.Command(bin, filepath.Join(root, "exp.json"))
	cmd.Dir = root
	var errb bytes.Buffer
	cmd.Stderr = &errb
	b, err := cmd.Output()
	if err != nil {
		res.Error(fmt.Sprintf("the program that uses the generated code: %v: %s", err, trunc(errb.String(), 3000)))
		return
	}
	var out struct {
		Checks   int
		Problems []struct {
			Case     int
			Key, Msg string
		}
		Errors []string
	}
	if err := json.Unmarshal(b, &out); err != nil {
		res.Error("the program that uses the generated code: " + err.Error())
		return
	}
	for _, e := range out.Errors {
		res.Error(e)
	}
	if out.Checks == 0 {
		res.Error("the program that uses the generated code checked nothing")
	}
	res.Count("generations-built", len(cases))
	res.Count("checks", out.Checks)
	byID := map[int]*genCase{}
	for _, c := range cases {
		byID[c.ID] = c
	}
	sort.SliceStable(out.Problems, func(i, j int) bool { return out.Problems[i].Case < out.Problems[j].Case })
	for _, p := range out.Problems {
		c := byID[p.Case]
		res.Fail("G01", p.Key, fmt.Sprintf("step %d: %s", c.Step, p.Msg), c.Step, c.Beh)
	}
}
