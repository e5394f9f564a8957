package harness

import (
	"bytes"
	"context"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"
)

// toolCatalogs are the databases of Tool.tla: tables and views by schema and
// name; a table refers to others by their names.
var toolCatalogs = map[string][]string{
	"A/alpha": {"hr.orgs", "hr.zones>hr.orgs", "public.users>hr.orgs,hr.zones", "(public.v_users)"},
	"A/beta":  {"public.items"},
	"B/alpha": {"public.others", "public.users>public.others", "(hr.v_two)", "(public.v_one)"},
	"B/gamma": {"public.users"},
}

func toolCatalog(objs []string) Rec {
	no := map[string]int{}
	tables, views, fks := []any{}, []any{}, []any{}
	col := func(n string, pos int) any {
		return map[string]any{"name": n, "type": "bigint", "udt": "int8", "nul": "NO", "len": -1, "pos": pos}
	}
	for i, o := range objs {
		name, refs, _ := strings.Cut(strings.Trim(o, "()"), ">")
		s, n, _ := strings.Cut(name, ".")
		no[name] = i + 1
		r := map[string]any{"no": i + 1, "s": s, "n": n, "cols": []any{col("id", 1), col("r1", 2), col("r2", 3)}, "idx": []any{}}
		if o[0] == '(' {
			views = append(views, r)
			continue
		}
		tables = append(tables, r)
		r["idx"] = []any{map[string]any{"name": "pk", "primary": true, "unique": true, "cols": []any{"id"}}}
		if refs == "" {
			continue
		}
		for k, ref := range strings.Split(refs, ",") {
			fks = append(fks, map[string]any{"name": fmt.Sprintf("fk_%d_%d", i, k), "from": i + 1, "ref": ref, "pairs": []any{[]any{fmt.Sprintf("r%d", k+1), "id"}}})
		}
	}
	for _, k := range fks {
		m := k.(map[string]any)
		m["to"] = no[m["ref"].(string)]
		delete(m, "ref")
	}
	var rec Rec
	d := json.NewDecoder(strings.NewReader(js(map[string]any{"dialect": "postgres", "tables": tables, "views": views, "fks": fks})))
	d.UseNumber()
	if err := d.Decode(&rec); err != nil {
		panic(HarnessError(err.Error()))
	}
	return rec
}

// toolServers are the two servers.
type toolServers struct {
	s map[string]*wireServer
}

func newToolServers() *toolServers {
	ts := &toolServers{map[string]*wireServer{}}
	var mu sync.Mutex
	cats := map[string]*catalogDB{}
	for db, objs := range toolCatalogs {
		c := newCatalogDB()
		c.load(toolCatalog(objs))
		cats[db] = c
	}
	for _, name := range []string{"A", "B"} {
		s := newWireServer("postgres", "none")
		s.mu.Lock()
		s.dbs = map[string]bool{}
		for db := range toolCatalogs {
			if strings.HasPrefix(db, name+"/") {
				s.dbs[db[2:]] = true
			}
		}
		s.catalog = func(db, q string, args []driver.NamedValue) *FakeRows {
			mu.Lock()
			defer mu.Unlock()
			c := cats[name+"/"+db]
			r, err := c.evaluate(q, args)
			if err != nil {
				r = c.answer(q, args)
			}
			return r
		}
		s.mu.Unlock()
		ts.s[name] = s
	}
	return ts
}

// set scripts the failures of both servers.
func (ts *toolServers) set(fault string) {
	for _, s := range ts.s {
		s.mu.Lock()
		s.fault, s.nstmt, s.stmts, s.logins, s.catalogErr = fault, 0, nil, nil, ""
		s.mu.Unlock()
	}
}

func listOf(dir string) (files []string, text string, err error) {
	err = filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil || i.IsDir() {
			return err
		}
		b, err := os.ReadFile(p)
		files = append(files, p)
		text += string(b)
		return err
	})
	sort.Strings(files)
	return
}

// TestTool replays the behaviours of Tool.tla with the program built from the code.
func TestTool(t *testing.T) {
	repo := env("HARNESS_REPO", "/repo")
	dir := t.TempDir()
	bin := filepath.Join(dir, "xdbcli")
	b := exec.Command("go", "build", "-mod=readonly", "-o", bin, "./cmd/xdbcli")
	b.Dir = repo
	if out, err := b.CombinedOutput(); err != nil {
		t.Fatalf("the program does not build: %v %s", err, out)
	}
	ts := newToolServers()
	nrun := 0
	Replay(t, "C02", func(res *Result, bi int, beh []Rec) {
		for step, r := range beh {
			nrun++
			wd := filepath.Join(dir, fmt.Sprint("run", nrun))
			if err := os.Mkdir(wd, 0o755); err != nil {
				panic(HarnessError(err.Error()))
			}
			key, msg := ts.run(bin, wd, r)
			_ = os.RemoveAll(wd)
			if msg != "" {
				res.Fail("C02", key, fmt.Sprintf("step %d %s: %s", step, js(r), msg), step, beh)
				return
			}
		}
		res.AddCase(beh, len(beh) > 0, len(beh))
	})
}

func (ts *toolServers) run(bin, wd string, r Rec) (key, msg string) {
	fault := r.S("fault")
	disk := fault == "disk"
	switch fault {
	case "query":
		ts.set("stmt" + fmt.Sprint(r.I("at")))
	case "down":
		ts.set("drop")
	case "auth":
		ts.set("auth")
	default:
		ts.set("none")
	}
	source := func(name string) string {
		if name == "bad" {
			return "ftp://u:p@127.0.0.1/db"
		}
		path := r.S("inurl")
		if path == "none" {
			path = ""
		}
		return fmt.Sprintf("postgres://u%s:pw%s@%s/%s?sslmode=disable", name, name, ts.s[name].addr(), path)
	}
	var args []string
	if f := r.S("flag"); f != "none" {
		args = append(args, "--sql-source", source(f))
	}
	if o := r.S("o"); o != "none" {
		args = append(args, "--o="+o)
	}
	if r.B("debug") {
		args = append(args, "-D")
	}
	cmd := r.S("cmd")
	model, sch := filepath.Join(wd, "model"), filepath.Join(wd, "sch")
	switch cmd {
	case "help", "version":
		args = append(args, "--"+cmd)
	case "none":
	default:
		args = append(args, "schema", cmd)
	}
	if cmd != "help" && cmd != "version" && cmd != "none" {
		if d := r.S("db"); d != "none" {
			args = append(args, "--db", d)
		}
		if s := r.S("schema"); s != "none" {
			args = append(args, "--schema", s)
		}
		if cmd == "generate" {
			args = append(args, "--out-model", model, "--out-schema", sch)
		}
		if r.B("bad") {
			args = append(args, "--no-such-flag")
		}
	}
	full := ""
	var names []string
	for _, s := range []string{"", "hr_", "public_"} {
		for _, k := range []string{"model/" + s + "model.gen.go", "sch/" + s + "schema.gen.go"} {
			names = append(names, filepath.Join(wd, k))
		}
	}
	old := strings.Repeat("what an earlier run left }\n", 8000)
	stale := !disk && cmd == "generate" && r.I("at")%2 == 0
	if stale || (disk && cmd == "generate") {
		_ = os.Mkdir(model, 0o755)
		_ = os.Mkdir(sch, 0o755)
	}
	if stale {
		for _, n := range names {
			if err := os.WriteFile(n, []byte(old), 0o644); err != nil {
				panic(HarnessError(err.Error()))
			}
		}
	}
	if disk && cmd == "generate" {
		// a file that takes no data
		for i, n := range names {
			if i%2 == r.I("at")%2 {
				err := os.Symlink("/dev/full", n)
				if r.I("at") > 2 {
					// nor is it one that can be opened
					_ = os.Remove(n)
					err = os.Mkdir(n, 0o755)
				}
				if err != nil {
					panic(HarnessError(err.Error()))
				}
			}
		}
		full = names[r.I("at")%2]
	}
	ctx, stop := context.WithTimeout(context.Background(), 60*time.Second)
	defer stop()
	c := exec.CommandContext(ctx, bin, args...)
	c.Dir = wd
	c.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + wd, "TMPDIR=" + wd}
	if e := r.S("env"); e != "none" {
		c.Env = append(c.Env, "XDB_DATASOURCE="+source(e))
	}
	var out, eout bytes.Buffer
	c.Stdout, c.Stderr = &out, &eout
	err := c.Run()
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		panic(HarnessError("run: " + err.Error()))
	}
	if ctx.Err() != nil {
		return "hangs", fmt.Sprintf("%q does not end", args)
	}
	said := fmt.Sprintf("%q ended with %d, printed %.600q, said %.600q", args, c.ProcessState.ExitCode(), out.String(), eout.String())
	if strings.Contains(eout.String(), "goroutine ") && strings.Contains(eout.String(), "panic") {
		return "panic", said
	}
	want := r.R("want")
	ok := want.B("ok")
	var got []string
	for name, s := range ts.s {
		s.mu.Lock()
		if s.catalogErr != "" {
			e := s.catalogErr
			s.mu.Unlock()
			panic(HarnessError(e))
		}
		seen := map[string]bool{}
		for _, l := range s.logins {
			// a login may be tried again
			if k := name + "/" + l.Database; !seen[k] {
				seen[k] = true
				got = append(got, k)
			}
			if l.User != "u"+name || l.Password != "pw"+name {
				s.mu.Unlock()
				return "login", fmt.Sprintf("login as %s with %s at %s; %s", l.User, l.Password, name, said)
			}
		}
		if fault == "query" && s.nstmt >= r.I("at") {
			ok = false
		}
		s.mu.Unlock()
	}
	if full != "" && ok {
		for _, d := range []string{model, sch} {
			es, _ := os.ReadDir(d)
			for _, e := range es {
				// what was not to be written is not looked at
				if bad := e.IsDir() || e.Type()&os.ModeSymlink != 0; bad && !toolWrites(e.Name(), want) {
					_ = os.Remove(filepath.Join(d, e.Name()))
				} else if bad {
					ok = false
				}
			}
		}
	}
	sort.Strings(got)
	var logins []string
	for _, l := range want.L("login") {
		p := l.([]any)
		logins = append(logins, anyS(p[0])+"/"+anyS(p[1]))
	}
	if js(got) != js(logins) && len(got)+len(logins) > 0 {
		return "logins", fmt.Sprintf("logins %v instead of %v; %s", got, logins, said)
	}
	if (err == nil) != ok {
		return "exit", fmt.Sprintf("expected success %v; %s", ok, said)
	}
	if !ok {
		if eout.Len() == 0 {
			return "silent", "nothing is said about the failure; " + said
		}
		if stale {
			for _, n := range names {
				if b, err := os.ReadFile(n); err != nil || string(b) != old {
					return "files", fmt.Sprintf("file %s is changed by a run that failed: %v; %s", n, err, said)
				}
			}
		} else if full == "" {
			for _, d := range []string{model, sch} {
				if fs, _, err := listOf(d); err == nil && len(fs) > 0 {
					return "files", fmt.Sprintf("files %v are left by a run that failed; %s", fs, said)
				}
			}
		}
		return "", ""
	}
	if cmd == "help" || cmd == "version" {
		if out.Len()+eout.Len() == 0 {
			return "nothing", said
		}
		return "", ""
	}
	var shown []string
	o := r.S("o")
	switch {
	case cmd == "generate":
		text := ""
		for _, n := range names {
			// files of other schemas are left as they were
			if b, err := os.ReadFile(n); stale && !toolWrites(filepath.Base(n), want) {
				if err != nil || string(b) != old {
					return "files", fmt.Sprintf("file %s is changed: %v; %s", n, err, said)
				}
				_ = os.Remove(n)
			}
		}
		for _, d := range []string{model, sch} {
			fs, s, err := listOf(d)
			if err != nil || len(fs) == 0 {
				return "files", fmt.Sprintf("no files in %s: %v; %s", d, err, said)
			}
			for _, f := range fs {
				if _, err := parser.ParseFile(token.NewFileSet(), f, nil, 0); err != nil {
					return "files", fmt.Sprintf("%v; %s", err, said)
				}
			}
			text += s
		}
		for _, n := range want.SL("shown") {
			_, tab, _ := strings.Cut(n, ".")
			if !strings.Contains(text, `"`+tab+`"`) {
				return "files", fmt.Sprintf("the files have no %s; %s", n, said)
			}
		}
		return "", ""
	case o == "json" || o == "yaml":
		if cmd == "foreign-keys" {
			var ks []docKey
			err = decodeOne(o, out.String(), &ks)
			for _, k := range ks {
				shown = append(shown, k.Schema+"."+k.Table+">"+k.RefSchema+"."+k.RefTable)
			}
		} else {
			var tt []docTable
			err = decodeOne(o, out.String(), &tt)
			for _, x := range tt {
				shown = append(shown, x.Schema+"."+x.Name)
			}
		}
	case cmd == "tables" || cmd == "views":
		shown = strings.Fields(out.String())
	default:
		var bs []*textBlock
		bs, err = parseText(out.String())
		for _, b := range bs {
			if cmd == "foreign-keys" {
				for _, row := range b.rows {
					shown = append(shown, row[1]+"."+row[2]+">"+row[4]+"."+row[5])
				}
			} else if b.table != "" {
				shown = append(shown, b.schema+"."+b.table)
			}
		}
	}
	if err != nil {
		return "unreadable", fmt.Sprintf("%v; %s", err, said)
	}
	exp := want.SL("shown")
	sort.Strings(exp)
	sort.Strings(shown)
	if strings.Join(shown, "|") != strings.Join(exp, "|") {
		return "shown", fmt.Sprintf("%v is shown instead of %v; %s", shown, exp, said)
	}
	return "", ""
}

// toolWrites tells whether a run that shows these tables writes the file.
func toolWrites(file string, want Rec) bool {
	schemas := map[string]bool{}
	for _, n := range want.SL("shown") {
		s, _, _ := strings.Cut(n, ".")
		schemas[s] = true
	}
	if len(schemas) == 1 {
		return file == "model.gen.go" || file == "schema.gen.go"
	}
	s, _, _ := strings.Cut(file, "_")
	return schemas[s]
}
