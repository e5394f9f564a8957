package harness

import (
	"fmt"
	"reflect"
	"strings"
	"sync"
	"testing"

	"github.com/effective-security/xdb/schema"
	"github.com/effective-security/xdb/xsql"
)

func newDescs() []*schema.TableInfo {
	return []*schema.TableInfo{
		{Schema: "public", Name: "users", SchemaName: "public.users", PrimaryKey: "id", Columns: []string{"id", "name", "email"}, Dialect: xsql.Postgres},
		{Schema: "hr", Name: "users", SchemaName: "hr.users", PrimaryKey: "id", Columns: []string{"id", `"order"`, "name"}, Dialect: xsql.SQLServer},
		{Schema: "public", Name: "users", SchemaName: "public.users", Columns: []string{"name", "zone"}, Dialect: xsql.NoDialect},
	}
}

// sqlWords is the text with one form of white space.
func sqlWords(q string) string {
	q = strings.Join(strings.Fields(q), " ")
	for _, c := range []string{",", "=", "(", ")"} {
		q = strings.ReplaceAll(strings.ReplaceAll(q, " "+c, c), c+" ", c)
	}
	return q
}

func numbered(q, dial string) string {
	if dial != "postgres" {
		return q
	}
	for i := 1; strings.Contains(q, "?"); i++ {
		q = strings.Replace(q, "?", fmt.Sprintf("$%d", i), 1)
	}
	return q
}

type descRun struct {
	d []*schema.TableInfo
	s map[int]xsql.Builder
}

func (x *descRun) nulls(r Rec, full bool) (m map[string]bool, same func() bool) {
	want := map[string]bool{}
	for _, c := range r.SL("nulls") {
		want[c] = true
	}
	if full {
		// columns that are said not to be NULL
		for _, c := range []string{"id", "name", "email", `"order"`, "zone"} {
			want[c] = want[c]
		}
	}
	if len(want) == 0 {
		return nil, func() bool { return true }
	}
	m = map[string]bool{}
	for k, v := range want {
		m[k] = v
	}
	return m, func() bool { return reflect.DeepEqual(m, want) }
}

func (x *descRun) text(b xsql.Builder, r Rec) string {
	want := sqlWords(numbered(r.S("text"), r.S("dial")))
	if got := sqlWords(b.String()); got != want {
		return fmt.Sprintf("the statement is %q instead of %q", got, want)
	}
	if got, want := js(append([]any{}, b.Args()...)), js(append([]int{}, r.IL("args")...)); got != want {
		return fmt.Sprintf("the arguments are %s instead of %s", got, want)
	}
	return ""
}

func (x *descRun) apply(n int, r Rec) string {
	i := 0
	if r.Has("i") {
		i = r.I("i")
	}
	var d *schema.TableInfo
	if r.Has("d") {
		d = x.d[r.I("d")-1]
	}
	switch op := r.S("op"); op {
	case "Begin":
		var b xsql.Builder
		ok := true
		switch r.S("k") {
		case "select":
			cols := r.SL("cols")
			given := append([]string{}, cols...)
			b = d.Select(cols...)
			ok = reflect.DeepEqual(given, append([]string{}, cols...))
		case "aliased":
			m, same := x.nulls(r, n%2 == 1)
			b = d.SelectAliased(r.S("p"), m)
			ok = same()
		case "from":
			b = d.From()
		case "update":
			b = d.Update()
		case "insert":
			b = d.InsertInto()
		case "delete":
			b = d.DeleteFrom()
		}
		x.s[i] = b
		if !ok {
			return "what was passed is changed"
		}
	case "Where":
		x.s[i].Where(r.S("c")+" > ?", r.I("m"))
	case "Set":
		x.s[i].Set(r.S("c"), r.I("m"))
	case "Col":
		x.s[i].Select(r.S("c"))
	case "Ret":
		x.s[i].Returning(r.S("c"))
	case "Text":
		return x.text(x.s[i], r)
	case "Close":
		x.s[i].Close()
		delete(x.s, i)
	case "Columns":
		m, same := x.nulls(r, n%2 == 1)
		if got := sqlWords(d.AllColumns()); got != sqlWords(r.S("all")) {
			return fmt.Sprintf("AllColumns is %q instead of %q", got, r.S("all"))
		}
		if got := sqlWords(d.AliasedColumns(r.S("p"), m)); got != sqlWords(r.S("text")) {
			return fmt.Sprintf("AliasedColumns(%q, %v) is %q instead of %q", r.S("p"), m, got, r.S("text"))
		}
		if !same() {
			return "what was passed is changed"
		}
	case "Change":
		c := r.S("c")
		switch r.S("how") {
		case "append":
			d.Columns = append(d.Columns, c)
		case "replace":
			d.Columns[0] = c
		case "drop":
			d.Columns = d.Columns[:len(d.Columns)-1]
		case "rename":
			d.SchemaName = "moved." + c
		}
	case "End":
		for j, t := range r.RL("texts") {
			if t.S("text") != "" {
				if msg := x.text(x.s[j+1], t); msg != "" {
					return msg
				}
			}
		}
		for j, t := range r.RL("descs") {
			if x.d[j].SchemaName != t.S("tab") || js(x.d[j].Columns) != js(t.SL("cols")) {
				return fmt.Sprintf("description %d is %s %v instead of %s", j+1, x.d[j].SchemaName, x.d[j].Columns, js(t))
			}
		}
		for j, b := range x.s {
			b.Close()
			delete(x.s, j)
		}
	default:
		panic(HarnessError("op " + op))
	}
	return ""
}

func (x *descRun) run(beh []Rec) (n int, msg string) {
	for n, r := range beh {
		if cp := guard(func() { msg = x.apply(n, r) }); cp != nil {
			msg = fmt.Sprintf("panics: %v at %s", cp.val, cp.stack)
		}
		if msg != "" {
			return n, fmt.Sprintf("%s: %s", js(r), msg)
		}
	}
	return 0, ""
}

// TestDesc replays the behaviours of Desc.tla, each on its own descriptions.
func TestDesc(t *testing.T) {
	Replay(t, "D01", func(res *Result, i int, beh []Rec) {
		x := &descRun{newDescs(), map[int]xsql.Builder{}}
		if n, msg := x.run(beh); msg != "" {
			res.Fail("D01", "desc", msg, n, beh)
			return
		}
		res.AddCase(beh, len(beh) > 2, len(beh))
	})
}

// TestDescShared replays behaviours side by side on the same descriptions.
func TestDescShared(t *testing.T) {
	res := newResult(t.Name())
	behs := readBehaviours(t, "BEH")
	shared := newDescs()
	const workers = 8
	var mu sync.Mutex
	var wg sync.WaitGroup
	for w := range workers {
		wg.Go(func() {
			for i := w; i < len(behs); i += workers {
				x := &descRun{shared, map[int]xsql.Builder{}}
				n, msg := x.run(behs[i])
				mu.Lock()
				if msg != "" {
					res.Fail("D01", "shared", "side by side: "+msg, n, behs[i])
					mu.Unlock()
					return
				}
				res.AddCase(behs[i], len(behs[i]) > 2, len(behs[i]))
				mu.Unlock()
			}
		})
	}
	wg.Wait()
	if !reflect.DeepEqual(shared, newDescs()) {
		res.Fail("D01", "shared", "the descriptions are changed", -1, behs[0])
	}
	if len(behs) > 0 {
		res.Sample(behs[0])
	}
	res.Done = true
	res.Write(t)
}
