package harness

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/effective-security/xdb/xsql"
)

var dialects = map[string]xsql.SQLDialect{"none": xsql.NoDialect, "postgres": xsql.Postgres, "sqlserver": xsql.SQLServer}

// expText joins the tokens of the specification. Literal text is widened to
// non-ASCII characters where the specification says "@@".
func expText(toks []string) string {
	return strings.ReplaceAll(strings.Join(toks, ""), "@@", "日本é€😀")
}

type bindRow struct {
	ID   int64  `db:"b_id,int8,primary"`
	Name string `db:"b_name,varchar,max:64"`
	BindInner
}

// BindInner is exported, so that it can be addressed through reflection
type BindInner struct {
	Note string `db:"b_note"`
	Skip string
}

// lineage is what was called on one statement, including on the statement it
// was cloned from and on the statements embedded in it.
type lineage struct{ ops []lineageOp }
type lineageOp struct {
	r   Rec
	sub *lineage
}

// flatten writes the program that builds a statement from scratch in slot i.
func (l *lineage) flatten(i int, next *int, out *[]Rec) {
	for _, o := range l.ops {
		r := Rec{}
		for k, v := range o.r {
			r[k] = v
		}
		r["i"] = json.Number(fmt.Sprint(i))
		if o.sub != nil {
			*next++
			j := *next
			o.sub.flatten(j, next, out)
			r["j"] = json.Number(fmt.Sprint(j))
		}
		*out = append(*out, r)
	}
}

type builderRun struct {
	lin   map[int]*lineage
	blind bool   // observe only
	got   looked // what was observed last
	beh   []Rec
	tag   string // distinguishes names of this run
	st    map[int]xsql.Builder
	row   map[int]xsql.Row
	dests map[string]any
	seen  int // statements looked at
}

func (b *builderRun) frag(k string, m int, part string) (string, []any) {
	t := fmt.Sprint(m) + part
	f, a := "f"+t, "a"+t
	switch k {
	case "plain":
		return f, nil
	case "one":
		return f + "=?", []any{a}
	case "two":
		return f + "(?, ?)", []any{a + "x", a + "y"}
	case "adj":
		return "??" + f, []any{a + "x", a + "y"}
	case "esc":
		return f + `\?g`, nil
	case "esc1":
		return f + `\?\??\?`, []any{a}
	case "back":
		return f + ` ~ '\d\\' ?`, []any{a}
	case "multi":
		return f + "->'?'" + expText([]string{"@@"}), []any{a}
	case "x", "cx":
		return k, nil
	case "xx":
		return "x x", nil
	case "xq":
		return "x?", []any{a}
	case "xe":
		return `x\?`, nil
	case "space":
		return f + "  +\t?\n  x", []any{a}
	}
	panic(HarnessError("fragment " + k))
}

func (b *builderRun) name(s string) string {
	if s == "" {
		return ""
	}
	return b.tag + s
}

// recExec records what an executor receives.
type recExec struct {
	sql  string
	args []any
	n    int
	fail bool
}

var errExec = errors.New("exec refused")

func (e *recExec) ExecContext(ctx context.Context, q string, args ...any) (sql.Result, error) {
	e.n, e.sql, e.args = e.n+1, q, append([]any{}, args...)
	if e.fail {
		return nil, errExec
	}
	return driver.RowsAffected(1), nil
}
func (e *recExec) QueryContext(ctx context.Context, q string, args ...any) (*sql.Rows, error) {
	e.n, e.sql, e.args = e.n+1, q, append([]any{}, args...)
	return nil, errExec
}
func (e *recExec) QueryRowContext(ctx context.Context, q string, args ...any) *sql.Row {
	e.n, e.sql, e.args = e.n+1, q, append([]any{}, args...)
	return sharedNop.QueryRowContext(ctx, q)
}

var sharedNop = nopDB()

type builderMismatch struct {
	kinds []string
	slot  int
	msg   string
}

func mm(slot int, msg string, kinds ...string) *builderMismatch {
	return &builderMismatch{kinds, slot, msg}
}

// looked is one observation of a statement.
type looked struct {
	Text  string
	Args  []string
	Dest  []string
	Name  string
	Panic string
	Hit   bool // rendered under a name cached before, says the specification
}

var (
	reDollar = regexp.MustCompile(`\$\d+`)
	reSpaces = regexp.MustCompile(`\s+`)
)

var (
	rePlace = regexp.MustCompile(`\\\?|\?|\$\d+`)
	reWord  = regexp.MustCompile(`[a-zA-Z]+[0-9a-zA-Z]*`)
)

// pairs lists each placeholder of a text, named by the word in front of it,
// with its argument. numbered: the placeholders are $n, a question mark is text.
func pairs(text string, args []string, numbered bool) (out []string, count int) {
	for _, m := range rePlace.FindAllStringIndex(text, -1) {
		p := text[m[0]:m[1]]
		if p == `\?` || numbered == (p == "?") {
			continue
		}
		w := reWord.FindAllString(reDollar.ReplaceAllString(text[:m[0]], "#"), -1)
		word := ""
		if len(w) > 0 {
			word = w[len(w)-1]
		}
		arg := "none"
		if count < len(args) {
			arg = args[count]
		}
		out = append(out, word+"="+arg)
		count++
	}
	sort.Strings(out)
	return out, count
}

// classify names the properties a wrong text or argument list is about.
func classify(want, got string, wantArgs, gotArgs []string, numbered bool) (out []string) {
	norm := func(s string) string {
		s = reDollar.ReplaceAllString(s, "?")
		return strings.ReplaceAll(s, `\?`, "?")
	}
	wp, _ := pairs(want, wantArgs, numbered)
	gp, n := pairs(got, gotArgs, numbered)
	same := norm(want) == norm(got)
	if !same {
		out = append(out, "B02")
	}
	// numbering and escapes: $1, $2, ... in Postgres, none and escapes untouched elsewhere
	dollars := reDollar.FindAllString(got, -1)
	bad := same && want != got || !numbered && len(dollars) > 0 || numbered && strings.Contains(got, `\?`)
	for i, d := range dollars {
		bad = bad || numbered && d != fmt.Sprintf("$%d", i+1)
	}
	if bad {
		out = append(out, "B03")
	}
	if n != len(gotArgs) || strings.Join(wp, "|") != strings.Join(gp, "|") || same && strings.Join(wantArgs, "|") != strings.Join(gotArgs, "|") {
		// with broken numbering the placeholders cannot be found: the text itself is the defect
		if !bad || same && strings.Join(wantArgs, "|") != strings.Join(gotArgs, "|") {
			out = append(out, "B01")
		}
	}
	if len(out) == 0 && want != got {
		out = append(out, "B02")
	}
	return out
}

func (b *builderRun) label(d any) string {
	for k, p := range b.dests {
		if p == d {
			return k
		}
	}
	return "unknown"
}

func (b *builderRun) compare(i int, exp Rec, text string, args, dest []any, name string) *builderMismatch {
	b.seen++
	g := looked{Text: text, Name: strings.TrimPrefix(name, b.tag), Args: []string{}, Dest: []string{}}
	for _, a := range args {
		g.Args = append(g.Args, fmt.Sprint(a))
	}
	for _, d := range dest {
		g.Dest = append(g.Dest, b.label(d))
	}
	b.got = g
	if exp == nil || b.blind {
		return nil
	}
	want := expText(exp.SL("text"))
	fresh := expText(exp.SL("fresh"))
	b.got.Hit = fresh != "" && fresh != want
	wa, wd := exp.SL("args"), exp.SL("dest")
	var kinds []string
	if text != want || strings.Join(wa, "|") != strings.Join(g.Args, "|") {
		kinds = classify(want, text, wa, g.Args, exp.S("dialect") == "postgres")
	}
	if strings.Join(wd, "|") != strings.Join(g.Dest, "|") && !contains(kinds, "B01") {
		kinds = append(kinds, "B01")
	}
	if name != b.name(exp.S("name")) {
		kinds = append(kinds, "B04")
	}
	if len(kinds) == 0 {
		return nil
	}
	return mm(i, fmt.Sprintf("statement %d (%s) renders\n%q with %v to %v named %q, the specification says\n%q with %v to %v named %q",
		i, exp.S("dialect"), text, g.Args, g.Dest, name, want, wa, wd, b.name(exp.S("name"))), kinds...)
}

func contains(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// begin sets what a statement depends on when it is made alone.
func (b *builderRun) begin(r Rec) {
	if b.blind {
		d := dialects[r.S("dialect")]
		d.UseNewLines(r.B("nl"))
		xsql.SetDialect(d)
	}
}

// step performs one call; a mismatch ends the behaviour.
func (b *builderRun) step(r Rec) *builderMismatch {
	op, m := r.S("op"), r.I("m")
	ctx := context.Background()
	if op == "Final" {
		for k, s := range r.RL("all") {
			if s.B("live") {
				q := b.st[k+1]
				e := s.R("exp")
				if len(e.L("text")) == 0 {
					continue // nothing but an empty statement
				}
				if x := b.compare(k+1, e, q.String(), q.Args(), q.Dest(), q.Name()); x != nil {
					return x
				}
			}
		}
		for k, s := range r.RL("all") {
			if s.B("live") {
				b.st[k+1].Close()
				delete(b.st, k+1)
			}
		}
		return nil
	}
	i := r.I("i")
	q := b.st[i]
	frag := func() (string, []any) { return b.frag(r.S("k"), m, "") }
	one := func() string { f, _ := frag(); return f }
	chain := func(x xsql.Builder) *builderMismatch {
		if m%2 == 0 { // callers may go on with either
			b.st[i] = x
		}
		return nil
	}
	var exp Rec
	if !b.blind {
		b.log(op, r, i)
		if r.Has("exp") {
			exp = r.R("exp")
		}
	}
	switch op {
	case "Start":
		d := dialects[r.S("dialect")]
		f, a := frag()
		b.begin(r)
		// the functions of the package use the default dialect
		top := r.B("top")
		switch r.S("how") {
		case "Select":
			if top {
				b.st[i] = xsql.Select(f, a...)
			} else {
				b.st[i] = d.Select(f, a...)
			}
		case "From":
			if top {
				b.st[i] = xsql.From(f, a...)
			} else {
				b.st[i] = d.From(f, a...)
			}
		case "New":
			if top {
				b.st[i] = xsql.New(f, a...)
			} else {
				b.st[i] = d.New(f, a...)
			}
		case "Update":
			if top {
				b.st[i] = xsql.Update(f)
			} else {
				b.st[i] = d.Update(f)
			}
		case "DeleteFrom":
			if top {
				b.st[i] = xsql.DeleteFrom(f)
			} else {
				b.st[i] = d.DeleteFrom(f)
			}
		case "InsertInto":
			if top {
				b.st[i] = xsql.InsertInto(f)
			} else {
				b.st[i] = d.InsertInto(f)
			}
		}
		delete(b.row, i)
	case "StartWith":
		j := r.I("j")
		d := dialects[r.S("dialect")]
		b.begin(r)
		if r.B("top") {
			b.st[i] = xsql.With(fmt.Sprintf("p%d", m), b.st[j])
		} else {
			b.st[i] = d.With(fmt.Sprintf("p%d", m), b.st[j])
		}
		delete(b.st, j)
		delete(b.row, i)
	case "Select":
		f, a := frag()
		return chain(q.Select(f, a...))
	case "From":
		f, a := frag()
		return chain(q.From(f, a...))
	case "Where":
		f, a := frag()
		return chain(q.Where(f, a...))
	case "Having":
		f, a := frag()
		return chain(q.Having(f, a...))
	case "Expr":
		f, a := frag()
		return chain(q.Expr(f, a...))
	case "Clause":
		f, a := frag()
		return chain(q.Clause(f, a...))
	case "GroupBy":
		return chain(q.GroupBy(one()))
	case "OrderBy":
		return chain(q.OrderBy(one()))
	case "OrderBy2":
		return chain(q.OrderBy(one(), fmt.Sprintf("f%dz", m)))
	case "Returning":
		return chain(q.Returning(one()))
	case "Update":
		return chain(q.Update(one()))
	case "DeleteFrom":
		return chain(q.DeleteFrom(one()))
	case "InsertInto":
		return chain(q.InsertInto(one()))
	case "Set":
		return chain(q.Set(fmt.Sprintf("f%dc", m), fmt.Sprintf("a%d", m)))
	case "SetExpr":
		f, a := frag()
		return chain(q.SetExpr(fmt.Sprintf("f%dc", m), f, a...))
	case "NewRow":
		b.row[i] = q.NewRow()
	case "RowSet":
		b.row[i].Set(fmt.Sprintf("f%dc", m), fmt.Sprintf("a%d", m))
	case "RowSetExpr":
		f, a := frag()
		b.row[i].SetExpr(fmt.Sprintf("f%dc", m), f, a...)
	case "In":
		var a []any
		for k := 1; k <= r.I("cnt"); k++ {
			a = append(a, fmt.Sprintf("a%di%d", m, k))
		}
		return chain(q.In(a...))
	case "Join":
		t, on := fmt.Sprintf("t%d", m), fmt.Sprintf("c%d", m)
		switch r.S("kind") {
		case "JOIN":
			return chain(q.Join(t, on))
		case "LEFT JOIN":
			return chain(q.LeftJoin(t, on))
		case "RIGHT JOIN":
			return chain(q.RightJoin(t, on))
		default:
			return chain(q.FullJoin(t, on))
		}
	case "Limit":
		return chain(q.Limit(fmt.Sprintf("a%d", m)))
	case "Offset":
		return chain(q.Offset(fmt.Sprintf("a%d", m)))
	case "Paginate":
		return chain(q.Paginate(r.I("page"), r.I("size")))
	case "To":
		var d []any
		for k := 1; k <= r.I("cnt"); k++ {
			p := new(string)
			b.dests[fmt.Sprintf("d%di%d", m, k)] = p
			d = append(d, p)
		}
		return chain(q.To(d...))
	case "Bind":
		x := &bindRow{}
		b.dests[fmt.Sprintf("b%d.id", m)] = &x.ID
		b.dests[fmt.Sprintf("b%d.name", m)] = &x.Name
		b.dests[fmt.Sprintf("b%d.note", m)] = &x.BindInner.Note
		return chain(q.Bind(x))
	case "Lines":
		return chain(q.UseNewLines(r.B("on")))
	case "Invalidate":
		q.Invalidate()
	case "SetName":
		return chain(q.SetName(b.name(r.S("name"))))
	case "SubQuery":
		x := chain(q.SubQuery(fmt.Sprintf("p%d IN (", m), ")", b.st[r.I("j")]))
		delete(b.st, r.I("j"))
		return x
	case "Bare":
		x := chain(q.SubQuery("", "", b.st[r.I("j")]))
		delete(b.st, r.I("j"))
		return x
	case "With":
		x := chain(q.With(fmt.Sprintf("p%d", m), b.st[r.I("j")]))
		delete(b.st, r.I("j"))
		return x
	case "Union", "UnionAll":
		x := chain(q.Union(op == "UnionAll", b.st[r.I("j")]))
		delete(b.st, r.I("j"))
		return x
	case "Clone":
		b.st[r.I("j")] = q.Clone()
		delete(b.row, r.I("j"))
		if b.st[r.I("j")] == q {
			return mm(i, "Clone returns its statement", "B04")
		}
	case "String", "Close":
		x := b.compare(i, exp, q.String(), q.Args(), q.Dest(), q.Name())
		if op == "Close" {
			q.Close()
			delete(b.st, i)
		}
		return x
	case "Exec", "ExecAndClose", "Query", "QueryAndClose", "QueryRow", "QueryRowAndClose":
		e := &recExec{fail: m%2 == 0}
		dest := append([]any{}, q.Dest()...)
		name := q.Name()
		var err error
		switch op {
		case "Exec":
			_, err = q.Exec(ctx, e)
		case "ExecAndClose":
			_, err = q.ExecAndClose(ctx, e)
		case "Query":
			e.fail = true
			err = q.Query(ctx, e, nil)
		case "QueryAndClose":
			e.fail = true
			err = q.QueryAndClose(ctx, e, nil)
		case "QueryRow":
			err = q.QueryRow(ctx, e)
		case "QueryRowAndClose":
			err = q.QueryRowAndClose(ctx, e)
		}
		if strings.HasSuffix(op, "AndClose") {
			delete(b.st, i)
		}
		if e.n != 1 {
			return mm(i, fmt.Sprintf("%s runs the statement %d times", op, e.n), "E02")
		}
		if e.fail && !strings.HasPrefix(op, "QueryRow") && !errors.Is(err, errExec) {
			return mm(i, fmt.Sprintf("%s does not report the failure of the executor: %v", op, err), "E01")
		}
		return b.compare(i, exp, e.sql, e.args, dest, name)
	case "GetOrCreate":
		calls := 0
		d := q
		nm := b.name(r.S("name"))
		dia := dialects[r.S("dialect")]
		text, key := dia.GetOrCreateQuery(nm, func(n string) xsql.Builder {
			calls++
			if n != nm {
				calls += 100
			}
			return d
		})
		want := expText(r.R("exp").SL("text"))
		wantCalls := 0
		if r.B("built") {
			wantCalls = 1
		}
		if b.blind {
			return b.compare(i, nil, text, nil, nil, nm)
		}
		if text != want && wantCalls == 1 {
			// built now: the text is the statement's own
			b.got = looked{Text: text, Name: r.S("name"), Args: []string{}, Dest: []string{}}
			return mm(i, fmt.Sprintf("GetOrCreateQuery(%q) renders\n%q, the specification says\n%q", nm, text, want), "B02")
		}
		if text != want || key != nm {
			return mm(i, fmt.Sprintf("GetOrCreateQuery(%q) gives\n%q under %q, the specification says\n%q", nm, text, key, want), "B05")
		}
		if calls != wantCalls {
			return mm(i, fmt.Sprintf("GetOrCreateQuery(%q) builds the statement %d times instead of %d", nm, calls, wantCalls), "B05")
		}
	case "Peek":
		text, ok := dialects[r.S("dialect")].GetCachedQuery(b.name(r.S("name")))
		if ok != r.B("found") || text != expText(r.R("exp").SL("text")) {
			return mm(i, fmt.Sprintf("the query cached as %s in %s is %q (%v), the specification says %q (%v)", r.S("name"), r.S("dialect"), text, ok, expText(r.R("exp").SL("text")), r.B("found")), "B05")
		}
	case "Default":
		xsql.SetDialect(dialects[r.S("dialect")])
	case "DialectLines":
		if r.B("top") {
			if xsql.UseNewLines(r.B("on")) != dialects[r.S("dialect")] {
				return mm(0, fmt.Sprintf("the default dialect is not %s", r.S("dialect")), "B02")
			}
		} else {
			dialects[r.S("dialect")].UseNewLines(r.B("on"))
		}
	case "Put":
		dialects[r.S("dialect")].PutCachedQuery(b.name(r.S("name")), r.S("text"))
	default:
		panic(HarnessError("op " + op))
	}
	return nil
}

func newBuilderRun(beh []Rec, tag string) *builderRun {
	return &builderRun{beh: beh, tag: tag, st: map[int]xsql.Builder{}, row: map[int]xsql.Row{}, dests: map[string]any{}, lin: map[int]*lineage{}}
}

// log keeps the lineage of every statement.
func (b *builderRun) log(op string, r Rec, i int) {
	switch op {
	case "Peek", "Put", "Default", "DialectLines":
	case "Start":
		b.lin[i] = &lineage{ops: []lineageOp{{r, nil}}}
	case "StartWith":
		b.lin[i] = &lineage{ops: []lineageOp{{r, b.lin[r.I("j")]}}}
	case "Clone":
		b.lin[r.I("j")] = &lineage{ops: append([]lineageOp{}, b.lin[i].ops...)}
	case "SubQuery", "Bare", "With", "Union", "UnionAll":
		b.lin[i].ops = append(b.lin[i].ops, lineageOp{r, b.lin[r.I("j")]})
	default:
		b.lin[i].ops = append(b.lin[i].ops, lineageOp{r, nil})
	}
}

// run returns the mismatch and its step
func (b *builderRun) run() (*builderMismatch, int) {
	for n, r := range b.beh {
		var x *builderMismatch
		cp := guard(func() { x = b.step(r) })
		if cp != nil {
			b.got = looked{Panic: fmt.Sprint(cp.val)}
			slot := 0
			if r.Has("i") {
				slot = r.I("i")
			}
			return mm(slot, fmt.Sprintf("%s panics: %v at %s", r.S("op"), cp.val, cp.stack), "B01", "B02", "B03"), n
		}
		if x != nil {
			return x, n
		}
	}
	return nil, 0
}

// alone repeats everything that was called on one statement, and nothing
// else, in a process of its own.
func (b *builderRun) alone(slot int) looked {
	l := b.lin[slot]
	if l == nil {
		return looked{}
	}
	var prog []Rec
	next := 1
	l.flatten(1, &next, &prog)
	f, err := os.CreateTemp(env("HARNESS_TMP", os.TempDir()), "alone")
	if err != nil {
		panic(HarnessError(err.Error()))
	}
	defer os.Remove(f.Name())
	_, _ = f.WriteString(js(prog) + "\n")
	f.Close()
	c := exec.Command(os.Args[0], "-test.run", "^TestBuilderAlone$")
	c.Env = append(os.Environ(), "BEH="+f.Name(), "ALONE_OUT="+f.Name()+".out")
	defer os.Remove(f.Name() + ".out")
	out, err := c.CombinedOutput()
	data, err2 := os.ReadFile(f.Name() + ".out")
	var g looked
	if err2 != nil || json.Unmarshal(data, &g) != nil {
		panic(HarnessError(fmt.Sprintf("alone: %v %s", err, out)))
	}
	return g
}

// TestBuilderAlone runs one program and reports what its first statement is at the end.
func TestBuilderAlone(t *testing.T) {
	if os.Getenv("ALONE_OUT") == "" {
		t.Skip("ALONE_OUT not set")
	}
	beh := readBehaviours(t, "BEH")[0]
	b := newBuilderRun(beh, "alone_")
	b.blind = true
	_, n := b.run()
	if b.got.Panic == "" {
		if q := b.st[1]; q != nil {
			cp := guard(func() { b.compare(1, nil, q.String(), q.Args(), q.Dest(), q.Name()) })
			if cp != nil {
				b.got = looked{Panic: fmt.Sprint(cp.val)}
			}
		}
	} else if n != len(beh)-1 {
		b.got.Panic += " early"
	}
	if err := os.WriteFile(os.Getenv("ALONE_OUT"), []byte(js(b.got)), 0o644); err != nil {
		t.Fatal(err)
	}
}

// report decides which property a mismatch is about. The statements of B04
// and B05 (independence of other statements, of the cache) are broken only if
// the statement is different when it is made alone.
func (b *builderRun) report(res *Result, prop, key string, x *builderMismatch, n int, beh []Rec) {
	kinds := x.kinds
	if (prop == "B04" || prop == "B05") && !contains(kinds, prop) && x.slot > 0 && !contains(kinds, "E01") && !contains(kinds, "E02") {
		g := b.got
		if prop == "B05" && g.Hit {
			kinds = []string{"B05"}
		} else {
			a := b.alone(x.slot)
			if a.Text != g.Text || strings.Join(a.Args, "|") != strings.Join(g.Args, "|") || strings.Join(a.Dest, "|") != strings.Join(g.Dest, "|") || a.Name != g.Name || a.Panic != g.Panic {
				if prop == "B04" || a.Text != g.Text {
					kinds = []string{prop}
				}
				x.msg += fmt.Sprintf("; made alone it is\n%q with %v to %v %s", a.Text, a.Args, a.Dest, a.Panic)
			}
		}
	}
	for _, k := range kinds {
		res.Fail(k, key, x.msg, n, beh)
	}
}

// TestBuilder replays programs; BUILDER_PROP is the property they are about.
func TestBuilder(t *testing.T) {
	prop := env("BUILDER_PROP", "")
	defaults := func() {
		xsql.SetDialect(xsql.NoDialect)
		for _, d := range dialects {
			d.UseNewLines(true)
		}
	}
	defer defaults()
	Replay(t, env("BUILDER_PROP", "B02"), func(res *Result, i int, beh []Rec) {
		defaults()
		b := newBuilderRun(beh, fmt.Sprintf("n%d_", i))
		x, n := b.run()
		if x != nil {
			b.report(res, prop, "render", x, n, beh)
		}
		res.Count("looks", b.seen)
		res.AddCase(beh, b.seen > 0 && len(beh) > 3, len(beh))
	})
}

// TestBuilderPar replays programs in several goroutines at once (B04).
func TestBuilderPar(t *testing.T) {
	prop := env("BUILDER_PROP", "B04")
	res := newResult(t.Name())
	behs := readBehaviours(t, "BEH")
	const G = 8
	var wg sync.WaitGroup
	for g := 0; g < G; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for k := range behs {
				i := (k + g*len(behs)/G) % len(behs)
				b := newBuilderRun(behs[i], fmt.Sprintf("g%d_%d_", g, i))
				x, n := b.run()
				if x != nil {
					x.msg = fmt.Sprintf("with %d goroutines building statements: %s", G, x.msg)
					b.report(res, prop, "concurrent", x, n, behs[i])
				}
				res.AddCase(Rec{"g": g, "i": i}, true, len(behs[i]))
			}
		}(g)
	}
	wg.Wait()
	res.Sample(behs[0])
	res.Done = true
	res.Write(t)
}
