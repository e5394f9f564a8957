package harness

import (
	"fmt"
	"strings"
	"testing"

	"github.com/effective-security/xdb/xsql"
)

// TestText renders statements whose texts are every sequence of letters.
func TestText(t *testing.T) {
	wide := func(q []string) string { return strings.ReplaceAll(strings.Join(q, ""), "@", "é日\U0001F600") }
	Replay(t, "B03", func(res *Result, i int, beh []Rec) {
		r := beh[0]
		form := r.S("form")
		s, u := wide(r.SL("s")), wide(r.SL("u"))
		sArgs, uArgs := make([]any, r.I("holes")), make([]any, r.I("more"))
		for k := range sArgs {
			sArgs[k] = k + 1
		}
		for k := range uArgs {
			uArgs[k] = len(sArgs) + k + 1
		}
		build := func(d xsql.SQLDialect) (xsql.Builder, func(s, u string) string) {
			switch form {
			case "one":
				return d.From("t").Select("x").Where(s, sArgs...), func(s, u string) string { return "SELECT x FROM t WHERE " + s }
			case "raw":
				return d.New(s, sArgs...), func(s, u string) string { return s }
			case "two":
				return d.From("t").Where(u, uArgs...).Select(s, sArgs...), func(s, u string) string { return "SELECT " + s + " FROM t WHERE " + u }
			case "union":
				return d.From("t").Select(s, sArgs...).Union(true, xsql.NoDialect.Select(u, uArgs...)), func(s, u string) string { return "SELECT " + s + " FROM t UNION ALL SELECT " + u }
			case "nested":
				return d.From("t").Select("x").Where(s, sArgs...).SubQuery("y IN (", ")", xsql.NoDialect.Select(u, uArgs...)), func(s, u string) string {
					return "SELECT x FROM t WHERE " + s + " AND y IN (SELECT " + u + ")"
				}
			}
			panic(HarnessError("form " + form))
		}
		for name, d := range map[string]xsql.SQLDialect{"none": xsql.NoDialect, "postgres": xsql.Postgres, "sqlserver": xsql.SQLServer} {
			var got, want string
			var args []any
			cp := guard(func() {
				b, layout := build(d)
				defer b.Close()
				want = layout(s, u)
				if name == "postgres" {
					want = layout(wide(r.SL("sp")), wide(r.SL("up")))
				}
				got = b.String()
				args = append([]any{}, b.Args()...)
			})
			switch {
			case cp != nil:
				res.Fail("B03", "text", fmt.Sprintf("%s %s %q %q: panics: %v at %s", name, form, s, u, cp.val, cp.stack), 0, beh)
				return
			case strings.ReplaceAll(got, " \n", " ") != want:
				res.Fail("B03", "text", fmt.Sprintf("%s %s: %q instead of %q", name, form, got, want), 0, beh)
				return
			case js(args) != js(append(append([]any{}, sArgs...), uArgs...)) && len(args)+len(sArgs)+len(uArgs) > 0:
				res.Fail("B03", "text", fmt.Sprintf("%s %s %q %q: the arguments are %v", name, form, s, u, args), 0, beh)
				return
			}
		}
		res.AddCase(beh, len(sArgs)+len(uArgs) > 0, 3)
	})
}
