package harness

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/effective-security/x/values"
	"github.com/effective-security/xdb"
)

// pageKey is the cursor key of row i; keys increase with i.
func pageKey(kind string, i int) any {
	switch kind {
	case "small":
		return int64(10 * i)
	case "big":
		return int64(1<<53) + int64(i)
	case "neg":
		return int64(-1<<62) + int64(i)
	case "text":
		return fmt.Sprintf("k%04d/+é\"\\<&>%%", i)
	case "pair":
		return [2]int64{1<<60 + int64(i/2), int64(i)}
	case "list":
		return [2]int64{1<<61 + int64(i/3), 1<<58 + int64(i)}
	}
	panic(HarnessError("key " + kind))
}

func keyLess(a, b any) bool {
	switch x := a.(type) {
	case int64:
		y, ok := b.(int64)
		return ok && x < y
	case string:
		y, ok := b.(string)
		return ok && x < y
	case [2]int64:
		y, ok := b.([2]int64)
		return ok && (x[0] < y[0] || x[0] == y[0] && x[1] < y[1])
	}
	panic(HarnessError(fmt.Sprintf("key %T", a)))
}

func encodeKey(kind string, k any) string {
	switch x := k.(type) {
	case [2]int64:
		if kind == "list" {
			return xdb.EncodeCursor(values.MapAny{"k": []any{x[0], x[1]}})
		}
		return xdb.EncodeCursor(values.MapAny{"g": x[0], "id": x[1]})
	default:
		return xdb.EncodeCursor(values.MapAny{"after": x})
	}
}

func decodeKey(kind, cur string) (any, error) {
	m, err := xdb.DecodeCursor(cur)
	if err != nil {
		return nil, err
	}
	switch kind {
	case "text":
		return m.String("after"), nil
	case "pair":
		return [2]int64{m.Int64("g"), m.Int64("id")}, nil
	case "list":
		l, ok := m["k"].([]any)
		if !ok || len(l) != 2 {
			return nil, fmt.Errorf("the list is lost: %v", m)
		}
		return [2]int64{values.Int64(l[0]), values.Int64(l[1])}, nil
	}
	return m.Int64("after"), nil
}

type keyRow struct {
	N int64
}

func (k *keyRow) ScanRow(r xdb.Row) error { return r.Scan(&k.N) }

type keySink struct {
	calls  int
	rows   []*keyRow
	more   bool
	next   uint32
	cursor func(*keyRow) string
}

func (p *keySink) SetResult(rows []*keyRow, hasNext bool, next uint32) {
	p.calls++
	p.rows, p.more, p.next = rows, hasNext, next
}
func (p *keySink) SetResultWithCursor(rows []*keyRow, hasNext bool, cursor func(*keyRow) string) {
	p.calls++
	p.rows, p.more, p.cursor = rows, hasNext, cursor
}

func anyInt(v any) int64 {
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return rv.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return int64(rv.Uint())
	}
	return math.MinInt64
}

// pageWalk follows one walk; it returns a description of the first difference.
func pageWalk(beh []Rec) string {
	cfg := beh[0]
	kind, style, key := cfg.S("kind"), cfg.S("style"), cfg.S("key")
	total, limit, start := cfg.I("total"), cfg.I("limit"), cfg.I("start")
	base := int64(0)
	if cfg.B("high") {
		base = math.MaxUint32 - int64(total) - 4
	}
	f := &FakeDB{}
	db := f.DB()
	defer db.Close()
	fail := false
	bad := ""
	f.OnQuery = func(c *FakeConn, q string, nv []driver.NamedValue) (*FakeRows, error) {
		if fail {
			return nil, errFault
		}
		var from, n int64
		n = int64(total)
		switch {
		case style == "bare" || style == "none":
			nv = append([]driver.NamedValue{{Value: "filter"}}, nv...)
		case len(nv) == 0 || nv[0].Value != "filter":
			bad = fmt.Sprintf("the first argument is lost: %v", nv)
		}
		switch {
		case style == "plain", style == "nopage", style == "none", style == "query", style == "queryparams":
			if len(nv) != 1 {
				bad = fmt.Sprintf("the query receives %d arguments: %v", len(nv), nv)
			}
		case len(nv) != 3:
			bad = fmt.Sprintf("the query receives %d arguments: %v", len(nv), nv)
			return nil, errFault
		case kind == "offset":
			l := anyInt(nv[1].Value)
			from = anyInt(nv[2].Value) - base
			if l > 0 && from+l < n {
				n = from + l
			}
		default:
			for from < n && !keyLess(nv[1].Value, pageKey(key, int(from)+1)) {
				from++
			}
			if l := anyInt(nv[2].Value); l > 0 && from+l < n {
				n = from + l
			}
		}
		r := &FakeRows{Cols: []string{"n"}}
		for i := from; i < n; i++ {
			r.Data = append(r.Data, []driver.Value{i + 1})
		}
		return r, nil
	}
	off := uint32(base + int64(start))
	last := pageKey(key, start)
	for k, p := range beh[1:] {
		fail = p.B("fail")
		sink := &keySink{}
		var args []any
		u, i := uint32(limit), limit
		switch kind + " " + style {
		case "offset params":
			args = []any{xdb.NewQueryParams("q").Set(0, "filter").SetPage(u, off)}
		case "offset args":
			args = []any{"filter", i, int(off)}
		case "offset argsu":
			args = []any{"filter", u, off}
		case "offset named":
			args = []any{"filter", sql.Named("limit", i), sql.Named("offset", off)}
		case "offset plain", "cursor plain", "offset query", "cursor query":
			args = []any{"filter"}
		case "offset none", "cursor none":
		case "offset bare":
			args = []any{i, off}
		case "cursor bare":
			args = []any{last, i}
		case "offset nopage", "cursor nopage", "offset queryparams", "cursor queryparams":
			args = []any{xdb.NewQueryParams("q").Set(0, "filter")}
		case "cursor params":
			args = []any{xdb.NewQueryParams("q").Set(0, "filter").SetCursor(u, 1, last)}
		case "cursor args":
			args = []any{"filter", last, i}
		case "cursor argsu":
			args = []any{"filter", last, u}
		case "cursor named":
			args = []any{"filter", sql.Named("after", last), sql.Named("limit", u)}
		default:
			panic(HarnessError("style " + kind + " " + style))
		}
		cursorOf := func(r *keyRow) string { return encodeKey(key, pageKey(key, int(r.N))) }
		var err error
		cp := guard(func() {
			if strings.HasPrefix(style, "query") {
				err = xdb.ExecuteQuery[keyRow](context.Background(), db, sink, "SELECT n", args...)
			} else if kind == "offset" {
				err = xdb.ExecuteQueryWithPagination[keyRow](context.Background(), db, sink, "SELECT n", args...)
			} else {
				err = xdb.ExecuteQueryWithCursor(context.Background(), db, cursorOf, sink, "SELECT n", args...)
			}
		})
		where := fmt.Sprintf("page %d (%s)", k+1, js(p))
		switch {
		case cp != nil:
			return fmt.Sprintf("%s panics: %v at %s", where, cp.val, cp.stack)
		case bad != "":
			return where + ": " + bad
		case fail:
			if err == nil || sink.calls != 0 {
				return fmt.Sprintf("%s: the failure is not reported (%v, %d results)", where, err, sink.calls)
			}
			continue
		case err != nil:
			return fmt.Sprintf("%s fails: %v", where, err)
		case sink.calls != 1:
			return fmt.Sprintf("%s: %d results", where, sink.calls)
		case len(sink.rows) != p.I("count"):
			return fmt.Sprintf("%s has %d rows", where, len(sink.rows))
		case sink.more != p.B("more"):
			return fmt.Sprintf("%s: next page reported: %v", where, sink.more)
		}
		for j, r := range sink.rows {
			if r.N != int64(p.I("at")+j+1) {
				return fmt.Sprintf("%s: row %d is number %d", where, j, r.N)
			}
		}
		if kind == "offset" {
			want := uint32(0)
			if p.B("more") {
				want = uint32(base + int64(p.I("next")))
			}
			if sink.next != want {
				return fmt.Sprintf("%s: next offset %d instead of %d", where, sink.next, want)
			}
			off = sink.next
		} else if p.B("more") {
			if sink.cursor == nil {
				return where + ": no cursor"
			}
			text := sink.cursor(sink.rows[len(sink.rows)-1])
			if text != cursorOf(sink.rows[len(sink.rows)-1]) {
				return where + ": another cursor"
			}
			if last, err = decodeKey(key, text); err != nil {
				return fmt.Sprintf("%s: cursor %q: %v", where, text, err)
			}
		}
	}
	return ""
}

func TestPaging(t *testing.T) {
	Replay(t, "Q01", func(res *Result, i int, beh []Rec) {
		prop := "Q01"
		if beh[0].S("kind") == "cursor" {
			prop = "Q02"
		}
		if msg := pageWalk(beh); msg != "" {
			res.Fail(prop, "walk", fmt.Sprintf("%s: %s", js(beh[0]), msg), 0, beh)
		}
		res.AddCase(beh, len(beh) > 2, len(beh)-1)
	})
}

var cursorValues = map[string]any{
	"small": int64(7), "zero": int64(0), "neg": int64(-5),
	"p53": int64(1 << 53), "p53a": int64(1<<53 + 1), "p53b": int64(1<<53 - 1), "n53": int64(-1<<53 - 1),
	"max": int64(math.MaxInt64), "min": int64(math.MinInt64), "umax": uint64(math.MaxUint64),
	"float": 1.5, "tiny": 1e-7, "text": "plain", "odd": "é\"\\<>&%/+ \n\u2028😀", "empty": "", "true": true, "false": false,
}

// sameValue compares a value with what came back; numbers by their value.
func sameValue(want, got any) bool {
	num := func(v any) (string, bool) {
		switch x := v.(type) {
		case int64, uint64, int, uint32:
			return fmt.Sprint(x), true
		case json.Number:
			return x.String(), true
		case float64:
			if x == math.Trunc(x) && math.Abs(x) < 1<<63 {
				return strconv.FormatInt(int64(x), 10), true
			}
			return strconv.FormatFloat(x, 'g', -1, 64), true
		}
		return "", false
	}
	if a, ok := num(want); ok {
		b, ok := num(got)
		return ok && a == b
	}
	switch w := want.(type) {
	case []any:
		g, ok := got.([]any)
		if !ok || len(g) != len(w) {
			return false
		}
		for i := range w {
			if !sameValue(w[i], g[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		g, ok := got.(map[string]any)
		if !ok || len(g) != len(w) {
			return false
		}
		for k := range w {
			if !sameValue(w[k], g[k]) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(want, got)
}

func TestCursorCodec(t *testing.T) {
	Replay(t, "Q02", func(res *Result, i int, beh []Rec) {
		r := beh[0]
		m := map[string]any{}
		for k, e := range r.R("entries") {
			er := Rec(e.(map[string]any))
			v, ok := cursorValues[er.S("val")]
			if !ok {
				panic(HarnessError("value " + er.S("val")))
			}
			switch er.S("place") {
			case "list":
				v = []any{v, "x", v}
			case "map":
				v = map[string]any{"in": v, "other": []any{v}}
			case "lists":
				v = []any{[]any{}, []any{v, []any{v}}, map[string]any{"in": v}}
			case "maps":
				v = map[string]any{"a": map[string]any{"b": v, "c": []any{[]any{v}}}}
			}
			m[k] = v
		}
		text := xdb.EncodeCursor(values.MapAny(m))
		enc := base64.RawURLEncoding.EncodeToString
		switch r.S("damage") {
		case "none":
		case "badchar":
			text = text[:len(text)/2] + "*" + text[len(text)/2:]
		case "cut":
			text = text[:len(text)-1]
		case "notjson":
			text = enc([]byte("after 5"))
		case "array":
			text = enc([]byte("[1,2]"))
		case "string":
			text = enc([]byte(`"after"`))
		case "number":
			text = enc([]byte("12345"))
		case "trailing":
			js, _ := base64.RawURLEncoding.DecodeString(text)
			text = enc(append(js, "}{"...))
		case "padded":
			text += strings.Repeat("=", 1+len(text)%2)
		default:
			panic(HarnessError("damage " + r.S("damage")))
		}
		var got values.MapAny
		var err error
		cp := guard(func() { got, err = xdb.DecodeCursor(text) })
		switch {
		case cp != nil:
			res.Fail("Q02", "codec", fmt.Sprintf("decoding %q panics: %v", text, cp.val), 0, beh)
		case r.B("ok") && err != nil:
			res.Fail("Q02", "codec", fmt.Sprintf("cursor %q of %v is rejected: %v", text, m, err), 0, beh)
		case !r.B("ok") && err == nil:
			res.Fail("Q02", "codec", fmt.Sprintf("%q (%s) is accepted as %v", text, r.S("damage"), got), 0, beh)
		case r.B("ok") && !sameValue(m, map[string]any(got)):
			res.Fail("Q02", "codec", fmt.Sprintf("cursor %q of %v decodes to %v", text, m, got), 0, beh)
		}
		res.AddCase(beh, r.S("damage") == "none", 1)
	})
}
