package harness

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/effective-security/xdb"
)

// valType is one type of the specification: cells are pointers to values.
type valType struct {
	fresh func() any
	set   func(p any, v int)
	eq    func(p any, v int) bool
	decl  string
}

func valOf[T any](decl string, mk func(v int) T, eq func(a, b T) bool) *valType {
	return &valType{
		fresh: func() any { return new(T) },
		set:   func(p any, v int) { *p.(*T) = mk(v) },
		eq:    func(p any, v int) bool { return eq(*p.(*T), mk(v)) },
		decl:  decl,
	}
}

// markNum is the number of a landmark of the specification.
func markNum(m int) *big.Int {
	p := func(k uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), k) }
	add := func(a *big.Int, d int64) *big.Int { return new(big.Int).Add(a, big.NewInt(d)) }
	switch m {
	case -4:
		return new(big.Int).Neg(p(63))
	case -3:
		return add(new(big.Int).Neg(p(31)), -1)
	case -2:
		return new(big.Int).Neg(p(31))
	case -1, 0, 1:
		return big.NewInt(int64(m))
	case 2:
		return add(p(31), -1)
	case 3:
		return p(31)
	case 4:
		return add(p(32), -1)
	case 5:
		return p(32)
	case 6:
		return add(p(53), 1)
	case 7:
		return add(p(63), -1)
	case 8:
		return p(63)
	case 9:
		return new(big.Int).Sub(p(64), add(p(31), 1))
	case 10:
		return new(big.Int).Sub(p(64), p(31))
	case 11:
		return add(p(64), -1)
	}
	panic(HarnessError(fmt.Sprintf("landmark %d", m)))
}

func valFloat(v int) float64 {
	switch {
	case v >= 90:
		f, _ := new(big.Float).SetInt(markNum(v - 100)).Float64()
		return f
	case v == 8:
		return math.Inf(1)
	case v == 9:
		return math.NaN()
	}
	return []float64{0, 1.5, -0.25, 0.1, 1e300, 5e-324, math.MaxFloat64, -1e-9}[v]
}

var (
	valTexts = []string{"", "a", "  sp ace ", "NULL", "ü\"'\\\n", "\xff\x00x", "0", " ", "\n\t ", "\x00", "null", "a "}
	valUUIDs = []string{"", "a1b2c3d4-e5f6-4a7b-8c9d-0e1f2a3b4c5d", "A1B2C3D4-E5F6-4A7B-8C9D-0E1F2A3B4C5D", "01234567-8901-2345-6789-012345678901", "00000000-0000-0000-0000-000000000000"}
	valTimes = []time.Time{{}, time.Date(2024, 2, 29, 0, 0, 0, 0, time.UTC), time.Date(2024, 12, 31, 23, 59, 58, 0, time.UTC), time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC),
		time.Date(2025, 3, 30, 1, 30, 0, 123e6, time.UTC), time.Date(2025, 3, 30, 1, 30, 0, 123456789, time.UTC), time.Date(1901, 5, 6, 7, 8, 9, 10e6, time.UTC),
		time.Date(2025, 3, 30, 1, 30, 0, 123400000, time.UTC)}
	valLists = [][]string{nil, {"a"}, {"", "b,c", "ü\"\\"}, {"<&>", "a", "a"}, {"null"}, {"\u2028\x00"}}
	valMaps  = []map[string]string{nil, {"k": "v"}, {"": ""}, {"ü\"": "\n\\", "k": "null"}, {"K": "1", "k": "2"}, {"<&>": "\u2028"}}
	valKVs   = []map[string][]string{nil, {"k": {"a", "b"}}, {"": {""}}, {"ü\"": {"x", "x"}, "k": {"y"}}, {"K": {"1"}, "k": {"2", "3"}}, {"<&>": {"\u2028"}}}
	valIDs   = [][]uint64{nil, {1}, {1 << 63, 5}, {math.MaxUint64, 1, 1<<53 + 1}, {3, 2, 1}, {math.MaxInt64}}
	valBad   = map[string][]string{
		"Float": {"abc", "", "1e400", "1,5", "1.5 ", "1 2", "1.5x"}, "UUID": {strings.Repeat("x", 15), strings.Repeat("x", 17), strings.Repeat("a", 35), "", "x", strings.Repeat("a", 37)},
		"Time":     {"not a time", "2024-13-01", "2024-02-30 25:00:00", "2024-01-02T03:04:61Z", "2024-02-29 ", "20240229", "29/02/2024", "10:11:12"},
		"Strings":  {"not json", `{"a":"b"}`, `["a",1]`, `["a"`, `["a"] x`, `["a"]["b"]`, `["a"]]`, ` `},
		"Metadata": {"not json", `["a"]`, `{"k":1}`, `{"k":"v"`, `{"k":"v"} x`, `{"k":"v"}{"k":"w"}`, `{"k":"v"}}`, ` `},
		"KVSet":    {"not json", `["a"]`, `{"k":"v"}`, `{"k":["a"`, `{"k":["a"]} x`, `{"k":["a"]}{"k":["b"]}`, `{"k":["a"]}}`, ` `},
		"IDArray":  {"not", "{a}", "{1", "{99999999999999999999}", "{1}x", "{1}{2}", "{1,}", "{1.5}"},
	}
)

func valTypes() map[string]*valType {
	same := func(a, b any) bool { return js(a) == js(b) }
	return map[string]*valType{
		"Int64": valOf("INTEGER", func(v int) xdb.Int64 { return xdb.Int64(markNum(v).Int64()) }, func(a, b xdb.Int64) bool {
			return a == b && a.Int64() == int64(b) && a.String() == strconv.FormatInt(int64(b), 10) && a.QuotedString() == `"`+a.String()+`"`
		}),
		"Int32": valOf("INTEGER", func(v int) xdb.Int32 { return xdb.Int32(markNum(v).Int64()) }, func(a, b xdb.Int32) bool {
			return a == b && a.Int64() == int64(b) && a.Int32() == int32(b) && a.String() == strconv.FormatInt(int64(b), 10)
		}),
		"ID":   valOf("INTEGER", func(v int) xdb.ID { return xdb.NewID(markNum(v).Uint64()) }, func(a, b xdb.ID) bool { return a.UInt64() == b.UInt64() && a.Valid() == b.Valid() }),
		"ID32": valOf("INTEGER", func(v int) xdb.ID32 { return xdb.ID32(markNum(v).Uint64()) }, func(a, b xdb.ID32) bool { return a == b && a.String() == strconv.FormatUint(uint64(b), 10) }),
		"Float": valOf("REAL", func(v int) xdb.Float { return xdb.Float(valFloat(v)) }, func(a, b xdb.Float) bool {
			return a == b && a.Float() == float64(b) || math.IsNaN(float64(a)) && math.IsNaN(float64(b))
		}),
		"Bool": valOf("BOOLEAN", func(v int) xdb.Bool { return v == 1 }, func(a, b xdb.Bool) bool {
			return a == b && a.Bool() == bool(b) && a.String() == strconv.FormatBool(bool(b))
		}),
		"NULLString": valOf("TEXT", func(v int) xdb.NULLString { return xdb.NULLString(valTexts[v]) }, func(a, b xdb.NULLString) bool { return a == b && a.String() == string(b) }),
		"UUID":       valOf("TEXT", func(v int) xdb.UUID { return xdb.UUID(valUUIDs[v]) }, func(a, b xdb.UUID) bool { return a == b && a.String() == string(b) }),
		"Time": valOf("TIMESTAMP", func(v int) xdb.Time { return xdb.Time(valTimes[v]) }, func(a, b xdb.Time) bool {
			at, bt := time.Time(a), time.Time(b)
			p, q := a.Ptr(), xdb.TimePtr(a)
			if (p == nil) != bt.IsZero() || (q == nil) != bt.IsZero() || p != nil && !p.Equal(bt) || q != nil && !q.Equal(bt) || a.IsZero() != bt.IsZero() || a.IsNil() != bt.IsZero() {
				return false
			}
			if nt := xdb.NullTime(p); nt.Valid == bt.IsZero() || nt.Valid && !nt.Time.Equal(bt) {
				return false
			}
			return at.Equal(bt) && at.Location() == time.UTC
		}),
		"Strings":  valOf("TEXT", func(v int) xdb.Strings { return append(xdb.Strings(nil), valLists[v]...) }, func(a, b xdb.Strings) bool { return same(append([]string{}, a...), append([]string{}, b...)) }),
		"Metadata": valOf("TEXT", func(v int) xdb.Metadata { return copyMap(xdb.Metadata(valMaps[v])) }, func(a, b xdb.Metadata) bool { return len(a) == len(b) && (len(a) == 0 || same(a, b)) }),
		"KVSet":    valOf("TEXT", func(v int) xdb.KVSet { return copyMap(xdb.KVSet(valKVs[v])) }, func(a, b xdb.KVSet) bool { return len(a) == len(b) && (len(a) == 0 || same(a, b)) }),
		"IDArray":  valOf("TEXT", func(v int) xdb.IDArray { return xdb.NewIDArray(valIDs[v]) }, func(a, b xdb.IDArray) bool { return same(a.List(), b.List()) }),
	}
}

func copyMap[M ~map[string]V, V any](m M) M {
	if m == nil {
		return nil
	}
	r := M{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func valText(t string, v int) string {
	switch t {
	case "NULLString":
		return valTexts[v]
	case "UUID":
		return valUUIDs[v]
	case "IDArray":
		var l []string
		for _, id := range valIDs[v] {
			l = append(l, strconv.FormatInt(int64(id), 10))
		}
		return "{" + strings.Join(l, ",") + "}"
	}
	var x any
	switch t {
	case "Strings":
		x = append([]string{}, valLists[v]...)
	case "Metadata":
		x = valMaps[v]
		if v == 0 {
			x = map[string]string{}
		}
	case "KVSet":
		x = valKVs[v]
		if v == 0 {
			x = map[string][]string{}
		}
	default:
		panic(HarnessError("text of " + t))
	}
	return js(x)
}

// valInput is what the driver hands over.
func valInput(t, r string, x int) any {
	switch r {
	case "null":
		return nil
	case "int64":
		return markNum(x).Int64()
	case "int":
		return int(markNum(x).Int64())
	case "uint64":
		return markNum(x).Uint64()
	case "uint":
		return uint(markNum(x).Uint64())
	case "bool":
		return x == 1
	case "float64":
		return valFloat(x)
	case "float32":
		return float32(valFloat(x))
	case "numeric":
		return []byte(strconv.FormatFloat(valFloat(x), 'f', -1, 64))
	case "numericexp":
		return []byte(strconv.FormatFloat(valFloat(x), 'e', -1, 64))
	case "word":
		if x == 1 {
			return "abc"
		}
		return []byte("abc")
	case "string":
		return valText(t, x)
	case "bytes":
		return []byte(valText(t, x))
	case "bad":
		s := valBad[t][x-1]
		if t == "Float" || t == "UUID" {
			return []byte(s)
		}
		return s
	case "badbytes":
		return []byte(valBad[t][x-1])
	case "guid":
		h := strings.ReplaceAll(valUUIDs[x], "-", "")
		b := make([]byte, 16)
		for i := range b {
			n, err := strconv.ParseUint(h[2*i:2*i+2], 16, 8)
			if err != nil {
				panic(HarnessError(err.Error()))
			}
			b[[]int{3, 2, 1, 0, 5, 4, 7, 6, 8, 9, 10, 11, 12, 13, 14, 15}[i]] = byte(n)
		}
		return b
	}
	tm := valTimes[x]
	off := tm.In(time.FixedZone("", 7*3600))
	switch r {
	case "time":
		return tm
	case "zoned":
		return tm.In(time.FixedZone("IST", 19800))
	case "date":
		return tm.Format("2006-01-02")
	case "datetime":
		return tm.Format("2006-01-02 15:04:05")
	case "rfc3339":
		return tm.Format("2006-01-02T15:04:05Z07:00")
	case "rfc3339off":
		return off.Format("2006-01-02T15:04:05Z07:00")
	case "nano":
		return tm.Format(time.RFC3339Nano)
	case "nanooff":
		return off.Format(time.RFC3339Nano)
	case "rfc3339ms":
		return tm.Format("2006-01-02T15:04:05.000Z07:00")
	case "rfc3339msoff":
		return off.Format("2006-01-02T15:04:05.000Z07:00")
	}
	panic(HarnessError("input " + r))
}

type valRun struct {
	types map[string]*valType
	vals  map[string][]any
	db    *sql.DB
}

func newValRun() *valRun {
	db, err := sql.Open("sqlite3", ":memory:")
	if err != nil {
		panic(HarnessError(err.Error()))
	}
	db.SetMaxOpenConns(1)
	x := &valRun{types: valTypes(), db: db}
	x.exec(`CREATE TABLE cell (id INTEGER, v INTEGER)`)
	x.exec(`INSERT INTO cell VALUES (1, NULL)`)
	for t, vt := range x.types {
		x.exec(`CREATE TABLE "` + t + `" (id INTEGER, v ` + vt.decl + `)`)
		x.exec(`INSERT INTO "` + t + `" VALUES (1, NULL)`)
	}
	return x
}

func (x *valRun) exec(q string, args ...any) {
	if _, err := x.db.ExecContext(context.Background(), q, args...); err != nil {
		panic(HarnessError(err.Error() + ": " + q))
	}
}

func (x *valRun) reset() {
	x.vals = map[string][]any{}
	for t, vt := range x.types {
		x.vals[t] = []any{vt.fresh(), vt.fresh()}
	}
	x.exec(`UPDATE cell SET v = NULL`)
}

func valStored(p any, v int) (driver.Value, string) {
	s, err := p.(driver.Valuer).Value()
	if err != nil {
		return nil, "is not stored: " + err.Error()
	}
	// an empty list of strings is not nil
	l, isList := p.(*xdb.Strings)
	if (s == nil) != (v == 0) && !(isList && *l != nil && v == 0) {
		return nil, fmt.Sprintf("is stored as %v", s)
	}
	if !driver.IsValue(s) {
		return nil, fmt.Sprintf("is stored as a %T", s)
	}
	return s, ""
}

func valShow(p any) string {
	switch v := p.(type) {
	case *xdb.Time:
		return time.Time(*v).String()
	case *xdb.IDArray:
		return fmt.Sprint(v.List())
	}
	return strings.TrimPrefix(fmt.Sprintf("%+v", p), "&")
}

func (x *valRun) apply(r Rec) string {
	t, vt := r.S("t"), x.types[r.S("t")]
	p, from := x.vals[t][r.I("i")-1], x.vals[t][r.I("j")-1]
	vs := r.IL("vs")
	var err error
	what := ""
	switch r.S("op") {
	case "Set":
		vt.set(p, r.I("x"))
	case "Scan":
		in := valInput(t, r.S("r"), r.I("x"))
		what = fmt.Sprintf(" of %T %q", in, fmt.Sprint(in))
		err = p.(sql.Scanner).Scan(in)
		clobber(in)
	case "StoreBad":
		bad := []string{"\xff", "a\xc3", "\xed\xa0\x80", "ok\xf0\x28\x8c\xbc."}[r.I("x")-1]
		vs := map[string][]driver.Valuer{"Strings": {xdb.Strings{bad}, xdb.Strings{"a", bad}}, "Metadata": {xdb.Metadata{bad: ""}, xdb.Metadata{"a": "b", "k": bad}},
			"KVSet": {xdb.KVSet{bad: nil}, xdb.KVSet{"a": {"b"}, "k": {"x", bad}}}}[t]
		for _, v := range vs {
			if got, err := v.Value(); err == nil {
				return fmt.Sprintf("stores %q as %q", v, got)
			}
		}
		return ""
	case "Round":
		v, msg := valStored(from, vs[0])
		if msg != "" {
			return msg
		}
		what = fmt.Sprintf(" of %T %q", v, fmt.Sprint(v))
		switch f, nan := v.(float64); {
		case r.S("r") == "table" && !(nan && math.IsNaN(f)):
			if _, err := x.db.ExecContext(context.Background(), `UPDATE "`+t+`" SET v = ?`, from); err != nil {
				return "cannot be stored: " + err.Error()
			}
			err = x.db.QueryRowContext(context.Background(), `SELECT v FROM "`+t+`"`).Scan(p)
		default:
			var in any = v
			if s, ok := v.(string); ok && r.S("r") == "bytes" {
				in = []byte(s)
			}
			err = p.(sql.Scanner).Scan(in)
			clobber(in)
		}
	case "Write":
		if _, msg := valStored(from, vs[0]); msg != "" {
			return msg
		}
		if _, err := x.db.ExecContext(context.Background(), `UPDATE cell SET v = ?`, from); err != nil {
			return "cannot be stored: " + err.Error()
		}
		var got sql.NullInt64
		if err := x.db.QueryRowContext(context.Background(), `SELECT v FROM cell`).Scan(&got); err != nil {
			panic(HarnessError(err.Error()))
		}
		if c := r.I("cell"); c == -50 && got.Valid || c != -50 && (!got.Valid || got.Int64 != markNum(c).Int64()) {
			return fmt.Sprintf("the cell holds %v %v instead of landmark %d", got.Valid, got.Int64, c)
		}
	case "Read":
		err = x.db.QueryRowContext(context.Background(), `SELECT v FROM cell`).Scan(p)
		what = fmt.Sprintf(" of landmark %d", r.I("cell"))
	case "Json":
		b, e := json.Marshal(from)
		if e != nil {
			return "is not encoded: " + e.Error()
		}
		what = " of " + string(b)
		err = json.Unmarshal(b, p)
	case "JsonNum":
		s := markNum(r.I("x")).String()
		if r.S("r") == "quoted" {
			s = `"` + s + `"`
		}
		what = " of " + s
		err = json.Unmarshal([]byte(s), p)
	case "JsonFloat":
		f := valFloat(r.I("x"))
		s := strconv.FormatFloat(f, 'f', -1, 64)
		if r.S("r") == "exp" {
			s = strconv.FormatFloat(f, 'E', -1, 64)
		}
		if r.S("r") == "quoted" {
			s = `"` + s + `"`
		}
		what = " of " + s
		err = json.Unmarshal([]byte(s), p)
	case "JsonBad":
		s := []string{`1.5`, `1e30`, `-0.5`, `"abc"`}[r.I("x")-1]
		switch r.S("t") {
		case "Float":
			s = []string{`1e400`, `-1e400`, `"abc"`, `"1.5x"`}[r.I("x")-1]
		case "Time":
			s = []string{`"not a time"`, `5`, `"2024-02-30T00:00:00Z"`, `"2024-13-01T00:00:00Z"`}[r.I("x")-1]
		}
		what = " of " + s
		err = json.Unmarshal([]byte(s), p)
	case "JsonZero":
		s := []string{`""`, `"NULL"`, `"0"`, `0`}[r.I("x")-1]
		what = " of " + s
		err = json.Unmarshal([]byte(s), p)
	default:
		panic(HarnessError("op " + r.S("op")))
	}
	switch {
	case err != nil && r.S("err") == "never":
		return "fails" + what + ": " + err.Error()
	case err != nil:
		return ""
	case r.S("err") == "always":
		return "accepts" + what + " as " + valShow(p)
	}
	for _, v := range vs {
		if vt.eq(p, v) {
			return ""
		}
	}
	w := vt.fresh()
	vt.set(w, vs[0])
	return "gives " + valShow(p) + what + " instead of " + valShow(w)
}

func TestValues(t *testing.T) {
	x := newValRun()
	defer x.db.Close()
	Replay(t, "V01", func(res *Result, i int, beh []Rec) {
		x.reset()
		dirty := false
		for n, r := range beh {
			var msg string
			prop := "V01"
			if cp := guard(func() { msg = x.apply(r) }); cp != nil {
				msg = fmt.Sprintf("panics: %v at %s", cp.val, cp.stack)
			}
			if msg == "" {
				for k, v := range r.L("after") {
					if v := anyI(v); v != -99 && k+1 != r.I("i") && !x.types[r.S("t")].eq(x.vals[r.S("t")][k], v) {
						prop = "V02"
						msg = fmt.Sprintf("changes the other %s to %s", r.S("t"), valShow(x.vals[r.S("t")][k]))
					}
				}
			}
			if msg != "" {
				res.Fail(prop, "values", fmt.Sprintf("%s(%s, %d, %d) %s %d: %s", r.S("op"), r.S("t"), r.I("i"), r.I("j"), r.S("r"), r.I("x"), msg), n, beh)
				return
			}
			dirty = dirty || n > 0
		}
		res.AddCase(beh, dirty, len(beh))
	})
}
