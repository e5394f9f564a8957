package harness

import (
	"fmt"
	"maps"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/effective-security/xdb"
)

type mergeDeeper struct {
	ID   xdb.ID
	Null xdb.NULLString
	Int  int
}
type mergeDeep struct {
	ID   xdb.ID
	Time xdb.Time
	Null xdb.NULLString
	Str  string
	Meta xdb.Metadata
	Deep mergeDeeper
}
type MergeEmb struct {
	EmbID   xdb.ID
	EmbTime xdb.Time
	EmbBool xdb.Bool
}
type mergeModel struct {
	MergeEmb
	ID     xdb.ID
	Time   xdb.Time
	Null   xdb.NULLString
	Str    string
	Int    int
	I64    xdb.Int64
	I32    xdb.Int32
	Float  xdb.Float
	Bool   bool
	UUID   xdb.UUID
	IDs    xdb.IDArray
	List   xdb.Strings
	U64    uint64
	ID32   xdb.ID32
	GoTime time.Time
	Meta   xdb.Metadata
	KV     xdb.KVSet
	Deep   mergeDeep
}

var (
	mergeT = time.Date(2024, 2, 29, 23, 59, 58, 7e6, time.UTC)
)

// mergeField gives the address of a field and the three values it takes.
func mergeField(m *mergeModel, f string) (ptr any, vals [3]any) {
	switch f {
	case "id":
		ptr = &m.ID
	case "deep.id":
		ptr = &m.Deep.ID
	case "deep.deep.id":
		ptr = &m.Deep.Deep.ID
	case "emb.id":
		ptr = &m.EmbID
	case "time":
		ptr = &m.Time
	case "deep.time":
		ptr = &m.Deep.Time
	case "emb.time":
		ptr = &m.EmbTime
	case "null":
		ptr = &m.Null
	case "deep.null":
		ptr = &m.Deep.Null
	case "deep.deep.null":
		ptr = &m.Deep.Deep.Null
	case "str":
		ptr = &m.Str
	case "deep.str":
		ptr = &m.Deep.Str
	case "int":
		ptr = &m.Int
	case "deep.deep.int":
		ptr = &m.Deep.Deep.Int
	case "i64":
		ptr = &m.I64
	case "i32":
		ptr = &m.I32
	case "float":
		ptr = &m.Float
	case "bool":
		ptr = &m.Bool
	case "emb.bool":
		ptr = &m.EmbBool
	case "uuid":
		ptr = &m.UUID
	case "ids":
		ptr = &m.IDs
	case "list":
		ptr = &m.List
	case "u64":
		ptr = &m.U64
	case "id32":
		ptr = &m.ID32
	case "gotime":
		ptr = &m.GoTime
	default:
		panic(HarnessError("field " + f))
	}
	switch ptr.(type) {
	case *xdb.ID:
		vals = [3]any{xdb.ID{}, xdb.NewID(7), xdb.NewID(1<<63 + 5)}
	case *xdb.Time:
		vals = [3]any{xdb.Time{}, xdb.Time(mergeT), xdb.Time(time.Unix(0, 0).UTC())}
	case *time.Time:
		vals = [3]any{time.Time{}, mergeT, time.Unix(0, 0).UTC()}
	case *xdb.NULLString:
		vals = [3]any{xdb.NULLString(""), xdb.NULLString("x"), xdb.NULLString(" ")}
	case *string:
		vals = [3]any{"", "x", " "}
	case *int:
		vals = [3]any{0, -1, 1 << 40}
	case *xdb.Int64:
		vals = [3]any{xdb.Int64(0), xdb.Int64(-1), xdb.Int64(1 << 40)}
	case *xdb.Int32:
		vals = [3]any{xdb.Int32(0), xdb.Int32(-1), xdb.Int32(1 << 30)}
	case *xdb.Float:
		vals = [3]any{xdb.Float(0), xdb.Float(-0.5), xdb.Float(1e300)}
	case *bool:
		vals = [3]any{false, true, true}
	case *xdb.Bool:
		vals = [3]any{xdb.Bool(false), xdb.Bool(true), xdb.Bool(true)}
	case *xdb.UUID:
		vals = [3]any{xdb.UUID(""), xdb.UUID("00000000-0000-0000-0000-000000000000"), xdb.UUID("B5B5B5B5-0000-0000-0000-000000000001")}
	case *xdb.IDArray:
		vals = [3]any{xdb.IDArray(nil), xdb.IDArray{xdb.NewID(1), xdb.NewID(2)}, xdb.IDArray{xdb.NewID(3)}}
	case *xdb.Strings:
		vals = [3]any{xdb.Strings(nil), xdb.Strings{"a", ""}, xdb.Strings{""}}
	case *uint64:
		vals = [3]any{uint64(0), uint64(1), uint64(1<<64 - 1)}
	case *xdb.ID32:
		vals = [3]any{xdb.ID32(0), xdb.ID32(1), xdb.ID32(1<<32 - 1)}
	}
	return
}

func mergeText(v any) string {
	switch x := v.(type) {
	case xdb.ID:
		return fmt.Sprintf("%d %s", x.UInt64(), x.String())
	case xdb.IDArray:
		if len(x) == 0 {
			return ""
		}
		return fmt.Sprint(x.List())
	case xdb.Time:
		return fmt.Sprint(time.Time(x).UnixNano(), x.IsZero())
	case time.Time:
		return fmt.Sprint(x.UnixNano(), x.IsZero())
	}
	return fmt.Sprintf("%#v", v)
}

func mergeAssign(m *mergeModel, f string, v int, how string) {
	p, vals := mergeField(m, f)
	if id, ok := p.(*xdb.ID); ok && how != "new" {
		n := vals[v].(xdb.ID).UInt64()
		switch {
		case v == 0 && how == "set":
			id.Reset()
		case v == 0 && how == "json":
			_ = id.UnmarshalJSON([]byte("0"))
		case v == 0:
			_ = id.Scan(nil)
		case how == "set":
			_ = id.Set(fmt.Sprint(n))
		case how == "json":
			_ = id.UnmarshalJSON([]byte(fmt.Sprintf("%q", fmt.Sprint(n))))
		default:
			_ = id.Scan(int64(n))
		}
		return
	}
	if tm, ok := p.(*xdb.Time); ok && how == "scan" {
		if v == 0 {
			_ = tm.Scan(nil)
		} else {
			_ = tm.Scan(time.Time(vals[v].(xdb.Time)))
		}
		return
	}
	if ns, ok := p.(*xdb.NULLString); ok && how == "scan" {
		_ = ns.Scan(string(vals[v].(xdb.NULLString)))
		return
	}
	reflect.ValueOf(p).Elem().Set(reflect.ValueOf(vals[v]))
}

func mergeMapVal(g string, v int) any {
	if g == "kv" {
		return []string{fmt.Sprintf("x%d", v)}
	}
	return []string{"", "one", "two"}[v]
}

func mergePut(m *mergeModel, g, k string, v int) {
	if g == "kv" {
		if v < 0 {
			delete(m.KV, k)
			return
		}
		if m.KV == nil {
			m.KV = xdb.KVSet{}
		}
		m.KV[k] = mergeMapVal(g, v).([]string)
		return
	}
	p := &m.Meta
	if g == "deep.meta" {
		p = &m.Deep.Meta
	}
	if v < 0 {
		delete(*p, k)
		return
	}
	if *p == nil {
		*p = xdb.Metadata{}
	}
	(*p)[k] = mergeMapVal(g, v).(string)
}

func mergeDiff(m *mergeModel, val, mp Rec) string {
	for _, f := range sortedKeys(val) {
		p, vals := mergeField(m, f)
		got := mergeText(reflect.ValueOf(p).Elem().Interface())
		if want := mergeText(vals[val.I(f)]); got != want {
			return fmt.Sprintf("field %s is %s instead of %s", f, got, want)
		}
	}
	for _, g := range sortedKeys(mp) {
		w := mp.R(g)
		n := 0
		for _, k := range sortedKeys(w) {
			v := w.I(k)
			var got any
			var ok bool
			switch g {
			case "kv":
				got, ok = m.KV[k]
			case "meta":
				got, ok = m.Meta[k]
			default:
				got, ok = m.Deep.Meta[k]
			}
			if ok != (v >= 0) || ok && !reflect.DeepEqual(got, mergeMapVal(g, v)) {
				return fmt.Sprintf("%s[%s] is %v, %v instead of %d", g, k, got, ok, v)
			}
			if ok {
				n++
			}
		}
		if l := map[string]int{"kv": len(m.KV), "meta": len(m.Meta), "deep.meta": len(m.Deep.Meta)}[g]; l != n {
			return fmt.Sprintf("%s has %d entries instead of %d", g, l, n)
		}
	}
	return ""
}

func TestMerge(t *testing.T) {
	Replay(t, "X01", func(res *Result, i int, beh []Rec) {
		models := map[int]*mergeModel{}
		get := func(n int) *mergeModel {
			if models[n] == nil {
				models[n] = &mergeModel{}
			}
			return models[n]
		}
		merges := 0
		for n, r := range beh {
			m, s := get(r.I("m")), get(r.I("s"))
			msg := ""
			var err error
			cp := guard(func() {
				switch r.S("op") {
				case "Make":
					*m = mergeModel{}
					val := r.R("snap").L("val")[r.I("m")-1].(map[string]any)
					for f := range val {
						mergeAssign(m, f, Rec(val).I(f), "new")
					}
					mp := r.R("snap").L("map")[r.I("m")-1].(map[string]any)
					for g := range mp {
						w := Rec(mp).R(g)
						for k := range w {
							if v := w.I(k); v >= 0 {
								mergePut(m, g, k, v)
							}
						}
					}
				case "Assign":
					mergeAssign(m, r.S("field"), r.I("v"), r.S("how"))
				case "Put":
					mergePut(m, r.S("field"), r.S("how"), r.I("v"))
				case "Copy":
					*m = *s
					m.Meta, m.Deep.Meta, m.KV = maps.Clone(s.Meta), maps.Clone(s.Deep.Meta), maps.Clone(s.KV)
				case "Merge":
					merges++
					if r.S("how") == "ptr" {
						err = xdb.Merge(m, s)
					} else {
						err = xdb.Merge(m, *s)
					}
					if err != nil {
						msg = "fails: " + err.Error()
					}
				case "Bad":
					switch r.S("how") {
					case "nilsrc":
						err = xdb.Merge(m, nil)
					case "nildst":
						err = xdb.Merge(nil, m)
					case "value":
						err = xdb.Merge(*m, m)
					case "type":
						err = xdb.Merge(m, &mergeDeep{Str: "x"})
					}
					if err == nil {
						msg = "is not refused"
					}
				default:
					panic(HarnessError("op " + r.S("op")))
				}
			})
			if cp != nil {
				msg = fmt.Sprintf("panics: %v at %s", cp.val, cp.stack)
			}
			if msg == "" {
				val, mp := r.R("snap").L("val"), r.R("snap").L("map")
				for j := range val {
					if d := mergeDiff(get(j+1), Rec(val[j].(map[string]any)), Rec(mp[j].(map[string]any))); d != "" {
						msg = fmt.Sprintf("model %d: %s", j+1, d)
						break
					}
				}
			}
			if msg != "" {
				delete(r, "snap")
				if !strings.Contains("Merge Bad", r.S("op")) && merges == 0 {
					// not about merging
					res.Fail("V02", "merge-setup", js(r)+": "+msg, n, beh)
					return
				}
				res.Fail("X01", "merge", js(r)+": "+msg, n, beh)
				return
			}
		}
		res.AddCase(beh, merges > 1, len(beh))
	})
}
