package harness

import (
	"database/sql/driver"
	"encoding/json"
	"fmt"
	"sort"
	"testing"

	"github.com/effective-security/xdb"
)

var (
	bagTexts = []string{"", "x", "ü \"q\" \\ {}\n", "null"}
	bagLists = [][]string{{""}, {"a", "b"}, {"ü\""}, {}}
)

type bagsRun struct {
	meta map[int]xdb.Metadata
	kv   map[int]xdb.KVSet
	list map[int]xdb.Strings
	isKV map[int]bool
}

// bagContent gives the map as Go values, or nil when it has no entry.
func bagContent(kv bool, m Rec) any {
	mm, kk := map[string]string{}, map[string][]string{}
	for k := range m {
		if v := m.I(k); v >= 0 {
			mm[k], kk[k] = bagTexts[v], bagLists[v]
		}
	}
	if kv {
		return kk
	}
	return mm
}

func bagSeq(q []int) []string {
	l := []string{}
	for _, v := range q {
		l = append(l, bagTexts[v])
	}
	return l
}

func bagJSON(v any, how string) any {
	b, err := json.Marshal(v)
	if err != nil {
		panic(HarnessError(err.Error()))
	}
	switch how {
	case "string":
		return string(b)
	case "bytes":
		return b
	case "nil":
		return nil
	case "empty":
		return ""
	}
	panic(HarnessError("how " + how))
}

func bagBad(how string, list bool) any {
	switch how {
	case "text":
		return "not json"
	case "type":
		return 12.5
	case "json":
		if list {
			return []byte(`{"a":"b"}`)
		}
		return []byte(`["a"]`)
	}
	if list {
		return `["a",1]`
	}
	return `{"k":1}`
}

func clobber(v any) {
	if b, ok := v.([]byte); ok {
		for i := range b {
			b[i] = '#'
		}
	}
}

func (x *bagsRun) scanMap(s, a int, v any) error {
	defer clobber(v)
	if x.isKV[s] {
		m := x.kv[a]
		err := m.Scan(v)
		x.kv[s] = m
		return err
	}
	m := x.meta[a]
	err := m.Scan(v)
	x.meta[s] = m
	return err
}

func (x *bagsRun) apply(r Rec) (msg string) {
	s, a, how := r.I("s"), r.I("a"), r.S("how")
	kv := x.isKV[s]
	var err error
	switch r.S("op") {
	case "Make":
		if kv {
			x.kv[s] = xdb.KVSet(bagContent(true, r.R("m")).(map[string][]string))
		} else {
			x.meta[s] = xdb.Metadata(bagContent(false, r.R("m")).(map[string]string))
		}
	case "Put":
		k, v := r.S("key"), r.I("v")
		switch {
		case kv && v < 0:
			delete(x.kv[s], k)
		case kv:
			if x.kv[s] == nil {
				x.kv[s] = xdb.KVSet{}
			}
			x.kv[s][k] = bagLists[v]
		case v < 0:
			delete(x.meta[s], k)
		default:
			if x.meta[s] == nil {
				x.meta[s] = xdb.Metadata{}
			}
			x.meta[s][k] = bagTexts[v]
		}
	case "Merge":
		if kv {
			m := x.kv[s]
			if m.Merge(x.kv[a]) != &m {
				msg = "does not return the destination"
			}
			x.kv[s] = m
		} else {
			m := x.meta[s]
			if m.Merge(x.meta[a]) != &m {
				msg = "does not return the destination"
			}
			x.meta[s] = m
		}
	case "Scan":
		err = x.scanMap(s, a, bagJSON(bagContent(kv, r.R("m")), how))
	case "ScanBad":
		err = x.scanMap(s, a, bagBad(how, false))
		if kv {
			x.kv[s] = nil
		} else {
			x.meta[s] = nil
		}
	case "Round":
		var v driver.Value
		if kv {
			v, err = x.kv[a].Value()
		} else {
			v, err = x.meta[a].Value()
		}
		if err != nil {
			return "is not stored: " + err.Error()
		}
		if empty := len(x.kv[a])+len(x.meta[a]) == 0; (v == nil) != empty {
			return fmt.Sprintf("is stored as %v", v)
		}
		if t, ok := v.(string); ok && how == "bytes" {
			v = []byte(t)
		}
		err = x.scanMap(s, s, v)
	case "MakeL":
		x.list[s] = append(make(xdb.Strings, 0, 8), bagSeq(r.IL("seq"))...)
	case "AssignL":
		l := x.list[a]
		if k := r.I("v"); k < len(l) {
			l = l[:k]
		}
		x.list[s] = l
	case "ScanL", "ScanBadL":
		l := x.list[a]
		var v any
		if r.S("op") == "ScanL" {
			v = bagJSON(bagSeq(r.IL("seq")), how)
		} else {
			v = bagBad(how, true)
		}
		err = l.Scan(v)
		clobber(v)
		x.list[s] = l
		if r.S("op") == "ScanBadL" {
			x.list[s] = nil
		}
	case "RoundL":
		var v driver.Value
		if v, err = x.list[a].Value(); err != nil {
			return "is not stored: " + err.Error()
		}
		if t, ok := v.(string); ok && how == "bytes" {
			v = []byte(t)
		}
		l := x.list[s]
		err = l.Scan(v)
		clobber(v)
		x.list[s] = l
	default:
		panic(HarnessError("op " + r.S("op")))
	}
	if msg == "" && (err == nil) != r.B("ok") {
		msg = fmt.Sprintf("returns the error %v", err)
	}
	return msg
}

func (x *bagsRun) compare(r Rec) (other bool, msg string) {
	isList := map[string]bool{"MakeL": true, "AssignL": true, "ScanL": true, "ScanBadL": true, "RoundL": true}[r.S("op")]
	for i, m := range r.L("map") {
		want := js(bagContent(x.isKV[i+1], Rec(m.(map[string]any))))
		var got string
		if x.isKV[i+1] {
			g := map[string][]string{}
			for k, v := range x.kv[i+1] {
				g[k] = append([]string{}, v...)
			}
			got = js(g)
		} else {
			g := map[string]string{}
			for k, v := range x.meta[i+1] {
				g[k] = v
			}
			got = js(g)
			n := 0
			last := ""
			x.meta[i+1].RangeOrdered(func(k, v string) bool {
				if w, ok := g[k]; !ok || w != v || n > 0 && k <= last {
					n = -1000
				}
				last = k
				n++
				return true
			})
			pairs, keys, seen, first := x.meta[i+1].OrderedPairs(), x.meta[i+1].Keys(), 0, 0
			sort.Strings(keys)
			for k, key := range x.meta[i+1].OrderedKeys() {
				if k >= len(keys) || keys[k] != key || 2*k+1 >= len(pairs) || pairs[2*k] != key || pairs[2*k+1] != g[key] {
					n = -1000
				}
			}
			x.meta[i+1].Range(func(k, v string) bool {
				if w, ok := g[k]; !ok || w != v {
					n = -1000
				}
				seen++
				return true
			})
			x.meta[i+1].RangeOrdered(func(k, v string) bool { first++; return false })
			if seen != len(g) || first != min(1, len(g)) {
				n = -1000
			}
			if n != len(g) || len(x.meta[i+1].OrderedPairs()) != 2*n || len(x.meta[i+1].Keys()) != n || len(x.meta[i+1].OrderedKeys()) != n {
				return isList || i+1 != r.I("s"), fmt.Sprintf("map %d is ranged over wrongly", i+1)
			}
		}
		if got != want {
			return isList || i+1 != r.I("s"), fmt.Sprintf("map %d is %s instead of %s", i+1, got, want)
		}
	}
	for i, q := range r.L("list") {
		var seq []int
		for _, v := range q.([]any) {
			seq = append(seq, anyI(v))
		}
		got, want := js(append([]string{}, x.list[i+1]...)), js(bagSeq(seq))
		if got != want {
			return !isList || i+1 != r.I("s"), fmt.Sprintf("list %d is %s instead of %s", i+1, got, want)
		}
	}
	return false, ""
}

func TestBags(t *testing.T) {
	Replay(t, "V02", func(res *Result, i int, beh []Rec) {
		x := &bagsRun{meta: map[int]xdb.Metadata{}, kv: map[int]xdb.KVSet{}, list: map[int]xdb.Strings{}, isKV: map[int]bool{4: true, 5: true, 6: true}}
		merges := false
		for n, r := range beh {
			var msg string
			prop := "V01"
			if cp := guard(func() { msg = x.apply(r) }); cp != nil {
				msg = fmt.Sprintf("panics: %v at %s", cp.val, cp.stack)
			}
			if r.S("op") == "Merge" {
				prop = "V02"
			}
			if msg == "" {
				var other bool
				if other, msg = x.compare(r); other {
					prop = "V02"
				}
			}
			if msg != "" {
				res.Fail(prop, "bags", fmt.Sprintf("%s(%d, %d) %s: %s", r.S("op"), r.I("s"), r.I("a"), r.S("how"), msg), n, beh)
				return
			}
			merges = merges || r.S("op") == "Merge" || r.S("op") == "AssignL"
		}
		res.AddCase(beh, merges, len(beh))
	})
}
