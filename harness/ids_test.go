package harness

import (
	"database/sql/driver"
	"encoding/json"
	"fmt"
	"os"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/effective-security/xdb"
	"gopkg.in/yaml.v3"
)

// the numbers of the specification, ascending; 0 is the invalid ID
var idNums = []uint64{0, 1, 2, 10, 1<<53 + 1, 1<<63 - 1, 1 << 63, 1<<64 - 1}

// the numbers of the histories with long lists, ascending
func init() {
	if os.Getenv("IDS_WIDE") == "" {
		return
	}
	set := map[uint64]bool{}
	for _, n := range idNums {
		set[n] = true
	}
	for _, n := range []uint64{3, 9, 11, 99, 100, 101, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<53 - 1, 1 << 53} {
		set[n] = true
	}
	for i := uint64(1); len(set) < 41; i++ {
		set[1<<62+i*1e9+7] = true
	}
	idNums = nil
	for n := range set {
		idNums = append(idNums, n)
	}
	slices.Sort(idNums)
}

func idText(v int) string {
	if v == 0 {
		return ""
	}
	return strconv.FormatUint(idNums[v], 10)
}

type idJSON struct {
	ID  xdb.ID  `json:"id" yaml:"id"`
	Ptr *xdb.ID `json:"ptr" yaml:"ptr"`
}

type idsRun struct {
	ids   map[int]*xdb.ID
	lists map[int]xdb.IDArray
}

// idDiff compares an ID with a number; look: also its texts.
func idDiff(id *xdb.ID, v int, look bool) string {
	n := idNums[v]
	if id.UInt64() != n || id.Valid() != (n != 0) || id.Invalid() != (n == 0) || id.IsZero() != (n == 0) {
		return fmt.Sprintf("is %d valid %v invalid %v zero %v instead of %d", id.UInt64(), id.Valid(), id.Invalid(), id.IsZero(), n)
	}
	if !look {
		return ""
	}
	t := idText(v)
	if id.String() != t || fmt.Sprint(*id) != t {
		return fmt.Sprintf("has the text %q, %q instead of %q", id.String(), fmt.Sprint(*id), t)
	}
	q, u := `"`+t+`"`, "_"+t
	if v == 0 {
		u = ""
	}
	if g := id.QuotedString(); g != q && !(v == 0 && g == "") {
		return fmt.Sprintf("has the quoted text %s", g)
	}
	if g := id.UnderscoreString(); g != u {
		return fmt.Sprintf("has the underscore text %s", g)
	}
	jt := strconv.FormatUint(n, 10)
	if b, err := json.Marshal(*id); err != nil || string(b) != jt {
		return fmt.Sprintf("has the JSON %s, %v instead of %s", b, err, jt)
	}
	if b, err := yaml.Marshal(*id); err != nil || strings.TrimSpace(string(b)) != jt {
		return fmt.Sprintf("has the YAML %s, %v instead of %s", b, err, jt)
	}
	dv, err := id.Value()
	var want driver.Value
	if n != 0 {
		want = int64(n)
	}
	if err != nil || dv != want {
		return fmt.Sprintf("is stored as %v, %v", dv, err)
	}
	if xdb.IDString(n) != jt || xdb.QuotedIDString(n) != `"`+jt+`"` {
		return fmt.Sprintf("IDString is %s, QuotedIDString %s", xdb.IDString(n), xdb.QuotedIDString(n))
	}
	if g, err := xdb.ParseUint(jt); g != n || err != nil {
		return fmt.Sprintf("ParseUint is %d, %v", g, err)
	}
	return ""
}

func idList(q []int) (nums []uint64, texts []string) {
	for _, v := range q {
		nums = append(nums, idNums[v])
		texts = append(texts, idText(v))
	}
	return
}

func listDiff(l xdb.IDArray, q []int, ord bool) string {
	nums, texts := idList(q)
	got, gotT := l.List(), l.Strings()
	if !ord {
		got, gotT = append([]uint64{}, got...), append([]string{}, gotT...)
		sort.Slice(got, func(i, j int) bool { return got[i] < got[j] })
		sort.Slice(gotT, func(i, j int) bool {
			return len(gotT[i]) < len(gotT[j]) || len(gotT[i]) == len(gotT[j]) && gotT[i] < gotT[j]
		})
	}
	if fmt.Sprint(got) != fmt.Sprint(nums) || len(l) != len(q) {
		return fmt.Sprintf("is %v instead of %v", got, nums)
	}
	if fmt.Sprint(gotT) != fmt.Sprint(texts) {
		return fmt.Sprintf("has the texts %v instead of %v", gotT, texts)
	}
	if ord {
		if s := l.String(); s != strings.Join(texts, ",") {
			return fmt.Sprintf("has the text %q", s)
		}
		var want driver.Value
		if len(q) > 0 {
			var p []string
			for _, n := range nums {
				p = append(p, fmt.Sprint(int64(n)))
			}
			want = "{" + strings.Join(p, ",") + "}"
		}
		if v, err := l.Value(); err != nil || v != want {
			return fmt.Sprintf("is stored as %v, %v", v, err)
		}
		a, b := l.Int64Array(), xdb.Int64Array(nums)
		for i, n := range nums {
			if len(a) != len(nums) || len(b) != len(nums) || a[i] != int64(n) || b[i] != int64(n) {
				return fmt.Sprintf("as numbers is %v, %v", a, b)
			}
		}
	}
	has := map[int]bool{}
	for _, v := range q {
		has[v] = true
	}
	for v := 1; v < len(idNums); v++ {
		if l.Contains(xdb.NewID(idNums[v])) != has[v] {
			return fmt.Sprintf("contains %d: %v", idNums[v], !has[v])
		}
		if xdb.NewIDArray([]uint64{idNums[v]}).Overlaps(l) != has[v] || l.Overlaps(xdb.NewIDArray([]uint64{idNums[v]})) != has[v] {
			return fmt.Sprintf("overlaps {%d}: %v", idNums[v], !has[v])
		}
	}
	return ""
}

func (x *idsRun) slot(i int) *xdb.ID {
	if x.ids[i] == nil {
		x.ids[i] = new(xdb.ID)
	}
	return x.ids[i]
}

// apply runs one operation; it returns what went wrong with its result.
func (x *idsRun) apply(r Rec) (msg string) {
	i, how, ok := r.I("s"), r.S("how"), r.B("ok")
	var id *xdb.ID
	switch r.S("op") {
	case "New", "Scan", "ScanBad", "Set", "Decode", "Reset", "Copy", "Round", "Take":
		id = x.slot(i)
	}
	var err error
	switch r.S("op") {
	case "New":
		*id = xdb.NewID(idNums[r.I("a")])
	case "Scan":
		n := idNums[r.I("a")]
		var v any
		switch how {
		case "int64":
			v = int64(n)
		case "uint64":
			v = n
		case "int":
			v = int(n)
		case "uint":
			v = uint(n)
		}
		err = id.Scan(v)
	case "ScanBad":
		before := id.UInt64()
		err = id.Scan(map[string]any{"string": "12x", "bytes": []byte{1, 2}, "float": 1.5, "bool": true, "time": time.Now()}[how])
		if err == nil {
			// a text or float may be understood by a later version; never as something else
			return "a value that is no number is scanned as " + id.String()
		}
		if id.UInt64() != before {
			return "" // the slot comparison reports it
		}
	case "Set":
		switch how {
		case "set":
			err = id.Set(r.S("text"))
		case "parse":
			var p xdb.ID
			if p, err = xdb.ParseID(r.S("text")); err == nil {
				*id = p
			}
		case "try":
			*id = xdb.TryParseID(r.S("text"))
			return ""
		case "must":
			cp := guard(func() { *id = xdb.MustID(r.S("text")) })
			if (cp == nil) != ok {
				return fmt.Sprintf("MustID panics: %v", cp != nil)
			}
			return ""
		}
	case "Decode":
		switch how {
		case "quoted":
			err = json.Unmarshal([]byte(strconv.Quote(r.S("text"))), id)
		case "plain":
			err = json.Unmarshal([]byte(r.S("text")), id)
		case "yaml":
			err = yaml.Unmarshal([]byte(r.S("text")), id)
		}
	case "Reset":
		id.Reset()
	case "Copy":
		*id = *x.slot(r.I("a"))
	case "Take":
		*id = x.lists[r.I("a")][r.I("b")-1]
	case "Round":
		from := x.slot(r.I("a"))
		switch how {
		case "text":
			err = id.Set(from.String())
		case "json":
			var b []byte
			if b, err = json.Marshal(from); err == nil {
				err = json.Unmarshal(b, id)
			}
		case "jsonfield":
			var b []byte
			s := idJSON{ID: *id}
			if b, err = json.Marshal(idJSON{ID: *from, Ptr: from}); err == nil {
				err = json.Unmarshal(b, &s)
			}
			if s.Ptr == nil || s.Ptr.UInt64() != s.ID.UInt64() {
				return "the pointer field differs"
			}
			*id = s.ID
		case "yaml":
			var b []byte
			s := idJSON{ID: *id}
			if b, err = yaml.Marshal(idJSON{ID: *from, Ptr: from}); err == nil {
				err = yaml.Unmarshal(b, &s)
			}
			*id = s.ID
		case "value":
			var v driver.Value
			if v, err = from.Value(); err == nil {
				err = id.Scan(v)
			}
		}
	case "Make":
		nums, texts := idList(r.IL("seq"))
		switch how {
		case "nums":
			x.lists[i] = xdb.NewIDArray(nums)
		case "texts":
			var t []string
			for k, s := range texts {
				// what is no ID is left out
				t = append(t, []string{"0", "", "x", "-1", "+7"}[k%5], s)
			}
			x.lists[i] = xdb.IDArrayFromStrings(append(t, " 1"))
		case "literal":
			l := make(xdb.IDArray, 0, 2*len(nums)+1)
			for _, n := range nums {
				l = append(l, xdb.NewID(n))
			}
			x.lists[i] = l
		}
		return ""
	case "Assign":
		x.lists[i] = x.lists[r.I("a")]
	case "Slice":
		x.lists[i] = x.lists[r.I("a")][:r.I("b")]
	case "Tail":
		x.lists[i] = x.lists[r.I("a")][1:]
	case "Add":
		x.lists[i] = x.lists[r.I("a")].Add(*x.slot(r.I("b")))
	case "Concat":
		x.lists[i] = x.lists[r.I("a")].Concat(x.lists[r.I("b")])
	case "Sort":
		x.lists[i] = append(xdb.IDArray(nil), x.lists[r.I("a")]...).Sort()
	case "RoundL", "ScanL":
		var v driver.Value
		if r.S("op") == "RoundL" {
			v, err = x.lists[r.I("a")].Value()
		} else {
			nums, _ := idList(r.IL("seq"))
			var p []string
			for _, n := range nums {
				p = append(p, fmt.Sprint(int64(n)))
			}
			v = "{" + strings.Join(p, ",") + "}"
		}
		if s, is := v.(string); is && how == "bytes" {
			v = []byte(s)
		}
		if r.S("op") == "ScanL" && (how == "nil" || how == "null") {
			v = nil
		}
		l := x.lists[i]
		err = l.Scan(v)
		if b, is := v.([]byte); is {
			for k := range b {
				b[k] = '9' // the driver uses its buffer again
			}
		}
		x.lists[i] = l
	default:
		panic(HarnessError("op " + r.S("op")))
	}
	if (err == nil) != ok {
		return fmt.Sprintf("returns the error %v", err)
	}
	return ""
}

// compare gives the first slot or list that differs, its own or another's.
func (x *idsRun) compare(r Rec) (other bool, msg string) {
	isID := map[string]bool{"New": true, "Scan": true, "ScanBad": true, "Set": true, "Decode": true, "Reset": true, "Copy": true, "Round": true, "Take": true}[r.S("op")]
	for k, v := range r.IL("id") {
		if d := idDiff(x.slot(k+1), v, r.B("look")); d != "" {
			return !isID || k+1 != r.I("s"), fmt.Sprintf("ID %d %s", k+1, d)
		}
	}
	ord := r.L("ord")
	for k, q := range r.L("list") {
		var seq []int
		for _, v := range q.([]any) {
			seq = append(seq, anyI(v))
		}
		if d := listDiff(x.lists[k+1], seq, ord[k].(bool)); d != "" {
			return isID || k+1 != r.I("s"), fmt.Sprintf("list %d %s", k+1, d)
		}
	}
	for k, q := range r.L("list") {
		for m, p := range r.L("list") {
			meet := slices.ContainsFunc(q.([]any), func(v any) bool { return slices.Contains(p.([]any), v) })
			if x.lists[k+1].Overlaps(x.lists[m+1]) != meet {
				return false, fmt.Sprintf("lists %d and %d overlap: %v", k+1, m+1, !meet)
			}
		}
	}
	return false, ""
}

func idsReplay(res *Result, beh []Rec) *idsRun {
	x := &idsRun{ids: map[int]*xdb.ID{}, lists: map[int]xdb.IDArray{}}
	lists := false
	for n, r := range beh {
		var msg string
		if cp := guard(func() { msg = x.apply(r) }); cp != nil {
			msg = fmt.Sprintf("panics: %v at %s", cp.val, cp.stack)
		}
		prop := "V03"
		if msg == "" {
			var other bool
			if cp := guard(func() { other, msg = x.compare(r) }); cp != nil {
				msg = fmt.Sprintf("panics: %v at %s", cp.val, cp.stack)
			}
			if other {
				prop = "V02"
			}
		}
		if msg != "" {
			res.Fail(prop, "ids", fmt.Sprintf("%s(%d, %d, %d) %s %q %v: %s", r.S("op"), r.I("s"), r.I("a"), r.I("b"), r.S("how"), r.S("text"), r.IL("seq"), msg), n, beh)
			return nil
		}
		lists = lists || r.S("op") == "Concat" || r.S("op") == "Add"
	}
	res.AddCase(beh, lists, len(beh))
	return x
}

func TestIds(t *testing.T) {
	Replay(t, "V03", func(res *Result, i int, beh []Rec) { idsReplay(res, beh) })
}

// TestIdsPar reads the values of a history from several goroutines (run with
// the race detector).
func TestIdsPar(t *testing.T) {
	Replay(t, "V02", func(res *Result, i int, beh []Rec) {
		for k := range beh {
			beh[k]["look"] = false // texts are first asked for by the goroutines
		}
		x := idsReplay(res, beh)
		if x == nil || len(beh) == 0 {
			return
		}
		last := beh[len(beh)-1]
		last["look"] = true
		for k := range last.IL("id") {
			x.slot(k + 1)
		}
		var wg sync.WaitGroup
		msgs := make([]string, 8)
		for g := range msgs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if cp := guard(func() { _, msgs[g] = x.compare(last) }); cp != nil {
					msgs[g] = fmt.Sprintf("panics: %v at %s", cp.val, cp.stack)
				}
			}()
		}
		wg.Wait()
		for _, m := range msgs {
			if m != "" {
				res.Fail("V02", "ids-par", "read by several goroutines: "+m, -1, beh)
				return
			}
		}
	})
}
