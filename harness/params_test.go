package harness

import (
	"fmt"
	"math"
	"reflect"
	"slices"
	"sort"
	"strings"
	"testing"

	"github.com/effective-security/xdb"
)

type paramsHolder struct{ p xdb.QueryParams }

func (h paramsHolder) QueryParams() xdb.QueryParams { return h.p }

// argValue is the n-th argument given.
func argValue(n int) any {
	switch n % 7 {
	case 0:
		return nil
	case 1:
		return n
	case 2:
		return fmt.Sprintf("arg%d", n)
	case 3:
		return []int{n}
	case 4:
		return uint32(n)
	case 5:
		return xdb.NewID(uint64(n))
	}
	return n%2 == 0
}

// cursorValue is like argValue, and never nil.
func cursorValue(n int) any {
	if v := argValue(n); v != nil {
		return v
	}
	return fmt.Sprintf("cursor%d", n)
}

// paramNames holds the names and shapes seen in this process.
type paramNames struct {
	byExact map[string]string // settings -> name
	byName  map[string][]Rec  // name -> shapes
	shapes  map[string]map[string]bool
}

func intList(r Rec, k string) []int32 {
	var out []int32
	for _, n := range r.IL(k) {
		out = append(out, int32(n))
	}
	return out
}

func canonical(shape Rec) string {
	c := Rec{}
	for _, k := range []string{"pos", "enums", "flags", "nulls"} {
		var l []string
		for _, v := range shape.L(k) {
			l = append(l, js(v))
		}
		sort.Strings(l)
		c[k] = l
	}
	c["query"] = shape.S("query")
	return js(c)
}

// mayShare tells if two pagings need not have different names: the first page
// by offset may be shared with its neighbours.
func mayShare(a, b string) bool {
	return a == b || a != "cursor" && b != "cursor" && (a == "first" || b == "first")
}

func (n *paramNames) look(b xdb.QueryParams, name string, s, shape Rec) string {
	exact := js([]any{s.S("query"), canonical(shape), s.L("enums"), s.L("flags"), s.L("nulls"), shape.S("paging"), len(s.L("args")), s.I("limit")})
	if was, ok := n.byExact[exact]; ok && was != name {
		return fmt.Sprintf("the name is %q, and %q elsewhere with the same settings", name, was)
	}
	n.byExact[exact] = name
	key := canonical(shape) + shape.S("paging")
	if n.shapes[name] == nil {
		n.shapes[name] = map[string]bool{}
	}
	if !n.shapes[name][key] {
		n.shapes[name][key] = true
		for _, o := range n.byName[name] {
			if canonical(o) != canonical(shape) || !mayShare(o.S("paging"), shape.S("paging")) {
				return fmt.Sprintf("the name %q is shared with a set of another shape: %s", name, js(o))
			}
		}
		n.byName[name] = append(n.byName[name], shape)
	}
	return ""
}

// argsDiff compares the arguments; the page values are negative.
func argsDiff(got []any, s Rec) string {
	want := s.IL("args")
	if len(got) != len(want) {
		return fmt.Sprintf("%d arguments %v instead of %d", len(got), got, len(want))
	}
	for i, w := range want {
		switch {
		case w <= 0:
			if anyInt(got[i]) != int64(-w) {
				return fmt.Sprintf("argument %d is %v instead of %d", i, got[i], -w)
			}
		case w == s.I("cursor"):
			if !reflect.DeepEqual(got[i], cursorValue(w)) {
				return fmt.Sprintf("argument %d is %v instead of the cursor %v", i, got[i], cursorValue(w))
			}
		default:
			if !reflect.DeepEqual(got[i], argValue(w)) {
				return fmt.Sprintf("argument %d is %v instead of %v", i, got[i], argValue(w))
			}
		}
	}
	return ""
}

func lookParams(b *xdb.QueryParamsBuilder, s Rec) string {
	q := xdb.GetQueryParams("other", 7, b)
	if q2 := xdb.GetQueryParams(paramsHolder{b}, xdb.NewQueryParams("other")); q2 != q {
		return "the parameters of a holder are not found"
	}
	if d := argsDiff(q.Args(), s); d != "" {
		return d
	}
	pos := map[int]bool{}
	for _, p := range s.IL("pos") {
		pos[p] = true
	}
	enums := map[int]int{}
	for _, e := range s.RL("enums") {
		enums[e.I("pos")] = e.I("val")
	}
	for p := 0; p < 64; p++ {
		if q.IsSet(uint32(p)) != pos[p] {
			return fmt.Sprintf("IsSet(%d) is %v", p, !pos[p])
		}
		v, ok := q.GetEnum(uint32(p))
		w, has := enums[p]
		if ok != has || int(v) != w {
			return fmt.Sprintf("GetEnum(%d) is %d, %v", p, v, ok)
		}
	}
	for _, p := range []uint32{64, 65, 127, 128, math.MaxUint32} {
		if q.IsSet(p) {
			return fmt.Sprintf("IsSet(%d)", p)
		}
		if _, ok := q.GetEnum(p); ok {
			return fmt.Sprintf("GetEnum(%d) is set", p)
		}
	}
	if f := q.GetFlags(); fmt.Sprint(f) != fmt.Sprint(intList(s, "flags")) {
		return fmt.Sprintf("flags are %v", f)
	}
	if f := q.GetNullColumns(); strings.Join(f, ",") != strings.Join(s.SL("nulls"), ",") || len(f) != len(s.SL("nulls")) {
		return fmt.Sprintf("null columns are %v", f)
	}
	limit, offset := q.Page()
	if limit != uint32(s.I("limit")) || offset != uint32(s.I("offset")) {
		return fmt.Sprintf("the page is %d, %d", limit, offset)
	}
	l2, cur := q.Cursor()
	var want any
	if n := s.I("cursor"); n > 0 {
		want = cursorValue(n)
	}
	if l2 != uint32(s.I("limit")) || !reflect.DeepEqual(cur, want) {
		return fmt.Sprintf("the cursor is %d, %v", l2, cur)
	}
	return ""
}

func (n *paramNames) run(beh []Rec) (step int, msg string) {
	b := xdb.NewQueryParams(beh[0].S("query"))
	narg := 0
	lists := map[string][]string{} // the caller's lists, reused
	flags := map[string][]int32{}
	// what was handed out earlier stays as it was
	type handed struct {
		step  int
		args  []any
		flags []int32
		nulls []string
	}
	var out, was []handed
	cp3 := func(h handed) handed {
		return handed{h.step, slices.Clone(h.args), slices.Clone(h.flags), slices.Clone(h.nulls)}
	}
	for i, r := range beh[1:] {
		o := r.R("o")
		s, shape := r.R("s"), r.R("shape")
		next := func() any { narg++; return argValue(narg) }
		var ret *xdb.QueryParamsBuilder
		var bad string
		cp := guard(func() {
			switch o.S("op") {
			case "Set":
				ret = b.Set(uint32(o.I("pos")), next())
			case "SetEnum":
				ret = b.SetEnum(uint32(o.I("pos")), int32(o.I("val")))
			case "SetFlags":
				k := js(o.L("flags"))
				if _, ok := flags[k]; !ok {
					flags[k] = intList(o, "flags")
				}
				ret = b.SetFlags(flags[k]...)
			case "SetNulls":
				k := js(o.L("nulls"))
				if _, ok := lists[k]; !ok {
					lists[k] = o.SL("nulls")
				}
				ret = b.SetNullColums(lists[k])
			case "SetPage":
				ret = b.SetPage(uint32(o.I("limit")), uint32(o.I("offset")))
			case "SetCursor":
				narg++
				ret = b.SetCursor(uint32(o.I("limit")), uint32(o.I("pos")), cursorValue(narg))
			case "AddArgs":
				var l []any
				for k := 0; k < o.I("n"); k++ {
					l = append(l, next())
				}
				ret = b.AddArgs(l...)
			case "Reset":
				b.Reset()
				ret = b
			case "Name":
				bad = n.look(b, b.Name(), s, shape)
				ret = b
			case "Look":
				bad = lookParams(b, s)
				if bad == "" {
					bad = n.look(b, b.Name(), s, shape)
				}
				ret = b
			default:
				panic(HarnessError("op " + o.S("op")))
			}
		})
		switch {
		case r.B("refused"):
			if cp == nil {
				return i, fmt.Sprintf("%s is not refused", js(o))
			}
		case cp != nil:
			return i, fmt.Sprintf("%s panics: %v", js(o), cp.val)
		case bad != "":
			return i, bad
		case ret != b:
			return i, fmt.Sprintf("%s returns another object", js(o))
		}
		h := handed{step: i, args: b.Args(), flags: b.GetFlags(), nulls: b.GetNullColumns()}
		out, was = append(out, h), append(was, cp3(h))
		for k, h := range out {
			if !reflect.DeepEqual(h, was[k]) {
				return i, fmt.Sprintf("%s changed what was given out after step %d from %v to %v", js(o), h.step, was[k], h)
			}
		}
		for k, l := range lists {
			if (l == nil && k != "[]" && k != "null") || l != nil && js(l) != k {
				return i, fmt.Sprintf("%s changed the caller's columns %s to %s", js(o), k, js(l))
			}
		}
		for k, l := range flags {
			if l != nil && js(l) != k {
				return i, fmt.Sprintf("%s changed the caller's flags %s to %s", js(o), k, js(l))
			}
		}
	}
	last := beh[len(beh)-1]
	if bad := lookParams(b, last.R("s")); bad != "" {
		return len(beh), "at the end: " + bad
	}
	if bad := n.look(b, b.Name(), last.R("s"), last.R("shape")); bad != "" {
		return len(beh), "at the end: " + bad
	}
	return 0, ""
}

func TestParams(t *testing.T) {
	n := &paramNames{byExact: map[string]string{}, byName: map[string][]Rec{}, shapes: map[string]map[string]bool{}}
	known := false
	Replay(t, "Q03", func(res *Result, i int, beh []Rec) {
		if !known {
			// the listed finding, demonstrated on every run
			known = true
			a := xdb.NewQueryParams("q").SetNullColums([]string{"ab", "c"})
			b := xdb.NewQueryParams("q").SetNullColums([]string{"a", "bc"})
			if a.Name() == b.Name() {
				res.Fail("Q03", "null-columns-concat", "null columns [ab c] and [a bc] share the name "+a.Name(), 0, nil)
			}
		}
		if step, msg := n.run(beh); msg != "" {
			res.Fail("Q03", "params", fmt.Sprintf("%s: step %d: %s", beh[0].S("query"), step, msg), step, beh)
		}
		res.AddCase(beh, len(beh) > 3, len(beh)-1)
	})
}
