// Package harness binds the TLA+ specifications in ../spec to the code in
// /repo: it replays behaviours printed by TLC into the real packages and
// records traces of the real packages for TLC to validate.
//
// Everything goes through the public API of the packages under test.
package harness

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

// Rec is one JSON object of a behaviour.
type Rec map[string]any

func (r Rec) S(k string) string {
	v, ok := r[k]
	if !ok {
		panic(HarnessError("missing field " + k + " in " + js(r)))
	}
	switch x := v.(type) {
	case string:
		return x
	case json.Number:
		return x.String()
	}
	panic(HarnessError(fmt.Sprintf("field %s is %T in %s", k, v, js(r))))
}
func (r Rec) Has(k string) bool { _, ok := r[k]; return ok }
func (r Rec) I(k string) int {
	v, ok := r[k].(json.Number)
	if !ok {
		panic(HarnessError(fmt.Sprintf("field %s is %T in %s", k, r[k], js(r))))
	}
	n, err := v.Int64()
	if err != nil {
		panic(HarnessError(err.Error()))
	}
	return int(n)
}
func (r Rec) B(k string) bool {
	v, ok := r[k].(bool)
	if !ok {
		panic(HarnessError(fmt.Sprintf("field %s is %T in %s", k, r[k], js(r))))
	}
	return v
}
func (r Rec) L(k string) []any {
	switch v := r[k].(type) {
	case []any:
		return v
	case nil:
		return nil
	case map[string]any:
		if len(v) == 0 {
			return nil
		}
	}
	panic(HarnessError(fmt.Sprintf("field %s is %T in %s", k, r[k], js(r))))
}
func (r Rec) R(k string) Rec {
	switch v := r[k].(type) {
	case map[string]any:
		return Rec(v)
	case []any: // TLA+ prints an empty function as an empty sequence
		if len(v) == 0 {
			return Rec{}
		}
	}
	panic(HarnessError(fmt.Sprintf("field %s is %T in %s", k, r[k], js(r))))
}
func (r Rec) SL(k string) []string {
	var out []string
	for _, x := range r.L(k) {
		out = append(out, anyS(x))
	}
	return out
}
func (r Rec) IL(k string) []int {
	var out []int
	for _, x := range r.L(k) {
		out = append(out, anyI(x))
	}
	return out
}
func (r Rec) RL(k string) []Rec {
	var out []Rec
	for _, x := range r.L(k) {
		out = append(out, Rec(x.(map[string]any)))
	}
	return out
}
func anyS(x any) string {
	switch v := x.(type) {
	case string:
		return v
	case json.Number:
		return v.String()
	case bool:
		return strconv.FormatBool(v)
	}
	panic(HarnessError(fmt.Sprintf("not a string: %T", x)))
}
func anyI(x any) int {
	n, err := x.(json.Number).Int64()
	if err != nil {
		panic(HarnessError(err.Error()))
	}
	return int(n)
}

func js(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%#v", v)
	}
	return string(b)
}

// HarnessError marks a failure of the harness itself: never a verdict.
type HarnessError string

func (e HarnessError) Error() string { return "harness: " + string(e) }

// Mismatch is a disagreement between a specification behaviour and the code.
type Mismatch struct {
	Prop string `json:"prop"`
	Key  string `json:"key"` // stable identification of the failing input or history
	Msg  string `json:"msg"`
	Step int    `json:"step"`
	Beh  any    `json:"beh"`
}

type Result struct {
	Test       string          `json:"test"`
	Cases      int             `json:"cases"`
	Distinct   int             `json:"distinct"`
	Nontrivial int             `json:"nontrivial"`
	Steps      int             `json:"steps"`
	Counters   map[string]int  `json:"counters"`
	Samples    []any           `json:"samples"`
	Mismatches []Mismatch      `json:"mismatches"`
	Errors     []string        `json:"errors"`
	Done       bool            `json:"done"`
	mu         sync.Mutex      `json:"-"`
	seen       map[uint64]bool `json:"-"`
	perKey     map[string]int  `json:"-"`
}

func newResult(name string) *Result {
	return &Result{Test: name, Counters: map[string]int{}, seen: map[uint64]bool{}, perKey: map[string]int{},
		Mismatches: []Mismatch{}, Errors: []string{}, Samples: []any{}}
}
func (r *Result) Count(k string, n int) {
	r.mu.Lock()
	r.Counters[k] += n
	r.mu.Unlock()
}
func (r *Result) Sample(v any) {
	r.mu.Lock()
	if len(r.Samples) < 3 {
		r.Samples = append(r.Samples, v)
	}
	r.mu.Unlock()
}
func (r *Result) AddCase(beh any, nontrivial bool, steps int) {
	h := fnv.New64a()
	h.Write([]byte(js(beh)))
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Cases++
	r.Steps += steps
	if !r.seen[h.Sum64()] {
		r.seen[h.Sum64()] = true
		r.Distinct++
		if nontrivial {
			r.Nontrivial++
		}
	}
}
func (r *Result) Fail(prop, key, msg string, step int, beh any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Counters["mismatches_"+prop]++
	r.perKey[prop+key]++
	if r.perKey[prop+key] > 3 || len(r.Mismatches) > 200 {
		return
	}
	r.Mismatches = append(r.Mismatches, Mismatch{prop, key, msg, step, beh})
}

// enough tells that more behaviours would not change the verdict.
func (r *Result) enough(start time.Time) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	d := time.Since(start)
	if r.Counters["mismatches_"+os.Getenv("HARNESS_PID")] > 0 && d > 20*time.Second {
		return true
	}
	return len(r.Mismatches) > 0 && d > 120*time.Second
}
func (r *Result) Error(msg string) {
	r.mu.Lock()
	r.Errors = append(r.Errors, msg)
	r.mu.Unlock()
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}
func envInt(k string, d int) int {
	n, err := strconv.Atoi(os.Getenv(k))
	if err != nil {
		return d
	}
	return n
}

func (r *Result) Write(t testing.TB) {
	r.mu.Lock()
	defer r.mu.Unlock()
	out := os.Getenv("HARNESS_OUT")
	if out == "" {
		t.Log(js(r))
		return
	}
	b, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(out, b, 0o644); err != nil {
		t.Fatal(err)
	}
}

// readBehaviours reads one JSON value per line; each line is a behaviour.
func readBehaviours(t testing.TB, env string) [][]Rec {
	path := os.Getenv(env)
	if path == "" {
		t.Skip(env + " not set")
	}
	f, err := os.Open(path)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	var out [][]Rec
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		line := bytes.TrimSpace(sc.Bytes())
		if len(line) == 0 {
			continue
		}
		d := json.NewDecoder(bytes.NewReader(line))
		d.UseNumber()
		var b []Rec
		if err := d.Decode(&b); err != nil {
			t.Fatalf("behaviour file: %v: %.200s", err, line)
		}
		out = append(out, b)
	}
	if err := sc.Err(); err != nil {
		t.Fatal(err)
	}
	return out
}

// progress records the behaviour being run, so that the driver can identify
// and re-run it alone if the process dies in the code under test.
func progress(i int) {
	if p := os.Getenv("HARNESS_PROGRESS"); p != "" {
		_ = os.WriteFile(p, []byte(strconv.Itoa(i)), 0o644)
	}
}

type codePanic struct {
	val   any
	stack string
}

// guard runs f and reports a panic raised inside it. Harness errors are
// passed on.
func guard(f func()) (cp *codePanic) {
	defer func() {
		if p := recover(); p != nil {
			if he, ok := p.(HarnessError); ok {
				panic(he)
			}
			if msg := harnessFault(p); msg != "" {
				panic(HarnessError(msg))
			}
			cp = &codePanic{val: p, stack: trimStack(string(debug.Stack()))}
		}
	}()
	f()
	return nil
}

// harnessFault recognises an indexing mistake made by the harness itself.
// (A nil dereference there is the code's: it returned the nil.)
func harnessFault(p any) string {
	if err, ok := p.(runtime.Error); !ok || strings.Contains(err.Error(), "nil pointer") || strings.Contains(err.Error(), "nil map") {
		return ""
	}
	st := string(debug.Stack())
	if i := strings.LastIndex(st, "\npanic("); i >= 0 {
		st = st[i+1:]
	}
	for _, l := range strings.Split(st, "\n") {
		if !strings.HasPrefix(l, "\t/") || strings.Contains(l, runtime.GOROOT()+"/src/") {
			continue
		}
		f := strings.SplitN(strings.TrimSpace(l), ":", 2)[0]
		if strings.HasSuffix(f, "_test.go") {
			return fmt.Sprintf("harness: %v at %s", p, strings.TrimSpace(l))
		}
		return ""
	}
	return ""
}

func trimStack(s string) string {
	var keep []string
	lines := strings.Split(s, "\n")
	for _, l := range lines {
		if strings.Contains(l, env("HARNESS_REPO", "/repo")+"/") {
			keep = append(keep, strings.TrimSpace(l))
		}
	}
	if len(keep) > 6 {
		keep = keep[:6]
	}
	return strings.Join(keep, " <- ")
}

// Replay runs step over all behaviours of the file named by BEH.
// run returns after reporting at most one mismatch per behaviour.
func Replay(t *testing.T, prop string, run func(res *Result, i int, beh []Rec), after ...func(res *Result)) {
	res := newResult(t.Name())
	behs := readBehaviours(t, "BEH")
	only := envInt("HARNESS_ONLY", -1)
	start := time.Now()
	for i, b := range behs {
		if only >= 0 && i != only {
			continue
		}
		progress(i)
		func() {
			defer func() {
				if p := recover(); p != nil {
					if he, ok := p.(HarnessError); ok {
						res.Error(he.Error())
						return
					}
					if msg := harnessFault(p); msg != "" {
						res.Error(msg)
						return
					}
					res.Fail(prop, "panic", fmt.Sprintf("unexpected panic: %v at %s", p, trimStack(string(debug.Stack()))), -1, b)
				}
			}()
			run(res, i, b)
		}()
		if len(res.Errors) > 5 || res.enough(start) {
			break
		}
	}
	for _, f := range after {
		func() {
			defer func() {
				if p := recover(); p != nil {
					res.Error(fmt.Sprintf("after the behaviours: %v at %s", p, trimStack(string(debug.Stack()))))
				}
			}()
			f(res)
		}()
	}
	for i := 0; i < len(behs) && i < 2; i++ {
		res.Sample(behs[i])
	}
	res.Done = true
	res.Write(t)
}

// within runs f in a goroutine and reports false if it does not return in d.
func within(d time.Duration, f func()) (ok bool, cp *codePanic) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		cp = guard(f)
	}()
	select {
	case <-done:
		return true, cp
	case <-time.After(d):
		return false, nil
	}
}

func stacks() string {
	buf := make([]byte, 1<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

// TraceWriter collects traces for TLC: a JSON array of arrays of records.
type TraceWriter struct {
	mu     sync.Mutex
	traces [][]Rec
}

func (w *TraceWriter) Add(tr []Rec) {
	w.mu.Lock()
	w.traces = append(w.traces, tr)
	w.mu.Unlock()
}
func (w *TraceWriter) Write(t testing.TB) {
	p := os.Getenv("TRACE_OUT")
	if p == "" {
		return
	}
	b, err := json.Marshal(w.traces)
	if err != nil {
		t.Fatal(err)
	}
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(p, b, 0o644); err != nil {
		t.Fatal(err)
	}
}
