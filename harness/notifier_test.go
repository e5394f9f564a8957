package harness

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/pkg/notifier"
	"github.com/lib/pq"
)

var topicNames = map[string]string{"a": "orders", "b": "Orders", "c": `or"d ers`, "d": "tópic_7"}

const fenceTopic = "fence"

// listenHub is the database's side: which topics each connection listens to.
type listenHub struct {
	s      *wireServer
	refuse map[string]int // topics whose next LISTEN is refused
	drop   map[string]int // topics whose next LISTEN loses the connection
}

func newListenHub() *listenHub {
	h := &listenHub{s: newWireServer("postgres", "none"), refuse: map[string]int{}, drop: map[string]int{}}
	h.s.mu.Lock()
	h.s.onQuery = h.query
	h.s.mu.Unlock()
	return h
}

func (h *listenHub) query(p *pgConn, q string) bool {
	verb, name, ok := strings.Cut(strings.TrimSuffix(strings.TrimSpace(q), ";"), " ")
	verb = strings.ToUpper(verb)
	if !ok || verb != "LISTEN" && verb != "UNLISTEN" {
		return false
	}
	if len(name) > 1 && name[0] == '"' {
		name = strings.ReplaceAll(name[1:len(name)-1], `""`, `"`)
	} else if name != "*" {
		name = strings.ToLower(name)
	}
	h.s.mu.Lock()
	if verb == "LISTEN" {
		if h.refuse[name] > 0 {
			h.refuse[name]--
			h.s.mu.Unlock()
			p.sendAll(pgErr("42501", "permission denied"), pgReady)
			return true
		}
		if h.drop[name] > 0 {
			h.drop[name]--
			h.s.mu.Unlock()
			p.c.Close()
			return true
		}
		p.listen[name] = true
	} else if name == "*" {
		p.listen = map[string]bool{}
	} else {
		delete(p.listen, name)
	}
	h.s.mu.Unlock()
	p.sendAll(pgDone(verb), pgReady)
	return true
}

// told returns the topics of the live connections, sorted.
func (h *listenHub) told() []string {
	h.s.mu.Lock()
	defer h.s.mu.Unlock()
	m := map[string]bool{}
	for p := range h.s.pgConns {
		for t := range p.listen {
			m[t] = true
		}
	}
	return sortedKeys(m)
}

// notify delivers to every live connection, whatever it listens to; false when there is none.
func (h *listenHub) notify(l [][2]string) bool {
	h.s.mu.Lock()
	var ps []*pgConn
	for p := range h.s.pgConns {
		ps = append(ps, p)
	}
	h.s.mu.Unlock()
	for _, p := range ps {
		var msgs [][]byte
		for _, e := range l {
			msgs = append(msgs, pgNotify(e[0], e[1]))
		}
		p.sendAll(msgs...)
	}
	return len(ps) > 0
}

// cut loses all connections; down also refuses new ones.
func (h *listenHub) cut(down bool) {
	h.s.mu.Lock()
	defer h.s.mu.Unlock()
	h.s.fault = "none"
	if down {
		h.s.fault = "drop"
	}
	for c := range h.s.conns {
		c.Close()
	}
	h.s.pgConns = map[*pgConn]bool{}
}
func (h *listenHub) up() {
	h.s.mu.Lock()
	h.s.fault = "none"
	h.s.mu.Unlock()
}

type gotNote struct {
	Channel, Raw string
	Payload      string
}

// topicSub is one subscription: its context, callback and what it received.
type topicSub struct {
	name   string
	ctx    context.Context
	cancel context.CancelFunc
	mu     sync.Mutex
	got    []gotNote
	bad    string
	gate   chan struct{}
	ret    chan error // result of Listen
}

func newTopicSub(name string) *topicSub {
	s := &topicSub{name: name, ret: make(chan error, 1)}
	s.ctx, s.cancel = context.WithCancel(context.Background())
	return s
}
func (s *topicSub) call(n *notifier.Notification) {
	s.mu.Lock()
	if n == nil {
		s.bad = "nil notification"
		s.mu.Unlock()
		return
	}
	p := ""
	if len(n.Payload) > 0 {
		p = js(n.Payload)
	}
	s.got = append(s.got, gotNote{n.Channel, n.RawPayload, p})
	g := s.gate
	s.mu.Unlock()
	// the notification belongs to the callback
	n.Channel, n.RawPayload = "", ""
	spoil(map[string]any(n.Payload))
	if g != nil {
		<-g
	}
}

// spoil changes a value everywhere.
func spoil(v any) {
	switch x := v.(type) {
	case map[string]any:
		for k, e := range x {
			spoil(e)
			x[k] = "changed"
		}
		if x != nil {
			x["added"] = true
		}
	case []any:
		for i, e := range x {
			spoil(e)
			x[i] = "changed"
		}
	}
}
func (s *topicSub) received() ([]gotNote, string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]gotNote{}, s.got...), s.bad
}

func notePayload(kind string, id int) string {
	switch kind {
	case "obj":
		return fmt.Sprintf(`{"id":%d,"v":"x"}`, id)
	case "nested":
		return fmt.Sprintf(`{"o":{"a":[1,2.5,{"b":null}],"t":true},"id":%d}`, id)
	case "unicode":
		return fmt.Sprintf(`{"n":"é日\u00e9\n","id":%d}`, id)
	case "long":
		return fmt.Sprintf(`{"id":%d,"p":"%s"}`, id, strings.Repeat("x", 7900))
	case "text":
		return fmt.Sprintf("hello %d", id)
	case "list":
		return fmt.Sprintf("[%d]", id)
	case "number":
		return fmt.Sprint(id)
	case "broken":
		return fmt.Sprintf(`{"id":%d,`, id)
	case "spaced":
		return fmt.Sprintf(" \t{ \"id\" : %d }\n", id)
	case "empty":
		return ""
	case "emptyobj":
		return "{}"
	case "emptylist":
		return "[]"
	case "null":
		return "null"
	case "same":
		return `{"id":7,"o":{"a":[1,{"b":2}]}}`
	}
	panic(HarnessError("payload " + kind))
}
func noteWant(topic, raw string) gotNote {
	g := gotNote{Channel: topic, Raw: raw}
	m := map[string]any{}
	if json.Unmarshal([]byte(raw), &m) == nil && len(m) > 0 {
		g.Payload = js(m)
	}
	return g
}

func notifierGoroutines() string {
	for _, g := range strings.Split(stacks(), "\n\n") {
		if strings.Contains(g, "xdb/pkg/notifier.") || strings.Contains(g, "lib/pq.(*Listener") {
			return trimStack(g)
		}
	}
	return ""
}

type noteRun struct {
	h       *listenHub
	l       notifier.Listener
	fence   *topicSub
	nfence  int
	subs    map[string]*topicSub // last subscription of each topic
	stray   []*topicSub          // subscriptions that were refused: never called
	sent    map[string][]gotNote
	pending map[string]*topicSub
	nid     int
	fail    func(key, f string, args ...any)
}

// reconnected waits until the database has been told the topics and notifications pass again.
func (r *noteRun) reconnected(told []string) bool {
	if !r.toldIs(told) {
		return false
	}
	return r.passFence(true)
}

func (r *noteRun) toldIs(told []string) bool {
	want := map[string]bool{fenceTopic: true}
	for _, t := range told {
		want[topicNames[t]] = true
	}
	w := js(sortedKeys(want))
	if !settleFor(10*time.Second, func() bool { return js(r.h.told()) == w }) {
		r.fail("told", "the database was told to send %s instead of %s", js(r.h.told()), w)
		return false
	}
	return true
}

func (r *noteRun) passFence(again bool) bool {
	r.nfence++
	f := fmt.Sprintf("f%d", r.nfence)
	last := time.Time{}
	if !settleFor(10*time.Second, func() bool {
		if last.IsZero() || again && time.Since(last) > 10*time.Millisecond {
			r.h.notify([][2]string{{fenceTopic, f}})
			last = time.Now()
		}
		got, _ := r.fence.received()
		return len(got) > 0 && got[len(got)-1].Raw == f
	}) {
		got, _ := r.fence.received()
		r.fail("lost", "a notification of another topic was not passed on (%d received, expecting %s)\n%s", len(got), f, trimStack(stacks()))
		return false
	}
	if again {
		// repeated fences may still be on their way
		return r.passFence(false)
	}
	return true
}

func settleFor(max time.Duration, ok func() bool) bool {
	start := time.Now()
	for d := 20 * time.Microsecond; ; d = min(d*3/2, 20*time.Millisecond) {
		if ok() {
			return true
		}
		if time.Since(start) > max {
			return false
		}
		time.Sleep(d)
	}
}

// listen calls Listen in the background. again says that an earlier subscription of the
// topic has ended: its last steps may still be under way and refuse the topic meanwhile.
func (r *noteRun) listen(s *topicSub, again bool) {
	go func() {
		var err error
		settleFor(5*time.Second, func() bool {
			if cp := guard(func() { err = r.l.Listen(s.ctx, s.name, s.call) }); cp != nil {
				err = fmt.Errorf("panic: %v at %s", cp.val, cp.stack)
				return true
			}
			return !again || !errors.Is(err, pq.ErrChannelAlreadyOpen)
		})
		s.ret <- err
	}()
}
func (r *noteRun) listenDone(s *topicSub) (error, bool) {
	select {
	case err := <-s.ret:
		return err, true
	case <-time.After(10 * time.Second):
		r.fail("listen-hangs", "Listen(%q) does not return\n%s", s.name, trimStack(stacks()))
		return nil, false
	}
}

// check compares what the callbacks received with what they must and may have.
func (r *noteRun) check(e Rec, wait bool) bool {
	st, sure := e.R("st"), e.R("sure")
	for t, s := range r.subs {
		all := r.sent[t]
		least := sure.I(t)
		if wait && st.S(t) == "on" {
			settleFor(5*time.Second, func() bool { g, _ := s.received(); return len(g) >= least })
		}
		got, bad := s.received()
		if bad != "" {
			r.fail("nil", "topic %s: %s", t, bad)
			return false
		}
		for i, g := range got {
			if i >= len(all) || g != all[i] {
				var w any = "none"
				if i < len(all) {
					w = all[i]
				}
				r.fail("wrong", "topic %s (%s): notification %d of its callback is %.200s, expecting %.200s", t, st.S(t), i+1, js(g), js(w))
				return false
			}
		}
		if len(got) < least {
			r.fail("missing", "topic %s (%s): its callback received %d of %d notifications", t, st.S(t), len(got), least)
			return false
		}
	}
	for _, s := range r.stray {
		if got, _ := s.received(); len(got) > 0 {
			r.fail("stray", "topic %s: a callback that was refused received %s", s.name, js(got))
			return false
		}
	}
	return true
}

// send is the list to deliver; it records what is expected of the callbacks.
func (r *noteRun) send(l [][2]string, st map[string]string) [][2]string {
	var out [][2]string
	for _, e := range l {
		r.nid++
		raw := notePayload(e[1], r.nid)
		out = append(out, [2]string{topicNames[e[0]], raw})
		if st[e[0]] == "on" {
			r.sent[e[0]] = append(r.sent[e[0]], noteWant(topicNames[e[0]], raw))
		}
	}
	return out
}

// TestNotifier replays the behaviours of Notifier.tla against a database server of the harness.
func TestNotifier(t *testing.T) {
	Replay(t, "N01", func(res *Result, bi int, beh []Rec) {
		if g := notifierGoroutines(); g != "" {
			// left over from a behaviour that failed: judged there
			if !settleFor(5*time.Second, func() bool { return notifierGoroutines() == "" }) {
				res.Count("skipped-after-leak", 1)
				return
			}
		}
		runNotifier(res, beh, true, "", nil)
	})
}

// TestNotifierIdle replays behaviours in which nothing happens for a minute, all at a time.
func TestNotifierIdle(t *testing.T) {
	type job struct {
		res *Result
		beh []Rec
	}
	var jobs []job
	Replay(t, "N01", func(res *Result, bi int, beh []Rec) { jobs = append(jobs, job{res, beh}) }, func(res *Result) {
		var run, calls sync.WaitGroup
		gate := make(chan struct{})
		for _, j := range jobs {
			run.Add(1)
			calls.Add(1)
			go func() {
				defer run.Done()
				var once sync.Once
				here := func() { once.Do(calls.Done) }
				defer here()
				defer func() {
					if p := recover(); p != nil {
						j.res.Error(fmt.Sprintf("%v at %s", p, stacks()))
					}
				}()
				runNotifier(j.res, j.beh, false, "idle-", func() {
					here()
					<-gate
				})
			}()
		}
		calls.Wait()
		time.Sleep(61 * time.Second)
		close(gate)
		run.Wait()
		if len(res.Mismatches) == 0 && !settleFor(5*time.Second, func() bool { return notifierGoroutines() == "" }) {
			res.Fail("N01", "idle-close-leaves", "after Close: "+notifierGoroutines(), -1, jobs[0].beh)
		}
	})
}

// runNotifier replays one behaviour; alone says that no other runs meanwhile.
func runNotifier(res *Result, beh []Rec, alone bool, pre string, idle func()) {
	f := &FakeDB{}
	prov, err := xdb.New("postgres", f.DB(), nil)
	if err != nil {
		panic(HarnessError(err.Error()))
	}
	defer prov.Close()
	step := 0
	failed := false
	r := &noteRun{h: newListenHub(), subs: map[string]*topicSub{}, sent: map[string][]gotNote{}, pending: map[string]*topicSub{}}
	r.fail = func(key, f string, args ...any) {
		failed = true
		b := js(beh[min(step, len(beh)-1)])
		res.Fail("N01", pre+key, fmt.Sprintf("step %d %.600s: ", step, b)+fmt.Sprintf(f, args...), step, beh)
	}
	prov.WithConnectionString("postgres://u:p@" + r.h.s.addr() + "/db?sslmode=disable")
	slowest := 4 * time.Millisecond
	if !alone {
		slowest = 200 * time.Millisecond
	}
	r.l = notifier.NewListener(prov, time.Millisecond, slowest)
	r.fence = newTopicSub(fenceTopic)
	closed := false
	doClose := func() {
		closed = true
		done, cp := within(10*time.Second, func() { r.l.Close() })
		if !done || cp != nil {
			r.fail("close-hangs", "Close: returned %v, panic %v\n%s", done, cp, trimStack(stacks()))
			return
		}
		for t, s := range r.pending {
			// (it may have succeeded before the loss of the connection was noticed)
			r.listenDone(s)
			r.stray = append(r.stray, s)
			delete(r.pending, t)
		}
		if alone && !settleFor(5*time.Second, func() bool { return notifierGoroutines() == "" }) {
			r.fail("close-leaves", "after Close: %s", notifierGoroutines())
		} else if !settleFor(5*time.Second, func() bool { return r.h.s.open() == 0 }) {
			r.fail("close-connections", "after Close: %d connections", r.h.s.open())
		}
	}
	defer func() {
		for _, s := range r.subs {
			s.mu.Lock()
			if s.gate != nil {
				close(s.gate)
				s.gate = nil
			}
			s.mu.Unlock()
		}
		if !closed {
			doClose()
		}
		for _, s := range r.subs {
			s.cancel()
		}
		r.fence.cancel()
		r.h.s.stop()
	}()
	r.listen(r.fence, false)
	if err, ok := r.listenDone(r.fence); !ok || err != nil {
		r.fail("listen", "Listen(fence): %v", err)
		return
	}
	if !r.reconnected(nil) {
		return
	}
	st := map[string]string{}
	for i, e := range beh {
		step = i
		topic := e.S("t")
		name := topicNames[topic]
		started := func() bool {
			s := newTopicSub(name)
			again := r.subs[topic] != nil
			r.subs[topic], r.sent[topic] = s, nil
			r.listen(s, again)
			err, ok := r.listenDone(s)
			if ok && err != nil {
				r.fail("listen", "Listen(%q): %v", name, err)
			}
			return ok && err == nil
		}
		refused := func() bool {
			s := newTopicSub(name)
			r.stray = append(r.stray, s)
			r.listen(s, false)
			err, ok := r.listenDone(s)
			if ok && err == nil {
				r.fail("listen-accepted", "Listen(%q) succeeded", name)
			}
			return ok && err != nil
		}
		ok := true
		switch op := e.S("op"); op {
		case "Listen":
			ok = started()
		case "ListenTwice", "ListenClosed":
			ok = refused()
		case "ListenRefused":
			r.h.s.mu.Lock()
			r.h.refuse[name] = 1
			r.h.s.mu.Unlock()
			ok = refused()
		case "ListenDrop":
			if ok = r.passFence(false); !ok {
				break
			}
			r.h.s.mu.Lock()
			r.h.drop[name] = 1
			r.h.s.mu.Unlock()
			ok = started() && r.reconnected(e.SL("told"))
		case "ListenDown":
			s := newTopicSub(name)
			again := r.subs[topic] != nil
			r.subs[topic], r.sent[topic], r.pending[topic] = s, nil, s
			r.listen(s, again)
		case "Notify":
			var l [][2]string
			for _, x := range e.L("list") {
				p := x.([]any)
				l = append(l, [2]string{p[0].(string), p[1].(string)})
			}
			if !r.h.notify(r.send(l, st)) {
				r.fail("disconnected", "the listener has no connection")
				ok = false
			}
		case "Cancel":
			r.subs[topic].cancel()
		case "Par":
			ok = r.par(e)
		case "Sync":
			ok = r.passFence(false) && r.toldIs(e.SL("told")) && r.check(e, true)
		case "Drop":
			if ok = r.passFence(false); ok {
				r.h.cut(false)
				ok = r.reconnected(e.SL("told"))
			}
		case "Down":
			if ok = r.passFence(false); ok {
				r.h.cut(true)
			}
		case "Up":
			r.h.up()
			for t, s := range r.pending {
				err, done := r.listenDone(s)
				if !done || err != nil {
					r.fail("listen", "Listen(%q) waiting for a connection: %v", s.name, err)
					ok = false
				}
				delete(r.pending, t)
			}
			ok = ok && r.reconnected(e.SL("told"))
		case "Idle":
			idle()
		case "Slow":
			s := r.subs[topic]
			s.mu.Lock()
			s.gate = make(chan struct{})
			s.mu.Unlock()
		case "Release":
			s := r.subs[topic]
			s.mu.Lock()
			close(s.gate)
			s.gate = nil
			s.mu.Unlock()
		case "Close":
			doClose()
			ok = !failed
		default:
			panic(HarnessError("op " + op))
		}
		if !ok || failed || !r.check(e, false) {
			return
		}
		for t := range topicNames {
			if e.R("st").Has(t) {
				st[t] = e.R("st").S(t)
			}
		}
		if i%8 == 7 {
			runtime.Gosched()
		}
	}
	step = len(beh) - 1
	last := beh[step]
	if !closed {
		for _, s := range r.subs {
			s.mu.Lock()
			if s.gate != nil {
				close(s.gate)
				s.gate = nil
			}
			s.mu.Unlock()
		}
		if len(r.pending) == 0 && !r.down(beh) {
			// what is on its way arrives
			if !r.passFence(false) {
				return
			}
			for t, s := range r.subs {
				if st[t] == "on" {
					settleFor(5*time.Second, func() bool { g, _ := s.received(); return len(g) >= len(r.sent[t]) })
					if g, _ := s.received(); len(g) < len(r.sent[t]) {
						r.fail("missing", "topic %s: its callback received %d of %d notifications", t, len(g), len(r.sent[t]))
						return
					}
				}
			}
		}
		doClose()
		if failed {
			return
		}
	}
	r.check(last, false)
	res.AddCase(beh, len(beh) > 2, len(beh))
}

func (r *noteRun) down(beh []Rec) bool {
	d := false
	for _, e := range beh {
		switch e.S("op") {
		case "Down":
			d = true
		case "Up":
			d = false
		}
	}
	return d
}

// par performs one operation per topic, all at a time.
func (r *noteRun) par(e Rec) bool {
	type job struct {
		t, kind string
		s       *topicSub
		list    [][2]string
		again   bool
	}
	var jobs []job
	p := e.R("par")
	kind := e.S("t")
	for _, t := range sortedKeys(map[string]any(p)) {
		j := job{t: t, kind: p.S(t)}
		switch j.kind {
		case "Listen":
			j.s = newTopicSub(topicNames[t])
			j.again = r.subs[t] != nil
			r.subs[t], r.sent[t] = j.s, nil
		case "Twice":
			j.s = newTopicSub(topicNames[t])
			r.stray = append(r.stray, j.s)
		case "Cancel":
			j.s = r.subs[t]
		case "Notify":
			for k := 0; k < 5; k++ {
				j.list = append(j.list, r.send([][2]string{{t, kind}}, map[string]string{t: "on"})...)
			}
		}
		jobs = append(jobs, j)
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	for _, j := range jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			switch j.kind {
			case "Listen", "Twice":
				r.listen(j.s, j.again)
			case "Cancel":
				j.s.cancel()
			case "Notify":
				for _, x := range j.list {
					r.h.notify([][2]string{x})
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	for _, j := range jobs {
		if j.kind == "Listen" || j.kind == "Twice" {
			err, ok := r.listenDone(j.s)
			if !ok {
				return false
			}
			if (err == nil) != (j.kind == "Listen") {
				r.fail("listen", "%s(%q): %v", j.kind, j.s.name, err)
				return false
			}
		}
	}
	return true
}
