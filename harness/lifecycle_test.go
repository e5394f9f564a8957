package harness

import (
	"context"
	"errors"
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/effective-security/xdb"
)

var stackBuf = make([]byte, 1<<20)

// bubbleLeaks lists the goroutines of the caller's bubble that belong to the
// code under test or to a database handle.
func bubbleLeaks() []string {
	dump := string(stackBuf[:runtime.Stack(stackBuf, true)])
	me := make([]byte, 200)
	head := string(me[:runtime.Stack(me, false)])
	i := strings.Index(head, "synctest bubble ")
	if i < 0 {
		panic(HarnessError("not in a bubble"))
	}
	bubble := head[i:strings.IndexAny(head[i:], "],")+i] + "]"
	var out []string
	for _, g := range strings.Split(dump, "\n\n") {
		first := strings.SplitN(g, "\n", 2)[0]
		if !strings.Contains(first, bubble) && !strings.Contains(first, bubble[:len(bubble)-1]+",") {
			continue
		}
		if by := strings.Index(g, "created by github.com/effective-security/xdb."); by >= 0 {
			out = append(out, strings.SplitN(g[by:], "\n", 2)[0])
		} else if by := strings.Index(g, "created by database/sql."); by >= 0 {
			out = append(out, strings.SplitN(g[by:], "\n", 2)[0])
		}
	}
	return out
}

func lifecycle(beh []Rec, abandon func(msg string, step int)) (string, int) {
	f := &FakeDB{}
	db := f.DB()
	var mu sync.Mutex
	mode, closeFail := "ok", false
	failedConnects, hanging := 0, 0
	gate := make(chan struct{})
	get := func() (string, bool) {
		mu.Lock()
		defer mu.Unlock()
		return mode, closeFail
	}
	set := func(m string, cf bool) {
		mu.Lock()
		mode, closeFail = m, cf
		mu.Unlock()
	}
	f.OnPing = func(*FakeConn) error {
		switch m, _ := get(); m {
		case "ok":
			return nil
		case "hang":
			mu.Lock()
			hanging++
			g := gate
			mu.Unlock()
			<-g
			mu.Lock()
			hanging--
			mu.Unlock()
			return nil
		}
		return errFault
	}
	f.OnConnect = func() error {
		if m, _ := get(); m == "down" {
			mu.Lock()
			failedConnects++
			mu.Unlock()
			return errFault
		}
		return nil
	}
	f.OnClose = func(*FakeConn) error {
		if _, cf := get(); cf {
			return errFault
		}
		return nil
	}
	tries := func() int {
		f.mu.Lock()
		defer f.mu.Unlock()
		mu.Lock()
		defer mu.Unlock()
		return f.Pings + failedConnects
	}
	var (
		p    *xdb.SQLProvider
		err  error
		open = true
		hung = false
		txs  []xdb.Provider
	)
	if cp := guard(func() { p, err = xdb.New("postgres", db, nil) }); cp != nil || err != nil {
		return fmt.Sprintf("New fails: %v %v", cp, err), 0
	}
	time.Sleep(500 * time.Millisecond)
	release := func() {
		mu.Lock()
		defer mu.Unlock()
		close(gate)
		gate = make(chan struct{})
		hung = false
	}
	// waitFor calls f, which may wait for the ping that hangs
	waitFor := func(f func()) bool {
		done := make(chan struct{})
		go func() { defer close(done); f() }()
		synctest.Wait()
		select {
		case <-done:
			return true
		default:
		}
		if hung {
			set("ok", false)
			release()
			synctest.Wait()
		}
		select {
		case <-done:
			return true
		default:
			return false
		}
	}
	closeProv := func(fail bool) string {
		again := !open
		m, _ := get()
		set(m, fail)
		idle := db.Stats().Idle
		var cerr error
		var cp *codePanic
		if !waitFor(func() { cp = guard(func() { cerr = p.Close() }) }) {
			return "Close does not return"
		}
		m, _ = get()
		set(m, false)
		open = false
		switch {
		case cp != nil:
			return fmt.Sprintf("Close panics: %v at %s", cp.val, cp.stack)
		case again && cerr != nil:
			return fmt.Sprintf("closing again fails: %v", cerr)
		case !again && fail && idle > 0 && !errors.Is(cerr, errFault):
			return fmt.Sprintf("the failure to close is not reported: %v", cerr)
		case !again && !(fail && idle > 0) && cerr != nil:
			return fmt.Sprintf("Close fails: %v", cerr)
		}
		return ""
	}
	ctx := context.Background()
	for n, r := range beh {
		bad := ""
		cp := guard(func() {
			switch r.S("op") {
			case "Advance":
				time.Sleep(time.Duration(r.I("d")) * 500 * time.Millisecond)
				synctest.Wait()
				mu.Lock()
				hung = hanging > 0
				mu.Unlock()
			case "Mode":
				m := r.S("mode")
				set(m, false)
			case "Release":
				set("ok", false)
				if hung {
					release()
				}
				synctest.Wait()
			case "Close":
				bad = closeProv(r.B("fail"))
			case "CloseAtTick":
				time.Sleep(time.Duration(r.I("d")) * 500 * time.Millisecond)
				bad = closeProv(false)
				time.Sleep(500 * time.Millisecond)
				synctest.Wait()
			case "Begin":
				np, err := p.BeginTx(ctx, nil)
				if (err == nil) != r.B("ok") {
					bad = fmt.Sprintf("BeginTx: %v", err)
				}
				if err == nil {
					txs = append(txs, np)
				}
			case "FinishTx":
				if t := txs[r.I("t")-1]; t != nil {
					switch r.S("how") {
					case "close":
						_ = t.Close()
					case "commit":
						_ = t.Commit()
					case "rollback":
						_ = t.Rollback()
					}
				}
				synctest.Wait()
			case "Exec":
				var q xdb.DB = p
				if i := r.I("t"); i > 0 {
					q = txs[i-1]
				}
				_, err := q.ExecContext(ctx, "WRITE")
				if (r.I("t") == 0 || open) && (err == nil) != r.B("ok") {
					bad = fmt.Sprintf("a statement: %v", err)
				}
			default:
				panic(HarnessError("op " + r.S("op")))
			}
		})
		synctest.Wait()
		if cp != nil {
			bad = fmt.Sprintf("panics: %v at %s", cp.val, cp.stack)
		}
		if got := tries(); bad == "" && (got < r.I("lo") || got > r.I("hi")) {
			bad = fmt.Sprintf("%d pings instead of %d to %d", got, r.I("lo"), r.I("hi"))
		}
		if bad != "" {
			abandon(js(r)+": "+bad, n)
		}
	}
	for _, t := range txs {
		_ = t.Close()
	}
	if open {
		if bad := closeProv(false); bad != "" {
			abandon("at the end: "+bad, len(beh))
		}
	}
	if hung {
		set("ok", false)
		release()
	}
	synctest.Wait()
	if l := bubbleLeaks(); len(l) > 0 {
		abandon("after Close there is still a goroutine "+strings.Join(l, "; "), len(beh))
	}
	before := tries()
	time.Sleep(10 * time.Minute)
	if tries() != before {
		abandon("pings after Close", len(beh))
	}
	if o, c := f.Stats(); o != 0 || c != 0 {
		abandon(fmt.Sprintf("after Close %d connections and %d cursors are open", o, c), len(beh))
	}
	return "", 0
}

func TestLifecycle(t *testing.T) {
	abandoned := 0
	Replay(t, "T02", func(res *Result, i int, beh []Rec) {
		if abandoned >= 8 {
			return
		}
		type verdict struct {
			msg  string
			step int
		}
		out := make(chan verdict, 1)
		var never chan struct{} = make(chan struct{})
		go func() {
			synctest.Test(t, func(t *testing.T) {
				msg, step := lifecycle(beh, func(msg string, step int) {
					// leave the bubble as it is: what remains in it would never end
					out <- verdict{msg, step}
					<-never
				})
				out <- verdict{msg, step}
			})
		}()
		select {
		case v := <-out:
			if v.msg != "" {
				abandoned++
				res.Fail("T02", "lifecycle", v.msg, v.step, beh)
			}
		case <-time.After(60 * time.Second):
			abandoned++
			res.Fail("T02", "hang", "does not end", -1, beh)
		}
		closes := 0
		for _, r := range beh {
			if strings.HasPrefix(r.S("op"), "Close") {
				closes++
			}
		}
		res.AddCase(beh, closes > 0, len(beh))
	})
	if abandoned > 0 {
		os.Exit(0)
	}
}
