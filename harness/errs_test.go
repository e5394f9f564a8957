package harness

import (
	"context"
	"database/sql"
	"database/sql/driver"
	stderrors "errors"
	"fmt"
	"io"
	"strings"
	"testing"

	"github.com/cockroachdb/errors"
	"github.com/effective-security/xdb"
)

// hideErr and hideMulti keep the chain but not the text.
type hideErr struct{ err error }

func (e *hideErr) Error() string { return "something failed" }
func (e *hideErr) Unwrap() error { return e.err }

type hideMulti struct{ errs []error }

func (e *hideMulti) Error() string   { return "several things failed" }
func (e *hideMulti) Unwrap() []error { return e.errs }

type textErr string

func (e textErr) Error() string { return string(e) }

var (
	errChainA = stderrors.New("first sentinel")
	errChainB = errors.New("second sentinel")
	chainIDs  = map[string]error{"norows": sql.ErrNoRows, "a": errChainA, "b": errChainB,
		"canceled": context.Canceled, "txdone": sql.ErrTxDone, "eof": io.EOF}
)

type chainRow struct{ v int64 }

var errChainScan error

func (r *chainRow) ScanRow(row xdb.Row) error {
	if errChainScan != nil {
		return errChainScan
	}
	return row.Scan(&r.v)
}

// throughQuery passes the error through a query function of the library.
func throughQuery(how string, err error) error {
	f := &FakeDB{}
	f.OnQuery = func(*FakeConn, string, []driver.NamedValue) (*FakeRows, error) {
		if how == "row" || how == "list" {
			return nil, err
		}
		r := &FakeRows{Cols: []string{"v"}}
		if how == "scan" {
			r.Data = [][]driver.Value{{int64(1)}}
		}
		return r, nil
	}
	db := f.DB()
	defer db.Close()
	errChainScan = nil
	if how == "scan" {
		errChainScan = err
	}
	var res error
	if how == "list" {
		_, res = xdb.ExecuteListQuery[chainRow](context.Background(), db, "SELECT 1")
	} else {
		_, res = xdb.QueryRow[chainRow](context.Background(), db, "SELECT 1")
	}
	errChainScan = nil
	return res
}

func chainLeaf(k string) error {
	switch k {
	case "nil":
		return nil
	case "text":
		return textErr("sql: no rows in result set")
	case "text2":
		return textErr("driver: there were no rows in result set; giving up")
	case "near":
		return textErr("no rows affected: the result set is empty")
	case "near2":
		return textErr("record not found: t: 1")
	case "nf":
		return &xdb.ErrorNotFound{Table: "t0", ID: "0"}
	case "row-none":
		return throughQuery("none", nil)
	case "row-a":
		return throughQuery("row", errChainA)
	}
	if e := chainIDs[k]; e != nil {
		return e
	}
	panic(HarnessError("leaf " + k))
}

type chainStringer string

func (s chainStringer) String() string { return string(s) }

func chainWrap(w string, err error, table, id string, n int) error {
	switch w {
	case "%w":
		return fmt.Errorf("outer: %w", err)
	case "wrap":
		return errors.Wrap(err, "wrapped")
	case "message":
		return errors.WithMessagef(err, "message %d", n)
	case "stack":
		return errors.WithStack(err)
	case "detail":
		return errors.WithHint(errors.WithDetail(err, "a detail"), "a hint")
	case "%w%w-left":
		return fmt.Errorf("%w and %w", err, errChainB)
	case "%w%w-right":
		return fmt.Errorf("%w and %w", errChainB, err)
	case "join-left":
		return stderrors.Join(err, errChainB)
	case "join-right":
		return stderrors.Join(errChainB, err)
	case "join2-right":
		return errors.Join(errChainB, err)
	case "mark":
		return errors.Mark(err, textErr("a mark"))
	case "%v":
		return fmt.Errorf("outer: %v", err)
	case "handled":
		return errors.Handled(err)
	case "hide":
		return &hideErr{err}
	case "hide-multi":
		return &hideMulti{[]error{textErr("one"), err}}
	case "secondary":
		return errors.WithSecondaryError(errChainB, err)
	case "check":
		return xdb.CheckNotFoundError(err, table, chainID(id, n))
	case "new":
		return xdb.NewErrorNotFound(err, table, chainID(id, n))
	case "row", "list", "scan":
		return throughQuery(w, err)
	}
	panic(HarnessError("wrap " + w))
}

// chainID passes the ID in one of the types that have this text.
func chainID(id string, n int) any {
	switch n % 4 {
	case 0:
		return chainStringer(id)
	case 1:
		if v, err := xdb.ParseID(id); err == nil {
			return v
		}
	case 2:
		if v, err := xdb.ParseUint(id); err == nil {
			return v
		}
	}
	return id
}

func chainDiff(err error, r Rec) string {
	if (err == nil) != r.B("nil") {
		return fmt.Sprintf("is %v", err)
	}
	if got := xdb.IsNotFoundError(err); got != r.B("found") {
		return fmt.Sprintf("IsNotFoundError is %v for %q", got, fmt.Sprint(err))
	}
	has := map[string]bool{}
	for _, k := range r.SL("ids") {
		has[k] = true
	}
	for k, e := range chainIDs {
		if k == "norows" && !has[k] {
			// the text of an error is taken for its identity by some comparisons
			continue
		}
		if errors.Is(err, e) != has[k] || stderrors.Is(err, e) != has[k] {
			return fmt.Sprintf("errors.Is for %q is %v, %v", e, errors.Is(err, e), stderrors.Is(err, e))
		}
	}
	nf := r.L("nf")
	var e *xdb.ErrorNotFound
	if errors.As(err, &e) != (len(nf) > 0) {
		return "errors.As finds a not-found error or not, wrongly"
	}
	if len(nf) == 0 {
		return ""
	}
	first := nf[0].([]any)
	if e.Table != anyS(first[0]) || e.ID != anyS(first[1]) {
		return fmt.Sprintf("the not-found error is %q %q instead of %v", e.Table, e.ID, first)
	}
	if want := "record not found: " + e.Table + ": " + e.ID; e.Error() != want {
		return fmt.Sprintf("the text is %q instead of %q", e.Error(), want)
	}
	for _, x := range nf {
		p := x.([]any)
		if !errors.Is(err, &xdb.ErrorNotFound{Table: anyS(p[0]), ID: anyS(p[1])}) {
			return fmt.Sprintf("%v is not found in the chain", p)
		}
		if errors.Is(err, &xdb.ErrorNotFound{Table: anyS(p[0]) + "?", ID: anyS(p[1])}) || errors.Is(err, &xdb.ErrorNotFound{Table: anyS(p[0]), ID: anyS(p[1]) + "?"}) {
			return "another not-found error is found in the chain"
		}
	}
	// each not-found error is itself only
	is := map[string]bool{}
	for _, x := range nf {
		p := x.([]any)
		is[js([]string{anyS(p[0]), anyS(p[1])})] = true
	}
	for _, x := range nf {
		p := x.([]any)
		t, id := anyS(p[0]), anyS(p[1])
		for _, o := range [][]string{{t, ""}, {"", id}, {"", ""}, {strings.ToUpper(t), id}, {t, id + " "}, {t, strings.TrimLeft(id, "0")}, {t, "0" + id}, {id, t}} {
			if got := stderrors.Is(err, &xdb.ErrorNotFound{Table: o[0], ID: o[1]}); got != is[js(o)] {
				return fmt.Sprintf("the chain of %v has a not-found error %q: %v", nf, o, got)
			}
		}
	}
	return ""
}

func TestErrChain(t *testing.T) {
	Replay(t, "R01", func(res *Result, i int, beh []Rec) {
		var err error
		found := false
		for n, r := range beh {
			prev := err
			var cp *codePanic
			if r.S("op") == "leaf" {
				cp = guard(func() { err = chainLeaf(r.S("how")) })
			} else {
				cp = guard(func() { err = chainWrap(r.S("how"), prev, r.S("table"), r.S("id"), n+i) })
			}
			var msg string
			if cp != nil {
				msg = fmt.Sprintf("panics: %v at %s", cp.val, cp.stack)
			} else if msg = chainDiff(err, r); msg == "" && prev != nil {
				// the wrapped is reachable when the specification says its chain is
				switch r.S("how") {
				case "check", "row", "list", "scan":
					if !errors.Is(err, prev) || !stderrors.Is(err, prev) {
						msg = "the error given is not in the chain"
					}
				}
			}
			if msg != "" {
				res.Fail("R01", "chain", fmt.Sprintf("%s: %s", js(r), msg), n, beh)
				return
			}
			found = found || r.B("found")
		}
		res.AddCase(beh, found, len(beh))
	})
}
