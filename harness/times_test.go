package harness

import (
	"database/sql/driver"
	"encoding/json"
	"fmt"
	"testing"
	"time"

	"github.com/effective-security/xdb"
)

func timeOf(r Rec, zone bool) time.Time {
	t := time.Unix(int64(r.I("d"))*86400, 0).Add(time.Duration(r.I("m"))*time.Millisecond + time.Duration(r.I("ns")))
	if zone {
		return t.In(time.FixedZone("", r.I("z")*60))
	}
	return t.UTC()
}

// diffTime compares everything a time shows with the specification.
func diffTime(v xdb.Time, exp Rec) string {
	ms := int64(exp.I("d"))*86400000 + int64(exp.I("m"))
	zero := exp.B("zero")
	if got := v.UnixMilli(); got != ms {
		return fmt.Sprintf("UnixMilli is %d, expected %d (%s)", got, ms, exp.S("text"))
	}
	if got := v.String(); got != exp.S("text") {
		return fmt.Sprintf("String is %q, expected %q", got, exp.S("text"))
	}
	if v.IsZero() != zero || v.IsNil() != zero {
		return fmt.Sprintf("IsZero is %v, IsNil is %v, expected %v", v.IsZero(), v.IsNil(), zero)
	}
	if u := v.UTC(); u.UnixMilli() != ms || u.Location() != time.UTC {
		return fmt.Sprintf("UTC is %v, expected %d ms, %q", u, ms, exp.S("text"))
	}
	for n, p := range map[string]*time.Time{"Ptr": v.Ptr(), "TimePtr": xdb.TimePtr(v)} {
		if (p == nil) != zero {
			return fmt.Sprintf("%s is %v of %q", n, p, exp.S("text"))
		}
		if p != nil && p.UnixMilli() != ms {
			return fmt.Sprintf("%s is %v, expected %q", n, p, exp.S("text"))
		}
		if nt := xdb.NullTime(p); nt.Valid == zero || !zero && nt.Time.UnixMilli() != ms {
			return fmt.Sprintf("NullTime is %v of %q", nt, exp.S("text"))
		}
	}
	val, err := v.Value()
	if err != nil {
		return fmt.Sprintf("Value fails: %v", err)
	}
	if zero != (val == nil) {
		return fmt.Sprintf("Value is %v of %q", val, exp.S("text"))
	}
	if !zero {
		t, ok := val.(time.Time)
		if !ok || t.UnixMilli() != ms {
			return fmt.Sprintf("Value is %T %v, expected %q", val, val, exp.S("text"))
		}
	}
	return ""
}

func TestTimes(t *testing.T) {
	local := time.Local
	defer func() { time.Local = local }()
	Replay(t, "V04", func(res *Result, i int, beh []Rec) {
		// texts without a zone do not depend on where the process runs
		time.Local = []*time.Location{time.UTC, time.FixedZone("L1", 19800), time.FixedZone("L2", -12*3600)}[i%3]
		res.AddCase(beh, len(beh) > 1, len(beh))
		var v xdb.Time
		for n, r := range beh {
			op := r.S("op")
			res.Count(op, 1)
			fail := func(key, f string, a ...any) {
				res.Fail("V04", key+"-"+op, fmt.Sprintf("%s: ", js(r))+fmt.Sprintf(f, a...), n, beh)
			}
			var err error
			switch op {
			case "millis":
				v = xdb.FromUnixMilli(int64(r.I("d"))*86400000 + int64(r.I("m")))
			case "utc":
				v = xdb.UTC(timeOf(r, true))
			case "scan":
				err = v.Scan(timeOf(r, true))
			case "parse":
				v = xdb.ParseTime(r.S("t"))
			case "scantext":
				err = v.Scan(r.S("t"))
			case "json":
				b, _ := json.Marshal(r.S("t"))
				err = json.Unmarshal(b, &v)
			case "scannull":
				err = v.Scan(nil)
			case "jsonempty":
				err = json.Unmarshal([]byte(`""`), &v)
			case "parseempty":
				v = xdb.ParseTime("")
			case "scanempty":
				err = v.Scan("")
			case "bad":
				if p := xdb.ParseTime(r.S("t")); !p.IsZero() {
					fail("accepted", "%q is taken for %v", r.S("t"), p)
					return
				}
				var w xdb.Time
				if w.Scan(r.S("t")) == nil {
					fail("accepted", "%q is taken for %v", r.S("t"), w)
					return
				}
				b, _ := json.Marshal(r.S("t"))
				if json.Unmarshal(b, &w) == nil {
					fail("accepted", "JSON %s is taken for %v", b, w)
					return
				}
			case "totext":
				v = xdb.ParseTime(v.String())
			case "scanown":
				s := v.String()
				err = v.Scan(s)
			case "tojson":
				var b []byte
				var w xdb.Time
				if b, err = json.Marshal(v); err == nil {
					err = json.Unmarshal(b, &w)
					v = w
				}
			case "tocolumn":
				var x driver.Value
				var w xdb.Time
				if x, err = v.Value(); err == nil {
					err = w.Scan(x)
					v = w
				}
			case "tomillis":
				if v.IsZero() {
					// the zero time has milliseconds too
					v = xdb.FromUnixMilli(xdb.Time{}.UnixMilli())
				} else {
					v = xdb.FromUnixMilli(v.UnixMilli())
				}
			case "copy":
				v = xdb.Time(v.UTC())
			case "add":
				v = v.Add(time.Duration(r.I("dd"))*24*time.Hour + time.Duration(r.I("dm"))*time.Millisecond + time.Duration(r.I("dn")))
			default:
				panic(HarnessError("op " + op))
			}
			if err != nil {
				fail("error", "fails: %v", err)
				return
			}
			if d := diffTime(v, r.R("exp")); d != "" {
				fail("value", "%s", d)
				return
			}
		}
	}, func(res *Result) {
		// the clock: to the millisecond, between the readings before and after
		time.Local = local
		for i := 0; i < 2000; i++ {
			after := time.Duration(i-1000) * 1234567 * time.Microsecond
			t0 := time.Now()
			v, w := xdb.Now(), xdb.FromNow(after)
			t1 := time.Now()
			for k, x := range []struct {
				v     xdb.Time
				after time.Duration
			}{{v, 0}, {w, after}} {
				lo, hi := t0.Add(x.after).Truncate(time.Millisecond), t1.Add(x.after)
				if u := x.v.UTC(); u.Before(lo) || u.After(hi) || u.Nanosecond()%1000000 != 0 {
					if t1.Sub(t0) >= 0 && t1.Round(0).Sub(t0.Round(0)) < time.Minute && !t1.Round(0).Before(t0.Round(0)) {
						res.Fail("V04", fmt.Sprintf("clock-%d", k), fmt.Sprintf("%v is not between %v and %v", u, lo, hi), -1, nil)
					}
					return
				}
			}
		}
		res.Count("clock", 2000)
	})
}
