package harness

import (
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/effective-security/xdb"
	"github.com/effective-security/xdb/pkg/flake"
)

const flakeLimitMs = int64(1) << 41

// flakeScenario maps the relative milliseconds of the specification to times.
func flakeScenario(scen string, limitT int64) (start time.Time, baseMs int64) {
	switch scen {
	case "zero":
		return time.Date(2024, 2, 29, 12, 0, 0, 0, time.UTC), 0
	case "today":
		return flake.DefaultStartTime, int64(6*365*24*3600) * 1000
	case "limit":
		return time.Date(1975, 1, 1, 0, 0, 0, 0, time.UTC), flakeLimitMs - limitT
	}
	panic(HarnessError("scenario " + scen))
}

type flakeGen struct {
	g    flake.IDGenerator
	m    uint16
	last uint64
}

func TestFlake(t *testing.T) {
	limitT := int64(envInt("FLAKE_LIMIT", 12))
	phases := []time.Duration{0, 400 * time.Microsecond, 999999}
	Replay(t, "F01", func(res *Result, i int, beh []Rec) {
		calls := 0
		phase := phases[i%len(phases)]
		synctest.Test(t, func(t *testing.T) {
			defer func() { flake.NowFunc = time.Now }()
			var offset time.Duration
			flake.NowFunc = func() time.Time { return time.Now().Add(offset) }
			start, base := flakeScenario(beh[0].S("scen"), limitT)
			rel := func() int64 { return flake.NowFunc().Sub(start).Milliseconds() - base }
			floorRel := func() int64 {
				d := flake.NowFunc().Sub(start) - time.Duration(base)*time.Millisecond
				ms := int64(d / time.Millisecond)
				if d < 0 && d%time.Millisecond != 0 {
					ms--
				}
				return ms
			}
			_ = rel
			offset = start.Add(time.Duration(base)*time.Millisecond + phase).Sub(time.Now())
			gens := map[int]*flakeGen{}
			all := map[uint64]string{}
			// one ID: want is its time relative to the base
			check := func(step int, g *flakeGen, id uint64, want, at int64, jumpedBack bool) bool {
				who := fmt.Sprintf("id %d (t=%d seq=%d m=%d)", id, int64(id>>22)-base, id>>16&63, id&0xffff)
				if prev, dup := all[id]; dup {
					p := "F01"
					if prev != fmt.Sprint(g.m) {
						p = "F02"
					}
					res.Fail(p, "duplicate", who+" was issued before by machine "+prev, step, beh)
					return false
				}
				all[id] = fmt.Sprint(g.m)
				if g.last != 0 && id <= g.last {
					res.Fail("F01", "order", fmt.Sprintf("%s after %d", who, g.last), step, beh)
					return false
				}
				g.last = id
				d := flake.Decompose(id)
				if id>>63 != 0 || d["msb"] != 0 || d["id"] != id {
					res.Fail("F02", "bits", who+" does not fit 63 bits or decomposes into another id", step, beh)
					return false
				}
				if d["machine_id"] != uint64(g.m) {
					res.Fail("F02", "machine", fmt.Sprintf("%s carries machine %d, want %d", who, d["machine_id"], g.m), step, beh)
					return false
				}
				if d["sequence"] > 63 {
					res.Fail("F02", "sequence", fmt.Sprintf("%s sequence %d", who, d["sequence"]), step, beh)
					return false
				}
				if got := int64(d["time"]) - base; got != want {
					res.Fail("F02", "time", fmt.Sprintf("%s carries time %d, the specification says %d (clock %d)", who, got, want, at), step, beh)
					return false
				}
				wt := start.Add(time.Duration(base+want) * time.Millisecond)
				if got := flake.IDTime(g.g, id); !got.Equal(wt) {
					res.Fail("F02", "idtime", fmt.Sprintf("%s: IDTime %s, want %s", who, got, wt), step, beh)
					return false
				}
				return true
			}
			for n, r := range beh {
				switch r.S("op") {
				case "Clock":
					offset += time.Duration(r.I("d")) * time.Millisecond
				case "New", "Next":
					gi := r.I("g")
					ok := true
					ncall := 1
					if r.S("op") == "Next" {
						ncall = r.I("k")
					}
					var want []int64
					for _, x := range r.RL("runs") {
						for j := 0; j < x.I("n"); j++ {
							want = append(want, int64(x.I("t")))
						}
					}
					at := floorRel()
					for c := 0; c < ncall && ok; c++ {
						calls++
						var id uint64
						cp := guard(func() {
							if r.S("op") == "New" {
								m := uint16(r.I("m"))
								g := flake.NewIDGenerator(flake.Settings{StartTime: start, MachineID: func() (uint16, error) { return m, nil }})
								gens[gi] = &flakeGen{g: g, m: m}
								id = flake.FirstID(g)
							} else {
								id = gens[gi].g.NextID()
							}
						})
						if c >= len(want) { // the time limit
							if cp == nil {
								res.Fail("F02", "limit", fmt.Sprintf("id %d issued over the 41-bit time limit", id), n, beh)
							}
							res.Count("over_limit", 1)
							return
						}
						if cp != nil {
							res.Fail("F02", "panic", fmt.Sprintf("panic below the time limit: %v at %s", cp.val, cp.stack), n, beh)
							return
						}
						ok = check(n, gens[gi], id, want[c], at, false)
						if ok && flake.LastID(gens[gi].g) != id {
							res.Fail("F02", "lastid", fmt.Sprintf("LastID %d after %d", flake.LastID(gens[gi].g), id), n, beh)
							ok = false
						}
					}
					if !ok {
						return
					}
					if got := floorRel(); got != int64(r.I("clock")) {
						res.Fail("F02", "wait", fmt.Sprintf("clock is at %d after the call, the specification says %d: the call waited for a wrong time", got, r.I("clock")), n, beh)
						return
					}
					res.Count("ids", ncall)
				default:
					panic(HarnessError("op " + r.S("op")))
				}
			}
		})
		res.AddCase(beh, calls > 64, len(beh))
	})
}

// TestFlakeSettings: one behaviour per configuration.
func TestFlakeSettings(t *testing.T) {
	Replay(t, "F02", func(res *Result, i int, beh []Rec) {
		r := beh[0]
		synctest.Test(t, func(t *testing.T) {
			defer func() { flake.NowFunc = time.Now }()
			now := time.Date(2025, 6, 1, 0, 0, 0, 0, time.UTC)
			off := now.Sub(time.Now())
			flake.NowFunc = func() time.Time { return time.Now().Add(off) }
			st := flake.Settings{}
			start := flake.DefaultStartTime
			switch r.S("start") {
			case "default":
			case "past":
				start = now.Add(-48 * time.Hour)
				st.StartTime = start
			case "now":
				start = now
				st.StartTime = start
			case "epoch":
				start = time.Unix(0, 0).UTC()
				st.StartTime = start
			case "future_ns":
				start = now.Add(time.Nanosecond)
				st.StartTime = start
			case "future":
				start = now.Add(time.Hour)
				st.StartTime = start
			}
			m := uint16(r.I("m"))
			switch r.S("mid") {
			case "ok":
				st.MachineID = func() (uint16, error) { return m, nil }
			case "err":
				st.MachineID = func() (uint16, error) { return m, errors.New("no machine") }
			case "nil":
			}
			var asked []uint16
			switch r.S("chk") {
			case "nil":
			case "true":
				st.CheckMachineID = func(x uint16) bool { asked = append(asked, x); return true }
			case "false":
				st.CheckMachineID = func(x uint16) bool { asked = append(asked, x); return false }
			}
			var g flake.IDGenerator
			cp := guard(func() { g = flake.NewIDGenerator(st) })
			want := r.S("exp")
			key := "settings"
			if want == "panic" {
				if cp == nil {
					res.Fail("F02", key, "generator created from unacceptable settings "+js(r), 0, beh)
				}
				return
			}
			if cp != nil {
				res.Fail("F02", key, fmt.Sprintf("acceptable settings %s refused: %v", js(r), cp.val), 0, beh)
				return
			}
			for k := 0; k < 3; k++ {
				id := g.NextID()
				d := flake.Decompose(id)
				if r.S("mid") == "ok" && d["machine_id"] != uint64(m) {
					res.Fail("F02", "machine", fmt.Sprintf("machine id %d instead of %d", d["machine_id"], m), 0, beh)
				}
				if len(asked) > 0 && uint64(asked[0]) != d["machine_id"] {
					res.Fail("F02", "machine", fmt.Sprintf("machine id %d in the ID, %d was validated", d["machine_id"], asked[0]), 0, beh)
				}
				got := flake.IDTime(g, id)
				diff := got.Sub(flake.NowFunc())
				if diff < -time.Millisecond || diff > 0 {
					res.Fail("F02", "idtime", fmt.Sprintf("id time %s with the clock at %s", got, flake.NowFunc()), 0, beh)
				}
				// 10ms between rounds
				time.Sleep(10 * time.Millisecond)
			}
		})
		res.AddCase(beh, true, 1)
	})
}

// TestFlakeTrace records histories of concurrent callers on one generator
// while the clock is pushed around, for FlakeTrace.tla.
func TestFlakeTrace(t *testing.T) {
	res := newResult(t.Name())
	tw := &TraceWriter{}
	seed := int64(envInt("VERIF_SEED", 1))
	rounds := envInt("FLAKE_ROUNDS", 30)
	perG := envInt("FLAKE_CALLS", 40)
	defer func() { flake.NowFunc = time.Now }()
	var offset atomic.Int64
	flake.NowFunc = func() time.Time { return time.Now().Add(time.Duration(offset.Load())) }
	flakeProvider(res)
	for round := 0; round < rounds; round++ {
		progress(round)
		rng := rand.New(rand.NewSource(seed*1000 + int64(round)))
		offset.Store(0)
		g := flake.NewIDGenerator(flake.Settings{MachineID: func() (uint16, error) { return uint16(round), nil }})
		procs := []int{2, 4, 8, 16}[round%4]
		stop := make(chan struct{})
		var clockWG sync.WaitGroup
		if round%2 == 1 {
			clockWG.Add(1)
			go func() {
				defer clockWG.Done()
				for {
					select {
					case <-stop:
						return
					case <-time.After(time.Duration(rng.Intn(300)) * time.Microsecond):
						offset.Add(int64(time.Duration(rng.Intn(7)-3) * time.Millisecond))
					}
				}
			}()
		}
		type ev struct {
			n   int64
			p   int
			inv bool
			id  uint64
		}
		var ctr atomic.Int64
		evs := make([][]ev, procs)
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for p := 0; p < procs; p++ {
			wg.Add(1)
			go func(p int) {
				defer wg.Done()
				<-gate
				for k := 0; k < perG; k++ {
					a := ctr.Add(1)
					id := g.NextID()
					b := ctr.Add(1)
					evs[p] = append(evs[p], ev{a, p + 1, true, 0}, ev{b, p + 1, false, id})
				}
			}(p)
		}
		close(gate)
		ok, _ := within(60*time.Second, wg.Wait)
		close(stop)
		clockWG.Wait()
		if !ok {
			res.Fail("F01", "hang", "concurrent callers did not finish within 60s", -1, Rec{"round": round})
			break
		}
		var all []ev
		var ids []uint64
		for _, e := range evs {
			all = append(all, e...)
			for _, x := range e {
				if !x.inv {
					ids = append(ids, x.id)
					if x.id&0xffff != uint64(round) {
						res.Fail("F02", "machine", fmt.Sprintf("id %d does not carry machine %d", x.id, round), -1, Rec{"round": round})
					}
				}
			}
		}
		sort.Slice(all, func(i, j int) bool { return all[i].n < all[j].n })
		sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
		rank := map[uint64]int{}
		for _, id := range ids {
			if _, ok := rank[id]; !ok {
				rank[id] = len(rank) + 1
			}
		}
		var tr []Rec
		for _, e := range all {
			if e.inv {
				tr = append(tr, Rec{"e": "inv", "p": e.p, "id": 0})
			} else {
				tr = append(tr, Rec{"e": "ret", "p": e.p, "id": rank[e.id], "raw": fmt.Sprint(e.id)})
			}
		}
		tw.Add(tr)
		res.AddCase(Rec{"round": round, "procs": procs, "calls": perG, "clock": round%2 == 1, "n": len(tr)}, true, len(tr))
	}
	res.Sample(Rec{"first_events": tw.traces[0][:6]})
	tw.Write(t)
	res.Done = true
	res.Write(t)
}

// flakeProvider: a provider exposes exactly the IDs and times of its generator.
func flakeProvider(res *Result) {
	g := flake.NewIDGenerator(flake.Settings{StartTime: time.Now().Add(-time.Hour), MachineID: func() (uint16, error) { return 4242, nil }})
	for n, gen := range []flake.IDGenerator{g, nil} {
		db := nopDB()
		p, err := xdb.New("x", db, gen)
		if err != nil {
			panic(HarnessError(err.Error()))
		}
		eff := gen
		if eff == nil {
			eff = flake.DefaultIDGenerator
		}
		prev := flake.LastID(eff)
		for k := 0; k < 200; k++ {
			before := time.Now().Truncate(time.Millisecond)
			pid := p.NextID().UInt64()
			if pid <= prev || flake.LastID(eff) != pid {
				res.Fail("F01", "provider", fmt.Sprintf("provider %d issued %d after %d (last of the generator: %d)", n, pid, prev, flake.LastID(eff)), -1, Rec{"provider": n})
				break
			}
			prev = pid
			pt := p.IDTime(pid)
			if !pt.Equal(flake.IDTime(eff, pid)) || pt.Before(before) || pt.After(time.Now()) {
				res.Fail("F02", "idtime", fmt.Sprintf("provider %d reads time %s from id %d issued at %s, generator %s", n, pt, pid, before, flake.IDTime(eff, pid)), -1, Rec{"provider": n})
				break
			}
		}
		_ = p.Close()
	}
}
