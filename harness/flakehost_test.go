package harness

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"syscall"
	"testing"

	"github.com/effective-security/xdb/pkg/flake"
)

// TestFlakeHost replays the histories in a process that has a network of its own,
// where it can give the host addresses. Where that is not possible nothing is
// replayed, and the counters say so.
func TestFlakeHost(t *testing.T) {
	if os.Getenv("FLAKE_HOST_CHILD") == "" {
		probe := exec.Command("ip", "link", "set", "lo", "up")
		probe.SysProcAttr = ownNetwork()
		if out, err := probe.CombinedOutput(); err != nil {
			Replay(t, "F02", func(res *Result, i int, beh []Rec) {}, func(res *Result) {
				res.Count("no_network_namespace", 1)
				fmt.Printf("no network of its own: %v %s\n", err, out)
			})
			return
		}
		child := exec.Command(os.Args[0], os.Args[1:]...)
		child.Env = append(os.Environ(), "FLAKE_HOST_CHILD=1")
		child.SysProcAttr = ownNetwork()
		child.Stdout, child.Stderr = os.Stdout, os.Stderr
		if err := child.Run(); err != nil {
			t.Fatal(err)
		}
		return
	}
	ipBatch := func(lines ...string) error {
		cmd := exec.Command("ip", "-batch", "-")
		cmd.Stdin = strings.NewReader(strings.Join(lines, "\n") + "\n")
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		if err := cmd.Run(); err != nil {
			return fmt.Errorf("%w: %s", err, out.String())
		}
		return nil
	}
	addr := func(r Rec) string {
		a, b := r.I("a"), r.I("b")
		switch r.S("net") {
		case "v4a":
			return fmt.Sprintf("10.1.%d.%d/32", a, b)
		case "v4b":
			return fmt.Sprintf("172.16.%d.%d/32", a, b)
		}
		return fmt.Sprintf("fd00::7:%x/128", a<<8|b)
	}
	// ids of hosts that differ in their one address
	seen := map[string]map[uint64]string{}
	Replay(t, "F02", func(res *Result, i int, beh []Rec) {
		if err := ipBatch("link set lo up", "addr flush dev lo scope global"); err != nil {
			panic(HarnessError(err.Error()))
		}
		name := os.Args[0]
		defer func() { os.Args[0] = name }()
		var gens []flake.IDGenerator
		first := map[int]uint64{}
		var have []Rec
		check := func(n int, r Rec, g int, id uint64) {
			if r.B("any") {
				return
			}
			for _, w := range r.IL("ids") {
				if uint64(w) == id {
					return
				}
			}
			res.Fail("F02", "host-machine", fmt.Sprintf("the machine id of generator %d is %d, the host's addresses have %v", g, id, r.IL("ids")), n, beh)
		}
		for n, r := range beh {
			switch r.S("op") {
			case "Add":
				if err := ipBatch("addr add " + addr(r) + " dev lo"); err != nil {
					if r.S("net") == "v6" {
						// no IPv6 here
						res.Count("no_v6", 1)
						return
					}
					panic(HarnessError(err.Error()))
				}
				have = append(have, r)
			case "Del":
				if err := ipBatch("addr del " + addr(r) + " dev lo"); err != nil {
					panic(HarnessError(err.Error()))
				}
				for k, h := range have {
					if addr(h) == addr(r) {
						have = append(have[:k:k], have[k+1:]...)
						break
					}
				}
			case "Make":
				var g flake.IDGenerator
				// a program that is not under test
				os.Args[0] = "/usr/bin/xdbprog"
				cp := guard(func() { g = flake.NewIDGenerator(flake.Settings{}) })
				os.Args[0] = name
				if cp != nil {
					res.Fail("F02", "host-refused", fmt.Sprintf("no generator on a host with addresses %v: %v", have, cp.val), n, beh)
					return
				}
				gens = append(gens, g)
				id := flake.Decompose(g.NextID())["machine_id"]
				check(n, r, len(gens), id)
				first[len(gens)] = id
				if len(have) == 1 {
					h := have[0]
					m := seen[h.S("net")]
					if m == nil {
						m = map[uint64]string{}
						seen[h.S("net")] = m
					}
					if old, ok := m[id]; ok && old != addr(h) {
						res.Fail("F02", "host-shared", fmt.Sprintf("hosts with the addresses %s and %s have the machine id %d", old, addr(h), id), n, beh)
					}
					m[id] = addr(h)
				}
			case "Draw":
				g := r.I("g")
				id := flake.Decompose(gens[g-1].NextID())["machine_id"]
				check(n, r, g, id)
				if id != first[g] {
					res.Fail("F02", "host-kept", fmt.Sprintf("the machine id of generator %d was %d and is %d", g, first[g], id), n, beh)
				}
			default:
				panic(HarnessError("op " + r.S("op")))
			}
		}
		res.AddCase(beh, len(gens) > 0, len(beh))
	})
}

func ownNetwork() *syscall.SysProcAttr {
	return &syscall.SysProcAttr{
		Cloneflags:  syscall.CLONE_NEWUSER | syscall.CLONE_NEWNET,
		UidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getuid(), Size: 1}},
		GidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getgid(), Size: 1}},
	}
}
