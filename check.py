#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property on /repo's working tree.

exit 0: held on everything explored; exit 1 and a VIOLATION line: broken;
anything else: the check itself failed.
"""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
EVID = os.environ.get("VERIF_EVID") or os.path.join(ROOT, "evidence")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

sys.path.insert(0, ROOT)


class CheckError(Exception):
    pass


def goenv():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", CGO_ENABLED="1",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
    e["PATH"] = "/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:" + e.get("PATH", "")
    return e


class Ctx:
    def __init__(self, pid, tier, seed, tmp):
        self.pid, self.tier, self.seed, self.tmp = pid, tier, seed, tmp
        self.quick = tier == "quick"
        self.lock = threading.Lock()
        self.states = self.transitions = self.traces = self.evals = self.distinct = 0
        self.samples, self.mismatches, self.notes = [], [], []
        self.counters, self.stages = {}, []
        self.n = 0
        self._bins, self._binlock = {}, {}

    def q(self, quick, thorough):
        return quick if self.quick else thorough

    def path(self, name):
        with self.lock:
            self.n += 1
            return os.path.join(self.tmp, "%03d_%s" % (self.n, name))

    # ---------------------------------------------------------------- build
    def binary(self, race=False):
        with self.lock:
            lk = self._binlock.setdefault(race, threading.Lock())
        with lk:
            if race in self._bins:
                return self._bins[race]
            out = os.path.join(self.tmp, "harness_race.test" if race else "harness.test")
            # build from a copy, so that the go command cannot touch go.mod/go.sum of /verif
            src = os.path.join(self.tmp, "src_race" if race else "src")
            shutil.copytree(HARNESS, src)
            if REPO != "/repo":
                gm = os.path.join(src, "go.mod")
                s = open(gm).read().replace("=> /repo", "=> " + REPO)
                open(gm, "w").write(s)
            cmd = ["go", "test", "-c", "-vet=off", "-o", out] + (["-race"] if race else []) + ["."]
            t0 = time.time()
            p = subprocess.run(cmd, cwd=src, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                raise CheckError("harness does not build:\n" + p.stdout[-4000:])
            self.stages.append({"stage": "build" + (" race" if race else ""), "s": round(time.time() - t0, 1)})
            self._bins[race] = out
            return out

    # ------------------------------------------------------------------ TLC
    def _tlc(self, module, cfg, extra, timeout, env=None, workers=4, mem="4g", stack=None):
        meta = self.path("meta")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem] + (["-Xss" + stack] if stack else []) + [
            "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers),
            "-config", os.path.join(SPEC, cfg)] + extra + [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        log = self.path("tlc_%s.out" % module)
        t0 = time.time()
        with open(log, "w") as f:
            try:
                rc = subprocess.run(cmd, cwd=self.tmp, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                raise CheckError("TLC timed out on %s/%s after %ss" % (module, cfg, timeout))
        shutil.rmtree(meta, ignore_errors=True)
        return rc, log, time.time() - t0

    def mc(self, module, cfg, timeout=800, workers=4, mem="6g"):
        """Exhaustive model checking of the design."""
        rc, log, dt = self._tlc(module, cfg, [], timeout, workers=workers, mem=mem)
        txt = open(log).read()
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", txt)
        if rc != 0 or "Model checking completed. No error has been found." not in txt or not m:
            raise CheckError("model checking %s with %s failed (rc %d):\n%s" % (module, cfg, rc, txt[-3000:]))
        g, d, left = map(int, m[-1])
        with self.lock:
            self.states += d
            self.transitions += g
            self.stages.append({"stage": "TLC exhaustive", "module": module, "cfg": cfg, "states": d, "transitions": g, "s": round(dt, 1)})

    def gen(self, module, cfg, num=None, depth=None, timeout=600, salt=0, workers=1, env=None, dedup=True, stack=None):
        """Behaviours of the specification: exhaustive (num None) or simulated."""
        extra = []
        if num:
            extra = ["-simulate", "num=%d" % num, "-depth", str(depth or 100), "-seed", str(self.seed * 7919 + salt)]
        rc, log, dt = self._tlc(module, cfg, extra, timeout, workers=workers, env=env, stack=stack)
        out = self.path(module + ".beh")
        n, seen = 0, set()
        bad = None
        with open(log) as f, open(out, "w") as o:
            for line in f:
                if line.startswith('"BEH '):
                    s = json.loads(line)[4:]
                    if dedup:
                        h = hash(s)
                        if h in seen:
                            continue
                        seen.add(h)
                    o.write(s + "\n")
                    n += 1
                elif line.startswith("Error:") or "TLC threw an unexpected" in line:
                    bad = bad or line
        txt = tail(log, 6000)
        if rc != 0 or bad or n == 0:
            raise CheckError("TLC generation %s/%s failed (rc %d, %d behaviours): %s\n%s" % (module, cfg, rc, n, bad, txt[-3000:]))
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", txt) or \
            [(x, 0) for x in re.findall(r"number of states generated: (\d+)", txt)]
        with self.lock:
            if m:
                self.transitions += int(m[-1][0])
                self.states += int(m[-1][1])
            self.stages.append({"stage": "TLC " + ("simulation" if num else "enumeration"), "module": module, "cfg": cfg, "behaviours": n, "s": round(dt, 1)})
        return out

    # -------------------------------------------------------------- harness
    def run_harness(self, test, env, race=False, timeout=600):
        """Run one harness test; returns its result (None if the process died) and the log text."""
        b = self.binary(race)
        out, prog, log = self.path("out.json"), self.path("progress"), self.path("harness.log")
        e = goenv()
        e.update({k: str(v) for k, v in env.items()})
        e.update(HARNESS_OUT=out, HARNESS_PROGRESS=prog, VERIF_SEED=str(self.seed), VERIF_TIER=self.tier,
                 HARNESS_TMP=self.tmp, HARNESS_PID=self.pid, HARNESS_SRC=HARNESS, HARNESS_REPO=REPO, GOTRACEBACK="all")
        racelog = None
        if race:
            racelog = self.path("race")
            e["GORACE"] = "halt_on_error=0 exitcode=0 log_path=" + racelog
        t0 = time.time()
        timed_out = False
        with open(log, "w") as f:
            p = subprocess.Popen([b, "-test.run", "^%s$" % test, "-test.timeout", "0"], cwd=self.tmp, env=e,
                                 stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
            try:
                p.wait(timeout)
            except subprocess.TimeoutExpired:
                timed_out = True
                try:
                    os.killpg(p.pid, 3)  # SIGQUIT: stacks into the log
                    p.wait(10)
                except Exception:
                    pass
                try:
                    os.killpg(p.pid, 9)
                except Exception:
                    pass
                p.wait()
        res = None
        if os.path.exists(out):
            try:
                res = json.load(open(out))
            except Exception:
                res = None
        races = []
        if racelog:
            for fn in os.listdir(os.path.dirname(racelog)):
                if fn.startswith(os.path.basename(racelog)):
                    races += parse_races(open(os.path.join(os.path.dirname(racelog), fn)).read())
        idx = None
        try:
            idx = int(open(prog).read())
        except Exception:
            pass
        txt = open(log, errors="replace").read()
        with self.lock:
            self.stages.append({"stage": "harness", "test": test, "s": round(time.time() - t0, 1)})
        return res, txt, timed_out, idx, races

    def replay(self, test, beh=None, env=None, race=False, timeout=300, trace=None, default_prop=None):
        """Replay behaviours (or run a recording driver) and collect mismatches."""
        env = dict(env or {})
        if beh:
            env["BEH"] = beh
        if trace:
            env["TRACE_OUT"] = trace
        res, txt, to, idx, races = self.run_harness(test, env, race, timeout)
        if res is None or not res.get("done"):
            # The process died or hung inside a behaviour: confirm on that behaviour alone.
            if "harness:" in txt and "HarnessError" in txt:
                raise CheckError("harness failure in %s:\n%s" % (test, txt[-3000:]))
            env2 = dict(env)
            if idx is not None and beh:
                env2["HARNESS_ONLY"] = idx
            res2, txt2, to2, _, _ = self.run_harness(test, env2, race, min(timeout, 90) if beh else timeout)
            if res2 is not None and res2.get("done"):
                raise CheckError("%s died (timeout=%s) at behaviour %s but not when repeated:\n%s" % (test, to, idx, txt[-3000:]))
            if REPO + "/" not in txt2 and "effective-security/xdb" not in txt2.replace("effective-security/xdb/verif", ""):
                raise CheckError("%s died twice outside the code under test:\n%s" % (test, txt2[-3000:]))
            line = None
            if beh and idx is not None:
                with open(beh) as f:
                    for i, l in enumerate(f):
                        if i == idx:
                            line = json.loads(l)
            self.mismatches.append({"prop": default_prop or self.pid, "key": "hang" if to2 else "crash", "step": -1,
                                    "msg": ("the code under test does not return: " if to2 else "the code under test kills the process: ") + summarize_crash(txt2),
                                    "beh": line, "test": test})
            return None
        if res["errors"]:
            raise CheckError("%s: %s" % (test, "; ".join(res["errors"])))
        with self.lock:
            self.traces += res["cases"]
            self.evals += res["steps"]
            self.distinct += res["nontrivial"]
            for k, v in res["counters"].items():
                self.counters["%s.%s" % (test, k)] = self.counters.get("%s.%s" % (test, k), 0) + v
            for s in res["samples"][:1]:
                self.samples.append({"test": test, "behaviour": clip(s)})
            for m in res["mismatches"]:
                m["test"] = test
                self.mismatches.append(m)
            for r in races:
                self.mismatches.append({"prop": default_prop or self.pid, "key": "race", "step": -1, "msg": "data race: " + r, "beh": None, "test": test})
        if res["cases"] == 0 and not any(m["prop"] == self.pid for m in res["mismatches"]):
            raise CheckError("%s ran no cases" % test)
        return res

    def validate(self, module, cfg, trace, prop=None, timeout=300, stack=None):
        """Check recorded traces of the implementation against the specification."""
        if not os.path.exists(trace):
            return
        traces = json.load(open(trace))
        if not traces:
            raise CheckError("no traces recorded for " + module)
        rc, log, dt = self._tlc(module, cfg, [], timeout, env={"TRACE": trace}, workers=1, stack=stack)
        txt = open(log).read()
        rej = re.findall(r'REJECT (\d+) (\d+)', txt)
        if rc not in (0,) and not rej:
            raise CheckError("trace validation %s failed (rc %d):\n%s" % (module, rc, txt[-3000:]))
        if "Error:" in txt and not rej:
            raise CheckError("trace validation %s failed:\n%s" % (module, txt[-3000:]))
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", txt)
        with self.lock:
            self.traces += len(traces)
            if m:
                self.transitions += int(m[-1][0])
                self.states += int(m[-1][1])
            self.evals += sum(len(t) for t in traces)
            self.stages.append({"stage": "TLC trace validation", "module": module, "traces": len(traces), "events": sum(len(t) for t in traces), "s": round(dt, 1)})
            for i, l in rej:
                i, l = int(i), int(l)
                tr = traces[i - 1]
                self.mismatches.append({"prop": prop or self.pid, "key": "trace", "step": l,
                                        "msg": "recorded trace is not a behaviour of %s: event %d %s cannot follow" % (module, l + 1, json.dumps(tr[l]) if l < len(tr) else "(end)"),
                                        "beh": tr[max(0, l - 40):l + 1], "test": module})

    def par(self, *fs):
        with concurrent.futures.ThreadPoolExecutor(len(fs)) as ex:
            futs = [ex.submit(f) for f in fs]
            for f in futs:
                f.result()


def clip(x, n=1500):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."


def tail(path, n):
    with open(path, "rb") as f:
        f.seek(0, 2)
        size = f.tell()
        f.seek(max(0, size - n))
        return f.read().decode(errors="replace")


def parse_races(txt):
    out = []
    for block in txt.split("=================="):
        if "DATA RACE" not in block:
            continue
        # the two conflicting accesses: first frame of each must be in the code under test
        secs = re.split(r"\n\n", block)
        tops = []
        for s in secs:
            if re.search(r"^(WARNING|Write at|Read at|Previous)", s.strip()) or "by goroutine" in s.split("\n")[0]:
                fr = re.findall(r"\n\s+(/\S+):(\d+)", s)
                tops.append(fr)
        mine = []
        for fr in tops[:2]:
            for f, l in fr:
                if f.startswith(REPO + "/"):
                    mine.append("%s:%s" % (f, l))
                    break
        if mine:
            out.append(" vs ".join(mine))
    return sorted(set(out))


def summarize_crash(txt):
    m = re.search(r"(panic: .*|fatal error: .*)", txt)
    frames = re.findall(re.escape(REPO) + r"/\S+:\d+", txt)
    return (m.group(1)[:300] if m else "no output") + " at " + " <- ".join(frames[:5])


def known_findings():
    """(property, key) -> text, from known_findings.txt."""
    out = {}
    fn = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(fn):
        for l in open(fn):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def main():
    import plans
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    plan = plans.PLANS[pid]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    rc = 2
    try:
        c = Ctx(pid, tier, seed, tmp)
        failed = None
        try:
            plan["run"](c)
        except CheckError as e:
            failed = e  # a violation found all the same is reported
        known = known_findings()
        viol, hit, other = [], {}, 0
        for m in c.mismatches:
            if m["prop"] != pid:
                other += 1
                continue
            k = (pid, m["key"])
            if k in known:
                hit[k] = hit.get(k, 0) + 1
                continue
            viol.append(m)
        if failed is not None and not viol:
            raise failed
        for k in hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": plan["level"],
            "coverage": {
                "states": c.states, "transitions": c.transitions, "traces_validated_against_impl": c.traces,
                "samples": c.samples[:4] or [{"note": "no sample"}],
                "evaluations": c.evals, "distinct_nontrivial": c.distinct,
                "rule": plan["rule"],
                "stages": c.stages, "counters": c.counters,
                "mismatches_of_other_properties": other,
            },
            "assumptions": plan["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": len(viol),
        }
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if viol:
            rp = os.path.join(EVID, "replay_%s.json" % pid)
            with open(rp, "w") as f:
                json.dump(viol[:20], f, indent=1)
            for m in viol[:5]:
                print("  %s [%s] step %s: %s" % (m["test"], m["key"], m["step"], m["msg"][:600]))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            rc = 1
        else:
            if other:
                print("note: %d mismatches that are about other properties, e.g. %s" % (other, next(m["prop"] + ": " + m["msg"][:300] for m in c.mismatches if m["prop"] != pid)))
            print("OK property=%s tier=%s seed=%d states=%d transitions=%d traces=%d steps=%d wall=%.1fs" % (
                pid, tier, seed, c.states, c.transitions, c.traces, c.evals, time.time() - t0))
            rc = 0
    except CheckError as e:
        print("ERROR property=%s %s" % (pid, e))
        rc = 2
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
