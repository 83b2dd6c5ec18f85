"""Core of the simulator: seeds, forked isolated runs, digests, minimiser, replay files, evidence.

One run is a pure function of its plan (a JSON value) and the code under test.  The plan is a pure
function of (VERIF_SEED, property, run index).  Every run is executed in its own forked process, so
nothing leaks from one run to the next and a replay file means the same thing in a fresh process.
"""
import hashlib
import json
import os
import pickle
import random
import signal
import struct
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
REPLAYS = os.path.join(EVIDENCE, "replays")
KNOWN = os.path.join(VERIF, "known_findings.json")
RUN_TIMEOUT = float(os.environ.get("VERIF_RUN_TIMEOUT", "90"))


class Violation(Exception):
    """The property does not hold. sig: short class used while minimising and for known findings."""

    def __init__(self, sig, msg):
        Exception.__init__(self, "%s: %s" % (sig, msg))
        self.sig = sig
        self.msg = msg


class HarnessError(Exception):
    pass


def derive(*parts):
    h = hashlib.sha256(":".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


class Log:
    """Event log of one run: a digest for the determinism check, counters for the evidence."""

    def __init__(self, keep=False):
        self._h = hashlib.sha256()
        self.n = 0
        self.keep = keep
        self.lines = []
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.simtime = 0.0
        self.steps = 0
        self.nontrivial = False

    def ev(self, *a):
        s = " ".join(str(x) for x in a)
        self._h.update(s.encode("utf8", "replace"))
        self._h.update(b"\n")
        self.n += 1
        if self.keep or len(self.lines) < 12:
            self.lines.append(s[:300])

    def arr(self, name, a):
        import numpy as np
        try:
            b = np.ascontiguousarray(np.asarray(a, dtype=float))
            self._h.update(name.encode())
            self._h.update(b.tobytes())
        except Exception:
            self._h.update(repr(type(a)).encode())

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *key):
        self.states.add(hashlib.md5(repr(key).encode()).hexdigest()[:12])

    def digest(self):
        return self._h.hexdigest()


class Check:
    prop = "C00"
    level = "exploration"
    quick_runs = 100
    thorough_runs = 2000
    quick_wall = 75.0
    thorough_wall = 700.0
    real = []
    stub = []
    rule = ""
    assumptions = []
    fault_kinds = ()
    state_measure = "distinct abstract states visited"
    jit = False

    def warm(self):
        pass

    def generate(self, rng, tier, index):
        raise NotImplementedError

    def execute(self, plan, log):
        raise NotImplementedError

    def simplify(self, plan):
        return ()

    def fixed_plans(self, tier):
        """Directed plans run before the seeded ones (each is itself an ordinary plan)."""
        return []


# ----------------------------------------------------------------------------------------------
def run_plan(check, plan, keep=False):
    """Execute one plan in this process. Returns dict(sig,msg,digest,...)."""
    log = Log(keep=keep)
    out = dict(sig=None, msg=None, harness=None)
    try:
        check.execute(plan, log)
    except Violation as v:
        out["sig"], out["msg"] = v.sig, v.msg
    except HarnessError as e:
        out["harness"] = "HarnessError: %s\n%s" % (e, traceback.format_exc())
    except MemoryError:
        out["harness"] = "MemoryError\n" + traceback.format_exc()
    except Exception:
        out["harness"] = traceback.format_exc()
    out.update(digest=log.digest(), faults=log.faults, probes=log.probes, states=list(log.states),
               simtime=log.simtime, steps=log.steps, n=log.n, nontrivial=log.nontrivial,
               lines=log.lines if keep else log.lines[:12])
    return out


def _quiet():
    dn = os.open(os.devnull, os.O_RDWR)
    os.dup2(dn, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(dn, 2)
    os.close(dn)


def forked_run(check, plan, keep=False, timeout=None):
    """Run the plan in a forked child; kill it after the timeout."""
    timeout = timeout or RUN_TIMEOUT
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                os.setpgid(0, 0)
            except OSError:
                pass
            _quiet()
            out = run_plan(check, plan, keep)
            data = pickle.dumps(out)
            with os.fdopen(w, "wb") as f:
                f.write(struct.pack("<Q", len(data)))
                f.write(data)
        except BaseException:
            code = 3
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    import select
    buf = b""
    deadline = time.monotonic() + timeout
    timed_out = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            timed_out = True
            break
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        buf += chunk
    os.close(r)
    if timed_out:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    _, status = os.waitpid(pid, 0)
    if timed_out:
        return dict(sig="no-progress", msg="the run did not finish within %g s" % timeout, harness=None,
                    digest="timeout", faults={}, probes={}, states=[], simtime=0, steps=0, n=0,
                    nontrivial=False, lines=[])
    if len(buf) >= 8:
        n = struct.unpack("<Q", buf[:8])[0]
        if len(buf) - 8 >= n:
            return pickle.loads(buf[8:8 + n])
    return dict(sig="process-died", msg="the run ended the process (status %r)" % status, harness=None,
                digest="died", faults={}, probes={}, states=[], simtime=0, steps=0, n=0,
                nontrivial=False, lines=[])


def plan_for(check, seed, index, tier):
    fixed = check.fixed_plans(tier)
    if index < len(fixed):
        return fixed[index]
    rng = random.Random(derive(seed, check.prop, index))
    return json.loads(json.dumps(check.generate(rng, tier, index)))


def _worker(check, seed, tier, indices, wfd, deadline, redo):
    w = os.fdopen(wfd, "wb")
    for k, index in enumerate(indices):
        if time.monotonic() > deadline:
            break
        try:
            plan = plan_for(check, seed, index, tier)
        except Exception:
            res = dict(sig=None, msg=None, harness="generate: " + traceback.format_exc(), digest="", faults={},
                       probes={}, states=[], simtime=0, steps=0, n=0, nontrivial=False, lines=[])
        else:
            res = forked_run(check, plan)
            if index in redo and res["sig"] is None and not res["harness"]:
                res2 = forked_run(check, plan)
                res["redo_ok"] = (res2["digest"] == res["digest"])
        res["index"] = index
        data = pickle.dumps(res)
        w.write(struct.pack("<Q", len(data)))
        w.write(data)
        w.flush()
        if res["sig"] is not None and res.get("stop_on", True):
            pass
    w.close()
    os._exit(0)


def run_many(check, seed, tier, nruns, wall, nworkers=None, stop_after=4, filt=None):
    """Run indices 0..nruns-1 on forked workers. Returns list of results in index order."""
    nworkers = nworkers or min(8, os.cpu_count() or 1)
    nworkers = max(1, min(nworkers, nruns))
    deadline = time.monotonic() + wall
    redo = set(i for i in range(nruns) if derive(seed, check.prop, "redo", i) % 40 == 0)
    procs = []
    sys.stdout.flush()
    sys.stderr.flush()
    for k in range(nworkers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for rr, _ in procs:
                    os.close(rr)
                _quiet()
                _worker(check, seed, tier, list(range(k, nruns, nworkers)), w, deadline, redo)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(1)
        os.close(w)
        procs.append((r, pid))
    import select
    bufs = {r: b"" for r, _ in procs}
    open_fds = set(bufs)
    results = []
    nbad = 0
    hard = deadline + RUN_TIMEOUT + 10
    stopped = False
    while open_fds:
        rd, _, _ = select.select(list(open_fds), [], [], 1.0)
        for fd in rd:
            chunk = os.read(fd, 1 << 20)
            if not chunk:
                open_fds.discard(fd)
                continue
            bufs[fd] += chunk
            while len(bufs[fd]) >= 8:
                n = struct.unpack("<Q", bufs[fd][:8])[0]
                if len(bufs[fd]) < 8 + n:
                    break
                res = pickle.loads(bufs[fd][8:8 + n])
                bufs[fd] = bufs[fd][8 + n:]
                results.append(res)
                if res["sig"] is not None and (filt is None or filt(res)):
                    nbad += 1
        if nbad >= stop_after or time.monotonic() > hard:
            stopped = True
            break
    if stopped:
        for fd, pid in procs:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
    for fd, pid in procs:
        os.close(fd)
        try:
            os.waitpid(pid, 0)
        except OSError:
            pass
    results.sort(key=lambda r: r["index"])
    return results


# ---------------------------------------------------------------------------------- minimiser
def minimise(check, plan, sig, budget_s=45.0, budget_n=250):
    """ddmin over plan['ops'] (and 'faults'), then check-specific simplifications."""
    t0 = time.monotonic()
    count = [0]

    def bad(p):
        if time.monotonic() - t0 > budget_s or count[0] >= budget_n:
            return False
        count[0] += 1
        r = forked_run(check, p, timeout=30)
        return r["sig"] == sig and not r["harness"]

    def ddmin(key):
        nonlocal plan
        seq = plan.get(key)
        if not isinstance(seq, list) or len(seq) < 1:
            return
        n = 2
        while len(seq) >= 1:
            size = max(1, len(seq) // n)
            reduced = False
            for i in range(0, len(seq), size):
                cand = seq[:i] + seq[i + size:]
                p = dict(plan)
                p[key] = cand
                if bad(p):
                    seq = cand
                    plan = p
                    n = max(2, n - 1)
                    reduced = True
                    break
            if not reduced:
                if size == 1:
                    break
                n = min(len(seq), n * 2)
            if time.monotonic() - t0 > budget_s:
                break

    for _ in range(2):
        before = json.dumps(plan, sort_keys=True)
        for key in ("faults", "ops"):
            ddmin(key)
        progress = True
        while progress and time.monotonic() - t0 < budget_s:
            progress = False
            for cand in check.simplify(plan):
                if bad(cand):
                    plan = cand
                    progress = True
                    break
        if json.dumps(plan, sort_keys=True) == before:
            break
    return plan, count[0]


# ------------------------------------------------------------------------------ known findings
def load_known(prop):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        data = json.load(f)
    return [k for k in data.get("findings", []) if k.get("property") == prop]


def known_match(known, res):
    for k in known:
        if k["sig"] == res["sig"] and (not k.get("contains") or k["contains"] in (res["msg"] or "")):
            return k
    return None


# ------------------------------------------------------------------------------------ main
def main(check, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--digests", action="store_true")
    ap.add_argument("--one", type=int, help="run one index verbosely in this process")
    ap.add_argument("--no-minimise", action="store_true")
    ap.add_argument("--all", action="store_true", help="list every violation class found, without stopping")
    a = ap.parse_args(argv)
    t0 = time.time()
    check.warm()

    if a.replay:
        with open(a.replay) as f:
            rec = json.load(f)
        res = forked_run(check, rec["plan"], keep=True)
        for l in res["lines"]:
            print("  ", l)
        if res["harness"]:
            print("HARNESS ERROR", res["harness"])
            return 2
        if res["sig"]:
            print("REPRODUCED %s: %s" % (res["sig"], res["msg"]))
            print("digest %s" % res["digest"])
            print("VIOLATION property=%s replay=%s" % (check.prop, a.replay))
            return 1
        print("not reproduced")
        return 0

    if a.one is not None:
        plan = plan_for(check, a.seed, a.one, a.tier)
        print(json.dumps(plan)[:3000])
        res = forked_run(check, plan, keep=True)
        for l in res["lines"]:
            print("  ", l)
        print({k: v for k, v in res.items() if k not in ("lines", "states")})
        return 0

    quick = a.tier != "thorough"
    nruns = a.runs or (check.quick_runs if quick else check.thorough_runs)
    wall = a.wall or (check.quick_wall if quick else check.thorough_wall)
    known = load_known(check.prop)
    stop = 10 ** 9 if a.all else 3
    results = run_many(check, a.seed, a.tier, nruns, wall, a.workers, stop_after=stop,
                       filt=lambda r: known_match(known, r) is None)
    if a.digests:
        for r in results:
            print(r["index"], r["digest"], r["sig"])
        return 0
    harness = [r for r in results if r["harness"]]
    bad = [r for r in results if r["sig"] is not None]
    suppressed = [r for r in bad if known_match(known, r)]
    fresh = [r for r in bad if not known_match(known, r)]
    if a.all:
        classes = {}
        for r in bad:
            classes.setdefault(r["sig"], []).append(r)
        for s, rs in sorted(classes.items(), key=lambda kv: -len(kv[1])):
            print("CLASS %s x%d first index %d: %s" % (s, len(rs), rs[0]["index"], (rs[0]["msg"] or "")[:600]))

    # Known findings are reported from their own deterministic reproducers.
    kf_seen = []
    for k in known:
        rep = forked_run(check, k["plan"]) if k.get("plan") else None
        if rep is not None and rep["sig"] == k["sig"]:
            print("KNOWN-FINDING: property=%s %s" % (check.prop, k["title"]))
            kf_seen.append(k["title"])
        elif any(known_match([k], r) for r in suppressed):
            print("KNOWN-FINDING: property=%s %s" % (check.prop, k["title"]))
            kf_seen.append(k["title"])

    violations = []
    if fresh and not a.all:
        os.makedirs(REPLAYS, exist_ok=True)
        r0 = fresh[0]
        plan0 = plan_for(check, a.seed, r0["index"], a.tier)
        plan, tries = plan0, 0
        if not a.no_minimise:
            plan, tries = minimise(check, plan0, r0["sig"])
        res = forked_run(check, plan, keep=True)
        if res["sig"] != r0["sig"]:
            plan = plan0
            res = forked_run(check, plan, keep=True)
        path = os.path.join(REPLAYS, "%s-%d-%d.json" % (check.prop, a.seed, r0["index"]))
        with open(path, "w") as f:
            json.dump(dict(property=check.prop, seed=a.seed, index=r0["index"], tier=a.tier, sig=res["sig"],
                           message=res["msg"], digest=res["digest"], minimise_executions=tries,
                           trace=res["lines"], original_ops=len(plan0.get("ops", [])) if isinstance(plan0, dict) else None,
                           plan=plan), f, indent=1)
        env = dict(os.environ)
        cp = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), check.prop, "--replay", path],
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=300)
        again = cp.returncode == 1
        print("seed %d run %d: %s: %s" % (a.seed, r0["index"], res["sig"], (res["msg"] or "")[:1500]))
        print("replay in a fresh process: %s" % ("reproduced" if again else "NOT reproduced (rc %d)" % cp.returncode))
        violations.append(dict(sig=res["sig"], message=(res["msg"] or "")[:2000], replay=path, confirmed=again,
                               run=r0["index"]))
        print("VIOLATION property=%s replay=%s" % (check.prop, path))

    write_evidence(check, a, results, violations, kf_seen, suppressed, time.time() - t0)
    if harness:
        print("HARNESS ERRORS: %d of %d runs" % (len(harness), len(results)))
        print(harness[0]["index"], harness[0]["harness"][:3000])
    if violations:
        return 1
    if a.all and fresh:
        return 1
    if harness:
        return 2
    if not results:
        print("no run finished")
        return 2
    mism = sum(1 for r in results if r.get("redo_ok") is False)
    print("%s %s: %d runs, %d distinct states, %d steps, %.1f s, determinism %d/%d%s" % (
        check.prop, a.tier, len(results), len(set(s for r in results for s in r["states"])),
        sum(r["steps"] for r in results), time.time() - t0,
        sum(1 for r in results if r.get("redo_ok")), sum(1 for r in results if "redo_ok" in r),
        " MISMATCH" if mism else ""))
    return 0


def write_evidence(check, a, results, violations, kf, suppressed, wall):
    os.makedirs(EVIDENCE, exist_ok=True)
    faults, probes, states = {}, {}, set()
    for r in results:
        for k, v in r["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r["probes"].items():
            probes[k] = probes.get(k, 0) + v
        states.update(r["states"])
    samples = []
    for r in results[:400]:
        if r["lines"] and len(samples) < 4 and r["nontrivial"]:
            samples.append(dict(run=r["index"], trace=r["lines"][:8]))
    if not samples:
        samples = [dict(run=r["index"], trace=r["lines"][:8]) for r in results[:3]]
    hours = max(wall, 1e-9) / 3600.0
    ev = dict(
        property=check.prop, tier="thorough" if a.tier == "thorough" else "quick", seed=a.seed, level=check.level,
        coverage=dict(
            evaluations=len(results),
            distinct_nontrivial=len(set(r["digest"] for r in results if r["nontrivial"])),
            rule=check.rule or "a run counts as non-trivial when it executed its scenario to the end with at least one oracle comparison; distinct by event-log digest",
            samples=samples,
            runs_per_hour=round(len(results) / hours),
            simulated_steps=sum(r["steps"] for r in results),
            simulated_time_myr=round(sum(r["simtime"] for r in results), 3),
            faults_injected=faults, probes=probes,
            distinct_states=len(states), state_measure=check.state_measure,
            determinism_reruns=sum(1 for r in results if "redo_ok" in r),
            determinism_mismatches=sum(1 for r in results if r.get("redo_ok") is False),
            real_components=list(check.real), stub_components=list(check.stub),
            known_findings_seen=kf, known_finding_runs=len(suppressed),
            harness_errors=sum(1 for r in results if r["harness"]),
        ),
        assumptions=list(check.assumptions), wall_s=round(wall, 2), violations=len(violations))
    ev["coverage"]["violation_reports"] = violations
    tmp = os.path.join(EVIDENCE, ".%s.tmp" % check.prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(EVIDENCE, "%s.json" % check.prop))
