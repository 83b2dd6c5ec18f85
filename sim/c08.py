"""C08: reading a run yields every snapshot exactly once, in order.

Simulated writers append snapshots to their own output while several readers, each at its own pace, advance through them.  The
seeded scheduler decides who acts next.  Every cluster handed out is compared with what the writer wrote."""
import os

import numpy as np

from . import disk as D
from . import world as W
from .core import Check, HarnessError, Violation

CONV = ("pckms", "kpckms", "pcmyr", "kpcgyr", "galpy", "nbody", "WDunits")


def gen_opts(rng, run):
    o = {}
    if rng.random() < 0.2:
        o["sortstars"] = False
    if rng.random() < 0.12 and run["fmt"] in ("nbody6", "nbody6pp", "hdf5", "snapshot"):
        o["analyze"] = False
    if rng.random() < 0.2:
        o["projected"] = True
    return o


class C08(Check):
    prop = "C08"
    quick_runs = 3500
    thorough_runs = 40000
    quick_wall = 50.0
    thorough_wall = 800.0
    real = ["load_cluster, advance_cluster and every file reader behind them (clustertools/io)", "StarCluster", "numpy.loadtxt, h5py, the file system"]
    stub = ["the simulation codes: simulated writers that append exactly known snapshots to scratch directories"]
    rule = "a run counts as non-trivial when at least two snapshots were read and compared; distinct by event-log digest"
    state_measure = "distinct (format, options, reader position, writer position, readers of the run, last event) tuples"
    fault_kinds = ("late-snapshot", "interleaved-reader", "frame-change", "read-past-end")
    assumptions = ["writers add whole snapshots (torn ones are C09's)", "hdf5 group files come with their conf.3 file",
                   "binary logarithmic luminosities and radii of nbody6++ are not compared (the loader adds logarithms)",
                   "keywords load_cluster documents per call (col_names, col_nums, dtout, ounits, otime, sortstars, analyze) are given again on advance"]

    def warm(self):
        import h5py  # noqa: F401

    def generate(self, rng, tier, index):
        nruns = rng.choice([1, 1, 2, 2, 3])
        runs = [D.gen_run(rng) for _ in range(nruns)]
        ops = []
        nreaders = rng.randint(1, 3 if nruns < 3 else 4)
        mode = rng.choice(["ahead", "tail", "mixed"])
        for i, r in enumerate(runs):
            w = r["nsnap"] if mode == "ahead" else rng.randint(1, r["nsnap"])
            ops += [dict(op="write", run=i)] * w
        readers = []
        for j in range(nreaders):
            i = rng.randrange(nruns) if j >= nruns else j
            r = runs[i]
            k0 = 0
            if r["fmt"] in ("snapshot", "nbody6pp") and rng.random() < 0.4:
                k0 = rng.randrange(r["nsnap"])
            if r["fmt"] == "hdf5" and not r["orbit"] and rng.random() < 0.3:
                k0 = rng.randrange(r["nsnap"])
            galpy = rng.random() < 0.12 and not r["orbit"] and r["origin"] is not None
            readers.append(dict(run=i, k0=k0, opt=gen_opts(rng, r), galpy=galpy, units=r["units"]))
        n = rng.randint(4, 14 if tier == "quick" else 30)
        tail = []
        for _ in range(n):
            x = rng.random()
            j = rng.randrange(nreaders)
            if x < 0.2:
                tail.append(dict(op="write", run=rng.randrange(nruns)))
            elif x < 0.72:
                tail.append(dict(op="adv", r=j))
            elif x < 0.9:
                tail.append(dict(op="conv", r=j, u=rng.choice(CONV), o=rng.choice([None, "cluster", "centre", "galaxy"])))
            elif x < 0.95:
                tail.append(dict(op="again", r=j))
            else:
                tail.append(dict(op="open", r=j))
        if rng.random() < 0.7:
            j = rng.randrange(nreaders)
            tail += [dict(op="adv", r=j)] * (runs[readers[j]["run"]]["nsnap"] + 1)
        return dict(runs=runs, readers=readers, ops=ops + tail)

    def simplify(self, plan):
        for i, r in enumerate(plan["runs"]):
            for k, v in (("orbit", False), ("ev", False), ("reg", False), ("binaries", False), ("nmax", 4), ("cols", False),
                         ("give", "mxv"), ("dtout", 1), ("snapdir", ""), ("skiprows", 0), ("delimiter", None), ("head", 13),
                         ("ngroups", 1), ("otime", False), ("ounits", None), ("units", "pckms")):
                if r[k] != v and not (k == "units" and r["fmt"] in ("nbody6", "nbody6pp", "hdf5")):
                    q = dict(plan, runs=[dict(x) for x in plan["runs"]])
                    q["runs"][i][k] = v
                    if k == "units":
                        q["readers"] = [dict(x, units=v) if x["run"] == i else x for x in plan["readers"]]
                    yield q
        for j, r in enumerate(plan["readers"]):
            if r["opt"]:
                q = dict(plan, readers=[dict(x) for x in plan["readers"]])
                q["readers"][j]["opt"] = {}
                yield q

    # ------------------------------------------------------------------------------------------
    def execute(self, plan, log):
        with D.Disk() as disk:
            cwd = os.getcwd()
            os.chdir(disk.path())
            try:
                self.play(plan, log, disk)
            finally:
                os.chdir(cwd)

    def orbit(self):
        from galpy.orbit import Orbit
        from galpy.potential import LogarithmicHaloPotential
        o = Orbit([1.0, 0.1, 1.1, 0.05, 0.02, 0.3], ro=8.275, vo=8.275 * 30.39 - 12.24)
        o.integrate(np.linspace(0.0, 20.0, 2001), LogarithmicHaloPotential(normalize=1.0))
        return o

    def play(self, plan, log, disk):
        import clustertools as ct
        runs = [D.Run(s, disk.path("run%d" % i)) for i, s in enumerate(plan["runs"])]
        orb = self.orbit() if any(r["galpy"] for r in plan["readers"]) else None
        rd = [None] * len(plan["readers"])
        compared = 0
        for i, op in enumerate(plan["ops"]):
            kind = op["op"]
            if kind == "write":
                if op["run"] < len(runs) and runs[op["run"]].write():
                    log.ev(i, "write", op["run"], runs[op["run"]].written)
                    if any(q is not None and plan["readers"][j]["run"] == op["run"] for j, q in enumerate(rd)):
                        log.fault("late-snapshot")
                continue
            j = op["r"]
            spec = plan["readers"][j]
            run = runs[spec["run"]]
            where = "op %d (%s by reader %d of run %d)" % (i, kind, j, spec["run"])
            log.steps += 1
            try:
                if kind == "open" or rd[j] is None:
                    k = run.first(spec["k0"])
                    if k >= run.written:
                        continue
                    kw = run.loadkw(spec["k0"], spec["opt"])
                    if spec["galpy"]:
                        kw["orbit"] = orb
                    cl = ct.load_cluster(**kw)
                    rd[j] = [cl, k, False]
                    self.compare(cl, run, k, spec, where, log, orb)
                    compared += 1
                elif kind in ("adv", "again"):
                    cl, k, conv = rd[j]
                    if kind == "again" and (run.fmt not in ("snapshot", "new_gyrfalcon", "nbody6pp") or run.s["orbit"]):
                        continue
                    before = W.snapshot(cl)
                    kw = dict(run.perkw(), **{q: v for q, v in spec["opt"].items() if q != "projected"})
                    if spec["galpy"]:
                        kw["orbit"] = orb
                    new = ct.advance_cluster(cl, **kw)
                    W.compare_snap(before, W.snapshot(cl), where + ": the earlier cluster", self.tol(before), allow=("nsnap",))
                    if k + 1 < run.written:
                        self.compare(new, run, k + 1, spec, where, log, orb)
                        compared += 1
                        if kind == "adv":
                            rd[j] = [new, k + 1, False]
                        if sum(1 for q in rd if q is not None) > 1:
                            log.fault("interleaved-reader")
                    else:
                        log.fault("read-past-end")
                        run.check_empty(new, where)
                elif kind == "conv":
                    cl, k, conv = rd[j]
                    self.convert(cl, op, run)
                    rd[j][2] = True
                    log.fault("frame-change")
            except (Violation, HarnessError):
                raise
            except Exception as ex:
                import traceback
                tb = traceback.extract_tb(ex.__traceback__)
                ours = [f for f in tb if "clustertools" in f.filename]
                if not ours:
                    raise
                raise Violation("error:%s:%s" % (run.fmt, type(ex).__name__), "%s raised %r at %s:%d (%s)" % (
                    where, ex, os.path.basename(ours[-1].filename), ours[-1].lineno, ours[-1].name))
            log.ev(i, kind, j, rd[j][1], rd[j][0].ntot)
            log.state(run.fmt, run.s["origin"], run.s["orbit"], rd[j][1], run.written, kind, tuple(sorted(spec["opt"])))
        log.nontrivial = compared >= 2

    def convert(self, cl, op, run):
        """the user looks at the snapshot in another frame before moving on"""
        if cl.units is None:
            return
        cl.to_units(op["u"])
        if op["o"] is not None and cl.origin is not None:
            cl.to_origin(op["o"])

    def tol(self, snap):
        mag = {}
        for q in W.XK + W.VK:
            fam = W.XK if q in W.XK else W.VK
            mag[q] = max(np.max(np.abs(W.num(snap[a + s]))) if np.size(snap.get(a + s, 0)) else 0.0 for a in fam for s in ("", "c", "gc"))
        def f(k):
            b = k
            for s in ("gc", "c"):
                if b.endswith(s) and b[:-len(s)] in mag:
                    b = b[:-len(s)]
            return 1e-10 * mag.get(b, 0.0) + 1e-300
        return f

    def compare(self, cl, run, k, spec, where, log, orb):
        if not hasattr(cl, "ntot"):
            raise Violation("nothing:%s" % run.fmt, "%s: no cluster is returned" % where)
        run.check(cl, k, where, orow=k if run.s["orbit"] else None, opt=dict(spec["opt"], galpy=spec["galpy"]))
        if spec["galpy"] and orb is not None:
            from galpy.util import conversion
            L, V, M, T = run.factors(run.s["units"], k)
            t = run.truth(k)["time"] / T / 1000.0 / conversion.time_in_Gyr(ro=8.275, vo=8.275 * 30.39 - 12.24)
            for q in D.XV:
                want = float(getattr(orb, q)(t)) * (1000.0 * L if len(q) == 1 else V)
                got = float(W.num(getattr(cl, q + "gc")))
                if not W.close(got, want, 1e-8, 1e-9 * (9000.0 * L if len(q) == 1 else 240.0 * V)):
                    raise Violation("wrong:%s:orbit" % run.fmt, "%s: %sgc %r, the orbit given is at %r at the snapshot's time" % (
                        where, q, got, want))
        for q in ("m", "x", "vx"):
            log.arr(q, getattr(cl, q))
        log.probe("compared:" + run.fmt)
