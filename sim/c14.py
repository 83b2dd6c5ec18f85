"""C14: a run continued in a restart directory is read through without gap or repeat.

The simulated code is stopped (its process is gone, what it wrote stays) and started again in wdir/cont/, possibly several
times; a reader advances through it, sometimes reaching the end before the restart directory, or its first file, exists."""
import os

from . import disk as D
from . import world as W
from . import c08
from .core import HarnessError, Violation


class C14(c08.C08):
    prop = "C14"
    quick_runs = 3000
    thorough_runs = 60000
    quick_wall = 50.0
    thorough_wall = 800.0
    rule = "a run counts as non-trivial when a reader crossed into a restart directory and the snapshot it got was compared; distinct by event-log digest"
    state_measure = "distinct (format, options, reader position, start of the part being read, parts, last event) tuples"
    fault_kinds = ("stop-and-continue", "read-before-restart", "empty-restart-dir", "frame-change")
    assumptions = ["a continuation holds only the snapshots after the stop; numbered files continue their numbering",
                   "orbit files are used only with single-file formats, where the continuation has its own",
                   "hdf5 runs are stopped between files"] + c08.C08.assumptions[2:]

    def generate(self, rng, tier, index):
        run = D.gen_run(rng, nsnap=rng.randint(2, 7))
        if run["fmt"] not in D.STREAM:
            run["orbit"] = False
        ops = [dict(op="write")]
        n = rng.randint(5, 16 if tier == "quick" else 40)
        p = rng.choice([0.1, 0.2, 0.35])
        for _ in range(n):
            x = rng.random()
            if x < 0.33:
                ops.append(dict(op="write"))
            elif x < 0.33 + p * 0.6:
                ops.append(dict(op="stop"))
            elif x < 0.33 + p * 0.75:
                ops.append(dict(op="mkdir"))
            elif x < 0.88:
                ops.append(dict(op="adv"))
            else:
                ops.append(dict(op="conv", u=rng.choice(c08.CONV), o=rng.choice([None, "cluster", "centre", "galaxy"])))
        if rng.random() < 0.8:
            ops += [dict(op="adv")] * (run["nsnap"] + 1)
        k0 = 0
        return dict(runs=[run], readers=[dict(run=0, k0=k0, opt=c08.gen_opts(rng, run), galpy=False, units=run["units"])], ops=ops)

    def play(self, plan, log, disk):
        import clustertools as ct
        root = disk.path("run0")
        run = D.Run(plan["runs"][0], root)
        spec = plan["readers"][0]
        parts = [(0, root)]              # (first snapshot, directory)
        pending = None
        rd = None
        crossed = 0
        ng = run.s["ngroups"] if run.fmt == "hdf5" else 1
        for i, op in enumerate(plan["ops"]):
            kind = op["op"]
            where = "op %d (%s)" % (i, kind)
            if kind == "write":
                if pending is not None and run.written < run.s["nsnap"]:
                    parts.append((run.written, pending))
                    pending = None
                if run.write(parts[-1][1]):
                    log.ev(i, "write", run.written, len(parts))
                continue
            if kind in ("stop", "mkdir"):
                if pending is None and run.written:
                    pending = os.path.join(parts[-1][1], "cont")
                    log.fault("stop-and-continue")
                if kind == "mkdir" and pending is not None:
                    os.makedirs(os.path.join(pending, run.s["snapdir"]), exist_ok=True)
                    log.fault("empty-restart-dir")
                log.ev(i, kind)
                continue
            log.steps += 1
            try:
                if rd is None:
                    cl = ct.load_cluster(**run.loadkw(0, spec["opt"]))
                    rd = [cl, 0]
                    self.one(cl, run, 0, parts, spec, where, log)
                elif kind == "adv":
                    cl, k = rd
                    before = W.snapshot(cl)
                    new = ct.advance_cluster(cl, **dict(run.perkw(), **{q: v for q, v in spec["opt"].items() if q != "projected"}))
                    W.compare_snap(before, W.snapshot(cl), where + ": the earlier cluster", self.tol(before), allow=("nsnap",))
                    if k + 1 < run.written:
                        self.one(new, run, k + 1, parts, spec, where, log)
                        if any(a == k + 1 for a, _ in parts[1:]):
                            crossed += 1
                            log.probe("crossed:" + run.fmt)
                        rd = [new, k + 1]
                    else:
                        log.fault("read-before-restart")
                        run.check_empty(new, where)
                elif kind == "conv":
                    self.convert(rd[0], op, run)
                    log.fault("frame-change")
            except (Violation, HarnessError):
                raise
            except Exception as ex:
                import traceback
                tb = traceback.extract_tb(ex.__traceback__)
                ours = [f for f in tb if "clustertools" in f.filename]
                if not ours:
                    raise
                raise Violation("error:%s:%s" % (run.fmt, type(ex).__name__), "%s raised %r at %s:%d (%s)" % (
                    where, ex, os.path.basename(ours[-1].filename), ours[-1].lineno, ours[-1].name))
            log.ev(i, kind, rd[1], rd[0].ntot)
            log.state(run.fmt, run.s["origin"], run.s["orbit"], rd[1], tuple(a for a, _ in parts), kind, tuple(sorted(spec["opt"])))
        log.nontrivial = crossed > 0

    def one(self, cl, run, k, parts, spec, where, log):
        start = max(a for a, _ in parts if a <= k)
        off = start if run.fmt in D.STREAM else 0
        self.compare(cl, run, k, dict(spec, opt=dict(spec["opt"], part=off)), where, log, None)
        if getattr(cl, "projected", None) is not None and run.fmt in ("gyrfalcon", "new_gyrfalcon", "snapshot") \
                and bool(cl.projected) != bool(spec["opt"].get("projected", False)):
            raise Violation("option:projected", "%s: projected=%r, the reader was opened with %r" % (
                where, cl.projected, spec["opt"].get("projected", False)))
