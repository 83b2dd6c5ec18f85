"""C03: answers depend on the current state, never on the route that led to it."""
import copy

import numpy as np

from . import asks as A, edits as E, world as W
from .core import Check, HarnessError, Violation
from .c01 import C01
from .c02 import BOOK

SKIP = BOOK | set(W.CONFKEYS[9:]) | set(["rtide", "xcn", "ycn", "zcn", "give"])


ORDERED = ["rlagrange", "f:rlagrange"]


def scale_tol(cl):
    """tolerance per key: rounding relative to the largest number of that kind that went through the arithmetic"""
    big = {}
    for keys in (W.XK, W.VK):
        m = 0.0
        for k in keys:
            for s in ("", "c", "gc"):
                v = np.abs(W.num(getattr(cl, k + s)))
                m = max(m, float(np.nanmax(v)) if np.size(v) else 0.0)
        for k in keys:
            big[k] = m
    def f(key):
        b = key[:-2] if key.endswith("gc") else key[:-1] if key.endswith("c") and key[:-1] in big else key
        return 1e-9 * big.get(b, 0.0)
    return f


class C03(C01):
    prop = "C03"
    quick_runs = 700
    thorough_runs = 20000
    real = ["every analysis, profile, conversion and edit of StarCluster", "galpy", "scipy", "astropy", "matplotlib (Agg)"]
    rule = ("seeded histories of edits, frame changes and questions; at every step the same operation is put to a fresh cluster "
            "built from the current public data and answers and resulting data are compared; non-trivial when at least three "
            "steps were compared; distinct by event-log digest")
    state_measure = "distinct (operation, options, units, origin, previous operation) combinations"
    assumptions = ["the twin is not built in amuse units", "after direct edits of arrays the caller runs analyze(), as documented",
                   "stored energies are public data and are carried to the twin"]

    def warm(self):
        A.build()

    def generate(self, rng, tier, index):
        spec = W.gen_spec(rng, nmin=8, nmax=22, energies=True)
        spec2 = W.gen_spec(rng, nmin=8, nmax=16, energies=True) if rng.random() < 0.3 else None
        ops = []
        for _ in range(rng.randint(4, 10)):
            c = rng.random()
            k = 1 if spec2 and rng.random() < 0.35 else 0
            sp = spec2 if k else spec
            if c < 0.3:
                op = W.gen_frame_op(rng, sp, amuse=rng.random() < 0.3)
                if op["op"] == "units":
                    op["analyze"] = True
            elif c < 0.62:
                op = E.gen(rng, sp)
            elif c < 0.68:
                op = dict(op="sub", kw=A.ASKS["sub_cluster"].gen(rng, sp))
            else:
                op = A.gen_ask(rng, sp)
            ops.append(dict(op, c=k))
            if rng.random() < 0.06:
                # the frame is changed without sorting the stars: Lagrange radii see to the order themselves
                there, back = rng.sample(["galaxy", rng.choice(["cluster", "centre"])], 2)
                for o, srt in ((there, True), (back, False)):
                    ops.append(dict(op="origin", o=o, via=rng.choice(["method", "to_origin", "func"]), sort=srt, cm=None, keep=not srt, c=k))
                ops.append(dict(A.gen_ask(rng, sp, names=ORDERED), c=k))
        for _ in range(2):
            ops.append(dict(A.gen_ask(rng, spec), c=0))
        return dict(specs=[spec] + ([spec2] if spec2 else []), ops=ops)

    def execute(self, plan, log):
        cls = [W.build(s)[0] for s in plan["specs"]]
        specs = [dict(s) for s in plan["specs"]]
        prev = ["build"] * len(cls)
        compared = 0
        stale = [W.Stale() for _ in cls]
        for i, op in enumerate(plan["ops"]):
            k = op["c"]
            if k >= len(cls):
                continue
            cl, spec = cls[k], specs[k]
            where = "step %d %s in (%s, %s) after %s" % (i, {a: b for a, b in op.items() if a != "c"}, cl.units, cl.origin, prev[k])
            if len(cl.x) < 4:
                continue
            if op["op"] == "bunits" and cl.nb == 0:
                continue
            if op["op"] == "ask" and not A.usable(op["ask"], cl, op["kw"], spec):
                continue
            if op["op"] == "edit" and not E.usable(cl, op, spec):
                continue
            if op["op"] == "sub" and cl.units == "amuse":
                continue
            log.ev(where)
            tw = None
            if cl.units != "amuse":
                # virialize works from the stars as they are: energies stored earlier are not among its inputs
                tw = E.twin(cl, energies=op.get("edit") != "virialize")
                a0, b0 = W.snapshot(cl), W.snapshot(tw)
                if op.get("edit") == "virialize":
                    for q in ("kin", "pot", "etot"):
                        a0.pop(q)
                        b0.pop(q)
                try:
                    W.compare_snap(a0, b0, where + " twin before", scale_tol(cl), allow=SKIP | set(["ctype"]), sig="twin")
                except Violation as v:
                    raise HarnessError("twin differs before: %s" % v)
            ra, na = self.do(cl, op, stale[k])
            name = op.get("ask") or op.get("edit") or op["op"]
            if tw is not None:
                rb, nb = self.do(tw, op, W.Stale())
                if (ra[0] == "exc") != (rb[0] == "exc"):
                    raise Violation("exception:" + name, "%s: the cluster %s, its fresh twin %s" % (where, self.say(ra), self.say(rb)))
                if ra[0] == "exc":
                    log.probe("both raised " + ra[1])
                    log.ev("both raised", ra[1])
                    return
                d = A.differ(ra[1], rb[1], 1e-8)
                if d:
                    raise Violation("answer:" + name, "%s: cluster and fresh twin: %s" % (where, d))
                tol = scale_tol(cl if cl.units != "amuse" else tw)
                for x, y, lab in ((cl, tw, ""), (na, nb, " (new cluster)")):
                    if x is None:
                        continue
                    if len(x.x) == 0 and len(y.x) == 0:
                        continue
                    sx, sy = W.snapshot(x), W.snapshot(y)
                    W.compare_snap(sy, sx, where + lab, tol, allow=SKIP, sig="after:" + name)
                    self.derived(x, y, where + lab, name, op)
                    if x.units != "amuse":
                        W.check_derived(x, where + lab, stale[k] if x is cl else W.Stale())
                compared += 1
                log.steps += 1
            elif ra[0] == "exc":
                return
            if stale[k].order and not op.get("keep"):
                cl.analyze()
                stale[k].r = stale[k].order = False
            for path, kind, v in (ra[1] if ra[0] == "ok" else ()):
                if kind == "num":
                    log.arr(path, v)
            log.state(name, sorted(op.get("kw", ())), cl.units, cl.origin, prev[k])
            log.probe("op " + name)
            if na is not None:
                if len(na.x) < 6:
                    continue
                cls[k] = na
                spec["n"] = len(na.x)
            spec["n"] = min(spec["n"], len(cls[k].x))
            prev[k] = name
        log.nontrivial = compared >= 3

    def say(self, r):
        return "raised %s (%s)" % (r[1], r[2]) if r[0] == "exc" else "answered"

    def derived(self, x, y, where, name, op):
        if not op.get("keep") and (op.get("sort") is False or op.get("kw", {}).get("sortstars") is False):
            x.analyze()
            y.analyze()
        for k in ("r", "v", "rpro", "vpro", "mtot", "mmean", "rmean", "rmax") if op.get("keep") else ("r", "v", "rpro", "vpro", "rm", "r10", "rmpro", "r10pro", "mtot", "mmean", "rmean", "rmax"):
            if x.units == "amuse":
                continue
            a, b = W.num(getattr(x, k)), W.num(getattr(y, k))
            if a is None or b is None:
                continue
            big = np.nanmax(np.abs(W.num(x.r))) if k.startswith("r") else 0.0
            if not W.close(a, b, 1e-8, 1e-9 * big):
                raise Violation("derived:%s:%s" % (name, k), "%s: %s of cluster and twin: %s" % (where, k, W.worst(a, b)))

    def do(self, cl, op, stale):
        import clustertools as ct
        try:
            if op["op"] == "ask":
                return ("ok", A.invoke(op["ask"], cl, op["kw"], E.Units(cl))), None
            if op["op"] == "edit":
                return ("ok", A.flat(E.apply(cl, op))), None
            if op["op"] == "sub":
                kw = {k: A.resolve(v, cl, E.Units(cl)) for k, v in op["kw"].items()}
                s = ct.sub_cluster(cl, **kw)
                return ("ok", []), s
            W.apply_frame_op(cl, op, stale)
            if op.get("keep"):
                return ("ok", []), None
            if stale.r or stale.order:
                cl.analyze(sortstars=True)
                stale.r = stale.order = False
            return ("ok", []), None
        except Exception as ex:
            import traceback
            return ("exc", type(ex).__name__, str(ex)[:200] + " | " + "".join(traceback.format_exc()[-400:])), None
