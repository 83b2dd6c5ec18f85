"""C11: energies are the same for every way of computing them and every schedule of the worker threads."""
import copy

import numpy as np

from . import par as P, world as W
from .core import Check, HarnessError, Violation

WAYS = ("full", "parallel", "loop", "some", "some-parallel")
CARTU = W.CART + ("amuse",)


def gen_sched(rng):
    nw = rng.choice([2, 2, 3, 4, 6])
    cuts = [round((i + 1.0) / nw, 4) for i in range(nw - 1)] if rng.random() < 0.5 else sorted(round(rng.random(), 3) for _ in range(nw - 1))
    mode = rng.choice(["fine", "medium", "coarse", "robin", "stall"])
    segs = []
    for i in range(rng.choice([20, 60, 150])):
        if mode == "robin":
            segs.append([i % nw, rng.choice([1, 1, 2])])
        elif mode == "stall":
            # one worker is held between two memory steps while the others run on
            segs.append([rng.randrange(nw), rng.choice([1, 2, 3, 4, 5, 400])])
        else:
            segs.append([rng.randrange(nw), rng.randint(1, dict(fine=3, medium=12, coarse=80)[mode])])
    return dict(workers=nw, cuts=cuts, segs=segs)


class C11(Check):
    prop = "C11"
    jit = True
    quick_runs = 450
    thorough_runs = 30000
    quick_wall = 45
    real = ["energies (method and function), the compiled energy kernels (serial, parallel, subset, loop), virial radius sums, "
            "unit and origin conversions", "the source of every numba-parallel function, statement by statement"]
    stub = ["numba's thread pool: the parallel loops run as generators dealt out to simulated workers; the machine code itself is "
            "run with one thread and compared"]
    rule = ("seeded clusters, frames, softenings and subsets; each question is put to several of the ways of computing it, the "
            "parallel ones under seeded schedules of 2-6 workers; non-trivial when workers were switched inside a loop at least "
            "ten times and three ways were compared; distinct by event-log digest")
    assumptions = ["no two stars at the same place (the serial kernels answer nan for them on purpose)", "sky frames excluded"]
    state_measure = "distinct (way, schedule, options, units, origin) combinations"
    fault_kinds = ("worker stalled or preempted inside an update", "uneven division of the work")

    def warm(self):
        """compile the real kernels once, in the parent"""
        import clustertools as ct
        rs = np.random.RandomState(1)
        cl = ct.StarCluster(units="pckms", origin="cluster")
        cl.add_stars(*rs.normal(size=(6, 4)), rs.uniform(1, 2, 4))
        for kw in (dict(), dict(parallel=True), dict(ids=[1, 2]), dict(ids=[1, 2], parallel=True)):
            for soft in (0.0, 0.1):
                cl.energies(softening=soft, **kw)
        cl.virial_radius()

    def generate(self, rng, tier, index):
        spec = W.gen_spec(rng, nmin=2, nmax=11, sky=False, energies=False)
        ops = []
        for _ in range(rng.randint(2, 4)):
            if rng.random() < 0.6:
                ops.append(dict(op="units", u=rng.choice(CARTU)))
            if rng.random() < 0.5:
                ops.append(dict(op="origin", o=rng.choice(["cluster", "centre", "galaxy"])))
            q = dict(op="ask", specific=rng.random() < 0.5, projected=rng.choice([False, False, True]),
                     soft=rng.choice([0.0, 0.0, 0.3, 1.0]), via=rng.choice(["method", "method", "func"]),
                     pick=sorted(rng.sample(range(spec["n"]), rng.randint(1, spec["n"]))), idkind=rng.choice(["list", "array", "mask", "one"]),
                     ways=[])
            if q["idkind"] == "one":
                q["pick"] = q["pick"][:1]
            for w in WAYS:
                q["ways"].append([w, "jit", None])
                if w in ("parallel", "some-parallel"):
                    for _ in range(rng.randint(2, 5) if w == "parallel" else 1):
                        q["ways"].append([w, "sim", gen_sched(rng)])
            ops.append(q)
        return dict(specs=[spec], ops=ops)

    def simplify(self, plan):
        for n in (2, 3, 4):
            if plan["specs"][0]["n"] > n:
                p = copy.deepcopy(plan)
                p["specs"][0]["n"] = n
                for o in p["ops"]:
                    if o["op"] == "ask":
                        o["pick"] = [i for i in o["pick"] if i < n] or [0]
                yield p
        for i, o in enumerate(plan["ops"]):
            if o["op"] != "ask":
                continue
            for j in range(len(o["ways"])):
                p = copy.deepcopy(plan)
                del p["ops"][i]["ways"][j]
                yield p
            for key, val in (("specific", True), ("projected", False), ("soft", 0.0), ("via", "method"), ("idkind", "list")):
                if o[key] != val:
                    p = copy.deepcopy(plan)
                    p["ops"][i][key] = val
                    yield p
            for j, (w, how, s) in enumerate(o["ways"]):
                if s is None:
                    continue
                n = len(s["segs"])
                for step in (n // 2, n // 4, n // 8, 1):
                    if step < 1:
                        continue
                    for a in range(0, n, step):
                        p = copy.deepcopy(plan)
                        del p["ops"][i]["ways"][j][2]["segs"][a:a + step]
                        yield p
                if s["workers"] > 2:
                    p = copy.deepcopy(plan)
                    p["ops"][i]["ways"][j][2].update(workers=2, cuts=[0.5])
                    yield p

    # ------------------------------------------------------------------------------------------
    def reference(self, cl, p, op):
        """pair sums from the model, up to the gravitational constant of the units"""
        units, origin = cl.units, cl.origin
        fu = "pckms" if units == "amuse" else units
        e = p.expect(fu, "centre" if origin == "centre" else "cluster")
        L = 3 if not op["projected"] else 2
        x = np.column_stack([e[k] for k in W.XK[:L]])
        v2 = sum(e[k] ** 2 for k in W.VK[:L])
        d2 = np.sum((x[:, None, :] - x[None, :, :]) ** 2, axis=2) + op["soft"] ** 2
        np.fill_diagonal(d2, np.inf)
        pot = -np.sum(e["m"][None, :] / np.sqrt(d2), axis=1)
        kin = 0.5 * v2
        if not op["specific"]:
            pot, kin = pot * e["m"], kin * e["m"]
        return kin, pot

    def ask(self, cl, op, way, how, sched, ids):
        import clustertools as ct
        from clustertools.analysis import functions as F
        kw = dict(specific=op["specific"], projected=op["projected"], softening=op["soft"])
        if way in ("parallel", "some-parallel"):
            kw["parallel"] = True
        if way == "loop":
            kw["full"] = False
        if way.startswith("some"):
            kw["ids"] = ids
        sim = None
        if how == "sim":
            sim = P.Sim(sched)
            with sim:
                r = cl.energies(**kw) if op["via"] == "method" else F.energies(cl, **kw)
        else:
            r = cl.energies(**kw) if op["via"] == "method" else F.energies(cl, **kw)
        return r, sim

    def execute(self, plan, log):
        spec = plan["specs"][0]
        cl, p = W.build(spec)
        cl.projected = False
        switched = compared = 0
        for i, op in enumerate(plan["ops"]):
            where = "step %d in (%s, %s)" % (i, cl.units, cl.origin)
            if op["op"] == "units":
                cl.to_units(op["u"])
                continue
            if op["op"] == "origin":
                cl.to_origin(op["o"])
                continue
            pick = op["pick"]
            if op["idkind"] == "one":
                ids = int(cl.id[pick[0]])
            elif op["idkind"] == "mask":
                ids = np.zeros(cl.ntot, dtype=bool)
                ids[pick] = True
            else:
                ids = cl.id[np.array(pick)]
                if op["idkind"] == "list":
                    ids = [int(q) for q in ids]
            rk, rp = self.reference(cl, p, op)
            G = None
            stol = 1e-9 * max(1e-300, float(np.max(np.abs(rp))))
            lv = 1e-6 if cl.origin == "galaxy" else 1e-9          # differences of galactic coordinates
            for way, how, sched in op["ways"]:
                desc = "%s energies(%s) by %s%s" % (where, ", ".join("%s=%r" % (k, op[k]) for k in ("specific", "projected", "soft")), way,
                                                      "" if how == "jit" else " with simulated workers")
                log.ev(desc)
                try:
                    (kin, pot), sim = self.ask(cl, op, way, how, sched, ids)
                except Exception as ex:
                    raise Violation("exception:%s" % type(ex).__name__, "%s raised %r" % (desc, ex))
                log.state(way, how, str(sched), op["specific"], op["projected"], op["soft"], cl.units, cl.origin)
                log.steps += 1
                if sim is not None:
                    switched += sim.switches
                    log.fault("worker switched", sim.switches)
                    log.probe("parallel loops run by simulated workers", sim.loops)
                    log.probe("memory steps scheduled", sim.steps)
                    if sim.unsupported:
                        log.probe("parallel loop not transformable (run in order)", sim.unsupported)
                kin, pot = W.num(kin).ravel(), W.num(pot).ravel()
                log.arr("pot", pot)
                sel = np.arange(cl.ntot) if not way.startswith("some") else np.array(pick)
                if kin.shape != (len(sel),) or pot.shape != (len(sel),):
                    raise Violation("shape", "%s: %d kinetic and %d potential energies for %d stars" % (desc, kin.size, pot.size, len(sel)))
                if not W.close(kin, rk[sel], 1e-9 if lv < 1e-8 else 1e-5, 1e-9 * float(np.max(rk)) if lv < 1e-8 else 1e-5 * float(np.max(rk))):
                    raise Violation("kinetic", "%s: kinetic energies, %s" % (desc, W.worst(kin, rk[sel])))
                if cl.ntot > 1:
                    if G is None:
                        G = self.grav(cl)
                    if not W.close(pot, G * rp[sel], 1e-3, 1e-3 * abs(G) * float(np.max(np.abs(rp))) * 1e-3):
                        raise Violation("potential", "%s: potential energies, %s" % (desc, W.worst(pot, G * rp[sel])))
                    g = float(np.sum(pot) / np.sum(rp[sel]))
                    op.setdefault("_g", g)
                    if not W.close(pot, op["_g"] * rp[sel], lv, stol * abs(g) * lv / 1e-9):
                        raise Violation("potential", "%s: potential energies differ from the other ways, %s" % (desc, W.worst(pot, op["_g"] * rp[sel])))
                compared += 1
                if op["via"] == "method":
                    full_k, full_p = np.zeros(cl.ntot), np.zeros(cl.ntot)
                    full_k[sel], full_p[sel] = kin, pot
                    self.totals(cl, full_k, full_p, desc, way)
            op.pop("_g", None)
        log.nontrivial = switched >= 10 and compared >= 3

    def totals(self, cl, kin, pot, desc, way):
        for name, want in (("kin", kin), ("pot", pot), ("etot", kin + pot)):
            got = W.num(getattr(cl, name)).ravel()
            if got.shape != want.shape or not W.close(got, want, 1e-12, 1e-12 * float(np.max(np.abs(want))) + 1e-300):
                raise Violation("stored-" + name, "%s: %s of the cluster is not the energies returned" % (desc, name))
        for name, want in (("ektot", np.sum(kin)), ("ptot", np.sum(pot) / 2.0), ("qvir", 2.0 * np.sum(kin) / np.sum(pot) if np.any(pot) else None)):
            got = getattr(cl, name, None)
            if got is None or want is None:
                continue
            got = float(W.num(got))
            if not W.close(np.array([got]), np.array([want]), 1e-9, 1e-300):
                raise Violation("total-" + name, "%s: %s is %r but the energies add up to %r" % (desc, name, got, want))

    def grav(self, cl):
        from .model import CONV
        return {"pckms": 4.302e-3, "amuse": 4.302e-3, "kpckms": 4.302e-6, "pcmyr": 4.302e-3 * CONV ** 2,
                "kpcgyr": 4.302e-6 * CONV ** 2}.get(cl.units, 1.0)
