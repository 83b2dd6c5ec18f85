import numpy as np

from . import world as W
from .core import Check, HarnessError, Violation


class C01(Check):
    prop = "C01"
    quick_runs = 700
    thorough_runs = 20000
    quick_wall = 60
    real = ["StarCluster", "unit and origin conversions", "analyze/sortstars", "galpy", "astropy", "amuse units"]
    stub = ["numba JIT switched off (same Python source, interpreted)"]
    rule = ("seeded histories of 4-18 frame operations on 1-3 clusters; non-trivial when at least three operations "
            "changed a label and every oracle comparison was made; distinct by event-log digest")
    assumptions = ["sky frames are tested away from the poles, the ra=0 seam and within 2 kpc of the Sun"]
    state_measure = "distinct (units, origin, centring, binary units, stale flags, previous frame) tuples"

    def generate(self, rng, tier, index):
        ncl = rng.choice([1, 1, 2, 3])
        specs = [W.gen_spec(rng) for _ in range(ncl)]
        ops = []
        for _ in range(rng.randint(4, 18)):
            k = rng.randrange(ncl)
            op = W.gen_frame_op(rng, specs[k])
            op["c"] = k
            ops.append(op)
        if rng.random() < 0.4:
            # the user puts a frame aside and asks for it back later, other clusters used meanwhile
            a = rng.randrange(len(ops) + 1)
            k = rng.randrange(ncl)
            ops.insert(a, dict(op="save", c=k))
            if ncl > 1 and rng.random() < 0.6:
                b = rng.choice([j for j in range(ncl) if j != k])
                ops.insert(a + 1, dict(op="save", c=b))
                ops.insert(a + 1, dict(op="units", u=rng.choice(W.CART), via="method", analyze=True, cm=None, c=k))
            ops.insert(rng.randint(a + 1, min(len(ops), a + 4)), dict(op="back", c=k))
        return dict(specs=specs, ops=ops)

    def simplify(self, plan):
        import copy
        used = set(o["c"] for o in plan["ops"])
        if len(plan["specs"]) > 1:
            for k in range(len(plan["specs"])):
                if k not in used:
                    p = copy.deepcopy(plan)
                    del p["specs"][k]
                    for o in p["ops"]:
                        if o["c"] > k:
                            o["c"] -= 1
                    yield p
        for i, s in enumerate(plan["specs"]):
            for key, val in (("n", 4), ("sse", False), ("bse", False), ("m0", False), ("npop", False), ("cm", None),
                             ("projected", False), ("tphys", 0.0), ("equalmass", True), ("via", "attr"),
                             ("c", [0.0] * 6), ("energies", False), ("orbit", None)):
                if key in s and s[key] != val and val is not None or (key == "cm" and s["cm"] is not None):
                    p = copy.deepcopy(plan)
                    p["specs"][i][key] = val
                    yield p
        for i, o in enumerate(plan["ops"]):
            for key, val in (("cm", None), ("analyze", True), ("sort", True), ("via", "method")):
                if key in o and o[key] != val:
                    p = copy.deepcopy(plan)
                    p["ops"][i][key] = val
                    yield p

    def execute(self, plan, log):
        cls, ps, stales, methods, seen, saved = [], [], [], [], [], []
        for s in plan["specs"]:
            cl, p = W.build(s)
            cls.append(cl)
            ps.append(p)
            stales.append(W.Stale())
            methods.append(s["cm"])
            seen.append({})
            saved.append(None)
            if s["units"] == "radec":
                p.skylevel = 1
            W.check_phys(cl, p, s["cm"], "after building")
            W.check_derived(cl, "after building", stales[-1], p)
        changed = 0
        for i, op in enumerate(plan["ops"]):
            k = op["c"]
            cl, p, st = cls[k], ps[k], stales[k]
            f0 = (cl.units, cl.origin)
            where = "step %d %s from (%s, %s)" % (i, {a: b for a, b in op.items() if a != "c"}, f0[0], f0[1])
            log.ev(where)
            others = [(j, W.snapshot(cls[j])) for j in range(len(cls)) if j != k]
            if op["op"] == "bunits" and not p.nb:
                continue
            if op["op"] == "back" and saved[k] is None:
                continue
            try:
                if op["op"] == "save":
                    cl.save_cluster()
                    tu, to = saved[k] = f0
                elif op["op"] == "back":
                    tu, to = saved[k]
                    cl.return_cluster()
                    st.r = st.order = False
                    log.probe("returned to a saved frame")
                else:
                    tu, to = W.apply_frame_op(cl, op, st)
                    if op["op"] == "savereturn" or op["op"] == "origin" or (op["op"] == "units" and op["u"] == "radec"):
                        saved[k] = None          # these may use the same slot
            except Violation:
                raise
            except Exception as ex:
                raise Violation("exception:%s" % type(ex).__name__, "%s raised %r" % (where, ex))
            f1 = (cl.units, cl.origin)
            if tu is not None and cl.units != tu:
                raise Violation("target-units", "%s left units %r" % (where, cl.units))
            if to is not None and cl.origin != to:
                raise Violation("target-origin", "%s left origin %r" % (where, cl.origin))
            if op["op"] == "units" and f0[0] in W.CART + ("amuse",) and f1[0] in W.CART + ("amuse",) and f1[1] != f0[1]:
                raise Violation("target-origin", "%s: a change of units changed the origin to %r" % (where, f1[1]))
            if op["op"] == "origin" and op["o"] != "sky" and f0[0] in W.CART + ("amuse",) and f1[0] != f0[0]:
                raise Violation("target-units", "%s: a change of origin changed the units to %r" % (where, f1[0]))
            if op["op"] == "bunits" and cl.bunits != op["b"]:
                raise Violation("target-bunits", "%s left bunits %r" % (where, cl.bunits))
            if f1 != f0:
                changed += 1
            if "radec" in (f0[0], f1[0]) or op.get("u") == "radec" or op.get("o") == "sky":
                p.skylevel = 1
            if f1[0] == "radec" and f1[1] in ("cluster", "centre"):
                methods[k] = cl.centre_method
            log.state(f0, f1, methods[k] if f1[0] == "radec" else None, cl.bunits if p.nb else None, st.r, st.order)
            log.steps += 1
            W.check_phys(cl, p, methods[k], where)
            W.check_derived(cl, where, st, p)
            for key in ("x", "vx", "m", "xgc", "xc"):
                log.arr(key, W.num(getattr(cl, key)))
            for j, snap in others:
                W.compare_snap(snap, W.snapshot(cls[j]), where + " (another cluster)", lambda key: 0.0, sig="other-cluster")
            # coming back to a frame visited before reproduces its numbers
            fk = (cl.units, cl.origin, methods[k] if cl.units == "radec" else None)
            now = {q: W.num(getattr(cl, q)).copy() for q in W.XK + W.VK + ("m",)}
            if fk in seen[k]:
                log.probe("frame revisited")
                for q in now:
                    tol = 0 if q == "m" else 2 * p.tol(cl.units, cl.origin, q)
                    if not W.close(now[q], seen[k][fk][q], 1e-9, tol):
                        raise Violation("revisit:" + q, "%s: back in %s but %s: %s" % (where, fk, q, W.worst(now[q], seen[k][fk][q])))
            else:
                seen[k][fk] = now
        log.nontrivial = changed >= 3
