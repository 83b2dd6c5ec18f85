"""C02: asking a question leaves the cluster as it was found."""
import numpy as np

from . import asks as A, world as W
from .core import Check, Violation
from .c01 import C01

# conversion bookkeeping: not part of what the cluster describes
BOOK = set("units0 origin0 rorder0 rorder_origin0 indx rorder_origin analyze_units analyze_origin orbit orbits".split())
# sky coordinates of the last time the cluster was in sky units; part of the state only while it is (see world.snapshot)
BOOK |= set(k + e for k in W.SKYKEYS for e in ("", "_gc", "_c"))
DERIVED = set("r rpro v vpro rv3d rmean rmax rmeanpro rmaxpro rm rmpro r10 r10pro mtot mmean rorder rproorder lum ltot "
              "rh rhpro rh10 rh10pro rlum rlorder rlproorder".split())


def attr_copy(cl):
    d = {}
    for k, v in cl.__dict__.items():
        if k in BOOK or k in DERIVED or k.startswith("_"):
            continue
        d[k] = v.copy() if isinstance(v, np.ndarray) else v
    return d


def same(a, b, tol):
    if a is b:
        return True
    if type(a).__name__ == "Orbit" and type(b).__name__ == "Orbit":
        return np.allclose(np.array(a.vxvv), np.array(b.vxvv), rtol=1e-9, atol=1e-12)
    try:
        na, nb = W.num(a), W.num(b)
        return W.close(nb, na, 1e-9, tol)
    except Exception:
        try:
            return bool(np.all(a == b))
        except Exception:
            return repr(a) == repr(b)


MF = ("mass_function", "tapered_mass_function", "meq_function", "eta_function", "ckin", "alpha_prof", "eta_prof", "meq_prof")
SELECT = set("rmin rmax vmin vmax mmin mmax emin emax kwmin kwmax npop indx bins".split())


def natural(name, kw, exc):
    """exceptions the library gives for too few (or all equal) stars in a bin, a tail or a fit"""
    if name == "tapered_mass_function" and exc == "RuntimeError":
        return True
    if name in MF and exc in ("ValueError", "LinAlgError"):
        return True
    if name in ("tail_path_match", "tail_path") and exc in ("IndexError", "ValueError"):
        return True
    if name == "rcore" and exc == "IndexError":
        return True
    return name.endswith("_prof") and exc in ("IndexError", "ValueError") and bool(SELECT & set(kw))


FRAMES = [(u, o) for o in ("cluster", "centre", "galaxy") for u in W.CART + ("amuse",)] + [("radec", "sky")] * 2


def quantity(r):
    """AMUSE numbers, whichever way the installed numpy holds them"""
    return hasattr(r, "unit") or getattr(r, "dtype", None) == object


class C02(C01):
    prop = "C02"
    quick_runs = 900
    thorough_runs = 24000
    real = ["every analysis, profile, energy, radius, orbit, tail, plot, coordinate, subset and centre function", "galpy", "scipy",
            "matplotlib (Agg)", "amuse units"]
    rule = ("seeded histories of questions and frame changes on one cluster, everything public compared before and after every "
            "question; non-trivial when at least one question was asked and compared")
    state_measure = "distinct (question, options used, units, origin) combinations"
    assumptions = ["the bookkeeping of save_cluster (units0, origin0, rorder0) is not part of the state, see DESIGN.md",
                   "core radius questions on a cluster with no centre yet may find one, as documented"]

    def warm(self):
        A.build()

    def generate(self, rng, tier, index):
        """every question gets its turn in every frame: the names and the frames go round, everything else is drawn"""
        spec = W.gen_spec(rng, nmin=8, nmax=26, energies=True)
        names = sorted(A.ASKS)
        frames = FRAMES if spec["orbit"] else [f for f in FRAMES if f[1] != "sky"]
        ops = []
        for j in range(rng.randint(4, 7)):
            if rng.random() < 0.75:
                u, o = frames[(index * 5 + j * 11 + index // len(names)) % len(frames)]
                if u != "radec":
                    ops.append(dict(op="units", u=u, via=rng.choice(["method", "to_units", "func"]), analyze=True, cm=None))
                ops.append(dict(op="origin", o=o, via=rng.choice(["method", "to_origin", "func", "center"]), sort=rng.random() < 0.8, cm=None))
                if u == "radec":
                    ops[-1] = dict(op="units", u=u, via=rng.choice(["method", "to_units", "func"]), analyze=True, cm=None)
            elif rng.random() < 0.6:
                ops.append(W.gen_frame_op(rng, spec))
            name = names[(index * 7 + j * 13) % len(names)] if rng.random() < 0.85 else None
            op = A.gen_ask(rng, spec, names=name and [name])
            if rng.random() < 0.2:
                op["kw"] = A.sparse(rng, spec, op["ask"], op["kw"])
            ops.append(op)
        return dict(specs=[spec], ops=[dict(o, c=0) for o in ops])

    def execute(self, plan, log):
        spec = plan["specs"][0]
        cl, p = W.build(spec)
        st = W.Stale()
        for i, op in enumerate(plan["ops"]):
            where = "step %d %s in (%s, %s)" % (i, {a: b for a, b in op.items() if a != "c"}, cl.units, cl.origin)
            if op["op"] == "bunits" and not p.nb:
                continue
            if op["op"] != "ask":
                log.ev(where)
                if "radec" in (cl.units, op.get("u")) or op.get("o") == "sky":
                    p.skylevel = 1
                W.apply_frame_op(cl, op, st)
                if cl.units == "radec":
                    p.skylevel = 1
                continue
            if not A.usable(op["ask"], cl, op["kw"], spec):
                continue
            if st.r and quantity(cl.r) != (cl.units == "amuse"):
                # radii of the other kind of number: the caller has to analyse first
                cl.analyze()
                st.r = st.order = False
            if cl.units == "radec" or op["kw"].get("skypath") or "sky" in op["ask"] or op["ask"] == "skyplot":
                p.skylevel = 1
            try:
                self.ask(cl, p, op, where, log, st)
            except _End:
                log.steps += 1
                return

    def ask(self, cl, p, op, where, log, st):
        log.ev(where)
        before = W.snapshot(cl)
        attrs = attr_copy(cl)
        tolf = W.tol_of(cl, p)
        note = "ok"
        try:
            res = A.invoke(op["ask"], cl, op["kw"], p)
            for path, kind, v in res:
                if kind == "num":
                    log.arr(path, np.round(v, 6) if False else v)
        except A.NATURAL as ex:
            note = "raised %s" % type(ex).__name__
            self.natural(cl, op, ex, where, log)
            return
        except Exception as ex:
            raise Violation("exception:%s:%s" % (op["ask"], type(ex).__name__), "%s raised %r" % (where, ex))
        log.probe("asked " + op["ask"])
        log.state(op["ask"], sorted(op["kw"]), cl.units, cl.origin)
        log.steps += 1
        log.nontrivial = True
        allowed = set(A.ASKS[op["ask"]].attrs)
        after = W.snapshot(cl)
        if p.nb:
            W.same_binaries(before, after, where, p.scale, "changed:" + op["ask"])
            allowed |= set(W.BIN) | set(["bunits"])
        W.compare_snap(before, after, where, tolf, allow=allowed, sig="changed:" + op["ask"])
        now = attr_copy(cl)
        for k, v in attrs.items():
            if k in allowed or k in before or k not in now:
                continue
            if not same(v, now[k], tolf(k)):
                raise Violation("attribute:%s:%s" % (op["ask"], k), "%s: %s was %r, is %r" % (where, k, v, now[k]))
        W.check_derived(cl, where, st, p)

    def natural(self, cl, op, ex, where, log):
        import traceback
        if not natural(op["ask"].replace("f:", ""), op["kw"], type(ex).__name__):
            raise Violation("exception:%s:%s" % (op["ask"], type(ex).__name__), "%s raised %r %s" % (
                where, ex, traceback.format_exc()[-600:]))
        log.probe("natural exception %s %s" % (op["ask"], type(ex).__name__))
        raise _End()


class _End(Exception):
    pass
