"""C17: an analysis returns what it is defined to return for the stars as they stand, worked out independently."""
import warnings

import numpy as np

from . import asks as A, edits as E, ref, world as W
from .core import Check, HarnessError, Violation
from .c01 import C01
from .c04 import unit_of
from .model import CART, VK, XK, num

PER = ("rho_prof m_prof sigv_prof v_prof v2_prof beta_prof vcirc_prof alpha_prof eta_prof meq_prof").split()
# methods that may fall back on how the cluster itself is set up; here they are always told
PROJ = ("relaxation_time half_mass_relaxation_time core_relaxation_time energies closest_star rlagrange virial_radius mass_function eta_function "
        "meq_function tapered_mass_function rcore rlimiting subset").split()
SELECTS = ("rho_prof m_prof sigv_prof v_prof v2_prof beta_prof vcirc_prof alpha_prof eta_prof meq_prof mass_function tapered_mass_function eta_function meq_function "
           "f:mass_function f:eta_function f:meq_function subset ckin").split()
TAIL = ("to_tail", "f:to_tail")
LOOSE = ("meq_function", "f:meq_function", "meq_prof", "ckin", "tapered_mass_function", "f:tapered_mass_function")      # an optimiser that may give up
OWNMASS = ("mass_function", "tapered_mass_function", "eta_function", "meq_function")


def state_of(cl):
    """the stars as the cluster now holds them, in pc, km/s, Msun"""
    f = E.Units(cl).factors(cl.units)
    L, V, M, T = f
    col = lambda ks, u: np.column_stack([np.asarray(num(getattr(cl, k)), dtype=float) / u for k in ks])
    six = lambda s: np.array([float(np.asarray(num(getattr(cl, k + s))).ravel()[0]) / (L if k in XK else V) for k in XK + VK])
    n = len(cl.x)
    kw = np.asarray(cl.kw) if len(cl.kw) == n else None
    return ref.State(col(XK, L), col(VK, V), np.asarray(num(cl.m), dtype=float) / M, kw, np.asarray(cl.npop), np.asarray(cl.id), six("gc"), six("c"),
                     cl.origin, cl._ro, cl._vo), f


def energies_of(cl):
    e = np.asarray(num(cl.etot), dtype=float)
    return e if len(e) == len(cl.x) and np.all(np.isfinite(e)) else None


def between(e, q):
    """a value that falls between two of the energies"""
    o = np.sort(e)
    j = int(q * (len(o) - 1))
    return 0.5 * (o[j] + o[j + 1]) if o[j + 1] - o[j] > 1e-9 * np.abs(o).max() else None


def canon(v, cl):
    """an argument of a question in pc, km/s, Msun"""
    if isinstance(v, dict) and len(v) == 1:
        k, a = next(iter(v.items()))
        if k in ("$L", "$V", "$M", "$T", "$A"):
            return a
        if k == "$bins":
            e = np.array(a, dtype=float)
            return [e[:-1], 0.5 * (e[1:] + e[:-1]), e[1:]]
        return A.resolve(v, cl, E.Units(cl))
    return v


class C17(C01):
    prop = "C17"
    quick_runs = 1500
    quick_wall = 40
    thorough_runs = 30000
    real = ["profiles", "mass, eta and energy-equipartition functions", "energies, relaxation times, radii, centres, coordinates, subset", "galpy"]
    rule = ("a seeded history of unit, origin and star changes with questions in between; after each question the answer is set against an "
            "independent calculation from the stars the cluster then holds; non-trivial when at least one part of one answer was compared; "
            "distinct by event-log digest")
    state_measure = "distinct (question, options used, units, origin) combinations"
    assumptions = ["parts of an answer the definition leaves to an optimiser (the tapered fit, equipartition fits the data do not settle) are not compared",
                   "an answer that moves by more than 1e-6 when the stars are shaken by 1e-9 is not compared",
                   "2e-3 where the library's own gravitational constants differ between systems"]

    def warm(self):
        A.build()
        import galpy.potential  # noqa

    def generate(self, rng, tier, index):
        spec = W.gen_spec(rng, nmin=6, nmax=150 if rng.random() < 0.15 else 40, energies=False, sky=False)
        sc = spec["scale"]
        sc["vbar"] = float("%.12g" % (4.302e-3 * sc["zmbar"] / sc["rbar"]) ** 0.5)
        sc["tbar"] = float("%.12g" % (sc["rbar"] / (sc["vbar"] * 1.022712165045695)))
        names = sorted(ref.REF)
        ops = []
        if spec["n"] > 60 and rng.random() < 0.7:
            names = sorted(set(names) & set("meq_function f:meq_function meq_prof ckin eta_prof f:eta_function".split()))
            ops.append(dict(op="equip", q=rng.uniform(0.8, 2.0)))
        for i in range(rng.randint(5, 9)):
            c = rng.random()
            if c < 0.25:
                ops.append(W.gen_frame_op(rng, spec, sky=False))
            elif c < 0.4:
                ops.append(E.gen(rng, spec, names=["addstars", "addstars", "move", "move", "inplace", "mass", "orbit", "centre", "find_centre", "energies", "virialize", "rotation", "time", "interpolate_orbit"]))
            else:
                q = A.gen_ask(rng, spec, names=names)
                q["kw"].pop("emax", None)
                q["kw"].pop("plot", None)
                if rng.random() < 0.08:
                    q["kw"] = A.sparse(rng, spec, q["ask"], q["kw"])
                elif q["ask"] in SELECTS and rng.random() < 0.3:
                    c = rng.randrange(4)
                    if c == 0:
                        q["kw"].update(kwmin=1, kwmax=rng.choice([9, 14, 15]))
                    elif c == 1:
                        q["kw"]["vmin"] = {"$V": round(spec["sv"] * rng.uniform(0.3, 1.0), 6)}
                    else:
                        q["kw"]["emin" if c == 2 else "emax"] = {"$between": rng.uniform(0.05, 0.4) if c == 2 else rng.uniform(0.6, 0.95)}
                        ops.append(dict(op="ask", ask="f:energies", kw={}) if rng.random() < 0.2 else dict(op="edit", edit="energies", kw={}))
                if q["ask"] in PER and "nmass" in q["kw"] and rng.random() < 0.5:
                    q["kw"].update(nrad=rng.choice([1, 2]), nmass=3)
                if q["ask"] in PROJ:
                    q["kw"].setdefault("projected", False)
                ops.append(q)
        return dict(specs=[spec], ops=[dict(o, c=0) for o in ops])

    def execute(self, plan, log):
        spec = plan["specs"][0]
        cl, p = W.build(spec)
        st = W.Stale()
        for i, op in enumerate(plan["ops"]):
            where = "step %d %s in (%s, %s)" % (i, {a: b for a, b in op.items() if a != "c"}, cl.units, cl.origin)
            log.ev(where)
            if op["op"] == "bunits" and not p.nb:
                continue
            if op["op"] == "ask":
                if not self.question(cl, op, spec, where, log):
                    return
                continue
            if op["op"] == "equip":     # heavy stars slow, light ones fast
                x = np.asarray(num(cl.m), dtype=float) / (np.median(num(cl.m)) * op["q"])
                for v in VK:
                    c = getattr(cl, v).mean()
                    getattr(cl, v)[:] = (getattr(cl, v) - c) * np.where(x <= 1, np.exp(-0.5 * x), np.exp(-0.5) * x ** -0.5) + c
                cl.analyze(sortstars=True)
                continue
            if op["op"] == "edit":
                if not E.usable(cl, op, spec):
                    continue
                try:
                    E.apply(cl, op)
                except A.NATURAL:
                    return
                log.fault("edit " + op["edit"])
            else:
                W.apply_frame_op(cl, op, st)
            cl.analyze(sortstars=True)
            st.r = st.order = False

    def question(self, cl, op, spec, where, log):
        name, kw = op["ask"], dict(op["kw"])
        if cl.units not in CART + ("amuse",) or cl.origin not in ("cluster", "centre", "galaxy") or not A.usable(name, cl, kw, spec):
            return True
        s, f = state_of(cl)
        for b in ("emin", "emax"):
            if b in kw:
                s.e = None if cl.units == "amuse" else energies_of(cl)
                kw[b] = between(s.e, kw[b]["$between"]) if s.e is not None else None
                if kw[b] is None:
                    del kw[b]
        if len(s.m) < 3 or ref.coincide(s):
            return True
        a = A.ASKS[name]
        k = {q: canon(v, cl) for q, v in kw.items()}
        try:
            res = A.invoke(name, cl, kw, E.Units(cl))
        except A.NATURAL as ex:
            log.ev("raised", type(ex).__name__, str(ex)[:100])
            if name not in LOOSE and self.reference(name, s, k, f) is not None:
                raise Violation("refused:%s:%s" % (name, type(ex).__name__), "%s raised %r; the definition gives an answer" % (where, ex))
            return False                # a refused question may leave the cluster where it had been moved to
        want = self.reference(name, s, k, f)
        if want is None:
            log.probe("left to the library: " + name)
            return True
        got = {}
        for path, kind, v in res:
            if kind == "num":
                got[path] = np.asarray(v, dtype=float)
        if name in OWNMASS:
            want = want[3:4] if "eta" not in name and "meq" not in name else want[2:3]      # the method answers with the slope
        one = len(want) == 1
        rough = a.grav or name.replace("f:", "") in ("relaxation_time", "half_mass_relaxation_time", "core_relaxation_time", "virial_radius", "rtidal", "rlimiting")
        rtol = 2e-3 if rough and (cl.units in ("galpy", "WDunits", "nbody") or name.replace("f:", "") in ("virial_radius", "rtidal", "rlimiting")) else 1e-5 if rough else 1e-6
        if name in TAIL and not op.get("strict"):
            # turned by the opposite angle: a known finding, shown by the fixed plan; everything else is compared all the same
            j = next(i for i, part in enumerate(want) if part is not None)
            if "r[%d]" % j in got and got["r[%d]" % j].shape == want[j][1].shape and not W.close(got["r[%d]" % j] / unit_of(want[j][0], f), want[j][1], 1e-6, 1e-8 * np.abs(want[j][1]).max()):
                want = [None if part is None else o for part, o in zip(want, ref.to_tail(s, k, back=True))]
        for i, part in enumerate(want):
            if part is None:
                continue
            if len(part) > 2:
                log.probe("fit compared " + name)
            dim, w = part[:2]
            tol = part[2] if len(part) > 2 else rtol        # a fit is settled less sharply
            path = "r" if one and "r" in got else "r[%d]" % i
            if path not in got:
                raise Violation("parts:" + name, "%s: the answer has parts %s" % (where, [q[0] for q in res]))
            w = np.asarray(w, dtype=float)
            g = got[path] / unit_of(dim, f)
            log.arr(path, got[path])
            if g.shape != w.shape and g.size == w.size == 1:
                g, w = g.ravel(), w.ravel()
            if g.shape != w.shape:
                raise Violation("shape:%s" % name, "%s: part %d has shape %s, %s by definition" % (where, i, g.shape, w.shape))
            big = float(np.nanmax(np.abs(w))) if w.size and not np.all(np.isnan(w)) else 0.0
            if not W.close(g, w, tol, 1e-9 * big + 1e-9):
                raise Violation("answer:%s:%d" % (name, i), "%s: part %d (%s) in pc, km/s, Msun, Myr against its definition: %s" % (where, i, dim, W.worst(g, w)))
            log.nontrivial = True
        log.steps += 1
        log.probe("compared " + name)
        log.state(name, sorted(kw), cl.units, cl.origin)
        return True

    def reference(self, name, s, k, f):
        """by definition; parts that hang on rounding are dropped"""
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            try:
                want = ref.REF[name](s, k)
                if want is None:
                    return None
                settle = lambda parts: [(q[0], q[1](f)) if q is not None and callable(q[1]) else q for q in parts]
                want = settle(want)
                out = list(want)
                for j in range(3):
                    o = settle(ref.REF[name](s.shaken(np.random.Generator(np.random.PCG64(50 + j))), k))
                    for i, part in enumerate(want):
                        if part is None or out[i] is None:
                            continue
                        if len(part) > 2 and o[i] is None:
                            out[i] = None
                            continue
                        a, b = np.asarray(part[1], dtype=float), np.asarray(o[i][1], dtype=float)
                        big = float(np.nanmax(np.abs(a))) if a.size and not np.all(np.isnan(a)) else 0.0
                        if a.shape != b.shape or not W.close(a, b, part[2] if len(part) > 2 else 1e-6, 1e-7 * big + 1e-9):
                            out[i] = None
            except ref.Undefined:
                return None
        return out if any(q is not None for q in out) else None

    def fixed_plans(self, tier):
        import random
        spec = W.gen_spec(random.Random(5), nmin=6, nmax=6, sky=False, sse=False, bse=False, units="pckms", origin="cluster")
        return [dict(specs=[spec], ops=[dict(op="ask", ask="f:to_tail", kw={}, strict=True, c=0)])]

    def simplify(self, plan):
        return ()
