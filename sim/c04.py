"""C04: the same question has the same physical answer in every units system."""
import numpy as np

from . import asks as A, edits as E, world as W
from .core import Check, HarnessError, Violation
from .c01 import C01
from .model import CART, VK, XK, num

SKIPASK = set("starplot skyplot subset overlap_cluster".split())


# questions with a documented meaning in the sky frame: times, sky positions, and lengths as angles at the cluster's distance
INSKY = dict(
    relaxation_time=None, half_mass_relaxation_time=None, core_relaxation_time=None, rtidal=None, rlimiting=None, sky_coords=None,
    initialize_orbit=None, orbital_path=None, orbital_path_match=None, tail_path=lambda kw: not (kw.get("skypath") and "dmax" in kw),
    tail_path_match=None, virial_radius=lambda kw: kw["method"] == "critical_density" and not kw.get("plot"),
    rcore=lambda kw: kw["method"] == "isothermal" and not kw.get("plot"))


def insky(name, kw):
    n = name.replace("f:", "")
    return n in INSKY and (INSKY[n] is None or INSKY[n](kw))


def key_of(group, origin):
    if group in ("any", "centre"):
        return "*"
    if group == "recentre":
        return "centre" if origin in ("galaxy", "sky") else origin
    if group == "energy":
        return "cluster" if origin == "galaxy" else origin
    return origin


def unit_of(dim, f):
    L, V, M, T = f
    return {"L": L, "V": V, "M": M, "T": T, "V2": V * V, "MV2": M * V * V, "D3": M / L ** 3, "D2": M / L ** 2, "1/M": 1.0 / M,
            "1": 1.0, "n": 1.0, "idx": 1.0}.get(dim)


class C04(C01):
    prop = "C04"
    quick_runs = 900
    thorough_runs = 30000
    real = ["every analysis, profile, energy, radius, orbit, tail and centre function", "galpy", "scipy", "astropy", "amuse units"]
    rule = ("one question with fixed physical arguments asked at several points of a seeded history of unit and origin changes; "
            "answers brought to pc, km/s, Msun, Myr and compared; non-trivial when at least two answers from different units "
            "were compared; distinct by event-log digest")
    state_measure = "distinct (question, options used, units, other units, origin) combinations"
    assumptions = ["compared within the same reference point where the answer is documented to depend on it",
                   "1e-3 where the library's own gravitational constants differ between systems (energies, circular velocities in "
                   "galpy and WD units)", "an answer that jumps under a 1e-9 relative perturbation of the stars is not compared"]

    def warm(self):
        A.build()

    def generate(self, rng, tier, index):
        spec = W.gen_spec(rng, nmin=8, nmax=26, energies=False, sky=rng.random() < 0.3)
        # gravity is G=1 in N-body units: the conversions of one cluster hang together
        sc = spec["scale"]
        sc["vbar"] = float("%.12g" % (4.302e-3 * sc["zmbar"] / sc["rbar"]) ** 0.5)
        sc["tbar"] = float("%.12g" % (sc["rbar"] / (sc["vbar"] * 1.022712165045695)))
        names = sorted(set(A.ASKS) - SKIPASK)
        q = None
        while q is None or (not spec["orbit"] and "orbit" in A.ASKS[q["ask"]].tags):
            q = A.gen_ask(rng, spec, names=names)
        q["kw"].pop("emax", None)
        ops = [q]
        us = list(CART)
        rng.shuffle(us)
        sky = spec["orbit"] and insky(q["ask"], q["kw"])
        for i in range(rng.randint(3, 6)):
            if sky and rng.random() < 0.3:
                ops.append(rng.choice([dict(op="units", u="radec", via=rng.choice(["method", "to_units", "func"]), analyze=True, cm=None),
                                       dict(op="origin", o="sky", via="method", sort=True, cm=None)]))
            elif rng.random() < 0.75:
                u = us[i % len(us)] if rng.random() < 0.9 else "amuse"
                ops.append(dict(op="units", u=u, via=rng.choice(["method", "to_units", "func"]), analyze=True, cm=None))
            if rng.random() < 0.4:
                ops.append(W.gen_frame_op(rng, spec, amuse=False, sky=rng.random() < 0.15))
            ops.append(q)
        return dict(specs=[spec], ops=[dict(o, c=0) for o in ops])

    def execute(self, plan, log):
        spec = plan["specs"][0]
        cl, p = W.build(spec)
        st = W.Stale()
        first = {}
        for i, op in enumerate(plan["ops"]):
            where = "step %d %s in (%s, %s)" % (i, {a: b for a, b in op.items() if a != "c"}, cl.units, cl.origin)
            if op["op"] == "bunits" and not p.nb:
                continue
            if op["op"] != "ask":
                log.ev(where)
                if "radec" in (cl.units, op.get("u")) or op.get("o") == "sky":
                    p.skylevel = 1
                W.apply_frame_op(cl, op, st)
                if st.r or st.order:
                    cl.analyze(sortstars=True)
                    st.r = st.order = False
                continue
            if cl.units == "radec" and (cl.origin != "sky" or not insky(op["ask"], op["kw"])) or not A.usable(op["ask"], cl, op["kw"], spec):
                continue
            a = A.ASKS[op["ask"]]
            # some questions may not look at the whole cluster from the galaxy: the reference point decides what is compared
            key = key_of(a.group, cl.origin)
            units = cl.units
            r = self.answer(cl, p, op, log)
            log.ev(where, r[0], r[1] if r[0] == "exc" else "")
            if key not in first:
                first[key] = (units, cl.origin, r)
                continue
            u0, o0, r0 = first[key]
            log.steps += 1
            log.state(op["ask"], sorted(op["kw"]), u0, units, cl.origin)
            if u0 != units:
                log.nontrivial = True
            log.probe("compared " + op["ask"])
            d = self.compare(a, r0, r, u0, units)
            if d:
                if self.jumps(cl, p, op, a, units):
                    log.probe("ill-conditioned " + op["ask"])
                    return
                raise Violation("answer:%s" % op["ask"], "%s: asked in (%s, %s) and here: %s" % (where, u0, o0, d))

    def answer(self, cl, p, op, log=None):
        try:
            res = A.invoke(op["ask"], cl, op["kw"], p)
        except Exception as ex:
            return ("exc", type(ex).__name__, str(ex)[:160])
        a = A.ASKS[op["ask"]]
        dims = a.dims(op["kw"]) if callable(a.dims) else a.dims
        f = p.factors(cl.units)
        out = []
        for path, kind, v in res:
            dim = "x"
            if len(dims) == 1 and not path.startswith("r["):
                dim = dims[0]
            elif path.startswith("r["):
                i = int(path[2:path.index("]")])
                if len(dims) == 1:
                    dim = dims[0]
                elif i < len(dims):
                    dim = dims[i]
            if dim == "x" or kind == "lit":
                continue
            if dim == "cluster":
                k = path.rsplit(".", 1)[-1]
                dim = ("L" if k in XK or k in ("xc", "yc", "zc", "xgc", "ygc", "zgc") else "V" if k in VK or k in (
                    "vxc", "vyc", "vzc", "vxgc", "vygc", "vzgc") else "M" if k in ("m",) else "T" if k == "tphys" else
                    "n" if k in ("id", "kw", "npop", "ntot", "logl", "logr", "ep", "ospin", "m0", "id1", "id2") else "x")
                if dim == "x":
                    continue
            if dim == "L" and cl.units == "radec":
                u = 1.0
                v = np.tan(np.radians(np.asarray(v, dtype=float))) * p.sky()[1][2] * 1e3
            elif dim == "V" and cl.units == "radec":
                u = 1.0
            else:
                u = unit_of(dim, f)
            if dim in ("orbit", "orbits", "sky"):
                u = 1.0
            if u is None:
                raise HarnessError("dimension %r of %s" % (dim, op["ask"]))
            if log is not None:
                log.arr(path, v)
            out.append((path, dim, np.asarray(v, dtype=float) / u))
        return ("ok", out)

    def compare(self, a, ra, rb, ua, ub):
        if "RuntimeError" in (ra[1], rb[1]) and "tapered" in a.name:
            return None     # the library's curve fit did not converge for one of the two
        if ra[0] != rb[0]:
            return "%s and %s" % (self.say(ra), self.say(rb))
        if ra[0] == "exc":
            return None
        if len(ra[1]) != len(rb[1]):
            return "answers with %d and %d parts" % (len(ra[1]), len(rb[1]))
        rtol = 1e-5
        if a.grav and (("galpy" in (ua, ub)) or ("WDunits" in (ua, ub))):
            rtol = 1e-3
        for (pa, da, va), (pb, db, vb) in zip(ra[1], rb[1]):
            if pa != pb or da != db:
                return "parts %s and %s" % (pa, pb)
            big = float(np.nanmax(np.abs(va))) if va.size and not np.all(np.isnan(va)) else 0.0
            atol = 1e-7 * big
            if da == "L":
                atol = max(atol, 1e-6)
            elif da == "V":
                atol = max(atol, 1e-6)
            elif da in ("1", "T"):
                atol = max(atol, 1e-6)
            if not W.close(vb, va, rtol, atol):
                return "%s (%s) in pc, km/s, Msun, Myr: %s" % (pa, da, W.worst(vb, va))
        return None

    def say(self, r):
        return "raised %s (%s)" % (r[1], r[2]) if r[0] == "exc" else "an answer"

    def jumps(self, cl, p, op, a, units):
        """does the answer itself jump under rounding-size perturbations of the stars?"""
        if cl.units == "amuse":
            cl.to_pckms()
        base = E.twin(cl)
        r0 = self.answer(base, p, op)
        for s in range(6):
            t = E.twin(cl)
            r = np.random.Generator(np.random.PCG64(1000 + s))
            for k in XK + VK:
                x = getattr(t, k)
                ref = {"x": "xgc", "y": "ygc", "z": "zgc", "vx": "vxgc", "vy": "vygc", "vz": "vzgc"}[k]
                sc = np.max(np.abs(x)) + (abs(getattr(t, ref)) * 1e-3)
                setattr(t, k, x + sc * 1e-9 * r.uniform(-1, 1, len(x)))
            t.m = t.m * (1 + 1e-12 * r.uniform(-1, 1, len(t.m)))
            t.analyze(sortstars=True)
            if self.compare(a, r0, self.answer(t, p, op), units, units):
                return True
        return False

    def simplify(self, plan):
        return ()
