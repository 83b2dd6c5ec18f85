"""C06: arguments belong to the caller and are never modified."""
import copy
import random

import numpy as np

from . import asks as A, callouts as F, edits as E, world as W
from .core import Check, HarnessError, Violation
from .c01 import C01
from .model import CART, VK, XK, num


# ------------------------------------------------------------------------------------- frozen values
def freeze(o, depth=0):
    """a comparable picture of the value of an argument"""
    if depth > 6:
        return "deep"
    if o is None or isinstance(o, (bool, int, float, str, bytes, np.generic)):
        return repr(o)
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ("oarr", o.shape, tuple(freeze(v, depth + 1) for v in o.ravel()))
        return ("arr", str(o.dtype), o.shape, o.tobytes())
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(freeze(v, depth + 1) for v in o))
    if isinstance(o, dict):
        return ("dict", tuple((str(k), freeze(o[k], depth + 1)) for k in o))
    t = type(o).__name__
    if hasattr(o, "value_in"):
        return ("quantity", str(o.unit), freeze(np.array(o.number), depth + 1))
    if t == "Orbit":
        return ("Orbit", freeze(np.array(o.vxvv), depth + 1), repr(o._ro), repr(o._vo), freeze(getattr(o, "t", None), depth + 1),
                freeze(getattr(o, "orbit", None), depth + 1))
    if t == "Table":
        return ("Table", tuple((c, freeze(np.array(o[c]), depth + 1)) for c in o.colnames))
    if (getattr(type(o), "__module__", "") or "").startswith("galpy.potential"):
        d = {k: v for k, v in vars(o).items() if isinstance(v, (bool, int, float, str, np.ndarray, np.generic))}
        return (t, freeze(d, depth + 1))
    if callable(o):
        return "callable"
    raise HarnessError("cannot freeze %r" % type(o))


def say(a, b, path="arg"):
    if type(a) is not type(b) or isinstance(a, str) or isinstance(b, str):
        return "%s: %.120r became %.120r" % (path, a, b)
    if isinstance(a, tuple) and a and a[0] == "arr" and b[0] == "arr":
        if a[1:3] == b[1:3]:
            x, y = np.frombuffer(a[3], dtype=a[1]), np.frombuffer(b[3], dtype=b[1])
            i = int(np.argmax(x != y)) if len(x) else 0
            return "%s[%d]: %r became %r" % (path, i, x[i], y[i])
        return "%s: %s became %s" % (path, a[1:3], b[1:3])
    if isinstance(a, tuple):
        if len(a) != len(b):
            return "%s: %d entries became %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return say(x, y, "%s.%s" % (path, i))
    return "%s: %.120r became %.120r" % (path, a, b)


class Pool(object):
    """every argument handed over so far, with the value it had then"""

    def __init__(self):
        self.items = []

    def add(self, label, obj):
        if obj is None or isinstance(obj, (bool, int, float, str)):
            return obj
        self.items.append((label, obj, freeze(obj)))
        return obj

    def check(self, where, sig):
        for label, obj, f in self.items:
            g = freeze(obj)
            if g != f:
                raise Violation("%s" % sig, "%s: argument %s was modified: %s" % (where, label, say(f, g, label)))


CALLS = {}


def call(name, gen=None, ok=None, weight=1):
    def deco(f):
        CALLS[name] = (gen or (lambda rng, s: {}), f, ok or (lambda cl: True), weight)
        return f
    return deco


def R(op):
    return np.random.Generator(np.random.PCG64(op["seed"]))


def shape(a, form):
    """an array argument in the form the caller happens to have it"""
    a = np.asarray(a)
    if form == "list":
        return a.tolist()
    if form == "strided":
        b = np.empty((len(a), 2), dtype=a.dtype)
        b[:, 0] = a
        b[:, 1] = -99
        return b[:, 0]
    if form == "ro":
        b = np.array(a)
        b.setflags(write=False)
        return b
    return np.array(a)


FORMS = ["array", "array", "strided", "ro", "list"]


@call("add_stars", lambda rng, s: dict(form=rng.choice(FORMS), k=rng.choice([1, 3]), opt=rng.randrange(8), rb=rng.random() < 0.3),
      ok=lambda cl: cl.units in CART, weight=4)
def _add_stars(cl, op, pool, ctx):
    r = R(op)
    k = op["k"]
    i = r.integers(0, len(cl.x), k)
    a = [pool.add("add_stars.%s" % q, shape(getattr(cl, q)[i] * r.uniform(0.9, 1.1, k), op["form"])) for q in XK + VK + ("m",)]
    kw = {}
    if op["opt"] & 1:
        kw["id"] = pool.add("add_stars.id", shape(np.amax(cl.id) + 5 + np.arange(k), op["form"]))
    if op["opt"] & 2:
        kw["m0"] = pool.add("add_stars.m0", shape(cl.m[i] * 1.5, op["form"]))
    if op["opt"] & 4:
        kw["npop"] = pool.add("add_stars.npop", shape(r.integers(1, 3, k), op["form"]))
    cl.add_stars(*a, **kw)


@call("add_binary_stars", lambda rng, s: dict(form=rng.choice(FORMS[:4]), k=rng.choice([1, 2]), opt=rng.randrange(4)),
      ok=lambda cl: cl.units in CART, weight=2)
def _add_binary_stars(cl, op, pool, ctx):
    r = R(op)
    k = op["k"]
    i = r.integers(0, len(cl.x), k)
    a = [pool.add("add_binary_stars.%s%d" % (q, j), shape(getattr(cl, q)[i] * r.uniform(0.9, 1.1, k), op["form"]))
         for j in (1, 2) for q in XK + VK]
    kw = dict(mb1=pool.add("mb1", shape(cl.m[i], op["form"])), mb2=pool.add("mb2", shape(cl.m[i] * 0.5, op["form"])))
    if op["opt"] & 1:
        kw["id1"] = pool.add("id1", shape(np.amax(cl.id) + 5 + np.arange(k), op["form"]))
        kw["id2"] = pool.add("id2", shape(np.amax(cl.id) + 55 + np.arange(k), op["form"]))
    if op["opt"] & 2:
        kw["m01"] = pool.add("m01", shape(cl.m[i] * 2.0, op["form"]))
        kw["m02"] = pool.add("m02", shape(cl.m[i] * 2.0, op["form"]))
    cl.add_binary_stars(*a, **kw)


@call("add_sse", lambda rng, s: dict(form=rng.choice(FORMS), ep=rng.random() < 0.5), weight=2,
      ok=lambda cl: len(np.atleast_1d(cl.kw)) == 0)
def _add_sse(cl, op, pool, ctx):
    r = R(op)
    n = len(cl.x)
    a = [pool.add("add_sse.%d" % j, shape(v, op["form"])) for j, v in enumerate(
        [r.integers(0, 15, n), r.uniform(-2, 3, n), r.uniform(-1, 2, n)] + ([r.uniform(0, 1, n)] * 2 if op["ep"] else []))]
    cl.add_sse(*a)


@call("add_bse", lambda rng, s: dict(form=rng.choice(FORMS), k=rng.choice([1, 3]), opt=rng.random() < 0.5), weight=3,
      ok=lambda cl: len(np.atleast_1d(cl.semi)) == 0)
def _add_bse(cl, op, pool, ctx):
    r = R(op)
    k = op["k"]
    names = "id1 id2 kw1 kw2 kcm ecc pb semi m1 m2 logl1 logl2 logr1 logr2".split()
    vals = [np.asarray(cl.id)[:k], np.asarray(cl.id)[:k] + 1000] + [r.integers(0, 15, k) for _ in range(3)] + [
        r.uniform(0.01, 1, k) for _ in range(9)]
    kw = {}
    if op["opt"]:
        kw = {q: pool.add("add_bse." + q, shape(r.uniform(0, 1, k), op["form"])) for q in ("ep1", "ep2", "ospin1", "ospin2")}
    cl.add_bse(*[pool.add("add_bse." + q, shape(v, op["form"])) for q, v in zip(names, vals)], **kw)
    cl.bunits = "nbody"


@call("add_energies", lambda rng, s: dict(form=rng.choice(FORMS[:4]), etot=rng.random() < 0.5), weight=2,
      ok=lambda cl: cl.units in CART)
def _add_energies(cl, op, pool, ctx):
    r = R(op)
    n = len(cl.x)
    a = [pool.add("add_energies.kin", shape(r.uniform(0, 10, n), op["form"])),
         pool.add("add_energies.pot", shape(-r.uniform(0, 10, n), op["form"]))]
    if op["etot"]:
        a.append(pool.add("add_energies.etot", shape(r.uniform(-10, 10, n), op["form"])))
    cl.add_energies(*a)


@call("add_actions", lambda rng, s: dict(form=rng.choice(FORMS)))
def _add_actions(cl, op, pool, ctx):
    r = R(op)
    n = len(cl.x)
    cl.add_actions(*[pool.add("add_actions.%d" % j, shape(r.uniform(0, 1, n), op["form"])) for j in range(9)])


@call("orbital_path_match.path", lambda rng, s: dict(form=rng.choice(["array", "strided", "ro", "list"]), outer=rng.choice(["list", "tuple"]),
      fn=rng.choice(["m", "f", "tail"]), to_path=rng.random() < 0.3, sky=rng.random() < 0.3, plot=rng.random() < 0.2),
      ok=lambda cl: cl.units != "amuse", weight=4)
def _path(cl, op, pool, ctx):
    import clustertools as ct
    from clustertools.tidaltail import tails as TT
    if op["sky"]:
        ctx["p"].skylevel = 1
    path = ct.orbital_path(cl, tfinal=A.resolve({"$T": 30.0}, cl, E.Units(cl)), nt=21, pot=A.pot("MW"), skypath=op["sky"])
    path = [shape(v, op["form"]) for v in path]
    if op["outer"] == "tuple":
        path = tuple(path)
    pool.add("path", path)
    kw = dict(path=path, tfinal=0.03, nt=21, pot=A.pot("MW"), to_path=op["to_path"], skypath=op["sky"], plot=op["plot"])
    if op["fn"] == "m":
        cl.orbital_path_match(**kw)
    elif op["fn"] == "f":
        ct.orbital_path_match(cl, **kw)
    else:
        kw.pop("tfinal")
        TT.tail_path_match(cl, dt=0.03, no=21, ntail=3, **dict(kw, nt=3))


@call("overlap_cluster", lambda rng, s: dict(tol={"$L": rng.choice([0.3, 1.0])}, projected=rng.random() < 0.3, ret=rng.random() < 0.5),
      ok=lambda cl: cl.units != "amuse", weight=4)
def _overlap(cl, op, pool, ctx):
    import clustertools as ct
    ct.overlap_cluster(cl, ctx["other"], tol=A.resolve(op["tol"], cl, E.Units(cl)), projected=op["projected"], return_cluster=op["ret"])


@call("sub_cluster", lambda rng, s: dict(seed2=rng.randrange(1 << 20), form=rng.choice(["array", "ro", "strided"]), kind=rng.choice(["mask", "index"]),
      re=rng.random() < 0.3), ok=lambda cl: cl.units != "amuse", weight=3)
def _sub(cl, op, pool, ctx):
    import clustertools as ct
    m = R(op).uniform(0, 1, len(cl.x)) < 0.7
    if not np.any(m):
        m[0] = True
    kw = {}
    if op["re"]:
        kw["reset_centre"] = True
    s = ct.sub_cluster(cl, indx=pool.add("indx", shape(m if op["kind"] == "mask" else m, op["form"])), **kw)
    # the new cluster is another one: whatever is done to it, the old one keeps its own stars
    ctx["subs"].append(s)


@call("load:astropy_table", lambda rng, s: dict(mapper=rng.random() < 0.6, origin=rng.choice([None, "cluster", "galaxy"]),
      units=rng.choice(["pckms", "kpckms", "nbody"])), weight=3)
def _table(cl, op, pool, ctx):
    import clustertools as ct
    from astropy.table import Table
    r = R(op)
    n = 12
    names = list(XK + VK + ("m", "id"))
    cols = [r.normal(0, 1, n) for _ in range(6)] + [r.uniform(0.1, 1, n), np.arange(n) + 1]
    kw = {}
    if op["mapper"]:
        mp = {q: q.upper() + "_" for q in names}
        kw["column_mapper"] = pool.add("column_mapper", mp)
        names = [mp[q] for q in names]
    t = pool.add("particles", Table(cols, names=names))
    c = ct.load_cluster("astropy_table", units=op["units"], origin=op["origin"], particles=t, **kw)
    ctx["loaded"].append(c)


@call("load:galpy", lambda rng, s: dict(form=rng.choice(["array", "float", None]), origin=rng.choice([None, "cluster", "galaxy"])), weight=3)
def _galpy(cl, op, pool, ctx):
    import clustertools as ct
    from galpy.orbit import Orbit
    r = R(op)
    n = 10
    o = pool.add("particles", Orbit(np.column_stack([r.uniform(0.9, 1.1, n), r.normal(0, 0.1, n), r.normal(1, 0.1, n), r.normal(0, 0.01, n),
                                                     r.normal(0, 0.1, n), r.uniform(0, 0.1, n)]), ro=8.275, vo=239.23))
    kw = {}
    if op["form"] == "array":
        kw["m"] = pool.add("m", r.uniform(0.1, 1, n))
    elif op["form"] == "float":
        kw["m"] = 0.5
    ctx["loaded"].append(ct.load_cluster("galpy", units="kpckms", origin=op["origin"], particles=o, **kw))


@call("load:amuse", lambda rng, s: dict(units=rng.choice(["pckms", "kpckms", "pcmyr", "kpcgyr"]), origin=rng.choice([None, "cluster", "galaxy"])), weight=2)
def _amuse(cl, op, pool, ctx):
    import clustertools as ct
    from amuse.datamodel import Particles
    from amuse.units import units as u
    r = R(op)
    n = 10
    P = Particles(n)
    for q, un in zip(XK + VK + ("mass",), [u.parsec] * 3 + [u.kms] * 3 + [u.MSun]):
        setattr(P, q, r.uniform(0.2, 1, n) | un)
    before = [(q, freeze(getattr(P, q))) for q in XK + VK + ("mass",)]
    try:
        ctx["loaded"].append(ct.load_cluster("amuse", units=op["units"], origin=op["origin"], particles=P))
    finally:
        for q, f in before:
            if freeze(getattr(P, q)) != f:
                raise Violation("arg:load:amuse", "particles.%s was modified: %s" % (q, say(f, freeze(getattr(P, q)), q)))


@call("snapshot.cols", lambda rng, s: dict(form=rng.choice(["list", "array"]), orbit=rng.random() < 0.5, sol=rng.random() < 0.5), weight=3)
def _snapcols(cl, op, pool, ctx):
    import clustertools as ct
    import os
    from galpy.orbit import Orbit
    r = R(op)
    fn = os.path.join(ctx["dir"](), "snap%d.dat" % len(ctx["loaded"]))
    n = 12
    np.savetxt(fn, np.column_stack([np.arange(n) + 1, r.uniform(0.1, 1, n)] + [r.normal(0, 1, n) for _ in range(6)]))
    names = pool.add("col_names", shape(np.array(["id", "m", "x", "y", "z", "vx", "vy", "vz"]), op["form"]))
    nums = pool.add("col_nums", shape(np.arange(8), op["form"]))
    kw = {}
    if op["orbit"]:
        o = Orbit([1.0, 0.1, 1.1, 0.0, 0.1, 0.3], ro=8.275, vo=239.23)
        o.integrate(np.linspace(0, 1, 5), A.pot("MW"))
        kw["orbit"] = pool.add("orbit", o)
    if op["sol"]:
        kw["solarmotion"] = pool.add("solarmotion", [-11.1, 12.24, 7.25])
    ctx["loaded"].append(ct.load_cluster("snapshot", filename=fn, units="pckms", origin="galaxy" if op["orbit"] else "cluster",
                                         col_names=names, col_nums=nums, **kw))


@call("recipes", lambda rng, s: dict(fn=rng.randrange(14), form=rng.choice(["array", "strided", "ro"]), n=rng.choice([12, 25]),
      k=rng.choice([2, 3, 5])), weight=5)
def _recipes(cl, op, pool, ctx):
    from clustertools.util import recipes as Q
    r = R(op)
    n, k = op["n"], op["k"]
    x = pool.add("x", shape(r.uniform(0.1, 2, n), op["form"]))
    y = pool.add("y", shape(r.uniform(0.1, 2, n), op["form"]))
    lo, me, up = [pool.add(q, shape(v, op["form"])) for q, v in (("x_lower", np.linspace(0.1, 1.5, 4)), ("x_mean", np.linspace(0.3, 1.7, 4)),
                                                                   ("x_upper", np.linspace(0.5, 2.0, 4)))]
    b = dict(x_lower=lo, x_mean=me, x_upper=up)
    f = op["fn"]
    if f == 0:
        Q.nbinmaker(x, k, nsum=True)
    elif f == 1:
        Q.binmaker(x, k, nsum=True, steptype="log" if n == 12 else "linear")
    elif f == 2:
        Q.roaming_nbinmaker(x, k, ntot=6)
    elif f == 3:
        Q.roaming_binmaker(x, k, ntot=6, steptype="log" if n == 12 else "linear")
    elif f == 4:
        Q.dx_function(x, k + 1, bintype="num")
    elif f == 5:
        Q.dx_function(x, 4, **b)
    elif f == 6:
        Q.x_hist(x, k, bins=True, **(b if n == 12 else {}))
    elif f == 7:
        Q.mean_prof(x, y, k, bintype="fix" if n == 12 else "num", median=k == 3)
    elif f == 8:
        Q.mean_prof(x, y, 4, **b)
    elif f == 9:
        Q.smooth(x, y, 0.5, bintype="fix" if n == 12 else "num", median=k == 3)
    elif f == 10:
        Q.minimum_distance(x if False else pool.add("xs", shape(r.uniform(0, 1, (n, 3)), "array")))
    elif f == 11:
        Q.distance(x, y)
    elif f == 12:
        Q.interpolate(pool.add("r1", [0.0, 1.0]), pool.add("r2", [2.0, 3.0]), x=1.0)
    elif f == 13:
        Q.tapered_dx_function(x, k + 2, bintype="fix")


@call("coordinates", lambda rng, s: dict(fn=rng.randrange(5), form=rng.choice(["array", "strided", "ro"]), one=rng.random() < 0.2), weight=3)
def _coords(cl, op, pool, ctx):
    from clustertools.util import coordinates as Q
    r = R(op)
    n = 7
    a = [pool.add("c%d" % j, shape(r.uniform(0.1, 2, n), op["form"])) for j in range(6)]
    [Q.cart_to_sphere, Q.sphere_to_cart, Q.cart_to_cyl, Q.cyl_to_cart, Q.cart_to_sky][op["fn"]](*a)


@call("find_centre.mask", lambda rng, s: dict(form=rng.choice(["array", "ro", "strided"]), fn=rng.choice(["find_centre", "find_centre_of_density"])),
      ok=lambda cl: cl.units in CART, weight=2)
def _fc(cl, op, pool, ctx):
    m = R(op).uniform(0, 1, len(cl.x)) < 0.8
    m[:4] = True
    getattr(cl, op["fn"])(indx=pool.add("indx", shape(m, op["form"])), nsphere=4)


@call("rtidal.pot", lambda rng, s: dict(it=rng.randint(0, 3), fn=rng.choice(["rtidal", "rlimiting"])), ok=lambda cl: cl.units != "amuse", weight=2)
def _pot(cl, op, pool, ctx):
    from galpy import potential as P
    pt = pool.add("pot", [P.LogarithmicHaloPotential(normalize=1.0, q=0.9), P.PlummerPotential(amp=0.1, b=0.5)])
    if op["fn"] == "rtidal":
        cl.rtidal(pot=pt, rtiterate=op["it"])
    else:
        cl.rlimiting(pot=pt, nrad=3)


@call("solarmotion", lambda rng, s: dict(fn=rng.randrange(4)), ok=lambda cl: cl.units != "amuse", weight=3)
def _sol(cl, op, pool, ctx):
    import clustertools as ct
    s = pool.add("solarmotion", [-11.1, 12.24, 7.25])
    t = E.Units(cl)
    kw = dict(solarmotion=s)
    if op["fn"] == 0:
        cl.initialize_orbit(**kw)
    elif op["fn"] == 1:
        ct.orbital_path(cl, tfinal=A.resolve({"$T": 20.0}, cl, t), nt=9, pot=A.pot("MW"), **kw)
    elif op["fn"] == 2:
        ct.interpolate_orbit(cl, tfinal=A.resolve({"$T": 20.0}, cl, t), nt=9, pot=A.pot("MW"), **kw)
    else:
        ctx["p"].skylevel = 1
        ct.sky_coords(cl, **kw)


def arrayish(kw):
    return any(isinstance(v, dict) and next(iter(v)) in ("$mask", "$bins", "$list", "$arr", "$ids", "$idlist", "$ones", "$pot") for v in kw.values())


class C06(C01):
    prop = "C06"
    quick_runs = 600
    thorough_runs = 30000
    real = ["every public function of clustertools that takes arrays, lists, dictionaries, tables, potentials, orbits or other clusters",
            "the exception paths of clustertools"]
    stub = ["in a third of the calls one call into galpy, scipy, numpy, matplotlib, astropy or open() is replaced by an exception"]
    fault_kinds = tuple(sorted(F.KINDS))
    rule = ("a seeded history of calls with caller-owned arguments and frame changes, some of the calls failing part way; every argument "
            "handed over so far is compared with its value at that time after every step; non-trivial when two argument-taking calls were made")
    state_measure = "distinct (function, options, units, origin, failing call site) combinations"
    assumptions = ["another cluster passed as argument must describe the same stars, frame and bookkeeping up to rounding"]

    def warm(self):
        A.build()
        import astropy.table  # noqa
        import amuse.datamodel  # noqa

    def generate(self, rng, tier, index):
        spec = W.gen_spec(rng, nmin=8, nmax=20, energies=True)
        other = W.gen_spec(rng, nmin=8, nmax=14, energies=True, orbit=spec["orbit"] or None)
        ops = []
        for _ in range(rng.randint(4, 9)):
            c = rng.random()
            if c < 0.3:
                op = W.gen_frame_op(rng, spec, amuse=rng.random() < 0.2)
            elif c < 0.75:
                names = [q for q in sorted(CALLS) for _ in range(CALLS[q][3])]
                q = rng.choice(names)
                op = dict(op="call", call=q, seed=rng.randrange(1 << 30), **CALLS[q][0](rng, spec))
            elif c < 0.92:
                for _ in range(4):
                    op = A.gen_ask(rng, spec)
                    if arrayish(op["kw"]):
                        break
            else:
                op = E.gen(rng, spec, ["addstars", "energies", "find_centre", "interpolate_orbit", "interpolate_orbits", "scale"])
            if op["op"] in ("call", "ask") and rng.random() < 0.33:
                op["fault"] = dict(at=rng.randrange(1 << 30), seed=rng.randrange(1 << 30))
            ops.append(op)
        return dict(specs=[spec, other], ops=[dict(o, c=0) for o in ops])

    def execute(self, plan, log):
        import matplotlib.pyplot as plt
        import shutil
        import tempfile
        spec, ospec = plan["specs"][:2] if len(plan["specs"]) > 1 else (plan["specs"][0], plan["specs"][0])
        cl, p = W.build(spec)
        other, po = W.build(ospec)
        pool = Pool()
        tmp = []

        def scratch():
            if not tmp:
                tmp.append(tempfile.mkdtemp(prefix="verif-c06-"))
            return tmp[0]
        ctx = dict(other=other, subs=[], loaded=[], dir=scratch, p=p)
        seam = F.seam()
        st = W.Stale()
        done = 0
        try:
            for i, op in enumerate(plan["ops"]):
                where = "step %d %s in (%s, %s)" % (i, {a: b for a, b in op.items() if a != "c"}, cl.units, cl.origin)
                if op["op"] == "bunits" and cl.nb == 0:
                    continue
                if op["op"] == "ask":
                    if not A.usable(op["ask"], cl, op["kw"], spec):
                        continue
                    name = op["ask"]
                    kw = {k: pool.add("%s(%s=)" % (name, k), A.resolve(v, cl, E.Units(cl))) for k, v in op["kw"].items()}
                    fn = lambda: A.ASKS[name].fn(cl, kw)
                elif op["op"] == "call":
                    name = op["call"]
                    if name not in CALLS or not CALLS[name][2](cl):
                        continue
                    if not spec["orbit"] and name in ("orbital_path_match.path", "rtidal.pot", "solarmotion"):
                        continue
                    if name == "overlap_cluster" and not (spec["orbit"] and ospec["orbit"]) and "radec" in (cl.units, other.units):
                        continue
                    fn = lambda: CALLS[name][1](cl, op, pool, ctx)
                elif op["op"] == "edit":
                    if not E.usable(cl, op, spec):
                        continue
                    name = "edit:" + op["edit"]
                    fn = lambda: E.apply(cl, op)
                else:
                    name = op["op"]
                    if ctx["subs"] and i % 2:
                        # sub-clusters are clusters of their own
                        fn = lambda: W.apply_frame_op(ctx["subs"][-1] if op["op"] != "bunits" else cl, op, W.Stale())
                    else:
                        fn = lambda: W.apply_frame_op(cl, op, st)
                    if "radec" in (cl.units, op.get("u")) or op.get("o") == "sky":
                        p.skylevel = po.skylevel = 1
                log.ev(where)
                osnap = W.snapshot(other)
                otol = W.tol_of(other, po)
                hit = None
                try:
                    if op.get("fault"):
                        k0 = len(pool.items)
                        r = self.faulted(seam, fn, op["fault"], cl)
                        hit = seam.hit
                        if hit:
                            log.fault(seam.kind)
                        if r[0] == "exc" and hit is None:
                            raise r[1]
                    else:
                        fn()
                except (Violation, HarnessError):
                    raise
                except A.NATURAL as ex:
                    log.probe("natural exception %s %s" % (name, type(ex).__name__))
                    if isinstance(ex, ValueError) and "read-only" in str(ex):
                        raise Violation("arg:" + name, "%s wrote into an argument: %r" % (where, ex))
                    pool.check(where + " (raised %r)" % ex, "arg:" + name)
                    log.ev("raised", type(ex).__name__)
                    return
                except Exception as ex:
                    pool.check(where + " (raised %r)" % ex, "arg:" + name)
                    raise Violation("exception:%s:%s" % (name, type(ex).__name__), "%s raised %r" % (where, ex))
                finally:
                    plt.close("all")
                label = where + (" failing at %s" % hit if hit else "")
                pool.check(label, "arg:" + name)
                if name == "overlap_cluster" and not hit:
                    W.compare_snap(osnap, W.snapshot(other), label + ": the other cluster", otol, allow=set(W.BIN) | set(["bunits"]),
                                   sig="arg:overlap_cluster")
                    if po.nb:
                        W.same_binaries(osnap, W.snapshot(other), label + ": the other cluster", po.scale, "arg:overlap_cluster")
                    W.check_derived(other, label + ": the other cluster", W.Stale(), po)
                elif name == "overlap_cluster":
                    po.skylevel = 1
                    W.check_phys(other, po, self.method(other, ospec["cm"]), label + ": the other cluster")
                else:
                    W.compare_snap(osnap, W.snapshot(other), label + ": a cluster that took no part", otol, sig="arg:bystander")
                if op["op"] in ("call", "ask"):
                    done += 1
                    log.state(name, sorted(k for k in op if k not in ("seed", "c")), sorted(op.get("kw", ())), cl.units, cl.origin, hit)
                    log.steps += 1
                log.probe("op " + name)
                if hit:
                    # the frame is whatever the failure left (C05 decides that): go on from a fresh cluster
                    pool2 = pool
                    cl, p = W.build(spec)
                    ctx["p"] = p
                    st = W.Stale()
        finally:
            if tmp:
                shutil.rmtree(tmp[0], ignore_errors=True)
        log.nontrivial = done >= 2

    def method(self, cl, cm):
        if cl.units == "radec" and cl.origin in ("cluster", "centre"):
            return cl.centre_method
        return cm

    def faulted(self, seam, fn, f, cl):
        """strike at a callout near the end as often as near the start: the number of callouts is not known beforehand"""
        rng = random.Random(f["seed"])
        at = int(2 ** (rng.random() * 9)) - 1
        kind = rng.choice(["memory", "value", "runtime", "interrupt", "oserror"])
        return seam.run(fn, at=at, kind=kind, want=rng.choice([None, None, ["galpy", "scipy", "matplotlib", "open"]]))

    def simplify(self, plan):
        for q in C01.simplify(self, plan):
            if len(q["specs"]) == len(plan["specs"]):
                yield q
        for i, op in enumerate(plan["ops"]):
            if op.get("fault"):
                q = copy.deepcopy(plan)
                del q["ops"][i]["fault"]
                yield q
