"""Legal edits of a cluster (the operations that are meant to change it), as JSON operations.

Edits are expressed relative to the cluster's current data, so the same edit means the same thing for a cluster
and for its twin whatever the frame.
"""
import copy

import numpy as np

from . import asks as A, world as W
from .core import HarnessError
from .model import CART, SKYKEYS, VK, XK, Phys, num


class Units(object):
    """unit factors from a cluster's own scale factors (its physical model may no longer be known)"""

    def __init__(self, cl):
        self.scale = dict(rbar=cl.rbar, zmbar=cl.zmbar, vbar=cl.vbar, tbar=cl.tbar)
        self.ro, self.vo, self.zo, self.solarmotion = cl._ro, cl._vo, cl._zo, cl._solarmotion

    def factors(self, units):
        return Phys.factors(self, units)


EDITS = {}


def edit(name, ok=None):
    def deco(f):
        EDITS[name] = (f, ok or (lambda cl: True))
        return f
    return deco


def plain(cl):
    return cl.units in CART


def rng_of(op):
    return np.random.Generator(np.random.PCG64(op["seed"]))


@edit("addstars", plain)
def _addstars(cl, op):
    r = rng_of(op)
    n = len(cl.x)
    k = op["n"]
    i, j = r.integers(0, n, k), r.integers(0, n, k)
    w = r.uniform(-0.6, 1.6, k)
    new = {q: getattr(cl, q)[i] * (1 - w) + getattr(cl, q)[j] * w for q in XK + VK}
    had_sse = len(cl.kw) == n and n > 0
    had_e = len(np.atleast_1d(cl.kin)) == n
    kw = {}
    if op.get("ids"):
        kw["id"] = np.amax(cl.id) + 10 + np.arange(k)
    if op.get("m0"):
        kw["m0"] = cl.m[i] * 1.1
    if op.get("npop"):
        kw["npop"] = r.integers(1, 3, k)
    cl.add_stars(new["x"], new["y"], new["z"], new["vx"], new["vy"], new["vz"], cl.m[i] * r.uniform(0.5, 1.5, k),
                 sortstars=op.get("sort", False), **kw)
    if had_sse:
        args = [r.integers(0, 15, k), r.uniform(-1, 1, k), r.uniform(-1, 1, k)]
        if len(np.atleast_1d(cl.ep)) == n:
            args += [r.uniform(0, 1, k), r.uniform(0, 1, k)]
        cl.add_sse(*args)
    if had_e:
        cl.energies()


@edit("move", plain)
def _move(cl, op):
    r = rng_of(op)
    for q in XK + VK:
        a = getattr(cl, q)
        d = a - np.mean(a)
        setattr(cl, q, np.mean(a) + d * r.uniform(0.5, 1.5, len(a)))
    cl.analyze(sortstars=op.get("sort", True))


@edit("inplace", plain)
def _inplace(cl, op):
    r = rng_of(op)
    k = r.integers(0, len(cl.x))
    s = np.std(cl.x)
    cl.x[k] += s * r.uniform(-3, 3)
    cl.y[k] -= s * r.uniform(-3, 3)
    cl.vx[k] *= 1.3
    cl.analyze()


@edit("mass", lambda cl: cl.units != "amuse")
def _mass(cl, op):
    r = rng_of(op)
    cl.m = cl.m * r.uniform(0.6, 1.0, len(cl.m))
    cl.analyze()


@edit("orbit", plain)
def _orbit(cl, op):
    g = np.array([float(getattr(cl, k + "gc")) for k in XK + VK])
    c, s = np.cos(op["ang"]), np.sin(op["ang"])
    h = [c * g[0] - s * g[1], s * g[0] + c * g[1], g[2] * op["f"], c * g[3] - s * g[4], s * g[3] + c * g[4], g[5] * op["f"]]
    if op.get("attr"):
        for k, v in zip(XK + VK, h):
            setattr(cl, k + "gc", float(v))
        return
    kw = {}
    if op.get("init"):
        kw["initialize"] = True
    if op.get("kpc"):
        L, V, M, T = Units(cl).factors(cl.units)
        h = [v / L / 1000.0 for v in h[:3]] + [v / V for v in h[3:]]
        if cl.units in ("kpckms", "pckms", "nbody", "galpy"):
            kw["ounits"] = "kpckms"
        else:
            h = [v * L * 1000.0 for v in h[:3]] + [v * V for v in h[3:]]
    cl.add_orbit(*[float(v) for v in h], **kw)


@edit("centre", plain)
def _centre(cl, op):
    if cl.origin == "centre":
        return
    s = np.std(cl.x)
    for q in XK:
        setattr(cl, q + "c", float(getattr(cl, q + "c")) + s * op["f"])


@edit("find_centre", plain)
def _find_centre(cl, op):
    kw = {k: A.resolve(v, cl, Units(cl)) for k, v in op["kw"].items()}
    f = getattr(cl, op["fn"])
    return f(**kw)


@edit("energies", plain)
def _energies(cl, op):
    return cl.energies(**{k: A.resolve(v, cl, Units(cl)) for k, v in op["kw"].items()})


@edit("virialize", plain)
def _virialize(cl, op):
    return cl.virialize(**{k: A.resolve(v, cl, Units(cl)) for k, v in op["kw"].items()})


@edit("rotation", plain)
def _rotation(cl, op):
    np.random.seed(op["seed"] % (1 << 31))
    cl.add_rotation(op["q"])


@edit("scale", plain)
def _scale(cl, op):
    cl.reset_nbody_scale(**op["kw"])


@edit("nbody6", lambda cl: cl.units in CART and cl.units != "nbody" and cl.nb == 0)
def _nbody6(cl, op):
    xc, yc, zc, vxc, vyc, vzc = cl.xc, cl.yc, cl.zc, cl.vxc, cl.vyc, cl.vzc
    cl.add_nbody6(rbar=cl.rbar * op["f"], zmbar=cl.zmbar * op["f"] ** 2, vbar=cl.vbar * 1.1, tbar=cl.tbar * 0.9, ns=cl.ns, nb=cl.nb)
    cl.xcn = cl.ycn = cl.zcn = None
    cl.xc, cl.yc, cl.zc, cl.vxc, cl.vyc, cl.vzc = xc, yc, zc, vxc, vyc, vzc


@edit("time", plain)
def _time(cl, op):
    cl.tphys = cl.tphys + op["t"] * Units(cl).factors(cl.units)[3]


@edit("interpolate_orbit", plain)
def _iorb(cl, op):
    return cl.interpolate_orbit(**{k: A.resolve(v, cl, Units(cl)) for k, v in op["kw"].items()})


@edit("interpolate_orbits", plain)
def _iorbs(cl, op):
    return cl.interpolate_orbits(**{k: A.resolve(v, cl, Units(cl)) for k, v in op["kw"].items()})


def gen(rng, spec, names=None):
    name = rng.choice(names or ["addstars", "addstars", "move", "move", "inplace", "mass", "orbit", "orbit", "centre",
                                "find_centre", "energies", "energies", "virialize", "rotation", "scale", "nbody6", "time",
                                "interpolate_orbit", "interpolate_orbits"])
    op = dict(op="edit", edit=name, seed=rng.randrange(1 << 30))
    if name == "addstars":
        op.update(n=rng.randint(1, 4), sort=rng.random() < 0.5, ids=rng.random() < 0.5, m0=rng.random() < 0.3,
                  npop=rng.random() < 0.3)
    elif name == "move":
        op.update(sort=rng.random() < 0.7)
    elif name == "orbit":
        op.update(ang=round(rng.uniform(-1, 1), 6), f=round(rng.uniform(0.5, 1.1), 6), attr=rng.random() < 0.4,
                  init=rng.random() < 0.4, kpc=rng.random() < 0.4)
    elif name == "centre":
        op.update(f=round(rng.uniform(-0.5, 0.5), 6))
    elif name == "find_centre":
        op["fn"] = rng.choice(["find_centre", "find_centre", "find_centre_of_mass", "find_centre_of_density"])
        if op["fn"] == "find_centre_of_mass":
            op["kw"] = {}
        else:
            op["kw"] = A.ASKS["f:find_centre"].gen(rng, spec)
            if op["fn"] == "find_centre_of_density":
                op["kw"].pop("density", None)
                op["kw"].pop("nsigma", None)
        if rng.random() < 0.2:
            op["kw"]["reset_centre"] = True
    elif name == "energies":
        op["kw"] = rng.choice([{}, {}, dict(specific=False), dict(projected=True), dict(softening={"$L": 0.1})])
    elif name == "virialize":
        op["kw"] = rng.choice([{}, dict(qvir=0.3), dict(qvir=0.7, softening={"$L": 0.1})])
    elif name == "rotation":
        op["q"] = rng.choice([0.0, 0.5, 1.0])
    elif name == "scale":
        op["kw"] = rng.choice([{}, dict(rvirial=False), dict(mass=False), dict(radii=False), dict(projected=True)])
    elif name == "nbody6":
        op["f"] = round(rng.uniform(0.5, 2.0), 6)
    elif name == "time":
        op["t"] = round(rng.uniform(0.1, 100.0), 6)
    elif name == "interpolate_orbit":
        op["kw"] = dict(pot={"$pot": rng.choice(["MW", "log"])}, tfinal={"$T": rng.choice([-30.0, 5.0, 40.0])}, nt=10)
        if rng.random() < 0.2:
            op["kw"]["from_centre"] = True
    elif name == "interpolate_orbits":
        op["kw"] = dict(pot={"$pot": rng.choice(["MW", "log"])}, tfinal={"$T": rng.choice([-30.0, 5.0, 40.0])}, nt=5)
    return op


def usable(cl, op, spec):
    f, ok = EDITS[op["edit"]]
    if not ok(cl):
        return False
    if not spec["orbit"] and op["edit"] in ("orbit", "interpolate_orbit", "interpolate_orbits"):
        return False
    return True


def apply(cl, op):
    f, ok = EDITS[op["edit"]]
    return f(cl, op)


# -------------------------------------------------------------------------------- the fresh twin
def twin(cl, ct=None, energies=True):
    """a new cluster holding the current public data and labels of cl, and nothing else"""
    if ct is None:
        import clustertools as ct
    t = ct.StarCluster(float(num(cl.tphys)), units=cl.units, origin=cl.origin, ctype=cl.ctype, projected=cl.projected,
                       ro=cl._ro, vo=cl._vo, zo=cl._zo, solarmotion=copy.deepcopy(cl._solarmotion),
                       centre_method=cl.centre_method)
    t.add_nbody6(rbar=cl.rbar, zmbar=cl.zmbar, vbar=cl.vbar, tbar=cl.tbar)
    for k in XK + VK:
        setattr(t, k + "gc", float(getattr(cl, k + "gc")))
        setattr(t, k + "c", float(getattr(cl, k + "c")))
    if cl.units == "radec":
        for k in SKYKEYS:
            setattr(t, k + "_gc", float(getattr(cl, k + "_gc")))
            setattr(t, k + "_c", float(getattr(cl, k + "_c")))
    if cl.nb > 0 and len(np.atleast_1d(cl.semi)) > 0:
        t.add_bse(*[copy.copy(getattr(cl, k)) for k in ("id1", "id2", "kw1", "kw2", "kcm", "ecc", "pb", "semi", "m1", "m2",
                                                        "logl1", "logl2", "logr1", "logr2")],
                  ep1=copy.copy(cl.ep1), ep2=copy.copy(cl.ep2), ospin1=copy.copy(cl.ospin1), ospin2=copy.copy(cl.ospin2))
    t.bunits = cl.bunits
    t.add_stars(*[np.array(getattr(cl, k), dtype=float) for k in XK + VK + ("m",)], id=np.array(cl.id),
                m0=np.array(cl.m0, dtype=float), npop=np.array(cl.npop), sortstars=True)
    if cl.units == "radec":
        for k in SKYKEYS:
            setattr(t, k, np.array(getattr(cl, k), dtype=float))
    if len(np.atleast_1d(cl.kw)) == len(cl.x):
        a = [np.array(cl.kw), np.array(cl.logl), np.array(cl.logr)]
        if len(np.atleast_1d(cl.ep)) == len(cl.x):
            a += [np.array(cl.ep), np.array(cl.ospin)]
        t.add_sse(*a)
    if energies and len(np.atleast_1d(cl.kin)) == len(cl.x):
        t.add_energies(np.array(cl.kin), np.array(cl.pot))
    t.nb, t.ns = cl.nb, cl.ns
    for k in ("nsnap", "wdir", "give", "rscale", "xcn", "ycn", "zcn", "rtide", "nc", "n_p", "rbar_su", "rbar_au", "tbar_days"):
        if hasattr(cl, k):
            setattr(t, k, copy.copy(getattr(cl, k)))
    t.analyze(sortstars=True)
    return t
