"""Generated clusters, frame operations and the comparisons shared by the history checks."""
import copy
import math

import numpy as np

from . import model
from .core import HarnessError, Violation
from .model import BIN, CART, SKYKEYS, VK, XK, Phys, num

ALLU = CART + ("radec",)
STARKEYS = ("x", "y", "z", "vx", "vy", "vz", "m", "id", "m0", "npop", "kw", "logl", "logr", "ep", "ospin", "lum")
BINKEYS = ("id1", "id2", "kw1", "kw2", "kcm", "ecc", "pb", "semi", "m1", "m2", "m01", "m02", "logl1", "logl2",
           "logr1", "logr2", "ep1", "ep2", "ospin1", "ospin2", "npop1", "npop2",
           "mb1", "mb2", "xb1", "yb1", "zb1", "vxb1", "vyb1", "vzb1", "xb2", "yb2", "zb2", "vxb2", "vyb2", "vzb2")
SCALKEYS = ("xc", "yc", "zc", "vxc", "vyc", "vzc", "xgc", "ygc", "zgc", "vxgc", "vygc", "vzgc", "tphys")
CONFKEYS = ("units", "origin", "bunits", "ctype", "projected", "centre_method", "ntot", "nb", "ns", "nsnap",
            "rbar", "zmbar", "vbar", "tbar", "rbar_su", "rbar_au", "tbar_days", "_ro", "_vo", "_zo",
            "give", "wdir", "snapbase", "snapend", "snapdir", "nzfill", "skiprows", "delimiter", "rscale",
            "xcn", "ycn", "zcn", "rtide", "nc", "n_p")


def r6(x):
    return float("%.10g" % x)


# -------------------------------------------------------------------------------------- specs
def gen_spec(rng, nmin=4, nmax=24, sky=True, sse=None, bse=None, units=None, origin=None, orbit=None,
             energies=False, far=False):
    """JSON description of one physical cluster and the frame it is first handed over in."""
    for _ in range(200):
        ang = rng.uniform(0, 2 * math.pi)
        R = rng.choice([rng.uniform(2.0, 6.0), rng.uniform(9.0, 20.0)]) * 1000.0
        z = rng.choice([0.0, rng.uniform(-4.0, 4.0), rng.uniform(-0.3, 0.3)]) * 1000.0
        g = [R * math.cos(ang), R * math.sin(ang), z]
        vr, vt = rng.uniform(-60, 60), rng.choice([-1, 1]) * rng.uniform(120, 240)
        g += [vr * math.cos(ang) - vt * math.sin(ang), vr * math.sin(ang) + vt * math.cos(ang), rng.uniform(-80, 80)]
        g = [r6(v) for v in g]
        ro = rng.choice([8.275, 8.275, 8.0, 8.5, 7.9])
        zo = rng.choice([0.0208, 0.0208, 0.0, 0.025])
        # keep away from the Sun, the poles and the ra=0 seam, where sky frames are singular
        dx, dy, dz = ro - g[0] / 1000.0, g[1] / 1000.0, g[2] / 1000.0
        d = math.sqrt(dx * dx + dy * dy + dz * dz)
        if d < 2.0:
            continue
        spec = dict(seed=rng.randrange(1 << 30), n=rng.randint(nmin, nmax), ro=ro,
                    vo=rng.choice([239.23, 239.23, 220.0, 232.8]), zo=zo,
                    solarmotion=rng.choice([[-11.1, 12.24, 7.25], [-11.1, 12.24, 7.25], [-9.0, 10.0, 6.5]]),
                    g=g)
        break
    else:
        raise HarnessError("no orbit")
    csize = rng.choice([0.0, 0.3, 2.0])
    spec["c"] = [r6(rng.uniform(-csize, csize)) for _ in range(3)] + [r6(rng.uniform(-csize, csize) * 0.3) for _ in range(3)]
    if csize == 0.0:
        spec["c"] = [0.0] * 6
    spec["a"] = r6(rng.uniform(0.8, 4.0))
    spec["sv"] = r6(rng.uniform(0.5, 4.0))
    spec["tphys"] = r6(rng.choice([0.0, rng.uniform(1, 12000)]))
    spec["scale"] = dict(rbar=r6(rng.uniform(0.6, 5.0)), zmbar=r6(rng.uniform(20.0, 30000.0)),
                         vbar=r6(rng.uniform(0.3, 9.0)), tbar=r6(rng.uniform(0.1, 3.0)))
    if rng.random() < 0.15:
        spec["scale"] = dict(rbar=1.0, zmbar=1.0, vbar=1.0, tbar=1.0)
    spec["sse"] = (rng.random() < 0.4) if sse is None else sse
    spec["bse"] = (rng.random() < 0.4) if bse is None else bse
    spec["bunits"] = rng.choice(["nbody", "audays", "sudays"])
    spec["equalmass"] = rng.random() < 0.1
    spec["idstart"] = rng.choice([0, 1, 1000])
    spec["m0"] = rng.random() < 0.5
    spec["npop"] = rng.random() < 0.3
    spec["energies"] = bool(energies and rng.random() < 0.6)
    spec["orbit"] = True if orbit is None else orbit
    if orbit is None and rng.random() < 0.08:
        spec["orbit"] = False
        spec["g"] = [0.0] * 6
    u = units or rng.choice(CART + (("radec",) if sky and spec["orbit"] else ()))
    o = origin or ("sky" if u == "radec" else rng.choice(["cluster", "centre", "galaxy"]))
    spec["units"], spec["origin"] = u, o
    spec["cm"] = rng.choice([None, None, "orthographic", "VandeVen"])
    spec["projected"] = rng.random() < 0.15
    spec["via"] = rng.choice(["add_orbit", "attr"])
    if spec["orbit"] and not _sky_ok(spec):
        return gen_spec(rng, nmin, nmax, sky, sse, bse, units, origin, orbit, energies, far)
    return spec


def _phys_arrays(spec):
    r = np.random.Generator(np.random.PCG64(spec["seed"]))
    n = spec["n"]
    q = r.uniform(0.02, 0.85, n)
    rad = spec["a"] / np.sqrt(q ** (-2.0 / 3.0) - 1.0)
    ct = r.uniform(-1, 1, n)
    ph = r.uniform(0, 2 * np.pi, n)
    st = np.sqrt(1 - ct * ct)
    rel = np.column_stack([rad * st * np.cos(ph), rad * st * np.sin(ph), rad * ct])
    vel = r.normal(0.0, spec["sv"], (n, 3))
    m = 0.1 * (1 - r.uniform(0, 0.999, n)) ** (-0.6)
    if spec["equalmass"]:
        m = np.full(n, 1.0)
    return r, rel, vel, m


def _sky_ok(spec):
    try:
        p = phys(spec)
        st, gc, cc = p.sky()
    except Exception:
        return False
    allra = np.concatenate([st[0], [gc[0], cc[0]]])
    alldec = np.concatenate([st[1], [gc[1], cc[1]]])
    return bool(np.all(allra > 8) and np.all(allra < 352) and np.all(np.abs(alldec) < 78)
                and np.all(np.isfinite(st)) and np.min(st[2]) > 1.0)


def phys(spec):
    r, rel, vel, m = _phys_arrays(spec)
    n = spec["n"]
    nb = 0
    binary = None
    if spec.get("bse") and n >= 4:
        nb = max(1, n // 5)
        binary = dict(semi=r.uniform(1e-5, 1e-3, nb), pb=r.uniform(1e-4, 1e-1, nb), m1=r.uniform(1e-4, 1e-2, nb),
                      m2=r.uniform(1e-4, 1e-2, nb))
    ids = spec["idstart"] + np.arange(n)
    ph = Phys(rel, vel, m, spec["c"], spec["g"], spec["tphys"], spec["ro"], spec["vo"], spec["zo"],
              spec["solarmotion"], spec["scale"], ids, binary)
    ph.nb = nb
    return ph


PC_CM = 1296000.0 / (2.0 * np.pi) * 1.49597870700e13
RSUN_CM = 6.957e10


def bin_factors(scale):
    rbar, zmbar = scale["rbar"], scale["zmbar"]
    years = (rbar * 1296000.0 / (2.0 * np.pi)) ** 1.5 / np.sqrt(zmbar)
    return dict(nbody=(1.0, 1.0, 1.0), audays=(PC_CM / 1.49597870700e13 * rbar, 365.25 * years, zmbar),
                sudays=(PC_CM / RSUN_CM * rbar, 365.25 * years, zmbar))


def build(spec, ct=None):
    """hand the physical cluster to the library in the frame of the spec"""
    if ct is None:
        import clustertools as ct
    p = phys(spec)
    e = p.expect(spec["units"], spec["origin"], spec["cm"])
    cl = ct.StarCluster(e["tphys"], units=spec["units"], origin=spec["origin"], projected=spec["projected"],
                        ro=spec["ro"], vo=spec["vo"], zo=spec["zo"], solarmotion=list(spec["solarmotion"]),
                        centre_method=spec["cm"])
    s = spec["scale"]
    cl.add_nbody6(rbar=s["rbar"], zmbar=s["zmbar"], vbar=s["vbar"], tbar=s["tbar"])
    cl.xcn = cl.ycn = cl.zcn = None
    r = np.random.Generator(np.random.PCG64(spec["seed"] + 1))
    m0 = p.m * r.uniform(1.0, 2.0, p.n) if spec["m0"] else None
    npop = r.integers(1, 3, p.n) if spec["npop"] else None
    if spec["orbit"] and spec["via"] == "add_orbit":
        cl.add_orbit(*[float(e[k + "gc"]) for k in XK + VK])
    for k in XK + VK:
        setattr(cl, k + "gc", float(e[k + "gc"]))
        setattr(cl, k + "c", float(e[k + "c"]))
    if spec["units"] == "radec":
        st, gc, cc = p.sky()
        for i, k in enumerate(SKYKEYS):
            setattr(cl, k + "_gc", float(gc[i]))
            setattr(cl, k + "_c", float(cc[i]))
    if p.nb:
        nb = p.nb
        f = bin_factors(s)[spec["bunits"]]
        b = p.binary
        cl.add_bse(p.ids[:nb].copy(), p.ids[:nb] + 100000, r.integers(0, 15, nb), r.integers(0, 15, nb),
                   r.integers(0, 3, nb), r.uniform(0, 1, nb), b["pb"] * f[1], b["semi"] * f[0], b["m1"] * f[2],
                   b["m2"] * f[2], r.uniform(-2, 2, nb), r.uniform(-2, 2, nb), r.uniform(-1, 1, nb),
                   r.uniform(-1, 1, nb))
        cl.bunits = spec["bunits"]
    cl.add_stars(e["x"].copy(), e["y"].copy(), e["z"].copy(), e["vx"].copy(), e["vy"].copy(), e["vz"].copy(),
                 e["m"].copy(), p.ids.copy(), m0, npop, sortstars=True)
    if spec["sse"]:
        kw = r.integers(0, 15, p.n)
        args = [kw, r.uniform(-2, 3, p.n), r.uniform(-1, 2, p.n)]
        if r.random() < 0.6:
            args += [r.uniform(0, 1, p.n), r.uniform(0, 1, p.n)]
        cl.add_sse(*args)
    if spec["energies"]:
        cl.add_energies(r.uniform(0, 10, p.n), -r.uniform(1, 20, p.n))
    cl.analyze(sortstars=True)
    return cl, p


# ------------------------------------------------------------------------------ frame operations
def gen_frame_op(rng, spec, amuse=True, sky=True):
    sky = sky and spec["orbit"]
    k = rng.random()
    cm = rng.choice([None, None, None, "orthographic", "VandeVen"])
    if k < 0.5:
        us = list(CART) + (["radec"] * 2 if sky else []) + (["amuse"] if amuse else [])
        return dict(op="units", u=rng.choice(us), via=rng.choice(["method", "to_units", "func"]),
                    analyze=rng.random() < 0.85, cm=cm)
    if k < 0.88:
        os_ = ["centre", "cluster", "galaxy"] + (["sky"] if sky else [])
        return dict(op="origin", o=rng.choice(os_), via=rng.choice(["method", "to_origin", "func", "center"]),
                    sort=rng.random() < 0.8, cm=cm)
    if k < 0.93:
        return dict(op="bunits", b=rng.choice(["sudays", "audays"]))
    if k < 0.97:
        return dict(op="analyze", alias=rng.choice(["analyze", "analyse", "key_params"]))
    return dict(op="savereturn", u=rng.choice(CART), o=rng.choice(["centre", "cluster", "galaxy"]),
                how=rng.choice(["method", "func"]))


class Stale(object):
    """what the last operation explicitly did not bring up to date"""
    def __init__(self):
        self.r = False
        self.order = False


def apply_frame_op(cl, op, stale=None):
    """returns (target units or None, target origin or None) the caller must now see"""
    import clustertools as ct
    from clustertools.cluster import operations as OP
    kind = op["op"]
    stale = stale or Stale()
    if kind == "units":
        u = op["u"]
        if u == cl.units:
            # already there: nothing has to be analysed again, and nothing gets out of date either
            keep = stale.r
        else:
            keep = None
        if op["via"] == "to_units":
            cl.to_units(u)
            stale.r = False
        elif op["via"] == "func":
            f = getattr(OP, "to_" + u)
            if u == "radec":
                f(cl, centre_method=op["cm"])
            else:
                f(cl)
            stale.r = False
        elif u == "radec":
            cl.to_radec(centre_method=op["cm"], analyze=op["analyze"])
            stale.r = not op["analyze"]
        else:
            getattr(cl, "to_" + u)(analyze=op["analyze"])
            stale.r = not op["analyze"]
        if keep is not None:
            stale.r = keep
        return u, None
    if kind == "origin":
        o = op["o"]
        kw = dict(sortstars=op["sort"])
        if op["cm"] and o != "galaxy":
            kw["centre_method"] = op["cm"]
        name = "to_centre" if o == "centre" else "to_" + o
        before = cl.origin
        if op["via"] == "to_origin":
            cl.to_origin(o, **kw)
        elif op["via"] == "func":
            getattr(OP, name)(cl, **kw)
        elif op["via"] == "center" and o == "centre":
            cl.to_center(**kw)
        else:
            getattr(cl, name)(**kw)
        if cl.origin != before:
            stale.r = False
            stale.order = not op["sort"]
        return ("radec" if o == "sky" else None), o
    if kind == "bunits":
        getattr(cl, "to_" + op["b"])()
        return None, None
    if kind == "analyze":
        getattr(cl, op["alias"])()
        stale.r = stale.order = False
        return None, None
    if kind == "savereturn":
        u0, o0 = cl.units, cl.origin
        if op["how"] == "method":
            cl.save_cluster()
            cl.to_units(op["u"])
            cl.to_origin(op["o"])
            cl.return_cluster()
        else:
            s = OP.save_cluster(cl)
            cl.to_units(op["u"])
            cl.to_origin(op["o"])
            OP.return_cluster(cl, *s)
        stale.r = stale.order = False
        return u0, o0
    raise HarnessError(op)


# ------------------------------------------------------------------------------------ comparisons
def close(a, b, rtol, atol):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    with np.errstate(all="ignore"):
        ok = np.abs(a - b) <= atol + rtol * np.abs(b)
    ok = ok | (np.isnan(a) & np.isnan(b)) | (a == b)
    return bool(np.all(ok))


def worst(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return "shape %s vs %s" % (a.shape, b.shape)
    d = np.abs(a - b)
    i = int(np.nanargmax(d)) if d.size and not np.all(np.isnan(d)) else 0
    return "got %r expected %r (max diff %.3g)" % (a.ravel()[i] if a.size else None, b.ravel()[i] if b.size else None,
                                                   float(np.nanmax(d)) if d.size else 0.0)


def check_phys(cl, p, method, where, skip=()):
    """the public data, read under their labels, describe the model cluster"""
    u, o = cl.units, cl.origin
    try:
        e = p.expect(u, o, method)
    except KeyError:
        raise Violation("illegal-frame", "%s: labels say units=%r origin=%r" % (where, u, o))
    for k, want in e.items():
        if k in skip:
            continue
        try:
            got = num(getattr(cl, k))
        except Exception as ex:
            raise Violation("unreadable:" + k, "%s: %s cannot be read as %s: %r" % (where, k, u, ex))
        if k == "m":
            ok = close(got, want, 1e-10, 0)
        elif k == "tphys":
            ok = close(got, want, 1e-10, 1e-13)
        else:
            ok = close(got, want, 1e-10, p.tol(u, o, k))
        if not ok:
            grp = "stars" if k in XK + VK else ("sky" if k in SKYKEYS else
                                                 "orbit" if k.endswith("gc") else
                                                 "centre" if k in [q + "c" for q in XK + VK] else k)
            raise Violation("state:" + grp, "%s: %s in (%s, %s, %s): %s (tol %.3g)" % (
                where, k, u, o, method, worst(got, want), p.tol(u, o, k) if k not in ("m", "tphys") else 0))
    if cl.ntot != p.n or len(cl.id) != p.n or not np.array_equal(np.asarray(cl.id), p.ids):
        raise Violation("state:ids", "%s: ids/ntot %r" % (where, cl.ntot))
    if p.nb:
        if cl.bunits not in ("nbody", "audays", "sudays"):
            raise Violation("illegal-bunits", "%s: bunits=%r" % (where, cl.bunits))
        f = bin_factors(p.scale)[cl.bunits]
        for k, ff in (("semi", f[0]), ("pb", f[1]), ("m1", f[2]), ("m2", f[2])):
            if not close(num(getattr(cl, k)), p.binary[k] * ff, 1e-10, 0):
                raise Violation("state:binary", "%s: %s in bunits %s: %s" % (where, k, cl.bunits, worst(
                    num(getattr(cl, k)), p.binary[k] * ff)))
    if u == "nbody" and p.nb and cl.bunits != "nbody" and False:
        raise Violation("bunits", where)


def check_derived(cl, where, stale, p=None):
    """r, v, projected, half-mass and 10% radii, orders and counts match the current arrays"""
    if stale.r:
        return
    x, y, z, vx, vy, vz, m = [num(getattr(cl, k)) for k in ("x", "y", "z", "vx", "vy", "vz", "m")]
    n = len(x)
    want = dict(r=np.sqrt(x * x + y * y + z * z), rpro=np.sqrt(x * x + y * y), v=np.sqrt(vx * vx + vy * vy + vz * vz),
                vpro=np.sqrt(vx * vx + vy * vy), mtot=np.sum(m), mmean=np.mean(m))
    want["rmean"], want["rmax"] = np.mean(want["r"]), np.max(want["r"])
    want["rmeanpro"], want["rmaxpro"] = np.mean(want["rpro"]), np.max(want["rpro"])
    for k, w in want.items():
        try:
            got = num(getattr(cl, k, np.nan))
        except Exception as ex:
            raise Violation("derived:" + k, "%s: %s cannot be read: %r (units %s)" % (where, k, ex, cl.units))
        if not close(got, w, 1e-9, 1e-300):
            raise Violation("derived:" + k, "%s: %s: %s (units %s origin %s)" % (where, k, worst(got, w), cl.units, cl.origin))
    if cl.ntot != n:
        raise Violation("derived:ntot", "%s: ntot %r but %d stars" % (where, cl.ntot, n))
    if cl.nb + cl.ns != cl.ntot:
        raise Violation("derived:ns", "%s: ns %r + nb %r != ntot %r" % (where, cl.ns, cl.nb, cl.ntot))
    if stale.order:
        return
    for order, rad, half, ten in (("rorder", "r", "rm", "r10"), ("rproorder", "rpro", "rmpro", "r10pro")):
        od = getattr(cl, order)
        if od is None:
            continue
        od = np.asarray(od)
        if len(od) != n or not np.array_equal(np.sort(od), np.arange(n)):
            raise Violation("derived:" + order, "%s: %s is not a permutation of %d stars" % (where, order, n))
        rr = want[rad][od]
        slack = 1e-9 * (np.max(np.abs(rr)) + 1e-300)
        if p is not None and cl.units != "radec":
            slack += 4 * p.tol(cl.units, cl.origin, "x")
        elif p is not None:
            slack += 4 * max(p.tol(cl.units, cl.origin, "x"), p.tol(cl.units, cl.origin, "z"))
        if np.any(np.diff(rr) < -slack):
            raise Violation("derived:" + order, "%s: %s does not sort %s (units %s origin %s)" % (
                where, order, rad, cl.units, cl.origin))
        ms = np.cumsum(m[od])
        tot = np.sum(m)
        for name, frac in ((half, 0.5), (ten, 0.1)):
            got = num(getattr(cl, name))
            if got is None:
                raise Violation("derived:" + name, "%s: %s is None" % (where, name))
            i = int(np.argmax(ms >= frac * tot))
            cand = [rr[i]]
            # rounding may move the limit by one star when a partial sum hits the limit exactly
            if abs(ms[i] - frac * tot) < 1e-9 * tot and i + 1 < n:
                cand.append(rr[i + 1])
            if i > 0 and abs(ms[i - 1] - frac * tot) < 1e-9 * tot:
                cand.append(rr[i - 1])
            if not any(close(got, c, 1e-9, slack) for c in cand):
                raise Violation("derived:" + name, "%s: %s=%r expected %r (units %s origin %s)" % (
                    where, name, float(got), float(cand[0]), cl.units, cl.origin))


# --------------------------------------------------------------------- snapshots of everything public
def snapshot(cl):
    d = {}
    for k in STARKEYS + BINKEYS + SCALKEYS + CONFKEYS:
        if hasattr(cl, k):
            v = getattr(cl, k)
            d[k] = copy.copy(v) if not isinstance(v, np.ndarray) else v.copy()
    for k in ("kin", "pot", "etot"):
        d[k] = copy.copy(getattr(cl, k))
    d["_solarmotion"] = copy.deepcopy(cl._solarmotion)
    if cl.units == "radec":
        for k in SKYKEYS:
            d[k] = np.array(getattr(cl, k))
    return d


def compare_snap(a, b, where, tolf, allow=(), only=None, sig="changed"):
    """tolf(key) -> absolute tolerance for the frame of the snapshot"""
    for k in sorted(set(a) | set(b)):
        if k in allow or (only is not None and k not in only):
            continue
        if k not in a or k not in b:
            raise Violation("%s:%s" % (sig, k), "%s: %s appeared or disappeared" % (where, k))
        va, vb = a[k], b[k]
        if va is vb:
            continue
        if isinstance(va, (str, bool, type(None))) or isinstance(vb, (str, bool, type(None))):
            if va != vb:
                raise Violation("%s:%s" % (sig, k), "%s: %s was %r, is %r" % (where, k, va, vb))
            continue
        try:
            na, nb_ = num(va), num(vb)
        except Exception:
            if repr(va) != repr(vb):
                raise Violation("%s:%s" % (sig, k), "%s: %s was %r, is %r" % (where, k, va, vb))
            continue
        if not close(nb_, na, 1e-9, tolf(k)):
            raise Violation("%s:%s" % (sig, k), "%s: %s: %s" % (where, k, worst(nb_, na)))


def tol_of(cl, p):
    u, o = cl.units, cl.origin
    def f(k):
        if k in XK + VK + SKYKEYS or k in SCALKEYS[:12]:
            return 4 * p.tol(u, o, k)
        return 1e-300
    return f


def same_binaries(a, b, where, scale, sig):
    """the binary elements, read in their own label, describe the same binaries"""
    for s in (a, b):
        if s["bunits"] not in ("nbody", "audays", "sudays"):
            raise Violation(sig + ":bunits", "%s: bunits=%r" % (where, s["bunits"]))
    fa, fb = bin_factors(scale)[a["bunits"]], bin_factors(scale)[b["bunits"]]
    for k, i in (("semi", 0), ("pb", 1), ("m1", 2), ("m2", 2)):
        if not close(num(b[k]) / fb[i], num(a[k]) / fa[i], 1e-9, 0):
            raise Violation(sig + ":" + k, "%s: %s (bunits %s, now %s): %s" % (
                where, k, a["bunits"], b["bunits"], worst(num(b[k]) / fb[i], num(a[k]) / fa[i])))
