"""C13: star bookkeeping stays aligned through adding, cutting, scaling and joining."""
import copy
import tempfile
import traceback

import numpy as np

from . import asks as A, edits as E, world as W
from .core import Check, HarnessError, Violation
from .c01 import C01
from .model import CART, SKYKEYS, VK, XK, Phys, num

SIDE = ("id", "m0", "npop", "kw", "logl", "logr", "ep", "ospin")
SSE = ("kw", "logl", "logr", "ep", "ospin")
BEX = ("id1", "id2", "kw1", "kw2", "kcm", "ecc", "logl1", "logl2", "logr1", "logr2", "ep1", "ep2", "ospin1", "ospin2")
COMP = ("xb1", "yb1", "zb1", "vxb1", "vyb1", "vzb1", "xb2", "yb2", "zb2", "vxb2", "vyb2", "vzb2", "mb1", "mb2", "m01", "m02",
        "npop1", "npop2")
CONF = ("units", "origin", "bunits", "projected", "centre_method", "_ro", "_vo", "_zo", "ctype")
GYR = {"mxv": (), "mxve": ("eps",), "mxvpqael": ("gyrpot", "gyrq", "gyracc", "eps", "gyrlev")}
OUN = ("kpckms", "pckms", "pcmyr", "kpcgyr", "nbody", "galpy", "WDunits", "radec")


class M(object):
    """one cluster as the caller must see it"""

    def __init__(self, p, side, bex, nb, cm):
        self.p, self.side, self.bex, self.nb, self.cm = p, side, bex, nb, cm
        self.st = W.Stale()
        self.early = np.zeros(p.n, dtype=bool)      # rows that are binaries added with add_stars(nb=)
        self.noids = nb == 0 or "id1" not in bex
        self.has_e = False
        self.gyr = {}
        self.kwonly = False

    def has_sse(self):
        return len(self.side["kw"]) > 0 and not self.kwonly

    def has_bse(self):
        return "kw1" in self.bex


def model_of(cl, p, spec):
    side = {k: np.array(getattr(cl, k)) for k in SIDE}
    bex = {}
    if p.nb:
        bex = {k: np.array(getattr(cl, k)) for k in BEX if len(getattr(cl, k)) == p.nb}
    m = M(p, side, bex, p.nb, spec["cm"])
    m.has_e = len(np.atleast_1d(cl.kin)) == p.n
    if spec["units"] == "radec":
        p.skylevel = 1
    r = np.random.Generator(np.random.PCG64(spec["seed"] + 77))
    if spec.get("give", "mxv") != "mxv":
        # what a gyrfalcon snapshot brings along
        cl.give = spec["give"]
        for k in GYR[cl.give]:
            m.gyr[k] = r.uniform(0.1, 9.0, p.n)
            setattr(cl, k, m.gyr[k].copy())
    if spec.get("kwonly") and not m.has_sse():
        # what a snapshot with stellar types but no luminosities brings along
        m.kwonly = True
        m.side["kw"] = r.integers(0, 15, p.n)
        cl.kw = m.side["kw"].copy()
    return m


def phys_like(p, rel, vel, m, ids):
    q = Phys(rel, vel, m, p.c, p.g, p.tphys, p.ro, p.vo, p.zo, copy.deepcopy(p.solarmotion), p.scale, ids, None)
    q.skylevel = p.skylevel
    q.nb = 0
    return q


def sky_fine(p):
    try:
        st, gc, cc = p.sky()
    except Exception:
        return False
    ra = np.concatenate([st[0], [gc[0], cc[0]]])
    dec = np.concatenate([st[1], [gc[1], cc[1]]])
    return bool(np.all(ra > 5) and np.all(ra < 355) and np.all(np.abs(dec) < 80) and np.min(st[2]) > 0.5)


def mid(vals, q):
    """a threshold strictly between two neighbouring values"""
    v = np.unique(np.asarray(vals, dtype=float))
    v = v[np.isfinite(v)]
    if len(v) < 2:
        return None
    i = min(len(v) - 2, max(0, int(q * (len(v) - 1))))
    if v[i + 1] - v[i] < 1e-7 * max(abs(v[i]), abs(v[i + 1])):
        return None
    return 0.5 * (v[i] + v[i + 1])


# ------------------------------------------------------------------------------------------ adopting
LOADS = dict(table=("pckms", "kpckms", "pcmyr", "kpcgyr", "nbody"), amuse=("pckms", "kpckms", "pcmyr", "kpcgyr", "amuse"),
             galpy=("kpckms",), custom=("pckms", "kpckms", "pcmyr", "kpcgyr", "nbody"))


def gen_adopt(rng):
    """a cluster some other program holds in memory, to be handed over through load_cluster"""
    how = rng.choice(["table", "table", "amuse", "galpy", "custom"])
    origin = rng.choice(["cluster", "galaxy", "galaxy"])
    units = rng.choice(LOADS[how])
    s = W.gen_spec(rng, nmin=8, nmax=16, sky=False, sse=False, bse=False, units="pckms" if units == "amuse" else units,
                   origin="cluster" if how == "amuse" and units == "amuse" else origin, orbit=True)
    ofile = None
    if units != "amuse" and how != "custom" and rng.random() < 0.4:
        # the orbit comes in a file beside the stars
        ofile = dict(row=rng.choice([0, 0, 1, 3]), units=rng.choice([None, "kpckms", "pckms", "pcmyr", "kpcgyr", "galpy", "WDunits"]),
                     otime=rng.random() < 0.5, tphys=round(rng.uniform(1, 9000), 3))
        s = dict(s, orbit=True)
    elif s["origin"] == "cluster":
        s["orbit"], s["g"] = False, [0.0] * 6
    s["c"] = [0.0] * 6
    s["scale"] = dict(rbar=1.0, zmbar=1.0, vbar=1.0, tbar=1.0)
    s.update(tphys=0.0, m0=False, npop=False, energies=False, cm=None, give="mxv", kwonly=False, projected=False, equalmass=False)
    s["adopt"] = dict(how=how, units=units, ids=rng.random() < 0.6, names=rng.randrange(3), masses=rng.choice(["array", "array", "one", "none"]),
                      sort=rng.random() < 0.5, analyze=rng.random() < 0.8, ofile=ofile, file=how == "amuse" and rng.random() < 0.4)
    if how == "galpy":
        s.update(ro=8.275, vo=8.275 * 30.39 - 12.24, zo=0.0208, solarmotion=[-11.1, 12.24, 7.25])
    return s


def adopt(ct, spec):
    a = spec["adopt"]
    p = W.phys(spec)
    r = np.random.Generator(np.random.PCG64(spec["seed"] + 3))
    if a["how"] in ("table", "galpy") and a["masses"] == "none":
        p.m[:] = 1.0
    elif a["how"] == "galpy" and a["masses"] == "one":
        p.m[:] = p.m[0]
    ids = r.permutation(5000)[:p.n] + 1
    e = p.expect(spec["units"], spec["origin"], None)
    keep = {k: e[k].copy() for k in XK + VK}
    cols = XK + VK
    kw = dict(units=a["units"], origin=spec["origin"], sortstars=a["sort"], analyze=a["analyze"], ro=spec["ro"], vo=spec["vo"],
              zo=spec["zo"], solarmotion=list(spec["solarmotion"]))
    given = True
    a = dict(dict(ofile=None, file=False), **a)
    of = a["ofile"]
    if of:
        L, V, M_, T = p.factors(of["units"] or spec["units"])
        row = np.concatenate([[of["tphys"] * T], p.g[:3] * L, p.g[3:] * V])
        tmp = tempfile.NamedTemporaryFile("w+", suffix=".orb")
        for k in range(of["row"] + 3):
            f = row if k == of["row"] else row * (0.5 + 0.1 * k) - 1.0
            tmp.write(" ".join(repr(float(v)) for v in f) + "\n")
        tmp.flush()
        kw.update(ofile=open(tmp.name), otime=of["otime"], nsnap=of["row"])
        if of["units"]:
            kw["ounits"] = of["units"]
    if a["how"] == "table":
        from astropy.table import Table
        names = [dict(zip(cols, cols)), dict(zip(cols, ("X", "Y", "Z", "v_x", "v_y", "v_z"))),
                 dict(zip(cols, ("a1", "a2", "a3", "b1", "b2", "b3")))][a["names"]]
        mname, iname = [("m", "id"), ("Mass", "ID"), ("weight", "label")][a["names"]]
        t = {}
        for k in cols:
            t[names[k]] = e[k]
        if a["masses"] != "none":
            t[mname] = e["m"]
        given = a["ids"]
        if given:
            t[iname] = ids
        order = [str(k) for k in r.permutation(sorted(t))]
        t = Table({k: t[k] for k in order})
        if a["names"] == 2:
            cm = dict(names)
            if a["masses"] != "none":
                cm["m"] = mname
            if given:
                cm["id"] = iname
            kw["column_mapper"] = cm
        cl = ct.load_cluster("astropy_table", particles=t, **kw)
    elif a["how"] == "amuse":
        from amuse.lab import Particles, units as u
        q = p.expect("pckms", spec["origin"], None)
        ps = Particles(keys=ids)
        ps.x, ps.y, ps.z = [q[k] | u.parsec for k in XK]
        ps.vx, ps.vy, ps.vz = [q[k] | u.kms for k in VK]
        ps.mass = q["m"] | u.MSun
        if a["file"]:
            from amuse.io import write_set_to_file
            with tempfile.TemporaryDirectory() as d:
                write_set_to_file(ps, d + "/stars.amuse", "hdf5")
                cl = ct.load_cluster("amuse", filename=d + "/stars.amuse", **kw)
        else:
            cl = ct.load_cluster("amuse", particles=ps, **kw)
        if a["units"] in ("pcmyr", "kpcgyr"):
            # AMUSE's year is the tropical one
            f = (1.0 | u.kms).value_in(u.parsec / u.Myr) / p.factors("pcmyr")[1]
            if abs(f - 1) > 1e-4:
                raise HarnessError("AMUSE converts km/s by %r" % f)
            if of and spec["origin"] == "galaxy":
                p.vel = (p.vel + p.g[3:]) * f - p.g[3:]       # the stars' velocities went through AMUSE, the orbit row's did not
            else:
                p.vel *= f
                p.g[3:] *= 1.0 if of else f
            p.touch()
    elif a["how"] == "galpy":
        from galpy.orbit import Orbit
        from galpy.util import coords
        R, phi, z = coords.rect_to_cyl(e["x"], e["y"], e["z"])
        vR, vT, vz = coords.rect_to_cyl_vec(e["vx"], e["vy"], e["vz"], e["x"], e["y"], e["z"])
        ro, vo = spec["ro"], spec["vo"]
        o = Orbit(np.column_stack([R / ro, vR / vo, vT / vo, z / ro, vz / vo, phi]), ro=ro, vo=vo)
        for k in ("ro", "vo", "zo", "solarmotion"):
            kw.pop(k)
        if a["masses"] == "one":
            kw["m"] = float(e["m"][0])
        elif a["masses"] == "array":
            kw["m"] = e["m"].copy()
        ids = np.arange(1, p.n + 1)
        p.skylevel = 1
        cl = ct.load_cluster("galpy", particles=o, **kw)
    else:
        seen = {}

        def load(ctype=None, units=None, origin=None, ofile=None, orbit=None, particles=None, **more):
            seen.update(ctype=ctype, units=units, origin=origin, particles=particles, more=more)
            c = ct.StarCluster(0.0, units=units, origin=origin, ctype=ctype, **{k: more[k] for k in ("ro", "vo", "zo", "solarmotion")})
            c.add_stars(*[v.copy() for v in particles[:7]], particles[7].copy())
            c.find_centre()
            return c
        src = [e[k] for k in cols + ("m",)] + [ids]
        cl = ct.load_cluster("anything", particles=src, load_function=load, **kw)
        if seen["units"] != a["units"] or seen["origin"] != spec["origin"] or seen["particles"] is not src or seen["ctype"] != "custom":
            raise Violation("adopt:custom", "load_function was given %r" % {k: v for k, v in seen.items() if k != "particles"})
        if not all(k in seen["more"] for k in ("sortstars", "analyze", "ro")):
            raise Violation("adopt:custom", "load_function was not given the caller's own arguments: %r" % sorted(seen["more"]))
    where = "loading %s (%s, %s)" % (a["how"], a["units"], spec["origin"])
    if (cl.units, cl.origin) != (a["units"], spec["origin"]):
        raise Violation("adopt:frame", "%s gives %r" % (where, (cl.units, cl.origin)))
    if cl.ctype != dict(table="astropy_table").get(a["how"], a["how"]):
        raise Violation("adopt:ctype", "%s: ctype is %r" % (where, cl.ctype))
    if cl.units == "amuse":
        cl.to_pckms()
    for k in cols:
        if not np.array_equal(e[k], keep[k]):
            raise Violation("adopt:source", "%s changed the caller's %s" % (where, k))
    if len(cl.id) != p.n:
        raise Violation("length:id", "%s: %d ids for %d stars" % (where, len(cl.id), p.n))
    if given:
        p.ids = ids.astype(float)
    else:
        p.ids = auto_ids(cl, slice(None), np.zeros(0), where, np.zeros(0))
    if a["analyze"] and a["how"] != "custom" and spec["origin"] == "cluster" and cl.units != "amuse":
        rr = np.sqrt(sum(num(getattr(cl, k)) ** 2 for k in XK))
        if len(np.atleast_1d(cl.r)) != p.n or not W.close(num(cl.r), rr, 1e-9, 1e-12) or not W.close(
                float(cl.mtot), float(np.sum(cl.m)), 1e-9, 0):
            raise Violation("adopt:analyze", "%s did not analyse the cluster: r %r, should be %r; mtot %r" % (where, cl.r, rr, cl.mtot))
    if of:
        tmp.close()
        L, V, M_, T = p.factors(cl.units)
        g = [float(getattr(cl, k + "gc")) for k in XK + VK]
        if not W.close(g, np.concatenate([p.g[:3] * L, p.g[3:] * V]), 1e-8, 1e-10):
            raise Violation("adopt:orbit", "%s with orbit row %d of %r: the cluster sits at %r, the row says %r" % (
                where, of["row"], of, g, [p.g[:3] * L, p.g[3:] * V]))
        if of["otime"]:
            if not W.close(float(cl.tphys), of["tphys"] * T, 1e-8, 1e-12):
                raise Violation("adopt:tphys", "%s: tphys %r, the orbit row says %r" % (where, cl.tphys, of["tphys"] * T))
            p.tphys = of["tphys"]
        cl.ofile = None
    adopt_centre(cl, p)
    # none of these sources knows an N-body scale: the caller supplies it
    cl.add_nbody6(rbar=1.0, zmbar=1.0, vbar=1.0, tbar=1.0, ns=p.n)
    cl.xcn = cl.ycn = cl.zcn = None
    p.nb = 0
    m = M(p, {k: np.array(getattr(cl, k)) for k in SIDE}, {}, 0, cl.centre_method)
    m.side["id"] = np.asarray(p.ids, dtype=float)
    cl.analyze()
    return cl, p, m


# ------------------------------------------------------------------------------------------ verify
def verify(cl, m, where):
    p, st = m.p, m.st
    n = p.n
    if n == 0:
        return
    for k in ("x", "y", "z", "vx", "vy", "vz", "m", "id", "m0", "npop"):
        if len(np.atleast_1d(getattr(cl, k))) != n:
            raise Violation("length:" + k, "%s: %s has %d entries for %d stars" % (where, k, len(getattr(cl, k)), n))
    for k in SSE + ("lum",):
        v = np.atleast_1d(getattr(cl, k, []))
        if m.kwonly and k == "kw" and len(v) != n:
            raise Violation("length:" + k, "%s: %s has %d entries for %d stars" % (where, k, len(v), n))
        if m.has_sse() and len(v) != n or not m.has_sse() and len(v) not in (0, n):
            raise Violation("length:" + k, "%s: %s has %d entries for %d stars" % (where, k, len(v), n))
    for k in ("kin", "pot", "etot"):
        v = np.atleast_1d(getattr(cl, k))
        if m.has_e and len(v) != n:
            raise Violation("length:" + k, "%s: %s has %d entries for %d stars" % (where, k, len(v), n))
    if cl.units == "radec":
        for k in SKYKEYS:
            if len(np.atleast_1d(getattr(cl, k))) != n:
                raise Violation("length:" + k, "%s: %s has %d entries for %d stars" % (where, k, len(getattr(cl, k)), n))
    if cl.ntot != n:
        raise Violation("ntot", "%s: ntot is %r for %d stars" % (where, cl.ntot, n))
    if cl.nb != m.nb:
        raise Violation("nb", "%s: nb is %r for %d binaries" % (where, cl.nb, m.nb))
    if cl.nb + cl.ns != cl.ntot:
        raise Violation("ns", "%s: ns %r + nb %r != ntot %r" % (where, cl.ns, cl.nb, cl.ntot))
    W.check_phys(cl, p, m.cm, where)
    for k in SIDE:
        w = m.side[k]
        if k in SSE and not m.has_sse():
            continue
        g = np.asarray(getattr(cl, k), dtype=float)
        if not np.array_equal(g, np.asarray(w, dtype=float), equal_nan=True):
            raise Violation("data:" + k, "%s: %s: %s" % (where, k, W.worst(g, w)))
    if m.kwonly and not np.array_equal(np.asarray(cl.kw, dtype=float), np.asarray(m.side["kw"], dtype=float)):
        raise Violation("data:kw", "%s: kw: %s" % (where, W.worst(np.asarray(cl.kw, dtype=float), np.asarray(m.side["kw"], dtype=float))))
    for k, w in m.gyr.items():
        g = np.asarray(getattr(cl, k), dtype=float)
        if not np.array_equal(g, w):
            raise Violation("data:" + k, "%s: %s: %s" % (where, k, W.worst(g, w)))
    if m.has_sse() and not W.close(num(cl.lum), 10.0 ** np.asarray(m.side["logl"]), 1e-10, 0):
        raise Violation("data:lum", "%s: lum does not match logl" % where)
    for k, w in m.bex.items():
        g = np.asarray(getattr(cl, k), dtype=float)
        if not np.array_equal(g, np.asarray(w, dtype=float), equal_nan=True):
            raise Violation("binary:" + k, "%s: %s: %s" % (where, k, W.worst(g, w)))
    W.check_derived(cl, where, st, p)


# ------------------------------------------------------------------------------------------- steps
def rng_of(op):
    return np.random.Generator(np.random.PCG64(op["seed"]))


def fresh(m, r, k):
    p = m.p
    s = np.std(p.rel) + 0.1
    sv = np.std(p.vel) + 0.1
    return phys_like(p, r.normal(0, s, (k, 3)), r.normal(0, sv, (k, 3)), r.uniform(0.1, 2.0, k), np.zeros(k, int))


def merge(p, q, ids, front=False):
    rel = np.vstack([q.rel, p.rel] if front else [p.rel, q.rel])
    vel = np.vstack([q.vel, p.vel] if front else [p.vel, q.vel])
    mm = np.concatenate([q.m, p.m] if front else [p.m, q.m])
    o = phys_like(p, rel, vel, mm, ids)
    o.nb, o.binary = p.nb, p.binary
    return o


def auto_ids(cl, sl, old, where, used):
    got = np.array(np.asarray(cl.id)[sl], dtype=float)
    if len(np.unique(got)) != len(got) or np.any(np.isin(got, old)) or np.any(np.isin(got, used)):
        raise Violation("ids:unique", "%s: stars added without ids got %s while the cluster already had %s" % (
            where, got.tolist(), np.asarray(old).tolist()))
    return got


def used_ids(m):
    u = [np.asarray(m.side["id"], dtype=float)]
    for k in ("id1", "id2"):
        if k in m.bex:
            u.append(np.asarray(m.bex[k], dtype=float))
    return np.concatenate(u)


def put_sse(cl, m, r, k, where):
    """evolution data for the k newest stars"""
    a = dict(kw=r.integers(0, 15, k), logl=r.uniform(-2, 2, k), logr=r.uniform(-1, 1, k), ep=np.zeros(k), ospin=np.zeros(k))
    kw = {}
    if r.random() < 0.5:
        a["ep"], a["ospin"] = r.uniform(0, 1, k), r.uniform(0, 1, k)
        kw = dict(ep=a["ep"].copy(), ospin=a["ospin"].copy())
    if r.random() < 0.4:
        perm = r.permutation(k)
        args = [a[q][perm].copy() for q in ("kw", "logl", "logr")]
        kw = {q: v[perm] for q, v in kw.items()}
        cl.add_sse(*args, arg=perm.copy(), **kw)
    else:
        cl.add_sse(a["kw"].copy(), a["logl"].copy(), a["logr"].copy(), **kw)
    for q in SSE:
        m.side[q] = np.concatenate([np.asarray(m.side[q], dtype=float), np.asarray(a[q], dtype=float)])


def coords_of(cl, q, method):
    """what a caller passes to add_stars for the physical stars q, or None where the frame takes no stars"""
    if cl.units == "radec":
        if cl.origin != "sky" or not sky_fine(q):
            return None
        st = q.sky()[0]
        return [st[i].copy() for i in range(6)] + [q.m.copy()]
    e = q.expect(cl.units, cl.origin, method)
    return [np.array(e[k]) for k in XK + VK + ("m",)]


def do_addstars(ct, cl, m, op, where):
    r = rng_of(op)
    k = 1 if op["form"] == "scalar" else op["k"]
    q = fresh(m, r, k)
    if op["form"] == "onemass":
        q.m[:] = q.m[0]
    if op.get("nomass") and cl.units not in ("kpckms", "pckms", "pcmyr", "kpcgyr"):
        return False
    if op.get("nomass"):
        # documented default: stars of unit mass
        q.m[:] = 1.0
    if cl.units == "amuse" or op.get("amuse"):
        return do_addamuse(ct, cl, m, op, where, r, q, k)
    a = coords_of(cl, q, m.cm)
    if a is None:
        return False
    if op["form"] == "scalar":
        a = [float(v[0]) for v in a]
    elif op["form"] == "onemass":
        a[6] = float(a[6][0])
    elif op["form"] == "list" and cl.units != "radec":
        a = [v.tolist() for v in a]
        a = [np.asarray(v) for v in a]
    kw = {}
    ids = None
    used = used_ids(m)
    if op["ids"]:
        ids = np.amax(used) + 5 + r.permutation(k)
        kw["id"] = ids.astype(int)
    m0 = np.zeros(k)
    if op["m0"]:
        m0 = r.uniform(0.1, 2, k)
        kw["m0"] = m0.copy()
    npop = np.ones(k)
    if op["npop"]:
        npop = r.integers(1, 4, k)
        kw["npop"] = npop.copy()
    if op.get("one"):
        # one initial mass and one population for all of them
        if op["m0"]:
            m0[:] = m0[0]
            kw["m0"] = float(m0[0])
        if op["npop"]:
            npop[:] = npop[0]
            kw["npop"] = int(npop[0])
    if op.get("nomass"):
        a = a[:6]
    n0 = m.p.n
    cl.add_stars(*a, sortstars=op["sort"], analyze=op["analyze"], **kw)
    if len(cl.id) != n0 + k:
        raise Violation("length:id", "%s: %d ids for %d stars" % (where, len(cl.id), n0 + k))
    if ids is None:
        ids = auto_ids(cl, slice(n0, None), m.side["id"], where, used)
    m.side["id"] = np.concatenate([np.asarray(m.side["id"], dtype=float), ids])
    m.side["m0"] = np.concatenate([np.asarray(m.side["m0"], dtype=float), m0])
    m.side["npop"] = np.concatenate([np.asarray(m.side["npop"], dtype=float), npop])
    m.early = np.concatenate([m.early, np.zeros(k, bool)])
    m.p = merge(m.p, q, m.side["id"])
    m.st.r, m.st.order = not op["analyze"], True if not (op["sort"] and op["analyze"]) else False
    after_add(cl, m, r, k, where)
    return True


def do_addamuse(ct, cl, m, op, where, r, q, k):
    """stars handed over as AMUSE quantities; the library takes them in pc, km/s and Msun"""
    from amuse.lab import units as u
    if cl.units == "radec" or m.early.any() or cl.units not in CART + ("amuse",):
        return False
    e = q.expect("pckms", cl.origin, m.cm)
    a = [np.array(e[s]) | u.parsec for s in XK] + [np.array(e[s]) | u.kms for s in VK] + [q.m.copy() | u.MSun]
    used = used_ids(m)
    # without ids the stars get AMUSE's random 64-bit keys
    ids = np.amax(used) + 5 + r.permutation(k)
    kw = dict(id=ids.astype(int))
    n0 = m.p.n
    cl.add_stars(*a, sortstars=op["sort"], analyze=op["analyze"], **kw)
    if len(cl.id) != n0 + k:
        raise Violation("length:id", "%s: %d ids for %d stars" % (where, len(cl.id), n0 + k))
    m.side["id"] = np.concatenate([np.asarray(m.side["id"], dtype=float), ids])
    m.side["m0"] = np.concatenate([np.asarray(m.side["m0"], dtype=float), np.zeros(k)])
    m.side["npop"] = np.concatenate([np.asarray(m.side["npop"], dtype=float), np.ones(k)])
    m.early = np.concatenate([m.early, np.zeros(k, bool)])
    m.p = merge(m.p, q, m.side["id"])
    m.st.r, m.st.order = not op["analyze"], True
    after_add(cl, m, r, k, where)
    return True


def after_add(cl, m, r, k, where):
    if m.has_sse() and k:
        put_sse(cl, m, r, k, where)
    # the caller extends what it attached itself
    add = m.p.n - len(m.side["kw"]) if m.kwonly else 0
    if add > 0:
        new = r.integers(0, 15, add)
        m.side["kw"] = np.append(m.side["kw"], new)
        cl.kw = np.append(cl.kw, new)
    for g in m.gyr:
        new = r.uniform(0.1, 9.0, m.p.n - len(m.gyr[g]))
        m.gyr[g] = np.append(m.gyr[g], new)
        setattr(cl, g, np.append(getattr(cl, g), new))
    if m.has_e:
        n = m.p.n
        cl.add_energies(r.uniform(0, 5, n), -r.uniform(0, 9, n))


def do_addbin(ct, cl, m, op, where):
    """binaries: through add_binary_stars, or as the first 2*nb stars of add_stars"""
    if (m.has_sse() and not op.get("late")) or m.has_bse() or cl.units == "radec":
        return False
    if m.kwonly or m.gyr or cl.units == "amuse":
        return False
    late = m.has_sse()
    r = rng_of(op)
    k = op["k"]
    com = fresh(m, r, k)
    w = r.uniform(0.2, 0.8, (k, 1))
    d, dv = r.normal(0, 0.01, (k, 3)), r.normal(0, 0.5, (k, 3))
    m1, m2 = com.m * w[:, 0], com.m * (1 - w[:, 0])
    A_ = phys_like(m.p, com.rel + d * (1 - w), com.vel + dv * (1 - w), m1, np.zeros(k, int))
    B_ = phys_like(m.p, com.rel - d * w, com.vel - dv * w, m2, np.zeros(k, int))
    a, b = coords_of(cl, A_, m.cm), coords_of(cl, B_, m.cm)
    used = used_ids(m)
    n0 = m.p.n
    ids = None
    npop = np.ones(k)
    m0 = np.zeros(k)
    if op["via"] == "binary":
        if m.early.any():
            return False
        kw = dict(mb1=a[6].copy(), mb2=b[6].copy())
        if op["ids"]:
            ids = np.amax(used) + 5 + 2 * r.permutation(k).astype(float)
            kw["id1"], kw["id2"] = ids.astype(int), ids.astype(int) + 1
        if op["m0"]:
            kw["m01"], kw["m02"] = m1 * 2.0, m2 * 2.0
            m0 = (m1 + m2) * 2.0
        if op["npop"]:
            kw["npop1"], kw["npop2"] = r.integers(1, 4, k), r.integers(1, 4, k)
            npop = np.maximum(kw["npop1"], kw["npop2"])
            if op.get("one"):
                kw["npop1"], kw["npop2"] = np.full(k, kw["npop1"][0]), np.full(k, kw["npop2"][0])
                npop = np.maximum(kw["npop1"], kw["npop2"])
        have = {q: len(np.atleast_1d(getattr(cl, q))) for q in COMP}
        cl.add_binary_stars(*([v.copy() for v in a[:6]] + [v.copy() for v in b[:6]]), **{q: v.copy() for q, v in kw.items()})
        nb_old = m.nb
        for q in COMP:
            v = np.atleast_1d(getattr(cl, q))
            if q in ("m01", "m02") and (not op["m0"] or have[q] != nb_old):
                continue
            if len(v) != nb_old + k:
                raise Violation("length:" + q, "%s: %s has %d entries for %d binaries" % (where, q, len(v), nb_old + k))
        for i, q in enumerate(("x", "y", "z", "vx", "vy", "vz")):
            for s, src in (("1", a), ("2", b)):
                if not W.close(np.asarray(getattr(cl, q + "b" + s))[nb_old:], src[i], 1e-12, 0):
                    raise Violation("binary:" + q + "b" + s, "%s: %sb%s is not what was handed over" % (where, q, s))
        for q in ("npop1", "npop2"):
            if q in kw and not np.array_equal(np.asarray(getattr(cl, q))[nb_old:], kw[q]):
                raise Violation("binary:" + q, "%s: %s of the new binaries is %s, not %s" % (where, q, getattr(cl, q)[nb_old:], kw[q]))
        if op["m0"] and have["m01"] == nb_old and not W.close(np.asarray(cl.m01)[nb_old:], kw["m01"], 1e-12, 0):
            raise Violation("binary:m01", "%s: m01 of the new binaries is %s, not %s" % (where, cl.m01[nb_old:], kw["m01"]))
        if ids is None:
            ids = auto_ids(cl, slice(0, k), m.side["id"], where, used)
            id2 = ids + 1
        else:
            id2 = ids + 1
        m.bex["id1"] = np.concatenate([np.asarray(m.bex.get("id1", []), dtype=float), ids])
        m.bex["id2"] = np.concatenate([np.asarray(m.bex.get("id2", []), dtype=float), id2])
        early = np.zeros(k, bool)
        s = 0
    else:
        if "id1" in m.bex:
            return False
        s = op["singles"]
        sg = fresh(m, r, s) if s else None
        c = coords_of(cl, sg, m.cm) if s else [np.zeros(0)] * 7
        args = []
        for i in range(7):
            v = np.empty(2 * k)
            v[0::2], v[1::2] = a[i], b[i]
            args.append(np.concatenate([v, c[i]]))
        kw = {}
        if op["ids"]:
            allids = np.amax(used) + 5 + np.arange(2 * k + s)
            kw["id"] = allids.astype(int)
        am0 = np.zeros(2 * k + s)
        if op["m0"]:
            am0 = r.uniform(0.1, 2, 2 * k + s)
            kw["m0"] = am0.copy()
            m0 = am0[0:2 * k:2] + am0[1:2 * k:2]
        anp = np.ones(2 * k + s)
        if op["npop"]:
            anp = r.integers(1, 4, 2 * k + s)
            anp[1:2 * k:2] = anp[0:2 * k:2]
            kw["npop"] = anp.copy()
            npop = anp[0:2 * k:2]
        if k == 1:
            # documented: the first 2*nb stars; scalars inside are accepted
            pass
        cl.add_stars(*args, nb=k, **kw)
        if len(cl.id) != n0 + k + s:
            raise Violation("length:id", "%s: %d ids for %d stars" % (where, len(cl.id), n0 + k + s))
        if op["ids"]:
            ids = allids[0:2 * k:2].astype(float)
            sids = allids[2 * k:].astype(float)
        else:
            ids = auto_ids(cl, slice(0, k), m.side["id"], where, used)
            sids = auto_ids(cl, slice(n0 + k, None), np.concatenate([m.side["id"], ids]), where, used)
        early = np.ones(k, bool)
    m.side["id"] = np.concatenate([ids, np.asarray(m.side["id"], dtype=float)])
    m.side["m0"] = np.concatenate([m0, np.asarray(m.side["m0"], dtype=float)])
    m.side["npop"] = np.concatenate([npop, np.asarray(m.side["npop"], dtype=float)])
    m.early = np.concatenate([early, m.early])
    m.p = merge(m.p, com, m.side["id"], front=True)
    m.nb += k
    if op["via"] != "binary" and s:
        m.side["id"] = np.concatenate([m.side["id"], sids])
        m.side["m0"] = np.concatenate([m.side["m0"], am0[2 * k:]])
        m.side["npop"] = np.concatenate([m.side["npop"], anp[2 * k:]])
        m.early = np.concatenate([m.early, np.zeros(s, bool)])
        m.p = merge(m.p, sg, m.side["id"])
    if op["via"] == "binary":
        if cl.ntot != m.p.n or cl.ns + cl.nb != cl.ntot:
            raise Violation("ntot", "%s: ntot %r nb %r ns %r for %d stars" % (where, cl.ntot, cl.nb, cl.ns, m.p.n))
        cl.analyze()
    m.st.r, m.st.order = False, True
    if late:
        # the caller now hands over the evolution data of the new binaries, as for any new stars
        cl.add_sse(np.zeros(k), np.zeros(k), np.zeros(k))
        n = m.p.n
        for q in ("kw", "logl", "logr"):
            g = np.asarray(getattr(cl, q), dtype=float)
            if len(g) != n or not np.array_equal(g[k:], np.asarray(m.side[q], dtype=float)):
                raise Violation("late-binaries", "%s: after add_binary_stars and add_sse for the new binaries, %s of the older stars moved: "
                                "%s, was %s" % (where, q, g.tolist(), np.asarray(m.side[q]).tolist()))
        for q in SSE:
            m.side[q] = np.concatenate([np.zeros(k), np.asarray(m.side[q], dtype=float)])
    after_add(cl, m, r, 0, where)
    return True


def do_sse(ct, cl, m, op, where):
    if m.has_sse() or m.kwonly:
        return False
    put_sse(cl, m, rng_of(op), m.p.n, where)
    return True


def do_bse(ct, cl, m, op, where):
    if m.nb or cl.bunits not in ("nbody", "audays", "sudays"):
        return False
    r = rng_of(op)
    n = m.p.n
    nb = min(op["k"], max(1, n // 3))
    rows = r.permutation(n)[:nb]
    f = W.bin_factors(m.p.scale)[cl.bunits]
    b = dict(semi=r.uniform(1e-5, 1e-3, nb), pb=r.uniform(1e-4, 1e-1, nb), m1=r.uniform(1e-4, 1e-2, nb), m2=r.uniform(1e-4, 1e-2, nb))
    id1 = np.asarray(m.side["id"])[rows]
    bex = dict(id1=id1, id2=np.amax(m.side["id"]) + 100000 + np.arange(nb), kw1=r.integers(0, 15, nb), kw2=r.integers(0, 15, nb),
               kcm=r.integers(0, 3, nb), ecc=r.uniform(0, 1, nb), logl1=r.uniform(-2, 2, nb), logl2=r.uniform(-2, 2, nb),
               logr1=r.uniform(-1, 1, nb), logr2=r.uniform(-1, 1, nb))
    kw = {}
    if op["m0"]:
        for q in ("ep1", "ep2", "ospin1", "ospin2"):
            bex[q] = r.uniform(0, 1, nb)
            kw[q] = bex[q].copy()
    args = [bex["id1"], bex["id2"], bex["kw1"], bex["kw2"], bex["kcm"], bex["ecc"], b["pb"] * f[1], b["semi"] * f[0], b["m1"] * f[2],
            b["m2"] * f[2], bex["logl1"], bex["logl2"], bex["logr1"], bex["logr2"]]
    h = op.get("halves", 0) if nb > 1 else 0
    for lo, hi in ([(0, h), (h, nb)] if h else [(0, nb)]):
        # in one go or in two, as arrays or as lists
        cl.add_bse(*[v[lo:hi].tolist() if op.get("lists") else v[lo:hi].copy() for v in args],
                   **{q: v[lo:hi].tolist() if op.get("lists") else v[lo:hi].copy() for q, v in kw.items()})
    m.bex, m.nb = bex, nb
    m.p.nb, m.p.binary = nb, b
    if hasattr(cl, "eb") and not W.close(num(cl.eb), 0.5 * b["m1"] * f[2] * b["m2"] * f[2] / (b["semi"] * f[0]), 1e-10, 0):
        raise Violation("binary:eb", "%s: eb: %r" % (where, cl.eb))
    return True


def do_energies(ct, cl, m, op, where):
    r = rng_of(op)
    n = m.p.n
    if op["via"] == "compute" and cl.units in CART:
        cl.energies(**op["kw"])
    else:
        kin, pot = r.uniform(0, 5, n), -r.uniform(0, 9, n)
        et = kin + 2 * pot if op["etot"] else None
        given = [None if v is None else v.tolist() if op.get("lists") else v.copy() for v in (kin, pot, et)]
        cl.add_energies(given[0], given[1], etot=given[2])
        if not (np.array_equal(cl.kin, kin) and np.array_equal(cl.pot, pot) and W.close(num(cl.etot), kin + pot if et is None else et, 1e-12, 0)):
            raise Violation("data:energies", "%s: kin, pot, etot are not what was handed over" % where)
    m.has_e = True
    return True


def select(cl, m, op):
    """the keyword arguments of one cut and the mask they stand for, from the public arrays"""
    x, y, z, vx, vy, vz, mm = [num(getattr(cl, k)) for k in XK + VK + ("m",)]
    pro = op["sel"].get("projected", False)
    rr = np.sqrt(x * x + y * y + (0 if pro else z * z))
    vv = np.sqrt(vx * vx + vy * vy + (0 if pro else vz * vz))
    n = len(x)
    mask = np.ones(n, bool)
    kw = {}
    for key, val in op["sel"].items():
        if key in ("projected", "indx"):
            continue
        if key in ("rmin", "rmax", "vmin", "vmax", "mmin", "mmax"):
            a = dict(r=rr, v=vv, m=mm)[key[0]]
            t = mid(a, val)
            if t is None:
                continue
            kw[key] = float(t)
            mask &= (a >= t) if key.endswith("min") else (a <= t)
        elif key in ("emin", "emax") and m.has_e:
            a = num(cl.etot)
            t = mid(a, val)
            if t is None:
                continue
            kw[key] = float(t)
            mask &= (a >= t) if key.endswith("min") else (a <= t)
        elif key in ("kwmin", "kwmax"):
            kw[key] = val
            if m.has_sse() or m.kwonly:
                mask &= (m.side["kw"] >= val) if key == "kwmin" else (m.side["kw"] <= val)
        elif key == "npop":
            kw[key] = val
            mask &= m.side["npop"] == val
    if (m.has_sse() or m.kwonly) and "kwmax" not in kw:
        mask &= m.side["kw"] <= 15
    if pro:
        kw["projected"] = True
    ix = op["sel"].get("indx")
    if ix:
        bm = rng_of(op).random(n) < 0.7
        mask &= bm
        kw["indx"] = bm.copy()
    return kw, mask


def same(a, b):
    a, b = np.atleast_1d(np.asarray(a, dtype=float)), np.atleast_1d(np.asarray(b, dtype=float))
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def do_sub(ct, cl, m, op, where):
    if m.st.r:
        cl.analyze()
        m.st.r = m.st.order = False
    kw, mask = select(cl, m, op)
    got = cl.subset(**{k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in kw.items()})
    if not np.array_equal(np.asarray(got, dtype=bool), mask):
        raise Violation("selection", "%s: subset(%s) picks %s, the criteria mean %s" % (
            where, {k: v for k, v in kw.items() if k != "indx"}, np.asarray(got).astype(int).tolist(), mask.astype(int).tolist()))
    opts = dict(op["opts"])
    if cl.units not in CART:
        opts.pop("reset_centre", None)
    if mask.sum() < 2:
        opts = {k: v for k, v in opts.items() if k == "sortstars"}
    before = W.snapshot(cl)
    s = ct.sub_cluster(cl, **dict(kw, **opts))
    # the parent is as it was
    W.compare_snap(before, W.snapshot(cl), where + " (parent)", W.tol_of(cl, m.p), sig="parent")
    return finish_sub(cl, m, s, mask, opts, where)


def finish_sub(cl, m, s, mask, opts, where):
    p = m.p
    for k in CONF:
        if k == "centre_method" and cl.units == "radec":
            continue
        if k == "bunits" and any(o.startswith("reset_nbody") for o in opts):
            continue
        if mask.sum() == 0 and k in ("bunits", "projected", "centre_method"):
            continue
        if getattr(s, k) != getattr(cl, k):
            raise Violation("frame:" + k, "%s: the sub-cluster has %s=%r, its parent %r" % (where, k, getattr(s, k), getattr(cl, k)))
    if not same(s._solarmotion, cl._solarmotion):
        raise Violation("frame:solarmotion", "%s: solarmotion %r, parent %r" % (where, s._solarmotion, cl._solarmotion))
    if not any(k.startswith("reset_nbody") for k in opts) and not W.close(num(s.tphys), num(cl.tphys), 1e-12, 0):
        raise Violation("frame:tphys", "%s: tphys %r, parent %r" % (where, s.tphys, cl.tphys))
    if mask.sum() == 0:
        if s.ntot != 0 or len(s.x) != 0:
            raise Violation("empty", "%s: nothing is selected but the sub-cluster has %r stars" % (where, s.ntot))
        return None
    q = phys_like(p, p.rel[mask], p.vel[mask], p.m[mask], np.asarray(m.side["id"])[mask])
    side = {k: (np.asarray(m.side[k])[mask] if len(m.side[k]) == p.n else np.asarray(m.side[k])) for k in SIDE}
    bex, nb = {}, 0
    if "id1" in m.bex:
        ids = np.asarray(m.side["id"])[mask]
        bx = np.isin(m.bex["id1"], ids) | np.isin(m.bex["id2"], ids)
        bex = {k: np.asarray(v)[bx] for k, v in m.bex.items()}
        nb = int(bx.sum())
        if p.nb:
            q.nb, q.binary = nb, {k: v[bx] for k, v in p.binary.items()}
        for k in COMP:
            if len(np.atleast_1d(getattr(cl, k))) == len(bx) and len(bx):
                if not same(getattr(s, k), np.atleast_1d(getattr(cl, k))[bx]):
                    raise Violation("binary:" + k, "%s: %s of the sub-cluster is %r" % (where, k, getattr(s, k)))
        if not bx.any():
            bex = {}
    else:
        nb = int(m.early[mask].sum())
    t = M(q, side, bex, nb, m.cm)
    t.early = m.early[mask]
    t.has_e = m.has_e
    t.kwonly = m.kwonly
    t.gyr = {k: v[mask] for k, v in m.gyr.items()}
    if s.give != cl.give:
        raise Violation("frame:give", "%s: the sub-cluster has give=%r, its parent %r" % (where, s.give, cl.give))
    if m.has_e:
        for k in ("kin", "pot"):
            if not same(num(getattr(s, k)), num(getattr(cl, k))[mask]):
                raise Violation("data:" + k, "%s: %s of the selected stars is %r, parent %r" % (
                    where, k, getattr(s, k), num(getattr(cl, k))[mask]))
    if cl.units == "radec" and s.origin in ("cluster", "centre"):
        t.cm = cl.centre_method
    if any(opts.get(k) for k in ("reset_nbody", "reset_nbody_mass", "reset_nbody_radii")):
        adopt_scale(s, q, dict(mass=bool(opts.get("reset_nbody") or opts.get("reset_nbody_mass")),
                               radii=bool(opts.get("reset_nbody") or opts.get("reset_nbody_radii"))), where)
    else:
        for k in ("rbar", "zmbar", "vbar", "tbar"):
            if getattr(s, k) != getattr(cl, k):
                raise Violation("frame:" + k, "%s: %s %r, parent %r" % (where, k, getattr(s, k), getattr(cl, k)))
    if opts.get("reset_centre"):
        adopt_centre(s, q)
    t.st.order = not opts.get("sortstars", True)
    return (s, t)


def adopt_centre(cl, p):
    """the centre the library found; where the search also set the orbit, the stars stay where they were in the galaxy"""
    L, V, M_, T = p.factors(cl.units)
    if cl.origin == "galaxy":
        g = np.array([float(getattr(cl, k + "gc")) / L for k in XK] + [float(getattr(cl, k + "gc")) / V for k in VK])
        if not W.close(g, p.g, 1e-9, 1e-12):
            p.rel, p.vel = p.rel + p.g[:3] - g[:3], p.vel + p.g[3:] - g[3:]
            p.g = g
    p.c = np.array([float(getattr(cl, k + "c")) / L for k in XK] + [float(getattr(cl, k + "c")) / V for k in VK])
    p.touch()


def adopt_scale(cl, p, kw, where):
    old = dict(p.scale)
    new = dict(rbar=float(cl.rbar), zmbar=float(cl.zmbar), vbar=float(cl.vbar), tbar=float(cl.tbar))
    if not all(np.isfinite(v) and v > 0 for v in new.values()):
        raise Violation("scale", "%s: scale factors %r" % (where, new))
    if kw.get("mass", True):
        if not W.close(new["zmbar"], np.sum(p.m), 1e-9, 0):
            raise Violation("scale:zmbar", "%s: zmbar %r but the stars weigh %r Msun" % (where, new["zmbar"], np.sum(p.m)))
    elif not W.close(new["zmbar"], old["zmbar"], 1e-12, 0):
        raise Violation("scale:zmbar", "%s: zmbar changed from %r to %r" % (where, old["zmbar"], new["zmbar"]))
    if not kw.get("radii", True) and not W.close(new["rbar"], old["rbar"], 1e-12, 0):
        raise Violation("scale:rbar", "%s: rbar changed from %r to %r" % (where, old["rbar"], new["rbar"]))
    vb = 0.06557 * np.sqrt(new["zmbar"] / new["rbar"])
    if not W.close(new["vbar"], vb, 1e-3, 0) or not W.close(new["tbar"], new["rbar"] / (1.0227 * new["vbar"]), 1e-3, 0):
        raise Violation("scale:vbar", "%s: vbar, tbar do not belong to zmbar, rbar: %r" % (where, new))
    if p.binary is not None and p.nb:
        fo, fn = W.bin_factors(old)["audays"], W.bin_factors(new)["audays"]
        for k, i in (("semi", 0), ("pb", 1), ("m1", 2), ("m2", 2)):
            p.binary[k] = p.binary[k] * fo[i] / fn[i]
    p.scale = new
    p.touch()


def do_overlap(ct, cl, m, op, where, other):
    cl2, m2 = other
    if cl.units not in CART or cl2.units != cl.units or cl2.origin != cl.origin:
        return False
    d = np.sqrt(sum((num(getattr(cl, k))[:, None] - num(getattr(cl2, k))[None, :]) ** 2 for k in (XK[:2] if op["projected"] else XK)))
    dm = d.min(axis=1)
    tol = mid(dm, op["q"])
    if tol is None:
        return False
    mask = dm < tol
    b1, b2 = W.snapshot(cl), W.snapshot(cl2)
    got = ct.overlap_cluster(cl, cl2, tol=tol, projected=op["projected"], return_cluster=False)
    if not np.array_equal(np.asarray(got, bool), mask):
        raise Violation("overlap", "%s: %s, expected %s" % (where, np.asarray(got).astype(int).tolist(), mask.astype(int).tolist()))
    s = ct.overlap_cluster(cl, cl2, tol=tol, projected=op["projected"])
    W.compare_snap(b1, W.snapshot(cl), where + " (first)", W.tol_of(cl, m.p), sig="parent")
    W.compare_snap(b2, W.snapshot(cl2), where + " (second)", W.tol_of(cl2, m2.p), sig="parent")
    if m.has_sse() or m.kwonly:
        mask &= (np.asarray(m.side["kw"]) >= 0) & (np.asarray(m.side["kw"]) <= 15)
    return finish_sub(cl, m, s, mask, {}, where)


def radius_scale(cl, p, kw, origin):
    """the radius the N-body scale is built from, in pc: the virial radius or 4/3 of the half-mass radius"""
    rel = p.rel - p.c[:3] if origin not in ("cluster",) else p.rel
    if kw.get("rvirial", True):
        d = np.sqrt(((rel[:, None] - rel[None]) ** 2)[..., :2 if kw.get("projected", cl.projected) else 3].sum(axis=2))
        i = np.triu_indices(p.n, 1)
        return np.sum(p.m) ** 2 / (2 * np.sum((p.m[:, None] * p.m[None])[i] / d[i])), 1e-7
    rad = np.sqrt((rel ** 2).sum(axis=1))
    o = np.argsort(rad)
    ms = np.cumsum(p.m[o])
    i = int(np.argmax(ms >= 0.5 * ms[-1]))
    if min(abs(ms - 0.5 * ms[-1])) < 1e-9 * ms[-1]:
        return None, 0
    return 4.0 * rad[o][i] / 3.0, 1e-7


def do_scale(ct, cl, m, op, where):
    if cl.units == "radec" and op["kw"].get("rvirial") is None:
        pass
    plain = cl.units in CART and cl.units != "galpy" and m.p.skylevel == 0
    origin = cl.origin
    cl.reset_nbody_scale(**op["kw"])
    if plain and op["kw"].get("radii", True):
        want, tol = radius_scale(cl, m.p, op["kw"], origin)
        if want is not None and not W.close(float(cl.rbar), want, tol, 0):
            raise Violation("scale:rbar", "%s: rbar is %r, the stars give %r pc" % (where, float(cl.rbar), want))
    adopt_scale(cl, m.p, op["kw"], where)
    m.st.order = m.st.order
    return True


def do_vel(ct, cl, m, op, where):
    if cl.units not in CART:
        return False
    if op["fn"] == "virialize":
        cl.virialize(qvir=op["q"])
        m.has_e = True
    else:
        np.random.seed(op["seed"] % (1 << 31))
        cl.add_rotation(op["q"])
    L, V, M_, T = m.p.factors(cl.units)
    v = np.column_stack([num(getattr(cl, k)) for k in VK]) / V
    if v.shape != m.p.vel.shape:
        raise Violation("length:vx", "%s: velocities of shape %r" % (where, v.shape))
    if cl.origin == "galaxy":
        v = v - m.p.g[3:]
    elif cl.origin == "centre":
        v = v + m.p.c[3:]
    m.p.vel = v
    m.p.touch()
    return True


def do_orbit(ct, cl, m, op, where):
    if cl.units not in CART:
        return False
    p = m.p
    g0 = p.g.copy()
    c, s = np.cos(op["ang"]), np.sin(op["ang"])
    g = np.array([c * g0[0] - s * g0[1], s * g0[0] + c * g0[1], g0[2] * op["f"], c * g0[3] - s * g0[4], s * g0[3] + c * g0[4], g0[5] * op["f"]])
    rel, vel = p.rel, p.vel
    p2 = copy.deepcopy(p)
    p2.g = g
    if cl.origin == "galaxy":
        p2.rel = rel + g0[:3] - g[:3]
        p2.vel = vel + g0[3:] - g[3:]
    p2.touch()
    if not sky_fine(p2):
        return False
    ou = op["ounits"]
    if ou is None:
        L, V, M_, T = p.factors(cl.units)
        h, kw = list(g[:3] * L) + list(g[3:] * V), {}
    elif ou == "radec":
        h, kw = list(p2._sky(g[:3], g[3:])[:, 0]), dict(ounits=ou)
        p2.skylevel = 1
    else:
        L, V, M_, T = p.factors(ou)
        h, kw = list(g[:3] * L) + list(g[3:] * V), dict(ounits=ou)
    if op.get("t") is not None:
        # the orbit file knows the time, in its own units
        kw["tphys"] = op["t"] * (1e-3 if ou == "radec" else p.factors(ou or cl.units)[3])
        p2.tphys = op["t"]
    if op.get("init"):
        kw["initialize"] = True
    cl.add_orbit(*[float(v) for v in h], **kw)
    p2.nb, p2.binary = p.nb, p.binary
    if hasattr(cl, "rgc") and not W.close(num(cl.rgc), np.sqrt(sum(g[:3] ** 2)) * p.factors(cl.units)[0], 1e-8, 1e-9):
        raise Violation("data:rgc", "%s: rgc is %r for an orbit at %r" % (where, cl.rgc, [cl.xgc, cl.ygc, cl.zgc]))
    m.p = p2
    return True


def do_centre(ct, cl, m, op, where):
    if cl.units not in CART or m.p.n < 6:
        return False
    if m.st.r:
        cl.analyze()
        m.st.r = m.st.order = False
    f = getattr(cl, op["fn"])
    f()
    adopt_centre(cl, m.p)
    return True


DO = dict(addstars=do_addstars, addbin=do_addbin, sse=do_sse, bse=do_bse, energies=do_energies, sub=do_sub, scale=do_scale,
          vel=do_vel, orbit=do_orbit, centre=do_centre)


def gen_sel(rng):
    sel = {}
    keys = ["rmin", "rmax", "vmin", "vmax", "mmin", "mmax", "emin", "emax", "kwmin", "kwmax", "npop", "indx", "projected"]
    for k in rng.sample(keys, rng.choice([0, 1, 1, 2, 2, 3, 5])):
        if k in ("kwmin", "kwmax"):
            sel[k] = rng.choice([0, 1, 5, 9, 13, 14])
        elif k == "npop":
            sel[k] = rng.choice([1, 1, 2])
        elif k in ("indx", "projected"):
            sel[k] = True
        elif k.endswith("min"):
            sel[k] = round(rng.choice([rng.uniform(0, 0.4), rng.uniform(0, 1)]), 3)
        else:
            sel[k] = round(rng.choice([rng.uniform(0.5, 1), rng.uniform(0, 1)]), 3)
    opts = {}
    if rng.random() < 0.4:
        opts["sortstars"] = False
    if rng.random() < 0.12:
        opts["reset_centre"] = True
    k = rng.random()
    if k < 0.06:
        opts["reset_nbody"] = True
    elif k < 0.1:
        opts["reset_nbody_mass"] = True
    elif k < 0.14:
        opts["reset_nbody_radii"] = True
    if k < 0.14 and rng.random() < 0.5:
        opts["reset_rvirial"] = True
    return sel, opts


class C13(C01):
    prop = "C13"
    quick_runs = 900
    thorough_runs = 25000
    quick_wall = 55
    real = ["StarCluster add_*/sub_cluster/overlap_cluster/reset_nbody_scale/virialize/add_rotation/add_orbit/find_centre",
            "unit and origin conversions", "galpy", "astropy"]
    rule = ("seeded histories of 5-16 additions, cuts, joins, rescalings, energy and orbit updates and frame changes over a growing set of "
            "clusters; every live cluster is compared star by star with the model after every step; non-trivial when at least one "
            "cut or addition was made and four steps compared; distinct by event-log digest")
    state_measure = "distinct (operation, options, units, origin, has evolution/binary/energy data) combinations"
    assumptions = ["stars are added in Cartesian frames and in the sky frame centred on the Sun", "evolution data and energies for new "
                   "stars are attached before the next cut", "binaries with evolution data and binaries added star by star are not mixed"]

    def generate(self, rng, tier, index):
        specs = [W.gen_spec(rng, nmin=4, nmax=16, energies=True) for _ in range(rng.choice([1, 1, 2]))]
        if len(specs) == 2 and rng.random() < 0.6:
            for k in ("units", "origin", "ro", "vo", "zo", "solarmotion", "g", "scale", "orbit"):
                specs[1][k] = copy.deepcopy(specs[0][k])
            if specs[1]["orbit"] and not W._sky_ok(specs[1]):
                specs = specs[:1]
        ops = []
        if rng.random() < 0.25:
            specs = [gen_adopt(rng)]
        for s in specs:
            if "adopt" in s:
                continue
            s["give"] = rng.choice(["mxv", "mxv", "mxv", "mxve", "mxvpqael"])
            s["kwonly"] = rng.random() < 0.2
        amuse = rng.random() < 0.25
        for _ in range(rng.randint(5, 16)):
            c = rng.randrange(6)
            k = rng.random()
            if k < 0.26:
                op = W.gen_frame_op(rng, specs[0], amuse=amuse)
            elif k < 0.42:
                op = dict(op="addstars", k=rng.randint(1, 5), form=rng.choice(["array", "array", "scalar", "onemass", "list"]),
                          ids=rng.random() < 0.4, m0=rng.random() < 0.4, npop=rng.random() < 0.4, sort=rng.random() < 0.5,
                          analyze=rng.random() < 0.85, nomass=rng.random() < 0.15, one=rng.random() < 0.2,
                          amuse=amuse and rng.random() < 0.5)
            elif k < 0.50:
                op = dict(op="addbin", k=rng.randint(1, 3), via=rng.choice(["binary", "stars"]), ids=rng.random() < 0.5,
                          m0=rng.random() < 0.5, npop=rng.random() < 0.5, singles=rng.choice([0, 1, 3]))
            elif k < 0.54:
                op = dict(op="sse")
            elif k < 0.58:
                op = dict(op="bse", k=rng.randint(1, 4), m0=rng.random() < 0.5, halves=rng.choice([0, 0, 1]), lists=rng.random() < 0.4)
            elif k < 0.64:
                op = dict(op="energies", via=rng.choice(["compute", "given"]), etot=rng.random() < 0.3, lists=rng.random() < 0.4,
                          kw=rng.choice([{}, {"specific": False}, {"projected": True}]))
            elif k < 0.82:
                sel, opts = gen_sel(rng)
                op = dict(op="sub", sel=sel, opts=opts)
            elif k < 0.86:
                op = dict(op="overlap", q=round(rng.random(), 3), projected=rng.random() < 0.4, c2=rng.randrange(6))
            elif k < 0.91:
                op = dict(op="scale", kw=rng.choice([{}, {"rvirial": False}, {"mass": False}, {"radii": False}, {"projected": True},
                                                    {"mass": False, "rvirial": False}]))
            elif k < 0.94:
                op = dict(op="vel", fn=rng.choice(["virialize", "rotation"]), q=rng.choice([0.3, 0.5, 1.0]))
            elif k < 0.98:
                op = dict(op="orbit", ang=round(rng.uniform(-0.2, 0.2), 6), f=round(rng.uniform(0.8, 1.1), 6),
                          ounits=rng.choice([None, None] + list(OUN)), init=rng.random() < 0.3,
                          t=round(rng.uniform(0.0, 12000.0), 4) if rng.random() < 0.5 else None)
            else:
                op = dict(op="centre", fn=rng.choice(["find_centre", "find_centre_of_mass"]))
            ops.append(dict(op, c=c, seed=rng.randrange(1 << 30)))
        return dict(specs=specs, ops=ops)

    def fixed_plans(self, tier):
        import random
        rng = random.Random(5)
        spec = W.gen_spec(rng, nmin=5, nmax=5, sky=False, sse=True, bse=False, units="pckms", origin="cluster")
        return [dict(specs=[spec], ops=[dict(op="addbin", late=True, k=1, via="binary", ids=True, m0=False, npop=False, singles=0, c=0, seed=7)])]

    def simplify(self, plan):
        for i, s in enumerate(plan["specs"]):
            for key, val in (("n", 4), ("sse", False), ("bse", False), ("m0", False), ("npop", False), ("projected", False),
                             ("tphys", 0.0), ("c", [0.0] * 6), ("energies", False)):
                if s.get(key) != val:
                    p = copy.deepcopy(plan)
                    p["specs"][i][key] = val
                    yield p
        if len(plan["specs"]) > 1:
            for i in range(len(plan["specs"])):
                p = copy.deepcopy(plan)
                del p["specs"][i]
                yield p
        for i, o in enumerate(plan["ops"]):
            for key, val in (("c", 0), ("ids", False), ("m0", False), ("npop", False), ("k", 1), ("singles", 0), ("form", "array"),
                             ("analyze", True), ("sort", True), ("via", "method"), ("opts", {}), ("kw", {})):
                if key in o and o[key] != val and not (key == "via" and o["op"] in ("addbin", "energies")):
                    p = copy.deepcopy(plan)
                    p["ops"][i][key] = val
                    yield p
            if o["op"] == "sub":
                for key in list(o["sel"]):
                    p = copy.deepcopy(plan)
                    del p["ops"][i]["sel"][key]
                    yield p

    def execute(self, plan, log):
        import clustertools as ct
        live = []
        for s in plan["specs"]:
            if s.get("adopt"):
                log.ev("adopt %r" % (s["adopt"],))
                try:
                    cl, p, m = adopt(ct, s)
                except (Violation, HarnessError):
                    raise
                except Exception as ex:
                    tb = [t for t in traceback.extract_tb(ex.__traceback__) if "clustertools/" in t.filename]
                    if not tb:
                        raise
                    raise Violation("exception:adopt:%s" % type(ex).__name__, "loading %r raised %r at %s:%d" % (
                        s["adopt"], ex, tb[-1].filename.split("/")[-1], tb[-1].lineno))
                log.state("adopt", s["adopt"]["how"], s["adopt"]["units"], s["origin"], s["adopt"]["masses"], s["adopt"]["names"])
            else:
                cl, p = W.build(s)
                m = model_of(cl, p, s)
            verify(cl, m, "after building")
            live.append((cl, m))
        done = key = 0
        for i, op in enumerate(plan["ops"]):
            k = op["c"] % len(live)
            cl, m = live[k]
            f0 = (cl.units, cl.origin)
            where = "step %d cluster %d %s in %s" % (i, k, {a: b for a, b in op.items() if a not in ("c", "seed")}, f0)
            log.ev(where)
            name = op["op"]
            new = False
            if m.st.r and name in ("energies", "overlap", "scale", "vel", "centre", "sub"):
                cl.analyze()
                m.st.r = m.st.order = False
            if name == "overlap" and live[op["c2"] % len(live)][1].st.r:
                continue
            if cl.units == "amuse" and name in ("sub", "overlap", "bse", "centre", "vel", "orbit"):
                continue
            try:
                if name in DO:
                    new = DO[name](ct, cl, m, op, where)
                elif name == "overlap":
                    new = do_overlap(ct, cl, m, op, where, live[op["c2"] % len(live)])
                else:
                    if not sky_fine(m.p) and (op.get("u") == "radec" or op.get("o") == "sky" or np.any(m.p.g)) or name == "bunits" and not m.p.nb:
                        if op.get("u") == "radec" or op.get("o") == "sky" or name == "bunits":
                            continue
                    if not np.any(m.p.g) and (op.get("u") == "radec" or op.get("o") == "sky"):
                        continue
                    W.apply_frame_op(cl, op, m.st)
                    new = True
                    if "radec" in (f0[0], cl.units) or op.get("u") == "radec" or op.get("o") == "sky":
                        m.p.skylevel = 1
                    if cl.units == "radec" and cl.origin in ("cluster", "centre"):
                        m.cm = cl.centre_method
            except (Violation, HarnessError):
                raise
            except Exception as ex:
                tb = traceback.extract_tb(ex.__traceback__)
                at = [t for t in tb if "clustertools/" in t.filename]
                if not at:
                    raise
                raise Violation("exception:%s:%s" % (name, type(ex).__name__), "%s raised %r at %s" % (
                    where, ex, ["%s:%d" % (t.filename.split("/")[-1], t.lineno) for t in at]))
            if new is False:
                continue
            if new is None:
                log.probe("empty selection")
            if isinstance(new, tuple):
                verify(new[0], new[1], where + " (new cluster)")
                if new[1].p.n >= 3 and len(live) < 6:
                    live.append(new)
            if (name in DO or name == "overlap") and f0[0] != "amuse" and not op.get("amuse") and (cl.units, cl.origin) != f0:
                raise Violation("frame", "%s left the cluster in %r" % (where, (cl.units, cl.origin)))
            done += 1
            if name in ("sub", "addstars", "addbin", "overlap"):
                key += 1
            log.steps += 1
            log.state(name, f0, (cl.units, cl.origin), m.has_sse(), m.has_bse(), m.has_e, bool(m.nb), op.get("via"), op.get("form"),
                      sorted(op.get("sel", {})), sorted(op.get("opts", {})))
            for j, (c2, m2) in enumerate(live):
                verify(c2, m2, where + (" (cluster %d)" % j if j != k else ""))
            for q in ("x", "vx", "m", "id"):
                log.arr(q, num(getattr(cl, q)))
        log.nontrivial = done >= 4 and key >= 1


def make():
    return C13()
