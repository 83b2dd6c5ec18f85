"""The questions a user can put to a cluster: one catalogue shared by C02, C03, C04, C05, C06 and C12.

An ask is JSON: {"op":"ask","ask":name,"kw":{...},"form":"m"|"f"}.  Tokens inside kw are resolved against the
cluster's current frame just before the call:
  {"$L":pc} {"$V":km/s} {"$M":Msun} {"$T":Myr} {"$D":Gyr}   physical values in the current units
  {"$pot":"MW"|"log"}   galpy potential          {"$mask":[seed,frac]}  boolean star mask
  {"$bins":[pc edges]}  radial bins (lower,mean,upper)   {"$list":[..]} list   {"$arr":[..]} numpy array
"""
import numpy as np

from .core import HarnessError
from .model import CART, SKYKEYS, VK, XK, num

_POT = {}


def pot(name):
    if name not in _POT:
        from galpy import potential as P
        if name == "MW":
            _POT[name] = P.MWPotential2014
        elif name == "log":
            _POT[name] = P.LogarithmicHaloPotential(normalize=1.0, q=0.9)
        elif name == "plum":
            _POT[name] = [P.PlummerPotential(amp=1.0, b=0.5), P.LogarithmicHaloPotential(normalize=0.7)]
        else:
            raise HarnessError(name)
    return _POT[name]


def resolve(v, cl, p):
    """p: model.Phys used for unit factors only"""
    if isinstance(v, dict):
        if len(v) == 1:
            k = next(iter(v))
            a = v[k]
            if k in ("$L", "$V", "$M", "$T"):
                if cl.units == "radec" and k in ("$L", "$V"):
                    return a * (0.01 if k == "$L" else 0.1)
                return a * p.factors(cl.units)["LVMT".index(k[1])]
            if k == "$A":
                # a length; where the library's lengths are angles, the angle at the cluster's distance
                if cl.units == "radec":
                    return float(np.degrees(np.arctan2(a * 1e-3, float(cl.dist_gc))))
                return a * p.factors(cl.units)[0]
            if k == "$path":
                return _path(a, cl, p)
            if k == "$D":
                return float(a)
            if k == "$pot":
                return pot(a)
            if k == "$mask":
                r = np.random.Generator(np.random.PCG64(a[0]))
                return r.uniform(0, 1, len(cl.x)) < a[1]
            if k == "$bins":
                L = p.factors(cl.units)[0] if cl.units != "radec" else 0.01
                e = np.array(a) * L
                return [e[:-1].copy(), 0.5 * (e[1:] + e[:-1]), e[1:].copy()]
            if k == "$list":
                return list(a)
            if k == "$arr":
                return np.array(a)
            if k == "$ids":
                return np.asarray(cl.id)[np.array(a)]
            if k == "$idlist":
                return [int(q) for q in np.asarray(cl.id)[np.array(a)]]
            if k == "$id1":
                return int(np.asarray(cl.id)[a])
            if k == "$vec":
                L = p.factors(cl.units)[0]
                return np.array(a) * L
            if k == "$ones":
                return np.linspace(a[0], a[1], len(cl.x))
        return {k: resolve(w, cl, p) for k, w in v.items()}
    return v


def _path(a, cl, p):
    """a path the caller worked out before"""
    import clustertools as ct
    kw = {k: resolve(v, cl, p) for k, v in a.items() if k != "tail"}
    return ct.tail_path(cl, **kw) if a.get("tail") else ct.orbital_path(cl, **kw)


class Ask(object):
    def __init__(self, name, gen, fn, dims=None, attrs=(), group="own", ok=None, tags=(), grav=False):
        self.name, self.gen, self.fn, self.dims, self.attrs = name, gen, fn, dims, tuple(attrs)
        self.group, self.ok, self.tags, self.grav = group, ok or (lambda cl, kw: True), frozenset(tags), grav


ASKS = {}


def ask(name, gen, dims=None, attrs=(), group="own", ok=None, tags=(), grav=False, fn=None, form="mf"):
    """form: m method, f function (two catalogue entries share one generator)"""
    import clustertools as ct

    def method(cl, kw):
        return getattr(cl, name)(**kw)

    def func(cl, kw):
        return getattr(ct, name)(cl, **kw)
    if fn is not None:
        ASKS[name] = Ask(name, gen, fn, dims, attrs, group, ok, tags, grav)
        return
    if "m" in form:
        ASKS[name] = Ask(name, gen, method, dims, attrs, group, ok, tags, grav)
    if "f" in form:
        ASKS["f:" + name] = Ask("f:" + name, gen, func, dims, ("rc",) if name == "core_relaxation_time" else (), group, ok, tags | frozenset(["function"]) if isinstance(
            tags, frozenset) else set(tags) | set(["function"]), grav)


# ------------------------------------------------------------------------------- generators
def _filters(rng, spec, kw, heavy=0.5, radial=True):
    """star selections; kept loose so that enough stars remain"""
    if rng.random() > heavy:
        return kw
    for _ in range(rng.choice([1, 1, 2])):
        c = rng.randrange(9)
        if c == 0 and radial:
            kw["rmax"] = {"$L": round(spec["a"] * rng.uniform(1.2, 4.0), 6)}
        elif c == 1 and radial:
            kw["rmin"] = {"$L": round(spec["a"] * rng.uniform(0.05, 0.5), 6)}
        elif c == 2:
            kw["mmin"] = {"$M": round(rng.uniform(0.1, 0.14), 6)}
        elif c == 3:
            kw["mmax"] = {"$M": round(rng.uniform(0.5, 5.0), 6)}
        elif c == 4 and radial:
            kw["vmax"] = {"$V": round(spec["sv"] * rng.uniform(1.5, 4.0), 6)}
        elif c == 5:
            kw["indx"] = {"$mask": [rng.randrange(1 << 20), rng.choice([0.5, 0.8, 0.95])]}
        elif c == 6 and spec["npop"]:
            kw["npop"] = rng.choice([1, 2])
        elif c == 7:
            kw["kwmax"] = rng.choice([1, 9, 14])
        elif c == 8 and spec.get("energies"):
            kw["emax"] = {"$V": 1e9}
    return kw


SPARSE = ("mass_function", "tapered_mass_function", "eta_function", "meq_function", "subset", "sub_cluster", "f:find_centre", "rtidal",
          "rho_prof", "m_prof", "sigv_prof", "beta_prof", "v_prof", "v2_prof", "vcirc_prof", "alpha_prof", "eta_prof", "meq_prof")


def sparse(rng, spec, name, kw):
    """a selection that leaves hardly any star, or none"""
    n = name[2:] if name.startswith("f:") and name not in SPARSE else name
    if n not in SPARSE:
        return kw
    if n in ("rtidal", "f:find_centre"):
        return dict(kw, indx={"$mask": [rng.randrange(1 << 20), rng.choice([0.15, 0.3])]})
    kw = {k: v for k, v in kw.items() if k not in ("rmin", "rmax", "mmin", "mmax", "vmin", "vmax", "indx")}
    c = rng.randrange(5)
    if c == 0:
        kw["rmax"] = {"$L": round(spec["a"] * rng.uniform(0.05, 0.6), 6)}
    elif c == 1:
        kw["rmin"] = {"$L": round(spec["a"] * rng.uniform(1.0, 6.0), 6)}
    elif c == 2:
        kw["mmin"] = {"$M": round(rng.uniform(0.3, 5.0), 6)}
    elif c == 3:
        kw["vmin"] = {"$V": round(spec["sv"] * rng.uniform(1.0, 5.0), 6)}
    else:
        kw["indx"] = {"$mask": [rng.randrange(1 << 20), rng.choice([0.05, 0.15, 0.3])]}
    return kw


def _proj(rng, kw, pr=0.35):
    if rng.random() < pr:
        kw["projected"] = True
    elif rng.random() < 0.3:
        kw["projected"] = False
    return kw


def _plot(rng, kw, tags=None, pr=0.12):
    if rng.random() < pr:
        kw["plot"] = True
    return kw


def _prof(rng, spec, mass=False):
    kw = dict(nrad=rng.randint(2, 5))
    if mass:
        kw["nmass"] = rng.randint(3, 4)
        kw["nrad"] = rng.choice([1, 2, 4])
        kw["kwmax"] = 15
    _filters(rng, spec, kw, 0.4)
    _proj(rng, kw)
    c = rng.random()
    if c < 0.15:
        kw["bintype"] = "fix"
    elif c < 0.3:
        a = spec["a"]
        kw["bins"] = {"$bins": [0.0, round(0.7 * a, 6), round(1.5 * a, 6), round(20 * a, 6)]}
    if rng.random() < 0.3:
        kw["normalize"] = True
    return _plot(rng, kw)


def _mf(rng, spec, plot=True):
    kw = dict(nmass=rng.choice([3, 3, 4, 5]), kwmax=rng.choice([1, 15, 15]))
    _filters(rng, spec, kw, 0.5)
    _proj(rng, kw)
    return _plot(rng, kw) if plot else kw


def _orb(rng, spec, kw, frame=True):
    kw["pot"] = {"$pot": rng.choice(["MW", "MW", "log"])}
    if rng.random() < 0.25:
        kw["from_centre"] = True
    return kw


def _rt(rng, spec):
    kw = dict(pot={"$pot": "MW"})
    c = rng.random()
    if c < 0.2:
        kw["rgc"] = rng.choice([6.0, 9.0, 14.0])
        kw["zgc"] = rng.choice([0.0, 1.5])
    elif c < 0.4:
        kw["from_centre"] = True
    return kw


def isamuse(cl):
    return cl.units == "amuse"


def notsky(cl, kw):
    return cl.units != "radec"


def cartesian(cl, kw):
    return cl.units in CART


def hascentre(cl, kw):
    """core radii find a centre themselves when none is known: only ask once one is"""
    if cl.origin == "centre":
        return True
    if cl.units == "radec":
        return any(abs(float(num(getattr(cl, k))) - float(num(getattr(cl, k[0] + "gc")))) > 1e-7 for k in ("xc", "yc", "zc"))
    return any(float(num(getattr(cl, k))) != 0.0 for k in ("xc", "yc", "zc"))


def build():
    if ASKS:
        return ASKS
    import clustertools as ct
    from clustertools.analysis import functions as F, orbits as O
    from clustertools.tidaltail import tails as TT
    from clustertools.util import plots as PL

    def tok(cl, kw):
        return cl.units != "amuse" or not ("rad" in kw)

    def coul(rng, spec):
        return _proj(rng, dict(coulomb=rng.choice([0.4, 0.11])) if rng.random() < 0.5 else {})

    ask("relaxation_time", lambda rng, s: coul(rng, s) if rng.random() < 0.6 else
        dict(coul(rng, s), rad={"$A": round(s["a"] * rng.uniform(0.8, 3), 6)}),
        dims=["T"], attrs=("trelax",), group="recentre", ok=tok)
    ask("half_mass_relaxation_time", coul, dims=["T"], attrs=("trh",), group="recentre")
    ask("core_relaxation_time", coul, dims=["T"], attrs=("trc", "rc"), group="recentre", ok=hascentre)

    def en(rng, s):
        kw = {}
        c = rng.random()
        if c < 0.3:
            kw["full"] = False
        elif c < 0.6:
            n = s["n"]
            idx = sorted(rng.sample(range(n), rng.randint(1, max(1, n // 2))))
            kw["ids"] = rng.choice([{"$ids": idx}, {"$idlist": idx}, {"$id1": idx[0]}])
            if rng.random() < 0.3:
                kw["ids"] = {"$mask": [rng.randrange(1 << 20), 0.6]}
        if rng.random() < 0.3:
            kw["specific"] = False
        if rng.random() < 0.3:
            kw["softening"] = {"$L": round(rng.uniform(0.01, 0.5), 6)}
        elif "ids" not in kw:
            _proj(rng, kw, 0.3)
        return kw

    def en_dims(kw):
        return ["V2", "V2"] if kw.get("specific", True) else ["MV2", "MV2"]
    ask("energies", en, dims=en_dims, attrs=("kin", "pot", "etot", "ektot", "ptot", "qvir"), group="energy", ok=notsky, grav=True)

    ask("closest_star", lambda rng, s: _proj(rng, dict(argument=True) if rng.random() < 0.4 else {}),
        dims=["L", "idx"], attrs=("dclosest", "argclosest"), group="any")

    def rl(rng, s):
        kw = _proj(rng, dict(nlagrange=rng.randint(2, 10)) if rng.random() < 0.6 else {})
        return kw
    ask("rlagrange", rl, dims=["L"], attrs=("rn",), group="recentre", form="m")
    ask("f:rlagrange", lambda rng, s: dict(rl(rng, s), **(dict(mfrac=rng.choice([0.1, 0.33, 0.5, 0.9])) if rng.random() < 0.4 else {})),
        dims=["L"], group="recentre", fn=lambda cl, kw: ct.rlagrange(cl, **kw), tags=("function",))

    def vr(rng, s):
        if rng.random() < 0.5:
            kw = dict(method="critical_density")
            _plot(rng, kw)
            if rng.random() < 0.3:
                kw["overdens"] = rng.choice([1e4, 1e6, 1e7])
        else:
            kw = dict(method="inverse_distance", full=rng.random() < 0.5)
        return _proj(rng, kw)
    ask("virial_radius", vr, dims=["L"], attrs=("rv",), group="recentre")

    ask("mass_function", _mf, dims=["M", "n", "1/M", "1", "1", "x", "x", "1"], attrs=("mmin", "mmax", "alpha"), group="own")
    ask("tapered_mass_function", lambda rng, s: _mf(rng, s), dims=["M", "n", "1/M"] + ["x"] * 8, attrs=("mmin", "mmax", "alpha"), group="own")
    ask("eta_function", _mf, dims=["M", "V", "1", "1", "x", "x"], attrs=("mmin", "mmax", "eta"), group="own")
    ask("meq_function", _mf, dims=["M", "V", "x", "x", "x", "x"], attrs=("mmin", "mmax", "meq"), group="own")
    ask("ckin", lambda rng, s: _proj(rng, dict(nmass=3, kwmax=15)), dims=["x"], attrs=("ck",), group="own")

    def rc(rng, s):
        kw = dict(method=rng.choice(["casertano", "casertano", "isothermal"]))
        if kw["method"] == "casertano":
            kw["nneighbour"] = rng.choice([3, 4, 6])
        else:
            kw["mfrac"] = rng.choice([0.1, 0.25, 0.5])
        _proj(rng, kw)
        return _plot(rng, kw)
    ask("rcore", rc, dims=["L"], attrs=("rc",), group="centre", ok=hascentre)

    def rt(rng, s):
        kw = _rt(rng, s)
        if rng.random() < 0.5:
            kw["rtiterate"] = rng.randint(1, 4)
        if rng.random() < 0.3:
            kw["indx"] = {"$mask": [rng.randrange(1 << 20), 0.7]}
        if rng.random() < 0.2:
            kw["verbose"] = True
        return _plot(rng, kw)
    ask("rtidal", rt, dims=["L"], attrs=("rt",), group="recentre")
    ask("rlimiting", lambda rng, s: _plot(rng, _proj(rng, dict(_rt(rng, s), nrad=rng.randint(2, 6)))), dims=["L"], attrs=("rl",),
        group="recentre")

    # profiles are functions only
    P = dict(rho_prof=["L", "D", "n"], m_prof=["L", "M", "n"], sigv_prof=["L", "V"], beta_prof=["L", "1"],
             v_prof=["L", "V"], v2_prof=["L", "V2"], vcirc_prof=["L", "V", "L", "V"])

    def pdims(base):
        def f(kw):
            d = [("D2" if kw.get("projected") else "D3") if q == "D" else q for q in base]
            if kw.get("normalize"):
                d[0] = "1"
            return d
        return f

    from clustertools.analysis import profiles as PR

    def prof_fn(name):
        return lambda cl, kw: getattr(PR, name)(cl, **kw)
    for name, d in P.items():
        def g(rng, s, name=name):
            kw = _prof(rng, s)
            if name in ("sigv_prof", "v_prof", "v2_prof") and rng.random() < 0.4:
                kw["coord"] = rng.choice(["x", "y", "z", "r", "phi", "theta", "v"] if not kw.get("projected") else ["x", "y", "r", "phi", "z", "v"])
            if name == "m_prof" and rng.random() < 0.4:
                kw["cumulative"] = True
            if name == "vcirc_prof":
                kw.pop("bintype", None)
            if name == "vcirc_prof" and rng.random() < 0.3:
                kw.pop("bins", None)
                kw["nrad"] = None
            return kw
        ask(name, g, dims=pdims(d), group="recentre", fn=prof_fn(name), tags=("function", "profile"), grav=(name == "vcirc_prof"))

    def ga(rng, s):
        kw = _prof(rng, s, mass=True)
        if rng.random() < 0.3:
            kw["aerror"] = True
        if rng.random() < 0.3:
            kw["mcorr"] = {"$ones": [0.5, 1.0]}
        return kw
    ask("alpha_prof", ga, dims=lambda kw: ["1" if kw.get("normalize") else "L", "1", "1", "1", "1", "1", "1"], group="recentre",
        fn=prof_fn("alpha_prof"), tags=("function", "profile"))
    ask("eta_prof", lambda rng, s: _prof(rng, s, mass=True), dims=lambda kw: ["1" if kw.get("normalize") else "L", "1"] + ["x"] * 4,
        group="recentre", fn=prof_fn("eta_prof"), tags=("function", "profile"))
    ask("meq_prof", lambda rng, s: _prof(rng, s, mass=True), dims=lambda kw: ["1" if kw.get("normalize") else "L"] + ["x"] * 5,
        group="recentre", fn=prof_fn("meq_prof"), tags=("function", "profile"))

    # orbits
    def o1(rng, s):
        return dict(from_centre=True) if rng.random() < 0.3 else {}
    ask("initialize_orbit", o1, dims=["orbit"], attrs=("orbit",), group="any", tags=("orbit",))
    ask("initialize_orbits", lambda rng, s: {}, dims=["orbits"], attrs=("orbits",), group="own", tags=("orbit",),
        ok=lambda cl, kw: not (cl.units == "radec" and cl.origin != "sky"))

    def tf(rng):
        return round(rng.choice([-1, 1]) * rng.choice([1.0, 7.5, 30.0, 80.0]), 6)

    def io(rng, s):
        return _orb(rng, s, dict(tfinal={"$T": tf(rng)}, nt=rng.choice([5, 20])))

    def tok(cl, kw):
        return cl.units != "amuse"
    ask("f:interpolate_orbit", io, dims=["L", "L", "L", "V", "V", "V"], group="any", fn=lambda cl, kw: ct.interpolate_orbit(cl, **kw),
        tags=("function", "orbit"), ok=tok)

    def ios(rng, s):
        return dict(tfinal={"$T": tf(rng)}, nt=5, pot={"$pot": rng.choice(["MW", "log"])})
    ask("f:interpolate_orbits", ios, dims=["L", "L", "L", "V", "V", "V"], group="own", fn=lambda cl, kw: ct.interpolate_orbits(cl, **kw),
        tags=("function", "orbit"), ok=lambda cl, kw: cl.units != "amuse" and not (cl.units == "radec" and cl.origin != "sky"))

    def op(rng, s):
        kw = _orb(rng, s, dict(tfinal={"$T": abs(tf(rng))}, nt=rng.choice([5, 9])))
        if rng.random() < 0.25:
            kw["skypath"] = True
        if rng.random() < 0.25:
            kw["initialize"] = True
        return _plot(rng, kw)
    PATH = ("tpath", "xpath", "ypath", "zpath", "vxpath", "vypath", "vzpath")

    def opd(kw):
        if kw.get("skypath"):
            return ["T"] + ["sky"] * 6 + (["x"] if kw.get("initialize") else [])
        return ["T", "L", "L", "L", "V", "V", "V"] + (["x"] if kw.get("initialize") else [])
    ask("orbital_path", op, dims=opd, attrs=PATH + ("orbit",), group="any", tags=("orbit",), ok=tok, form="m")

    def opn(rng, s):
        kw = op(rng, s)
        return kw
    ask("f:orbital_path", opn, dims=opd, group="any", fn=lambda cl, kw: ct.orbital_path(cl, **kw), tags=("orbit", "function"), ok=tok)

    def opm(rng, s):
        kw = _orb(rng, s, dict(tfinal={"$D": rng.choice([0.02, 0.05])}, nt=rng.choice([11, 21])))
        if rng.random() < 0.25:
            kw["skypath"] = True
        if rng.random() < 0.3:
            kw["to_path"] = True
        if rng.random() < 0.25:
            sub = {k: kw[k] for k in ("pot", "from_centre", "skypath", "nt") if k in kw}
            kw = {k: v for k, v in kw.items() if k in ("skypath", "to_path")}
            kw["path"] = {"$path": dict(sub, tfinal={"$T": rng.choice([20.0, 50.0])})}
        _proj(rng, kw, 0.2)
        return _plot(rng, kw)

    def opmd(kw):
        return ["T", "sky", "sky"] if kw.get("skypath") else ["T", "L", "L"]
    ask("orbital_path_match", opm, dims=opmd, attrs=("tstar", "dprog", "dpath"), group="any", tags=("orbit",), ok=tok)
    ask("to_tail", lambda rng, s: {}, dims=["L", "L", "L", "V", "V", "V"], attrs=("x_tail", "y_tail", "z_tail", "vx_tail", "vy_tail",
        "vz_tail", "r_tail", "v_tail"), group="recentre", fn=lambda cl, kw: (cl.to_tail(), [getattr(cl, k + "_tail") for k in XK + VK])[1],
        ok=notsky)
    ask("f:to_tail", lambda rng, s: {}, dims=["L", "L", "L", "V", "V", "V"], group="recentre", fn=lambda cl, kw: TT.to_tail(cl),
        tags=("function",), ok=notsky)

    def tp(rng, s, m=False):
        kw = _orb(rng, s, dict(dt={"$D": rng.choice([0.02, 0.05])}, no=rng.choice([11, 21]), nt=rng.choice([3, 5])))
        kw["ntail"] = rng.choice([kw["nt"], kw["nt"], kw["nt"] + 2])
        if rng.random() < 0.3:
            kw["dmax"] = {"$A": rng.choice([2.0, 10.0, 500.0])}
        if rng.random() < 0.25 and not m:
            kw["skypath"] = True
        if not m and rng.random() < 0.3:
            kw["bintype"] = "num"
        if rng.random() < 0.2:
            kw["to_path"] = True
        if m and rng.random() < 0.3:
            sub = {k: kw[k] for k in ("pot", "from_centre", "dt", "no", "nt", "ntail", "dmax") if k in kw}
            kw = {k: v for k, v in kw.items() if k in ("to_path",)}
            kw["path"] = {"$path": dict(sub, tail=True)}
        return _plot(rng, kw)

    def tpd(kw):
        return ["T"] + (["sky"] * 6 if kw.get("skypath") else ["L", "L", "L", "V", "V", "V"])
    ask("tail_path", tp, dims=tpd, attrs=PATH, group="any", tags=("orbit",), ok=tok, form="m")
    ask("f:tail_path", tp, dims=tpd, group="any", fn=lambda cl, kw: TT.tail_path(cl, **kw), tags=("orbit", "function"), ok=tok)
    ask("tail_path_match", lambda rng, s: tp(rng, s, True), dims=opmd, attrs=("tstar", "dprog", "dpath"), group="any",
        tags=("orbit",), ok=tok, form="m")

    # coordinates
    ask("sphere_coords", lambda rng, s: {}, dims=["L", "1", "1", "V", "V", "V"], group="own", fn=lambda cl, kw: ct.sphere_coords(cl))
    ask("cyl_coords", lambda rng, s: {}, dims=["L", "1", "L", "V", "V", "V"], group="own", fn=lambda cl, kw: ct.cyl_coords(cl))
    ask("sky_coords", lambda rng, s: {}, dims=["sky"] * 6, group="any", fn=lambda cl, kw: ct.sky_coords(cl))

    # star sets
    def sub(rng, s):
        kw = _filters(rng, s, dict(), 0.9)
        _proj(rng, kw, 0.2)
        return kw
    ask("subset", sub, dims=["n"], attrs=("indx",), group="own", fn=lambda cl, kw: cl.subset(**kw))

    def subc(rng, s):
        kw = sub(rng, s)
        if rng.random() < 0.4:
            kw["sortstars"] = False
        return kw
    ask("sub_cluster", subc, dims=["cluster"], group="own", fn=lambda cl, kw: ct.sub_cluster(cl, **kw), tags=("function",),
        ok=lambda cl, kw: cl.units != "amuse")
    ask("overlap_cluster", lambda rng, s: dict(tol={"$L": rng.choice([0.3, 1.0])}, frac=rng.choice([0.3, 0.7]), ret=rng.random() < 0.5,
        projected=rng.random() < 0.3), dims=["cluster"], group="own", fn=_overlap, tags=("function",),
        ok=lambda cl, kw: cl.units != "amuse")

    # centres, as functions (they only return)
    def fc(rng, s):
        kw = dict(method=rng.choice(["harfst", "casertano"]), nsphere=rng.choice([3, 6, 100]))
        if rng.random() < 0.3:
            kw = dict(density=False, nsphere=rng.choice([3, 6, 100]))
        if rng.random() < 0.3:
            kw["indx"] = {"$mask": [rng.randrange(1 << 20), 0.8]}
        kw["rmin"] = {"$L": 0.05}
        if rng.random() < 0.3:
            kw["rmax"] = {"$L": round(s["a"] * 5, 6)}
        return kw
    ask("f:find_centre", fc, dims=["L", "L", "L", "V", "V", "V"], group="own", fn=lambda cl, kw: F.find_centre(cl, **kw),
        tags=("function",))

    def fcd(rng, s):
        kw = fc(rng, s)
        kw.pop("density", None)
        kw.pop("nsigma", None)
        return kw
    ask("f:find_centre_of_density", fcd, dims=["L", "L", "L", "V", "V", "V"], group="own",
        fn=lambda cl, kw: F.find_centre_of_density(cl, **kw), tags=("function",))
    ask("f:find_centre_of_mass", lambda rng, s: {}, dims=["L", "L", "L", "V", "V", "V"], group="own",
        fn=lambda cl, kw: F.find_centre_of_mass(cl), tags=("function",))

    # plots
    ask("starplot", lambda rng, s: dict(coords=rng.choice(["xyz", "xy", "xz", "yz"]), do_centre=rng.random() < 0.4), dims=["x"],
        fn=lambda cl, kw: (PL.starplot(cl, **kw), None)[1], tags=("function", "plot"))
    ask("skyplot", lambda rng, s: dict(coords=rng.choice(["radec", "pm"]), do_centre=rng.random() < 0.4, overplot=rng.random() < 0.3),
        dims=["x"], fn=lambda cl, kw: (PL.skyplot(cl, **kw), None)[1], tags=("function", "plot", "sky"))
    return ASKS


def _overlap(cl, kw):
    import clustertools as ct
    kw = dict(kw)
    n = len(cl.x)
    k = max(1, int(n * kw.pop("frac")))
    other = ct.StarCluster(cl.tphys, units=cl.units, origin=cl.origin)
    other.add_stars(np.array(cl.x[:k]) + 1e-3 * kw["tol"], np.array(cl.y[:k]), np.array(cl.z[:k]), np.array(cl.vx[:k]),
                    np.array(cl.vy[:k]), np.array(cl.vz[:k]), np.array(cl.m[:k]), analyze=False)
    ret = kw.pop("ret")
    return ct.overlap_cluster(cl, other, return_cluster=ret, **kw)


# exceptions that small or unlucky inputs raise by themselves; the answer is then "the same exception"
NATURAL = (IndexError, ValueError, RuntimeError, TypeError, ZeroDivisionError, np.linalg.LinAlgError)


def usable(name, cl, kw, spec):
    a = ASKS[name]
    if not a.ok(cl, kw):
        return False
    # amuse quantities go through numpy and matplotlib code that does not accept them in the installed versions
    if cl.units == "amuse" and (kw.get("plot") or name.replace("f:", "") in ("to_tail", "subset", "starplot")):
        return False
    if "emax" in kw and (hasattr(cl.etot, "unit") or getattr(cl.etot, "dtype", None) == object):
        return False
    if not spec["orbit"] and ("orbit" in a.tags or "sky" in a.tags or name.replace("f:", "") in (
            "rtidal", "rlimiting", "sky_coords", "to_tail", "orbital_path_match") or kw.get("skypath")):
        return False
    return True


def invoke(name, cl, kw_json, p, log=None):
    """resolve, call, normalise.  returns ("ok", flat) or ("exc", type name, text)"""
    import matplotlib.pyplot as plt
    kw = {k: resolve(v, cl, p) for k, v in kw_json.items()}
    try:
        res = ASKS[name].fn(cl, kw)
    finally:
        plt.close("all")
    return flat(res)


def flat(res, path="r"):
    """list of (path, kind, value)"""
    out = []
    if res is None or isinstance(res, (str, bool)):
        return [(path, "lit", res)]
    if isinstance(res, np.bool_):
        return [(path, "lit", bool(res))]
    if type(res).__name__ == "StarCluster":
        for k in XK + VK + ("m", "id", "m0", "npop", "kw", "logl", "logr", "ep", "ospin", "id1", "id2", "semi", "pb", "ecc", "m1",
                            "m2", "kin", "pot", "etot", "xgc", "ygc", "zgc", "vxgc", "vygc", "vzgc", "xc", "yc", "zc", "vxc", "vyc",
                            "vzc", "tphys", "ntot", "rbar", "zmbar", "vbar", "tbar"):
            v = getattr(res, k, None)
            if v is None or (isinstance(v, float) and False):
                out.append((path + "." + k, "lit", None))
            else:
                out.append((path + "." + k, "num", num(v)))
        for k in ("units", "origin", "ctype", "projected", "centre_method"):
            out.append((path + "." + k, "lit", getattr(res, k)))
        return out
    if type(res).__name__ == "Orbit":
        # where it is and where the Sun sees it
        sky = np.array([np.atleast_1d(getattr(res, k)()) for k in ("ra", "dec", "dist", "pmra", "pmdec", "vlos")], dtype=float)
        return [(path + ".vxvv", "num", np.array(res.vxvv, dtype=float)), (path + ".sky", "num", sky)]
    if hasattr(res, "value_in"):
        return [(path, "num", num(res)), (path + ".unit", "lit", str(res.unit))]
    if isinstance(res, (list, tuple)):
        if all(isinstance(q, (int, float, np.integer, np.floating)) for q in res) and isinstance(res, list):
            return [(path, "num", np.array(res, dtype=float))]
        for i, q in enumerate(res):
            out += flat(q, "%s[%d]" % (path, i))
        return out
    if isinstance(res, dict):
        for k in sorted(res, key=str):
            out += flat(res[k], "%s.%s" % (path, k))
        return out
    try:
        return [(path, "num", num(res))]
    except Exception:
        return [(path, "lit", repr(type(res)))]


def differ(a, b, rtol=1e-9, atol=0.0):
    """None, or a description of the first difference between two flattened answers"""
    from .world import close, worst
    if len(a) != len(b):
        return "answers have %d and %d parts" % (len(a), len(b))
    for (pa, ka, va), (pb, kb, vb) in zip(a, b):
        if pa != pb or ka != kb:
            return "parts %s/%s and %s/%s" % (pa, ka, pb, kb)
        if ka == "lit":
            if va != vb:
                return "%s: %r and %r" % (pa, va, vb)
        elif not close(va, vb, rtol, atol + (1e-13 * float(np.nanmax(np.abs(vb))) if np.size(vb) and not np.all(np.isnan(vb)) else 0)):
            return "%s: %s" % (pa, worst(va, vb))
    return None


def gen_ask(rng, spec, tags=None, names=None):
    names = names or sorted(ASKS)
    name = rng.choice(names)
    return dict(op="ask", ask=name, kw=ASKS[name].gen(rng, spec))
