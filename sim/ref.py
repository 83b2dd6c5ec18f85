"""What the analyses are defined to return, worked out independently from a plain list of stars (pc, km/s, Msun, Myr).

Each function returns [(dimension, value)] in the order of the library's answer; None marks a part that is not settled by the
definition (fits whose result depends on the optimiser), and a result of None an answer that is not settled at all."""
import numpy as np

G = 4.302e-3
SEC = 3.086e13 / (3600.0 * 24.0 * 365.0 * 1e6)         # pc/(km/s) in (365-day) Myr


class Undefined(Exception):
    pass


class State(object):
    """stars around the point the question is about"""
    def __init__(self, pos, vel, m, kw, npop, ids, gal, cen, origin, ro, vo):
        self.pos, self.vel, self.m, self.kw, self.npop, self.ids = pos, vel, m, kw, npop, ids
        self.gal, self.cen, self.origin, self.ro, self.vo = gal, cen, origin, ro, vo
        self.n = len(m)
        self.e = None                   # total energies, as the cluster holds them

    def like(self, q):
        q.e = self.e
        return q

    def at(self, origin):
        """the same stars seen from another point"""
        if origin == self.origin:
            return self
        shift = {"cluster": np.zeros(6), "centre": self.cen, "galaxy": -self.gal}
        d = shift[origin] - shift[self.origin]
        return self.like(State(self.pos - d[:3], self.vel - d[3:], self.m, self.kw, self.npop, self.ids, self.gal, self.cen, origin, self.ro, self.vo))

    def centred(self):
        return self.at("centre") if self.origin == "galaxy" else self

    def shaken(self, rng):
        """the same cluster up to rounding"""
        a = 1e-9 * (np.std(self.pos, axis=0).max() + 1e-4 * np.max(np.abs(self.gal[:3])) * 1e-3 + 1e-6)
        b = 1e-9 * (np.std(self.vel, axis=0).max() + 1e-6)
        return self.like(State(self.pos + a * rng.uniform(-1, 1, self.pos.shape), self.vel + b * rng.uniform(-1, 1, self.vel.shape),
                               self.m * (1 + 1e-12 * rng.uniform(-1, 1, self.n)), self.kw, self.npop, self.ids, self.gal, self.cen, self.origin, self.ro, self.vo))

    def r(self, projected=False):
        return np.sqrt((self.pos[:, :2 if projected else 3] ** 2).sum(axis=1))

    def v(self, projected=False):
        return np.sqrt((self.vel[:, :2 if projected else 3] ** 2).sum(axis=1))


def coincide(s):
    """two stars in (nearly) one place, or in one place on the sky: distances and orders are then up to rounding"""
    if s.n > 200:
        return False
    for k in (2, 3):
        q = s.pos[:, :k]
        d = np.sqrt(((q[:, None] - q[None]) ** 2).sum(axis=2))
        np.fill_diagonal(d, np.inf)
        if d.min() < 1e-5 * np.std(s.pos[:, 0]):
            return True
    return False


def half(s, projected=False, frac=0.5):
    r = s.r(projected)
    o = np.argsort(r)
    c = np.cumsum(s.m[o]) / s.m.sum()
    if np.any(np.abs(c - frac) < 1e-9):
        raise Undefined                 # exactly that fraction, up to rounding
    return r[o][np.argmax(c >= frac)]


def selection(s, kw, kwmax=15, skip=()):
    p = kw.get("projected", False)
    r, v = s.r(p), s.v(p)
    ok = np.ones(s.n, dtype=bool)
    for k, x in (("r", r), ("v", v), ("m", s.m)):
        if k in skip:
            continue
        if kw.get(k + "min") is not None:
            ok &= x >= kw[k + "min"]
        if kw.get(k + "max") is not None:
            ok &= x <= kw[k + "max"]
    for k, o in (("emin", np.greater_equal), ("emax", np.less_equal)):
        if kw.get(k) is not None:
            ok &= o(s.e, kw[k])
    if s.kw is not None:
        ok &= (s.kw >= kw.get("kwmin", 0)) & (s.kw <= kw.get("kwmax", kwmax))
    if kw.get("npop") is not None:
        ok &= s.npop == kw["npop"]
    if kw.get("indx") is not None:
        ok &= kw["indx"]
    return ok


def equal_number(x, n):
    """members of n bins with (nearly) the same number of values, and their edges"""
    if len(x) < 2:
        raise Undefined
    o = np.argsort(x, kind="stable")
    cut = np.unique((np.arange(n) * len(x) / n).astype(int))
    if len(cut) > 1 and cut[-1] == len(x) - 1:
        cut = cut[:-1]
    end = np.append(cut[1:], len(x))
    members = [o[a:b] for a, b in zip(cut, end)]
    lo = x[o][cut]
    hi = np.append(lo[1:], x[o][-1])
    if np.any(lo >= hi) or np.any(x[o][cut[1:]] - x[o][cut[1:] - 1] <= 1e-12 * np.abs(x).max()):
        raise Undefined                 # a bin that ends between equal values
    return lo, hi, members, np.array([x[k].mean() for k in members])


def equal_width(x, n):
    if len(x) < 2:
        raise Undefined
    e = np.linspace(x.min(), x.max(), n + 1)
    b = np.clip(np.searchsorted(e, x, side="right") - 1, 0, n - 1)
    return e[:-1], e[1:], [np.flatnonzero(b == i) for i in range(n)], 0.5 * (e[1:] + e[:-1])


def radial(s, kw, ok, r):
    """(lower, upper, star numbers in each bin, mid) for the radial bins asked for"""
    w = np.flatnonzero(ok)
    if kw.get("bins") is not None:
        lo, mid, hi = kw["bins"]
        b = [w[(r[w] >= lo[i]) & ((r[w] < hi[i]) | (i == len(lo) - 1) & (r[w] <= hi[i]))] for i in range(len(lo))]
        return lo, hi, b, mid
    f = equal_width if kw.get("bintype") == "fix" else equal_number
    lo, hi, members, mid = f(r[w], kw.get("nrad", 20))
    return lo, hi, [w[k] for k in members], mid


def scale_r(s, kw, mid):
    if not kw.get("normalize"):
        return ("L", mid)
    return ("1", mid / half(s, kw.get("projected", False)))


def rho_prof(s, kw):
    s = s.centred()
    p = kw.get("projected", False)
    r = s.r(p)
    lo, hi, b, mid = radial(s, kw, selection(s, kw), r)
    vol = np.pi * (hi ** 2 - lo ** 2) if p else 4.0 / 3.0 * np.pi * (hi ** 3 - lo ** 3)
    first = scale_r(s, kw, mid)
    if p and kw.get("normalize"):
        first = None                    # by which half-mass radius is not said
    return [first, ("D2" if p else "D3", np.array([s.m[k].sum() for k in b]) / vol), ("n", np.array([len(k) for k in b], dtype=float))]


def m_prof(s, kw):
    s = s.centred()
    p = kw.get("projected", False)
    r = s.r(p)
    ok = selection(s, kw)
    lo, hi, b, mid = radial(s, kw, ok, r)
    first = scale_r(s, kw, mid)
    if p and kw.get("normalize"):
        first = None
    if kw.get("cumulative"):
        b = [np.flatnonzero(ok & ((r < h) | (i == len(hi) - 1))) if kw.get("bins") is None else np.flatnonzero(ok & ((r < h) | (i == len(hi) - 1) & (r <= h)))
             for i, h in enumerate(hi)]
    return [first, ("M", np.array([s.m[k].sum() for k in b])), ("n", np.array([len(k) for k in b], dtype=float))]


def component(s, coord, projected):
    x, y, z = s.pos.T
    R = np.hypot(x, y)
    vx, vy, vz = s.vel.T
    if coord is None or coord == "v":
        return s.v(projected)
    if coord in ("x", "y", "z"):
        return s.vel[:, "xyz".index(coord)]
    vR, vphi = (x * vx + y * vy) / R, (x * vy - y * vx) / R
    if coord == "phi":
        return vphi
    r = s.r()
    if coord == "r":
        return vR if projected else (s.pos * s.vel).sum(axis=1) / r
    if coord == "theta" and not projected:
        return (z * vR - R * vz) / r
    raise Undefined


def moments(s, kw, f, dim):
    s = s.centred()
    p = kw.get("projected", False)
    r = s.r(p)
    lo, hi, b, mid = radial(s, kw, selection(s, kw), r)
    v = component(s, kw.get("coord"), p)
    return [scale_r(s, kw, mid), (dim, np.array([f(v[k]) if len(k) > 3 else 0.0 for k in b]))]


def sigv_prof(s, kw):
    return moments(s, kw, np.std, "V")


def v_prof(s, kw):
    return moments(s, kw, np.mean, "V")


def v2_prof(s, kw):
    return moments(s, kw, lambda v: np.mean(v ** 2), "V2")


def beta_prof(s, kw):
    s = s.centred()
    p = kw.get("projected", False)
    lo, hi, b, mid = radial(s, kw, selection(s, kw), s.r(p))
    vr, vp = component(s, "r", p), component(s, "phi", p)
    vt = None if p else component(s, "theta", p)
    out = []
    for k in b:
        if len(k) <= 3:
            out.append(0.0)
        elif p:
            out.append(np.std(vp[k]) / np.std(vr[k]) - 1.0)
        else:
            out.append(1.0 - (np.var(vt[k]) + np.var(vp[k])) / (2.0 * np.var(vr[k])))
    return [scale_r(s, kw, mid), ("1", np.array(out))]


def vcirc_prof(s, kw):
    s = s.centred()
    p = kw.get("projected", False)
    r = s.r(p)
    w = np.flatnonzero(selection(s, kw))
    w = w[np.argsort(r[w])]
    if len(w) == 0:
        raise Undefined
    vc = np.sqrt(G * np.cumsum(s.m[w]) / r[w])
    if kw.get("bins") is not None:
        mid = kw["bins"][1]
    elif kw.get("nrad", 20) is None:
        mid = r[w]
    else:
        mid = radial(s, dict(nrad=kw.get("nrad", 20), bintype=kw.get("bintype")), selection(s, kw), r)[3]
    a = []
    for q in mid:
        d = np.abs(r[w] - q)
        a.append(int(np.argmin(d)))
        if np.sum(d <= d.min() + 1e-9 * r[w].max()) > 1:
            raise Undefined             # half way between two stars
    return [scale_r(s, kw, r[w][a]), ("V", vc[a]), ("L", r[w][np.argmax(vc)]), ("V", vc.max())]


def line(x, y):
    """straight line through points with the usual errors"""
    n = len(x)
    if n < 3 or not np.all(np.isfinite(x)) or not np.all(np.isfinite(y)):
        raise Undefined
    xm = x.mean()
    sxx = ((x - xm) ** 2).sum()
    b = ((x - xm) * (y - y.mean())).sum() / sxx
    a = y.mean() - b * xm
    res = ((y - a - b * x) ** 2).sum() / (n - 2)
    return b, a, np.sqrt(res / sxx), np.sqrt(res * (1.0 / n + xm ** 2 / sxx))


def intercept(x, y, dx, dy):
    """intercept and its error where the units are not pc, km/s, Msun: dx(f), dy(f) is what the units add to x and y"""
    def at(i):
        return lambda f: line(x + dx(f), y + dy(f))[i]
    return [("1", at(1)), ("1", at(3))]


def mass_bins(s, ok, n, width=False):
    w = np.flatnonzero(ok)
    lo, hi, members, mid = (equal_width if width else equal_number)(s.m[w], n)
    return lo, hi, [w[k] for k in members], mid


def mass_function(s, kw, ok=None):
    n = kw.get("nmass", 10)
    ok = selection(s, kw, 1) if ok is None else ok
    c = kw.get("mcorr")
    if ok.sum() < n:
        return [("M", np.zeros(n)), ("n", np.zeros(n)), ("1/M", np.zeros(n))] + [("1", -1000.0)] * 4 + ([("1", np.zeros(n))] if c is not None else [])
    lo, hi, b, mid = mass_bins(s, ok, n, "fix" in (kw.get("bintype"), kw.get("mbintype")))
    cnt = np.array([len(k) for k in b], dtype=float)
    cor = cnt if c is None else np.array([(1.0 / c[k]).sum() for k in b])
    if np.any(cor == 0):
        raise Undefined
    dm = cor / (hi - lo)
    al, y, eal, ey = line(np.log10(mid), np.log10(dm))
    out = [("M", mid), ("n", cnt), ("1/M", dm), ("1", al), ("1", eal)] + intercept(np.log10(mid), np.log10(dm), lambda f: np.log10(f[2]), lambda f: -np.log10(f[2]))
    if c is not None:
        out.append(("1", cnt / cor))
    return out


def tapered_mass_function(s, kw):
    r = mass_function(s, dict(kw, mcorr=None, bintype=None, mbintype=None)) if kw.get("mcorr") is None else None
    if r is None or r[3] == ("1", -1000.0):
        raise Undefined
    return r[:3] + [None] * 8


def eta_function(s, kw, ok=None, kwmax=1):
    n = kw.get("nmass", 10)
    ok = selection(s, kw, kwmax) if ok is None else ok
    if ok.sum() < 2 * n:
        return [("M", np.zeros(n)), ("V", np.zeros(n))] + [("1", -1000.0)] * 4
    lo, hi, b, mid = mass_bins(s, ok, n)
    v = s.v(kw.get("projected", False))
    sig = np.array([np.std(v[k]) for k in b])
    if len(b) != n or np.any(sig <= 0):
        raise Undefined
    e, y, ee, ey = line(np.log10(mid), np.log10(sig))
    return [("M", mid), ("V", sig), ("1", e), ("1", ee)] + intercept(np.log10(mid), np.log10(sig), lambda f: np.log10(f[2]), lambda f: np.log10(f[1]))


def equipartition(mid, sig, lo, hi):
    """the equipartition mass and central dispersion that fit best, if the fit settles them: for a given mass the dispersion is linear"""
    x = np.linspace(np.log(lo), np.log(hi), 4001)[:, None]
    q = mid[None] / np.exp(x)
    g = np.where(q <= 1, np.exp(-0.5 * q), np.exp(-0.5) * np.maximum(q, 1e-300) ** -0.5)
    a = (g * sig).sum(axis=1) / (g * g).sum(axis=1)
    c = ((a[:, None] * g - sig) ** 2).sum(axis=1)
    j = int(np.argmin(c))
    d = c[::10]
    e = 1e-10 * (sig ** 2).sum()
    turn = np.flatnonzero((d[1:-1] <= d[:-2]) & (d[1:-1] <= d[2:]) & ((d[1:-1] < d[:-2] - e) | (d[1:-1] < d[2:] - e)))
    near = np.flatnonzero(c <= c[j] * (1 + 1e-4) + 1e-9 * (sig ** 2).sum())
    if c[j] > 0.01 * (sig ** 2).sum() or len(turn) != 1 or j in (0, len(c) - 1) or near[-1] - near[0] != len(near) - 1 or x[near[-1]] - x[near[0]] > 0.2 or near[0] < 40 or near[-1] > 3960:
        return None
    return np.exp(x[j, 0]), a[j]


def meq_function(s, kw):
    r = eta_function(s, dict(dict(npop=1), **kw))
    if r[2] == ("1", -1000.0):
        return r
    f = equipartition(r[0][1], r[1][1], s.m.min(), s.m.max())
    return r[:2] + ([None] * 4 if f is None else [("M", f[0], 0.15), None, ("V", f[1], 0.05), None])


def ckin(s, kw):
    """how much more the inner half is in equipartition than the shell around the half-mass radius"""
    if s.origin == "galaxy":
        s = s.centred()
    p = kw.get("projected", False)
    rn = rlagrange(s, dict(projected=p))[0][1]
    q = []
    for lo, hi in ((rn[3], rn[5]), (0.0, rn[4])):
        r = meq_function(s, dict(dict(npop=None), **dict(kw, rmin=lo, rmax=hi)))
        if r[2] is None or r[2] == ("1", -1000.0):
            raise Undefined
        q.append(r[2][1])
    return [("1", q[1] / q[0], 0.3)]


def slope_prof(s, kw, f):
    s = s.centred()
    p = kw.get("projected", False)
    n = kw.get("nmass", 10)
    r = s.r(p)
    lo, hi, b, mid = radial(s, kw, selection(s, kw, f[1]), r)
    out = np.array([f[0](s, kw, k, lo[i], hi[i]) for i, k in enumerate(b)])
    if kw.get("bins") is not None and f[2]:
        mid = np.array([r[k].mean() if len(k) else np.nan for k in b])
    fit = [("1", -100.0), ("1", 0.0), ("1", 0.0), ("1", 0.0)]
    if len(mid) > 3:
        if not np.all(np.isfinite(mid)):
            raise Undefined
        sl, y, es, ey = line(np.log(mid / half(s, p)), out)
        fit = [("1", sl), ("1", es), ("1", y), ("1", ey)]
    return [scale_r(s, kw, mid), ("1", out)] + fit


def alpha_prof(s, kw):
    errs = []

    def one(s, kw, k, lo, hi):
        ok = np.zeros(s.n, dtype=bool)
        ok[k] = True
        if s.kw is not None:
            ok &= s.kw <= (15 if kw.get("kwmax") is None else kw["kwmax"])
        r = mass_function(s, dict(nmass=kw.get("nmass", 10), mcorr=kw.get("mcorr")), ok)
        errs.append(r[4][1] if r[3][1] > -100 else 0.0)
        return r[3][1] if r[3][1] > -100 else 0.0
    out = slope_prof(s, kw, (one, 1, True))
    return out + ([("1", np.array(errs))] if kw.get("aerror") else [])


def eta_prof(s, kw):
    def one(s, kw, k, lo, hi):
        ok = selection(s, kw) & (s.r(kw.get("projected", False)) >= lo) & (s.r(kw.get("projected", False)) <= hi)
        r = eta_function(s, kw, ok)
        return r[2][1] if r[2][1] > -100 else 0.0
    return slope_prof(s, kw, (one, 15, False))


def meq_prof(s, kw):
    bad = []

    def one(s, kw, k, lo, hi):
        ok = selection(s, kw) & (s.r(kw.get("projected", False)) >= lo) & (s.r(kw.get("projected", False)) <= hi)
        r = eta_function(s, kw, ok)
        if r[2][1] <= -100:
            return 0.0
        f = equipartition(r[0][1], r[1][1], s.m.min(), s.m.max())
        bad.append(f is None)
        return 0.0 if f is None else f[0]
    out = slope_prof(s, kw, (one, 15, False))
    return out[:1] + [None if any(bad) else ("M", out[1][1], 0.15)] + [None] * 4


def relaxation_time(s, kw):
    s = s.centred()
    p = kw.get("projected", False)
    rad = kw["rad"] if kw.get("rad") is not None else half(s, p) * (1 + 1e-12)
    w = s.r(p) <= rad
    if not w.any():
        raise Undefined
    rho = w.sum() / (4.0 * np.pi * rad ** 3 / 3.0)
    v2 = np.mean(s.v(p) ** 2)
    return [("T", v2 ** 1.5 / (15.4 * G ** 2 * np.mean(s.m[w]) ** 2 * rho * np.log(kw.get("coulomb", 0.4) * s.n)) * SEC)]


def half_mass_relaxation_time(s, kw):
    s = s.centred()
    mbar = s.m.mean()
    return [("T", 0.138 * np.sqrt(s.m.sum()) * half(s, kw.get("projected", False)) ** 1.5 / (
        mbar * np.sqrt(G) * np.log(kw.get("coulomb", 0.4) * s.n)) * SEC)]


def casertano(s, k, projected):
    """local densities (less the star furthest away) within the k-th neighbour, the star itself counted"""
    q = s.pos[:, :2 if projected else 3]
    d = np.sqrt(((q[:, None] - q[None]) ** 2).sum(axis=2))
    o = np.argsort(d, axis=1, kind="stable")[:, :k]
    if o.shape[1] < k:
        raise Undefined
    far = np.take_along_axis(d, o, axis=1)[:, -1]
    return s.m[o[:, :-1]].sum(axis=1) / far ** (2 if projected else 3)


def rcore(s, kw):
    s = s.at("centre")
    p = kw.get("projected", False)
    if kw.get("method", "casertano") == "casertano":
        w = casertano(s, kw.get("nneighbour", 6), p) ** 2
        return [("L", np.sqrt((w * s.r(p) ** 2).sum() / w.sum()))]
    r, d, n = rho_prof(s, dict(projected=p, nrad=int(np.ceil(1.0 / kw.get("mfrac", 0.1)))))
    r, d = r[1], d[1]
    want = d[0] * (0.5 if p else 1.0 / 3.0)
    below = d < want
    if not below.any():
        raise Undefined
    i, j = np.flatnonzero(~below)[-1], np.flatnonzero(below)[0]
    m = (d[j] - d[i]) / (r[j] - r[i])
    return [("L", (want - (d[j] - m * r[j])) / m)]


def core_relaxation_time(s, kw):
    s = s.centred()
    p = kw.get("projected", False)
    rc, rh = rcore(s, dict(projected=p))[0][1], half(s, p)
    m, mbar = s.m.sum(), s.m.mean()
    return [("T", 0.39 / np.log(kw.get("coulomb", 0.4) * s.n) * np.sqrt(rc ** 3 / (G * m)) * (m / mbar) * np.sqrt(rc * rh) / (rc + rh) * SEC)]


def energies(s, kw):
    if s.origin == "galaxy":
        s = s.at("cluster")
    p = kw.get("projected", False)
    q = s.pos[:, :2 if p else 3]
    d = np.sqrt(((q[:, None] - q[None]) ** 2).sum(axis=2) + kw.get("softening", 0.0) ** 2)
    np.fill_diagonal(d, np.inf)
    pot = -G * (s.m[None] / d).sum(axis=1)
    kin = 0.5 * s.v(p) ** 2
    f = np.ones(s.n) if kw.get("specific", True) else s.m
    ids = kw.get("ids")
    if ids is None:
        w = np.ones(s.n, dtype=bool)
    elif np.asarray(ids).dtype == bool:
        w = np.asarray(ids)
    else:
        w = np.isin(s.ids, np.atleast_1d(ids))
    dim = "V2" if kw.get("specific", True) else "MV2"
    return [(dim, (kin * f)[w]), (dim, (pot * f)[w])]


def closest_star(s, kw):
    q = s.pos[:, :2 if kw.get("projected") else 3]
    d = np.sqrt(((q[:, None] - q[None]) ** 2).sum(axis=2))
    np.fill_diagonal(d, np.inf)
    out = [("L", d.min(axis=1))]
    return out + [("n", d.argmin(axis=1).astype(float))] if kw.get("argument") else out


def rlagrange(s, kw):
    s = s.centred()
    p = kw.get("projected", False)
    if kw.get("mfrac") is not None:
        return [("L", half(s, p, kw["mfrac"]))]
    n = kw.get("nlagrange", 10)
    return [("L", np.array([half(s, p, i / float(n)) for i in range(1, n)] + [s.r(p).max()]))]


def virial_radius(s, kw):
    s = s.centred()
    p = kw.get("projected", False)
    if kw.get("method", "inverse_distance") == "inverse_distance":
        q = s.pos[:, :2 if p else 3]
        i, j = np.triu_indices(s.n, 1)
        return [("L", s.m.sum() ** 2 / (2.0 * (s.m[i] * s.m[j] / np.sqrt(((q[i] - q[j]) ** 2).sum(axis=1))).sum()))]
    r = s.r(p)
    o = np.argsort(r)
    r = r[o]
    d = np.cumsum(s.m[o]) / (4.0 / 3.0 * np.pi * r ** 3)
    want = 3.0 * (kw.get("H", 70.0) * 1e-6) ** 2 / (8.0 * np.pi * 4.30091e-3) * kw.get("overdens", 200.0)
    k = np.argmin(np.abs(d - want))
    if k in (0, len(r) - 1):
        return [("L", r[k])]
    a, b = (k - 1, k) if d[k] < want else (k, k + 1)
    m = (d[b] - d[a]) / (r[b] - r[a])
    return [("L", (want - (d[b] - m * r[b])) / m)]


def tide(s, kw):
    """galactocentric R and z (kpc) of the point the tide is taken at"""
    g = s.gal[:3] + (s.cen[:3] if kw.get("from_centre") else 0.0)
    R = kw["rgc"] if kw.get("rgc") is not None else np.hypot(g[0], g[1]) / 1000.0
    z = kw["zgc"] if kw.get("zgc") is not None else g[2] / 1000.0
    return R / s.ro, z / s.ro


def rtidal(s, kw):
    from galpy.potential import evaluateRforces, evaluatezforces
    from galpy.util import conversion
    s = s.centred()
    R, z = tide(s, kw)
    pot = kw["pot"]
    r = np.hypot(R, z)

    def pull(q):
        """inward pull at q times the distance, along the line from the galaxy's centre"""
        return -float(evaluateRforces(pot, q * R, q * z, use_physical=False)) * R / r - float(evaluatezforces(pot, q * R, q * z, use_physical=False)) * z / r
    # circular frequency against the change of the pull across the cluster
    h = 1e-4
    strength = pull(1.0) / r - (pull(1.0 + h) - pull(1.0 - h)) / (2.0 * h * r)
    mo, L = conversion.mass_in_msol(ro=s.ro, vo=s.vo), 1000.0 * s.ro
    w = np.ones(s.n, dtype=bool) if kw.get("indx") is None else np.asarray(kw["indx"], dtype=bool)
    rt = lambda w: (s.m[w].sum() / mo / strength) ** (1.0 / 3.0) * L
    out = rt(w)
    for _ in range(kw.get("rtiterate", 0)):
        w = w & (s.r() < out)
        new = rt(w)
        if new == 0.0:
            return [("L", 0.0)]
        if new / out >= kw.get("rtconverge", 0.9):
            break
        out = new
    return [("L", out)]


def rlimiting(s, kw):
    from galpy.potential import evaluateDensities
    from galpy.util import conversion
    s = s.centred()
    p = kw.get("projected", False)
    R, z = tide(s, kw)
    r, d, n = rho_prof(s, dict(nrad=kw.get("nrad", 20), projected=p))
    r, d = r[1], d[1]
    local = float(evaluateDensities(kw["pot"], R, z, use_physical=False)) * conversion.mass_in_msol(ro=s.ro, vo=s.vo) / (1000.0 * s.ro) ** 3
    if p:
        local *= 4.0 * r[-1] / 3.0
    if d[-1] > local:
        return [("L", r[-1])]
    if d[0] < local:
        return [("L", 0.0)]
    j = np.flatnonzero(d < local)[0]
    return [("L", r[j - 1] + (local - d[j - 1]) * (r[j] - r[j - 1]) / (d[j] - d[j - 1]))]


def subset(s, kw):
    return [("n", selection(s, kw).astype(float))]


def centre_of_mass(s, w=None):
    w = np.ones(s.n, dtype=bool) if w is None else w
    x = np.column_stack([s.pos, s.vel])[w]
    return (s.m[w][:, None] * x).sum(axis=0) / s.m[w].sum()


def six(x):
    return [("L", x[0]), ("L", x[1]), ("L", x[2]), ("V", x[3]), ("V", x[4]), ("V", x[5])]


def find_centre_of_mass(s, kw):
    return six(centre_of_mass(s))


def find_centre(s, kw):
    w = np.ones(s.n, dtype=bool) if kw.get("indx") is None else np.asarray(kw["indx"], dtype=bool)
    if not w.any():
        return [("n", 0.0)] * 6
    nsphere = kw.get("nsphere", 100)
    if not kw.get("density", True):
        # shells of one standard deviation, closed in on while enough stars are left
        keep = np.flatnonzero(w)
        q = s.pos[keep]
        r = np.sqrt((q ** 2).sum(axis=1))
        while len(r) > nsphere:
            inside = r < kw.get("nsigma", 1.0) * np.std(r)
            if inside.sum() <= nsphere:
                break
            keep = keep[inside]
            q = q[inside] - q[inside].mean(axis=0)
            r = np.sqrt((q ** 2).sum(axis=1))
        ok = np.zeros(s.n, dtype=bool)
        ok[keep] = True
        return six(centre_of_mass(s, ok))
    if kw.get("method", "harfst") == "casertano":
        d = casertano(s, kw.get("nneighbour", 6), False)
        return six((d[:, None] * np.column_stack([s.pos, s.vel])).sum(axis=0) / d.sum())
    # without a limit, whether the star furthest out is within its own distance is up to rounding
    lim = kw["rmax"] if kw.get("rmax") is not None else np.sqrt((s.pos[w] ** 2).sum(axis=1)).max()
    ends = [shrink(s, w, kw, a, nsphere) for a in ([lim] if kw.get("rmax") is not None else [lim * (1 + 1e-9), lim * (1 - 1e-9)])]
    if np.any(np.abs(ends[0] - ends[-1]) > 1e-9 * (np.abs(ends[0]) + np.std(s.pos))):
        raise Undefined
    return six(ends[0])


def shrink(s, w, kw, lim, nsphere):
    """centre of mass of ever smaller spheres around the last one's"""
    x, m = np.column_stack([s.pos, s.vel])[w].copy(), s.m[w]
    c = np.zeros(6)
    for i in range(kw.get("nmax", 100)):
        if lim <= kw.get("rmin", 0.1):
            break
        k = (x[:, :3] ** 2).sum(axis=1) < lim ** 2
        if k.sum() <= nsphere:
            break
        d = (m[k][:, None] * x[k]).sum(axis=0) / m[k].sum()
        x -= d
        c += d
        lim *= 0.8
    return c


def to_tail(s, kw, back=False):
    """turned so that the cluster's velocity points along x (back: turned by the opposite angle)"""
    s = s.centred()
    v = np.linalg.norm(s.gal[3:])
    if v == 0:
        raise Undefined
    a = s.gal[3:] / v
    k = np.cross(a, [1.0, 0.0, 0.0])
    if np.linalg.norm(k) < 1e-3:
        raise Undefined
    w = np.linalg.norm(k)
    k = k / w
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    R = np.eye(3) + (-w if back else w) * K + (1 - a[0]) * K @ K
    x, u = s.pos @ R.T, s.vel @ R.T
    return [("L", c) for c in x.T] + [("V", c) for c in u.T]


def sphere_coords(s, kw):
    x, y, z = s.pos.T
    r = s.r()
    return [("L", r), ("1", np.arctan2(y, x)), ("1", np.arccos(z / r)), ("V", component(s, "r", False)), ("V", component(s, "phi", False)),
            ("V", component(s, "theta", False))]


def cyl_coords(s, kw):
    x, y, z = s.pos.T
    return [("L", np.hypot(x, y)), ("1", np.arctan2(y, x)), ("L", z), ("V", component(s, "r", True)), ("V", component(s, "phi", True)), ("V", s.vel[:, 2])]


REF = dict((k, v) for k, v in list(globals().items()) if callable(v) and k in (
    "rho_prof m_prof sigv_prof v_prof v2_prof beta_prof vcirc_prof alpha_prof eta_prof meq_prof ckin mass_function tapered_mass_function eta_function meq_function "
    "relaxation_time half_mass_relaxation_time core_relaxation_time rcore energies closest_star rlagrange virial_radius rtidal rlimiting subset "
    "sphere_coords cyl_coords to_tail").split())
REF.update({"f:" + k: REF[k] for k in ("relaxation_time half_mass_relaxation_time core_relaxation_time rcore energies closest_star rlagrange virial_radius rtidal "
                                       "rlimiting mass_function tapered_mass_function eta_function meq_function").split()})
REF["f:to_tail"] = to_tail
REF.update({"f:find_centre": find_centre, "f:find_centre_of_density": find_centre, "f:find_centre_of_mass": find_centre_of_mass})
