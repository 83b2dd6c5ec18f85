"""Reference model of a physical cluster, in canonical units (pc, km/s, Msun, Myr; positions relative to the
cluster's orbit).  `expect(units, origin, method)` predicts what every public array must contain."""
import numpy as np

CONV = 1.022712165045695
MCON = 222288.4543021174
CART = ("pckms", "kpckms", "pcmyr", "kpcgyr", "nbody", "galpy", "WDunits")
SKYKEYS = ("ra", "dec", "dist", "pmra", "pmdec", "vlos")
XK = ("x", "y", "z")
VK = ("vx", "vy", "vz")
BIN = ("semi", "pb", "m1", "m2")


def _galpy():
    from galpy.orbit import Orbit
    from galpy.util import conversion, coords
    return Orbit, conversion, coords


class Phys(object):
    def __init__(self, rel, vel, m, c, g, tphys, ro, vo, zo, solarmotion, scale, ids, binary=None):
        self.rel = np.array(rel, dtype=float)      # (N,3) pc, relative to the orbit
        self.vel = np.array(vel, dtype=float)
        self.m = np.array(m, dtype=float)
        self.c = np.array(c, dtype=float)          # (6,) pc, km/s relative to the orbit
        self.g = np.array(g, dtype=float)          # (6,) pc, km/s
        self.tphys = float(tphys)
        self.ro, self.vo, self.zo, self.solarmotion = ro, vo, zo, solarmotion
        self.scale = dict(scale)                   # rbar zmbar vbar tbar
        self.ids = np.array(ids)
        self.binary = binary                       # dict semi[pc], pb[Myr-ish days], m1, m2 in N-body units
        self.skylevel = 0
        self._skycache = None

    @property
    def n(self):
        return len(self.m)

    def factors(self, units):
        Orbit, conversion, coords = _galpy()
        s = self.scale
        if units in ("pckms", "amuse"):
            return 1.0, 1.0, 1.0, 1.0
        if units == "kpckms":
            return 1e-3, 1.0, 1.0, 1e-3
        if units == "pcmyr":
            return 1.0, CONV, 1.0, 1.0
        if units == "kpcgyr":
            return 1e-3, CONV, 1.0, 1e-3
        if units == "nbody":
            return 1.0 / s["rbar"], 1.0 / s["vbar"], 1.0 / s["zmbar"], 1.0 / s["tbar"]
        if units == "galpy":
            return (1e-3 / self.ro, 1.0 / self.vo, 1.0 / conversion.mass_in_msol(ro=self.ro, vo=self.vo),
                    1e-3 / conversion.time_in_Gyr(ro=self.ro, vo=self.vo))
        if units == "WDunits":
            vcon = self.vo / conversion.velocity_in_kpcGyr(vo=self.vo, ro=self.ro)
            return 1e-3, 1.0 / vcon, 1.0 / MCON, 1e-3
        if units == "radec":
            return np.nan, np.nan, 1.0, 1e-3
        raise ValueError(units)

    def _sky(self, pos, vel):
        """sky coordinates of galactocentric points: pos (n,3) pc, vel (n,3) km/s -> (6,n)"""
        Orbit, conversion, coords = _galpy()
        pos = np.atleast_2d(pos) / 1000.0
        vel = np.atleast_2d(vel)
        R, phi, z = coords.rect_to_cyl(pos[:, 0], pos[:, 1], pos[:, 2])
        vR, vT, vz = coords.rect_to_cyl_vec(vel[:, 0], vel[:, 1], vel[:, 2], pos[:, 0], pos[:, 1], pos[:, 2])
        vxvv = np.column_stack([R / self.ro, vR / self.vo, vT / self.vo, z / self.ro, vz / self.vo, phi])
        o = Orbit(vxvv, ro=self.ro, vo=self.vo, zo=self.zo, solarmotion=self.solarmotion)
        return np.array([o.ra(), o.dec(), o.dist(), o.pmra(), o.pmdec(), o.vlos()], dtype=float).reshape(6, -1)

    def sky(self):
        if self._skycache is None:
            stars = self._sky(self.rel + self.g[:3], self.vel + self.g[3:])
            gc = self._sky(self.g[:3], self.g[3:])[:, 0]
            cc = self._sky(self.g[:3] + self.c[:3], self.g[3:] + self.c[3:])[:, 0]
            self._skycache = (stars, gc, cc)
        return self._skycache

    def touch(self):
        self._skycache = None

    def expect(self, units, origin, method=None):
        """dict of expected public attributes, or raises KeyError for an illegal frame"""
        out = {}
        L, V, M, T = self.factors(units)
        out["m"] = self.m * M
        out["tphys"] = self.tphys * T
        if units in CART or units == "amuse":
            if origin == "cluster":
                p, v = self.rel, self.vel
            elif origin == "centre":
                p, v = self.rel - self.c[:3], self.vel - self.c[3:]
            elif origin == "galaxy":
                p, v = self.rel + self.g[:3], self.vel + self.g[3:]
            else:
                raise KeyError((units, origin))
            for i in range(3):
                out[XK[i]] = p[:, i] * L
                out[VK[i]] = v[:, i] * V
                out[XK[i] + "c"] = self.c[i] * L
                out[VK[i] + "c"] = self.c[3 + i] * V
                out[XK[i] + "gc"] = self.g[i] * L
                out[VK[i] + "gc"] = self.g[3 + i] * V
            return out
        if units != "radec":
            raise KeyError(units)
        st, gc, cc = self.sky()
        for i, k in enumerate(XK + VK):
            out[k + "gc"] = gc[i]
            out[k + "c"] = cc[i]
        for i, k in enumerate(SKYKEYS):
            out[k] = st[i]
        if origin == "sky":
            for i, k in enumerate(XK + VK):
                out[k] = st[i]
        elif origin in ("cluster", "centre"):
            ref = gc if origin == "cluster" else cc
            ra, dec = np.radians(st[0]), np.radians(st[1])
            ra0, dec0 = np.radians(ref[0]), np.radians(ref[1])
            if method in ("orthographic", "VandeVen"):
                out["x"] = np.degrees(np.cos(dec) * np.sin(ra - ra0))
                out["y"] = np.degrees(np.sin(dec) * np.cos(dec0) - np.cos(dec) * np.sin(dec0) * np.cos(ra - ra0))
            else:
                out["x"] = (st[0] - ref[0]) * np.cos(dec0)
                out["y"] = st[1] - ref[1]
            out["z"] = st[2] - ref[2]
            out["vz"] = st[5] - ref[5]
            if method != "orthographic":
                out["vx"] = st[3] - ref[3]
                out["vy"] = st[4] - ref[4]
            else:
                out["vx"] = (st[3] * np.cos(ra - ra0) - st[4] * np.sin(dec) * np.sin(ra - ra0)) - ref[3]
                out["vy"] = (st[3] * np.sin(dec0) * np.sin(ra - ra0) + st[4] * (
                    np.cos(dec) * np.cos(dec0) + np.sin(dec) * np.sin(dec0) * np.cos(ra - ra0))) - ref[4]
        else:
            raise KeyError((units, origin))
        return out

    def tol(self, units, origin, key):
        """absolute tolerance for attribute `key`, from the magnitudes that passed through the arithmetic"""
        L, V, M, T = self.factors(units)
        lvl = 1e-12 if not self.skylevel else 3e-9
        gp = max(np.max(np.abs(self.g[:3])), np.max(np.abs(self.rel)) if self.n else 0.0,
                 np.max(np.abs(self.c[:3])), 1e-3)
        gv = max(np.max(np.abs(self.g[3:])), np.max(np.abs(self.vel)) if self.n else 0.0, 1.0,
                 200.0 if self.skylevel else 0.0)
        if units == "radec":
            st, gc, cc = self.sky()
            d = max(1e-3, float(np.min(st[2])) if st.size else 1.0, 0) if False else float(
                min(np.min(st[2]) if st.size else gc[2], gc[2], cc[2]))
            ang = np.degrees(gp / 1000.0 / d)
            if key in ("x", "xc", "xgc", "ra"):
                cosd = max(0.05, float(np.min(np.abs(np.cos(np.radians(np.append(st[1], gc[1])))))))
                return 1e-9 + 3e-9 * (ang + 360.0) / cosd * 0.1
            if key in ("y", "yc", "ygc", "dec"):
                return 1e-9 + 3e-9 * (ang + 90.0) * 0.1
            if key in ("z", "zc", "zgc", "dist"):
                return 3e-9 * gp / 1000.0 + 1e-10
            if key in ("vz", "vzc", "vzgc", "vlos"):
                return 3e-9 * gv + 1e-8
            # proper motions, mas/yr: v/(4.74 d)
            return (3e-8 * (gv / (4.74 * d) + 1.0))
        if key in XK or key in ("xc", "yc", "zc", "xgc", "ygc", "zgc"):
            return lvl * gp * L * 10
        return lvl * gv * V * 10


def num(v, key=None):
    """plain numbers of a public attribute (amuse quantities are read in pc, km/s, Msun, Myr)"""
    if v is None:
        return None
    if hasattr(v, "value_in"):
        import amuse.units.units as u
        for un in (u.parsec, u.kms, u.MSun, u.Myr, u.kms * u.kms, u.MSun / u.parsec ** 3, u.MSun / u.parsec ** 2, u.MSun * u.kms * u.kms):
            try:
                return np.asarray(v.value_in(un), dtype=float)
            except Exception:
                continue
        raise ValueError("unknown unit %r" % (v.unit,))
    a = np.asarray(v)
    if a.dtype == object and a.size and hasattr(a.flat[0], "value_in"):
        return np.array([float(num(q)) for q in a.flat], dtype=float).reshape(a.shape)
    return np.asarray(v, dtype=float)
