"""Simulated simulation output on a private disk.

A Run writes, snapshot by snapshot, the files a simulation code would write, into a scratch directory of its own, and knows
exactly which stars, scale factors, times and orbit each snapshot has.  Readers open it through the library's loaders.
Canonical values are in pc, km/s, Msun, Myr; every value is chosen so that the file holds it exactly."""
import math
import os
import shutil
import struct
import tempfile

import numpy as np

from .core import HarnessError, Violation
from .model import Phys
from . import world as W

FORMATS = ("gyrfalcon", "new_gyrfalcon", "snapshot", "nbody6", "nbody6pp", "hdf5")
STREAM = ("gyrfalcon", "new_gyrfalcon", "nbody6")
TEXTUNITS = ("pckms", "kpckms", "pcmyr", "kpcgyr", "galpy", "nbody", "WDunits")
XV = ("x", "y", "z", "vx", "vy", "vz")


class Disk(object):
    """a scratch directory that disappears with the run"""

    def __init__(self):
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
        self.root = tempfile.mkdtemp(prefix="verifsim-", dir=base)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.root, ignore_errors=True)

    def path(self, *p):
        return os.path.join(self.root, *p)


def f32(v):
    return np.asarray(v, dtype=np.float32).astype(float)


def gen_run(rng, fmt=None, nsnap=None, orbit=True, nmax=9):
    fmt = fmt or rng.choice(FORMATS)
    r = dict(fmt=fmt, seed=rng.randrange(1 << 30), nsnap=nsnap or rng.randint(2, 6), nmax=nmax)
    text = fmt in ("gyrfalcon", "new_gyrfalcon", "snapshot")
    if text:
        r["units"] = rng.choice(TEXTUNITS)
        r["origin"] = rng.choice(["galaxy", "galaxy", "cluster", "centre", None])
        if fmt == "snapshot":
            r["origin"] = rng.choice(["galaxy", "cluster", "centre"])
        r["give"] = rng.choice(["mxv", "mxv", "mxvpqael", "mxve"]) if fmt != "snapshot" else "mxv"
    else:
        r["units"], r["origin"], r["give"] = "nbody", "cluster", "mxv"
    r["t0"] = rng.choice([0.0, float("%.4g" % rng.uniform(0, 50))])
    r["dt"] = float("%.4g" % rng.uniform(0.5, 20))
    r["ro"], r["vo"], r["zo"] = rng.choice([(8.275, 8.275 * 30.39 - 12.24, 0.0208), (8.0, 220.0, 0.025)]) if text else (8.275, 8.275 * 30.39 - 12.24, 0.0208)
    r["snapdir"] = rng.choice(["", "out"]) if fmt != "hdf5" else ""
    r["slash"] = rng.random() < 0.5
    r["filename"] = rng.choice(["run.dat", "cluster.nemo.dat"])
    r["snapbase"], r["snapend"], r["nzfill"] = rng.choice([("", ".dat", 5), ("snap_", ".txt", 4), ("s", ".dat", 1)])
    r["delimiter"] = rng.choice([None, ","])
    r["skiprows"] = rng.choice([0, 2])
    r["cols"] = rng.random() < 0.4          # permuted, named columns with ids and types
    r["head"] = rng.choice([13, 13, 13, 9]) if fmt in ("gyrfalcon", "new_gyrfalcon") else 13
    r["dtout"] = rng.choice([1, 1, 2, 10, 0.5])
    r["ev"] = rng.random() < 0.6             # evolution files
    r["reg"] = rng.random() < 0.4 and not r["ev"] and fmt == "nbody6"    # OUT33
    r["binaries"] = rng.random() < 0.6
    r["ngroups"] = rng.randint(1, 3)
    r["orbit"] = bool(orbit and rng.random() < 0.45)
    r["ounits"] = rng.choice([None, None, "kpckms", "pckms", "pcmyr", "kpcgyr", "galpy", "WDunits", "nbody"])
    r["otime"] = rng.random() < 0.3
    if r["origin"] is None:
        r["orbit"] = False
    r["bev14"] = fmt == "nbody6pp" and rng.random() < 0.25      # older nbody6++: no luminosities in bev.82
    return r


class Run(object):
    def __init__(self, spec, root):
        self.s = spec
        self.root = root
        self.fmt = spec["fmt"]
        self.cache = {}
        self.written = 0
        os.makedirs(os.path.join(root, spec["snapdir"]), exist_ok=True)

    # ------------------------------------------------------------------------------------ truth
    def n(self, k):
        r = np.random.Generator(np.random.PCG64([self.s["seed"], 7]))
        base = int(r.integers(4, self.s["nmax"] + 1))
        if self.fmt == "new_gyrfalcon":
            return base
        return max(3, base - int(r.integers(0, 2, size=k + 1).sum()))

    def _scale(self, k):
        s = self.s
        if s["fmt"] in ("nbody6", "nbody6pp", "hdf5"):
            kk = k - k % s["ngroups"] if s["fmt"] == "hdf5" else k
            r = np.random.Generator(np.random.PCG64([s["seed"], 11, kk]))
            v = f32([r.uniform(0.8, 4), r.uniform(50, 5000), r.uniform(0.5, 8), r.uniform(0.1, 2)])
            return dict(rbar=float(v[0]), zmbar=float(v[1]), vbar=float(v[2]), tbar=float(v[3]))
        return dict(rbar=1.0, zmbar=1.0, vbar=1.0, tbar=1.0)

    def time(self, k):
        """in file units"""
        if self.fmt in ("nbody6", "nbody6pp"):
            return float(f32(self.s["t0"] + k * self.s["dt"]))
        if self.fmt == "snapshot":
            return 0.0
        if self.fmt == "hdf5":
            return self.s["t0"] + k * self.s["dt"]
        return (self.s["t0"] + k * self.s["dt"]) * self.factors(self.s["units"], k)[3]

    def orbit(self, k):
        """galactocentric orbit at snapshot k, pc and km/s"""
        a = (self.s["seed"] % 628) / 100.0 + 0.05 * k
        R = 6000.0 + 4000.0 * ((self.s["seed"] // 700) % 2) + 20.0 * k
        return np.array([R * math.cos(a), R * math.sin(a), 300.0 + 3.0 * k, -180 * math.sin(a) + k, 180 * math.cos(a), 10.0 + k])

    def factors(self, units, k):
        s = self.s
        p = Phys(np.zeros((1, 3)), np.zeros((1, 3)), np.ones(1), np.zeros(6), np.zeros(6), 0.0, s["ro"], s["vo"], s["zo"],
                 None, self._scale(k), [0])
        return p.factors(units)

    def truth(self, k):
        if k in self.cache:
            return self.cache[k]
        s = self.s
        r = np.random.Generator(np.random.PCG64([s["seed"], 3, k]))
        n = self.n(k)
        d = dict(n=n, time=self.time(k), scale=self._scale(k))
        L, V, M, T = self.factors(s["units"], k)
        if self.fmt == "hdf5":
            L = V = M = 1.0
        rel = np.column_stack([r.normal(0, 2.0, (n, 3)) * L, r.normal(0, 1.5, (n, 3)) * V])
        if s["origin"] == "galaxy":
            rel += self.orbit(k) * np.array([L] * 3 + [V] * 3)
        m = r.uniform(0.1, 2.0, n) * M
        if self.fmt in ("nbody6", "nbody6pp"):
            rel, m = f32(rel), f32(m)
        d["xv"], d["m"] = rel, m
        ids = np.arange(1, n + 1)
        if self.fmt in ("nbody6", "nbody6pp", "hdf5") or (self.fmt == "snapshot" and s["cols"]):
            ids = r.permutation(np.arange(1, 3 * n + 1))[:n]
        elif self.fmt != "gyrfalcon":
            ids = np.arange(n)
        d["id"] = ids
        d["extra"] = r.uniform(0.01, 3.0, (n, 5))
        d["extra"][:, 4] = np.floor(d["extra"][:, 4] * 3)
        d["kw"] = r.integers(0, 15, n)
        d["al"] = f32(r.uniform(0.05, 3.0, 30))
        sc = d["scale"]
        al = d["al"]
        al[0], al[2], al[3], al[10], al[11] = d["time"], sc["rbar"], sc["zmbar"], sc["tbar"], sc["vbar"]
        al[6:9] = f32(r.normal(0, 0.3, 3))
        nb = 0
        if s["binaries"] and self.fmt in ("nbody6", "nbody6pp", "hdf5"):
            nb = int(r.integers(0, 3))
            if self.fmt == "nbody6" and not s["ev"]:
                nb = 0
            nb = min(nb, (n - 1) // 2)
        d["nb"] = nb
        al[1] = float(nb)
        d["ev"] = dict(logl=r.uniform(-3, 3, n), logr=r.uniform(-2, 2, n), te=r.uniform(3, 4, n), rho=f32(r.uniform(0, 2, n)),
                       xns=f32(r.uniform(0, 2, n)), phi=f32(-r.uniform(0.5, 9, n)))
        d["bin"] = dict(kw1=r.integers(0, 15, nb), kw2=r.integers(0, 15, nb), kwb=r.integers(0, 3, nb), ri=r.uniform(0, 2, nb),
                        ecc=r.uniform(0, 1, nb), logpb=r.uniform(-1, 5, nb), logsemi=r.uniform(-1, 4, nb),
                        m1=r.uniform(0.1, 3, nb), m2=r.uniform(0.1, 3, nb), zl1=r.uniform(-3, 3, nb), zl2=r.uniform(-3, 3, nb),
                        r1=r.uniform(-2, 2, nb), r2=r.uniform(-2, 2, nb), te1=r.uniform(3, 4, nb), te2=r.uniform(3, 4, nb))
        # OUT33
        nr = int(r.integers(0, 4))
        d["reg"] = dict(n=nr, xv=f32(r.normal(0, 1.0, (nr, 6))), m=f32(r.uniform(0.1, 2, nr)), id=1000 + np.arange(nr),
                        al=f32(np.append(r.uniform(-9, 9, 6), r.uniform(0, 1, 4))))
        self.cache[k] = d
        return d

    # ------------------------------------------------------------------------------------ writing
    def _dir(self, d=None):
        return os.path.join(self.root if d is None else d, self.s["snapdir"])

    def files(self, k=None, d=None):
        """paths snapshot k is in (main file first)"""
        b = self._dir(d)
        s = self.s
        if self.fmt in ("gyrfalcon", "new_gyrfalcon"):
            return [os.path.join(b, s["filename"])]
        if self.fmt == "snapshot":
            return [os.path.join(b, "%s%s%s" % (s["snapbase"], str(k).zfill(s["nzfill"]), s["snapend"]))]
        if self.fmt == "nbody6":
            out = [os.path.join(b, "OUT3")]
            if s["reg"]:
                out.append(os.path.join(b, "OUT33"))
            if s["ev"]:
                out += [os.path.join(b, "fort.82"), os.path.join(b, "fort.83")]
            return out
        if self.fmt == "nbody6pp":
            t = self.step(k)
            return [os.path.join(b, "conf.3_%s" % t)] + ([os.path.join(b, "bev.82_%s" % t), os.path.join(b, "sev.83_%s" % t)] if s["ev"] else [])
        t = self.step(k)
        return [os.path.join(b, "snap.40_%s.h5part" % t), os.path.join(b, "conf.3_%s" % t)]

    def step(self, k):
        s = self.s
        if self.fmt == "hdf5":
            k = k // s["ngroups"]
        return str(k * s["dtout"] if not isinstance(s["dtout"], float) else float(k * s["dtout"]))

    def content(self, k):
        """[(path index, bytes)] appended to (streams) or making up (numbered files) the files of snapshot k"""
        s, t = self.s, self.truth(k)
        n = t["n"]
        if self.fmt in ("gyrfalcon", "new_gyrfalcon"):
            lines = ["# snapshot %d" % k, "# Ntot: %d, Nbody: %d" % (n, n), "# time: %r" % t["time"]]
            while len(lines) < s["head"]:
                lines.append("# line %d of the header" % len(lines))
            for i in range(n):
                row = [t["m"][i]] + list(t["xv"][i])
                if s["give"] == "mxvpqael":
                    row += list(t["extra"][i])
                elif s["give"] == "mxve":
                    row += [t["extra"][i][3]]
                lines.append(" ".join(repr(float(v)) for v in row))
            return [(0, ("\n".join(lines) + "\n").encode())]
        if self.fmt == "snapshot":
            sep = "," if s["delimiter"] else " "
            lines = [["# header %d of %d" % (i, k), sep.join(["0"] * (9 if s["cols"] else 7)), "stars of step %d" % k][(s["seed"] + i) % 3]
                     for i in range(s["skiprows"])]
            for i in range(n):
                row = [repr(float(v)) for v in [t["m"][i]] + list(t["xv"][i])]
                if s["cols"]:
                    row = [str(int(t["id"][i])), str(int(t["kw"][i]))] + row[1:] + [row[0]]
                lines.append(sep.join(row))
            return [(0, ("\n".join(lines) + "\n").encode())]
        al = t["al"]
        if self.fmt == "nbody6":
            b = struct.pack("<6i", 16, n, 1, 1, len(al), 16)
            body = struct.pack("<%df" % len(al), *al) + struct.pack("<%df" % n, *t["m"])
            body += struct.pack("<%df" % (3 * n), *t["xv"][:, :3].ravel()) + struct.pack("<%df" % (3 * n), *t["xv"][:, 3:].ravel())
            body += struct.pack("<%di" % n, *[int(i) for i in t["id"]])
            out = [(0, b + struct.pack("<i", len(body)) + body + struct.pack("<i", len(body)))]
            if s["reg"]:
                g = t["reg"]
                b = struct.pack("<5i", 12, g["n"], 1, len(g["al"]), 12)
                if g["n"]:
                    body = struct.pack("<%df" % len(g["al"]), *g["al"]) + struct.pack("<%df" % g["n"], *g["m"])
                    body += struct.pack("<%df" % (3 * g["n"]), *g["xv"][:, :3].ravel())
                    body += struct.pack("<%df" % (3 * g["n"]), *g["xv"][:, 3:].ravel())
                    body += struct.pack("<%di" % g["n"], *[int(i) for i in g["id"]])
                    b += struct.pack("<i", len(body)) + body + struct.pack("<i", len(body))
                out.append((1, b))
            if s["ev"]:
                nb, e, bb = t["nb"], t["ev"], t["bin"]
                l82 = ["## BEGIN %d %r" % (nb, t["time"])]
                for i in range(nb):
                    l82.append(" ".join([str(int(t["id"][i])), str(int(t["id"][i]) + 1), str(bb["kw1"][i]), str(bb["kw2"][i]), str(bb["kwb"][i])]
                                        + [repr(float(bb[q][i])) for q in ("ri", "ecc", "logpb", "logsemi", "m1", "m2", "zl1", "zl2", "r1", "r2", "te1", "te2")]))
                l82.append("## END")
                l83 = ["## BEGIN %d %r" % (n - nb, t["time"])]
                for i in range(nb, n):
                    l83.append(" ".join([str(int(t["id"][i])), str(int(t["kw"][i])), "0.5", repr(float(t["m"][i])), repr(float(e["logl"][i])),
                                         repr(float(e["logr"][i])), repr(float(e["te"][i]))]))
                l83.append("## END")
                j = len(out)
                out += [(j, ("\n".join(l82) + "\n").encode()), (j + 1, ("\n".join(l83) + "\n").encode())]
            return out
        if self.fmt == "nbody6pp":
            nb, e, bb = t["nb"], t["ev"], t["bin"]
            out = [(0, self.conf3(t))]
            if s["ev"]:
                l82 = ["%d %r" % (nb, t["time"])]
                for i in range(nb):
                    a, b = 2 * i, 2 * i + 1
                    l82.append(" ".join([repr(t["time"]), str(a + 1), str(b + 1), str(int(t["id"][a])), str(int(t["id"][b])), str(bb["kw1"][i]),
                                         str(bb["kw2"][i]), str(bb["kwb"][i])] + [repr(float(bb[q][i])) for q in (
                                             "ri", "ecc", "logpb", "logsemi", "m1", "m2", "zl1", "zl2", "r1", "r2", "te1", "te2")[:6 if s.get("bev14") else 12]]))
                l83 = ["%d %r" % (n - 2 * nb, t["time"])]
                for i in range(2 * nb, n):
                    l83.append(" ".join([repr(t["time"]), str(i + 1), str(int(t["id"][i])), str(int(t["kw"][i])), "0.5", repr(float(t["m"][i])),
                                         repr(float(e["logl"][i])), repr(float(e["logr"][i])), repr(float(e["te"][i]))]))
                out += [(1, ("\n".join(l82) + "\n").encode()), (2, ("\n".join(l83) + "\n").encode())]
            return out
        raise HarnessError(self.fmt)

    def conf3(self, t):
        al, n, e = t["al"], t["n"], t["ev"]
        b = struct.pack("<6i", 16, n, 1, 1, len(al), 16)
        body = struct.pack("<%df" % len(al), *al) + b"".join(struct.pack("<%df" % n, *a) for a in (t["m"], e["rho"], e["xns"]))
        body += struct.pack("<%df" % (3 * n), *t["xv"][:, :3].ravel()) + struct.pack("<%df" % (3 * n), *t["xv"][:, 3:].ravel())
        body += struct.pack("<%df" % n, *e["phi"]) + struct.pack("<%di" % n, *[int(i) for i in t["id"]])
        return b + struct.pack("<i", len(body)) + body + struct.pack("<i", len(body))

    def h5(self, k0, path):
        import h5py
        with h5py.File(path, "w") as f:
            for g in range(self.s["ngroups"]):
                t = self.truth(k0 + g)
                nb, n, e, bb = t["nb"], t["n"], t["ev"], t["bin"]
                G = f.create_group("Step#%d" % g)
                G.attrs["N_SINGLE"] = n - nb
                G.attrs["Time"] = t["time"]
                sl = slice(nb, n)
                G["NAM"] = t["id"][sl].astype(int)
                for i in range(3):
                    G["X%d" % (i + 1)] = t["xv"][sl, i]
                    G["V%d" % (i + 1)] = t["xv"][sl, 3 + i]
                G["M"], G["KW"], G["L"] = t["m"][sl], t["kw"][sl], 10.0 ** e["logl"][sl]
                G["RC"], G["RS"], G["TE"], G["POT"] = e["xns"][sl], e["logr"][sl], e["te"][sl], e["phi"][sl]
                if nb:
                    B = G.create_group("Binaries")
                    b = slice(0, nb)
                    B["A"], B["ECC"], B["G"] = 10.0 ** bb["logsemi"], bb["ecc"], bb["ri"]
                    B["KW1"], B["KW2"], B["KWC"] = bb["kw1"], bb["kw2"], bb["kwb"]
                    B["L1"], B["L2"] = 10.0 ** bb["zl1"], 10.0 ** bb["zl2"]
                    B["M1"], B["M2"], B["MC1"], B["MC2"] = bb["m1"], bb["m2"], bb["m1"] / 2, bb["m2"] / 2
                    B["NAM1"], B["NAM2"], B["NAMC"] = t["id"][b].astype(int), t["id"][b].astype(int) + 1, t["id"][b].astype(int) + 5000
                    B["P"], B["POT"] = 10.0 ** bb["logpb"], e["phi"][b]
                    B["RC1"], B["RC2"], B["RS1"], B["RS2"] = bb["r1"] / 2, bb["r2"] / 2, bb["r1"], bb["r2"]
                    B["TE1"], B["TE2"] = bb["te1"], bb["te2"]
                    for i in range(3):
                        B["XC%d" % (i + 1)] = t["xv"][b, i]
                        B["VC%d" % (i + 1)] = t["xv"][b, 3 + i]
                        B["XR%d" % (i + 1)] = t["xv"][b, i] * 1e-3
                        B["VR%d" % (i + 1)] = t["xv"][b, 3 + i] * 2.0

    def orow(self, k):
        g = self.orbit(k)
        L, V, M, T = self.factors(self.s["ounits"] or self.s["units"], k)
        tt = self.otime(k) * T
        return " ".join(repr(float(v)) for v in [tt] + list(g[:3] * L) + list(g[3:] * V)) + "\n"

    def otime(self, k):
        """time of the orbit file's entry, Myr"""
        return 1000.0 + 10.0 * k

    def write(self, d=None):
        """the simulation writes its next snapshot (to a restart directory when d is given)"""
        k = self.written
        if k >= self.s["nsnap"]:
            return False
        base = self.root if d is None else d
        os.makedirs(self._dir(d), exist_ok=True)
        if self.fmt == "hdf5":
            if k % self.s["ngroups"] == 0:
                fl = self.files(k, d)
                self.h5(k, fl[0])
                with open(fl[1], "wb") as f:
                    t = self.truth(k)
                    f.write(self.conf3(t))
                k = k + self.s["ngroups"] - 1
            rows = range(self.written, k + 1)
        else:
            fl = self.files(k, d)
            for i, data in self.content(k):
                with open(fl[i], "ab" if self.fmt in STREAM else "wb") as f:
                    f.write(data)
            rows = [k]
        if self.s["orbit"]:
            with open(os.path.join(base, "orbit.dat"), "a") as f:
                for q in rows:
                    f.write(self.orow(q))
        self.written = k + 1
        return True

    def total(self):
        s = self.s
        return s["nsnap"] if self.fmt != "hdf5" else -(-s["nsnap"] // s["ngroups"]) * s["ngroups"]

    # ------------------------------------------------------------------------------------ reading
    def _wdir(self):
        return self.root + ("/" if self.s["slash"] else "")

    def perkw(self):
        """keywords the library asks for on every call"""
        s = self.s
        kw = {}
        if self.fmt == "snapshot" and s["cols"]:
            kw["col_names"] = ["id", "kw", "x", "y", "z", "vx", "vy", "vz", "m"]
            kw["col_nums"] = list(range(9))
        if self.fmt in ("nbody6pp", "hdf5"):
            kw["dtout"] = s["dtout"]
        if s["orbit"]:
            kw["ounits"] = s["ounits"]
            if s["otime"]:
                kw["otime"] = True
        return kw

    def loadkw(self, k0=0, opt=None):
        s = self.s
        kw = dict(ctype={"nbody6pp": "nbody6pp", "hdf5": "nbody6++"}.get(self.fmt, self.fmt), wdir=self._wdir(), verbose=False)
        if s["snapdir"]:
            kw["snapdir"] = s["snapdir"] + ("/" if s["slash"] else "")
        if self.fmt in ("gyrfalcon", "new_gyrfalcon"):
            kw.update(units=s["units"], origin=s["origin"], filename=s["filename"], give=s["give"])
            if s["head"] != 13:
                kw["skiprows"] = s["head"]
        if self.fmt == "snapshot":
            kw.update(units=s["units"], origin=s["origin"], snapbase=s["snapbase"], snapend=s["snapend"], nzfill=s["nzfill"],
                      delimiter=s["delimiter"], skiprows=s["skiprows"], nsnap=k0)
        if self.fmt in ("gyrfalcon", "new_gyrfalcon", "snapshot"):
            kw.update(ro=s["ro"], vo=s["vo"], zo=s["zo"])
        if self.fmt == "nbody6pp":
            kw["nsnap"] = k0 * s["dtout"]
        if self.fmt == "hdf5":
            kw["nsnap"] = (k0 // s["ngroups"]) * s["dtout"]
            kw["hdf5"] = True
        if s["orbit"]:
            kw["ofilename"] = "orbit.dat"
        kw.update(self.perkw())
        kw.update(opt or {})
        return kw

    def first(self, k0):
        """the snapshot a reader asked for k0 starts with"""
        if self.fmt in STREAM:
            return 0
        if self.fmt == "hdf5":
            return k0 - k0 % self.s["ngroups"]
        return k0

    # ------------------------------------------------------------------------------------ oracle
    def check(self, cl, k, where, orow=None, opt=None):
        """cl, as the loader returned it, is snapshot k of this run"""
        import clustertools as ct
        s, t = self.s, self.truth(k)
        opt = opt or {}

        def bad(what, msg):
            raise Violation("wrong:%s:%s" % (self.fmt, what), "%s: snapshot %d of a %s run: %s" % (where, k, self.fmt, msg))

        def same(what, got, want, rtol=1e-9, atol=0.0):
            got = np.atleast_1d(W.num(got))
            want = np.atleast_1d(np.asarray(want, dtype=float))
            if got.shape != want.shape or not W.close(got, want, rtol, atol):
                bad(what, "%s %s (%s)" % (what, W.worst(got, want), self.whose(got, what)))
        if cl.units != s["units"] or cl.origin != s["origin"]:
            bad("frame", "labelled (%r, %r), opened as (%r, %r)" % (cl.units, cl.origin, s["units"], s["origin"]))
        sc = t["scale"]
        L, V, M, T = self.factors(s["units"], k)
        # ---- which stars
        nb = t["nb"]
        xv, m, ids = t["xv"], t["m"], t["id"]
        if self.fmt == "nbody6pp" and nb:
            a, b = np.arange(0, 2 * nb, 2), np.arange(1, 2 * nb, 2)
            mc = m[a] + m[b]
            com = (xv[a] * m[a][:, None] + xv[b] * m[b][:, None]) / mc[:, None]
            xv = np.vstack([com, xv[2 * nb:]])
            m = np.append(mc, m[2 * nb:])
            ids = np.append(ids[a], ids[2 * nb:])
        if self.fmt == "hdf5":
            m = np.append(t["bin"]["m1"] + t["bin"]["m2"], m[nb:]) / sc["zmbar"]
            xv = xv / np.array([sc["rbar"]] * 3 + [sc["vbar"]] * 3)
        nreg = 0
        if self.fmt == "nbody6" and s["reg"] and t["reg"]["n"]:
            g = t["reg"]
            nreg = g["n"]
            xv, m, ids = np.vstack([g["xv"], xv]), np.append(g["m"], m), np.append(g["id"], ids)
        n = len(m)
        if cl.ntot != n or len(cl.x) != n:
            bad("ntot", "ntot %r, %d stars, the snapshot has %d (%s)" % (cl.ntot, len(cl.x), n, self.whose(cl.x, "x")))
        if self.fmt == "snapshot" and not s["cols"]:
            if len(set(int(i) for i in cl.id)) != n:
                bad("id", "ids are not distinct")
        else:
            same("id", cl.id, ids)
        same("m", cl.m, m, 1e-9)
        off = np.zeros(6)
        if s["origin"] == "centre" and self.fmt in ("gyrfalcon", "new_gyrfalcon") and opt.get("analyze", True):
            off = np.array([float(W.num(getattr(cl, q + "c"))) for q in XV])
        for i, q in enumerate(XV):
            scale = np.max(np.abs(xv[:, i])) + (1.0 if self.fmt != "snapshot" else 0) * (L if i < 3 else V)
            same(q, W.num(getattr(cl, q)) + off[i], xv[:, i], 1e-9, 1e-10 * scale)
        # ---- time
        if s["orbit"] and s["otime"] and orow is not None:
            same("tphys", cl.tphys, self.otime(orow) * T, 1e-9)
        elif self.fmt == "new_gyrfalcon":
            same("tphys", cl.tphys, t["time"], 1e-9, 1e-9)
        elif self.fmt != "snapshot":
            same("tphys", cl.tphys, t["time"], 1e-9)
        # ---- its number
        num = k * s["dtout"] if self.fmt == "nbody6pp" else (k // s["ngroups"]) * s["dtout"] if self.fmt == "hdf5" else k
        same("nsnap", cl.nsnap, num - opt.get("part", 0), 1e-12)
        # ---- frame data of the snapshot
        if self.fmt in ("nbody6", "nbody6pp", "hdf5"):
            for q in ("rbar", "zmbar", "vbar", "tbar"):
                same(q, getattr(cl, q), sc[q], 1e-12)
            if self.fmt != "hdf5" or k % s["ngroups"] == 0:
                al = t["al"] if self.fmt != "hdf5" else self.truth(k)["al"]
                for q, j in (("nc", 13), ("rtide", 4), ("rscale", 17)):
                    same(q, getattr(cl, q), al[j], 1e-12)
                for q, j in (("xc", 6), ("yc", 7), ("zc", 8)) if not opt.get("galpy") else ():
                    same(q, getattr(cl, q), al[j], 1e-9)
            phi = t["ev"]["phi"]
            if self.fmt == "nbody6pp":
                # the potentials the file lists, of a binary the sum over its components; kinetic energies of the stars as listed
                if nb:
                    phi = np.append(phi[0:2 * nb:2] + phi[1:2 * nb:2], phi[2 * nb:])
                same("kin", cl.kin, 0.5 * m * np.sum(xv[:, 3:] ** 2, axis=1), 1e-9)
                same("etot", cl.etot, 0.5 * m * np.sum(xv[:, 3:] ** 2, axis=1) + phi, 1e-9, 1e-9 * np.max(np.abs(phi)))
            if self.fmt in ("nbody6pp", "hdf5"):
                same("pot", cl.pot, phi)
            if self.fmt in ("nbody6pp", "hdf5") and (cl.nb != nb or cl.ns != n - nb):
                bad("nb", "nb %r ns %r, the snapshot has %d binaries and %d stars" % (cl.nb, cl.ns, nb, n - nb))
        if self.fmt in ("gyrfalcon", "new_gyrfalcon"):
            if s["give"] == "mxvpqael":
                for j, q in enumerate(("gyrpot", "gyrq", "gyracc", "eps", "gyrlev")):
                    same(q, getattr(cl, q), t["extra"][:, j])
            elif s["give"] == "mxve":
                same("eps", cl.eps, t["extra"][:, 3])
        if self.fmt == "snapshot" and s["cols"]:
            same("kw", cl.kw, t["kw"])
        # ---- evolution data
        e, bb = t["ev"], t["bin"]
        if self.fmt == "nbody6" and s["ev"]:
            lb = np.log10(10.0 ** bb["zl1"] + 10.0 ** bb["zl2"])
            same("kw", cl.kw, np.append(bb["kwb"], t["kw"][nb:]))
            same("logl", cl.logl, np.append(lb, e["logl"][nb:]))
            same("logr", cl.logr, np.append(np.maximum(bb["r1"], bb["r2"]), e["logr"][nb:]))
        if self.fmt == "nbody6pp" and s["ev"]:
            same("kw", cl.kw, np.append(np.maximum(bb["kw1"], bb["kw2"]), t["kw"][2 * nb:]))
            same("logl", cl.logl[nb:], e["logl"][2 * nb:])
            same("logr", cl.logr[nb:], e["logr"][2 * nb:])
        if self.fmt == "hdf5":
            lb = np.log10(10.0 ** bb["zl1"] + 10.0 ** bb["zl2"])
            same("kw", cl.kw, np.append(bb["kw1"], t["kw"][nb:]))
            same("logl", cl.logl, np.append(lb, e["logl"][nb:]))
        if nb and (self.fmt == "hdf5" or s["ev"]):
            same("id1", cl.id1, {"nbody6": t["id"][:nb], "nbody6pp": t["id"][0:2 * nb:2], "hdf5": t["id"][:nb]}[self.fmt])
            for q in ("kw1", "kw2", "ecc"):
                same(q, getattr(cl, q), bb[q])
            if cl.bunits not in ("nbody", "audays", "sudays"):
                bad("bunits", "bunits %r" % (cl.bunits,))
            fu = W.bin_factors(sc)
            f = fu[cl.bunits]
            src = fu["audays"] if self.fmt == "hdf5" else fu["sudays"]
            if self.fmt == "hdf5":
                # the two components lie either side of their centre of mass, as far apart as the file says
                w1 = bb["m1"] / (bb["m1"] + bb["m2"])
                for i, q in enumerate(XV):
                    rel = t["xv"][:nb, i] * (1e-3 if i < 3 else 2.0)
                    same(q + "b1", getattr(cl, q + "b1"), (1.0 - w1) * rel)
                    same(q + "b2", getattr(cl, q + "b2"), -w1 * rel)
            # the files hold au (hdf5) or solar radii, days and solar masses
            same("semi", cl.semi, 10.0 ** bb["logsemi"] / src[0] * f[0])
            same("pb", cl.pb, 10.0 ** bb["logpb"] / src[1] * f[1])
            same("m1", cl.m1, bb["m1"] / sc["zmbar"] * f[2])
            same("m2", cl.m2, bb["m2"] / sc["zmbar"] * f[2])
        elif self.fmt in ("nbody6", "nbody6pp", "hdf5") and len(np.atleast_1d(cl.semi)):
            bad("semi", "%d binaries, the snapshot has none" % len(cl.semi))
        # ---- orbit of the snapshot
        if s["orbit"] and orow is not None:
            g = self.orbit(orow)
            for i, q in enumerate(XV):
                same(q + "gc", getattr(cl, q + "gc"), g[i] * (L if i < 3 else V), 1e-9, 1e-9 * np.max(np.abs(g[:3] if i < 3 else g[3:])) * (L if i < 3 else V))
        elif self.fmt == "nbody6" and nreg and not opt.get("galpy"):
            for i, q in enumerate(XV):
                same(q + "gc", getattr(cl, q + "gc"), t["reg"]["al"][i])

    def whose(self, got, what):
        """which snapshot the data belong to, for the report"""
        got = np.asarray(got, dtype=float)
        for j in range(self.total()):
            t = self.truth(j)
            cand = {"m": t["m"], "x": t["xv"][:, 0], "id": t["id"]}.get(what)
            if cand is not None and len(cand) and len(got) and np.isclose(cand[-1], got[-1], rtol=1e-6):
                return "the data of snapshot %d" % j
        return "no other snapshot's data"

    def check_empty(self, cl, where):
        if cl == 0 or cl.ntot != 0 or len(cl.x) or len(cl.m) or len(cl.id):
            raise Violation("stale:%s" % self.fmt, "%s: past the last snapshot %s stars are returned (%s)" % (
                where, getattr(cl, "ntot", None), self.whose(getattr(cl, "x", []), "x")))
