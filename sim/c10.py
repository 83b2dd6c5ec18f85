"""C10: written output reads back as the same cluster, and failed writes are reported.

Seeded histories of frame changes and writes on a simulated disk that runs full, fails or writes short.  Every file is compared
with the model cluster and read back through the library; after every failure the cluster must be as it was, and a retry
must give the whole file."""
import os

import numpy as np

from . import disk as D
from . import vfs as V
from . import world as W
from .c01 import C01
from .core import Check, HarnessError, Violation
from .model import CART, VK, XK

COLS = XK + VK


class C10(C01):
    prop = "C10"
    quick_runs = 1500
    thorough_runs = 40000
    quick_wall = 45.0
    thorough_wall = 800.0
    real = ["snapout, sseout, fortout, gyrout (clustertools/util/output.py)", "load_cluster on the files written", "frame changes", "numpy.savetxt"]
    stub = ["the raw file layer under open(): runs full, fails or writes short, as planned"]
    rule = "a run counts as non-trivial when at least one complete file was written and compared, or one injected failure struck; distinct by event-log digest"
    state_measure = "distinct (writer, options, units, origin, fault kind, outcome) tuples"
    fault_kinds = ("open-error", "write-error", "disk-full", "close-error", "short-writes")
    assumptions = ["a file left behind by a failed write may be incomplete (no writer promises atomic replacement); the error must be raised",
                   "columns a cluster does not have (energies, epochs, spins) are an error for the caller, not a file",
                   "evolution files hold six decimals, as their format says"]

    def warm(self):
        import clustertools  # noqa: F401

    def generate(self, rng, tier, index):
        spec = W.gen_spec(rng, nmin=3, nmax=20, energies=True)
        ops = []
        for _ in range(rng.randint(1, 4 if tier == "quick" else 8)):
            for _ in range(rng.randint(0, 2)):
                ops.append(W.gen_frame_op(rng, spec, amuse=rng.random() < 0.2))
            w = rng.choice(["snapout", "snapout", "sseout", "fortout", "gyrout", "gyrout"])
            op = dict(op="write", w=w, name=rng.choice(["a.dat", "a.dat", "b.dat"]), method=rng.random() < 0.3)
            if w == "snapout":
                op["energies"], op["radec"] = rng.random() < 0.3, rng.random() < 0.3
            elif w == "fortout":
                op["sse"] = rng.random() < 0.4
                op["reset"] = rng.choice([None, None, [True, True], [True, False], [False, True]])
            elif w == "gyrout":
                op["eps"] = rng.choice([None, None, "scalar", "array"])
                op["epsunits"] = rng.choice([None, None, "pckms", "kpckms", "galpy", "nbody", "WDunits", "kpcgyr", "pcmyr"])
                op["epsval"] = W.r6(rng.uniform(0.01, 2.0))
            x = rng.random()
            if x < 0.55:
                kind = rng.choice(["open-error", "write-error", "write-error", "disk-full", "disk-full", "close-error", "short-writes"])
                f = dict(kind=kind, at=rng.random(), err=rng.choice(["eio", "enospc", "edquot"]), persist=rng.random() < 0.5,
                         short=rng.randint(1, 40), retry=rng.choice([1, 1, 2]))
                if kind == "open-error":
                    f["err"] = rng.choice(["eacces", "enospc", "eio"])
                op["fault"] = f
            ops.append(op)
        return dict(specs=[spec], ops=[dict(o, c=0) for o in ops], buf=rng.choice([16, 100, 4096]))

    # ------------------------------------------------------------------------------------------
    def execute(self, plan, log):
        with D.Disk() as disk:
            cwd = os.getcwd()
            os.chdir(disk.path())
            try:
                with V.VFS(disk.path(), plan.get("buf", 100)) as vfs:
                    self.play(plan, log, disk, vfs)
            finally:
                os.chdir(cwd)

    def play(self, plan, log, disk, vfs):
        spec = plan["specs"][0]
        cl, p = W.build(spec)
        st = W.Stale()
        cm = spec["cm"]
        for i, op in enumerate(plan["ops"]):
            where = "step %d %s in (%s, %s)" % (i, {a: b for a, b in op.items() if a != "c"}, cl.units, cl.origin)
            log.ev(where)
            if "radec" in (cl.units, op.get("u")) or op.get("o") == "sky":
                p.skylevel = 1
            if op["op"] == "write":
                if cl.units == "amuse" and (op["w"] == "snapout" or op.get("eps")):
                    continue
                if op.get("radec") or op["w"] == "snapout" and cl.units == "radec":
                    if not spec["orbit"]:
                        continue
                    p.skylevel = 1
                if cl.units == "radec" and op.get("eps") and not op.get("epsunits"):
                    continue
                if cl.units == "radec" and cl.origin in ("cluster", "centre"):
                    cm = cl.centre_method
                self.write(cl, p, spec, op, where, log, vfs, disk, cm)
                continue
            if op["op"] == "bunits" and not p.nb:
                continue
            W.apply_frame_op(cl, op, st)
            if cl.units == "radec" and cl.origin in ("cluster", "centre"):
                cm = cl.centre_method

    def call(self, cl, op, disk):
        import clustertools as ct
        from clustertools.util import output as O
        w = op["w"]
        path = disk.path(op["name"])
        if w == "snapout":
            O.snapout(cl, path, energies=op["energies"], radec=op["radec"])
        elif w == "sseout":
            O.sseout(cl, path)
        elif w == "fortout":
            cl.wdir = disk.path() + "/"
            kw = dict(filename=op["name"])
            if op["sse"]:
                kw.update(sse=True, sse_filename="sse." + op["name"])
            if op["reset"]:
                kw.update(reset_nbody=True, reset_nbody_mass=op["reset"][0], reset_nbody_radii=op["reset"][1])
            O.fortout(cl, **kw)
        else:
            O.gyrout(cl, filename=path, **self.epskw(cl, op))

    def epskw(self, cl, op):
        kw = {}
        if op["eps"]:
            e = op["epsval"]
            kw["eps"] = e if op["eps"] == "scalar" else e * (1.0 + np.arange(cl.ntot))
            if op["epsunits"]:
                kw["epsunits"] = op["epsunits"]
        return kw

    def natural(self, cl, op):
        """the cluster does not have what the file needs"""
        n = cl.ntot
        if op["w"] == "snapout" and op["energies"] and not (np.size(cl.kin) == np.size(cl.pot) == np.size(cl.etot) == n):
            return True
        if op["w"] == "sseout" or (op["w"] == "fortout" and op["sse"]):
            return not all(np.size(getattr(cl, q)) == n for q in ("kw", "ep", "ospin", "m0"))
        return False

    def write(self, cl, p, spec, op, where, log, vfs, disk, cm):
        before = W.snapshot(cl)
        u0, o0 = cl.units, cl.origin
        f = op.get("fault")
        reset = op["w"] == "fortout" and op["reset"]
        natural = self.natural(cl, op)
        tolf = W.tol_of(cl, p)
        attempts = 1
        arm = None
        if f and not natural:
            attempts = 1 + f["retry"]
            arm = self.plan_fault(cl, spec, op, f, vfs, disk, p)
        for a in range(attempts):
            label = where + (", attempt %d" % (a + 1) if attempts > 1 else "")
            live = arm if a == 0 or (f["persist"] and a < attempts - 1) else None
            vfs.arm(live)
            err = None
            try:
                self.call(cl, op, disk)
            except Exception as ex:
                err = ex
            hits = list(vfs.hits)
            room = vfs.room
            vfs.disarm()
            log.steps += 1
            log.ev(label, type(err).__name__ if err else "ok", len(hits))
            lethal = [h for h in hits if not h.startswith("short-")]
            if hits:
                log.fault(f["kind"], 1)
                log.nontrivial = True
            log.state(op["w"], op.get("energies"), op.get("radec"), op.get("eps"), u0, o0, f["kind"] if hits else None, bool(err))
            allow = set(["wdir"])
            if reset:
                allow |= {"rbar", "zmbar", "vbar", "tbar", "rbar_su", "rbar_au", "tbar_days", "semi", "pb", "m1", "m2", "bunits",
                          "units0", "origin0"} | (set(COLS) | set(c + s for c in COLS for s in ("c", "gc")) | {"m", "tphys"} if u0 == "nbody" else set())
            if p.nb:
                allow |= set(W.BIN) | {"bunits"}
            # the cluster is what it was, whatever became of the file
            if (cl.units, cl.origin) != (u0, o0):
                raise Violation("frame:%s" % op["w"], "%s: %s the cluster is left in (%s, %s)" % (
                    label, "the write failed (%r) and" % err if err else "afterwards", cl.units, cl.origin))
            W.compare_snap(before, W.snapshot(cl), label + (": after a failed write" if err else ": afterwards"), tolf, allow=allow, sig="changed:" + op["w"])
            if p.nb and not reset:
                W.same_binaries(before, W.snapshot(cl), label, p.scale, "changed:" + op["w"])
            if reset:
                fa = W.bin_factors(p.scale)["audays"]
                p.scale = dict(rbar=float(cl.rbar), zmbar=float(cl.zmbar), vbar=float(cl.vbar), tbar=float(cl.tbar))
                if p.nb:
                    # the same binaries, in the new N-body units
                    fb = W.bin_factors(p.scale)["audays"]
                    for q, j in (("semi", 0), ("pb", 1), ("m1", 2), ("m2", 2)):
                        p.binary[q] = p.binary[q] * fa[j] / fb[j]
                before = W.snapshot(cl)
            W.check_phys(cl, p, cm, label)
            if natural:
                if err is None:
                    raise Violation("silent:%s" % op["w"], "%s: the cluster has not got what the file needs and no error is raised" % label)
                log.probe("refused")
                return
            if lethal:
                if err is None:
                    raise Violation("swallowed:%s" % op["w"], "%s: %s on the output and no error is raised" % (label, lethal[0]))
                if not isinstance(err, (OSError, RuntimeError)):
                    raise Violation("masked:%s" % op["w"], "%s: %s on the output, the caller got %r" % (label, lethal[0], err))
                log.probe("reported")
                continue
            if err is not None:
                raise Violation("exception:%s:%s" % (op["w"], type(err).__name__), "%s raised %r" % (label, err))
            self.compare(cl, p, spec, op, label, disk, cm, log)
            log.nontrivial = True
            log.probe("written " + op["w"])

    def plan_fault(self, cl, spec, op, f, vfs, disk, p):
        kind = f["kind"]
        rows = cl.ntot
        if kind == "short-writes":
            return dict(short=f["short"])
        if kind == "open-error":
            return dict(call="open", at=0 if not (op["w"] == "fortout" and op["sse"]) else int(f["at"] * 2), err=f["err"], persist=f["persist"])
        if kind == "close-error":
            return dict(call="close", at=0, err=f["err"], persist=f["persist"])
        width = {"snapout": 8, "sseout": 2, "fortout": 7, "gyrout": 7}[op["w"]] * 24
        size = rows * width
        if kind == "disk-full":
            return dict(room=int(f["at"] * size))
        n = max(1, size // max(1, vfs.bufsize))
        return dict(call="write", at=int(f["at"] * min(n, max(1, rows))), err=f["err"], persist=f["persist"])

    # ------------------------------------------------------------------------------------------
    def compare(self, cl, p, spec, op, where, disk, cm, log):
        w = op["w"]
        if w in ("snapout", "gyrout"):
            self.table(cl, p, spec, op, disk.path(op["name"]), where, cm, log)
        elif w == "sseout":
            self.sse(cl, p, disk.path(op["name"]), where, w)
        else:
            self.table(cl, p, spec, op, disk.path(op["name"]), where, cm, log)
            if op["sse"]:
                self.sse(cl, p, disk.path("sse." + op["name"]), where, w)

    def rows(self, path, w, where):
        try:
            with open(path) as h:
                text = h.read()
        except OSError as ex:
            raise Violation("missing:%s" % w, "%s: no file was written: %r" % (where, ex))
        out = []
        for line in text.splitlines():
            try:
                out.append([float(v) for v in line.split()])
            except ValueError:
                raise Violation("garbled:%s" % w, "%s: row %r" % (where, line))
        return out

    def sse(self, cl, p, path, where, w):
        rows = self.rows(path, w, where)
        n = p.n
        if len(rows) != n or any(len(r) != 5 for r in rows):
            raise Violation("rows:%s" % w, "%s: %d rows of evolution data for %d stars" % (where, len(rows), n))
        a = np.array(rows)
        for j, (q, want) in enumerate((("m0", W.num(cl.m0)), ("kw", W.num(cl.kw)), ("m", p.m), ("ep", W.num(cl.ep)), ("ospin", W.num(cl.ospin)))):
            if not W.close(a[:, j], want, 0, 6e-7):
                raise Violation("column:%s:%s" % (w, q), "%s: %s: %s" % (where, q, W.worst(a[:, j], want)))

    def table(self, cl, p, spec, op, path, where, cm, log):
        import clustertools as ct
        w = op["w"]
        n = p.n
        rows = self.rows(path, w, where)
        if len(rows) != n:
            raise Violation("rows:%s" % w, "%s: %d rows for %d stars" % (where, len(rows), n))
        u, o = {"gyrout": ("WDunits", "galaxy"), "fortout": ("nbody", "centre"), "snapout": (cl.units, cl.origin)}[w]
        e = p.expect(u, o, cm)
        names = ["m"] + list(COLS)
        extra = []
        if w == "snapout":
            extra = [("id", p.ids)]
            if len(cl.kw) == n:
                extra.append(("kw", W.num(cl.kw)))
            if op["energies"]:
                extra += [(q, W.num(getattr(cl, q))) for q in ("kin", "pot", "etot")]
            if op["radec"]:
                s = p.sky()[0]
                extra += [(q, s[i]) for i, q in enumerate(("ra", "dec", "dist", "pmra", "pmdec", "vlos"))]
        if w == "gyrout" and op["eps"]:
            kw = self.epskw(cl, op)
            L = p.factors(kw.get("epsunits", cl.units))[0]
            extra = [("eps", np.ones(n) * kw["eps"] / L / 1000.0)]
        if any(len(r) != len(names) + len(extra) for r in rows):
            raise Violation("columns:%s" % w, "%s: rows of %s columns, %d expected" % (where, sorted(set(len(r) for r in rows)), len(names) + len(extra)))
        a = np.array(rows)
        for j, q in enumerate(names):
            if q == "m":
                ok = W.close(a[:, 0], e["m"], 1e-9, 0)
            elif q in e:
                ok = W.close(a[:, j], e[q], 1e-9, 4 * p.tol(u, o, q))
            else:
                continue
            if not ok:
                raise Violation("column:%s:%s" % (w, q), "%s: %s of the stars, in order, in (%s, %s): %s" % (where, q, u, o, W.worst(a[:, j], e[q])))
        skytol = dict(ra="x", dec="y", dist="z", pmra="vx", pmdec="vy", vlos="vz")
        for j, (q, want) in enumerate(extra):
            atol = 4 * p.tol("radec", "sky", skytol[q]) if q in skytol else 0.0
            if not W.close(a[:, len(names) + j], want, 1e-9, atol):
                raise Violation("column:%s:%s" % (w, q), "%s: %s: %s" % (where, q, W.worst(a[:, len(names) + j], want)))
        if u == "radec" or u == "amuse":
            return
        # ---- and back through the library
        try:
            kw = dict(ctype="snapshot", filename=path, units=u, origin=o, ro=spec["ro"], vo=spec["vo"], zo=spec["zo"], verbose=False)
            if w == "snapout" and len(cl.kw) == n:
                kw.update(col_names=["m"] + list(COLS) + ["id", "kw"], col_nums=list(range(9)))
            elif w == "snapout":
                kw.update(col_names=["m"] + list(COLS) + ["id"], col_nums=list(range(8)))
            if n < 2:
                return
            back = ct.load_cluster(**kw)
        except Exception as ex:
            raise Violation("unreadable:%s" % w, "%s: loading the file raised %r" % (where, ex))
        if back.ntot != n or (back.units, back.origin) != (u, o):
            raise Violation("readback:%s" % w, "%s: read back as %r stars in (%s, %s)" % (where, back.ntot, back.units, back.origin))
        for q in ["m"] + list(COLS):
            if not W.close(W.num(getattr(back, q)), e[q], 1e-9, (8 * p.tol(u, o, q)) if q != "m" else 0):
                raise Violation("readback:%s:%s" % (w, q), "%s: %s reads back as %s" % (where, q, W.worst(W.num(getattr(back, q)), e[q])))
        if w == "snapout":
            if not np.array_equal(np.asarray(back.id), p.ids):
                raise Violation("readback:%s:id" % w, "%s: ids %s" % (where, list(back.id)))
        log.probe("read back")

    def simplify(self, plan):
        for q in C01.simplify(self, plan):
            yield q
        for i, op in enumerate(plan["ops"]):
            if op.get("fault"):
                q = dict(plan, ops=[dict(x) for x in plan["ops"]])
                del q["ops"][i]["fault"]
                yield q
