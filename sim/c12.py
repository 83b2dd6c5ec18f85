"""C12: random operations conserve what they promise and repeat; nothing else depends on chance, clock, hash order or memory."""
import copy
import os
import pickle
import subprocess
import sys

import numpy as np

from . import asks as A, edits as E, noise as N, world as W
from .c01 import C01
from .core import VERIF, Check, HarnessError, Violation, derive

HASHN = 12


def gen_sampler(rng):
    alpha = rng.choice([0, 0.0, -1, -1.0, -2, -2.35, -2.35, -0.5, -1.3, 1, 1.0, 0.5, 2.5, -5.0, round(rng.uniform(-4, 3), 2)])
    if abs(alpha + 1.0) < 0.05:
        alpha = -1.0
    lo = rng.choice([0.1, 0.08, 1.0, 3.0, round(rng.uniform(0.01, 5.0), 3)])
    if alpha >= 0 and rng.random() < 0.15:
        lo = 0.0
    hi = round(lo + rng.choice([1e-6, 0.5, 1.0, 30.0, 150.0]), 7)
    if rng.random() < 0.1:
        hi = lo
    return dict(op="sampler", alpha=alpha, lo=lo, hi=hi, n=rng.choice([0, 1, 1, 2, 7, 50, 3000, 3000]), draws=gen_draws(rng, True))


def gen_draws(rng, sampler=False):
    return dict(kind=rng.choice(["zero", "one", "edge", "extremes", "seeded", "real", "real"]), seed=rng.randrange(1 << 30))


class C12(C01):
    prop = "C12"
    quick_runs = 420
    thorough_runs = 15000
    quick_wall = 50
    real = ["add_rotation (method and function)", "power_law_distribution_function", "every analysis, profile, conversion and edit",
            "galpy", "scipy", "astropy", "matplotlib (Agg)"]
    stub = ["numba JIT switched off (same Python source, interpreted)", "numpy's and Python's global random streams, the clocks and the "
            "contents of uninitialised arrays are supplied by the simulator"]
    rule = ("seeded histories of rotations, samplings, frame changes and questions; rotations and samplers are fed adversarial draws, "
            "every other operation is run twice under different random streams, clocks and uninitialised memory (and hash seeds, in a "
            "second process); non-trivial when two rotations turned a star or three operations were compared; distinct by event-log digest")
    assumptions = ["the uniform generators of numpy.random are the ones fed adversarial draws; any other source runs for real under a seed",
                   "stars exactly on the axis or with no tangential velocity to rounding are not judged"]
    state_measure = "distinct (operation, options, units, origin, draw stream) combinations"
    fault_kinds = ("adversarial random draws", "clock jump", "junk in uninitialised memory", "other random stream", "other hash seed")

    def warm(self):
        A.build()

    def fixed_plans(self, tier):
        out = []
        for k in range(3 if tier == "quick" else 12):
            out.append(dict(kind="hash", base=k, n=HASHN, hashseed=[1, 424242, 77][k % 3] + k, ops=[]))
        for q, s in ((0.3, 1), (0.75, 2), (0.0, 3), (1.0, 4), (0.05, 5)):
            out.append(dict(kind="fraction", q=q, seed=s, n=4000, ops=[]))
        return out

    def simplify(self, plan):
        if plan.get("kind") == "hash" and plan["n"] > 1:
            for n, b in ((plan["n"] // 2, 0), (plan["n"] - plan["n"] // 2, plan["n"] // 2)):
                yield dict(plan, n=n, start=plan.get("start", 0) + b)
        if "specs" in plan:
            for p in C01.simplify(self, plan):
                yield p

    def gen_noise(self, rng, spec, nmin=2, nmax=5):
        ops = []
        for _ in range(rng.randint(nmin, nmax)):
            c = rng.random()
            if c < 0.25:
                op = W.gen_frame_op(rng, spec, amuse=rng.random() < 0.2)
                if op["op"] == "units":
                    op["analyze"] = True
                op = dict(op, sort=True) if op["op"] == "origin" else op
            elif c < 0.4:
                op = E.gen(rng, spec)
                if op["edit"] == "rotation":
                    continue
            else:
                op = A.gen_ask(rng, spec)
            ops.append(op)
        return ops

    def generate(self, rng, tier, index):
        c = rng.random()
        if c > 0.94:
            return self.gen_mock(rng)
        spec = W.gen_spec(rng, nmin=6, nmax=20, energies=True)
        if c < 0.45:
            ops = []
            for _ in range(rng.randint(3, 8)):
                d = rng.random()
                if d < 0.4:
                    op = W.gen_frame_op(rng, spec, amuse=False)
                    if op["op"] == "units":
                        op["analyze"] = True
                    op = dict(op, sort=True) if op["op"] == "origin" else op
                elif d < 0.85:
                    op = dict(op="rotate", q=rng.choice([0.0, 1.0, 0.5, 0, 1, round(rng.random(), 3)]), draws=gen_draws(rng),
                              via=rng.choice(["method", "method", "func"]), twice=rng.random() < 0.4)
                else:
                    op = gen_sampler(rng)
                ops.append(op)
            ops.append(dict(op="rotate", q=rng.choice([0.0, 1.0, 0.5]), draws=gen_draws(rng), via="method", twice=False))
            return dict(kind="rotate", specs=[spec], ops=[dict(o, c=0) for o in ops])
        if c < 0.55:
            return dict(kind="sampler", ops=[gen_sampler(rng) for _ in range(rng.randint(3, 8))])
        return dict(kind="noise", specs=[spec], ops=[dict(o, c=0) for o in self.gen_noise(rng, spec)],
                    seeds=[rng.randrange(1 << 30), rng.randrange(1 << 30)])

    def execute(self, plan, log):
        getattr(self, "run_" + plan["kind"])(plan, log)

    # ------------------------------------------------------------------------------ random streams, clock, memory
    def trace(self, plan, seed, log=None):
        """what a user sees of this history: answers, exceptions, and the data at the end"""
        cl, p = W.build(plan["specs"][0])
        spec = plan["specs"][0]
        out = []
        st = W.Stale()
        with N.Noise(seed) as nz:
            for i, op in enumerate(plan["ops"]):
                name = op.get("ask") or op.get("edit") or op["op"]
                if len(cl.x) < 4 or (op["op"] == "bunits" and cl.nb == 0):
                    continue
                if op["op"] == "ask" and not A.usable(op["ask"], cl, op["kw"], spec):
                    continue
                if op["op"] == "edit" and not E.usable(cl, op, spec):
                    continue
                where = "step %d %s in (%s, %s)" % (i, {a: b for a, b in op.items() if a != "c"}, cl.units, cl.origin)
                b0 = N.states()
                try:
                    if op["op"] == "ask":
                        r = A.invoke(op["ask"], cl, op["kw"], E.Units(cl))
                    elif op["op"] == "edit":
                        r = A.flat(E.apply(cl, op))
                    else:
                        W.apply_frame_op(cl, op, st)
                        r = []
                except Exception as ex:
                    out.append((where, name, "exc", type(ex).__name__))
                    break
                if N.states() != b0:
                    raise Violation("consumes:" + name, "%s drew from the global random stream" % where)
                out.append((where, name, "ok", r))
                if log is not None:
                    log.state(name, sorted(op.get("kw", ())), cl.units, cl.origin)
            snap = {k: W.num(v) for k, v in W.snapshot(cl).items() if k in W.XK + W.VK + ("m", "id", "kin", "pot", "xc", "yc", "zc", "xgc", "ygc", "zgc")
                    and v is not None} if cl.units != "amuse" else {}
            if log is not None:
                log.fault("clock jump", nz.reads)
                log.fault("junk in uninitialised memory", nz.fills)
        out.append(("at the end", "state", "ok", [(k, "num", snap[k]) for k in sorted(snap)]))
        return out

    def compare(self, a, b, what):
        if len(a) != len(b):
            raise Violation("depends", "%s: the history has %d steps or %d" % (what, len(a), len(b)))
        for (wa, n, ka, ra), (wb, _, kb, rb) in zip(a, b):
            if ka != kb or (ka == "exc" and ra != rb):
                raise Violation("depends:" + n, "%s: %s: %s or %s" % (what, wa, ra if ka == "exc" else "an answer", rb if kb == "exc" else "an answer"))
            if ka == "exc":
                continue
            d = A.differ(ra, rb, 1e-9)
            if d:
                raise Violation("depends:" + n, "%s: %s: %s" % (what, wa, d))

    def run_noise(self, plan, log):
        a = self.trace(plan, plan["seeds"][0], log)
        b = self.trace(plan, plan["seeds"][1], log)
        log.fault("other random stream", 2)
        log.steps += len(a) + len(b)
        for w, n, k, r in a:
            log.ev(w, k)
            if k == "ok":
                for path, kind, v in r:
                    if kind == "num":
                        log.arr(path, v)
        self.compare(a, b, "other random stream, clock and memory")
        log.nontrivial = len(a) >= 3

    def run_hash(self, plan, log):
        import random
        plans = []
        i = 0
        while len(plans) < plan["n"] + plan.get("start", 0):
            rng = random.Random(derive("hash", plan["base"], i))
            i += 1
            spec = W.gen_spec(rng, nmin=6, nmax=16, energies=True)
            plans.append(dict(kind="noise", specs=[spec], ops=[dict(o, c=0) for o in self.gen_noise(rng, spec, 4, 7)]))
        plans = plans[plan.get("start", 0):]
        env = dict(os.environ, PYTHONHASHSEED=str(plan["hashseed"]), VERIF_HASHSEED=str(plan["hashseed"]))
        code = ("import sys,pickle\nsys.path.insert(0,%r)\nsys.dont_write_bytecode=True\nfrom sim import env\nenv.load()\n"
                "import os\nout=os.fdopen(os.dup(1),'wb')\nd=os.open(os.devnull,os.O_RDWR)\nos.dup2(d,1)\n"
                "from sim.c12 import C12\nc=C12()\nc.warm()\n"
                "plans=pickle.load(sys.stdin.buffer)\nres=[]\n"
                "for p in plans:\n  try: res.append(c.trace(p,5))\n  except Exception as e: res.append(repr(e))\n"
                "out.write(pickle.dumps(res))\nout.close()\nos._exit(0)\n" % VERIF)
        r = subprocess.run([sys.executable, "-c", code], input=pickle.dumps(plans), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env,
                           timeout=80)
        if r.returncode:
            raise HarnessError("second process: " + r.stderr.decode()[-2000:])
        other = pickle.loads(r.stdout)
        log.fault("other hash seed")
        for p, b in zip(plans, other):
            a = self.trace(p, 5, log)
            if isinstance(b, str):
                raise Violation("depends", "second process: " + b)
            log.steps += len(a)
            self.compare(a, b, "hash seed %d" % plan["hashseed"])
        log.ev("hash", plan["hashseed"], len(plans))
        log.nontrivial = True

    # ------------------------------------------------------------------------------ samplers
    def sample(self, op, log, where):
        import clustertools as ct
        from clustertools.util import recipes as R
        d = op["draws"]
        a, lo, hi, n = op["alpha"], op["lo"], op["hi"], op["n"]

        def call():
            return R.power_law_distribution_function(n, a, lo, hi)
        np.random.seed(d["seed"] % (1 << 32))
        if d["kind"] == "real":
            x = call()
            np.random.seed(d["seed"] % (1 << 32))
            y = call()
            if not np.array_equal(x, y):
                raise Violation("sampler-repeat", "%s: the same seed gave other values" % where)
        else:
            with N.Draws(d["kind"], 0.5, d["seed"]) as dr:
                x = call()
            log.fault("adversarial random draws", dr.count)
        x = np.asarray(x, dtype=float)
        log.arr("x", x)
        log.state("sampler", a, d["kind"], n, lo == hi)
        if x.shape != (n,):
            raise Violation("sampler-count", "%s: %s values" % (where, x.shape))
        slack = 1e-11 * max(abs(hi), abs(lo)) / min(1.0, abs(a + 1.0) or 1.0)
        if n and not (np.min(x) >= lo - slack and np.max(x) <= hi + slack):
            raise Violation("sampler-range", "%s: values from %r to %r" % (where, float(np.min(x)), float(np.max(x))))
        if n >= 1000 and d["kind"] in ("real", "seeded") and hi > lo:
            z = np.sort(x)
            e = a + 1.0
            cdf = np.log(z / lo) / np.log(hi / lo) if a == -1 else (z ** e - lo ** e) / (hi ** e - lo ** e)
            D = np.max(np.abs(cdf - (np.arange(n) + 0.5) / n)) * np.sqrt(n)
            if D > 3.4 and hi - lo > 1e-3 * hi:
                raise Violation("sampler-slope", "%s: the values do not follow the slope (Kolmogorov distance %.2f)" % (where, D))
        return True

    def run_sampler(self, plan, log):
        for i, op in enumerate(plan["ops"]):
            where = "step %d %s" % (i, op)
            log.ev(where)
            try:
                self.sample(op, log, where)
            except Violation:
                raise
            except Exception as ex:
                raise Violation("exception:sampler", "%s raised %r" % (where, ex))
            log.steps += 1
        log.nontrivial = len(plan["ops"]) >= 3

    # ------------------------------------------------------------------------------ rotation
    def relative(self, cl, p):
        """velocities in km/s relative to the orbit, read from the public data (the frame is a legal Cartesian one)"""
        c = cl
        if c.units == "radec":
            c = copy.deepcopy(cl)
            c.to_galaxy()
        L, V, M, T = p.factors(c.units)
        v = np.column_stack([np.asarray(getattr(c, k), dtype=float) for k in W.VK]) / V
        if c.origin == "centre":
            v = v + p.c[3:]
        elif c.origin == "galaxy":
            v = v - p.g[3:]
        return v

    def flips(self, p, work, q, draws, newvel, tol, where):
        """judge the velocities (same frame as p.vel); returns number of stars turned"""
        off = p.c if work == "centre" else np.zeros(6)
        pos, v0, v1 = p.rel - off[:3], p.vel - off[3:], newvel - off[3:]
        R = np.sqrt(pos[:, 0] ** 2 + pos[:, 1] ** 2)
        e = np.column_stack([-pos[:, 1] / R, pos[:, 0] / R])
        vt0, vt1 = np.sum(v0[:, :2] * e, axis=1), np.sum(v1[:, :2] * e, axis=1)
        turned = 0
        er = np.column_stack([pos[:, 0] / R, pos[:, 1] / R])
        vr0, vr1 = np.sum(v0[:, :2] * er, axis=1), np.sum(v1[:, :2] * er, axis=1)
        if not W.close(vr1, vr0, 1e-9, tol):
            raise Violation("rotation:radial", "%s: radial velocities, %s" % (where, W.worst(vr1, vr0)))
        if not W.close(v1[:, 2], v0[:, 2], 1e-9, tol):
            raise Violation("rotation:vertical", "%s: vertical velocities, %s" % (where, W.worst(v1[:, 2], v0[:, 2])))
        if not W.close(np.sum(v1 ** 2, axis=1), np.sum(v0 ** 2, axis=1), 1e-8, tol * 100):
            raise Violation("rotation:speed", "%s: speeds, %s" % (where, W.worst(np.sum(v1 ** 2, axis=1), np.sum(v0 ** 2, axis=1))))
        for i in range(len(vt0)):
            same = abs(vt1[i] - vt0[i]) <= tol + 1e-9 * abs(vt0[i])
            flip = abs(vt1[i] + vt0[i]) <= tol + 1e-9 * abs(vt0[i])
            if same and flip:
                continue
            if vt0[i] > 0 and not same:
                raise Violation("rotation:with", "%s: star %d moves with the rotation (%r) and was changed to %r" % (where, i, vt0[i], vt1[i]))
            if vt0[i] < 0 and not (same or flip):
                raise Violation("rotation:tangential", "%s: star %d: %r became %r" % (where, i, vt0[i], vt1[i]))
            if vt0[i] < 0 and flip:
                turned += 1
                if q == 0:
                    raise Violation("rotation:none", "%s: the fraction is 0 and star %d was turned" % (where, i))
            elif vt0[i] < 0 and q == 1:
                raise Violation("rotation:all", "%s: the fraction is 1 and star %d still moves against" % (where, i))
        return turned

    def rotate(self, cl, op):
        from clustertools.cluster import operations as O
        d = op["draws"]
        np.random.seed(d["seed"] % (1 << 32))
        call = (lambda: cl.add_rotation(op["q"])) if op["via"] == "method" else (lambda: O.add_rotation(cl, op["q"]))
        if d["kind"] == "real":
            return call(), 0
        with N.Draws(d["kind"], float(op["q"]), d["seed"]) as dr:
            r = call()
        return r, dr.count

    def run_rotate(self, plan, log):
        spec = plan["specs"][0]
        cl, p = W.build(spec)
        if spec["units"] == "radec":
            p.skylevel = 1
        st = W.Stale()
        turned = 0
        method = spec["cm"]
        for i, op in enumerate(plan["ops"]):
            f0 = (cl.units, cl.origin)
            where = "step %d %s in (%s, %s)" % (i, {a: b for a, b in op.items() if a != "c"}, f0[0], f0[1])
            log.ev(where)
            if op["op"] == "bunits" and not p.nb:
                continue
            if op["op"] == "sampler":
                self.sample(op, log, where)
                continue
            if op["op"] != "rotate":
                W.apply_frame_op(cl, op, st)
                if "radec" in (f0[0], cl.units):
                    p.skylevel = 1
                if cl.units == "radec" and cl.origin in ("cluster", "centre"):
                    method = cl.centre_method
                continue
            op = dict(op)
            if cl.units == "radec":
                op["via"] = "method"
                if cl.origin != "sky":
                    continue
            work = "cluster" if cl.origin == "cluster" else "centre"
            snap = W.snapshot(cl)
            order0 = np.array(cl.id)
            tw = copy.deepcopy(cl) if op["twice"] and op["draws"]["kind"] == "real" else None
            try:
                r, used = self.rotate(cl, op)
            except Exception as ex:
                raise Violation("exception:%s" % type(ex).__name__, "%s raised %r" % (where, ex))
            log.fault("adversarial random draws", used)
            log.state("rotate", op["q"], op["via"], op["draws"]["kind"], f0)
            log.steps += 1
            if (cl.units, cl.origin) != f0:
                raise Violation("rotation:frame", "%s left (%s, %s)" % (where, cl.units, cl.origin))
            vtol = 4 * p.tol("pckms", "galaxy", "vx") + (3e-6 if cl.units == "radec" else 0)
            if op["via"] == "func":
                W.compare_snap(snap, W.snapshot(cl), where, W.tol_of(cl, p), sig="rotation:cluster-changed")
                off = p.c if work == "centre" else np.zeros(6)
                L, V, M, T = p.factors(cl.units)
                pos = np.column_stack(r[:3]) / L
                want = p.rel - off[:3]
                if not W.close(pos, want, 1e-9, 4 * p.tol("pckms", "galaxy", "x")):
                    raise Violation("rotation:positions", "%s: positions, %s" % (where, W.worst(pos, want)))
                turned += self.flips(p, work, op["q"], None, np.column_stack(r[3:]) / V + off[3:], vtol, where)
                continue
            v = self.relative(cl, p)
            turned += self.flips(p, work, op["q"], None, v, vtol, where)
            p.vel = v
            p.touch()
            if not np.array_equal(np.array(cl.id), order0):
                raise Violation("rotation:order", "%s: star identities changed" % where)
            W.check_phys(cl, p, method, where)
            W.check_derived(cl, where, st, p)
            moved = set(("vx", "vy", "vz", "x", "y", "z") + W.SKYKEYS)
            W.compare_snap(snap, W.snapshot(cl), where, W.tol_of(cl, p), allow=moved, sig="rotation:other")
            if tw is not None:
                self.rotate(tw, op)
                for k in W.VK + W.XK:
                    if not np.array_equal(np.asarray(getattr(tw, k)), np.asarray(getattr(cl, k))):
                        raise Violation("rotation:repeat", "%s: the same seed gave other %s" % (where, k))
            log.arr("v", v)
        log.nontrivial = turned >= 2

    # ------------------------------------------------------------------------------ mock clusters
    def gen_mock(self, rng):
        ops = []
        for _ in range(rng.randint(2, 4)):
            op = dict(op="mock", n=rng.choice([10, 11, 40, 120]), seed=rng.randrange(1 << 30), orbit=rng.random() < 0.6,
                      units=rng.choice(["pckms", "kpckms"]), origin=rng.choice(["cluster", "centre", "galaxy"]))
            if rng.random() < 0.4:
                op.update(gc=rng.choice(["NGC6101", "NGC104", "M79", "NGC5139", "PAL2", "WHITING1", "TERZAN5"]),
                          source=rng.choice(["default", "default", "harris"]), units=rng.choice(["pckms", "kpckms", "galpy", "kpcgyr", "nbody", "radec"]),
                          orbit=rng.random() < 0.3, mbar=rng.choice([None, None, 2000.0]))
                if op["mbar"] and op["source"] == "default" and op["gc"] in ("NGC6101", "M79"):
                    op["mbar"] = 50.0                   # that catalogue's masses are small: more stars than ten all the same
                if op["gc"] in ("PAL2", "WHITING1"):
                    op["mbar"] = None
                if op["units"] == "radec":
                    op["origin"] = "sky"
                    op["orbit"] = False
            else:
                k = rng.choice(["rh", "rt", "rv", "rm", "rc", "r0"])
                op.update(model=dict(g=rng.choice([0, 1, 1, 1.5, 2]), M=rng.choice([1.0, 250.0, 3.0e4])), size=[k, rng.choice([0.8, 3.0, 20.0])])
                op["model"][rng.choice(["phi0", "W0"])] = rng.choice([3.0, 5.0, 7.0])
                if rng.random() < 0.15:
                    op["n"] = None
                    op["model"].update(M=300.0, mbar=rng.choice([3.0, 7.0]))
            if op["orbit"] and rng.random() < 0.4:
                op["file"] = rng.choice([1, 1, 2, 4])       # the orbit comes in a file: the row of snapshot file-1
            ops.append(op)
        return dict(kind="mock", ops=ops)

    def mock(self, op, units, origin, orbit=None):
        import clustertools as ct
        kw = dict(units=units, origin=origin, orbit=orbit)
        if "gc" in op:
            kw.update(gcname=op["gc"], source=op["source"])
            kw.update({"N": op["n"]} if op["mbar"] is None else {"mbar": op["mbar"]})
        else:
            kw.update(op["model"])
            L = 1e-3 if units == "kpckms" else 1.0
            kw[op["size"][0]] = op["size"][1] * L
            if op["n"]:
                kw["N"] = op["n"]
        np.random.seed(op["seed"] % (1 << 32))
        if orbit is None or not op.get("file"):
            return ct.load_cluster("limepy", **kw)
        import tempfile
        kw.pop("orbit")
        with tempfile.NamedTemporaryFile("w", suffix=".orb") as f:
            row = [0.0] + [float(getattr(orbit, k)()) for k in W.XK + W.VK]
            for k in range(4):
                f.write(" ".join(repr(v if k == op["file"] - 1 else v + 1.0 + k) for v in row) + "\n")
            f.flush()
            with open(f.name) as g:
                return ct.load_cluster("limepy", ofile=g, ounits="kpckms", nsnap=op["file"] - 1, **kw)

    def run_mock(self, plan, log):
        """a mock cluster has the stars, the mass and the place asked for, and the random stream decides nothing else"""
        from galpy.orbit import Orbit
        for i, op in enumerate(plan["ops"]):
            where = "step %d %s" % (i, op)
            log.ev(where)
            log.steps += 1
            o = Orbit([0.9, 0.1, 1.1, 0.3, -0.2, 0.7], ro=8.0, vo=220.0) if op["orbit"] else None
            try:
                a = self.mock(op, op["units"], op["origin"], o)
                b = self.mock(op, op["units"], op["origin"], o)
                z = self.mock(dict(op, seed=op["seed"] + 1), op["units"], op["origin"], o)
                ref = self.mock(op, "pckms" if "gc" in op else op["units"], "cluster", o)
            except Exception as ex:
                raise Violation("exception:mock:%s" % type(ex).__name__, "%s raised %r" % (where, ex))
            log.fault("other random stream")
            log.state("mock", op.get("gc"), op["units"], op["origin"], op["orbit"], op.get("size", [0])[0])
            if (a.units, a.origin) != (op["units"], op["origin"]):
                raise Violation("mock:frame", "%s: loaded in (%s, %s)" % (where, a.units, a.origin))
            if a.ctype != "limepy":
                raise Violation("mock:ctype", "%s: the cluster says it is of type %r" % (where, a.ctype))
            six = [np.asarray(getattr(a, k), dtype=float) for k in W.XK + W.VK]
            for j in range(6):
                for k in range(j):
                    if len(six[j]) > 3 and np.array_equal(six[j], six[k]):
                        raise Violation("mock:axes", "%s: %s and %s are the same numbers" % (where, (W.XK + W.VK)[j], (W.XK + W.VK)[k]))
            n = len(a.x)
            want = op["n"]
            if "gc" not in op and want is None:
                want = int(op["model"]["M"] / op["model"]["mbar"])
            if ("gc" not in op or op["mbar"] is None) and (n != want or a.ntot != want):
                raise Violation("mock:count", "%s: %d stars (ntot %s)" % (where, n, a.ntot))
            if sorted(int(k) for k in a.id) != list(range(1, n + 1)):
                raise Violation("mock:id", "%s: identities %s" % (where, list(a.id)[:8]))
            m = np.asarray(a.m, dtype=float)
            M = np.sum(m)
            if not (n and np.all(m > 0) and np.allclose(m, m[0], rtol=1e-9)):
                raise Violation("mock:mass", "%s: masses %r to %r" % (where, float(m.min()), float(m.max())))
            if "gc" not in op and not abs(M - op["model"]["M"]) <= 1e-6 * M:
                raise Violation("mock:mass", "%s: total mass %r" % (where, float(M)))
            if "gc" in op and op["mbar"] is not None and op["units"] == "pckms" and not abs(m[0] / op["mbar"] - 1.0) <= 1.0 / n + 1e-9:
                raise Violation("mock:mass", "%s: %d stars of mass %r" % (where, n, float(m[0])))
            for k in W.XK + W.VK + ("m", "id"):
                va, vb = np.asarray(getattr(a, k)), np.asarray(getattr(b, k))
                if not np.array_equal(va, vb):
                    raise Violation("mock:repeat", "%s: the same seed gave other %s" % (where, k))
                if not np.all(np.isfinite(np.asarray(va, dtype=float))):
                    raise Violation("mock:finite", "%s: %s is not finite" % (where, k))
                log.arr(k, va)
            if len(z.x) != n or not np.allclose(np.sum(z.m), M, rtol=1e-9):
                raise Violation("mock:depends", "%s: another seed gave %d stars of mass %r" % (where, len(z.x), float(np.sum(z.m))))
            # the place: the same stars, moved by the orbit, in the units and origin asked for
            if "gc" in op and op["units"] == "nbody":
                if not abs(M - 1.0) < 1e-9:
                    raise Violation("mock:mass", "%s: total mass %r in nbody units" % (where, float(M)))
                continue
            if op["units"] == "radec":
                ref.to_galaxy()
                ref.to_radec()
            else:
                if "gc" in op:
                    ref.to_units(op["units"])
                ref.to_origin(op["origin"], sortstars=False)
            for k in ("xgc", "ygc", "zgc", "vxgc", "vygc", "vzgc"):
                ga, gr = float(getattr(a, k)), float(getattr(ref, k))
                if not abs(ga - gr) <= 1e-8 * max(abs(gr), abs(ga)) + 1e-12:
                    raise Violation("mock:orbit", "%s: %s is %r, or %r when the orbit comes first" % (where, k, ga, gr))
            if o is not None and op["units"] != "galpy":
                L, V = {"pckms": (1000.0, 1.0), "kpckms": (1.0, 1.0), "kpcgyr": (1.0, 1.0227121650537077)}[op["units"]]
                for k, w in zip(("xgc", "ygc", "zgc"), (o.x(), o.y(), o.z())):
                    if not abs(float(getattr(a, k)) - float(w) * L) <= 1e-6 * L:
                        raise Violation("mock:orbit", "%s: %s is %r, the orbit is at %r kpc" % (where, k, float(getattr(a, k)), float(w)))
                for k, w in zip(("vxgc", "vygc", "vzgc"), (o.vx(), o.vy(), o.vz())):
                    if not abs(float(getattr(a, k)) - float(w) * V) <= 1e-4 * V:
                        raise Violation("mock:orbit", "%s: %s is %r, the orbit has %r km/s" % (where, k, float(getattr(a, k)), float(w)))
            ia, ir = np.argsort(np.asarray(a.id), kind="stable"), np.argsort(np.asarray(ref.id), kind="stable")
            for k in W.XK + W.VK:
                if op["origin"] == "centre":
                    break
                va, vr = np.asarray(getattr(a, k), dtype=float)[ia], np.asarray(getattr(ref, k), dtype=float)[ir]
                tol = 1e-9 * (1e-6 + float(np.max(np.abs(vr)))) + 1e-10 * abs(float(getattr(a, k + "gc")))
                if not np.all(np.abs(va - vr) <= tol + (1e-6 if op["units"] == "radec" else 0.0)):
                    raise Violation("mock:place", "%s: %s of the stars, %s" % (where, k, W.worst(va, vr)))
            # relative to the stars themselves, whatever the origin
            if op["units"] != "radec":
                for k in W.XK + W.VK:
                    va, vr = np.asarray(getattr(a, k), dtype=float)[ia], np.asarray(getattr(ref, k), dtype=float)[ir]
                    va, vr = va - va[0], vr - vr[0]
                    tol = 1e-9 * (1e-6 + float(np.max(np.abs(vr)))) + 1e-10 * abs(float(getattr(a, k + "gc")))
                    if not np.all(np.abs(va - vr) <= tol):
                        raise Violation("mock:place", "%s: %s between the stars, %s" % (where, k, W.worst(va, vr)))
            log.nontrivial = True

    def run_fraction(self, plan, log):
        """the fraction asked for is the fraction turned, up to the scatter of so many draws"""
        import clustertools as ct
        r = np.random.Generator(np.random.PCG64(plan["seed"]))
        cl = ct.StarCluster(units="pckms", origin="cluster")
        x = r.normal(size=(6, plan["n"]))
        cl.add_stars(*x)
        L0 = x[0] * x[4] - x[1] * x[3]
        np.random.seed(plan["seed"])
        cl.add_rotation(plan["q"])
        L1 = np.asarray(cl.x) * np.asarray(cl.vy) - np.asarray(cl.y) * np.asarray(cl.vx)
        neg = L0 < 0
        n = int(np.sum(neg))
        k = int(np.sum(neg & (L1 > 0)))
        q = plan["q"]
        log.ev("fraction", q, n, k)
        if abs(k - n * q) > 6.0 * np.sqrt(n * q * (1 - q)) + 1e-9:
            raise Violation("rotation:fraction", "fraction %r: %d of %d stars were turned" % (q, k, n))
        log.nontrivial = True
        log.steps += 1
