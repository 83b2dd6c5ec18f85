"""C15: moving a cluster or its stars through time composes, is reversible, and agrees with the path it is said to follow."""
import copy

import numpy as np

from . import asks as A, world as W
from .core import Check, HarnessError, Violation
from .c01 import C01

POS, VEL = 2e-5, 2e-5          # relative to the galactic orbit's size and speed: the integrator's own accuracy


def factors(ro, vo):
    from galpy.util import conversion
    return ro * 1000.0, vo, conversion.time_in_Gyr(ro=ro, vo=vo)


def advance(w, t, pot, ro, vo):
    """(n,6) galactocentric pc, km/s -> the same t Gyr later (scalar or increasing/decreasing array from 0), independently integrated"""
    from scipy.integrate import solve_ivp
    from galpy.potential import evaluateRforces, evaluatezforces
    L, V, T = factors(ro, vo)
    w = np.atleast_2d(np.asarray(w, dtype=float))
    n = len(w)
    y0 = (w / np.array([L] * 3 + [V] * 3)).T.ravel()

    def f(_, y):
        q = y.reshape(6, n)
        R = np.sqrt(q[0] ** 2 + q[1] ** 2)
        fr = np.array([evaluateRforces(pot, a, b, use_physical=False) for a, b in zip(R, q[2])], dtype=float)
        fz = np.array([evaluatezforces(pot, a, b, use_physical=False) for a, b in zip(R, q[2])], dtype=float)
        return np.concatenate([q[3], q[4], q[5], fr * q[0] / R, fr * q[1] / R, fz])
    ts = np.atleast_1d(t) / T
    if np.all(ts == 0):
        y = np.repeat(y0[:, None], len(ts), axis=1)
    else:
        s = solve_ivp(f, (0.0, ts[np.argmax(np.abs(ts))]), y0, method="DOP853", rtol=1e-10, atol=1e-12, t_eval=ts)
        if not s.success:
            raise HarnessError("reference integration: " + s.message)
        y = s.y
    out = y.reshape(6, n, len(ts)).transpose(2, 1, 0) * np.array([L] * 3 + [V] * 3)
    return out[0] if np.isscalar(t) else out


def plummer(ro, vo):
    from galpy.potential import PlummerPotential
    from galpy.util import conversion
    return PlummerPotential(amp=1e4 / conversion.mass_in_msol(ro=ro, vo=vo), b=3.0 / (1000.0 * ro))


class C15(C01):
    prop = "C15"
    quick_runs = 400
    thorough_runs = 12000
    quick_wall = 50
    thorough_wall = 750
    real = ["interpolate_orbit(s), orbit(s)_interpolate, orbital_path, initialize_orbit(s) as methods and functions",
            "orbital_path_match, tail_path, tail_path_match", "galpy's integrators",
            "unit and origin conversions"]
    stub = ["numba JIT switched off (same Python source, interpreted)"]
    rule = ("seeded histories of orbit and star integrations forwards and backwards, frame changes and paths; each step and the whole "
            "history are compared with an independent integration from the start, stars matched to paths with an independent nearest-point "
            "calculation, tail paths with the averages of the stars matched; non-trivial when at least two comparisons were made; distinct by event-log digest")
    assumptions = ["static axisymmetric potentials; galpy's integration error is allowed for (2e-5 of the orbit per step)",
                   "from_centre starts from the centre and so is judged step by step only", "stars in a sky frame centred on the cluster "
                   "are not integrated (the library says it cannot)"]
    state_measure = "distinct (operation, potential, direction, units, origin) combinations"
    fault_kinds = ("time reversed", "frame changed between steps")

    def warm(self):
        A.build()

    def generate(self, rng, tier, index):
        if rng.random() < 0.15:
            return self.gen_handover(rng)
        spec = W.gen_spec(rng, nmin=3, nmax=7, orbit=True)
        ops = []
        used = 0.0
        pot = rng.choice(["MW", "log", "plum"])
        for _ in range(rng.randint(2, 6)):
            c = rng.random()
            if c < 0.35:
                op = W.gen_frame_op(rng, spec, amuse=True)
                if op["op"] == "units":
                    op["analyze"] = True
                if op["op"] == "origin":
                    op["sort"] = True
            elif c >= 0.8:
                op = self.gen_match(rng, spec)
            elif c < 0.57 and c >= 0.48:
                op = dict(op="object", T=0.0, stars=rng.random() < 0.5, centre=rng.random() < 0.25, via=rng.choice(["method", "func"]),
                          sun=rng.choice([None, None, dict(zo=0.05), dict(solarmotion=[-10.0, 5.25, 7.5]), dict(zo=0.01, solarmotion=[-9.0, 15.0, 6.0])]))
            elif c < 0.48:
                op = dict(op="path", T=rng.choice([0.01, 0.05, 0.12]), nt=rng.choice([11, 20, 51]), sky=rng.random() < 0.35,
                          centre=rng.random() < 0.2, via=rng.choice(["method", "func"]), scale=rng.random() < 0.15, init=rng.random() < 0.2)
            else:
                T = round(rng.choice([-1, 1]) * rng.choice([0.004, 0.02, 0.06, rng.uniform(0.001, 0.1)]), 6)
                if abs(used) > 1e-4 and rng.random() < 0.3:
                    T = round(-used, 6)
                op = dict(op=rng.choice(["orb", "orb", "stars"]), T=T, nt=rng.choice([2, 5, 10, 40, 101]), pot=pot,
                          via=rng.choice(["method", "method", "func", "alias"]), scale=rng.random() < 0.12, centre=rng.random() < 0.1)
                if op["via"] != "func" and not op["centre"]:
                    used += T
            ops.append(op)
        if rng.random() < 0.25:
            ops.append(self.gen_match(rng, spec))
        if abs(used) > 1e-4:
            ops.append(dict(op="orb", T=round(-used, 6), nt=20, pot=pot, via="method", scale=False, centre=False))
        return dict(specs=[spec], ops=[dict(o, c=0) for o in ops])

    def gen_match(self, rng, spec):
        """stars matched to a path, or averaged along it, on the scale of the cluster itself"""
        v = float(np.linalg.norm(spec["g"][3:]))
        T = float("%.9g" % (spec["a"] * rng.choice([0.6, 1.5, 4.0, 30.0]) / v * 0.977792 / 1000.0))
        op = dict(op=rng.choice(["match", "match", "tail"]), T=T, sky=rng.random() < 0.2, centre=rng.random() < 0.15, projected=rng.random() < 0.25,
                  to_path=rng.random() < 0.4, do_full=rng.random() < 0.4, via=rng.choice(["method", "func"]), pot=rng.choice(["MW", "log"]))
        if op["op"] == "match":
            op.update(nt=rng.choice([9, 21, 41, 75]), path=rng.random() < 0.5, pseed=rng.randrange(1 << 30), quantities=rng.random() < 0.5)
        else:
            nt = rng.choice([2, 3, 5, 8])
            op.update(no=rng.choice([23, 37, 61]), nt=nt, ntail=rng.choice([nt, nt, 1, 2 * nt + 1, 7 * nt]), bintype=rng.choice(["fix", "fix", "num"]),
                      dmax=rng.choice([None, None, 0.5, 1.2]), match=rng.random() < 0.3)
        return op

    def gen_handover(self, rng):
        """a galpy orbit the user owns, with scales of its own, handed over with the cluster"""
        u = rng.choice([None, None, None, "radec"])
        spec = W.gen_spec(rng, nmin=8, nmax=14, orbit=True, sse=False, bse=False, units=u)
        spec["cm"] = None
        ops = [dict(op="handover", via="init", u=rng.choice(list(W.CART) + ["radec"]), o=rng.choice(["cluster", "galaxy", "centre"]))]
        t = 0.0
        first = True
        for _ in range(rng.randint(1, 4)):
            t = round(t + rng.choice([0.0, 0.01, 0.05, 0.2]) * (not first or rng.random() < 0.7), 6)
            ops.append(dict(op="handover", via="load" if first else rng.choice(["load", "advance", "advance"]), t=t))
            if rng.random() < 0.2:
                ops.append(dict(op="handover", via="load", t=t, initialize=True))
            first = False
        ho = dict(ro=rng.choice([None, 8.0, 8.5]), vo=rng.choice([None, 220.0, 200.0]), pot=rng.choice(["MW", "log"]))
        return dict(specs=[spec], ops=[dict(o, c=0) for o in ops], handover=ho)

    def run_handover(self, plan, log):
        """wherever a galpy orbit is handed over, the cluster is at that orbit's point for its own time, in its own units"""
        import clustertools as ct
        from galpy.orbit import Orbit
        from galpy.util import coords
        spec, ho = plan["specs"][0], plan["handover"]
        p0 = W.phys(spec)
        ro, vo = ho["ro"] or spec["ro"], ho["vo"] or spec["vo"]
        pot = A.pot(ho["pot"])
        g = p0.g
        q = g[:3] / 1000.0
        R, phi, z = coords.rect_to_cyl(*q)
        vR, vT, vz = coords.rect_to_cyl_vec(*g[3:], *q)
        o = Orbit([R / ro, vR / vo, vT / vo, z / ro, vz / vo, phi], ro=ro, vo=vo, zo=spec["zo"], solarmotion=list(spec["solarmotion"]))
        last = max([op.get("t", 0.0) for op in plan["ops"]] + [0.01])
        o.integrate(np.linspace(0.0, 1.02 * last / factors(ro, vo)[2], 401), pot)
        cl = None
        compared = 0
        for i, op in enumerate(plan["ops"]):
            where = "step %d %s" % (i, {a: b for a, b in op.items() if a != "c"})
            log.ev(where)
            log.steps += 1
            t = op.get("t", 0.0)
            want = advance(g, t, pot, ro, vo)[0]
            try:
                if op["via"] == "init":
                    c = ct.StarCluster(0.0, units=op["u"], origin="sky" if op["u"] == "radec" else op["o"], orbit=o, ro=spec["ro"], vo=spec["vo"],
                                       zo=spec["zo"], solarmotion=list(spec["solarmotion"]))
                    p = W.phys(dict(spec, scale=dict(rbar=1.0, zmbar=1.0, vbar=1.0, tbar=1.0)))
                    before = None
                else:
                    if op["via"] == "advance" and cl is None:
                        continue
                    held = {}

                    def load(ctype=None, units=None, origin=None, ofile=None, orbit=None, advance=False, **kw):
                        c, held["p"] = W.build(dict(spec, tphys=1000.0 * t))
                        c.ctype = ctype
                        held["before"] = W.snapshot(c)
                        held["advance"] = advance
                        return c
                    f0 = dict(units=spec["units"], origin=spec["origin"])
                    if op.get("initialize"):
                        c = ct.load_cluster("mine", load_function=load, initialize=True, **f0)
                        want = g
                    elif op["via"] == "load":
                        c = ct.load_cluster("mine", load_function=load, orbit=o, **f0)
                    else:
                        c = ct.advance_cluster(cl, load_function=load, orbit=o)
                    if held["advance"] != (op["via"] == "advance"):
                        raise Violation("handover:advance", "%s: the load function was told advance=%r" % (where, held["advance"]))
                    cl, p, before = c, held["p"], held["before"]
            except Violation:
                raise
            except Exception as ex:
                import traceback
                tb = [f for f in traceback.extract_tb(ex.__traceback__) if "clustertools" in f.filename]
                if not tb:
                    raise
                raise Violation("exception:handover:%s" % type(ex).__name__, "%s raised %r at line %d" % (where, ex, tb[-1].lineno))
            if op.get("initialize"):
                if c.orbit is None:
                    raise Violation("handover:initialize", "%s: the cluster has no orbit" % where)
                got = [1000.0 * float(getattr(c.orbit, k)(ro=p.ro, vo=p.vo)) for k in W.XK] + [float(getattr(c.orbit, k)(ro=p.ro, vo=p.vo)) for k in W.VK]
                self.near(got, want, where, "handover:initialize", "the orbit initialised at loading (%s)" % c.units, 5.0)
            elif c.orbit is not o and c.units != "radec":
                raise Violation("handover:object", "%s: cluster.orbit is not the orbit handed over" % where)
            log.state("handover", op["via"], c.units, c.origin, t > 0, ho["ro"], ho["vo"])
            if before is not None and (c.units, c.origin) != (spec["units"], spec["origin"]):
                raise Violation("frame", "%s: the cluster is in %r" % (where, (c.units, c.origin)))
            if c.units == "radec":
                if op["via"] != "init":
                    continue
                sky = p._sky(want[:3], want[3:])[:, 0]
                got = np.array([float(getattr(c, k + "gc")) for k in W.XK + W.VK])
                d = np.abs(got - sky)
                d[0] = min(d[0], 360.0 - d[0])
                # seen from the Sun of the orbit, which is the cluster's when they have the same scales
                if (ho["ro"], ho["vo"]) == (None, None) and not np.all(d <= np.array([1e-5, 1e-5, 1e-5, 1e-4, 1e-4, 1e-3])):
                    raise Violation("handover:sky", "%s: the orbit on the sky is %s, not %s" % (where, got.tolist(), sky.tolist()))
                compared += 1
                continue
            L, V, M, T = p.factors(c.units)
            got = np.array([float(getattr(c, k + "gc")) / L for k in W.XK] + [float(getattr(c, k + "gc")) / V for k in W.VK])
            self.near(got, want, where, "handover:orbit", "the cluster's orbit %.4f Gyr after the orbit's own start (%s)" % (t, c.units), 5.0)
            if before is not None:
                tol = W.tol_of(c, p)
                for k in W.XK + W.VK:
                    a, b = np.array(W.num(getattr(c, k))), np.array(before[k], dtype=float)
                    if c.origin == "centre":
                        a, b = a + float(getattr(c, k + "c")), b + float(before[k + "c"])
                    s = L if k in W.XK else V
                    if not W.close(a, b, 1e-9, 1e-9 * max(1.0, np.max(np.abs(want[:3] if k in W.XK else want[3:]))) * s):
                        raise Violation("handover:stars", "%s: %s of the stars changed: %s" % (where, k, W.worst(a, b)))
                if not W.close(float(c.tphys), 1000.0 * t * T, 1e-9, 0):
                    raise Violation("handover:time", "%s: tphys is %r" % (where, c.tphys))
            compared += 1
            log.arr("g", got)
        log.nontrivial = compared >= 2

    # ------------------------------------------------------------------------------------------
    def tunits(self, cl, p, T):
        """T Gyr in the cluster's units of time"""
        if cl.units == "amuse":
            import amuse.units.units as u
            return 1000.0 * T | u.Myr
        t = p.factors(cl.units)[3] * 1000.0
        return T * t

    def read(self, cl, p):
        """(orbit, stars) in pc, km/s, galactocentric, from the public data"""
        c = copy.deepcopy(cl)
        if c.units == "radec" or c.origin != "galaxy":
            c.to_galaxy()
        c.to_pckms()
        g = np.array([float(W.num(getattr(c, k + "gc"))) for k in W.XK + W.VK])
        s = np.column_stack([W.num(getattr(c, k)) for k in W.XK + W.VK])
        return g, s

    def near(self, got, want, where, sig, what, f=1.0, vf=1.0):
        got, want = np.atleast_2d(got), np.atleast_2d(want)
        R = float(np.max(np.sqrt(np.sum(want[:, :3] ** 2, axis=1))))
        V = max(float(np.max(np.sqrt(np.sum(want[:, 3:] ** 2, axis=1)))), 1e-300)
        if got.shape != want.shape:
            raise Violation(sig, "%s: %s has shape %s, expected %s" % (where, what, got.shape, want.shape))
        if not (W.close(got[:, :3], want[:, :3], 0, POS * R * f) and W.close(got[:, 3:], want[:, 3:], 0, VEL * V * f * vf)):
            raise Violation(sig, "%s: %s: positions %s, velocities %s" % (where, what, W.worst(got[:, :3], want[:, :3]), W.worst(got[:, 3:], want[:, 3:])))

    def untouched(self, before, cl, p, where, sig):
        after = W.snapshot(cl)
        allowed = set()
        if p.nb and cl.units == "nbody":           # the way back from other units rewrites them, label included
            W.same_binaries(before, after, where, p.scale, sig)
            allowed = set(W.BIN) | {"bunits"}
        W.compare_snap(before, after, where, W.tol_of(cl, p), allow=allowed, sig=sig)

    def execute(self, plan, log):
        if plan.get("handover"):
            return self.run_handover(plan, log)
        spec = plan["specs"][0]
        cl, p = W.build(spec)
        st = W.Stale()
        cm = spec["cm"]
        if spec["units"] == "radec":
            p.skylevel = 1

        g_ref = p.g.copy()                     # carried by the reference integration alone, from the start
        s_ref = np.column_stack([p.rel + p.g[:3], p.vel + p.g[3:]])
        free = True                            # every step so far was one whose composition is defined
        steps = compared = 0
        for i, op in enumerate(plan["ops"]):
            f0 = (cl.units, cl.origin)
            where = "step %d %s in (%s, %s)" % (i, {a: b for a, b in op.items() if a != "c"}, f0[0], f0[1])
            log.ev(where)
            log.steps += 1
            if op["op"] == "bunits" and not p.nb:
                continue
            if op["op"] in ("orb", "stars", "path", "object", "match", "tail"):
                try:
                    r = getattr(self, "do_" + op["op"])(cl, p, op, where, log, cm)
                except Violation:
                    raise
                except HarnessError:
                    raise
                except Exception as ex:
                    import traceback
                    tb = [f for f in traceback.extract_tb(ex.__traceback__) if "clustertools" in f.filename]
                    if not tb:
                        raise
                    raise Violation("exception:%s:%s" % (op["op"], type(ex).__name__), "%s raised %r at line %d" % (where, ex, tb[-1].lineno))
                if r is None:
                    continue
                log.state(op["op"], op.get("pot"), op["T"] > 0, f0)
                if op["T"] < 0:
                    log.fault("time reversed")
                if op["op"] in ("path", "object", "match", "tail") or op["via"] == "func":
                    compared += 1
                    continue
                if (cl.units, cl.origin) != f0:
                    raise Violation("frame", "%s left (%s, %s)" % (where, cl.units, cl.origin))
                compared += 1
                pot, ro, vo = r
                if op.get("centre") or (op["op"] == "stars" and f0[1] in ("cluster", "centre")):
                    # these do not follow the one flow of the galaxy: start the long comparison again
                    g_ref, s_ref = self.read(cl, p)
                    steps = 0
                else:
                    steps += 1
                    g_new = advance(g_ref, op["T"], pot, ro, vo)[0]
                    if op["op"] == "orb":
                        s_ref = s_ref - g_ref + g_new
                    else:
                        s_ref = advance(s_ref, op["T"], pot, ro, vo)
                    g_ref = g_new
                g, s = self.read(cl, p)
                self.near(g, g_ref, where, "history:orbit", "the orbit after the whole history", 2.0 + steps)
                self.near(s, s_ref, where, "history:stars", "the stars after the whole history", 2.0 + steps)
                p.g = g
                p.rel, p.vel = s[:, :3] - g[:3], s[:, 3:] - g[3:]
                p.touch()
                if f0[0] == "radec":
                    p.skylevel = 1
                W.check_phys(cl, p, cm, where)
                W.check_derived(cl, where, W.Stale(), p)
                log.arr("g", g)
                continue
            W.apply_frame_op(cl, op, st)
            log.fault("frame changed between steps")
            if "radec" in (f0[0], cl.units):
                p.skylevel = 1
            if cl.units == "radec" and cl.origin in ("cluster", "centre"):
                cm = cl.centre_method
        log.nontrivial = compared >= 2

    def scales(self, cl, p, op):
        """the distance and speed scale asked for, if any"""
        if op.get("scale") and cl.units not in ("radec", "galpy"):
            return dict(ro=8.0, vo=220.0)
        return {}

    def do_orb(self, cl, p, op, where, log, cm):
        import clustertools as ct
        if cl.units == "radec" and (op["centre"] or cl.origin != "sky"):
            return None
        if cl.origin == "centre" and op["centre"]:
            return None
        pot = A.pot(op["pot"])
        sc = self.scales(cl, p, op)
        ro, vo = sc.get("ro", p.ro), sc.get("vo", p.vo)
        kw = dict(pot=pot, tfinal=self.tunits(cl, p, op["T"]), nt=op["nt"], **sc)
        start = p.g + (p.c if op["centre"] else 0.0)
        if op["centre"]:
            kw["from_centre"] = True
        want = advance(start, op["T"], pot, ro, vo)[0]
        before = W.snapshot(cl)
        if op["via"] == "func":
            r = ct.interpolate_orbit(cl, **kw)
            self.untouched(before, cl, p, where, "func-changed")
        else:
            if op["via"] == "alias":
                kw.pop("from_centre", None)
                if op["centre"]:
                    want = advance(p.g, op["T"], pot, ro, vo)[0]
                r = cl.orbit_interpolate(**kw)
            else:
                r = cl.interpolate_orbit(**kw)
            for k, v in zip(W.XK + W.VK, r):
                if not W.close(np.atleast_1d(W.num(getattr(cl, k + "gc"))), np.atleast_1d(W.num(v)), 1e-8, 1e-9):
                    raise Violation("returned:orbit", "%s: returned %s is %r but the cluster's %sgc is %r" % (where, k, v, k, getattr(cl, k + "gc")))
        self.near(self.galactic(r, cl, p), want, where, "orbit", "the orbit")
        return pot, ro, vo

    def galactic(self, six, cl, p):
        """six numbers (or arrays) in the cluster's frame units -> (n,6) pc, km/s galactocentric"""
        a = np.column_stack([np.atleast_1d(W.num(v)) for v in six]).astype(float)
        if cl.units == "radec":
            from galpy.orbit import Orbit
            o = Orbit(a, radec=True, ro=p.ro, vo=p.vo, zo=p.zo, solarmotion=p.solarmotion)
            return np.column_stack([np.atleast_1d(getattr(o, k)()) * (1000.0 if len(k) == 1 else 1.0) for k in W.XK + W.VK])
        L, V, M, T = p.factors(cl.units)
        return a / np.array([L] * 3 + [V] * 3)

    def do_stars(self, cl, p, op, where, log, cm):
        import clustertools as ct
        if op["centre"] or (cl.units == "radec" and cl.origin != "sky"):
            return None
        T = op["T"]
        sc = self.scales(cl, p, op)
        ro, vo = sc.get("ro", p.ro), sc.get("vo", p.vo)
        if cl.origin in ("cluster", "centre"):
            pot = plummer(ro, vo)
            T = op["T"] = float(np.sign(T) * min(abs(T), 0.0015))
            off = p.c if cl.origin == "centre" else np.zeros(6)
            start = np.column_stack([p.rel - off[:3], p.vel - off[3:]])
        else:
            pot = A.pot(op["pot"])
            start = np.column_stack([p.rel + p.g[:3], p.vel + p.g[3:]])
        want = advance(start, T, pot, ro, vo)
        kw = dict(pot=pot, tfinal=self.tunits(cl, p, T), nt=max(op["nt"], 10), **sc)
        before = W.snapshot(cl)
        if op["via"] == "func":
            r = ct.interpolate_orbits(cl, **kw)
            self.untouched(before, cl, p, where, "func-changed")
        else:
            r = cl.orbits_interpolate(**kw) if op["via"] == "alias" else cl.interpolate_orbits(**kw)
            for k, v in zip(W.XK + W.VK, r):
                if not W.close(W.num(getattr(cl, k)), W.num(v), 1e-9, 1e-300):
                    raise Violation("returned:stars", "%s: returned %s differ from the cluster's" % (where, k))
        f = 10.0 if cl.origin in ("cluster", "centre") else 1.0
        self.near(self.galactic(r, cl, p), want, where, "stars", "the stars", f)
        return pot, ro, vo

    def do_path(self, cl, p, op, where, log, cm):
        import clustertools as ct
        if cl.units == "radec" and (not op["sky"] or op["centre"] or cl.origin != "sky"):
            return None
        pot = A.pot("MW")
        sc = self.scales(cl, p, op) if not op["sky"] else {}
        ro, vo = sc.get("ro", p.ro), sc.get("vo", p.vo)
        kw = dict(pot=pot, tfinal=self.tunits(cl, p, op["T"]), nt=op["nt"], skypath=op["sky"], from_centre=op["centre"], **sc)
        before = W.snapshot(cl)
        if op["via"] == "func":
            if op["init"]:
                kw["initialize"] = True
            r = ct.orbital_path(cl, **kw)
            if op["init"]:
                self.near(self.orbit_now(r[7]), advance(p.g + (p.c if op["centre"] else 0), -op["T"], pot, ro, vo)[0], where, "path-orbit",
                          "the orbit handed back with the path", 5.0)
        else:
            r = cl.orbital_path(**kw)
            for k, v in zip(("tpath", "xpath", "ypath", "zpath", "vxpath", "vypath", "vzpath"), r):
                if not W.close(W.num(getattr(cl, k)), W.num(v), 1e-12, 1e-300):
                    raise Violation("returned:path", "%s: %s is not the path returned" % (where, k))
        self.untouched(before, cl, p, where, "path-changed")
        if cl.units == "amuse":
            t = W.num(r[0]) / 1000.0
        else:
            t = W.num(r[0]) / (p.factors(cl.units)[3] * 1000.0)
        if t.shape != (op["nt"],) or not W.close(t[[0, -1]], np.array([-op["T"], op["T"]]), 1e-6, 0) or np.any(np.diff(t) <= 0):
            raise Violation("path-times", "%s: times run from %r to %r Gyr (%d)" % (where, t[0], t[-1], len(t)))
        start = p.g + (p.c if op["centre"] else 0.0)
        def along(times):
            return advance(start, np.append(0.0, times), pot, ro, vo)[1:, 0] if len(times) else np.empty((0, 6))
        z = np.abs(t) < 1e-9 * op["T"]
        want = np.vstack([along(t[(t < 0) & ~z][::-1])[::-1]] + [start[None]] * int(z.sum()) + [along(t[(t > 0) & ~z])])
        if op["sky"]:
            o = p._sky(want[:, :3], want[:, 3:]).T
            got = np.column_stack([W.num(v) for v in r[1:7]])
            d = np.abs(got - o)
            d[:, 0] = np.minimum(d[:, 0], 360.0 - d[:, 0]) * np.cos(np.radians(o[:, 1]))
            dist = o[:, 2]
            ang = np.degrees(POS * 10 * np.max(np.linalg.norm(want[:, :3], axis=1)) / 1000.0 / np.min(dist))
            if np.max(np.abs(o[:, 1])) > 75 or np.min(dist) < 0.5:
                return True
            if np.any(d[:, 0] > ang) or np.any(d[:, 1] > ang) or np.any(d[:, 2] > POS * 10 * 20):
                raise Violation("path-sky", "%s: the path on the sky is off by %r deg, %r deg, %r kpc" % (where, float(d[:, 0].max()), float(d[:, 1].max()), float(d[:, 2].max())))
            return True
        self.near(self.galactic(r[1:7], cl, p), want, where, "path", "the path", 5.0)
        k = int(np.argmin(np.abs(t)))
        log.arr("path", W.num(r[1]))
        return True

    # -- stars along a path
    def lib_path(self, cl, op, nt):
        """the path the library itself works out (which do_path compares with an independent integration), in kpc, km/s, Gyr or on the sky"""
        import clustertools as ct
        c = copy.deepcopy(cl)
        if c.units == "amuse":
            c.to_pckms()
        c.to_galaxy(sortstars=False)
        c.to_kpckms()
        return [W.num(v) for v in ct.orbital_path(c, tfinal=op["T"], nt=nt, pot=A.pot(op["pot"]), from_centre=op["centre"], skypath=op["sky"])]

    def made_path(self, p, op):
        """a path of the caller's own through the cluster"""
        r = np.random.Generator(np.random.PCG64(op["pseed"]))
        n = op["nt"]
        size = float(np.std(p.rel)) * r.uniform(0.5, 3.0) + 0.1
        t = np.sort(r.uniform(-op["T"], op["T"], n))
        u = t / op["T"]
        d, e = r.normal(size=(2, 3))
        x = p.g[:3] + size * (d * u[:, None] + 0.4 * e * np.sin(2.5 * u)[:, None] + 0.3 * r.normal(size=3) * (u ** 2)[:, None])
        v = p.g[3:] + r.normal(size=(n, 3)) * 20.0
        if op["sky"]:
            return [t] + list(p._sky(x, v))
        return [t] + list((x / 1000.0).T) + list(v.T)

    def matched(self, q, path, projected, to_path):
        """independent: for every star (n,3) the nearest point, the distance along the path, off it, and which stars are too close to call"""
        t, xyz, v = path[0], np.column_stack(path[1:4]), np.column_stack(path[4:7])
        k = 2 if projected else 3
        d = np.sqrt(((q[:, None, :k] - xyz[None, :, :k]) ** 2).sum(axis=2))
        i = d.argmin(axis=1)
        two = np.sort(d, axis=1)[:, :2]
        sure = two[:, 1] - two[:, 0] > 1e-7 * (two[:, 1] + 1e-3 * np.abs(xyz[:, :k]).max() * 1e-3)
        step = np.sqrt((np.diff(xyz[:, :k], axis=0) ** 2).sum(axis=1))
        s = np.append(0.0, np.cumsum(step))
        dprog = s[i] - s[np.abs(t).argmin()]
        off = q[:, :k] - xyz[i, :k]
        dist = np.sqrt((off ** 2).sum(axis=1))
        if to_path:
            j = np.minimum(i, len(t) - 2)
            u = (xyz[j + 1, :k] - xyz[j, :k]) / step[j][:, None]
            dist = np.sqrt(np.maximum(((off - u * (off * u).sum(axis=1)[:, None]) ** 2).sum(axis=1), 0.0))
        sign = None
        if not projected:
            w = np.cross(xyz[i], v[i])
            c = (off * w).sum(axis=1) / np.linalg.norm(w, axis=1)
            sign = np.where(c < 0, -1.0, 1.0)
            sign[np.abs(c) < 1e-6 * np.linalg.norm(off, axis=1) + 1e-12 * np.abs(xyz).max()] = 0.0
        return i, sure, dprog, dist, sign

    def setting(self, cl, p, op):
        """where the matching happens, or None where the library has none"""
        if op["sky"] and cl.units == "amuse" or cl.units == "radec" and (not op["sky"] or op["centre"] or cl.origin != "sky"):
            return None
        if op["sky"]:
            st, gc, cc = p.sky()
            if np.max(np.abs(st[1])) > 75 or np.ptp(st[0]) > 90:
                return None
            return st[:3].T, 1.0, max(1e-9, 3e-9 * 360 * (1 if p.skylevel else 0.03))
        L = 1e-3 if cl.units == "amuse" else p.factors(cl.units)[0]
        return (p.rel + p.g[:3]) / 1000.0, 1000.0 * (1.0 if cl.units == "amuse" else L), 1e-11 * np.abs(p.g[:3]).max() / 1000.0 * (1 if not p.skylevel else 3000)

    def compare_match(self, r, cl, p, q, path, op, scale, tol, where, sig):
        projected = op["projected"] or op["sky"]
        i, sure, dprog, dist, sign = self.matched(q, path, projected, op["to_path"])
        T = 1.0 if cl.units == "amuse" else p.factors(cl.units)[3] * 1000.0
        ts, dp, dd = [np.asarray(W.num(v), dtype=float) for v in r]
        if cl.units == "amuse":
            ts, scale = ts / 1000.0, 1000.0
        for v, what in ((ts, "tstar"), (dp, "dprog"), (dd, "dpath")):
            if v.shape != (len(q),):
                raise Violation(sig + ":shape", "%s: %s has shape %s for %d stars" % (where, what, v.shape, len(q)))
        # which point is nearest is not settled where the coordinates themselves are not
        d = np.sort(np.sqrt(((q[:, None, :2 if projected else 3] - np.column_stack(path[1:4])[None, :, :2 if projected else 3]) ** 2).sum(axis=2)), axis=1)
        sure = sure & (d[:, 1] - d[:, 0] > 20 * tol)
        if not sure.any():
            return 0
        big = np.max(np.abs(path[0]))
        if not W.close(ts[sure] / T, path[0][i][sure], 1e-9, 1e-9 * big):
            raise Violation(sig + ":time", "%s: the stars' times along the path: %s" % (where, W.worst(ts[sure] / T, path[0][i][sure])))
        total = np.abs(np.diff(np.column_stack(path[1:4])[:, :2 if projected else 3], axis=0)).sum()
        if not W.close(dp[sure] / scale, dprog[sure], 1e-8, 4 * tol * len(path[0]) + 1e-10 * total):
            raise Violation(sig + ":dprog", "%s: distances along the path: %s" % (where, W.worst(dp[sure] / scale, dprog[sure])))
        dd = dd / scale
        if op["to_path"]:
            # the library takes the angle to the path: where it is close to 0 or 180 degrees its cosine decides to the eighth digit only
            ok = sure & ~np.isnan(dd)
            bad = sure & np.isnan(dd) & (dist > 1e-3 * d[:, 0])
            if bad.any():
                raise Violation(sig + ":dpath", "%s: distances off the path are NaN for stars %s" % (where, np.flatnonzero(bad).tolist()))
            atol = 1e-6 * d[:, 0].max() + 4 * tol + 2e4 * tol * d[:, 0].max() / max(np.min(np.linalg.norm(np.diff(np.column_stack(path[1:4])[:, :2 if projected else 3], axis=0), axis=1)), 1e-300)
            if not W.close(np.abs(dd[ok]), dist[ok], 1e-6, atol):
                raise Violation(sig + ":dpath", "%s: distances off the path: %s" % (where, W.worst(np.abs(dd[ok]), dist[ok])))
            ok &= dist > 10 * atol
        else:
            ok = sure
            if not W.close(np.abs(dd[ok]), dist[ok], 1e-8, 4 * tol):
                raise Violation(sig + ":dpath", "%s: distances off the path: %s" % (where, W.worst(np.abs(dd[ok]), dist[ok])))
        if sign is not None:
            ok = ok & (sign != 0) & (dist > 20 * tol)
            if np.any(np.sign(dd[ok]) != sign[ok]):
                raise Violation(sig + ":side", "%s: stars %s are on the other side of the path" % (where, np.flatnonzero(ok & (np.sign(dd) != sign)).tolist()))
        return int(sure.sum())

    def do_match(self, cl, p, op, where, log, cm):
        import clustertools as ct
        got = self.setting(cl, p, op)
        if got is None:
            return None
        q, scale, tol = got
        kw = dict(tfinal=op["T"], nt=op["nt"], pot=A.pot(op["pot"]), skypath=op["sky"], from_centre=op["centre"], projected=op["projected"],
                  to_path=op["to_path"], do_full=op["do_full"])
        if op["path"]:
            path = self.made_path(p, op)
            if cl.units == "amuse":
                given = [v.copy() for v in path]
                if op["quantities"]:
                    import amuse.units.units as u
                    given = [v | w for v, w in zip(given, [u.Gyr] + [u.kpc] * 3 + [u.kms] * 3)]
            else:
                L, V, M, T = p.factors(cl.units)
                f = [1000.0 * T] + ([1.0] * 6 if op["sky"] else [1000.0 * L] * 3 + [V] * 3)
                given = [v * w for v, w in zip(path, f)]
            kw["path"] = tuple(given)
        else:
            path = self.lib_path(cl, op, op["nt"])
        before = W.snapshot(cl)
        if op["via"] == "method":
            r = cl.orbital_path_match(**kw)
        else:
            r = ct.orbital_path_match(cl, **kw)
        self.untouched(before, cl, p, where, "match-changed")
        n = self.compare_match(r, cl, p, q, path, op, scale, tol, where, "match")
        log.probe("stars matched to a path: %s" % ("all" if n == len(q) else "some" if n else "none"))
        log.arr("match", W.num(r[0]))
        return True

    def do_tail(self, cl, p, op, where, log, cm):
        """the tail is the mean of the stars matched to each stretch of the path"""
        import clustertools as ct
        got = self.setting(cl, p, op)
        if got is None or cl.units == "radec":
            return None
        q, scale, tol = got
        kw = dict(tfinal=op["T"], no=op["no"], nt=op["nt"], ntail=op["ntail"], pot=A.pot(op["pot"]), skypath=op["sky"], from_centre=op["centre"],
                  projected=op["projected"], to_path=op["to_path"], do_full=op["do_full"], bintype=op["bintype"])
        dmax = None
        if op["dmax"] is not None:
            if op["sky"]:
                return None
            dmax = op["dmax"] * float(np.std(p.rel)) / 1000.0
            if cl.units == "amuse":
                import amuse.units.units as u
                kw["dmax"] = dmax | u.kpc
            else:
                kw["dmax"] = dmax * scale
        path = self.lib_path(cl, op, op["no"])
        projected = op["projected"] or op["sky"]
        i, sure, dprog, dist, sign = self.matched(q, path, projected, op["to_path"])
        d = np.sort(np.sqrt(((q[:, None, :2 if projected else 3] - np.column_stack(path[1:4])[None, :, :2 if projected else 3]) ** 2).sum(axis=2)), axis=1)
        if not (sure & (d[:, 1] - d[:, 0] > 20 * tol)).all() or dmax is not None and np.any(np.abs(dist - dmax) < 1e-4 * dmax):
            return None
        t, T = path[0][i], op["T"]
        nt, ntail = op["nt"], op["ntail"]
        if op["bintype"] == "num":
            # stretches with the same number of path points; only the plain ones are settled beyond rounding
            if ntail > nt:
                return None
            edge = path[0][(np.arange(nt) * op["no"] / nt).astype(int)]
            which = np.searchsorted(edge, t + 1e-9 * T, side="right") - 1
            home = np.searchsorted(edge, path[0] + 1e-9 * T, side="right") - 1
            mid = np.array([path[0][home == b].mean() for b in range(nt)])
            member = [which == b for b in range(nt)]
        elif ntail > nt:
            w = 2 * T / nt
            lo = np.linspace(-T, T - w, ntail)
            if np.any(np.abs(t[:, None] - np.concatenate([lo, lo + w])[None]) < 1e-7 * T):
                lo = None
            if lo is None:
                return None
            mid = lo + w / 2
            member = [(t >= a) & (t <= a + w) for a in lo]
        else:
            edge = np.linspace(-T, T, nt + 1)
            if np.any(np.abs(t[:, None] - edge[None, 1:-1]) < 1e-7 * T):
                return None
            which = np.clip(np.searchsorted(edge, t) - 1, 0, nt - 1)
            mid = 0.5 * (edge[1:] + edge[:-1])
            member = [which == b for b in range(nt)]
        if dmax is not None:
            member = [m & (dist <= dmax) for m in member]
        keep = [b for b, m in enumerate(member) if m.any()]
        full = np.column_stack([(p.rel + p.g[:3]) / 1000.0, p.vel + p.g[3:]])
        mean = np.array([full[member[b]].mean(axis=0) for b in keep]).reshape(-1, 6)
        if op["sky"] and len(keep) == 0:
            return None
        before = W.snapshot(cl)
        if op["via"] == "method":
            kw["dt"] = kw.pop("tfinal")         # what the method calls it
        r = cl.tail_path(**kw) if op["via"] == "method" else ct.tail_path(cl, **kw)
        self.untouched(before, cl, p, where, "tail-changed")
        r = [np.atleast_1d(W.num(v)) for v in r]
        if any(len(v) != len(keep) for v in r):
            raise Violation("tail:stretches", "%s: %d points for %d stretches with stars" % (where, len(r[0]), len(keep)))
        T1 = 1000.0 if cl.units == "amuse" else p.factors(cl.units)[3] * 1000.0
        if not W.close(r[0] / T1, mid[keep], 1e-7, 1e-7 * T):
            raise Violation("tail:times", "%s: times along the tail: %s" % (where, W.worst(r[0] / T1, mid[keep])))
        if op["sky"]:
            want = p._sky(1000.0 * mean[:, :3], mean[:, 3:]).T
            lim = np.array([1e-6, 1e-6, 1e-6, 1e-5, 1e-5, 1e-4])
            got = np.column_stack(r[1:])
            if not np.all(np.abs(got - want) <= lim * (1.0 + np.abs(want))):
                raise Violation("tail:mean", "%s: the tail on the sky is off by %s" % (where, np.abs(got - want).max(axis=0).tolist()))
        else:
            L, V, M, _ = (1.0, 1.0, 1.0, 1.0) if cl.units == "amuse" else p.factors(cl.units)
            got = np.column_stack([v / (1000.0 * L) for v in r[1:4]] + [v / V for v in r[4:]])
            pos = 1e-11 * np.abs(p.g[:3]).max() / 1000.0 * (3000 if p.skylevel else 1)
            if not (W.close(got[:, :3], mean[:, :3], 1e-12, 4 * pos) and W.close(got[:, 3:], mean[:, 3:], 1e-9, 1e-6 if p.skylevel else 1e-8)):
                raise Violation("tail:mean", "%s: the tail: positions %s, velocities %s" % (
                    where, W.worst(got[:, :3], mean[:, :3]), W.worst(got[:, 3:], mean[:, 3:])))
        log.probe("tail stretches compared")
        if op["match"] and not op["sky"]:
            # matching to the tail is matching to that path
            if len(keep) > 1:
                kw.pop("bintype"), kw.pop("dmax", None), kw.pop("no"), kw.pop("ntail")
                c = cl.tail_path_match(path=tuple(self.as_given(r, cl)), **kw) if op["via"] == "method" else ct.tail_path_match(
                    cl, path=tuple(self.as_given(r, cl)), **kw)
                tail = [mid[keep]] + list(mean.T)
                self.compare_match(c, cl, p, q, tail, op, scale, max(tol, 4 * pos), where, "tail-match")
                self.untouched(before, cl, p, where, "tail-changed")
        log.arr("tail", r[1])
        return True

    def as_given(self, r, cl):
        if cl.units != "amuse":
            return r
        import amuse.units.units as u
        return [v | w for v, w in zip(r, [u.Myr] + [u.parsec] * 3 + [u.kms] * 3)]

    def do_object(self, cl, p, op, where, log, cm):
        """the orbit handed to the user is where the cluster (or its stars) is, and is seen there by the Sun"""
        import clustertools as ct
        kw = dict(op["sun"] or {}) if cl.units != "radec" else {}
        if op["stars"]:
            if op["centre"] or (cl.units == "radec" and cl.origin != "sky"):
                return None
            off = {"cluster": np.zeros(6), "centre": -p.c}.get(cl.origin, p.g)
            want = np.column_stack([p.rel, p.vel]) + off
        else:
            if op["centre"]:
                kw["from_centre"] = True
            want = (p.g + (p.c if op["centre"] else 0.0))[None]
        before = W.snapshot(cl)
        name = "initialize_orbits" if op["stars"] else "initialize_orbit"
        o = getattr(cl, name)(**kw) if op["via"] == "method" else getattr(ct, name)(cl, **kw)
        if op["via"] == "method":
            o = cl.orbits if op["stars"] else cl.orbit
        self.untouched(before, cl, p, where, "object-changed")
        got = np.column_stack([np.atleast_1d(getattr(o, k)()) * (1000.0 if len(k) == 1 else 1.0) for k in W.XK + W.VK])
        self.near(got, want, where, "object", "the orbit object")
        log.arr("object", got)
        if op["stars"] and cl.origin in ("cluster", "centre"):
            return True
        q = copy.copy(p)
        q.zo, q.solarmotion = kw.get("zo", p.zo), kw.get("solarmotion", p.solarmotion)
        sky = q._sky(want[:, :3], want[:, 3:]).T
        if np.max(np.abs(sky[:, 1])) > 75 or np.min(sky[:, 2]) < 0.5:
            return True
        got = np.column_stack([np.atleast_1d(getattr(o, k)()) for k in ("ra", "dec", "dist", "pmra", "pmdec", "vlos")])
        d = np.abs(got - sky)
        d[:, 0] = np.minimum(d[:, 0], 360.0 - d[:, 0])
        if not np.all(d <= np.array([1e-5, 1e-5, 1e-5, 1e-4, 1e-4, 1e-3])):
            raise Violation("object-sky", "%s: seen from the Sun the orbit object is off by %s (ra, dec, dist, pmra, pmdec, vlos)" % (where, d.max(axis=0)))
        return True

    def orbit_now(self, o):
        return np.array([float(getattr(o, k)()) * (1000.0 if len(k) == 1 else 1.0) for k in W.XK + W.VK])
