"""C05: a failure inside a calculation surfaces and leaves a recoverable cluster."""
import random

import numpy as np

from . import asks as A, callouts as F, edits as E, world as W
from .core import Check, HarnessError, Violation, derive
from .c01 import C01
from .c04 import C04
from .model import CART, VK, XK, num


class C05(C04):
    prop = "C05"
    quick_runs = 700
    thorough_runs = 30000
    real = ["every question of the catalogue and every frame change", "the exception paths of clustertools"]
    stub = ["the failing call into galpy, scipy, numpy, matplotlib, astropy or open() is replaced by the exception it would raise"]
    fault_kinds = tuple(sorted(F.KINDS))
    rule = ("a seeded history of questions and frame changes in which calls into dependencies fail; the cluster must still be the "
            "model cluster under true labels, and the repeated operation must answer like a never-failed cluster; non-trivial when "
            "at least one fault struck")
    state_measure = "distinct (operation, options, units, origin, failing call site, exception kind) combinations"
    assumptions = ["faults strike at calls out of clustertools; an interrupt between two statements of a conversion is not modelled",
                   "a fit that reports LinAlgError/ValueError/RuntimeError may be answered with the documented 'did not converge' "
                   "values instead of an exception"]

    def generate(self, rng, tier, index):
        spec = W.gen_spec(rng, nmin=8, nmax=20, energies=True)
        ops = []
        for _ in range(rng.randint(1, 5)):
            ops.append(W.gen_frame_op(rng, spec, amuse=rng.random() < 0.3))
        nf = rng.randint(1, 3)
        for _ in range(nf):
            if rng.random() < 0.75:
                op = A.gen_ask(rng, spec)
            else:
                op = W.gen_frame_op(rng, spec)
                while op["op"] == "savereturn":
                    op = W.gen_frame_op(rng, spec)
            want = rng.choice([None, None, ["galpy", "scipy", "matplotlib", "open"], ["galpy", "scipy"], ["matplotlib"], ["alloc"], ["alloc"]])
            op["fault"] = dict(at=rng.randrange(1 << 30), seed=rng.randrange(1 << 30), want=want)
            ops.append(op)
            if rng.random() < 0.4:
                ops.append(W.gen_frame_op(rng, spec, amuse=False))
        return dict(specs=[spec], ops=[dict(o, c=0) for o in ops])

    def execute(self, plan, log):
        spec = plan["specs"][0]
        cl, p = W.build(spec)
        ref, p2 = W.build(spec)
        seam = F.seam()
        st, st2 = W.Stale(), W.Stale()
        cm = spec["cm"]
        for i, op in enumerate(plan["ops"]):
            op0 = {a: b for a, b in op.items() if a not in ("c", "fault")}
            where = "step %d %s in (%s, %s)" % (i, op0, cl.units, cl.origin)
            if op["op"] == "bunits" and not p.nb:
                continue
            if "radec" in (cl.units, op.get("u")) or op.get("o") == "sky" or op.get("kw", {}).get("skypath") or "sky" in op.get("ask", ""):
                p.skylevel = p2.skylevel = 1
            if op["op"] == "ask":
                if not A.usable(op["ask"], cl, op["kw"], spec):
                    continue
                do = lambda c, q, s: A.invoke(op["ask"], c, op["kw"], q)
            else:
                do = lambda c, q, s: W.apply_frame_op(c, op0, s)
            if not op.get("fault"):
                do(cl, p, st)
                do(ref, p2, st2)
                cm = self.method(cl, cm)
                continue
            f = op["fault"]
            if op["op"] == "ask":
                cl.analyze()
                ref.analyze()
                st.r = st.order = st2.r = st2.order = False
            u0, o0 = cl.units, cl.origin
            cm0 = cm
            # the never-failed cluster: how many callouts does this operation make, and what does it answer?
            r = seam.run(lambda: do(ref, p2, st2), want=f["want"])
            if r[0] == "exc":
                log.probe("natural exception")
                return
            if seam.n == 0:
                do(cl, p, st)
                cm = self.method(cl, cm)
                continue
            at = f["at"] % seam.n
            kind = f.get("kind") or F.kinds_for(seam.trace[at], random.Random(f["seed"]))
            x = seam.run(lambda: do(cl, p, st), at=at, kind=kind, want=f["want"])
            hit = seam.hit
            if hit is None:
                raise HarnessError("callout %d of %d not reached again: %s" % (at, seam.n, where))
            log.fault(kind)
            log.steps += 1
            log.nontrivial = True
            log.ev(where, hit, kind, x[0])
            log.state(op.get("ask", op["op"]), sorted(op.get("kw", {})), u0, o0, hit, kind)
            label = "%s, %s at %s" % (where, kind, hit)
            if x[0] == "ok":
                if op["op"] == "ask":
                    d = A.differ(x[1], r[1], rtol=1e-6)
                    if d and not self.fitted(op, kind):
                        raise Violation("swallowed:%s" % op.get("ask", op["op"]), "%s: no exception, and another answer: %s" % (label, d))
                log.probe("survived")
            elif not F.surfaced(x[1]):
                raise Violation("masked:%s" % op.get("ask", op["op"]), "%s: the caller got %r instead" % (label, x[1]))
            # the same physical stars, under labels that are true
            st.r = st.order = True
            cm = self.method(cl, cm)
            W.check_phys(cl, p, cm, label + ": afterwards")
            # back to where it was asked, and again
            try:
                if cl.units != u0:
                    cl.to_units(u0)
                if cl.origin != o0:
                    cl.to_origin(o0, **(dict(centre_method=cm0) if u0 == "radec" and cm0 else {}))
                cl.analyze()
                st.r = st.order = False
                cm = self.method(cl, cm0)
                W.check_phys(cl, p, cm, label + ": back in (%s, %s)" % (u0, o0))
                again = do(cl, p, st)
            except Violation:
                raise
            except Exception as ex:
                raise Violation("unrecoverable:%s" % op.get("ask", op["op"]), "%s: repeating it raised %r" % (label, ex))
            cm = self.method(cl, cm0)
            if op["op"] == "ask":
                d = A.differ(again, r[1], rtol=1e-6, atol=0.0)
                if d and not self.flaky(op, cl, p, again, r[1]):
                    raise Violation("repeat:%s" % op["ask"], "%s: repeated, it answers differently from a never-failed cluster: %s" % (label, d))
            else:
                if (cl.units, cl.origin) != (ref.units, ref.origin):
                    raise Violation("repeat:%s" % op["op"], "%s: repeated, the frame is (%s, %s), not (%s, %s)" % (
                        label, cl.units, cl.origin, ref.units, ref.origin))
            W.check_phys(cl, p, cm, label + ": after repeating")
            cl.analyze()
            ref.analyze()
            st.r = st.order = st2.r = st2.order = False
            W.check_derived(cl, label + ": after repeating", st, p)

    def method(self, cl, cm):
        if cl.units == "radec" and cl.origin in ("cluster", "centre"):
            return cl.centre_method
        return cm

    def fitted(self, op, kind):
        n = op["ask"].replace("f:", "")
        return kind in ("linalg", "value", "runtime") and n in ("alpha_prof", "eta_prof", "meq_prof", "tapered_mass_function")

    def flaky(self, op, cl, p, a, b):
        """rounding differences after going there and back may flip a discrete choice"""
        ra = self.answer(cl, p, op)
        if ra[0] == "exc":
            return False
        if op["ask"].replace("f:", "") in ("ckin", "meq_function", "meq_prof", "tapered_mass_function"):
            # where an optimiser stops moves with the rounding of a trip to another frame and back, on the sky above all
            if cl.units == "radec" or not A.differ(a, b, rtol=1e-2, atol=0.0):
                return True
        return self.jumps(cl, p, op, A.ASKS[op["ask"]], cl.units) if cl.units != "radec" else False

    def simplify(self, plan):
        import copy
        for q in C01.simplify(self, plan):
            yield q
