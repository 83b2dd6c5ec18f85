"""C07: caller threads working on different clusters do not affect each other."""
import copy
import os
import pickle
import sys
import traceback

import numpy as np

from . import asks as A, disk as D, edits as E, threads as T, world as W
from .core import REPO, Check, HarnessError, Violation
from .c01 import C01

PLOTS = ("starplot", "skyplot")


def gen_segs(rng, nt):
    mode = rng.choice(["fine", "mixed", "mixed", "coarse", "robin"])
    segs = []
    for i in range(rng.choice([8, 30, 80])):
        if mode == "fine":
            k = rng.randint(1, 12)
        elif mode == "coarse":
            k = rng.randint(20, 400)
        elif mode == "robin":
            segs.append([i % nt, rng.choice([1, 3, 10])])
            continue
        else:
            k = rng.choice([1, 1, 2, 5, 17, 60, 300, 1000])
        segs.append([rng.randrange(nt), k])
    return segs


class C07(C01):
    prop = "C07"
    quick_runs = 300
    thorough_runs = 12000
    quick_wall = 50
    thorough_wall = 750
    real = ["every analysis, profile, conversion, edit, reader and writer of StarCluster, called from real threads", "galpy", "scipy", "astropy"]
    stub = ["thread scheduling: one thread runs at a time and is switched between lines of clustertools by the seeded scheduler",
            "numba JIT switched off (same Python source, interpreted)"]
    rule = ("seeded scripts for 2-3 threads, each on its own cluster; the same scripts run alone in a process of their own give the "
            "expected answers; non-trivial when threads were switched at least ten times in the middle of operations; distinct by "
            "event-log digest")
    assumptions = ["no thread draws plots (pyplot is one global figure) or uses the global random stream",
                   "switches happen between source lines, not inside C code or callbacks of other libraries"]
    state_measure = "distinct (function a thread was held in, thread) pairs and (operation, frame) combinations"
    fault_kinds = ("thread preempted",)

    def warm(self):
        A.build()
        import h5py  # noqa: F401
        import matplotlib.pyplot  # noqa: F401

    def generate(self, rng, tier, index):
        nt = rng.choice([2, 2, 3])
        specs = [W.gen_spec(rng, nmin=6, nmax=16, energies=True) for _ in range(nt)]
        runs = [D.gen_run(rng) if rng.random() < 0.4 else None for _ in range(nt)]
        same = rng.random() < 0.5
        ops = []
        for k in range(nt):
            if same and k:
                base = [dict(o, c=k) for o in ops if o["c"] == 0]
                if runs[0] is not None and runs[k] is None:
                    runs[k] = D.gen_run(rng, runs[0]["fmt"])
                ops += base
                continue
            for _ in range(rng.randint(2, 5)):
                c = rng.random()
                if runs[k] is not None and c < 0.4:
                    op = dict(op="read")
                elif c < 0.5:
                    op = W.gen_frame_op(rng, specs[k], amuse=rng.random() < 0.2)
                    if op["op"] == "units":
                        op["analyze"] = True
                    op = dict(op, sort=True) if op["op"] == "origin" else op
                elif c < 0.58:
                    op = dict(op="out", w=rng.choice(["snapout", "sseout", "gyrout"]), energies=rng.random() < 0.3)
                elif c < 0.72:
                    op = E.gen(rng, specs[k])
                    if op["edit"] == "rotation":
                        continue
                else:
                    op = A.gen_ask(rng, specs[k])
                    if op["ask"].replace("f:", "") in PLOTS:
                        continue
                    op["kw"].pop("plot", None)
                ops.append(dict(op, c=k))
        return dict(specs=specs, runs=runs, ops=ops, segs=gen_segs(rng, nt))

    def simplify(self, plan):
        n = len(plan["segs"])
        for step in (n // 2, n // 4, 1):
            if step < 1:
                continue
            for a in range(0, n, step):
                p = copy.deepcopy(plan)
                del p["segs"][a:a + step]
                if p["segs"]:
                    yield p
        for k, r in enumerate(plan["runs"]):
            if r is not None and not any(o["op"] == "read" and o["c"] == k for o in plan["ops"]):
                p = copy.deepcopy(plan)
                p["runs"][k] = None
                yield p
        for i, s in enumerate(plan["specs"]):
            for key, val in (("n", 6), ("sse", False), ("bse", False), ("m0", False), ("npop", False), ("energies", False)):
                if s[key] != val:
                    p = copy.deepcopy(plan)
                    p["specs"][i][key] = val
                    yield p

    def script(self, plan, k):
        """what thread k does and sees; its files are named relative to the working directory"""
        spec = plan["specs"][k]
        cl, p = W.build(spec)
        run = None
        reader = None
        if plan["runs"][k] is not None:
            run = D.Run(plan["runs"][k], "run%d" % k)
            while run.write():
                pass
        import clustertools as ct
        from clustertools.util import output as O
        ops = [o for o in plan["ops"] if o["c"] == k]

        def go():
            nonlocal cl, reader
            out = []
            st = W.Stale()
            for i, op in enumerate(ops):
                name = op.get("ask") or op.get("edit") or op["op"]
                where = "thread %d step %d %s in (%s, %s)" % (k, i, {a: b for a, b in op.items() if a != "c"}, cl.units, cl.origin)
                if len(cl.x) < 4 or (op["op"] == "bunits" and cl.nb == 0):
                    continue
                if op["op"] == "ask" and not A.usable(op["ask"], cl, op["kw"], spec):
                    continue
                if op["op"] == "edit" and not E.usable(cl, op, spec):
                    continue
                if op["op"] == "out" and (cl.units == "amuse" or cl.units == "radec"):
                    continue
                try:
                    if op["op"] == "ask":
                        kw = {q: A.resolve(v, cl, E.Units(cl)) for q, v in op["kw"].items()}
                        r = A.flat(A.ASKS[op["ask"]].fn(cl, kw))
                    elif op["op"] == "edit":
                        r = A.flat(E.apply(cl, op))
                    elif op["op"] == "read":
                        if run is None:
                            continue
                        if reader is None:
                            reader = ct.load_cluster(**run.loadkw(run.first(0)))
                        elif reader.ntot:
                            reader = ct.advance_cluster(reader, **run.perkw())
                        r = A.flat(reader)
                    elif op["op"] == "out":
                        path = "out%d.%d" % (k, i)
                        if op["w"] == "snapout":
                            O.snapout(cl, path, energies=op["energies"] and np.size(cl.kin) == np.size(cl.pot) == np.size(cl.etot) == cl.ntot)
                        elif op["w"] == "sseout":
                            O.sseout(cl, path) if np.size(cl.kw) == np.size(cl.ep) == np.size(cl.m0) == cl.ntot else open(path, "w").close()
                        else:
                            O.gyrout(cl, filename=path)
                        r = [("file", "lit", open(path).read())]
                    else:
                        W.apply_frame_op(cl, op, st)
                        r = []
                except Exception as ex:
                    out.append((where, name, "exc", "%s: %s" % (type(ex).__name__, str(ex)[:120])))
                    continue
                out.append((where, name, "ok", r))
            out.append(("thread %d at the end" % k, "state", "ok", A.flat(cl) if cl.units != "amuse" else []))
            return out
        return go

    def alone(self, plan, k):
        """thread k's script in a process of its own"""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                with D.Disk() as disk:
                    try:
                        os.chdir(disk.root)
                        data = ("ok", self.script(plan, k)())
                    except BaseException:
                        data = ("harness", traceback.format_exc())
                    os.chdir("/")
                with os.fdopen(w, "wb") as f:
                    pickle.dump(data, f)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            b = f.read()
        os.waitpid(pid, 0)
        tag, data = pickle.loads(b)
        if tag != "ok":
            raise HarnessError(data)
        return data

    def execute(self, plan, log):
        n = len(plan["specs"])
        want = [self.alone(plan, k) for k in range(n)]
        with D.Disk() as disk:
            here = os.getcwd()
            os.chdir(disk.root)
            try:
                scripts = [self.script(plan, k) for k in range(n)]
                s = T.Scheduler(plan["segs"], os.path.join(REPO, "clustertools") + os.sep)
                got = s.run(scripts)
                if os.path.realpath(os.getcwd()) != os.path.realpath(disk.root):
                    raise Violation("cwd", "the working directory of the process was changed")
            finally:
                os.chdir(here)
        log.fault("thread preempted", s.switches)
        log.steps += s.lines
        for q in sorted(s.pairs):
            log.state(*q)
        for k in range(n):
            tag, res = got[k]
            if tag != "ok":
                raise HarnessError("thread %d: %r" % (k, res))
            self.compare(want[k], res)
            for w, name, kind, r in res:
                log.ev(w, kind)
                log.state(name)
                if kind == "ok":
                    for path, kd, v in r:
                        if kd == "num":
                            log.arr(path, v)
        log.ev("switches", s.switches, "lines", s.lines)
        log.nontrivial = s.switches >= 10

    def compare(self, a, b):
        if len(a) != len(b):
            raise Violation("threads", "alone: %d steps, with the other threads: %d" % (len(a), len(b)))
        for (wa, n, ka, ra), (wb, _, kb, rb) in zip(a, b):
            if ka != kb or ka == "exc" and ra.split(":")[0] != rb.split(":")[0]:
                raise Violation("threads:" + n, "%s: alone %s, with the other threads %s" % (
                    wa, ra if ka == "exc" else "an answer", rb if kb == "exc" else "an answer"))
            if ka == "exc":
                continue
            d = A.differ(ra, rb, 1e-9)
            if d:
                raise Violation("threads:" + n, "%s: alone and with the other threads: %s" % (wa, d))
