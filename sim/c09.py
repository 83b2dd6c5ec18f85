"""C09: a torn, short or failing input is never taken for a whole snapshot.

A simulation code dies while writing snapshot k (its file ends at an arbitrary byte), or the disk fails or returns short counts
while the library reads.  What the reader then gets is compared with what was written."""
import os

import numpy as np

from . import c08
from . import disk as D
from . import vfs as V
from . import world as W
from .core import Check, HarnessError, Violation


class C09(c08.C08):
    prop = "C09"
    quick_runs = 3500
    thorough_runs = 80000
    quick_wall = 50.0
    thorough_wall = 800.0
    real = c08.C08.real
    stub = ["the simulation code (writes exactly known snapshots and dies at a chosen byte)",
            "the raw file layer under open(): fails, or returns short counts, as planned"]
    rule = "a run counts as non-trivial when the damage was met by the reader (file cut inside the data, or a planned read failure or short read took place); distinct by event-log digest"
    state_measure = "distinct (format, damaged file, kind of damage, place of the damage, outcome) tuples"
    fault_kinds = ("cut", "cut-then-completed", "read-error", "read-error-persistent", "short-reads", "open-error")
    assumptions = ["a cut inside the last number of the last row of a text file cannot be told from a shorter number and is left out",
                   "plain snapshot files declare no number of stars: only cuts inside a row are tried on them",
                   "an OUT33 file ending between records is taken as having no entry", "hdf5 files are only cut (h5py does its own reading)",
                   "a star missing from a cut sev.83 file is marked with kw=-10, as the loader announces"]

    def generate(self, rng, tier, index):
        run = D.gen_run(rng, nsnap=rng.randint(1, 4), nmax=rng.choice([4, 9, 20]))
        k = rng.randrange(run["nsnap"])
        if run["fmt"] == "hdf5":
            run["nsnap"] = run["ngroups"] * rng.randint(1, 2)
            k = run["nsnap"] - 1
        kind = rng.choice(["cut", "cut", "cut", "read", "read", "short"])
        if run["fmt"] == "hdf5":
            kind = "cut"
        f = dict(kind=kind, k=k, file=rng.random(), at=rng.random(), retry=rng.choice([0, 1, 2]))
        if kind == "cut":
            f["complete"] = rng.random() < 0.5
            f["edge"] = rng.choice([None, None, "line", "start", "end"])
            f["orbit"] = run["orbit"] and rng.random() < 0.3
        elif kind == "read":
            f["call"] = rng.choice(["read", "read", "read", "open"])
            f["err"] = rng.choice(["eio", "eio", "estale", "eacces"])
            f["persist"] = rng.random() < 0.4
        else:
            f["short"] = rng.randint(1, 9)
        return dict(runs=[run], readers=[dict(run=0, k0=0, opt=c08.gen_opts(rng, run), galpy=False, units=run["units"])],
                    ops=[], faults=[f], buf=rng.choice([1, 7, 32, 256]))

    def play(self, plan, log, disk):
        import clustertools as ct
        run = D.Run(plan["runs"][0], disk.path("run0"))
        spec = plan["readers"][0]
        if not plan["faults"]:
            return
        f = plan["faults"][0]
        k = f["k"]
        stream = run.fmt in D.STREAM
        vfs = V.VFS(disk.path(), plan["buf"])
        saved = {}
        orbitfile = os.path.join(run.root, "orbit.dat")
        # ---- the simulation writes; it dies in the middle of snapshot k when the fault is a cut
        upto = run.total() if f["kind"] != "cut" else k + 1
        before = {}
        while run.written < upto:
            if f["kind"] == "cut" and run.written <= k:
                for p in run.files(k) + [orbitfile]:
                    before[p] = os.path.getsize(p) if os.path.exists(p) else 0
            run.write()
        place = "-"
        if f["kind"] == "cut":
            # the run was stopped after snapshot k; what is left of its files is a prefix
            files = run.files(k)
            if f["orbit"]:
                target = orbitfile
            else:
                target = files[min(len(files) - 1, int(f["file"] * len(files)))]
            for p in files + [orbitfile]:
                if os.path.exists(p):
                    with open(p, "rb") as h:
                        saved[p] = h.read()
            lo = before.get(target, 0) if (stream or target == orbitfile) else 0
            data = saved[target]
            hi = len(data)
            pos = self.position(run, target, data, lo, hi, f)
            if pos is None:
                return
            with open(target, "r+b") as h:
                h.truncate(pos)
            # files the code writes after this one have nothing of snapshot k yet
            log.fault("cut")
            place = os.path.basename(target).split("_")[0].split(".h5")[0]
            if pos == lo:
                place += ":none"
            elif data[pos - 1:pos] == b"\n":
                place += ":line"
            cutfile = os.path.basename(target)
        else:
            cutfile = None
        log.nontrivial = f["kind"] == "cut"
        with vfs:
            outcome = self.read_through(ct, plan, run, spec, f, k, vfs, log, cutfile)
            # ---- once everything is whole again a new reader gets all of it
            vfs.disarm()
            for p, data in saved.items():
                with open(p, "wb") as h:
                    h.write(data)
            if f["kind"] == "cut" and f.get("complete") and outcome["cl"] is not None and outcome["state"] in ("error", "empty"):
                log.fault("cut-then-completed")
                state = "empty"
                for q in range(2):
                    if state != "whole":
                        state = self.attempt(ct, run, spec, outcome["cl"], outcome["j"], "the same reader after the file was completed", log, None, cutfile)[1]
            cl = None
            for j in range(run.first(0), run.written):
                where = "a new reader of the whole run"
                try:
                    cl = ct.load_cluster(**run.loadkw(0, spec["opt"])) if cl is None else ct.advance_cluster(
                        cl, **dict(run.perkw(), **{q: v for q, v in spec["opt"].items() if q != "projected"}))
                except Exception as ex:
                    raise Violation("error-after-repair:%s" % run.fmt, "%s: snapshot %d raised %r" % (where, j, ex))
                self.compare(cl, run, j, spec, where, log, None)
        log.ev("outcome", outcome["state"], place, k)
        log.state(run.fmt, place, f["kind"], f.get("err"), outcome["state"], run.s["give"], run.s["ev"])

    def position(self, run, target, data, lo, hi, f):
        """byte at which the file ends; None when that place says nothing"""
        if hi <= lo:
            return None
        pos = lo + int(f["at"] * (hi - lo))
        if f["edge"] == "start":
            pos = lo + int(f["at"] * min(24, hi - lo))
        elif f["edge"] == "end":
            pos = hi - 1 - int(f["at"] * min(24, hi - lo - 1))
        elif f["edge"] == "line":
            q = data.rfind(b"\n", lo, pos)
            if q > lo:
                pos = q + 1
        pos = min(max(pos, lo), hi - 1)
        name = os.path.basename(target)
        text = not (name.startswith("OUT3") or name.startswith("conf.3") or name.endswith(".h5part"))
        if text:
            # where the last row's last number starts
            end = hi - 1 if data[hi - 1:hi] == b"\n" else hi
            last = max(data.rfind(b" ", lo, end), data.rfind(b",", lo, end)) + 1
            if last <= pos < hi and not name.startswith("fort"):
                return None
            if name == "orbit.dat":
                e = data.find(b"\n", pos)
                if data.rfind(b" ", 0, e) < pos <= e:
                    return None
            if run.fmt == "snapshot" and name != "orbit.dat":
                ls = data.rfind(b"\n", 0, pos) + 1
                le = data.find(b"\n", pos)
                le = hi if le < 0 else le
                row = data[ls:le]
                lastsep = max(row.rfind(b" "), row.rfind(b","))
                head = data[:ls].count(b"\n") < run.s["skiprows"]
                if pos == ls or pos > ls + lastsep or (head and False):
                    return None
                if head and not run.s["skiprows"]:
                    return None
        if name == "OUT33" and pos - lo < 4:
            return None
        return pos

    # ------------------------------------------------------------------------------------------
    def read_through(self, ct, plan, run, spec, f, k, vfs, log, cutfile):
        cl = None
        start = run.first(0)
        armed = None
        if f["kind"] == "short":
            armed = dict(short=f["short"])
        # how many calls a clean reading of snapshot k makes decides where the failure falls
        stop = k
        if f["kind"] != "cut":
            stop = run.total() - 1
        state = "whole"
        for j in range(start, stop + 1):
            hitk = j == k or (run.fmt == "hdf5" and j // run.s["ngroups"] == k // run.s["ngroups"])
            arm = armed
            if f["kind"] == "read" and j == k:
                n = self.dry(ct, run, spec, k, vfs, f["call"])
                if not n:
                    return dict(state="none", cl=None, j=j)
                arm = dict(call=f["call"], at=int(f["at"] * n), err=f["err"], persist=f["persist"])
            strict = None
            if f["kind"] == "short" or (f["kind"] == "read" and j < k) or (f["kind"] == "cut" and not hitk):
                strict = True
            new, state = self.attempt(ct, run, spec, cl, j, "reading snapshot %d" % j, log, (vfs, arm), cutfile, strict)
            if f["kind"] == "short" and vfs.hits:
                log.fault("short-reads", len(vfs.hits))
                log.nontrivial = True
            if f["kind"] == "read" and j == k:
                if vfs.hits:
                    log.fault("read-error-persistent" if f["persist"] else ("open-error" if f["call"] == "open" else "read-error"))
                    log.nontrivial = True
                for q in range(f["retry"]):
                    if state in ("error", "empty"):
                        again = arm if f["persist"] else None
                        if again:
                            again = dict(again, at=0)
                        state = self.attempt(ct, run, spec, cl, j, "trying snapshot %d again" % j, log, (vfs, again), cutfile)[1]
                return dict(state=state, cl=cl, j=j)
            if f["kind"] == "cut" and hitk and state != "whole":
                for q in range(f["retry"]):
                    if state in ("error", "empty"):
                        state = self.attempt(ct, run, spec, cl, j, "trying snapshot %d again" % j, log, (vfs, None), cutfile)[1]
                return dict(state=state, cl=cl, j=j)
            cl = new
        return dict(state=state, cl=cl, j=stop)

    def dry(self, ct, run, spec, k, vfs, call):
        """number of calls reading snapshot k makes, from a reader of its own"""
        vfs.disarm()
        cl = None
        n = 0
        for j in range(run.first(0), k + 1):
            vfs.reset()
            cl = self.next(ct, run, spec, cl)
            n = vfs.count[call]
        return n

    def next(self, ct, run, spec, cl):
        if cl is None:
            return ct.load_cluster(**run.loadkw(0, spec["opt"]))
        return ct.advance_cluster(cl, **dict(run.perkw(), **{q: v for q, v in spec["opt"].items() if q != "projected"}))

    def attempt(self, ct, run, spec, cl, j, where, log, arm, cutfile, strict=None):
        before = W.snapshot(cl) if cl is not None else None
        if arm:
            arm[0].arm(arm[1])
        log.steps += 1
        try:
            new = self.next(ct, run, spec, cl)
        except Exception as ex:
            if strict:
                raise Violation("error-without-damage:%s" % run.fmt, "%s raised %r although its data are whole" % (where, ex))
            log.ev(where, type(ex).__name__)
            log.probe("error")
            new, state = None, "error"
        else:
            if new is None or not hasattr(new, "ntot"):
                raise Violation("nothing:%s" % run.fmt, "%s returned %r" % (where, new))
            if new.ntot == 0:
                if strict:
                    raise Violation("lost:%s" % run.fmt, "%s gave an empty cluster although its data are whole" % where)
                run.check_empty(new, where)
                if arm and arm[1] and arm[1].get("err") and arm[0].hits:
                    raise Violation("swallowed:%s" % run.fmt, "%s: the disk failed (%s) and the end of the data is reported" % (where, arm[1]["err"]))
                state = "empty"
                log.probe("end reported")
            else:
                opt = dict(spec["opt"])
                try:
                    self.whole(run, new, j, spec, where, log, cutfile)
                except Violation as v:
                    raise Violation("partial:%s" % run.fmt, "%s: a cluster is returned that is not the snapshot written: %s" % (where, v.msg))
                state = "whole"
                log.probe("whole")
            log.ev(where, state)
        finally:
            if arm:
                arm[0].disarm()
        if before is not None:
            W.compare_snap(before, W.snapshot(cl), where + ": the earlier cluster", self.tol(before), allow=("nsnap",))
        return new, state

    def whole(self, run, new, j, spec, where, log, cutfile):
        if cutfile and cutfile.startswith("sev.83") and run.fmt == "nbody6pp":
            # rows that were not written are marked, the others are right
            t = run.truth(j)
            nb = t["nb"]
            kw, want = np.asarray(new.kw), t["kw"][2 * nb:]
            ok = (kw[nb:] == want) | (kw[nb:] == -10)
            for q in ("logl", "logr"):
                g, w = np.asarray(getattr(new, q))[nb:], t["ev"][q][2 * nb:]
                ok &= (np.isclose(g, w, rtol=1e-9) & (kw[nb:] == want)) | ((kw[nb:] == -10) & (g == -10))
            if len(kw) != new.ntot or not np.all(ok):
                raise Violation("wrong", "evolution data %s %s do not belong to the stars" % (list(kw), list(want)))
            new.kw[nb:], new.logl[nb:], new.logr[nb:] = want, t["ev"]["logl"][2 * nb:], t["ev"]["logr"][2 * nb:]
        self.compare(new, run, j, spec, where, log, None)
