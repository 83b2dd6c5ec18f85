"""Fault injection at the library's calls into what it depends on.

Every call instruction executed in clustertools code whose target lies outside clustertools (galpy, scipy, numpy, matplotlib,
astropy, amuse, file opening) is one callout.  They are counted in order; a fault plan names one of them and an exception kind,
which is then raised in place of the call, exactly where a failing dependency would raise it.

With want=["alloc"] the counted points are instead the arithmetic and comparison instructions of clustertools code that make a
new array (in-place ones do not), where an allocation can fail."""
import dis
import functools
import os
import sys
import types

import numpy as np

from .core import REPO

TOOL = 3


class Injected(object):
    pass


class IMemory(Injected, MemoryError):
    pass


class IValue(Injected, ValueError):
    pass


class IRuntime(Injected, RuntimeError):
    pass


class IOS(Injected, OSError):
    pass


class ILinAlg(Injected, np.linalg.LinAlgError):
    pass


class IInterrupt(Injected, KeyboardInterrupt):
    pass


KINDS = {"memory": IMemory, "value": IValue, "runtime": IRuntime, "oserror": IOS, "linalg": ILinAlg, "interrupt": IInterrupt}

BUILTIN = {"open"}


def where(c):
    """which dependency a callable belongs to; None when it is not a callout"""
    if isinstance(c, functools.partial):
        c = c.func
    if isinstance(c, types.MethodType):
        f = c.__func__
        m = getattr(f, "__module__", None) or ""
    elif isinstance(c, np.ufunc):
        return "numpy"
    elif isinstance(c, (types.BuiltinFunctionType, types.MethodWrapperType)):
        s = getattr(c, "__self__", None)
        m = getattr(c, "__module__", None)
        if s is not None and not isinstance(s, types.ModuleType):
            m = type(s).__module__
            if c.__name__ in ("pop", "get", "items", "keys", "append", "copy", "format", "lower", "split"):
                return None
        m = m or ""
        if m in ("builtins", "io", "_io", ""):
            return "open" if c.__name__ in BUILTIN else None
    else:
        m = getattr(c, "__module__", None) or type(c).__module__ or ""
        if not isinstance(m, str):
            return None
    top = m.split(".")[0]
    if top in ("galpy", "scipy", "matplotlib", "astropy", "amuse", "h5py"):
        return top
    if top == "numpy":
        return "numpy"
    return None


def _codes():
    seen = set()
    root = os.path.realpath(os.path.join(REPO, "clustertools")) + os.sep

    def add(code):
        if code in seen or not os.path.realpath(code.co_filename).startswith(root):
            return
        if os.sep + "tests" + os.sep in code.co_filename:
            return
        seen.add(code)
        for k in code.co_consts:
            if isinstance(k, types.CodeType):
                add(k)
    for name, mod in list(sys.modules.items()):
        if not name.startswith("clustertools") or mod is None:
            continue
        for v in list(vars(mod).values()):
            if isinstance(v, types.FunctionType):
                add(v.__code__)
            elif isinstance(v, type):
                for w in list(vars(v).values()):
                    w = getattr(w, "__func__", w)
                    w = getattr(w, "fget", w) or w
                    if isinstance(w, types.FunctionType):
                        add(w.__code__)
    return sorted(seen, key=lambda c: (c.co_filename, c.co_firstlineno, c.co_name))


class Seam(object):
    """installed once per process; counts callouts and raises the planned one"""

    def __init__(self):
        mon = sys.monitoring
        self.n = 0
        self.at = None
        self.kind = None
        self.hit = None
        self.trace = []
        self.on = False
        self.want = None
        mon.use_tool_id(TOOL, "verif-sim")
        mon.register_callback(TOOL, mon.events.CALL, self._call)
        mon.register_callback(TOOL, mon.events.INSTRUCTION, self._instruction)
        self.sites = {}
        self.codes = _codes()

    def _call(self, code, offset, callable_, arg0):
        if not self.on:
            return
        w = where(callable_)
        if w is None or (self.want and w not in self.want):
            return
        i = self.n
        self.n += 1
        self.trace.append(w)
        if self.at is not None and i == self.at:
            self.on = False
            name = getattr(callable_, "__qualname__", None) or getattr(callable_, "__name__", "?")
            line = next((l for a, b, l in code.co_lines() if a <= offset < b), 0)
            self.hit = "%s.%s called in %s:%s (%s)" % (w, name, os.path.basename(code.co_filename), line, code.co_name)
            raise KINDS[self.kind]("injected %s at callout %d (%s.%s)" % (self.kind, i, w, name))

    def _instruction(self, code, offset):
        if os.path.basename(code.co_filename) in ("operations.py", "units.py", "coordinates.py"):
            return sys.monitoring.DISABLE
        sites = self.sites.get(code)
        if sites is None:
            sites = self.sites[code] = {i.offset: i.opname + " " + i.argrepr for i in dis.get_instructions(code)
                                        if i.opname in ("BINARY_OP", "COMPARE_OP") and (i.opname == "COMPARE_OP" or not i.argrepr.endswith("="))
                                        and i.argrepr not in ("==", "!=") or i.opname == "UNARY_NEGATIVE"}
        if offset not in sites:
            return sys.monitoring.DISABLE
        if not self.on:
            return
        i = self.n
        self.n += 1
        self.trace.append("alloc")
        if self.at is not None and i == self.at:
            self.on = False
            line = next((l for a, b, l in code.co_lines() if a <= offset < b), 0)
            self.hit = "%s in %s:%s (%s)" % (sites[offset].strip(), os.path.basename(code.co_filename), line, code.co_name)
            raise KINDS[self.kind]("injected %s at operation %d" % (self.kind, i))

    def run(self, fn, at=None, kind=None, want=None):
        """returns ("ok", value) or ("exc", exception)"""
        mon = sys.monitoring
        for c in self.codes:
            mon.set_local_events(TOOL, c, mon.events.INSTRUCTION if want == ["alloc"] else mon.events.CALL)
        self.n, self.at, self.kind, self.hit, self.trace, self.want = 0, at, kind, None, [], want
        self.on = True
        try:
            return ("ok", fn())
        except BaseException as ex:
            return ("exc", ex)
        finally:
            self.on = False
            for c in self.codes:
                mon.set_local_events(TOOL, c, 0)


_SEAM = []


def seam():
    if not _SEAM:
        _SEAM.append(Seam())
    return _SEAM[0]


def chain(ex):
    seen = []
    while ex is not None and ex not in seen:
        seen.append(ex)
        ex = ex.__cause__ or ex.__context__
    return seen


def surfaced(ex):
    return any(isinstance(e, Injected) for e in chain(ex))


def kinds_for(w, rng):
    if w == "numpy":
        return rng.choice(["memory", "memory", "interrupt", "linalg"])
    if w == "matplotlib":
        return rng.choice(["oserror", "value", "memory", "interrupt"])
    if w == "alloc":
        return "memory"
    if w == "open":
        return rng.choice(["oserror", "interrupt"])
    return rng.choice(["value", "runtime", "memory", "interrupt"])
