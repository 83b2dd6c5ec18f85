"""Worker threads of numba's parallel loops, under a scheduler the simulator owns.

Every compiled function of clustertools that numba is told to run in parallel is re-read from its own source and its
`for ... in prange(...)` loops are turned into generators that pause between statements and, for a store into an array
or list, between reading the old value, computing and writing it back.  The iterations are dealt out in contiguous
chunks, as numba does, and a schedule (a list of [worker, steps]) says who runs next.  Scalars that are only
accumulated are private and combined at the end, as numba does for reductions.
"""
import ast
import contextlib
import inspect
import textwrap

import numba
from numba.core.dispatcher import Dispatcher

RED = {ast.Add: 0, ast.Sub: 0, ast.Mult: 1}


class Unsupported(Exception):
    pass


def dispatchers():
    """[(module, name, dispatcher)] of every compiled function of clustertools"""
    import sys
    out = []
    for mn in sorted(sys.modules):
        if mn == "clustertools" or mn.startswith("clustertools."):
            mod = sys.modules[mn]
            for k in sorted(vars(mod)):
                v = vars(mod)[k]
                if isinstance(v, Dispatcher):
                    out.append((mod, k, v))
    return out


def is_prange(call, glob):
    if not isinstance(call, ast.Call):
        return False
    f = call.func
    if isinstance(f, ast.Name):
        return f.id == "prange" or glob.get(f.id) is numba.prange
    return isinstance(f, ast.Attribute) and f.attr == "prange"


def tree_of(fn):
    try:
        src = textwrap.dedent(inspect.getsource(fn))
    except (OSError, TypeError) as e:
        raise Unsupported(str(e))
    t = ast.parse(src)
    fd = t.body[0]
    if not isinstance(fd, ast.FunctionDef):
        raise Unsupported("not a plain function")
    fd.decorator_list = []
    fd.returns = None
    return fd


def stores_subscript(fd):
    return any(isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) for n in ast.walk(fd))


class Body(ast.NodeTransformer):
    """statements of a parallel loop -> the same statements with a pause between any two memory steps"""

    def __init__(self, glob, gens, top):
        self.glob, self.gens, self.top, self.k, self.depth = glob, gens, top, 0, 0

    def pause(self):
        return ast.Expr(ast.Yield(ast.Constant(None)))

    def tmp(self):
        self.k += 1
        return "_sim_t%d" % self.k

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name):
            g = self.glob.get(node.func.id)
            py = g.py_func if isinstance(g, Dispatcher) else g if inspect.isfunction(g) else None
            if py is not None and getattr(py, "__module__", "").startswith("clustertools"):
                name = self.gens(py)
                if name:
                    node.func = ast.Name(name, ast.Load())
                    return ast.YieldFrom(node)
        return node

    def visit_Lambda(self, node):
        return node

    def visit_ListComp(self, node):
        return node
    visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp

    def visit_FunctionDef(self, node):
        raise Unsupported("nested function")

    def visit_For(self, node):
        self.depth += 1
        self.generic_visit(node)
        self.depth -= 1
        return node

    def visit_While(self, node):
        self.depth += 1
        self.generic_visit(node)
        self.depth -= 1
        return [self.pause(), node]

    def visit_Break(self, node):
        if self.top and not self.depth:
            raise Unsupported("break in a parallel loop")
        return node

    def visit_Return(self, node):
        if self.top:
            raise Unsupported("return in a parallel loop")
        self.generic_visit(node)
        return [self.pause(), node]

    def visit_Assign(self, node):
        self.generic_visit(node)
        if any(isinstance(t, ast.Subscript) for t in node.targets):
            n = self.tmp()
            first = ast.Assign([ast.Name(n, ast.Store())], node.value)
            return [self.pause(), first, self.pause(), ast.Assign(node.targets, ast.Name(n, ast.Load()))]
        return [self.pause(), node]

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if not isinstance(node.target, ast.Subscript):
            return [self.pause(), node]
        a, i, o, v = self.tmp(), self.tmp(), self.tmp(), self.tmp()
        ld = lambda n: ast.Name(n, ast.Load())
        st = lambda n: ast.Name(n, ast.Store())
        if isinstance(node.target.slice, (ast.Slice, ast.Tuple)) and any(isinstance(x, ast.Slice) for x in ast.walk(node.target.slice)):
            return [self.pause(), node]
        return [self.pause(),
                ast.Assign([st(a)], node.target.value), ast.Assign([st(i)], node.target.slice),
                ast.Assign([st(o)], ast.Subscript(ld(a), ld(i), ast.Load())), self.pause(),
                ast.Assign([st(v)], ast.BinOp(ld(o), node.op, node.value)), self.pause(),
                ast.Assign([ast.Subscript(ld(a), ld(i), ast.Store())], ld(v))]

    def visit_Expr(self, node):
        self.generic_visit(node)
        return [self.pause(), node]


class Outer(ast.NodeTransformer):
    def __init__(self, glob, gens, fd):
        self.glob, self.gens, self.n = glob, gens, 0
        self.assigned = {}
        for a in fd.args.args + fd.args.kwonlyargs:
            self.assigned[a.arg] = 0

    def visit_FunctionDef(self, node):
        node.body = [y for x in node.body for y in self.listed(x)]
        return node

    def listed(self, x):
        r = self.visit(x)
        return r if isinstance(r, list) else [r]

    def visit_For(self, node):
        if not is_prange(node.iter, self.glob):
            self.generic_visit(node)
            return node
        if node.orelse or not isinstance(node.target, ast.Name):
            raise Unsupported("loop shape")
        self.n += 1
        aug, plain = {}, set()
        for s in node.body:
            for x in ast.walk(s):
                if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                    aug.setdefault(x.target.id, set()).add(type(x.op))
                elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    pass
                if isinstance(x, (ast.Assign, ast.For, ast.AnnAssign, ast.NamedExpr)):
                    tg = x.targets if isinstance(x, ast.Assign) else [x.target]
                    for t in tg:
                        plain.update(y.id for y in ast.walk(t) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store))
        reds = sorted(n for n in aug if n not in plain)
        for n in reds:
            if len(aug[n]) != 1 or not list(aug[n])[0] in RED:
                raise Unsupported("reduction")
        body = []
        tr = Body(self.glob, self.gens, True)
        for s in node.body:
            r = tr.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        fname = "_sim_body%d" % self.n
        ret = ast.Return(ast.Tuple([ast.Name(n, ast.Load()) for n in reds], ast.Load()))
        inner = ast.FunctionDef(
            name=fname,
            args=ast.arguments(posonlyargs=[], args=[ast.arg("_sim_chunk")] + [ast.arg(n) for n in reds], kwonlyargs=[],
                               kw_defaults=[], defaults=[]),
            body=[ast.For(target=node.target, iter=ast.Name("_sim_chunk", ast.Load()), body=body + [ast.Expr(ast.Yield(ast.Constant(None)))],
                          orelse=[]), ret],
            decorator_list=[], type_params=[])
        kinds = ast.List([ast.Constant(RED[list(aug[n])[0]]) for n in reds], ast.Load())
        call = ast.Call(ast.Name("_sim_run", ast.Load()),
                        [ast.Call(ast.Name("range", ast.Load()), node.iter.args, []), ast.Name(fname, ast.Load()), kinds,
                         ast.List([ast.Name(n, ast.Load()) for n in reds], ast.Load())], [])
        if reds:
            tgt = ast.Tuple([ast.Name(n, ast.Store()) for n in reds], ast.Store())
            return [inner, ast.Assign([tgt], call)]
        return [inner, ast.Expr(call)]


class Sim(object):
    """with Sim(schedule) as s: parallel compiled functions run as simulated workers"""

    def __init__(self, sched):
        self.sched = sched
        self.switches = self.steps = self.loops = 0
        self.unsupported = 0
        self.trace = []

    def run(self, rng, body, kinds, outer):
        items = list(rng)
        self.loops += 1
        nw = max(1, min(self.sched["workers"], max(1, len(items))))
        fr = sorted(self.sched["cuts"][:nw - 1]) + [1.0]
        chunks, lo = [], 0
        for f in fr:
            hi = max(lo, min(len(items), int(round(f * len(items)))))
            chunks.append(items[lo:hi])
            lo = hi
        chunks[-1].extend(items[lo:])
        ident = [o * 0 + k for o, k in zip(outer, kinds)]
        ws = [body(c, *ident) for c in chunks]
        res = [None] * len(ws)
        alive = list(range(len(ws)))
        segs = list(self.sched["segs"])
        last = None
        while alive:
            if segs:
                w, k = segs.pop(0)
                w = w % len(ws)
                if w not in alive:
                    continue
            else:
                w, k = alive[0], 1 << 60
            if w != last:
                self.switches += 1
                last = w
            for _ in range(k):
                try:
                    next(ws[w])
                    self.steps += 1
                except StopIteration as e:
                    res[w] = e.value
                    alive.remove(w)
                    break
        out = list(outer)
        for r in res:
            for i, k in enumerate(kinds):
                out[i] = out[i] * r[i] if k else out[i] + r[i]
        return tuple(out)

    def transform(self, fn):
        glob = fn.__globals__
        gens = {}
        ns = {"_sim_run": self.run}

        def gen_of(py, depth=[0]):
            if py in gens:
                return gens[py]
            gens[py] = None
            try:
                fd = tree_of(py)
            except Unsupported:
                return None
            if not stores_subscript(fd) or py.__globals__ is not glob:
                return None
            name = "_sim_gen_%s" % py.__name__
            tr = Body(glob, gen_of, False)
            body = []
            for s in fd.body:
                r = tr.visit(s)
                body.extend(r if isinstance(r, list) else [r])
            fd.body = body + [ast.Expr(ast.Yield(ast.Constant(None)))]
            fd.name = name
            defs.append(fd)
            gens[py] = name
            return name

        defs = []
        fd = tree_of(fn)
        o = Outer(glob, gen_of, fd)
        fd = o.visit(fd)
        if not o.n:
            raise Unsupported("no parallel loop")
        mod = ast.Module([], [])
        wrap = ast.FunctionDef(
            name="_sim_make", args=ast.arguments(posonlyargs=[], args=[ast.arg("_sim_run")], kwonlyargs=[], kw_defaults=[], defaults=[]),
            body=defs + [fd, ast.Return(ast.Name(fd.name, ast.Load()))], decorator_list=[], type_params=[])
        mod.body = [wrap]
        ast.fix_missing_locations(mod)
        loc = {}
        exec(compile(mod, "<sim %s>" % fn.__name__, "exec"), glob, loc)
        return loc["_sim_make"](self.run)

    def guard(self, new, old):
        def f(*a, **k):
            try:
                return new(*a, **k)
            except Exception:
                r = old(*a, **k)          # the loop is fine on its own: only its transformation is not
                self.unsupported += 1
                return r
        f.__name__ = old.__name__
        return f

    def __enter__(self):
        self.saved = []
        for mod, k, d in dispatchers():
            py = d.py_func
            new = py
            if d.targetoptions.get("parallel"):
                try:
                    new = self.guard(self.transform(py), py)
                except Unsupported:
                    self.unsupported += 1
                except Exception:
                    self.unsupported += 1
            self.saved.append((mod, k, d))
            setattr(mod, k, new)
        return self

    def __exit__(self, *a):
        for mod, k, d in self.saved:
            setattr(mod, k, d)
        return False


def parallel_functions():
    return sorted(set(d.py_func.__name__ for _, _, d in dispatchers() if d.targetoptions.get("parallel")))
