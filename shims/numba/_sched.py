"""prange schedules owned by the harness.

mode None            serial order
mode ('perm', k)     iterations of the outermost prange of a parallel function
                     run one after another in a permuted order
mode ('inter', k)    the same iterations run as threads of which exactly one
                     runs at a time, switching at line events as k dictates.
                     Names assigned in the loop body are private to the
                     iteration (numba's rule); everything else is shared.
"""
import ast
import inspect
import random
import sys
import textwrap
import threading

mode = None
stats = {"prange_loops": 0, "switches": 0, "fallback": 0, "max_iters": 0}
_stack = []
_in_prange = False
scope_dirs = ("/repo/",)


class schedule:
    def __init__(self, m):
        self.m = tuple(m) if m else None

    def __enter__(self):
        global mode
        self.old, mode = mode, self.m
        return self

    def __exit__(self, *a):
        global mode, _in_prange
        mode = self.old
        _in_prange = False
        del _stack[:]
        return False


def order(n, k):
    idx = list(range(n))
    if k == 0:
        return idx
    if k == 1:
        return idx[::-1]
    random.Random(k).shuffle(idx)
    return idx


def prange(*args):
    r = range(*[int(a) for a in args])
    if mode is None or _in_prange or not _stack or not _stack[-1]:
        return r
    return _ordered(r)


pndindex = prange


def _ordered(r):
    global _in_prange
    stats["prange_loops"] += 1
    stats["max_iters"] = max(stats["max_iters"], len(r))
    _in_prange = True
    try:
        for i in order(len(r), mode[1]):
            yield r[i]
    finally:
        _in_prange = False


def call(disp, args, kwargs):
    par = disp._parallel and not _in_prange
    if par and mode[0] == "inter":
        if disp._inter is None:
            disp._inter = _transform(disp.py_func) or False
        if disp._inter:
            _stack.append(False)
            try:
                return disp._inter(*args, **kwargs)
            finally:
                if _stack:
                    _stack.pop()
    _stack.append(par)
    try:
        return disp.py_func(*args, **kwargs)
    finally:
        if _stack:
            _stack.pop()


# ---------------------------------------------------------------- interleaving

class _Unsupported(Exception):
    pass


def _is_prange(node):
    return (isinstance(node, ast.For) and isinstance(node.iter, ast.Call) and (
        (isinstance(node.iter.func, ast.Name) and node.iter.func.id == "prange")
        or (isinstance(node.iter.func, ast.Attribute)
            and node.iter.func.attr == "prange")))


class _Cont(ast.NodeTransformer):
    """continue of this loop -> return; break/return are unsupported."""

    def visit_For(self, node):
        for n in ast.walk(node):
            if isinstance(n, ast.Return):
                raise _Unsupported
        return node

    visit_While = visit_For

    def visit_FunctionDef(self, node):
        return node

    def visit_Continue(self, node):
        return ast.copy_location(ast.Return(value=None), node)

    def visit_Break(self, node):
        raise _Unsupported

    def visit_Return(self, node):
        raise _Unsupported


class _Rewrite(ast.NodeTransformer):
    def __init__(self):
        self.k = 0

    def visit_For(self, node):
        if not _is_prange(node):
            self.generic_visit(node)
            return node
        if not isinstance(node.target, ast.Name) or node.orelse:
            return node
        for n in ast.walk(node):
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                # a reduction (shared scalar): leave this loop serial, unless
                # the name is first assigned inside the body
                assigned = {t.id for m in ast.walk(node) if isinstance(m, ast.Assign)
                            for t in ast.walk(ast.Tuple(elts=m.targets, ctx=ast.Load()))
                            if isinstance(t, ast.Name)}
                if n.target.id not in assigned:
                    return node
        try:
            body = [_Cont().visit(b) for b in node.body]
        except _Unsupported:
            return node
        self.k += 1
        name = "__vf_body_%d" % self.k
        fn = ast.FunctionDef(
            name=name,
            args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=node.target.id)],
                               kwonlyargs=[], kw_defaults=[], defaults=[]),
            body=body, decorator_list=[], returns=None, type_params=[])
        run = ast.Expr(ast.Call(func=ast.Name(id="__vf_run", ctx=ast.Load()),
                                args=[ast.Name(id=name, ctx=ast.Load())] + node.iter.args,
                                keywords=[]))
        ast.copy_location(fn, node)
        ast.copy_location(run, node)
        return [fn, run]


def _transform(f):
    try:
        lines, start = inspect.getsourcelines(f)
        tree = ast.parse(textwrap.dedent("".join(lines)))
        fn = tree.body[0]
        fn.decorator_list = []
        rw = _Rewrite()
        fn.body = [x for s in fn.body for x in _aslist(rw.visit(s))]
        if not rw.k or f.__closure__:
            raise _Unsupported
        ast.fix_missing_locations(tree)
        ast.increment_lineno(tree, start - 1)
        g = dict(f.__globals__)
        g["__vf_run"] = _run
        exec(compile(tree, inspect.getsourcefile(f), "exec"), g)
        new = g[fn.name]
        new.__defaults__ = f.__defaults__
        return new
    except (_Unsupported, OSError, TypeError, SyntaxError, KeyError):
        stats["fallback"] += 1
        return None


def _aslist(x):
    return x if isinstance(x, list) else [x]


class _Worker(threading.Thread):
    def __init__(self, ctl, body, items):
        super().__init__(daemon=True)
        self.ctl, self.body, self.items = ctl, body, items
        self.go = threading.Semaphore(0)
        self.exc = None

    def run(self):
        self.go.acquire()
        try:
            sys.settrace(self._gtrace)
            try:
                for i in self.items:
                    self.body(i)
            finally:
                sys.settrace(None)
        except BaseException as e:      # noqa: B902
            self.exc = e
        self.ctl.done(self)

    def _gtrace(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(scope_dirs):
            return self._ltrace
        return None

    def _ltrace(self, frame, event, arg):
        if event == "line":
            self.ctl.maybe_switch(self)
        return self._ltrace


class _Control:
    def __init__(self, body, groups, k):
        self.rng = random.Random(k)
        self.p = self.rng.choice([0.02, 0.1, 0.3])
        self.live = [_Worker(self, body, g) for g in groups]
        self.main = threading.Semaphore(0)
        self.exc = None

    def run(self):
        for w in self.live:
            w.start()
        self.live[self.rng.randrange(len(self.live))].go.release()
        self.main.acquire()
        if self.exc is not None:
            raise self.exc

    def maybe_switch(self, w):
        if len(self.live) > 1 and self.rng.random() < self.p:
            nxt = self.live[self.rng.randrange(len(self.live))]
            if nxt is not w:
                stats["switches"] += 1
                nxt.go.release()
                w.go.acquire()

    def done(self, w):
        self.live.remove(w)
        if w.exc is not None and self.exc is None:
            self.exc = w.exc
        if self.live:
            self.live[self.rng.randrange(len(self.live))].go.release()
        else:
            self.main.release()


def _run(body, *args):
    global _in_prange
    r = range(*[int(a) for a in args])
    k = mode[1] if mode else 0
    items = [r[i] for i in order(len(r), k)]
    stats["prange_loops"] += 1
    stats["max_iters"] = max(stats["max_iters"], len(items))
    if not items:
        return
    _in_prange = True
    try:
        t = min(len(items), 4)
        groups = [items[i::t] for i in range(t)]
        if t == 1:
            for i in items:
                body(i)
        else:
            _Control(body, groups, k).run()
    finally:
        _in_prange = False
