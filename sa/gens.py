"""Generator functions and context managers.

A generator that is iterated by a `for`, or that drives a `with` (contextlib.contextmanager), is run with the body of that statement in the
place of its `yield`.  Any other use collects what it yields in a list first, which is the same thing as long as it has no effects.
"""
import ast
import copy

from . import terms as t
from .terms import mk, const, NONE

LEAVE = "@leave"        # the consumer left through break / return: mk(LEAVE, flow, value)


def own(node):
    """The nodes of a function that are not in a nested one."""
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            todo += list(ast.iter_child_nodes(n))


def is_gen(func):
    r = getattr(func, "_isgen", None)
    if r is None:
        r = func._isgen = not isinstance(func.node, ast.Lambda) and any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(func.node))
    return r


def managed(func):
    return any(d.split("(")[0].split(".")[-1] == "contextmanager" for d in (ast.unparse(x) for x in getattr(func.node, "decorator_list", [])))


class Collect(ast.NodeTransformer):
    """yield x -> @out.append(x)"""

    def skip(self, node):
        return node

    visit_FunctionDef = visit_AsyncFunctionDef = visit_Lambda = visit_ClassDef = skip

    def visit_Expr(self, node):
        v = node.value
        if isinstance(v, (ast.Yield, ast.YieldFrom)):
            call = ast.Call(func=ast.Attribute(value=ast.Name(id="@out", ctx=ast.Load()), attr="append" if isinstance(v, ast.Yield) else "extend", ctx=ast.Load()),
                            args=[v.value if v.value is not None else ast.Constant(value=None)], keywords=[])
            return ast.fix_missing_locations(ast.copy_location(ast.Expr(value=ast.copy_location(call, node)), node))
        return node

    def visit_Return(self, node):
        return ast.fix_missing_locations(ast.copy_location(ast.Return(value=ast.Name(id="@out", ctx=ast.Load())), node))


def collected(func):
    """The function that returns the list of what the generator yields, or None."""
    f = getattr(func, "_collected", None)
    if f is None:
        node = copy.deepcopy(func.node)
        tr = Collect()
        node.body = [tr.visit(x) for x in node.body]
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(node)):
            return None
        first, last = node.body[0], node.body[-1]
        node.body = [ast.fix_missing_locations(ast.copy_location(ast.Assign(targets=[ast.Name(id="@out", ctx=ast.Store())], value=ast.List(elts=[], ctx=ast.Load())), first))] + \
            node.body + [ast.fix_missing_locations(ast.copy_location(ast.Return(value=ast.Name(id="@out", ctx=ast.Load())), last))]
        f = copy.copy(func)
        f.node = node
        f._isgen = False
        func._collected = f
    return f


def eager(I, func, args, kwargs, st, loc, kw):
    from .interp import Budget
    f = collected(func)
    if f is None:
        raise Budget(f"generator {func.qual} receives values")
    mark = len(I.collectors[-1].items) if I.collectors else 0
    rs = I.call_func(f, args, kwargs, st, loc, **kw)
    if I.collectors and len(I.collectors[-1].items) != mark or not rs:
        raise Budget(f"generator {func.qual} may fail or go on")
    for s, _ in rs:
        if s.heap != st.heap or len([e for e in s.trace if e.kind != "loop"]) != len([e for e in st.trace if e.kind != "loop"]):
            raise Budget(f"generator {func.qual} has effects")
    return rs


def drive(I, g, st, fr, hook):
    """Run a suspended generator with hook(value, state) -> [(state, flow, value)] at every yield.
    -> [(state, flow, value)]: "n" when it ended by itself, else how the consumer left."""
    from .interp import Budget
    func, args, kwargs, loc, kw, I.argplaces = I.gens[g.args[0]]
    depth, stack = len(I.stack), list(I.stack)

    def call(v, s):
        inner = I.stack
        I.stack = list(stack)
        try:
            return hook(v, s)
        finally:
            I.stack = inner
    out = []
    for s, v in I.call_func(func, args, kwargs, st, loc, hook=call, **kw):
        if v.op == LEAVE:
            out.append((s, v.args[0], v.args[1]))
        elif t.contains(v, lambda y: y.op == LEAVE):
            raise Budget("ways to leave a generator")
        else:
            out.append((s, "n", NONE))
    return out


def yielded(I, node, st, fr):
    """A statement that yields, in a driven generator."""
    v = node.value
    tg = node.targets[0] if isinstance(node, ast.Assign) else node.target if isinstance(node, ast.AnnAssign) else None
    out = []

    def give(x, s):
        for s2, fl, r in fr.hook(x, s):
            if fl in ("n", "c"):
                if tg is not None:
                    out.extend(I.assign(tg, NONE, s2, fr))
                else:
                    out.append((s2, "n", NONE))
            else:
                out.append((s2, "r", mk(LEAVE, fl, r)))
    if isinstance(v, ast.YieldFrom):
        loop = ast.For(target=ast.Name(id="@item", ctx=ast.Store()), iter=v.value, orelse=[], type_comment=None,
                       body=[ast.Expr(value=ast.Yield(value=ast.Name(id="@item", ctx=ast.Load())))])
        loop = ast.fix_missing_locations(ast.copy_location(loop, node))
        I.kept.append(loop)
        return I.s_For(loop, st, fr)
    if v.value is None:
        give(NONE, st)
    else:
        for s, x in I.ev(v.value, st, fr):
            give(x, s)
    return out


def loop(I, node, g, st, fr):
    """for ... in generator"""
    from .interp import Budget, Collector
    func = I.gens[g.args[0]][0]
    guarded = any(isinstance(n, (ast.Try, ast.With)) for n in own(func.node))
    outer = I.collectors[-1]

    def hook(x, s):
        c = Collector(None)
        I.collectors.append(c)
        try:
            out = []
            for s1, _, _ in I.assign(node.target, x, s, fr):
                out += I.block(node.body, s1, fr)
        finally:
            I.collectors.pop()
        if guarded and (c.items or any(fl in ("b", "r") for _, fl, _ in out)):
            raise Budget(f"generator {func.qual} may be left inside of a try")
        outer.items += c.items
        return out
    out = []
    for s, fl, v in drive(I, g, st, fr, hook):
        if fl == "b":
            out.append((s, "n", NONE))
        elif fl == "r":
            out.append((s, "r", v))
        else:
            out += I.block(node.orelse, s, fr) if node.orelse else [(s, "n", NONE)]
    return out


def enter(I, item, st, fr, node, rest):
    """One item of a with statement; rest(state) runs what is inside -> [(state, flow, value)], or None when the item is not known."""
    from .interp import Budget, Collector, Ev
    out = []
    I.lazynode = item.context_expr
    evs = I.ev(item.context_expr, st, fr)
    I.lazynode = None
    if not any(v.op in ("gen", "ctx") or v.op == "obj" and I.class_of(v) is not None for _, v in evs):
        return evs, None
    for s, v in evs:
        def inside(x, s):
            out = []
            for q, _, _ in (I.assign(item.optional_vars, x, s, fr) if item.optional_vars is not None else [(s, "n", NONE)]):
                out += rest(q)
            return out

        def guarded(s, x):
            """-> flows, raises"""
            c = Collector(node)
            I.collectors.append(c)
            try:
                return inside(x, s), c.items
            finally:
                I.collectors.pop()
        if v.op == "gen":
            if not managed(I.gens[v.args[0]][0]):
                raise Budget("a generator as a context manager")
            out += drive(I, v, s, fr, inside)
        elif v.op == "ctx" and v.args[0] == "suppress":
            flows, errs = guarded(s, NONE)
            out += flows
            for q, exc, l in errs:
                m = I.exc_match(exc, list(v.args[1]))
                if m is None:
                    raise Budget("errors that may be suppressed")
                if m:
                    q = q.copy()
                    q.ev(Ev("caught", exc, (), (), None, I.loc(node, fr), extra=None))
                    out.append((q, "n", NONE))
                else:
                    I.raise_(q, exc, l)
        elif v.op == "ctx" and v.args[0] == "null":
            out += inside(v.args[1], s)
        elif v.op == "ctx" and v.args[0] in ("closing", "stack"):
            if v.args[0] == "stack":
                s = s.copy()
                s.heap[(v, "@cbs")] = mk("list")
            flows, errs = guarded(s, v if v.args[0] == "stack" else v.args[1])
            for q, fl, r in flows:
                for q2 in ending(I, v, q, fr, node):
                    out.append((q2, fl, r))
            for q, exc, l in errs:
                for q2 in ending(I, v, q, fr, node):
                    I.raise_(q2, exc, l)
        elif v.op == "obj" and I.class_of(v) is not None and I.p.find_method(I.class_of(v), "__enter__") is not None:
            c = I.class_of(v)
            loc = I.loc(node, fr)
            fin, fout = I.p.find_method(c, "__enter__"), I.p.find_method(c, "__exit__")
            for s1, x in I.call_func(fin, [], {}, s, loc, selfv=v, cls=c):
                flows, errs = guarded(s1, x)
                for q, fl, r in flows:
                    for q2, _ in I.call_func(fout, [NONE, NONE, NONE], {}, q, loc, selfv=v, cls=c):
                        out.append((q2, fl, r))
                for q, exc, l in errs:
                    ty = mk("builtin", exc.args[0]) if exc.op == "excobj" else mk("attr", exc, "__class__")
                    for q2, r in I.call_func(fout, [ty, exc, mk("attr", exc, "__traceback__")], {}, q, loc, selfv=v, cls=c):
                        b = I.truth(r, q2)
                        if b is None:
                            raise Budget("errors that may be suppressed")
                        if b:
                            out.append((q2, "n", NONE))
                        else:
                            I.raise_(q2, exc, l)
        else:
            raise Budget(f"context manager {t.show(v, 2)[:60]}")
    return evs, out


def ending(I, v, st, fr, node):
    if v.args[0] == "closing":
        out = []
        for s, f in I.getattr(v.args[1], "close", st, fr, node):
            if f.op == "attr":
                f = mk("method", v.args[1], "close")
            out += [q for q, _ in I.call(f, [], {}, s, fr, node)]
        return out
    states = [st]
    for cb in reversed(st.heap[(v, "@cbs")].args):
        nx = []
        for s in states:
            nx += [q for q, _ in I.call(cb.args[0], list(cb.args[1].args), dict(cb.args[2]), s, fr, node)]
        states = nx
    return states


def context(I, fv, args, kwargs, st, fr, node):
    """contextlib and the methods of its objects; None when it is neither."""
    from .interp import Budget
    if fv.op == "ext" and fv.args[0].startswith("contextlib."):
        n = fv.args[0].split(".")[1]
        if n == "suppress" and not kwargs:
            return [(st, mk("ctx", "suppress", tuple(args)))]
        if n == "closing" and len(args) == 1:
            return [(st, mk("ctx", "closing", args[0]))]
        if n == "nullcontext":
            return [(st, mk("ctx", "null", args[0] if args else NONE))]
        if n == "ExitStack" and not args:
            s = st.copy()
            s.cnt[("stack",)] = k = s.cnt.get(("stack",), 0) + 1
            return [(s, mk("ctx", "stack", k))]
        return None
    if fv.op != "method" or fv.args[0].op != "ctx":
        return None
    v, name = fv.args
    if v.args[0] != "stack" or (v, "@cbs") not in st.heap:
        raise Budget(f"{name} of a context manager")
    s = st.copy()

    def push(s, f, a=(), k=()):
        s.heap[(v, "@cbs")] = t.concat(s.heap[(v, "@cbs")], mk("list", mk("tuple", f, mk("tuple", *a), tuple(k))))
    if name == "callback":
        push(s, args[0], args[1:], kwargs.items())
        return [(s, args[0])]
    if name == "enter_context" and len(args) == 1 and args[0].op == "ctx" and args[0].args[0] == "closing":
        out = []
        for q, f in I.getattr(args[0].args[1], "close", s, fr, node):
            q = q.copy()
            push(q, mk("method", args[0].args[1], "close") if f.op == "attr" else f)
            out.append((q, args[0].args[1]))
        return out
    if name == "enter_context" and len(args) == 1 and args[0].op == "obj" and I.class_of(args[0]) is not None:
        c = I.class_of(args[0])
        out = []
        for q, x in I.call_func(I.p.find_method(c, "__enter__"), [], {}, s, I.loc(node, fr), selfv=args[0], cls=c):
            for q2, f in I.getattr(args[0], "__exit__", q, fr, node):
                q2 = q2.copy()
                push(q2, f, [NONE, NONE, NONE])
                out.append((q2, x))
        return out
    raise Budget(f"{name} of an exit stack")
