"""itertools, functools and the like on sequences whose items are known.  Anything else is left to lib.py."""
import itertools

from . import lib, terms as t
from .terms import mk, const, NONE, TRUE


def items_of(x):
    r = lib.enumerate_items(x)
    if r is None and x.op == "const" and isinstance(x.args[0], str) and len(x.args[0]) <= 64:
        r = [const(c) for c in x.args[0]]
    return r if r is not None and len(r) <= 200 else None


def integer(x):
    return t.is_num(x) and isinstance(x.args[0], int)


def truths(I, f, items, st, fr, node):
    """-> (state, [bool]) or None"""
    out = []
    for x in items:
        if f is NONE:
            v = x
        else:
            rs = I.call(f, [x], {}, st, fr, node)
            if len(rs) != 1:
                return None
            st, v = rs[0]
        b = I.truth(v, st)
        if b is None:
            return None
        out.append(b)
    return st, out


def apply(I, f, args, st, fr, node):
    rs = I.call(f, list(args), {}, st, fr, node)
    return rs[0] if len(rs) == 1 else None


def call(I, fv, args, kwargs, st, fr, node):
    """-> [(state, value)] or None"""
    if fv.op == "builtin":
        n = fv.args[0]
        if n == "filter" and len(args) == 2:
            xs = items_of(args[1])
            mark = list(I.collectors[-1].items) if I.collectors else None
            r = truths(I, args[0], xs, st.copy(), fr, node) if xs is not None else None
            if r is None:
                if mark is not None:
                    I.collectors[-1].items[:] = mark
                return None
            return [(r[0], mk("list", *[x for x, b in zip(xs, r[1]) if b]))]
        if n in ("min", "max") and set(kwargs) & {"key", "default"} and len(args) == 1:
            xs = items_of(args[0])
            if xs is None:
                return None
            if not xs:
                return [(st, kwargs["default"])] if "default" in kwargs else None
            ks, s = [], st
            for x in xs:
                if "key" in kwargs and kwargs["key"] is not NONE:
                    q = apply(I, kwargs["key"], [x], s, fr, node)
                    if q is None:
                        return None
                    s, k = q
                else:
                    k = x
                if not (k.op == "const" and isinstance(k.args[0], (int, float, str))):
                    return None
                ks.append(k.args[0])
            try:
                return [(s, xs[ks.index(min(ks) if n == "min" else max(ks))])]
            except TypeError:
                return None
        if n == "str" and len(args) == 1 and args[0].op == "const" and (isinstance(args[0].args[0], (int, bool)) or args[0].args[0] is None):
            return [(st, const(str(args[0].args[0])))]
        if n == "repr" and len(args) == 1 and args[0].op == "const" and isinstance(args[0].args[0], (int, bool, str)):
            return [(st, const(repr(args[0].args[0])))]
        return None
    if fv.op == "method" and fv.args[0].op == "builtin" and fv.args[0].args[0] == "dict" and fv.args[1] == "fromkeys" and args:
        xs = items_of(args[0])
        if xs is None or not all(t.is_const(x) for x in xs):
            return None
        return [(st, mk("dict", tuple((x, args[1] if len(args) > 1 else NONE) for x in dict.fromkeys(xs))))]
    if fv.op == "method" and fv.args[0].op in ("list", "tuple") and len(args) == 1 and fv.args[1] in ("index", "count"):
        xs = fv.args[0].args
        if all(t.is_const(x) for x in xs) and t.is_const(args[0]):
            same = [i for i, x in enumerate(xs) if x.args[0] == args[0].args[0]]
            if fv.args[1] == "count":
                return [(st, const(len(same)))]
            if same:
                return [(st, const(same[0]))]
            I.raise_(st.copy(), mk("excobj", "ValueError", ()), I.loc(node, fr))
            return []
        return None
    if fv.op != "ext":
        return None
    n = fv.args[0]
    seq = lambda xs: [(st, mk("list", *xs))]
    tup = lambda xs: [(st, mk("list", *[mk("tuple", *x) for x in xs]))]
    if n == "functools.reduce" and len(args) in (2, 3) and not kwargs:
        xs = items_of(args[1])
        if xs is None or not xs and len(args) == 2:
            return None
        acc, rest = (args[2], xs) if len(args) == 3 else (xs[0], xs[1:])
        s = st
        for x in rest:
            q = apply(I, args[0], [acc, x], s, fr, node)
            if q is None:
                return None
            s, acc = q
        return [(s, acc)]
    if n.startswith("operator.") and len(args) == 2 and n.split(".")[1] in OPS:
        import ast
        return [(st, I.binop(getattr(ast, OPS[n.split(".")[1]])(), *args))]
    if n in ("operator.itemgetter",) and len(args) == 1:
        return [(st, mk("getter", args[0]))]
    if not n.startswith("itertools."):
        return None
    n = n.split(".")[1]
    if n == "repeat" and len(args) == 2 and integer(args[1]) and args[1].args[0] <= 64:
        return seq([args[0]] * max(args[1].args[0], 0))
    if n == "islice" and 2 <= len(args) <= 4 and all(integer(a) or a is NONE for a in args[1:]):
        xs = items_of(args[0])
        if xs is None:
            return None
        return seq(list(itertools.islice(xs, *[None if a is NONE else a.args[0] for a in args[1:]])))
    if n in ("chain", "chain.from_iterable") and not kwargs:
        return None
    if n == "starmap" and len(args) == 2:
        xs = items_of(args[1])
        rows = [items_of(x) for x in xs] if xs is not None else [None]
        if any(r is None for r in rows):
            return None
        s, out = st, []
        for r in rows:
            q = apply(I, args[0], r, s, fr, node)
            if q is None:
                return None
            s, v = q
            out.append(v)
        return [(s, mk("list", *out))]
    if n in ("takewhile", "dropwhile", "filterfalse") and len(args) == 2:
        xs = items_of(args[1])
        r = truths(I, args[0], xs, st, fr, node) if xs is not None else None
        if r is None:
            return None
        s, bs = r
        if n == "filterfalse":
            out = [x for x, b in zip(xs, bs) if not b]
        else:
            k = next((i for i, b in enumerate(bs) if not b), len(xs))
            out = xs[:k] if n == "takewhile" else xs[k:]
        return [(s, mk("list", *out))]
    if n == "accumulate" and 1 <= len(args) <= 2:
        xs = items_of(args[0])
        if xs is None:
            return None
        s, out = st, []
        acc = kwargs.get("initial")
        if acc is not None and acc is not NONE:
            out.append(acc)
        else:
            acc = None
        f = args[1] if len(args) > 1 else kwargs.get("func")
        for x in xs:
            if acc is None:
                acc = x
            elif f is None or f is NONE:
                import ast
                acc = I.binop(ast.Add(), acc, x)
            else:
                q = apply(I, f, [acc, x], s, fr, node)
                if q is None:
                    return None
                s, acc = q
            out.append(acc)
        return [(s, mk("list", *out))]
    rows = [items_of(x) for x in args] if args else [None]
    if n == "zip_longest" and all(r is not None for r in rows) and set(kwargs) <= {"fillvalue"}:
        return tup(itertools.zip_longest(*rows, fillvalue=kwargs.get("fillvalue", NONE)))
    if n == "pairwise" and len(args) == 1 and rows[0] is not None:
        return tup(zip(rows[0], rows[0][1:]))
    if n in ("combinations", "permutations") and rows[0] is not None and len(rows[0]) <= 6 and all(integer(a) for a in args[1:]):
        return tup(getattr(itertools, n)(rows[0], *[a.args[0] for a in args[1:]]))
    if n == "compress" and len(args) == 2 and all(r is not None for r in rows):
        r = truths(I, NONE, rows[1], st, fr, node)
        return seq([x for x, b in zip(rows[0], r[1]) if b]) if r is not None else None
    return None


OPS = {"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div", "floordiv": "FloorDiv", "mod": "Mod", "pow": "Pow"}


def mutate(b, name, args):
    """The methods of lists and sets that change them -> (new value, result) or None"""
    if b.op == "set" and all(t.is_const(x) for x in b.args) and len(args) == 1 and t.is_const(args[0]) and name in ("discard", "remove"):
        return mk("set", *[x for x in b.args if x.args[0] != args[0].args[0]]), NONE
    if b.op != "list":
        return None
    xs = list(b.args)
    if name == "insert" and len(args) == 2 and integer(args[0]):
        xs.insert(args[0].args[0], args[1])
        return mk("list", *xs), NONE
    if name == "reverse" and not args:
        return mk("list", *xs[::-1]), NONE
    if name == "remove" and len(args) == 1 and t.is_const(args[0]) and all(t.is_const(x) for x in xs):
        k = [i for i, x in enumerate(xs) if x.args[0] == args[0].args[0]]
        if k:
            return mk("list", *(xs[:k[0]] + xs[k[0] + 1:])), NONE
    if name == "popleft" and xs and not args:
        return mk("list", *xs[1:]), xs[0]
    if name == "appendleft" and len(args) == 1:
        return mk("list", args[0], *xs), NONE
    return None
