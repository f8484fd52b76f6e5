"""Abstract models of Python builtins and of the libraries synthpix uses.

Every model maps terms to terms; nothing here runs library code.  Effects
(files, queues, threads, user callables) become events on the trace.
"""
from __future__ import annotations
import zlib
import ast
import math
import posixpath
import re
import string
from pathlib import PurePosixPath
from . import terms as t
from . import paths
from .terms import T, mk, const, NONE, TRUE, FALSE, ELL

# ------------------------------------------------------------------ names

_ALIAS = {
    "math.floor": "np.floor", "math.ceil": "np.ceil", "math.sqrt": "np.sqrt", "math.exp": "np.exp",
    "np.absolute": "np.abs", "np.float_power": "np.power", "jax.random.key": "jax.random.PRNGKey",
    "jax.vmap": "jax.vmap", "jax.experimental.shard_map.shard_map": "jax.shard_map", "np.amax": "np.max",
    "np.amin": "np.min", "time.monotonic": "time.time", "time.perf_counter": "time.time",
    "builtins.max": "np.maximum", "functools.partial": "functools.partial",
    "threading.Thread": "threading.Thread", "jax.nn.relu": "jax.nn.relu",
}


def canon(name: str) -> str:
    for p in ("jax.numpy", "numpy"):
        if name == p:
            return "np"
        if name.startswith(p + "."):
            name = "np." + name[len(p) + 1:]
            break
    return _ALIAS.get(name, name)


# ------------------------------------------------------------------ small helpers

def num(v):
    return v


def textual(x):
    return x.op == "fstr" or (x.op == "const" and isinstance(x.args[0], str)) or (x.op == "call" and x.args[0] in ("json.dumps", "str", "repr"))


def fstr(parts):
    out = []
    for p in parts:
        if p.op == "fstr":
            sub = list(p.args)
        else:
            sub = [p]
        for q in sub:
            if q.op == "path":
                q = q.args[0]
            if q.op == "const" and not isinstance(q.args[0], str):
                q = const(str(q.args[0]))
            if out and out[-1].op == "const" and q.op == "const":
                out[-1] = const(out[-1].args[0] + q.args[0])
            elif not (q.op == "const" and q.args[0] == ""):
                out.append(q)
    if not out:
        return const("")
    if len(out) == 1 and out[0].op == "const":
        return out[0]
    return mk("fstr", *out)


def fmt(x, spec):
    """format(x, spec) where spec is the text after the colon"""
    if x.op == "const" and not isinstance(x.args[0], T):
        try:
            return const(format(x.args[0], spec))
        except (ValueError, TypeError):
            pass
    return mk("fmt", x, spec)


def percent(f, v):
    """f % v for a constant format string, or None"""
    vs = list(v.args) if v.op == "tuple" else [v]
    bits = re.split(r"%(0?\d*[sd]|%)", f)
    if "%" in "".join(bits[::2]):
        return None
    out = []
    for i, b in enumerate(bits):
        if i % 2 == 0:
            out.append(const(b))
        elif b == "%":
            out.append(const("%"))
        elif not vs:
            return None
        else:
            x = vs.pop(0)
            out.append(x if b in ("s", "d") else fmt(x, b.rstrip("s")))
    return None if vs else fstr(out)


def braces(f, args, kwargs):
    """f.format(*args, **kwargs), or None"""
    try:
        bits = list(string.Formatter().parse(f))
    except ValueError:
        return None
    out, n = [], 0
    for text, name, spec, conv in bits:
        out.append(const(text))
        if name is None:
            continue
        if conv or "{" in (spec or ""):
            return None
        if name == "":
            name, n = str(n), n + 1
        if name.isdigit():
            x = args[int(name)] if int(name) < len(args) else None
        else:
            x = kwargs.get(name)
        if x is None:
            return None
        out.append(fmt(x, spec) if spec else x)
    return fstr(out)


def is_logger(b):
    while b.op in ("attr", "method"):
        b = b.args[0]
    if b.op == "modconst":
        return "log" in str(b.args[1]).lower()
    if b.op == "ret" and isinstance(b.args[0], T) and b.args[0].op == "ext":
        return b.args[0].args[0].rsplit(".", 1)[-1] in ("get_logger", "getLogger")
    if b.op == "ext":
        return b.args[0].split(".")[0] in ("logging", "warnings", "rich")
    if b.op == "call" and isinstance(b.args[0], str):
        return b.args[0].startswith(("rich.", "logging."))
    return False


def py_sorted(b, kw=()):
    its = enumerate_items(b)
    kw = [x for x in kw if x != ("reverse", FALSE) and x != ("key", NONE)]
    if its is not None and list(kw) in ([], [("reverse", TRUE)]):
        ks = [_plain(x) for x in its]
        if None not in ks:
            try:
                return mk("list", *[its[i] for i in sorted(range(len(its)), key=lambda i: ks[i], reverse=bool(kw))])
            except TypeError:
                pass
    if b.op == "sorted" and not kw:
        return b
    return mk("sorted", b, tuple(kw)) if kw else mk("sorted", b)


ARRAYISH = {"draw", "row", "vmap", "full", "atop", "shapeop", "T"}


def arrayish(a):
    """Known to carry array axes (so that a trailing-axis vector broadcasts against it)."""
    if a.op in ARRAYISH:
        return a.op != "row"
    if a.op == "poly":
        return any(arrayish(x) for m, _ in a.args[0] for x, _ in m)
    if a.op in ("min", "max"):
        return any(arrayish(x) for x in a.args)
    return False


def stack(axis, items):
    return mk("stack", axis, tuple(items))


def stackwise(f, a, b):
    sa, sb = a.op == "stack", b.op == "stack"
    if not sa and not sb:
        return f(a, b)
    if sa and sb:
        if len(a.args[1]) == len(b.args[1]):
            ax = a.args[0] if a.args[0] == b.args[0] else -1
            return stack(ax, [f(x, y) for x, y in zip(a.args[1], b.args[1])])
        return mk("binop", f.__name__, a, b)
    s, o = (a, b) if sa else (b, a)
    if t.is_seq(o) and o.op in ("list", "tuple") and len(o.args) == len(s.args[1]):
        its = [f(x, y) if sa else f(y, x) for x, y in zip(s.args[1], o.args)]
        return stack(s.args[0], its)
    if s.args[0] == 0 and arrayish(o):
        its = [(f(x, last(o, k)) if sa else f(last(o, k), x)) for k, x in enumerate(s.args[1])]
        return stack(-1, its)
    its = [(f(x, o) if sa else f(o, x)) for x in s.args[1]]
    return stack(s.args[0], its)


def last(x, k):
    """x[..., k]"""
    return index(x, mk("tuple", ELL, const(k)))


# ------------------------------------------------------------------ attributes / subscripts

def attr(b, name):
    if name == "T":
        return transpose(b)
    if name == "at":
        return mk("at", b)
    if name == "mT":
        return mk("shapeop", "mT", b, ())
    if b.op == "rematch":
        return mk("attr", b, name)
    if b.op == "direntry" and name in ("name", "path"):
        p = b.args[0].args[0]
        return const(p.rsplit("/", 1)[-1] if name == "name" else p)
    if b.op == "path":
        v = paths.attribute(b, name)
        if v is not None:
            return v
    if b.op == "pil" and name in ("size", "width", "height"):
        sh = shape_of(b.args[0])
        if sh is not None:
            return mk("tuple", sh[1], sh[0]) if name == "size" else sh[1 if name == "width" else 0]
    if b.op == "pil" and name == "mode":
        x = b.args[0]
        while x.op == "imresize":
            x = x.args[0]
        if x.op == "imconvert" and isinstance(x.args[1], str):
            return const(x.args[1])
        if x.op == "arr":
            return const(x.args[0].split("#")[1] if "#" in x.args[0] else "RGB" if len(x.args[1]) == 3 else "L")
    if name in ("shape", "ndim"):
        sh = shape_of(b)
        if sh is not None:
            return mk("tuple", *sh) if name == "shape" else const(len(sh))
    if name == "size" and b.op in SHAPED:
        sh = shape_of(b)
        if sh is not None and all(_cint(x) for x in sh):
            return const(math.prod(x.args[0] for x in sh))
    if name == "shape":
        if b.op == "full":
            s = b.args[0]
            return s if s.op == "tuple" else (mk("tuple", s) if t.is_num(s) else mk("attr", b, "shape"))
        if b.op == "arange" and t.is_num(b.args[0]) and b.args[0].args[0] == 0 and t.is_const(b.args[2], 1):
            return mk("tuple", b.args[1])
        if b.op == "linspace":
            return mk("tuple", b.args[2])
        if b.op == "atop":
            return attr(b.args[0], "shape")
    if b.op == "ite":
        return t.ite(b.args[0], attr(b.args[1], name), attr(b.args[2], name))
    return mk("attr", b, name)


def shape_of(b):
    """Shape of a view of an array of known rank (op "arr": label, shape)."""
    if b.op == "arr":
        return list(b.args[1])
    if b.op == "full":
        return list(b.args[0].args) if b.args[0].op in ("tuple", "list") else [b.args[0]] if _cint(b.args[0]) else None
    if b.op == "index":
        sh = shape_of(b.args[0])
        if sh is None:
            return None
        ks = list(b.args[1].args) if b.args[1].op == "tuple" else [b.args[1]]
        n = sum(1 for k in ks if k is not ELL and k is not NONE)
        if n > len(sh):
            return None
        if ELL in ks:
            i = ks.index(ELL)
            ks = ks[:i] + [mk("slice", NONE, NONE, NONE)] * (len(sh) - n) + ks[i + 1:]
        else:
            ks = ks + [mk("slice", NONE, NONE, NONE)] * (len(sh) - n)
        out, i = [], 0
        for k in ks:
            if k is NONE:
                out.append(const(1))
                continue
            d = sh[i]
            i += 1
            if k.op == "slice":
                if all(x is NONE for x in k.args):
                    out.append(d)
                elif _cint(d) and all(x is NONE or _cint(x) for x in k.args):
                    out.append(const(len(range(d.args[0])[slice(*[None if x is NONE else x.args[0] for x in k.args])])))
                else:
                    return None
            elif not (_cint(k) or k.op in ("poly", "sym", "loopvar")):
                return None
        return out
    if b.op == "shapeop" and b.args[0] == "transpose":
        sh = shape_of(b.args[1])
        ax = perm_of(b)
        if sh is None or ax is None or len(ax) != len(sh):
            return None
        return [sh[x] for x in ax]
    if b.op == "shapeop" and b.args[0] == "reshape":
        sh = shape_of(b.args[1])
        new = b.args[2]
        new = new[0].args if len(new) == 1 and isinstance(new[0], T) and new[0].op in ("tuple", "list") else new
        if sh is None or not all(isinstance(x, T) and _cint(x) for x in list(new) + sh):
            return None
        old, n = math.prod(x.args[0] for x in sh), math.prod(x.args[0] for x in new)
        if n < 0 and sum(1 for x in new if x.args[0] < 0) == 1 and old % n == 0:
            return [const(old // -n) if x.args[0] < 0 else x for x in new]
        return list(new) if n == old else None
    if b.op == "T":
        sh = shape_of(b.args[0])
        return sh[::-1] if sh is not None else None
    if b.op == "imresize":
        sh = shape_of(b.args[0])
        return None if sh is None else [b.args[1].args[1], b.args[1].args[0]] + sh[2:]
    if b.op == "imconvert":
        sh = shape_of(b.args[0])
        return None if sh is None else sh[:2] + ([const(3)] if b.args[1] == "RGB" else [])
    if b.op == "stack":
        sh = shape_of(b.args[1][0]) if b.args[1] else None
        if sh is None:
            return None
        i = b.args[0] if b.args[0] >= 0 else len(sh) + 1 + b.args[0]
        return sh[:i] + [const(len(b.args[1]))] + sh[i:]
    if b.op == "poly":
        shs = [shape_of(y) for m in t.poly_of(b) for y, k in m if y.op in SHAPED]
        if not shs or any(x is None for x in shs):
            return None
        return max(shs, key=len)
    return None


SHAPED = {"arr", "index", "shapeop", "T", "imresize", "imconvert", "stack"}


def perm_of(b):
    """The axis order of a transposition, if known."""
    ax = b.args[2]
    if len(ax) == 1 and isinstance(ax[0], T) and ax[0].op in ("tuple", "list"):
        ax = ax[0].args
    elif len(ax) == 1 and isinstance(ax[0], tuple):
        ax = ax[0][1].args if ax[0][1].op in ("tuple", "list") else ()
    if not ax or not all(isinstance(x, T) and _cint(x) for x in ax):
        return None
    return [x.args[0] % len(ax) for x in ax]


def inbounds(v):
    """Is this an access to an array of known shape inside of its bounds?"""
    if v.op != "index":
        return False
    sh = shape_of(v.args[0])
    if sh is None:
        return False
    ks = list(v.args[1].args) if v.args[1].op == "tuple" else [v.args[1]]
    if ELL in ks or NONE in ks or len(ks) > len(sh):
        return False
    def inside(k, d):
        if k.op == "list" and len(ks) == 1:
            return all(inside(y, d) for y in k.args)
        return k.op == "slice" or _cint(k) and _cint(d) and -d.args[0] <= k.args[0] < d.args[0]
    return all(inside(k, d) for k, d in zip(ks, sh))


def moved(b, ks):
    """(transposed b)[ks] as an access to b itself, if the remaining axes keep their order"""
    p = perm_of(b) if b.op == "shapeop" and b.args[0] == "transpose" else None
    sh = shape_of(b)
    if p is None or sh is None or len(ks) > len(p) or any(k is NONE or k is ELL for k in ks):
        return None
    ks = ks + [mk("slice", NONE, NONE, NONE)] * (len(p) - len(ks))
    left = [a for a, k in zip(p, ks) if k.op == "slice"]
    if left != sorted(left):
        return None
    out = [None] * len(p)
    for a, k in zip(p, ks):
        out[a] = k
    return index(b.args[1], mk("tuple", *out))


def sliced(b, ks):
    """x[...][ks] as one access to x, where x[...] consists of known integers and slices and ks of integers and full slices"""
    x, k0 = b.args
    sh = shape_of(x)
    full = mk("slice", NONE, NONE, NONE)
    old = list(k0.args) if k0.op == "tuple" else [k0]
    if sh is None or ELL in old or NONE in old or len(old) > len(sh):
        return None
    old += [full] * (len(sh) - len(old))
    left = [i for i, k in enumerate(old) if k.op == "slice"]
    if len(ks) > len(left) or any(k.op == "slice" and k is not full and old[left[i]] is not full or k is NONE or k is ELL or k.op in ("tuple", "list")
                                  for i, k in enumerate(ks)):
        return None
    if all(old[left[i]] is full for i in range(len(ks))) and not all(_cint(k) or k.op == "slice" for k in ks):
        return None
    for i, k in enumerate(ks):
        j = left[i]
        if k is full:
            continue
        if old[j] is full:
            old[j] = k
            continue
        d = sh[j]
        if not (_cint(k) and all(z is NONE or _cint(z) for z in old[j].args)):
            return None
        sl = slice(*[None if z is NONE else z.args[0] for z in old[j].args])
        if _cint(d):
            r = range(d.args[0])[sl]
            if not -len(r) <= k.args[0] < len(r):
                return None
            old[j] = const(r[k.args[0]])
        elif k.args[0] >= 0 and (sl.start or 0) >= 0 and (sl.step or 1) == 1 and sl.stop is not None and sl.stop >= 0 and k.args[0] < sl.stop - (sl.start or 0):
            old[j] = const((sl.start or 0) + k.args[0])
        else:
            return None
    while old and old[-1] is full:
        old.pop()
    return index(x, old[0] if len(old) == 1 else mk("tuple", *old)) if old else x


def transpose(b):
    if b.op == "T":
        return b.args[0]
    if b.op == "stack":
        return stack(-1 if b.args[0] == 0 else 0, b.args[1])
    return mk("T", b)


def _cint(k):
    return k.op == "const" and isinstance(k.args[0], int) and not isinstance(k.args[0], bool)


def literal_indices(k):
    """A list of known integers, also when written as an array."""
    if k.op == "stack" and k.args[0] == 0 and all(_cint(x) for x in k.args[1]):
        return mk("list", *k.args[1])
    return k


def index(b, k):
    op = b.op
    k = literal_indices(k)
    if op == "h5":
        return index(b.args[0], k)
    if op == "index" and b.args[1].op == "list" and k.op == "slice" and all(x is NONE or _cint(x) for x in k.args):
        return mk("index", b.args[0], index(b.args[1], k))
    if k.op in ("tuple", "slice") or k is ELL:
        sh = shape_of(b)
        if sh is not None:
            # explicit form: one entry per axis, trailing full ones left out
            full = mk("slice", NONE, NONE, NONE)
            ks = list(k.args) if k.op == "tuple" else [k]
            n = sum(1 for x in ks if x is not ELL and x is not NONE)
            if ks.count(ELL) <= 1 and n <= len(sh):
                if ELL in ks:
                    i = ks.index(ELL)
                    ks = ks[:i] + [full] * (len(sh) - n) + ks[i + 1:]
                while ks and ks[-1] is full:
                    ks.pop()
                if not ks:
                    return b
                m = moved(b, ks) if op != "index" else sliced(b, ks)
                if m is not None:
                    return m
                if op == "stack" and isinstance(b.args[0], int):
                    i = b.args[0] % len(sh)
                    if i < len(ks) and _cint(ks[i]) and -len(b.args[1]) <= ks[i].args[0] < len(b.args[1]):
                        rest = ks[:i] + ks[i + 1:]
                        while rest and rest[-1] is full:
                            rest.pop()
                        it = b.args[1][ks[i].args[0]]
                        return it if not rest else index(it, rest[0] if len(rest) == 1 else mk("tuple", *rest))
                return mk("index", b, ks[0] if len(ks) == 1 else mk("tuple", *ks))
    if k.op == "slice":
        lo, hi, step = k.args
        if lo is NONE and hi is NONE and step is NONE and op not in ("at",):
            return b if op in ("list", "tuple", "concat", "map") else mk("index", b, k)
        if op in ("list", "tuple") and all(x is NONE or _cint(x) for x in k.args):
            s = slice(*[None if x is NONE else x.args[0] for x in k.args])
            return mk(op, *b.args[s])
        if op == "const" and isinstance(b.args[0], str) and all(x is NONE or _cint(x) for x in k.args):
            return const(b.args[0][slice(*[None if x is NONE else x.args[0] for x in k.args])])
        return mk("index", b, k)
    if op == "shapeop" and _cint(k):
        m = moved(b, [k])
        if m is not None:
            return m
    if op == "index" and _cint(k) and b.args[1].op in ("slice", "tuple"):
        m = sliced(b, [k])
        if m is not None:
            return m
    if op in ("list", "tuple") and _cint(k):
        i = k.args[0]
        if -len(b.args) <= i < len(b.args):
            return b.args[i]
        return mk("bottom")
    if op == "dict":
        for kk, v in reversed(b.args[0]):
            if kk is k:
                return v
            if kk.op == "starstar" or kk.op != "const" or k.op != "const":
                break
        else:
            pass
        return mk("index", b, k)
    if op == "arr" and (k is ELL or k.op == "tuple" and all(x is ELL or x.op == "slice" and all(y is NONE for y in x.args) for x in k.args)):
        return b
    if op == "setitem":
        if b.args[1] is k:
            return b.args[2]
        if b.args[1].op == "const" and k.op == "const":
            return index(b.args[0], k)
        return mk("index", b, k)
    if op == "split":
        if _cint(k):
            i = k.args[0]
            n = b.args[1]
            if i < 0 and _cint(n):
                i += n.args[0]
            return mk("subkey", b.args[0], n, const(i))
        return mk("subkey", b.args[0], b.args[1], k)
    if op == "stack":
        ax, items = b.args
        if _cint(k) and ax == 0 and -len(items) <= k.args[0] < len(items):
            return items[k.args[0]]
        if k.op == "tuple" and k.args:
            z = k.args[-1]
            full = all(x is ELL or (x.op == "slice" and all(y is NONE for y in x.args)) for x in k.args[:-1])
            if ax == -1 and _cint(z) and full and len(k.args) > 1 and -len(items) <= z.args[0] < len(items):
                return items[z.args[0]]
            if ax == 0 and _cint(k.args[0]) and -len(items) <= k.args[0].args[0] < len(items):
                rest = k.args[1:]
                return index(items[k.args[0].args[0]], rest[0] if len(rest) == 1 else mk("tuple", *rest))
        if ax == -1 and k.op in ("elem", "pos", "sym"):
            return stack(0, [index(x, k) for x in items])
    if op == "call" and b.args[0] in ("tuple", "list") and len(b.args[1]) == 1 and _cint(k):
        return index(b.args[1][0], k)
    if op == "ite" and (b.args[1].op in ("tuple", "list", "stack", "ite") or b.args[2].op in ("tuple", "list", "stack", "ite")):
        return t.ite(b.args[0], index(b.args[1], k), index(b.args[2], k))
    if op == "at":
        return mk("atidx", b.args[0], k)
    if op == "vmap" and b.args[0].op == "tuple" and _cint(k):
        return mk("vmap", b.args[0].args[k.args[0]])
    if op == "zip" and _cint(k):
        return mk("tuple", *[index(x, k) for x in b.args[0]])
    if k.op == "tuple":
        # x[..., c] and x[:, c] are the same view of a trailing axis in pointwise form
        ks = list(k.args)
        if len(ks) >= 2 and _cint(ks[-1]) and all(x is ELL or (x.op == "slice" and all(y is NONE for y in x.args)) for x in ks[:-1]):
            return mk("index", b, mk("tuple", ELL, ks[-1]))
        # trailing full slices / ellipsis are no-ops
        while ks and len(ks) > 1 and (ks[-1] is ELL or (ks[-1].op == "slice" and all(y is NONE for y in ks[-1].args))):
            ks.pop()
        if len(ks) == 1:
            return index(b, ks[0])
        return mk("index", b, mk("tuple", *ks))
    return mk("index", b, k)


def unpack(v, i, n):
    if v.op in ("list", "tuple") and len(v.args) != n:
        return mk("bottom")
    if v.op == "set":
        return v.args[i]
    if v.op == "split":
        return index(v, const(i))
    if v.op == "vmap" and v.args[0].op == "tuple":
        return mk("vmap", v.args[0].args[i])
    if v.op == "fstr":
        return mk("index", v, const(i))
    if v.op == "map" and v.args[2] is TRUE and v.args[1].op in ("list", "tuple") and len(v.args[1].args) == n:
        el = mk("elem", v.args[1], 0)
        return t.subst(v.args[0], lambda x: v.args[1].args[i] if x is el else None)
    return index(v, const(i))


# ------------------------------------------------------------------ iteration

def enumerate_items(it):
    op = it.op
    if op == "h5":
        return enumerate_items(it.args[0])
    if op == "textfile":
        return [const(l) for l in it.args[0].args[0].splitlines(True)]
    if op == "call" and it.args[0] in ("iter", "list", "tuple") and len(it.args[1]) == 1:
        return enumerate_items(it.args[1][0])
    if op in ("list", "tuple", "set"):
        return list(it.args)
    if op == "array" and it.args[0].op in ("list", "tuple") and all(x.op == "const" for x in it.args[0].args):
        return list(it.args[0].args)
    if op == "const" and isinstance(it.args[0], str) and len(it.args[0]) <= 64:
        return [const(c) for c in it.args[0]]
    if op == "const" and isinstance(it.args[0], tuple):
        return [const(c) for c in it.args[0]]
    if op == "range" and all(_cint(x) for x in it.args):
        r = range(*[x.args[0] for x in it.args])
        return [const(i) for i in r] if len(r) <= 64 else None
    if op == "enumerate":
        xs = enumerate_items(it.args[0])
        if xs is None or not _cint(it.args[1]):
            return None
        return [mk("tuple", const(i + it.args[1].args[0]), x) for i, x in enumerate(xs)]
    if op == "zip":
        cols = [enumerate_items(x) for x in it.args[0]]
        if any(c is None for c in cols):
            ns = {len(c) for c in cols if c is not None}
            if len(ns) != 1 or not all(c is not None or x.op in ("attr", "sym", "index") for c, x in zip(cols, it.args[0])):
                return None
            # an input zipped with a sequence of known length: as long as that one
            n = ns.pop()
            cols = [c if c is not None else [index(x, const(i)) for i in range(n)] for c, x in zip(cols, it.args[0])]
        return [mk("tuple", *r) for r in zip(*cols)]
    if op == "dict":
        if any(k.op == "starstar" for k, _ in it.args[0]):
            return None
        return [k for k, _ in it.args[0]]
    if op == "call" and it.args[0] in (".items", ".keys", ".values") and it.args[1][0].op == "dict":
        d = it.args[1][0].args[0]
        if any(k.op == "starstar" for k, _ in d):
            return None
        if it.args[0] == ".items":
            return [mk("tuple", k, v) for k, v in d]
        return [k if it.args[0] == ".keys" else v for k, v in d]
    if op == "call" and it.args[0] in ("list", "tuple") and len(it.args[1]) == 1:
        return enumerate_items(it.args[1][0])
    if op == "reversed":
        xs = enumerate_items(it.args[0])
        return xs[::-1] if xs is not None else None
    if op == "split" and _cint(it.args[1]) and it.args[1].args[0] <= 64:
        return [index(it, const(i)) for i in range(it.args[1].args[0])]
    if op == "stack" and it.args[0] == 0:
        return list(it.args[1])
    if op == "arr" or op == "index" and it.args[0].op in ("arr", "index"):
        sh = shape_of(it)
        if sh and _cint(sh[0]) and sh[0].args[0] <= 40:
            return [index(it, const(i)) for i in range(sh[0].args[0])]
    return None


def strip_iter(it):
    while True:
        if it.op == "map":
            it = it.args[1]
        elif it.op == "call" and it.args[0] in ("list", "tuple", "iter") and len(it.args[1]) == 1:
            it = it.args[1][0]
        elif it.op == "enumerate":
            it = strip_iter(it.args[0])
        else:
            return it


def iter_elem(it, k):
    if it.op == "map":
        return it.args[0] if k == 0 else t.subst(
            it.args[0], lambda x: mk("elem", x.args[0], x.args[1] + k) if x.op == "elem" and x.args[0] is it.args[1] else None)
    if it.op == "call" and it.args[0] in ("list", "tuple", "iter") and len(it.args[1]) == 1:
        return iter_elem(it.args[1][0], k)
    if it.op == "enumerate":
        p = mk("pos", strip_iter(it.args[0]), k)
        return mk("tuple", t.add(p, it.args[1]), iter_elem(it.args[0], k))
    if it.op == "zip":
        return mk("tuple", *[iter_elem(x, k) for x in it.args[0]])
    if it.op == "call" and it.args[0] == ".items":
        d = it.args[1][0]
        return mk("tuple", mk("key", d, k), mk("val", d, k))
    if it.op == "call" and it.args[0] == ".keys":
        return mk("key", it.args[1][0], k)
    if it.op == "call" and it.args[0] == ".values":
        return mk("val", it.args[1][0], k)
    if it.op in ("ite",):
        return mk("elem", it, k)
    return mk("elem", it, k)


# ------------------------------------------------------------------ min / max / rounding

def nary(op, items):
    flat = []
    for x in items:
        for y in (x.args if x.op == op else (x,)):
            if y not in flat:
                flat.append(y)
    nums = [x for x in flat if t.is_num(x)]
    rest = [x for x in flat if not t.is_num(x)]
    if nums:
        f = min if op == "min" else max
        best = f(nums, key=lambda x: x.args[0])
        rest.append(best)
    if len(rest) == 1:
        return rest[0]
    return mk(op, *sorted(rest))


def minmax(op, items):
    if items and all(x.op == "stack" for x in items):
        n = len(items[0].args[1])
        if all(len(x.args[1]) == n for x in items):
            return stack(items[0].args[0], [nary(op, [x.args[1][i] for x in items]) for i in range(n)])
    st = [x for x in items if x.op == "stack"]
    if len(st) == 1 and len(items) == 2:
        o = [x for x in items if x is not st[0]][0]
        return stackwise(lambda a, b: nary(op, [a, b]), st[0], o)
    return nary(op, items)


def clip(x, lo, hi):
    if lo is not NONE:
        x = minmax("max", [x, lo])
    if hi is not NONE:
        x = minmax("min", [x, hi])
    return x


INTEGRAL = {"floor", "ceil", "round", "toint", "floordiv", "arange", "len"}


def integral(x):
    """Statically known to be integer valued."""
    if x.op == "const":
        return isinstance(x.args[0], int) or (isinstance(x.args[0], float) and x.args[0].is_integer())
    if x.op == "fn":
        return x.args[0] in ("floor", "ceil", "round", "toint", "trunc")
    if x.op in ("floordiv", "arange", "pos", "argsort"):
        return x.op != "floordiv" or all(integral(y) for y in x.args)
    if x.op == "call" and x.args[0] in ("len",):
        return True
    if x.op == "index" and x.args[0].op == "attr" and x.args[0].args[1] == "shape":
        return True
    if x.op == "attr" and x.args[1] in ("ndim", "size"):
        return True
    if x.op in ("min", "max", "mod"):
        return all(integral(y) for y in x.args)
    if x.op == "ite":
        return integral(x.args[1]) and integral(x.args[2])
    if x.op == "poly":
        return all(c.denominator == 1 and all(e > 0 and integral(a) for a, e in m) for m, c in x.args[0])
    if x.op == "elem":
        return x.args[0].op == "range"
    if x.op == "row":
        return integral(x.args[0])
    if x.op == "bcast":
        return integral(x.args[0])
    return False


def fn(name, x):
    if x.op == "stack":
        return stack(x.args[0], [fn(name, y) for y in x.args[1]])
    if name in ("floor", "ceil", "round", "toint", "trunc") and integral(x):
        return const(int(x.args[0])) if x.op == "const" else x
    if x.op == "const" and isinstance(x.args[0], (int, float)):
        import math
        v = x.args[0]
        try:
            r = {"floor": math.floor, "ceil": math.ceil, "toint": int, "trunc": int, "sqrt": math.sqrt, "exp": math.exp,
                 "abs": abs, "round": round}.get(name)
            if r is not None and name not in ("sqrt", "exp"):
                return const(r(v))
            if name == "sqrt" and v in (0, 1, 4, 9):
                return const(int(math.sqrt(v)))
            if name == "exp" and v == 0:
                return const(1)
        except (ValueError, OverflowError):
            pass
    return mk("fn", name, x)


def bcast(vec, axis, nd):
    return mk("bcast", vec, axis, nd)


# ------------------------------------------------------------------ calls

def kwarg(args, kwargs, pos, *names, default=None):
    if pos is not None and pos < len(args):
        return args[pos]
    for n in names:
        if n in kwargs:
            return kwargs[n]
    return default


def pure(name, args, kwargs):
    return mk("call", name, tuple(args), tuple(sorted(kwargs.items())))


FLOATY = ("float", "np.float32", "np.float64", "jax.numpy.float32", "np.float16", "double")
UNARY = {"np.floor": "floor", "np.ceil": "ceil", "np.sqrt": "sqrt", "np.exp": "exp", "np.abs": "abs", "np.round": "round",
         "np.rint": "round", "np.sin": "sin", "np.cos": "cos", "np.log": "log", "np.trunc": "trunc", "np.fix": "trunc",
         "np.square": None, "np.negative": None, "np.isnan": "isnan", "np.isfinite": "isfinite", "np.logical_not": None}
BINARY = {"np.add": t.add, "np.subtract": t.sub, "np.multiply": t.mul, "np.divide": t.div, "np.true_divide": t.div,
          "np.power": t.power, "np.floor_divide": t.floordiv, "np.mod": t.mod, "np.remainder": t.mod}
CMPF = {"np.less": "<", "np.less_equal": "<=", "np.greater": ">", "np.greater_equal": ">=", "np.equal": "==", "np.not_equal": "!="}
DTYPES = {"np.float32": "float", "np.float64": "float", "np.float16": "float", "np.int32": "int", "np.int64": "int", "np.int16": "int",
          "np.uint8": "uint8", "np.bool_": "bool", "float": "float", "int": "int", "bool": "bool"}
REDUCE = ("sum", "mean", "prod", "max", "min", "any", "all", "cumsum", "argmax", "argmin", "std", "var", "median", "argsort", "ptp")
SHAPEOPS = ("reshape", "ravel", "transpose", "tile", "pad", "concatenate", "repeat", "expand_dims", "squeeze", "swapaxes",
            "moveaxis", "flip", "roll", "hstack", "vstack", "broadcast_to", "atleast_1d", "column_stack", "dstack", "rollaxis", "flipud", "fliplr", "rot90",
            "take", "vsplit", "dstack", "append", "flatten")
DRAWS = {
    "uniform": (("shape", const(())), ("dtype", NONE), ("minval", const(0)), ("maxval", const(1))),
    "normal": (("shape", const(())), ("dtype", NONE)),
    "bernoulli": (("p", const(0.5)), ("shape", NONE)),
    "randint": (("shape", NONE), ("minval", NONE), ("maxval", NONE), ("dtype", NONE)),
    "permutation": (("x", NONE), ("axis", const(0)), ("independent", FALSE)),
    "choice": (("a", NONE), ("shape", const(())), ("replace", TRUE), ("p", NONE), ("axis", const(0))),
    "truncated_normal": (("lower", NONE), ("upper", NONE), ("shape", NONE), ("dtype", NONE)),
    "exponential": (("shape", const(())), ("dtype", NONE)),
    "poisson": (("lam", NONE), ("shape", NONE), ("dtype", NONE)),
    "beta": (("a", NONE), ("b", NONE), ("shape", NONE), ("dtype", NONE)),
    "categorical": (("logits", NONE), ("axis", const(-1)), ("shape", NONE)),
}
PURE_PREFIX = ("np.", "jax.", "os.path.", "math.", "re.", "pathlib.", "json.", "rich.", "operator.", "itertools.", "dataclasses.",
               "collections.", "copy.", "string.", "struct.", "functools.", "typing.", "typing_extensions.", "scipy.ndimage.",
               "logging.")
EFFECT = ("np.load", "np.fromfile", "np.save", "np.savez", "np.random", "json.load", "json.dump", "jax.debug", "np.genfromtxt", "np.loadtxt",
          "np.memmap", "pathlib.Path.cwd")
STR_METHODS = {"endswith", "startswith", "split", "strip", "lower", "upper", "join", "replace", "format", "rsplit", "lstrip", "rstrip",
               "isdigit", "encode", "decode", "group", "groups", "find", "index", "count", "title", "partition", "rpartition", "zfill",
               "removesuffix", "removeprefix", "casefold", "splitlines", "with_suffix", "with_name", "relative_to", "joinpath", "as_posix",
               "resolve", "tolist", "item", "copy", "any", "all", "sum", "max", "min", "mean", "std", "nonzero", "is_absolute", "keys",
               "values", "items", "expanduser", "isoformat", "total_seconds", "bit_length", "match", "search", "fullmatch", "squeeze",
               "swapaxes", "view", "numpy", "union", "intersection", "difference", "issubset", "__len__", "__contains__", "to_bytes",
               "get_shape", "cumsum", "argmax", "argmin", "prod", "var", "dot", "clip", "round", "repeat", "hex", "exists", "is_file",
               "is_dir", "sub", "findall", "rglob_", "conjugate"}
KNOWN_RAISES = {"os.scandir": ("FileNotFoundError", "NotADirectoryError", "PermissionError")}


def _effect(interp, callee, args, kwargs, st, loc, known=None):
    st = st.copy()
    r = interp.opaque_call(callee, args, kwargs, st, loc)
    interp.may_raise(st, r, loc, known)
    return [(st, r)]


def _one(interp, rs, st):
    """Collapse the results of a pure call to one (state, value)."""
    if len(rs) == 1:
        return rs[0]
    v = rs[-1][1]
    for s, x in reversed(rs[:-1]):
        g = t.conj([c if p else t.nott(c) for c, p, _ in s.guards[len(st.guards):]])
        v = t.ite(g, x, v)
    s = st.copy()
    s.cnt = dict(rs[0][0].cnt)
    s.trace = rs[0][0].trace
    return s, v


def row(x):
    if x.op in ("tuple", "list"):
        return mk(x.op, *[row(y) for y in x.args])
    if x.op == "stack":
        if x.args[0] == -1:
            return stack(0, [row(y) for y in x.args[1]])
        return mk("row", x)
    if x.op == "split":
        return mk("subkey", x.args[0], x.args[1], mk("row", mk("arange", const(0), x.args[1], const(1))))
    if x.op == "vmap":
        return x.args[0]
    if x is NONE:
        return NONE
    return mk("row", x)


def unrow(v):
    """vmap over a result: distribute over tuples."""
    if v.op == "tuple":
        return mk("tuple", *[unrow(x) for x in v.args])
    if v.op == "list":
        return mk("list", *[unrow(x) for x in v.args])
    if v.op == "row":
        return v.args[0]
    if v.op == "stack" and v.args[0] == 0:
        return stack(-1, [unrow(x) for x in v.args[1]])
    return mk("vmap", v)


def call(interp, fv, args, kwargs, st, fr, node, star=None, dstar=None):
    loc = interp.loc(node, fr)
    op = fv.op
    if star is not None or dstar is not None:
        args = list(args) + ([mk("star", star)] if star is not None else [])
        if dstar is not None:
            kwargs = dict(kwargs)
            kwargs["**"] = dstar
    if op == "builtin":
        return builtin(interp, fv.args[0], args, kwargs, st, fr, node, loc)
    if op == "ext":
        return external(interp, fv.args[0], args, kwargs, st, fr, node, loc)
    if op in ("method", "attr"):
        return method(interp, fv.args[0], fv.args[1], args, kwargs, st, fr, node, loc)
    if op == "unboundm":
        c = interp.find_class(fv.args[0])
        f = c.methods[fv.args[1]]
        if f.kind == "staticmethod":
            return interp.call_func(f, args, kwargs, st, loc)
        if args:
            return interp.call_func(f, args[1:], kwargs, st, loc, selfv=args[0], cls=interp.class_of(args[0]) or c)
    if op == "vmapf":
        return vmap_call(interp, fv, args, kwargs, st, fr, node)
    if op == "ite":
        out = []
        for pol, g in ((True, fv.args[1]), (False, fv.args[2])):
            s = interp.assume(st, fv.args[0], pol, loc)
            if s is not None:
                out += interp.call(g, args, kwargs, s, fr, node)
        return out
    return _effect(interp, fv, args, kwargs, st, loc)


def enumerable(a, most):
    """The entries of a short array along its first axis."""
    if a.op == "arange" and all(_cint(x) for x in a.args[:3]) and a.args[2].args[0]:
        r = range(*(x.args[0] for x in a.args[:3]))
        return [const(k) for k in r] if 0 < len(r) <= most else []
    if a.op == "stack" and a.args[0] == 0:
        return list(a.args[1]) if len(a.args[1]) <= most else []
    if a.op == "linspace" and all(t.is_num(x) for x in a.args[:3]) and _cint(a.args[2]):
        lo, hi, n = (x.args[0] for x in a.args[:3])
        return [t.add(const(lo), t.mul(t.div(t.sub(const(hi), const(lo)), const(max(n - 1, 1))), const(k))) for k in range(n)] if 0 < n <= most else []
    sh = shape_of(a)
    if sh and _cint(sh[0]) and 0 < sh[0].args[0] <= most:
        return [index(a, const(k)) for k in range(sh[0].args[0])]
    return []


def vmap_call(interp, fv, args, kwargs, st, fr, node):
    f, axes = fv.args
    rows = []
    for i, a in enumerate(args):
        ax = None
        if axes.op in ("tuple", "list"):
            ax = axes.args[i] if i < len(axes.args) else None
        elif axes is not NONE:
            ax = axes
        rows.append(a if ax is NONE else row(a))
    base = st
    if getattr(interp, "unroll", 0) and not kwargs:
        which = [axes.args[i] if axes.op in ("tuple", "list") and i < len(axes.args) else const(0) if axes is NONE else axes for i in range(len(args))]
        spread = [None if ax is NONE else enumerable(a, interp.unroll) if _cint(ax) and ax.args[0] == 0 else [] for a, ax in zip(args, which)]
        ns = {len(xs) for xs in spread if xs is not None}
        if len(ns) == 1 and 0 not in ns:
            items = []
            for k in range(ns.pop()):
                rs = interp.call(f, [a if xs is None else xs[k] for a, xs in zip(args, spread)], {}, st, fr, node)
                if len(rs) != 1:
                    return [] if not rs else [(rs[0][0], mk("opaque", "branches in a mapped function"))]
                st, v = _one(interp, rs, base)
                items.append(v)
            if items and all(x.op not in ("tuple", "list") for x in items):
                return [(st, stack(0, items))]
            if items and all(x.op == items[0].op and len(x.args) == len(items[0].args) for x in items):
                return [(st, mk(items[0].op, *[stack(0, [x.args[i] for x in items]) for i in range(len(items[0].args))]))]
    rs = interp.call(f, rows, {k: row(v) for k, v in kwargs.items()}, st, fr, node)
    if not rs:
        return []
    s, v = _one(interp, rs, base)
    return [(s, unrow(v))]


def isinst(x, ty, interp):
    """Three-valued isinstance for terms of known shape."""
    tys = ty.args if ty.op == "tuple" else (ty,)
    names = []
    for y in tys:
        if y.op in ("builtin", "ext", "class"):
            names.append(y.args[0])
        elif y.op == "bor":
            for z in y.args:
                names.append(z.args[0] if z.op in ("builtin", "ext", "class") else "?")
        elif y is NONE:
            names.append("NoneType")
        else:
            names.append("?")
    names = tuple(sorted(set(names)))
    res = None
    c = interp.class_of(x)
    if c is not None and x.op == "obj" and all("." in n and interp.find_class(n) for n in names):
        for n in names:
            d = interp.find_class(n)
            if interp.p.is_subclass(c, d):
                return TRUE
            # runtime-checkable protocols: structural
            if any("Protocol" in b for b in interp.p.mro(d)[1]) or "typing.Protocol" in interp.p.mro(d)[1]:
                need = set()
                for k in interp.p.mro(d)[0]:
                    need |= {m for m in k.methods}
                have = set()
                for k in interp.p.mro(c)[0]:
                    have |= set(k.methods)
                if need <= have:
                    return TRUE
        return FALSE
    if x.op == "excobj" and "?" not in names:
        return const(any(interp.exc_sub(x.args[0], n) for n in names))
    if x.op == "const":
        v = x.args[0]
        m = {"int": int, "float": float, "str": str, "bool": bool, "tuple": tuple, "list": list, "dict": dict, "NoneType": type(None),
             "bytes": bytes, "complex": complex, "set": set, "object": object}
        if all(n in m for n in names):
            return const(isinstance(v, tuple(m[n] for n in names)))
        if v is None or isinstance(v, (str, bool, int, float)):
            known = [m[n] for n in names if n in m]
            if known and isinstance(v, tuple(known)):
                return TRUE
            if not any(n == "?" for n in names):
                return FALSE
    shape = {"list": "list", "map": "list", "tuple": "tuple", "dict": "dict", "set": "set", "fstr": "str"}.get(x.op)
    if shape is not None and "?" not in names:
        return const(shape in names or "object" in names or (shape != "str" and "collections.abc.Sequence" in names))
    if x.op == "call" and x.args[0] in ("tuple", "list", "str", "dict") and "?" not in names:
        return const(x.args[0] in names)
    if x.op in ("stack", "draw", "full", "vmap") and "np.ndarray" in names:
        return TRUE
    return mk("isinstance", x, names)


EXC_NAMES = None


def _is_exc(interp, name):
    return interp._is_exc(name)


def keyed_sort(interp, x, kwargs, st, fr, node):
    """sorted(x, key=f) of known items whose keys evaluate to constants, or None"""
    f = kwargs.get("key", NONE)
    its = enumerate_items(x)
    if f is NONE or its is None or len(its) > 40:
        return None
    ks = []
    for it in its:
        out = interp.call(f, [it], {}, st.copy(), fr, node)
        if len(out) != 1:
            return None
        k = _plain(out[0][1])
        if k is None:
            return None
        ks.append(k)
    rev = kwargs.get("reverse", FALSE)
    if rev not in (TRUE, FALSE):
        return None
    try:
        order = sorted(range(len(its)), key=lambda i: ks[i], reverse=rev is TRUE)
    except TypeError:
        return None
    return mk("list", *[its[i] for i in order])


def _plain(v):
    """The Python value of a constant or of a tuple of constants, in a box; None when unknown"""
    if v.op == "const" and isinstance(v.args[0], (str, int, float, bool)):
        return (v.args[0],)
    if v.op == "path":
        return (PurePosixPath(v.args[0].args[0]),)
    if v.op in ("tuple", "list"):
        xs = [_plain(y) for y in v.args]
        return None if any(y is None for y in xs) else (tuple(y[0] for y in xs),)
    return None


def as_bool_all(interp, name, x):
    """all()/any() over a sequence term"""
    items = enumerate_items(x)
    f = t.conj if name == "all" else t.disj
    if items is not None:
        return f([interp.truthy(i) for i in items])
    if x.op == "concat":
        parts = []
        for p in x.args:
            its = enumerate_items(p)
            if p.op == "guarded":
                inner = as_bool_all(interp, name, p.args[1])
                parts.append(t.disj([t.nott(p.args[0]), inner]) if name == "all" else t.conj([p.args[0], inner]))
            elif its is not None:
                parts.append(f([interp.truthy(i) for i in its]))
            else:
                parts.append(as_bool_all(interp, name, p))
        return f(parts)
    if x.op == "map":
        body, it, cond = x.args
        body = interp.truthy(body)
        # push the filter into the body: all(b for x if c) == all(not c or b)
        if cond is not TRUE:
            body = t.disj([t.nott(cond), body]) if name == "all" else t.conj([cond, body])
        if body.op == "const":
            if name == "all" and body is TRUE:
                return TRUE
            if name == "any" and body is FALSE:
                return FALSE
        # quantifier normal form: any(b) == not all(not b); all distributes over conjunctions
        if name == "any":
            return t.nott(as_bool_all(interp, "all", mk("map", t.nott(body), it, TRUE)))
        if body.op == "and":
            return t.conj([mk("all", b, it) for b in body.args])
        return mk("all", body, it)
    return pure(name, (x,), {})


def length(x):
    if x.op == "h5":
        return length(x.args[0])
    sh = shape_of(x)
    if sh:
        return sh[0]
    if x.op in ("list", "tuple", "set"):
        return const(len(x.args))
    if x.op == "dict":
        return const(len(x.args[0]))
    if x.op == "const" and isinstance(x.args[0], (str, bytes, tuple)):
        return const(len(x.args[0]))
    if x.op == "stack" and x.args[0] == 0:
        return const(len(x.args[1]))
    if x.op == "map" and x.args[2] is TRUE:
        return length(x.args[1])
    if x.op == "range":
        a, b, s = x.args
        if t.is_const(a, 0) and t.is_const(s, 1):
            return b
    if x.op == "sorted":
        return length(x.args[0])
    if x.op == "call" and x.args[0] in ("list", "tuple") and len(x.args[1]) == 1:
        return length(x.args[1][0])
    if x.op == "concat":
        r = const(0)
        for p in x.args:
            if p.op == "guarded":
                return pure("len", (x,), {})
            r = t.add(r, length(p))
        return r
    if x.op == "repeat":
        return t.mul(length(x.args[0]), x.args[1])
    if x.op == "ite":
        return t.ite(x.args[0], length(x.args[1]), length(x.args[2]))
    return pure("len", (x,), {})


# What may differ between two runs in the same setting: the order of sets and of unseeded shuffles.
RUN = 0


def mkset(v):
    """A set of known, different constants has its members in an arbitrary order: the worst one (run 0)."""
    items = enumerate_items(v)
    if items is not None and all(x.op == "const" for x in items):
        items = list(dict.fromkeys(items))
        if all(_cint(x) for x in items):
            return mk("set", *reversed(items))      # hashes of numbers are the same in every run
        return mk("set", *sorted(items, key=lambda x: repr(x.args[0]), reverse=not RUN))
    return mk("mkset", v)


def shuffler(f, st):
    """The source of randomness of an in-place shuffle, or None when `f` is none."""
    if f.op == "ext" and f.args[0] in ("random.shuffle", "np.random.shuffle"):
        seed = f.args[0].replace("shuffle", "seed")
        for e in reversed(st.trace):
            if e.kind == "call" and e.callee.op == "ext" and e.callee.args[0] == seed:
                return mk("seeded", e.args[0]) if e.args and e.args[0] is not NONE else mk("unseeded")
        return mk("unseeded")
    if f.op in ("attr", "method") and f.args[1] == "shuffle":
        g = f.args[0]
        if g.op == "ret" and g.args[0].op == "ext" and g.args[0].args[0] in GENERATORS:
            return mk("seeded", *g.args[1]) if g.args[1] and g.args[1][0] is not NONE else mk("unseeded")
    return None


GENERATORS = {"random.Random", "np.random.default_rng", "np.random.RandomState"}


def shuffled(b, src):
    """The sequence after shuffling: an arbitrary but fixed permutation for every seed, any for unseeded generators."""
    items = enumerate_items(b) if b.op in ("list", "concat", "map", "flatmap", "call") else None
    if items is None:
        return mk("permuted", b, src)
    return mk("list", *shuffle_items(items, src))


def shuffle_items(items, src):
    n = len(items)
    if n < 2:
        return items
    if src.op == "unseeded":
        return items if RUN else items[::-1]
    h = zlib.crc32(repr([t.show(a, 8) for a in src.args]).encode())
    k = 1 + h % (n - 1)
    out = items[k:] + items[:k]
    return [out[1], out[0]] + out[2:] if n > 2 and h & 1024 else out


def intdtype(ty):
    """Does this dtype name integers?"""
    if ty is None or ty.op not in ("builtin", "ext", "const"):
        return False
    nm = str(ty.args[0])
    return DTYPES.get(nm) == "int" or nm.startswith(("int", "np.int", "uint", "np.uint"))


def toint(x):
    return fn("toint", x) if not (x.op == "fn" and x.args[0] == "floor") else x


def builtin(interp, name, args, kwargs, st, fr, node, loc):
    def r(v):
        return [(st, v)]
    a0 = args[0] if args else None
    if _is_exc(interp, name):
        return r(mk("excobj", name, tuple(args)))
    if a0 is not None and a0.op == "xqueue":
        a0 = interp.world.items(st, a0.args[0])
        args = [a0] + list(args[1:])
    if name == "len" and a0 is not None:
        c = interp.class_of(a0)
        if c is not None:
            f = interp.p.find_method(c, "__len__")
            if f is not None:
                return interp.call_func(f, [], {}, st, loc, selfv=a0, cls=c)
        return r(length(a0))
    if name == "range":
        xs = [const(0), a0, const(1)] if len(args) == 1 else list(args) + ([const(1)] if len(args) == 2 else [])
        return r(mk("range", *xs))
    if name == "enumerate":
        return r(mk("enumerate", a0, kwarg(args, kwargs, 1, "start", default=const(0))))
    if name == "zip":
        return r(mk("zip", tuple(args)))
    if name == "sorted":
        return r(keyed_sort(interp, a0, kwargs, st, fr, node) or py_sorted(a0, sorted(kwargs.items())))
    if name == "reversed":
        return r(mk("reversed", a0))
    if name in ("list", "tuple"):
        if a0 is None:
            return r(mk(name))
        items = enumerate_items(a0)
        if items is not None:
            return r(mk(name, *items))
        if name == "list" and a0.op in ("map", "concat", "flatmap", "sorted", "accum"):
            return r(a0)
        if a0.op == "call" and a0.args[0] in ("list", "tuple") and len(a0.args[1]) == 1:
            a0 = a0.args[1][0]
        return r(pure(name, (a0,), {}))
    if name == "dict":
        if a0 is None:
            return r(mk("dict", tuple((const(k), v) for k, v in kwargs.items())))
        if a0.op == "dict":
            d = dict(a0.args[0])
            for k, v in kwargs.items():
                d.pop(const(k), None)
                d[const(k)] = v
            return r(mk("dict", tuple(d.items())))
        items = enumerate_items(a0)
        if items is not None and all(x.op in ("tuple", "list") and len(x.args) == 2 and t.is_const(x.args[0]) for x in items):
            d = {x.args[0]: x.args[1] for x in items}
            for k, v in kwargs.items():
                d.pop(const(k), None)
                d[const(k)] = v
            return r(mk("dict", tuple(d.items())))
        if not kwargs:
            return r(pure("dict", (a0,), {}))
        return r(mk("dict", ((mk("starstar"), a0),) + tuple((const(k), v) for k, v in kwargs.items())))
    if name == "hash" and a0 is not None and t.is_const(a0) and isinstance(a0.args[0], str):
        return r(const(zlib.crc32(f"{RUN} {a0.args[0]}".encode())))      # another one in every run
    if name in ("set", "frozenset"):
        if a0 is None:
            return r(mk("set"))
        if a0.op in ("mkset", "set"):
            return r(a0)
        return r(mkset(a0))
    if name == "isinstance":
        return r(isinst(a0, args[1], interp))
    if name == "issubclass":
        return r(pure("issubclass", args, {}))
    if name in ("all", "any"):
        return r(as_bool_all(interp, name, a0))
    if name in ("max", "min"):
        if len(args) > 1:
            return r(minmax(name, args))
        items = enumerate_items(a0)
        if items and "key" not in kwargs:
            return r(nary(name, items))
        return r(mk("reduce", name, a0, tuple(sorted(kwargs.items()))))
    if name == "sum":
        items = enumerate_items(a0)
        if items is not None:
            v = args[1] if len(args) > 1 else const(0)
            for x in items:
                v = t.add(v, x)
            return r(v)
        return r(mk("reduce", "sum", a0, ()))
    if name == "abs":
        return r(fn("abs", a0))
    if name == "round":
        return r(fn("round", a0) if len(args) == 1 else pure("round", args, kwargs))
    if name == "int":
        if a0 is None:
            return r(const(0))
        if a0.op == "const" and isinstance(a0.args[0], str):
            if len(args) == 1 and not kwargs:
                try:
                    return r(const(int(a0.args[0])))
                except ValueError:
                    interp.raise_(st.copy(), mk("excobj", "ValueError", (const("invalid literal for int()"),)), loc)
                    return []
            return r(pure("int", args, kwargs))
        if a0.op in ("cmp", "and", "or", "not", "eq", "eq0", "isnone", "in"):
            return r(t.ite(a0, const(1), const(0)))
        return r(toint(a0))
    if name == "float":
        if a0 is None:
            return r(const(0.0))
        if a0.op == "const" and isinstance(a0.args[0], str):
            if a0.args[0] in ("inf", "-inf", "+inf", "nan", "Infinity"):
                return r(const(float(a0.args[0])))
            try:
                return r(const(float(a0.args[0])))
            except ValueError:
                interp.raise_(st.copy(), mk("excobj", "ValueError", (const("could not convert string to float"),)), loc)
                return []
        return r(a0)
    if name == "bool":
        return r(interp.truthy(a0) if a0 is not None else FALSE)
    if name == "str":
        if a0 is None:
            return r(const(""))
        if a0.op == "path":
            return r(a0.args[0])
        if a0.op == "fstr" or (a0.op == "const" and isinstance(a0.args[0], str)):
            return r(a0)
        return r(pure("str", (a0,), {}))
    if name == "divmod":
        return r(mk("tuple", t.floordiv(a0, args[1]), t.mod(a0, args[1])))
    if name == "pow":
        return r(t.power(a0, args[1]))
    if name == "map" and len(args) == 2:
        f, it = args
        items = enumerate_items(it)
        if items is not None:
            cur = [(st, [])]
            for x in items:
                cur = [(s2, vs + [v]) for s, vs in cur for s2, v in interp.call(f, [x], {}, s, fr, node)]
            return [(s, mk("list", *vs)) for s, vs in cur]
        k = interp.active_iters.count(it)
        el = iter_elem(it, k)
        interp.active_iters.append(it)
        try:
            rs = interp.call(f, [el], {}, st, fr, node)
        finally:
            interp.active_iters.pop()
        if not rs:
            return []
        s, v = _one(interp, rs, st)
        return [(s, mk("map", v, strip_iter(it), it.args[2] if it.op == "map" else TRUE))]
    if name == "map":
        return r(pure("map", args, {}))
    if name == "filter":
        f, it = args
        el = iter_elem(it, 0)
        if f is NONE:
            return r(mk("map", el, strip_iter(it), interp.truthy(el)))
        rs = interp.call(f, [el], {}, st, fr, node)
        if not rs:
            return []
        s, v = _one(interp, rs, st)
        return [(s, mk("map", el, strip_iter(it), interp.truthy(v)))]
    if name == "getattr" and len(args) >= 2 and args[1].op == "const":
        nm = args[1].args[0]
        c = interp.class_of(a0)
        if (a0, nm) in st.heap or a0.op in ("module",):
            return interp.getattr(a0, nm, st, fr, node)
        if c is not None and interp.p.find_method(c, nm) is not None:
            return interp.getattr(a0, nm, st, fr, node)
        if len(args) == 3:
            if a0.op == "obj" and c is not None:
                return r(args[2]) if interp.p.find_attr(c, nm) is None else interp.getattr(a0, nm, st, fr, node)
            return r(mk("getattrd", a0, nm, args[2]))
        return interp.getattr(a0, nm, st, fr, node)
    if name == "hasattr" and args[1].op == "const":
        if (a0, args[1].args[0]) in st.heap:
            return r(TRUE)
        c = interp.class_of(a0)
        if c is not None and interp.p.find_method(c, args[1].args[0]) is not None:
            return r(TRUE)
        return r(pure("hasattr", args, {}))
    if name == "setattr" and args[1].op == "const":
        return [(s, NONE) for s in interp.setattr(a0, args[1].args[0], args[2], st, fr, node)]
    if name in ("exit", "quit"):
        interp.raise_(st.copy(), mk("excobj", "SystemExit", tuple(args)), loc)
        return []
    if name in ("type", "id", "hash", "repr", "ord", "chr", "callable", "slice", "bytes", "bytearray", "complex", "object", "vars",
                "dir", "format", "iter", "memoryview", "hex", "bin"):
        if name == "iter" and a0 is not None:
            c = interp.class_of(a0)
            f = interp.p.find_method(c, "__iter__") if c is not None and len(args) == 1 else None
            if f is not None:
                return interp.call_func(f, [], {}, st, loc, selfv=a0, cls=c)
            return r(pure("iter", args, {}))
        if name == "slice":
            xs = [NONE, a0, NONE] if len(args) == 1 else (list(args) + [NONE, NONE])[:3]
            return r(mk("slice", *xs))
        if name == "type" and len(args) == 1:
            c = interp.class_of(a0)
            if c is not None:
                return r(mk("class", c.qual))
        return r(pure(name, args, kwargs))
    if name == "next":
        items = enumerate_items(a0) if a0 is not None and a0.op == "call" and a0.args[0] == "iter" else None
        if items and isinstance(node.args[0], ast.Call):
            return r(items[0])      # next(iter(x)): the iterator is not kept
        if node is not None and isinstance(node, ast.Call) and node.args and isinstance(node.args[0], ast.GeneratorExp):
            items = enumerate_items(a0)
            if items or items is not None and len(args) > 1:
                return r(items[0] if items else args[1])
            if items is not None:
                interp.raise_(st, mk("excobj", "StopIteration", ()), loc)
                return []
        c = interp.class_of(a0) if a0 is not None else None
        if c is not None:
            f = interp.p.find_method(c, "__next__")
            if f is not None:
                return interp.call_func(f, [], {}, st, loc, selfv=a0, cls=c)
        return _effect(interp, mk("builtin", "next"), args, kwargs, st, loc,
                       ("StopIteration",) if len(args) == 1 else ())
    if name == "open":
        return _effect(interp, mk("builtin", "open"), args, kwargs, st, loc)
    if name == "print":
        if "file" in kwargs and kwargs["file"].op == "ret":
            st = st.copy()
            interp.opaque_call(mk("builtin", "print"), args, kwargs, st, loc)
            return [(st, NONE)]
        return r(NONE)
    return _effect(interp, mk("builtin", name), args, kwargs, st, loc)


def array_of(x, interp):
    """jnp.array(x)/asarray(x)"""
    if x.op == "pil":
        return x.args[0]
    if x.op in ("list", "tuple"):
        items = [array_of(y, interp) for y in x.args]
        return stack(0, items)
    return x


def unfold(v):
    if isinstance(v, tuple):
        return mk("tuple", *[const(x) for x in v])
    if v is None or isinstance(v, (str, bool, int)):
        return const(v)
    return mk("rematch", tuple(const(x) for x in (v.group(),) + v.groups()), tuple((k, const(x)) for k, x in v.groupdict().items()))


def _re(f):
    def g(*a):
        return f(*a)
    return g


FOLD = {"os.path.join": posixpath.join, "os.path.basename": posixpath.basename, "os.path.dirname": posixpath.dirname,
        "os.path.relpath": posixpath.relpath, "os.path.normpath": posixpath.normpath, "os.path.splitext": posixpath.splitext, "os.path.split": posixpath.split,
        "re.match": _re(re.match), "re.search": _re(re.search), "re.fullmatch": _re(re.fullmatch)}


def modelled(interp, m, callee, args, kwargs, st, loc):
    """An outside function the caller of the analysis gave a meaning to: ("ret", term), ("raise", exception) or None."""
    res = m(list(args), dict(kwargs), st)
    if res is None:
        return None
    kind, v = res
    st = st.copy()
    c = interp.opaque_call(callee, args, kwargs, st, loc)
    if kind == "raise":
        interp.raise_(st, mk("excobj", v, (c,)), loc)
        return []
    return [(st, v)]


def n_path(name):
    return name in ("pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath", "pathlib.PurePosixPath")


def external(interp, name, args, kwargs, st, fr, node, loc):
    def r(v):
        return [(st, v)]
    if interp.disk is not None:
        if n_path(name):
            v = paths.make(args)
            if v is not None:
                return r(v)
        args, kwargs = paths.plain(args, kwargs)
    a0 = args[0] if args else None
    n = name
    short = n.rsplit(".", 1)[-1]
    m = interp.models.get(n)
    if m is not None:
        out = modelled(interp, m, mk("ext", n), args, kwargs, st, loc)
        if out is not None:
            return out
    if n in FOLD and args and not kwargs and all(a.op == "const" and isinstance(a.args[0], str) for a in args):
        return r(unfold(FOLD[n](*[a.args[0] for a in args])))

    # ---- arrays
    if n == "PIL.Image.fromarray" and a0 is not None:
        return r(mk("pil", a0))
    if n in ("np.array", "np.asarray", "np.ascontiguousarray", "np.copy"):
        x = array_of(a0 if a0 is not None else kwarg(args, kwargs, None, "object", "a"), interp)
        ty = kwarg(args, kwargs, 1, "dtype")
        if x.op != "const" and intdtype(ty) and not (x.op in ("list", "tuple", "stack", "full", "arange") or t.is_num(x)):
            x = toint(x)
        return r(x)
    if n in DTYPES and a0 is not None:
        return r(toint(a0) if DTYPES[n] == "int" else a0)
    if n == "np.clip":
        lo = kwarg(args, kwargs, 1, "min", "a_min", default=NONE)
        hi = kwarg(args, kwargs, 2, "max", "a_max", default=NONE)
        x = kwarg(args, kwargs, 0, "arr", "a", "x")
        return r(clip(x, lo, hi))
    if n in ("jax.lax.clamp",):
        return r(clip(args[1], args[0], args[2]))
    if n in ("np.maximum", "np.minimum", "np.fmax", "np.fmin", "jax.lax.max", "jax.lax.min"):
        return r(minmax("max" if "max" in short else "min", args[:2]))
    if n == "jax.nn.relu":
        return r(nary("max", [a0, const(0)]))
    if n in UNARY:
        if n == "np.square":
            return r(t.mul(a0, a0))
        if n == "np.negative":
            return r(t.neg(a0))
        if n == "np.logical_not":
            return r(t.nott(interp.truthy(a0)))
        return r(fn(UNARY[n], a0))
    if n in BINARY and len(args) == 2:
        return r(stackwise(BINARY[n], args[0], args[1]))
    if n in CMPF:
        return r(t.compare(CMPF[n], args[0], args[1]))
    if n in ("np.logical_and", "np.bitwise_and"):
        return r(t.conj(args))
    if n in ("np.logical_or", "np.bitwise_or"):
        return r(t.disj(args))
    if n == "np.where" and len(args) == 3:
        if args[1].op == "stack" or args[2].op == "stack":
            return r(stackwise(lambda p, q: t.ite(args[0], p, q), args[1], args[2]))
        return r(t.ite(args[0], args[1], args[2]))
    if n in ("jax.lax.select",):
        return r(t.ite(args[0], args[1], args[2]))
    if n == "np.arange":
        if len(args) == 1 and "start" not in kwargs:
            return r(mk("arange", const(0), a0, const(1)))
        lo = kwarg(args, kwargs, 0, "start", default=const(0))
        hi = kwarg(args, kwargs, 1, "stop", default=NONE)
        return r(mk("arange", lo, hi, kwarg(args, kwargs, 2, "step", default=const(1))))
    if n == "jax.lax.iota":
        return r(mk("arange", const(0), args[1], const(1)))
    if n == "np.linspace":
        return r(mk("linspace", kwarg(args, kwargs, 0, "start"), kwarg(args, kwargs, 1, "stop"), kwarg(args, kwargs, 2, "num", default=const(50))))
    if n == "np.meshgrid":
        ij = kwargs.get("indexing", const("xy"))
        m = len(args)
        axes = list(range(m))
        if t.is_const(ij, "xy") and m >= 2:
            axes[0], axes[1] = 1, 0
        if m == 2 and getattr(interp, "unroll", 0) and set(kwargs) <= {"indexing"}:
            xs = [enumerable(a, interp.unroll) for a in args]
            if all(xs):
                pick = [[(x, y) for y in xs[1]] for x in xs[0]] if axes[0] == 0 else [[(x, y) for x in xs[0]] for y in xs[1]]
                return r(mk("list", *[stack(0, [stack(0, [y[k] for y in x]) for x in pick]) for k in (0, 1)]))
        return r(mk("list", *[bcast(a, axes[i], m) for i, a in enumerate(args)]))
    if n == "np.indices":
        dims = enumerate_items(a0)
        if dims is not None:
            return r(stack(0, [bcast(mk("arange", const(0), d, const(1)), i, len(dims)) for i, d in enumerate(dims)]))
        m = 2
        return r(stack(0, [bcast(mk("arange", const(0), index(a0, const(i)), const(1)), i, m) for i in range(m)]))
    if n in ("np.zeros", "np.ones", "np.empty"):
        return r(mk("full", kwarg(args, kwargs, 0, "shape"), const(1 if short == "ones" else 0)))
    if n == "np.full":
        return r(mk("full", kwarg(args, kwargs, 0, "shape"), kwarg(args, kwargs, 1, "fill_value")))
    if n in ("np.zeros_like", "np.ones_like"):
        return r(mk("full", attr(a0, "shape"), const(1 if "ones" in short else 0)))
    if n == "np.full_like":
        return r(mk("full", attr(a0, "shape"), args[1]))
    if n == "np.stack":
        ax = kwarg(args, kwargs, 1, "axis", default=const(0))
        items = enumerate_items(a0)
        if items is not None and _cint(ax):
            return r(stack(ax.args[0], items))
        return r(mk("stackmap", a0, ax))
    if n == "np.isclose" or n == "np.allclose":
        return r(mk("isclose", *sorted(args[:2])))
    if n == "np.isin":
        return r(pure("np.isin", args, kwargs))
    if n.startswith("np.") and short in REDUCE and n.count(".") == 1:
        return r(mk("reduce", short, a0, tuple(sorted([(str(i), x) for i, x in enumerate(args[1:])] + [kv for kv in kwargs.items() if kv[0] != "dtype"]))))
    if n == "np.take":
        k, ax = kwarg(args, kwargs, 1, "indices"), kwarg(args, kwargs, 2, "axis", default=NONE)
        if k is not None and _cint(ax) and ax.args[0] >= 0:
            k = literal_indices(k)
            if _cint(k) or k.op == "list" and ax.args[0] == 0:
                return r(index(a0, mk("tuple", *[mk("slice", NONE, NONE, NONE)] * ax.args[0], k) if ax.args[0] else k))
    if n == "np.broadcast_to" and a0 is not None and a0.op == "const" and isinstance(a0.args[0], (bool, int, float)):
        return r(mk("full", kwarg(args, kwargs, 1, "shape"), a0))
    if n.startswith("np.") and short in SHAPEOPS and n.count(".") == 1:
        return r(shapeop(short, a0, args[1:], kwargs))
    if n in ("np.shape", "np.ndim", "np.size"):
        return r(attr(a0, short))
    # ---- random
    if n == "jax.random.PRNGKey":
        return r(mk("seedkey", kwarg(args, kwargs, 0, "seed")))
    if n == "jax.random.split":
        return r(mk("split", kwarg(args, kwargs, 0, "key"), kwarg(args, kwargs, 1, "num", default=const(2))))
    if n == "jax.random.fold_in":
        return r(mk("fold", kwarg(args, kwargs, 0, "key"), kwarg(args, kwargs, 1, "data")))
    if n.startswith("jax.random.") and short in DRAWS:
        key = kwarg(args, kwargs, 0, "key")
        ps = []
        for i, (pn, d) in enumerate(DRAWS[short]):
            v = kwarg(args, kwargs, i + 1, pn, default=d)
            if pn != "dtype":
                ps.append((pn, v))
        st = st.copy()
        v = mk("draw", short, key, tuple(ps))
        from .interp import Ev
        st.ev(Ev("draw", mk("ext", n), (key,), (), v, loc, func=interp.stack[-1] if interp.stack else ""))
        return [(st, v)]
    if n.startswith("jax.random."):
        return r(pure(n, args, kwargs))
    # ---- transformations
    if n in ("jax.vmap", "jax.pmap"):
        out = kwarg(args, kwargs, 2, "out_axes", default=const(0))
        if not (_cint(out) and out.args[0] == 0):
            return r(mk("opaque", n, out, loc))
        return r(mk("vmapf", kwarg(args, kwargs, 0, "fun", "f"), kwarg(args, kwargs, 1, "in_axes", default=NONE)))
    if n in ("jax.jit", "jax.shard_map", "jax.checkpoint", "jax.named_call", "jax.experimental.shard_map.shard_map"):
        f = kwarg(args, kwargs, 0, "fun", "f")
        if f is None:
            return r(mk("ext", n))
        if "shard_map" in n:
            from .interp import Ev
            st = st.copy()
            st.ev(Ev("shard", mk("ext", n), args, tuple(kwargs.items()), f, loc, func=interp.stack[-1] if interp.stack else ""))
            return [(st, f)]
        return r(f)
    if n == "functools.partial":
        return r(mk("partial", args[0], tuple(args[1:]), tuple(sorted(kwargs.items()))))
    if n == "jax.lax.scan":
        return scan(interp, args, kwargs, st, fr, node)
    if n == "jax.lax.map":
        f, xs = args[0], args[1]
        rs = interp.call(f, [row(xs)], {}, st, fr, node)
        if not rs:
            return []
        s, v = _one(interp, rs, st)
        return [(s, unrow(v))]
    if n == "jax.lax.cond":
        c = args[0]
        ops = list(args[3:]) + ([kwargs["operand"]] if "operand" in kwargs else [])
        outs = []
        for pol, f in ((True, args[1]), (False, args[2])):
            s = interp.assume(st, c, pol, loc)
            if s is None:
                continue
            rs = interp.call(f, ops, {}, s, fr, node)
            if rs:
                outs.append(_one(interp, rs, s)[1])
        if len(outs) == 1:
            return r(outs[0])
        if len(outs) == 2:
            return r(t.ite(c, outs[0], outs[1]))
        return r(pure(n, args, kwargs))
    if n == "jax.lax.fori_loop":
        lo, hi, f, init = [kwarg(args, kwargs, i, nm) for i, nm in enumerate(("lower", "upper", "body_fun", "init_val"))]
        i, acc = mk("loopvar", lo, hi), t.sym("@acc")
        rs = interp.call(f, [i, acc], {}, st, fr, node)
        if not rs:
            return []
        s, v = _one(interp, rs, st)
        return [(s, mk("fori", v, init, lo, hi))]
    if n in ("jax.device_put", "jax.block_until_ready", "jax.lax.stop_gradient", "jax.device_get", "tqdm.tqdm", "tqdm.auto.tqdm", "tqdm.trange",
             "copy.copy", "copy.deepcopy", "jax.lax.convert_element_type", "np.asfarray", "np.nan_to_num"):
        return r(a0 if a0 is not None else NONE)
    # ---- objects with identity
    if n in ("queue.Queue", "threading.Thread", "threading.Event", "threading.Lock", "threading.RLock", "threading.Condition",
             "queue.SimpleQueue", "collections.deque", "queue.LifoQueue", "queue.PriorityQueue"):
        if n == "collections.deque":
            return r(pure(n, args, kwargs))
        st = st.copy()
        k = st.cnt.get(("xnew", n), 0)
        st.cnt[("xnew", n)] = k + 1
        ps = {"queue.Queue": ("maxsize",), "threading.Thread": ("group", "target", "name", "args", "kwargs")}.get(n, ())
        kw = dict(zip(ps, args))
        kw.update(kwargs)
        v = mk("xnew", n, k, tuple(sorted(kw.items())))
        from .interp import Ev
        st.ev(Ev("new", mk("ext", n), args, kwargs.items(), v, loc, func=interp.stack[-1] if interp.stack else ""))
        return [(st, v)]
    if n in ("sys.exit", "os._exit"):
        interp.raise_(st.copy(), mk("excobj", "SystemExit", tuple(args)), loc)
        return []
    if n in ("collections.OrderedDict", "collections.defaultdict"):
        if a0 is None or n == "collections.defaultdict" and len(args) == 1 and a0.op in ("builtin", "func", "closure", "class", "const", "ext"):
            return r(mk("dict", ()))
        if n == "collections.defaultdict" and len(args) == 2:
            a0 = args[1]
        return r(a0 if a0.op in ("dict", "dictmap") else pure("dict", (a0,), {}))
    if n in ("pathlib.Path", "os.fspath", "pathlib.PurePath", "pathlib.PosixPath"):
        if a0 is not None and len(args) == 1:
            if a0.op == "pathjoin" or (a0.op == "call" and a0.args[0] == "pathlib.Path"):
                return r(a0)
            return r(pure("pathlib.Path", args, kwargs))
        if len(args) > 1:
            return r(mk("pathjoin", *args))
        return r(pure(n, args, kwargs))
    if n in ("os.path.join",):
        return r(mk("pathjoin", *args) if len(args) > 1 else a0)
    if n == "itertools.chain":
        v = mk("list")
        for a in args:
            items = enumerate_items(a)
            v = t.concat(v, mk("list", *items) if items is not None else a)
        return r(v)
    if n == "itertools.product":
        cols = [enumerate_items(a) for a in args]
        if all(c is not None for c in cols):
            import itertools
            return r(mk("list", *[mk("tuple", *x) for x in itertools.product(*cols)]))
        return r(pure(n, args, kwargs))
    if n.startswith("operator.") and short in ("add", "sub", "mul", "truediv", "floordiv", "mod", "lt", "le", "gt", "ge", "eq", "ne"):
        f = {"add": t.add, "sub": t.sub, "mul": t.mul, "truediv": t.div, "floordiv": t.floordiv, "mod": t.mod}.get(short)
        if f:
            return r(stackwise(f, args[0], args[1]))
        return r(t.compare({"lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "==", "ne": "!="}[short], args[0], args[1]))
    if interp._is_exc(short) and n.split(".")[0] in ("builtins",):
        return r(mk("excobj", short, tuple(args)))
    if n in ("queue.Empty", "queue.Full"):
        return r(mk("excobj", n, tuple(args)))
    eff = any(n == e or n.startswith(e + ".") for e in EFFECT)
    if not eff and n.startswith(PURE_PREFIX):
        v = pure(n, args, kwargs)
        if interp.in_try() and n in ("re.match",):
            pass
        return r(v)
    return _effect(interp, mk("ext", n), args, kwargs, st, loc, KNOWN_RAISES.get(n))


def shapeop(name, x, args, kwargs):
    if name == "transpose" and not args and not kwargs:
        return transpose(x)
    if name == "flatten":
        name = "ravel"
    if name == "reshape":
        items = [a for a in args]
        if len(items) == 1 and items[0].op in ("tuple", "list"):
            items = list(items[0].args)
        elif "shape" in kwargs or "newshape" in kwargs:
            v = kwargs.get("shape", kwargs.get("newshape"))
            items = list(v.args) if v.op in ("tuple", "list") else [v]
        if len(items) == 1 and t.is_const(items[0], -1):
            return mk("shapeop", "ravel", x, ())
        return mk("shapeop", "reshape", x, tuple(items))
    if name in ("moveaxis", "swapaxes", "rollaxis"):
        v = axes(name, x, args, kwargs)
        if v is not None:
            return v
    if name == "dstack" and not kwargs and not args:
        its = enumerate_items(x)
        if its and all(len(shape_of(y) or ()) == 2 for y in its):
            return stack(-1, its)
    if name == "concatenate":
        # planes with a last axis of length one, joined along it
        its, ax = enumerate_items(x), kwarg(list(args), kwargs, 0, "axis", default=const(0))
        if its and _cint(ax) and all(y.op == "index" and y.args[1].op == "tuple" and y.args[1].args[-1] is NONE and all(
                k is ELL or k.op == "slice" and all(z is NONE for z in k.args) for k in y.args[1].args[:-1]) for y in its):
            shs = [shape_of(y.args[0]) for y in its]
            if ax.args[0] == -1 or all(sh is not None and len(sh) == ax.args[0] for sh in shs):
                return stack(-1, [y.args[0] for y in its])
    if name == "squeeze":
        # an axis of length one that was cut out of a larger one
        ax, sh = kwarg(list(args), kwargs, 0, "axis", default=NONE), shape_of(x)
        if _cint(ax) and sh is not None and t.is_const(sh[ax.args[0] % len(sh)], 1):
            return index(x, mk("tuple", *[mk("slice", NONE, NONE, NONE)] * (ax.args[0] % len(sh)), const(0)))
    return mk("shapeop", name, x, tuple(args) + tuple(sorted(kwargs.items())))


def axes(name, x, args, kwargs):
    """moveaxis and swapaxes as transpositions, when the number of axes is known"""
    sh = shape_of(x)
    if sh is None:
        return None
    n = len(sh)
    a = kwarg(list(args), kwargs, 0, "source", "axis1", "axis")
    b = kwarg(list(args), kwargs, 1, "destination", "axis2", "start", default=const(0))
    if a is None or not (_cint(a) and _cint(b)):
        return None
    a, b = a.args[0] % n, b.args[0]
    p = list(range(n))
    if name == "swapaxes":
        b %= n
        p[a], p[b] = p[b], p[a]
    elif name == "moveaxis":
        p.remove(a)
        p.insert(b % n, a)
    else:
        p.remove(a)
        b = b if b >= 0 else b + n
        p.insert(b - 1 if a < b else b, a)
    return permuted(x, p)


def permuted(x, p):
    if p == list(range(len(p))):
        return x
    if x.op == "shapeop" and x.args[0] == "transpose":
        q = perm_of(x)
        if q is not None and len(q) == len(p):
            return permuted(x.args[1], [q[i] for i in p])
    return mk("shapeop", "transpose", x, (mk("tuple", *[const(i) for i in p]),))


def scan(interp, args, kwargs, st, fr, node):
    f = kwarg(args, kwargs, 0, "f")
    init = kwarg(args, kwargs, 1, "init")
    xs = kwarg(args, kwargs, 2, "xs", default=NONE)
    elem = row(xs)
    rs = interp.call(f, [init, elem], {}, st, fr, node)
    if not rs:
        return []
    s, v = _one(interp, rs, st)
    carry, out = index(v, const(0)), index(v, const(1))
    if carry is not init:
        # not a constant carry: generic iteration
        c = mk("carry", init) if init.op not in ("tuple", "list") else mk(init.op, *[mk("carry", x) for x in init.args])
        rs = interp.call(f, [c, elem], {}, st, fr, node)
        if not rs:
            return []
        s, v = _one(interp, rs, st)
        carry, out = index(v, const(0)), index(v, const(1))
        if init.op in ("tuple", "list") and carry.op == init.op and len(carry.args) == len(init.args):
            # components which are carried unchanged
            sub = {}
            for a, b, i in zip(carry.args, c.args, init.args):
                if a is b:
                    sub[b] = i
            if sub:
                out = t.subst(out, lambda x: sub.get(x))
                carry = t.subst(carry, lambda x: sub.get(x))
        return [(s, mk("tuple", mk("scancarry", carry, init), unrow(out)))]
    return [(s, mk("tuple", init, unrow(out)))]


def xmethod(interp, b, name, args, kwargs, st, loc):
    """Methods of queues, threads, events."""
    kind = b.args[0]
    callee = mk("attr", b, name)
    if kind.startswith("queue."):
        if name in ("get", "get_nowait"):
            block = FALSE if name == "get_nowait" else kwarg(args, kwargs, 0, "block", default=TRUE)
            tmo = NONE if name == "get_nowait" else kwarg(args, kwargs, 1, "timeout", default=NONE)
            known = () if (block is TRUE and tmo is NONE) else ("queue.Empty",)
            st = st.copy()
            r = interp.opaque_call(mk("attr", b, "get"), (), {"block": block, "timeout": tmo}, st, loc)
            if known:
                interp.may_raise(st, r, loc, known)
            return [(st, r)]
        if name in ("put", "put_nowait"):
            block = FALSE if name == "put_nowait" else kwarg(args, kwargs, 1, "block", default=TRUE)
            tmo = NONE if name == "put_nowait" else kwarg(args, kwargs, 2, "timeout", default=NONE)
            item = kwarg(args, kwargs, 0, "item")
            known = () if (block is TRUE and tmo is NONE) else ("queue.Full",)
            if known:
                # a failed put has no effect
                interp.may_raise(st, mk("ret", mk("attr", b, "put"), (item,), (), -1), loc, known)
            st = st.copy()
            interp.opaque_call(mk("attr", b, "put"), (item,), {"block": block, "timeout": tmo}, st, loc)
            return [(st, NONE)]
        if name in ("qsize", "empty", "full"):
            st = st.copy()
            return [(st, interp.opaque_call(callee, args, kwargs, st, loc))]
    st = st.copy()
    r = interp.opaque_call(callee, args, kwargs, st, loc)
    return [(st, r)]


PURE_ANY = {"is_alive", "is_set"}


def method(interp, b, name, args, kwargs, st, fr, node, loc):
    def r(v):
        return [(st, v)]
    if b.op == "direntry" and name in ("is_dir", "is_file"):
        return r(b.args[1] if name == "is_dir" else t.nott(b.args[1]))
    if b.op == "path":
        v = paths.method(interp, b, name, args, kwargs, st, fr, node, loc)
        if v is not None:
            return v
    if b.op == "textfile":
        v = paths.reading(b, name, args)
        if v is not None:
            return r(v)
    if b.op == "arr" and name == "numpy" and not args and not kwargs:
        return r(b)
    if b.op == "zip" and name in ("namelist", "testzip", "close"):
        z = interp.disk.state(st.trace)[0].get(b.args[0].args[0])
        if z is not None and z.kind == "zip":
            return r(mk("list", *[const(m) for m in z.members]) if name == "namelist" else NONE)
    if b.op == "binfile" and name == "read" and len(args) < 2 and not kwargs:
        v = interp.disk.read(b, args[0] if args else const(-1), st)
        if v is not None:
            st = st.copy()
            interp.opaque_call(mk("attr", b, name), args, kwargs, st, loc)
            return [(st, v)]
    if b.op == "pil":
        x = b.args[0]
        if name == "resize":
            size = kwarg(args, kwargs, 0, "size")
            how = kwarg(args, kwargs, 1, "resample", default=NONE)
            return r(mk("pil", mk("imresize", x, mk("tuple", index(size, const(0)), index(size, const(1))), how)))
        if name == "convert":
            m = kwarg(args, kwargs, 0, "mode", default=NONE)
            return r(mk("pil", mk("imconvert", x, m.args[0] if m.op == "const" else m)))
        if name == "copy":
            return r(b)
        if name in ("close", "load"):
            return r(NONE)
    if b.op == "h5":
        if name == "close":
            return _effect(interp, mk("attr", b, name), args, kwargs, st, loc)
        b = b.args[0]
    if is_logger(b):
        return r(NONE)
    if interp.world is not None:
        if b.op == "attr" and b.args[0].op == "xnew" and b.args[1] in ("mutex", "not_empty", "not_full", "all_tasks_done"):
            return r(TRUE if name == "acquire" else NONE)
        if b.op == "xnew":
            v = interp.world.method(interp, b, name, args, kwargs, st, fr, node, loc)
            if v is not None:
                return v
    if b.op == "xnew":
        return xmethod(interp, b, name, args, kwargs, st, loc)
    if b.op == "ext":
        return external(interp, canon(b.args[0] + "." + name), args, kwargs, st, fr, node, loc)
    if b.op == "module":
        return _effect(interp, mk("attr", b, name), args, kwargs, st, loc)
    if b.op == "atidx":
        opn = {"mul": "multiply"}.get(name, name)
        x, idx = b.args
        return r(at_op(x, idx, opn, args[0] if args else NONE))
    if name == "get" and len(args) + len(kwargs) <= 2 and args and b.op not in ("attr", "ret") or (
            name == "get" and args and args[0].op == "const" and isinstance(args[0].args[0], str)):
        d = args[1] if len(args) > 1 else kwargs.get("default", NONE)
        return r(cfgget(b, args[0], d))
    if name in ("items", "keys", "values") and not args:
        return r(pure("." + name, (b,), {}))
    if name == "copy" and not args:
        return r(b)
    if b.op == "rematch" and all(_cint(a) or a.op == "const" for a in args):
        gs, names = b.args[0], dict(b.args[1])
        if name == "group":
            vs = [names.get(a.args[0], NONE) if isinstance(a.args[0], str) else gs[a.args[0]] for a in args] or [gs[0]]
            return r(vs[0] if len(vs) == 1 else mk("tuple", *vs))
        if name == "groups" and not args:
            return r(mk("tuple", *gs[1:]))
    if b.op == "const" and isinstance(b.args[0], str) and name == "format":
        v = braces(b.args[0], args, kwargs)
        if v is not None:
            return r(v)
    if b.op == "const" and isinstance(b.args[0], str) and name == "join" and len(args) == 1:
        its = enumerate_items(args[0])
        if its is not None and all(x.op == "const" and isinstance(x.args[0], str) for x in its):
            return r(const(b.args[0].join(x.args[0] for x in its)))
    if name == "astype":
        ty = kwarg(args, kwargs, 0, "dtype")
        return r(toint(b) if intdtype(ty) else b)
    if name in ("block_until_ready", "to_device", "squeeze_", "detach"):
        return r(b)
    if name in ("flatten", "ravel", "reshape", "transpose", "repeat", "swapaxes", "squeeze") and not (b.op == "const"):
        return r(shapeop(name, b, args, kwargs))
    if name in ("take", "round", "dot") and b.op != "const":
        return external(interp, "np." + name, (b,) + tuple(args), kwargs, st, fr, node, loc)
    if name == "clip":
        return r(clip(b, kwarg(args, kwargs, 0, "min", "a_min", default=NONE), kwarg(args, kwargs, 1, "max", "a_max", default=NONE)))
    if name in REDUCE:
        return r(mk("reduce", name, b, tuple(sorted([(str(i), x) for i, x in enumerate(args)] + [kv for kv in kwargs.items() if kv[0] != "dtype"]))))
    if name == "tolist" and not args:
        return r(b)
    if name == "join" and args and b.op == "const":
        return r(pure(".join", (b,) + tuple(args), {}))
    if b.op == "const" and isinstance(b.args[0], str) and all(a.op == "const" for a in args) and not kwargs and name in (
            "endswith", "startswith", "lower", "upper", "strip", "isdigit", "lstrip", "rstrip", "replace", "removesuffix", "removeprefix",
            "find", "rfind", "count", "zfill", "title", "casefold", "capitalize", "ljust", "rjust", "isnumeric", "isdecimal", "isspace", "isalpha"):
        return r(const(getattr(b.args[0], name)(*[a.args[0] for a in args])))
    if name in ("index", "rindex") and b.op == "const" and isinstance(b.args[0], str) and not kwargs and all(a.op == "const" for a in args):
        at = getattr(b.args[0], "find" if name == "index" else "rfind")(*[a.args[0] for a in args])
        if at >= 0:
            return r(const(at))
        interp.raise_(st, mk("excobj", "ValueError", ()), loc)
        return []
    if b.op == "const" and isinstance(b.args[0], str) and name in ("split", "rsplit", "splitlines", "partition", "rpartition") and all(
            x.op == "const" for x in list(args) + list(kwargs.values())):
        try:
            v = getattr(b.args[0], name)(*[a.args[0] for a in args], **{k: x.args[0] for k, x in kwargs.items()})
        except (ValueError, TypeError):
            v = None
        if v is not None:
            return r(mk("list" if isinstance(v, list) else "tuple", *[const(x) for x in v]))
    if name in PURE_ANY:
        st = st.copy()
        return [(st, interp.opaque_call(mk("attr", b, name), args, kwargs, st, loc))]
    if name in STR_METHODS:
        return r(pure("." + name, (b,) + tuple(args), kwargs))
    return _effect(interp, mk("attr", b, name), args, kwargs, st, loc)


def at_op(x, idx, op, v):
    """x.at[idx].op(v); scaling one trailing channel is kept in stack form."""
    if x.op == "stack" and x.args[0] == -1 and idx.op == "tuple" and _cint(idx.args[-1]) and all(
            y is ELL or (y.op == "slice" and all(z is NONE for z in y.args)) for y in idx.args[:-1]):
        k = idx.args[-1].args[0]
        items = list(x.args[1])
        if -len(items) <= k < len(items):
            f = {"multiply": t.mul, "add": t.add, "set": lambda a, b: b, "divide": t.div, "subtract": t.sub,
                 "min": lambda a, b: nary("min", [a, b]), "max": lambda a, b: nary("max", [a, b])}.get(op)
            if f is not None:
                items[k] = f(items[k], v)
                return stack(-1, items)
    return mk("atop", x, idx, op, v)


def cfgget(b, k, d):
    if b.op == "dict":
        dyn = False
        for kk, v in reversed(b.args[0]):
            if kk is k:
                return v
            if kk.op == "starstar":
                inner = mk("dict", tuple(x for x in b.args[0] if x[0].op != "starstar"))
                # later literal entries were scanned already: fall through to the starred mapping
                rest = b.args[0][: [x[0] for x in b.args[0]].index(kk)]
                return cfgget(v, k, cfgget(mk("dict", tuple(rest)), k, d))
            if kk.op != "const":
                dyn = True
        if not dyn and k.op == "const":
            return d
        return mk("cfgget", b, k, d)
    return mk("cfgget", b, k, d)


def _re_stack(ax, items):
    return stack(ax, items)


# rebuild hooks for substitution
t.SIMPLIFY.update({
    "index": index,
    "attr": attr,
    "min": lambda *xs: nary("min", xs),
    "max": lambda *xs: nary("max", xs),
    "fn": fn,
    "row": row,
    "T": transpose,
    "fstr": lambda *xs: fstr(list(xs)),
    "cfgget": cfgget,
    "sorted": lambda b, kw=(): py_sorted(b, kw),
    "stack": lambda ax, items: stack(ax, items),
    "atop": at_op,
})
