"""Call histories over small environments.

A history (constructor, sequence of calls) is analysed as a client of the public
API with the contents of all files symbolic; what each call yields is compared
entry by entry with a reference model of the statement."""
from __future__ import annotations
from . import terms as t
from . import lib
from .terms import mk, const, T, NONE, TRUE, FALSE
from .classes import sure, excname, why
from .env import Env, arr

IMPORTS = """
from synthpix.scheduler.mat import MATFlowFieldScheduler
from synthpix.scheduler.numpy import NumpyFlowFieldScheduler
from synthpix.scheduler.hdf5 import HDF5FlowFieldScheduler
from synthpix.scheduler.prefetch import PrefetchingFlowFieldScheduler
from synthpix.scheduler.episodic import EpisodicFlowFieldScheduler
"""


def source(ctor, ops, params=()):
    """A client that performs the calls and records every outcome."""
    out = [IMPORTS, f"def drive({', '.join(params)}):", f"    s = {ctor}"]
    names = []
    for i, op in enumerate(ops):
        if isinstance(op, int):
            v = f"r{i}"
            names.append(v)
            out += ["    try:", f"        b = s.get_batch({op})",
                    f"        {v} = ('batch', b.flow_fields, b.images1, b.images2, b.mask, b.files)",
                    "    except StopIteration:", f"        {v} = ('end',)",
                    "    except Exception as e:", f"        {v} = ('error', e)"]
        elif isinstance(op, tuple):
            v = f"r{i}"
            names.append(v)
            out += ["    try:", f"        {v} = ('value', {op[1]})",
                    "    except Exception as e:", f"        {v} = ('error', e)"]
        else:
            out += [f"    {l}" for l in op.splitlines()]
    out.append(f"    return ({', '.join(names)}{',' if names else ''})")
    return "\n".join(out) + "\n"


# ------------------------------------------------------------ entries of arrays
ZERO = const(0)


def length(x):
    """Number of entries along the first axis, or None."""
    if x.op == "stack" and x.args[0] == 0:
        return len(x.args[1])
    if x.op in ("list", "tuple"):
        return len(x.args)
    if x.op == "full":
        s = x.args[0]
        s = s.args[0] if s.op in ("tuple", "list") and s.args else s
        return s.args[0] if lib._cint(s) else None
    if x.op in ("setitem", "atop"):
        return length(x.args[0])
    if x.op == "fn" and x.args[0] == "toint":
        return length(x.args[1])
    if x.op == "index" and x.args[1].op in ("list", "arange") and (length(x.args[0]) is not None):
        return length(x.args[1])
    if x.op == "shapeop" and x.args[0] == "pad":
        n, w = length(x.args[1]), padding(x)
        return None if n is None or w is None else n + w[0] + w[1]
    if x.op in ("shapeop", "call") and x.args[0] in ("concatenate", "np.concatenate"):
        ps = parts(x)
        ns = [length(p) for p in ps] if ps is not None else [None]
        return None if None in ns else sum(ns)
    if x.op == "arange" and all(lib._cint(a) for a in x.args[:3]):
        return len(range(*[a.args[0] for a in x.args[:3]]))
    if x.op in ("cmp", "eq", "ord", "not", "and", "or"):
        ns = {length(a) for a in x.args if isinstance(a, T)} - {None}
        return ns.pop() if len(ns) == 1 else None
    if x.op == "poly":
        ns = {length(a) for m in t.poly_of(x) for a, _ in m} - {None}
        return ns.pop() if len(ns) == 1 else None
    sh = lib.shape_of(x)
    if sh and lib._cint(sh[0]):
        return sh[0].args[0]
    return None


def padding(x):
    """(before, after, kind) of a padding of the first axis only, else None. kind: a constant or the name of a mode"""
    a = [y for y in x.args[2] if isinstance(y, T)]
    kw = dict(y for y in x.args[2] if isinstance(y, tuple))
    w = kw.get("pad_width", a[0] if a else None)
    mode = kw.get("mode", a[1] if len(a) > 1 else const("constant"))
    val = kw.get("constant_values", ZERO)
    if w is None or mode.op != "const":
        return None
    if mode.args[0] == "constant":
        if _zero(val):
            kind = ZERO
        elif t.is_num(val):
            kind = val
        else:
            return None
    else:
        kind = mode.args[0]
    ws = lib.enumerate_items(w)
    if not ws:
        return None
    ps = [[y.args[0] for y in p.args] if p.op in ("tuple", "list") and all(lib._cint(y) for y in p.args) else None for p in ws]
    if any(p is None or len(p) != 2 for p in ps) or any(p != [0, 0] for p in ps[1:]):
        return None
    return ps[0] + [kind]


def padded(x, i, n, kind):
    """Entry i (negative or at least n) of the padding of x, which has n entries."""
    if isinstance(kind, T):
        return kind
    if n == 0:
        return None
    if kind == "edge":
        j = 0 if i < 0 else n - 1
    elif kind == "wrap":
        j = i % n
    elif kind == "symmetric":
        j = i % (2 * n)
        j = j if j < n else 2 * n - 1 - j
    elif kind == "reflect":
        j = i % (2 * n - 2) if n > 1 else 0
        j = j if j < n else 2 * n - 2 - j
    else:
        return None
    return entry(x, j)


def _zero(v):
    return t.is_num(v) and v.args[0] == 0 or v is FALSE or v.op in ("tuple", "list") and all(_zero(y) for y in v.args) or (
        v.op == "full" and _zero(v.args[1]))


def parts(x):
    a = [y for y in (x.args[2] if x.op == "shapeop" else ()) if isinstance(y, T)]
    kw = dict(y for y in (x.args[2] if x.op == "shapeop" else ()) if isinstance(y, tuple))
    if x.op == "shapeop":
        ax = kw.get("axis", a[0] if a else ZERO)
        if not t.is_num(ax) or ax.args[0] != 0:
            return None
        return lib.enumerate_items(x.args[1])
    return None


def entry(x, i):
    """x[i] with the usual array constructions resolved; None when unknown."""
    n = length(x)
    if x.op == "shapeop" and x.args[0] == "pad":
        w, m = padding(x), length(x.args[1])
        if w is None or m is None:
            return None
        return entry(x.args[1], i - w[0]) if w[0] <= i < w[0] + m else padded(x.args[1], i - w[0], m, w[2])
    if x.op == "shapeop" and x.args[0] == "concatenate":
        ps = parts(x)
        for p in ps or ():
            k = length(p)
            if k is None:
                return None
            if i < k:
                return entry(p, i)
            i -= k
        return None
    if x.op == "full":
        s = x.args[0]
        v = x.args[1]
        return v if not (s.op in ("tuple", "list") and len(s.args) > 1) or not _zero(v) else ZERO
    if x.op in ("setitem", "atop"):
        if x.op == "atop":
            if x.args[2] != "set":
                return None
            base, k, v = x.args[0], x.args[1], x.args[3]
        else:
            base, k, v = x.args[0], x.args[1], x.args[2]
        if k.op == "tuple" and len(k.args) == 1:
            k = k.args[0]
        if k is lib.ELL:
            k = mk("slice", NONE, NONE, NONE)
        if lib._cint(k):
            j = k.args[0] + (n if n is not None and k.args[0] < 0 else 0)
            return v if j == i else entry(base, i)
        if k.op == "slice" and n is not None and all(y is NONE or lib._cint(y) for y in k.args):
            r = range(n)[slice(*[None if y is NONE else y.args[0] for y in k.args])]
            if i not in r:
                return entry(base, i)
            if v.op == "const":
                return v
            return entry(v, r.index(i))
        return None
    if x.op == "arange" and all(lib._cint(a) for a in x.args[:3]):
        return const(range(*[a.args[0] for a in x.args[:3]])[i])
    if x.op == "fn" and x.args[0] == "toint":
        v = entry(x.args[1], i)
        return None if v is None else lib.toint(v)
    if x.op == "index" and x.args[1].op in ("list", "arange"):
        k = entry(x.args[1], i)
        m = length(x.args[0])
        return entry(x.args[0], k.args[0] % m) if k is not None and lib._cint(k) and m and -m <= k.args[0] < m else None
    if x.op in ("cmp", "eq", "ord", "not", "and", "or", "poly"):
        sub = {}

        def visit(y):
            if not isinstance(y, T):
                return
            if length(y) is not None and y.op not in ("cmp", "eq", "ord", "not", "and", "or", "poly"):
                sub[y] = entry(y, i)
                return
            for z in y.args:
                if isinstance(z, T):
                    visit(z)
                elif isinstance(z, tuple):
                    for q in t.flatten_args(z) if hasattr(t, "flatten_args") else _flat(z):
                        visit(q)
        visit(x)
        if any(v is None for v in sub.values()):
            return None
        return t.subst(x, sub.get) if sub else x
    if x.op in ("list", "tuple"):
        return x.args[i] if i < len(x.args) else None
    v = lib.index(x, const(i))
    return v


def _flat(z):
    for q in z:
        if isinstance(q, T):
            yield q
        elif isinstance(q, tuple):
            yield from _flat(q)


# ------------------------------------------------------------ comparison
class Batch:
    """Expected outcome of get_batch: rows of terms, padded with zeros."""

    def __init__(self, n, flows, files, images1=None, images2=None):
        self.n, self.flows, self.files, self.images1, self.images2 = n, flows, files, images1, images2


END, FAIL = "end", "fail"


class Raises:
    def __init__(self, *names):
        self.names = names


class Value:
    def __init__(self, x):
        self.x = x if isinstance(x, T) else const(x)


def rows(x, n, want, what):
    """Compare the entries of an array. -> list of (verdict, detail)"""
    k = length(x)
    if k is None:
        return [(None, f"{what}: {t.show(x, 3)[:100]}")]
    if k != n:
        return [(False, f"{what}: {k} entries instead of {n}")]
    out = []
    for i in range(n):
        v = entry(x, i)
        w = want[i] if i < len(want) else ZERO
        if v is None:
            out.append((None, f"{what}[{i}] not resolved"))
        elif v is w or _zero(v) and w is ZERO:
            out.append((True, ""))
        elif known(v):
            out.append((False, f"{what}[{i}] is {t.show(v, 5)[:110]} instead of {t.show(w, 5)[:110]}"))
        else:
            out.append((None, f"{what}[{i}] is {t.show(v, 4)[:110]}"))
    return out


OK_OPS = {"arr", "index", "tuple", "slice", "const", "sym", "imresize", "imconvert", "stack", "poly", "ext", "attr", "shapeop", "T", "list"}


def known(v):
    return not t.contains(v, lambda y: y.op not in OK_OPS or y.op == "shapeop" and y.args[0] != "transpose")


def literal(x):
    return x.op == "const" or x.op in ("tuple", "list") and all(literal(y) for y in x.args)


def compare(r, w, files=True, images=True):
    """The recorded outcome `r` against the expected one."""
    if r.op != "tuple" or not r.args or r.args[0].op != "const":
        return None, t.show(r, 2)[:100]
    k = r.args[0].args[0]
    if w == END:
        return (True, "") if k == "end" else (False, f"{'a batch' if k == 'batch' else 'an error'} instead of StopIteration")
    if w == FAIL:
        return (True, "") if k != "batch" else (False, "a batch although no file can be read")
    if isinstance(w, Raises):
        if k == "error" and excname(r.args[1]) is None:
            return None, t.show(r, 3)[:100]
        ok = k == "error" and excname(r.args[1]) in w.names or k == "end" and "StopIteration" in w.names
        return ok, "" if ok else f"{'a batch' if k == 'batch' else t.show(r, 3)[:100]} instead of {' or '.join(w.names)}"
    if isinstance(w, Value):
        if k != "value":
            return False if k == "batch" or excname(r.args[-1]) else None, f"{t.show(r, 3)[:100]} instead of {t.show(w.x)}"
        ok = r.args[1] is w.x
        return True if ok else False if literal(r.args[1]) else None, f"{t.show(r.args[1], 4)[:100]} instead of {t.show(w.x)}"
    if k == "value":
        return None, "a value"
    if k != "batch":
        return False, "StopIteration instead of a batch" if k == "end" else f"{t.show(r.args[1], 2)[:80]} instead of a batch"
    fl, i1, i2, mask, fs = r.args[1:]
    res = rows(fl, w.n, w.flows, "flow_fields")
    res += rows_mask(mask, w)
    if files:
        res += rows_files(fs, w)
    if images:
        for x, y, nm in ((i1, w.images1, "images1"), (i2, w.images2, "images2")):
            if y is None:
                if x is NONE:
                    res.append((True, ""))
                else:
                    res.append((False if x.op in ("stack", "shapeop") else None, f"{nm} is not None"))
            elif x is NONE:
                res.append((False, f"{nm} is None"))
            else:
                res += rows(x, w.n, y, nm)
    for v in (False, None):
        for a, d in res:
            if a is v:
                return a, d
    return True, ""


def rows_mask(m, w):
    n = length(m)
    if n is None:
        return [(None, f"mask: {t.show(m, 3)[:100]}")]
    if n != w.n:
        return [(False, f"mask has {n} entries instead of {w.n}")]
    out = []
    for i in range(n):
        v = entry(m, i)
        b = None
        if v is not None and v.op == "const" and isinstance(v.args[0], (bool, int, float)):
            b = bool(v.args[0])
        out.append((None, f"mask[{i}] not resolved") if b is None else (b is (i < len(w.flows)), f"mask[{i}] is {b}"))
    return out


def rows_files(f, w):
    its = lib.enumerate_items(f) if f.op in ("tuple", "list", "concat") or lib.enumerate_items(f) is not None else None
    if its is None:
        if f is NONE:
            return [(False, "files is None")]
        return [(None, f"files: {t.show(f, 3)[:100]}")]
    if len(its) != w.n:
        return [(False, f"files has {len(its)} entries instead of {w.n}")]
    out = []
    for i, x in enumerate(its):
        y = w.files[i] if i < len(w.files) else ""
        if x.op != "const":
            out.append((None, f"files[{i}] not resolved"))
        else:
            out.append((x.args[0] == y, f"files[{i}] is {x.args[0]!r} instead of {y!r}"))
    return out


def run(c, env, ctor, ops, params=(), opaque=(), models=None, oracle=None):
    def setup(I):
        I.models.update(env.models())
        I.models.update(models or {})

    def orc(x, st):
        r = env.truth(x, st)
        return r if r is not None or oracle is None else oracle(x, st)
    return c.client(source(ctor, ops, params), oracle=orc, setup=setup, opaque=list(opaque))


def check(c, name, env, ctor, ops, want, **kw):
    """One obligation: every path of the history yields the expected outcomes."""
    cmp = {k: kw.pop(k) for k in ("files", "images") if k in kw}
    I, ex = run(c, env, ctor, ops, **kw)
    if not ex:
        return c.decide(name, None, "no path")
    verdict, detail, where = True, "", ""
    for e in ex:
        if e.kind == "raise":
            v, d = (False if excname(e.val) else None), f"raises {t.show(e.val, 3)[:100]}"
        else:
            v, d = True, ""
            for i, (r, w) in enumerate(zip(e.val.args, want)):
                v1, d1 = compare(r, w, **cmp)
                if v1 is not True and (v is True or v1 is False):
                    v, d = v1, f"call {i + 1}: {d1}"
        if v is False and e.st.guards:
            v, d = None, why(e) + " / " + d
        if v is not True and (verdict is True or v is False):
            verdict, detail, where = v, d, e.loc
    return c.decide(name, verdict, detail, where if e.kind == "raise" else "")


# ------------------------------------------------------------ reference model
class Ref:
    """files: list of (path, [(flow, image1, image2), ...] or None when unreadable)"""

    def __init__(self, files, loop=False):
        self.files, self.loop = files, loop
        self.reset()

    def reset(self):
        self.f, self.k = 0, 0

    def next(self):
        skipped = 0
        while True:
            if self.f >= len(self.files):
                if not self.loop:
                    return None
                self.reset()
            p, sl = self.files[self.f]
            if sl is not None and self.k < len(sl):
                self.k += 1
                return (p,) + sl[self.k - 1]
            self.f, self.k = self.f + 1, 0
            skipped += 1
            if skipped > 2 * len(self.files):
                return FAIL

    def batch(self, n):
        got = []
        for _ in range(n):
            x = self.next()
            if x == FAIL:
                return FAIL
            if x is None:
                break
            got.append(x)
        if not got:
            return END
        im = got[0][2] is not None
        return Batch(n, [x[1] for x in got], [x[0] for x in got], [x[2] for x in got] if im else None,
                     [x[3] for x in got] if im else None)
