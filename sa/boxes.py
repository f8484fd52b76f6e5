"""Abstract argument values: type, numeric interval, length and elements.

Conditions of the source are decided over whole classes of inputs by evaluating
them in this domain; `Boxes.truth` is three-valued."""
from __future__ import annotations
from . import terms as t
from .terms import T, NONE
from .domain import Interval, INF

SUB = {
    "int": {"int", "numbers.Integral", "numbers.Number", "numbers.Real", "object", "typing.SupportsFloat"},
    "float": {"float", "numbers.Number", "numbers.Real", "object"},
    "bool": {"bool", "int", "numbers.Integral", "numbers.Number", "numbers.Real", "object"},
    "str": {"str", "collections.abc.Sequence", "typing.Sequence", "object"},
    "none": {"NoneType", "types.NoneType", "object"},
    "tuple": {"tuple", "collections.abc.Sequence", "typing.Sequence", "object", "collections.abc.Iterable"},
    "list": {"list", "collections.abc.Sequence", "typing.Sequence", "object", "collections.abc.Iterable"},
    "dict": {"dict", "collections.abc.Mapping", "object"},
    "array": {"jax.numpy.ndarray", "jax.Array", "ndarray", "jnp.ndarray", "object"},
}
KNOWN = {"int", "float", "bool", "str", "tuple", "list", "dict", "set", "complex", "bytes", "NoneType", "numbers.Integral", "numbers.Real",
         "numbers.Number", "np.integer", "np.floating", "numpy.integer", "numpy.floating", "collections.abc.Sequence", "collections.abc.Mapping",
         "object", "np.ndarray", "numpy.ndarray", "jnp.ndarray", "jax.numpy.ndarray", "jax.Array", "collections.abc.Iterable",
         "typing.Sequence", "pathlib.Path", "os.PathLike", "frozenset"}


class Val:
    __slots__ = ("kind", "lo", "hi", "items", "s", "ob")

    def __init__(self, kind, lo=None, hi=None, items=None, s=None, ob=None):
        self.kind, self.lo, self.hi, self.items, self.s, self.ob = kind, lo, hi, items, s, ob

    def __repr__(self):
        if self.items is not None:
            return f"{self.kind}{self.items}"
        if self.s is not None:
            return repr(self.s)
        if self.lo is not None:
            return f"{self.kind}" + (f" {self.lo:g}" if self.lo == self.hi else f" in [{self.lo:g}, {self.hi:g}]")
        return self.kind + (str(self.ob) if self.ob else "")


def num(lo, hi=None, kind=None):
    hi = lo if hi is None else hi
    kind = kind or ("bool" if isinstance(lo, bool) else "int" if isinstance(lo, int) and isinstance(hi, int) else "float")
    return Val(kind, float(lo), float(hi))


def ints(lo, hi=INF):
    return Val("int", float(lo), float(hi))


def reals(lo, hi=INF):
    return Val("float", float(lo), float(hi))


def seq(*items, kind="tuple"):
    return Val(kind, items=[x if isinstance(x, Val) else num(x) for x in items])


def lst(*items):
    return seq(*items, kind="list")


def txt(s):
    return Val("str", s=s)


def none():
    return Val("none")


def array(*shape, **attrs):
    """An array with this shape; attrs: further attributes or reductions (sum=Val)."""
    return Val("array", ob=dict(shape=seq(*shape), **attrs))


def obj(kind, **attrs):
    return Val(kind, ob=attrs)


def flat(a):
    if isinstance(a, tuple):
        return [y for z in a for y in flat(z)]
    return [a.args[0] if isinstance(a, T) and a.op in ("class", "ext", "const", "builtin") else a]


class Boxes(Interval):
    """Evaluation of terms over a valuation {term: Val}."""

    def __init__(self, val, extra=None):
        super().__init__(self._env)
        self.val = dict(val)
        self.extra = extra
        self.vmemo = {}
        self.unknown = []

    # -- structured values
    def get(self, x):
        if x in self.val:
            return self.val[x]
        if x in self.vmemo:
            return self.vmemo[x]
        self.vmemo[x] = None
        r = self._get(x)
        self.vmemo[x] = r
        return r

    def _get(self, x):
        if self.extra is not None:
            r = self.extra(x)
            if r is not None:
                return r
        op = x.op
        if op == "const":
            v = x.args[0]
            if v is None:
                return none()
            if isinstance(v, bool):
                return Val("bool", float(v), float(v))
            if isinstance(v, int):
                return Val("int", float(v), float(v))
            if isinstance(v, float):
                return Val("float", v, v)
            if isinstance(v, str):
                return txt(v)
            return None
        if op in ("tuple", "list"):
            its = [self.get(y) for y in x.args]
            return Val(op, items=its) if all(i is not None for i in its) else None
        if op == "attr":
            b = self.get(x.args[0])
            if b is not None and b.ob is not None and isinstance(b.ob, dict):
                if x.args[1] == "ndim" and "shape" in b.ob:
                    return num(len(b.ob["shape"].items))
                if x.args[1] == "size" and "shape" in b.ob and "size" not in b.ob:
                    return self._prod(b.ob["shape"].items)
                return b.ob.get(x.args[1])
            return None
        if op == "index":
            b = self.get(x.args[0])
            if b is not None and b.kind == "dict":
                return b.ob.get(x.args[1].args[0]) if x.args[1].op == "const" else None
            if b is not None and b.items is not None:
                k = x.args[1]
                if k.op == "const" and isinstance(k.args[0], int) and -len(b.items) <= k.args[0] < len(b.items):
                    return b.items[k.args[0]]
                if k.op == "slice" and all(z is NONE or z.op == "const" for z in k.args):
                    a = [None if z is NONE else z.args[0] for z in k.args]
                    return Val(b.kind, items=b.items[slice(*a)])
            return None
        if op == "call":
            n, args = x.args[0], x.args[1]
            if n in ("list", "tuple") and len(args) == 1:
                b = self.get(args[0])
                return Val(n, items=b.items) if b is not None and b.items is not None else None
            if n == "len" and len(args) == 1:
                b = self.get(args[0])
                if b is not None and b.items is not None:
                    return num(len(b.items))
                if b is not None and b.kind == "str" and b.s is not None:
                    return num(len(b.s))
                if b is not None and b.kind == "array":
                    return b.ob["shape"].items[0] if b.ob["shape"].items else None
            if n in (".sum", ".min", ".max", ".all", ".any", "jnp.sum", "np.sum", "jax.numpy.sum", "sum", "jnp.all", "jax.numpy.all", "np.all", "np.min", "np.max", "jnp.min", "jnp.max") and args:
                b = self.get(args[0])
                if b is not None and isinstance(b.ob, dict):
                    return b.ob.get(n.rsplit(".", 1)[-1])
            return None
        if op == "reduce" and isinstance(x.args[0], str):
            b = self.get(x.args[1])
            if b is not None and isinstance(b.ob, dict) and x.args[0] in b.ob:
                return b.ob[x.args[0]]
            its = self.elements(x.args[1])
            if its is not None and its and x.args[0] in ("max", "min"):
                f = max if x.args[0] == "max" else min
                if all(i is not None and i.lo is not None for i in its):
                    return Val("float", f(i.lo for i in its), f(i.hi for i in its))
            if its is not None and x.args[0] in ("prod", "sum") and all(i is not None and i.lo is not None for i in its):
                return self._prod(its) if x.args[0] == "prod" else Val("float", sum(i.lo for i in its), sum(i.hi for i in its))
            return None
        if op == "map":
            its = self.elements(x)
            return Val("list", items=its) if its is not None and all(i is not None for i in its) else None
        if op == "ite":
            v = self.truth(x.args[0])
            return None if v is None else self.get(x.args[1] if v else x.args[2])
        if op in ("cmp", "and", "or", "not", "eq", "eq0", "isnone", "in", "all", "isinstance"):
            v = self.truth(x)
            return Val("bool", 0.0, 1.0) if v is None else num(bool(v))
        if op == "fstr":
            return Val("str")
        if op in ("poly", "min", "max", "fn", "floordiv", "mod", "inv", "row"):
            lo, hi = self.ev(x)
            k = "float"
            if op == "fn" and x.args[0] in ("toint",):
                k = "int"
            elif op in ("floordiv", "mod", "min", "max") and all((v := self.get(y)) is not None and v.kind == "int" for y in x.args):
                k = "int"
            elif op == "poly" and all(c == int(c) and all(e > 0 and (v := self.get(a)) is not None and v.kind == "int" for a, e in m) for m, c in x.args[0]):
                k = "int"
            return Val(k, lo, hi)
        return None

    @staticmethod
    def _prod(items):
        lo = hi = 1.0
        for i in items:
            if i is None or i.lo is None:
                return None
            lo, hi = Interval.mul((lo, hi), (i.lo, i.hi))
        return Val("int", lo, hi)

    def elements(self, it):
        if it.op == "map":
            body, src, cnd = it.args
            els = self.elements(src)
            if els is None or cnd is not t.TRUE:
                return None
            return [self._with(src, e).get(body) for e in els]
        if it.op in ("enumerate", "zip"):
            return None
        v = self.get(it)
        if v is not None and v.items is not None:
            return v.items
        return None

    def _with(self, src, e):
        d = dict(self.val)
        for k in (0, 1, 2):
            d[t.mk("elem", src, k)] = e
        return Boxes(d, self.extra)

    def _env(self, x):
        v = self.get(x) if x.op in ("sym", "attr", "index", "elem", "call", "reduce", "ret", "row") or x in self.val else None
        if v is not None and v.lo is not None:
            return (v.lo, v.hi)
        if x.op in ("sym", "attr", "elem", "call", "ret", "index"):
            return (-INF, INF)
        return None

    # -- conditions
    def truth(self, c):
        op = c.op
        if op == "const":
            return bool(c.args[0])
        if op == "not":
            v = self.truth(c.args[0])
            return None if v is None else not v
        if op in ("and", "or"):
            vs = []
            for a in c.args:
                v = self.truth(a)
                if v is (op == "or"):
                    return v
                vs.append(v)
            return None if None in vs else op == "and"
        if op == "isinstance":
            return self.isinst(self.get(c.args[0]), flat(c.args[1]))
        if op == "isnone":
            v = self.get(c.args[0])
            return None if v is None else v.kind == "none"
        if op == "all":
            body, it = c.args
            els = self.elements(it)
            if els is None:
                return None
            out = True
            for e in els:
                v = None if e is None else self._with(it, e).truth(body)
                if v is False:
                    return False
                if v is None:
                    out = None
            return out
        if op == "in":
            a, b = self.get(c.args[0]), self.get(c.args[1])
            if a is not None and b is not None and b.items is not None:
                rs = [self.eqv(a, i) for i in b.items]
                return True if True in rs else None if None in rs else False
            if a is not None and b is not None and b.kind == "dict" and a.s is not None:
                return a.s in b.ob
            return None
        if op == "eq":
            a, b = self.get(c.args[0]), self.get(c.args[1])
            if a is not None and b is not None:
                return self.eqv(a, b)
            return None
        if op == "isclose":
            (a0, a1), (b0, b1) = self.ev(c.args[0]), self.ev(c.args[1])
            if a0 == a1 == b0 == b1:
                return True
            tol = 1e-3 * (1 + min(max(abs(a0), abs(a1)), max(abs(b0), abs(b1))))
            return False if a0 > b1 + tol or b0 > a1 + tol else None
        if op in ("cmp", "eq0"):
            # ill-typed comparisons are left undecided
            return super().truth(c)
        if op == "ite":
            v = self.truth(c.args[0])
            return None if v is None else self.truth(c.args[1] if v else c.args[2])
        if op == "nonempty":
            v = self.get(c.args[0])
            return None if v is None or v.items is None else len(v.items) > 0
        v = self.get(c)
        if v is None:
            return None
        if v.kind == "none":
            return False
        if v.items is not None:
            return len(v.items) > 0
        if v.s is not None:
            return bool(v.s)
        if v.lo is not None:
            if v.lo > 0 or v.hi < 0:
                return True
            if v.lo == v.hi == 0:
                return False
        return None

    @staticmethod
    def isinst(v, names):
        if v is None:
            return None
        out = False
        for n in names:
            n = str(n)
            sup = SUB.get(v.kind)
            if sup is not None and n in sup:
                return True
            last = n.rsplit(".", 1)[-1]
            if sup is None and (last == v.kind or v.ob and last in v.ob.get("__bases__", ())):
                return True
            if v.kind == "array" and last in ("ndarray", "Array"):
                return True     # numpy and jax arrays are not told apart
            if n not in KNOWN and sup is not None and "." in n and not n.startswith(("np.", "numpy.", "synthpix", "pathlib", "collections", "typing", "jax", "jnp")):
                out = None
        return out

    def eqv(self, a, b):
        if a.kind == "none" or b.kind == "none":
            return a.kind == b.kind
        if a.lo is not None and b.lo is not None:
            if a.lo == a.hi == b.lo == b.hi:
                return True
            return False if a.lo > b.hi or b.lo > a.hi else None
        if a.s is not None and b.s is not None:
            return a.s == b.s
        if a.items is not None and b.items is not None:
            if a.kind != b.kind:
                return False
            if len(a.items) != len(b.items):
                return False
            rs = [None if x is None or y is None else self.eqv(x, y) for x, y in zip(a.items, b.items)]
            return False if False in rs else None if None in rs else True
        if a.kind != b.kind and {a.kind, b.kind} - {"int", "float", "bool"} and a.kind in SUB and b.kind in SUB and "array" not in (a.kind, b.kind):
            return False
        return None
