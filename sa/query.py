"""Queries over terms and exits shared by the checks."""
from __future__ import annotations
from . import terms as t
from .terms import T, mk, const, sym, NONE, TRUE, FALSE
from .check import Undecided


def calls(exit_, name, kind="call"):
    """Events of calls to a (qualified or last-component) name, in order."""
    out = []
    for e in exit_.st.trace:
        if e.kind != kind:
            continue
        c = e.callee
        n = callee_name(c)
        if n == name or n.endswith("." + name):
            out.append(e)
    return out


def callee_name(c):
    if not isinstance(c, T):
        return str(c)
    if c.op in ("func", "class", "ext", "builtin"):
        return c.args[0]
    if c.op == "attr":
        return "." + c.args[1]
    return t.show(c, 3)


def kwd(e):
    return dict(e.kwargs)


def only_return(c, ex, what=""):
    r = [e for e in ex if e.kind == "return"]
    if len(r) != 1:
        raise Undecided(f"{what}: expected one return path, found {len(r)}")
    return r[0]


def shape_oracle(x, st=None):
    """Trailing axis of a stacked array has as many entries as were stacked."""
    if x.op == "eq":
        for a, b in (x.args, x.args[::-1]):
            if t.is_num(a) and b.op == "index" and b.args[0].op == "attr" and b.args[0].args[1] == "shape":
                arr = b.args[0].args[0]
                if arr.op == "stack" and arr.args[0] == -1:
                    return a.args[0] == len(arr.args[1])
    return None


def pointwise(x, coords):
    """Value of a broadcast grid expression at the given output coordinates."""
    def f(y):
        if y.op == "bcast":
            v, ax, nd = y.args
            return pt(v, coords[ax]) if ax < len(coords) else None
        return None

    def pt(v, k):
        def g(z):
            if z.op == "arange":
                return t.add(z.args[0], t.mul(z.args[2], k))
            if z.op == "linspace":
                a, b, n = z.args[:3]
                return t.add(a, t.mul(t.div(t.sub(b, a), t.sub(n, const(1))), k))
            return None
        return t.subst(v, g)
    return t.subst(x, f)


def unwrap_vmap(x):
    while x.op == "vmap":
        x = x.args[0]
    return x


def split_ite(x):
    """[(conditions, value)] for nested conditionals."""
    if x.op == "ite":
        c, a, b = x.args
        return [((c,) + cs, v) for cs, v in split_ite(a)] + [((t.nott(c),) + cs, v) for cs, v in split_ite(b)]
    return [((), x)]


def assume(x, facts):
    """Simplify a term under truth assumptions {term: bool}."""
    memo = {}

    def f(y):
        if y in facts:
            return const(facts[y])
        n = t.nott(y) if y.op in ("cmp", "not") else None
        if n is not None and n in facts:
            return const(not facts[n])
        return None
    return t.subst(x, f, memo)


def lits(c, pol=True):
    """Conjunction -> literals"""
    if c.op == "and" and pol:
        return [x for a in c.args for x in lits(a, True)]
    if c.op == "or" and not pol:
        return [x for a in c.args for x in lits(a, False)]
    if c.op == "not":
        return lits(c.args[0], not pol)
    return [(c, pol)]


def factors(x):
    """Multiplicative factors of a single-monomial term: (coeff, [(atom, exp)])"""
    d = t.poly_of(x)
    if d is None or len(d) != 1:
        return None
    (m, c), = d.items()
    return c, list(m)


def draws_in(x):
    return [y for y in t.walk(x) if y.op == "draw"]


def retname(x):
    """Name of the function whose (opaque) result x is."""
    if x.op == "ret" and isinstance(x.args[0], T):
        return callee_name(x.args[0])
    return None


def rets_of(x, name):
    return [y for y in t.walk(x) if y.op == "ret" and (retname(y) or "").endswith("." + name)]


def find_sub(x, pred):
    return [y for y in t.walk(x) if pred(y)]
