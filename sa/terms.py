"""Value-numbering domain: hash-consed terms with a polynomial normal form.

Arithmetic is kept in a canonical sum-of-monomials form over atoms with exact
rational coefficients, so algebraically equal expressions get the same term
whatever way they were written.
"""
from __future__ import annotations
from fractions import Fraction

_TABLE: dict = {}


class T:
    __slots__ = ("op", "args", "id", "_h", "__weakref__")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    # hash-consed: identity equality
    def __eq__(self, other):
        return self is other

    def __lt__(self, other):
        return self.id < other.id


def mk(op, *args):
    key = (op,) + tuple((type(a).__name__, a) if not isinstance(a, T) else a for a in args)
    t = _TABLE.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.id = op, args, len(_TABLE)
        t._h = hash(t.id)
        _TABLE[key] = t
    return t


def const(v):
    return mk("const", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ELL = const(Ellipsis)


def sym(name):
    return mk("sym", name)


def is_const(t, *vals):
    if t.op != "const":
        return False
    if not vals:
        return True
    return any(type(t.args[0]) is type(v) and t.args[0] == v for v in vals)


def cval(t, default=None):
    return t.args[0] if t.op == "const" else default


def is_num(t):
    return t.op == "const" and isinstance(t.args[0], (int, float)) and not isinstance(t.args[0], bool)


SEQ = ("list", "tuple", "concat", "fstr", "map", "dict", "set", "flatmap", "dictmap")


def is_seq(t):
    return t.op in SEQ or (t.op == "const" and isinstance(t.args[0], (str, bytes)))


# ------------------------------------------------------------------ polynomials
# A polynomial is a T with op 'poly'; args = tuple of (monomial, coeff) where
# monomial = tuple of (atom, exponent) sorted by atom id.

def _frac(v):
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(v)
    if isinstance(v, float):
        return Fraction(repr(v)) if v == v and v not in (float("inf"), float("-inf")) else None
    return None


def poly_of(t) -> dict | None:
    """dict monomial -> Fraction (None if not numeric)."""
    if t.op == "poly":
        return dict(t.args[0])
    if t.op == "const":
        v = t.args[0]
        if isinstance(v, (int, float, Fraction)):
            f = v if isinstance(v, Fraction) else _frac(v)
            if f is None:
                return {((t, 1),): Fraction(1)}
            return {(): f} if f else {}
        return None
    if is_seq(t):
        return None
    return {((t, 1),): Fraction(1)}


def from_poly(p: dict) -> T:
    p = {m: c for m, c in p.items() if c}
    if not p:
        return const(0)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return const(int(c)) if c.denominator == 1 else const(_tofloat(c))
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(p.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0])))
    return mk("poly", items)


def _tofloat(c: Fraction):
    f = float(c)
    return f if Fraction(repr(f)) == c else c


def _mmul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda ae: ae[0].id))


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + k * c
        if not r[m]:
            del r[m]
    return r


def pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mmul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
            if not r[m]:
                del r[m]
    return r


def add(a, b):
    if is_seq(a) or is_seq(b):
        return concat(a, b)
    p, q = poly_of(a), poly_of(b)
    if p is None or q is None:
        return mk("binop", "+", a, b)
    return from_poly(padd(p, q))


def sub(a, b):
    p, q = poly_of(a), poly_of(b)
    if p is None or q is None:
        return mk("binop", "-", a, b)
    return from_poly(padd(p, q, -1))


def neg(a):
    return mul(const(-1), a)


def mul(a, b):
    if is_seq(a) or is_seq(b):
        s, n = (a, b) if is_seq(a) else (b, a)
        if is_num(n) and s.op in ("list", "tuple") and 0 <= n.args[0] <= 64:
            return mk(s.op, *(s.args * int(n.args[0])))
        return mk("repeat", s, n)
    p, q = poly_of(a), poly_of(b)
    if p is None or q is None:
        return mk("binop", "*", a, b)
    if len(p) * len(q) > 4000:
        return mk("binop", "*", *sorted((a, b)))
    return from_poly(pmul(p, q))


def inv(b):
    p = poly_of(b)
    if p is None or not p:
        return mk("inv", b)
    if len(p) == 1:
        (m, c), = p.items()
        return from_poly({tuple((a, -e) for a, e in m): 1 / c})
    # normalise the leading coefficient so that (2a+2b)^-1 == 1/2 (a+b)^-1
    items = sorted(p.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    lead = items[0][1]
    # pull out common monomial factors
    common = None
    for m, _ in items:
        d = dict(m)
        common = d if common is None else {a: min(e, d[a]) for a, e in common.items() if a in d}
    common = {a: e for a, e in (common or {}).items() if e > 0}
    red = {}
    for m, c in items:
        d = dict(m)
        for a, e in common.items():
            d[a] -= e
        red[tuple((a, e) for a, e in d.items() if e)] = c / lead
    base = from_poly(red)
    atom = mk("inv", base)
    res = {((atom, 1),): 1 / lead}
    res = pmul(res, {tuple(sorted(((a, -e) for a, e in common.items()), key=lambda x: x[0].id)): Fraction(1)})
    return from_poly(res)


def div(a, b):
    if is_num(b) and b.args[0] == 0:
        return mk("binop", "/", a, b)
    if a is b and not is_seq(a):
        return const(1)
    pa, pb = poly_of(a), poly_of(b)
    if pa is None or pb is None:
        return mk("binop", "/", a, b)
    # exact cancellation a = k*b
    if pa and pb and len(pa) == len(pb) > 1:
        k = None
        ok = True
        for m, c in pa.items():
            if m not in pb:
                ok = False
                break
            kk = c / pb[m]
            if k is None:
                k = kk
            elif k != kk:
                ok = False
                break
        if ok:
            return from_poly({(): k})
    return mul(a, inv(b))


def power(a, b):
    if is_num(b) and isinstance(b.args[0], (int, float)) and float(b.args[0]).is_integer():
        n = int(b.args[0])
        if 0 <= n <= 6:
            r = const(1)
            for _ in range(n):
                r = mul(r, a)
            return r
        if -6 <= n < 0:
            return inv(power(a, const(-n)))
    return mk("pow", a, b)


def floordiv(a, b):
    if is_num(a) and is_num(b) and b.args[0]:
        return const(a.args[0] // b.args[0])
    if is_num(b) and b.args[0] == 1 and False:
        return a
    return mk("floordiv", a, b)


def mod(a, b):
    if is_num(a) and is_num(b) and b.args[0]:
        return const(a.args[0] % b.args[0])
    if a.op == "const" and isinstance(a.args[0], str):
        return mk("fstr", a, b)
    return mk("mod", a, b)


def concat(a, b):
    if a.op in ("list", "tuple") and b.op == a.op:
        return mk(a.op, *(a.args + b.args))
    if a.op == "const" and b.op == "const" and isinstance(a.args[0], str) and isinstance(b.args[0], str):
        return const(a.args[0] + b.args[0])
    if a.op in ("list", "tuple") and not a.args:
        return b
    if b.op in ("list", "tuple") and not b.args:
        return a
    la = a.args if a.op == "concat" else (a,)
    lb = b.args if b.op == "concat" else (b,)
    parts = list(la)
    for x in lb:
        if parts and parts[-1].op == x.op and x.op in ("list", "tuple"):
            parts[-1] = mk(x.op, *(parts[-1].args + x.args))
        else:
            parts.append(x)
    return mk("concat", *parts)


# ------------------------------------------------------------------ booleans

def nott(a):
    if a.op == "const":
        return const(not a.args[0]) if not isinstance(a.args[0], T) else a
    if a.op == "not":
        return a.args[0]
    if a.op == "cmp":
        o, x = a.args
        # x<0 -> -x<=0 ; x<=0 -> -x<0
        if o == "<":
            return mk("cmp", "<=", neg(x))
        if o == "<=":
            return mk("cmp", "<", neg(x))
    if a.op == "and":
        return disj([nott(x) for x in a.args])
    if a.op == "or":
        return conj([nott(x) for x in a.args])
    return mk("not", a)


def conj(parts):
    out = []
    for p in parts:
        for q in (p.args if p.op == "and" else (p,)):
            if is_const(q):
                if not q.args[0]:
                    return FALSE
                continue
            if q not in out:
                out.append(q)
    for q in out:
        if nott_raw(q) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", *sorted(out))


def nott_raw(a):
    return a.args[0] if a.op == "not" else (nott(a) if a.op in ("cmp",) else mk("not", a))


def disj(parts):
    out = []
    for p in parts:
        for q in (p.args if p.op == "or" else (p,)):
            if is_const(q):
                if q.args[0]:
                    return q if q is TRUE else TRUE
                continue
            if q not in out:
                out.append(q)
    for q in out:
        if nott_raw(q) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", *sorted(out))


def compare(op, a, b):
    """op in < <= > >= == != is isnot in notin"""
    if op == ">":
        return compare("<", b, a)
    if op == ">=":
        return compare("<=", b, a)
    if op == "!=":
        return nott(compare("==", a, b))
    if op == "isnot":
        return nott(compare("is", a, b))
    if op == "notin":
        return nott(compare("in", a, b))
    if op in ("<", "<="):
        d = sub(a, b)
        if is_num(d):
            return const(d.args[0] < 0 if op == "<" else d.args[0] <= 0)
        # normalise positive scaling
        if d.op == "poly":
            items = d.args[0]
            k = abs(items[0][1])
            if k != 1:
                d = from_poly({m: c / k for m, c in items})
        if d.op == "binop":
            return mk("ord", op, a, b)
        return mk("cmp", op, d)
    if op in ("==", "is"):
        if a is b:
            return TRUE
        if a.op == "path" and b.op in ("path", "const") or b.op == "path" and a.op == "const":
            return FALSE
        if a.op == "const" and b.op == "const":
            if op == "is" and (a.args[0] is None or b.args[0] is None):
                return FALSE
            return const(a.args[0] == b.args[0])
        if a.op in ("tuple", "list") and b.op == a.op:
            if len(a.args) != len(b.args):
                return FALSE
            return conj([compare("==", x, y) for x, y in zip(a.args, b.args)])
        for x, y in ((a, b), (b, a)):
            if x is NONE:
                if y.op in NONNULL or y.op == "index" and y.args[1].op in ("list", "map", "flatmap", "filter", "arange", "range", "slice") or (
                        y.op == "index" and _based(y)):
                    return FALSE
                return mk("isnone", y)
        if op == "==":
            pa, pb = poly_of(a), poly_of(b)
            if pa is not None and pb is not None:
                d = padd(pa, pb, -1)
                if not d:
                    return TRUE
                if set(d) == {()}:
                    return FALSE
                # canonical sign
                t = from_poly(d)
                if t.op == "poly":
                    lead = t.args[0][0][1]
                    t = from_poly({m: c / lead for m, c in t.args[0]})
                # keep two-sided form when both are plain terms (strings etc.)
                if a.op != "poly" and b.op != "poly":
                    x, y = sorted((a, b))
                    return mk("eq", x, y)
                return mk("eq0", t)
        x, y = sorted((a, b))
        return mk("eq", x, y)
    if op == "in":
        if b.op in ("list", "tuple", "set"):
            if not b.args:
                return FALSE
            if a in b.args and a.op in ("const", "path"):
                return TRUE
            if a.op == "const" and all(x.op == "const" for x in b.args):
                return const(any(type(x.args[0]) is type(a.args[0]) and x.args[0] == a.args[0] for x in b.args))
            return disj([compare("==", a, x) for x in b.args])
        if b.op == "dict":
            keys = [k for k, _ in b.args[0]]
            if a.op == "const" and all(k.op == "const" for k in keys):
                return const(a in keys)
            return disj([compare("==", a, x) for x in keys])
        if a.op == "const" and b.op == "const":
            try:
                return const(a.args[0] in b.args[0])
            except TypeError:
                pass
        return mk("in", a, b)
    raise ValueError(op)


def _based(y):
    while y.op == "index":
        y = y.args[0]
    return y.op == "arr"


NONNULL = {"path", "textfile", "binfile", "zip", "tuple", "list", "dict", "set", "map", "concat", "obj", "closure", "class", "func", "xnew",
           "poly", "array", "stack", "draw", "split", "fstr", "bound", "clip", "floor", "flatmap",
           "dictmap", "cmp", "and", "or", "not", "isinstance", "repeat", "range", "bcast", "arange",
           "vmap", "at", "arr", "rematch", "h5", "excobj", "pil", "direntry", "imresize", "imconvert",
           "shapeop", "full", "builtin", "gen", "ctx"}


def ite(c, a, b):
    if c.op == "const":
        return a if c.args[0] else b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return nott(c)
    if c.op == "cmp" and not (a.op == "const" and not is_num(a)) and not (b.op == "const" and not is_num(b)):
        # p < 0 ? a : b  is min(a, b) or max(a, b) if p is the difference of the two
        d = sub(a, b)
        if c.args[1] is d:
            from .lib import nary
            return nary("min", [a, b])
        if c.args[1] is neg(d):
            from .lib import nary
            return nary("max", [a, b])
    return mk("ite", c, a, b)


# ------------------------------------------------------------------ traversal

def children(t):
    for a in t.args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            yield from _tup(a)


def _tup(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _tup(x)


def walk(t, seen=None):
    """All distinct subterms."""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(children(x))


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def subst(t, f, memo=None):
    """Rebuild t bottom-up; f(term)->term|None is tried first (top-down)."""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    r = f(t)
    if r is None:
        r = rebuild(t, lambda x: subst(x, f, memo))
    memo[t] = r
    return r


def _map_tup(a, g):
    if isinstance(a, T):
        return g(a)
    if isinstance(a, tuple):
        return tuple(_map_tup(x, g) for x in a)
    return a


def rebuild(t, g):
    if t.op in ("const", "sym"):
        return t
    if t.op == "poly":
        res = const(0)
        for m, c in t.args[0]:
            cur = const(int(c)) if c.denominator == 1 else from_poly({(): c})
            for a, e in m:
                cur = mul(cur, power(g(a), const(e)))
            res = add(res, cur)
        return res
    if t.op == "inv":
        return inv(g(t.args[0]))
    new = tuple(_map_tup(a, g) for a in t.args)
    if all(x is y or x == y for x, y in zip(new, t.args)):
        return t
    op = t.op
    if op == "cmp":
        return compare(new[0], new[1], const(0))
    if op == "and":
        return conj(new)
    if op == "or":
        return disj(new)
    if op == "not":
        return nott(new[0])
    if op == "ite":
        return ite(*new)
    if op == "eq":
        return compare("==", *new)
    if op == "eq0":
        return compare("==", new[0], const(0))
    if op == "isnone":
        return compare("is", new[0], NONE)
    if op == "concat":
        r = new[0]
        for x in new[1:]:
            r = concat(r, x)
        return r
    if op == "floordiv":
        return floordiv(*new)
    if op == "mod":
        return mod(*new)
    if op == "pow":
        return power(*new)
    if op in SIMPLIFY:
        return SIMPLIFY[op](*new)
    return mk(op, *new)


SIMPLIFY: dict = {}


# ------------------------------------------------------------------ printing

def show(t, depth=6):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth - 1) for x in t) + ")"
        return str(t)
    if depth <= 0:
        return "…"
    d = depth - 1
    op = t.op
    if op == "const":
        return repr(t.args[0]) if t.args[0] is not Ellipsis else "..."
    if op == "sym":
        return t.args[0]
    if op == "poly":
        out = []
        for m, c in t.args[0]:
            s = "*".join(show(a, d) + (f"^{e}" if e != 1 else "") for a, e in m)
            if not s:
                out.append(str(c))
            elif c == 1:
                out.append(s)
            else:
                out.append(f"{c}*{s}")
        return "(" + " + ".join(out) + ")"
    if op == "attr":
        return f"{show(t.args[0], d)}.{t.args[1]}"
    if op == "index":
        return f"{show(t.args[0], d)}[{show(t.args[1], d)}]"
    if op == "cmp":
        return f"({show(t.args[1], d)} {t.args[0]} 0)"
    if op == "obj":
        return f"<{t.args[1].split('.')[-1]}#{t.args[0]}>"
    return f"{op}(" + ", ".join(show(a, d) for a in t.args) + ")"
