"""Abstract evaluation of terms: parametric regions, intervals, polynomial identities."""
from __future__ import annotations
from fractions import Fraction
from itertools import product
from . import terms as t
from . import lib
from .terms import T, mk, const, NONE, TRUE, FALSE


class Region:
    """A family of inputs written with non-negative parameters.

    `defs` maps input terms to polynomials over parameters; every parameter is
    >= 0, those in `ints` are integers, those in `fracs` lie in the open unit
    interval, those in `strict` are > 0.  Floors, clips and comparisons are
    decided by the signs of coefficients, uniformly for the whole family.
    """

    def __init__(self, defs, ints=(), fracs=(), strict=(), rewrite=None, reals=()):
        self.defs = dict(defs)
        self.ints, self.fracs, self.strict = set(ints), set(fracs), set(strict) | set(fracs)
        self.params = self.ints | self.fracs | set(strict) | set(reals)
        self.rewrite = rewrite
        self.memo = {}

    # ---- evaluation
    def ev(self, x):
        if x in self.memo:
            return self.memo[x]
        r = self.defs.get(x)
        if r is None:
            r = t.rebuild(x, self.ev)
            r = self.reduce(r)
            if self.rewrite is not None:
                r2 = self.rewrite(r)
                if r2 is not None:
                    r = r2
        self.memo[x] = r
        return r

    def reduce(self, x):
        op = x.op
        if op in ("min", "max"):
            items = list(x.args)
            best = items[0]
            rest = []
            for y in items[1:]:
                s = self.sign(t.sub(best, y))
                if s is None:
                    rest.append(y)
                    continue
                if (s > 0) == (op == "min") and s != 0:
                    best = y
            return best if not rest else lib.nary(op, [best] + rest)
        if op == "fn":
            n, y = x.args
            if n in ("floor", "ceil", "toint", "trunc"):
                r = self.rnd(n, y)
                return r if r is not None else x
            if n == "abs":
                s = self.sign(y)
                if s is not None:
                    return y if s >= 0 else t.neg(y)
            return x
        if op == "cmp":
            s = self.sign(x.args[1], strict=True)
            o = x.args[0]
            if s is None:
                return x
            if s in ("neg",):
                return TRUE
            if s == "pos":
                return FALSE
            if s == "zero":
                return TRUE if o == "<=" else FALSE
            if s == "nonpos" and o == "<=":
                return TRUE
            if s == "nonneg" and o == "<":
                return FALSE
            return x
        if op == "eq0":
            s = self.sign(x.args[0], strict=True)
            if s in ("neg", "pos"):
                return FALSE
            if s == "zero":
                return TRUE
            return x
        if op == "eq":
            s = self.sign(t.sub(x.args[0], x.args[1]), strict=True) if not any(t.is_seq(a) for a in x.args) else None
            if s in ("neg", "pos"):
                return FALSE
            if s == "zero":
                return TRUE
            return x
        if op in ("floordiv", "mod"):
            a, b = x.args
            if self.sign(a) in (0, 1) and self.sign(t.sub(b, a), strict=True) == "pos":
                return const(0) if op == "floordiv" else a
        return x

    def sign(self, p, strict=False):
        """-1/0/1 (non-strict) or 'neg','nonpos','zero','nonneg','pos'; None if unknown."""
        d = t.poly_of(p)
        if d is None:
            return None
        if not d:
            return "zero" if strict else 0
        for m in d:
            for a, e in m:
                if a not in self.params:
                    return None
                if e < 0 and a not in self.strict:
                    return None
                if a in self.fracs and e not in (0, 1):
                    return None
        fr = sorted({a for m in d for a, _ in m if a in self.fracs})
        if len(fr) > 8:
            return None
        allpos, allneg, somepos, someneg = True, True, False, False
        for corner in product((0, 1), repeat=len(fr)):
            val = dict(zip(fr, corner))
            q = {}
            for m, c in d.items():
                k = tuple((a, e) for a, e in m if a not in self.fracs)
                f = 1
                for a, e in m:
                    if a in self.fracs:
                        f *= val[a] ** e
                q[k] = q.get(k, 0) + c * f
            q = {m: c for m, c in q.items() if c}
            if any(c < 0 for c in q.values()):
                allpos = False
            if any(c > 0 for c in q.values()):
                allneg = False
            # strictly positive: a monomial of strict parameters (or a constant)
            if any(c > 0 and all(a in self.strict for a, _ in m) for m, c in q.items()):
                somepos = True
            if any(c < 0 and all(a in self.strict for a, _ in m) for m, c in q.items()):
                someneg = True
        if allpos:
            return ("pos" if somepos else "nonneg") if strict else 1
        if allneg:
            return ("neg" if someneg else "nonpos") if strict else -1
        return None

    def integral(self, m):
        return all(a in self.ints and e > 0 for a, e in m)

    def rnd(self, name, y):
        d = t.poly_of(y)
        if d is None:
            return None
        ip, fp = {}, {}
        for m, c in d.items():
            k = Fraction(c.numerator // c.denominator) if self.integral(m) else Fraction(0)
            if m == () or self.integral(m):
                if k:
                    ip[m] = k
                if c - k:
                    fp[m] = c - k
            else:
                fp[m] = c
        if any(m == () or self.integral(m) for m in fp if m != ()):
            return None
        base = t.from_poly(ip)
        rem = t.from_poly(fp)
        if rem is const(0):
            return base
        if name in ("toint", "trunc"):
            s = self.sign(y)
            if s is None:
                return None
            name = "floor" if s >= 0 else "ceil"
        for k in (-2, -1, 0, 1, 2):
            # k <= rem < k+1
            lo = self.sign(t.sub(rem, const(k)), strict=True)
            hi = self.sign(t.sub(const(k + 1), rem), strict=True)
            if name == "floor" and lo in ("pos", "nonneg", "zero") and hi == "pos":
                return t.add(base, const(k))
            if name == "ceil" and lo == "pos" and hi in ("pos", "nonneg", "zero"):
                return t.add(base, const(k + 1))
        return None


# ops that may remain in a fully evaluated polynomial
def leaves(x):
    d = t.poly_of(x)
    if d is None:
        return [x]
    return [a for m in d for a, _ in m]


def same(a, b, leaf_ok):
    """Equality of two polynomial terms: True / False / None (not understood)."""
    d = t.sub(a, b)
    if d is const(0) or a is b:
        return True
    if t.is_num(d) and abs(d.args[0]) < 1e-12:
        return True
    for x in leaves(a) + leaves(b):
        if not leaf_ok(x):
            return None
    return False


# ------------------------------------------------------------------ intervals
INF = float("inf")


class Interval:
    """Numeric interval evaluation; `env(term)` gives (lo, hi) or None."""

    def __init__(self, env, integral=None):
        self.env = env
        self.memo = {}

    def ev(self, x):
        if x in self.memo:
            return self.memo[x]
        self.memo[x] = (-INF, INF)
        r = self.env(x)
        if r is None:
            r = self._ev(x)
        self.memo[x] = r
        return r

    def _ev(self, x):
        op = x.op
        if op == "const":
            v = x.args[0]
            if isinstance(v, (bool, int, float)):
                return (float(v), float(v)) if abs(v) != INF else (v, v)
            return (-INF, INF)
        if op == "poly":
            return self.poly(x)
        if op in ("min", "max"):
            rs = [self.ev(y) for y in x.args]
            f = min if op == "min" else max
            return (f(r[0] for r in rs), f(r[1] for r in rs))
        if op == "ite":
            v = self.truth(x.args[0])
            if v is not None:
                return self.ev(x.args[1] if v else x.args[2])
            rs = [self.ev(y) for y in x.args[1:]]
            return (min(r[0] for r in rs), max(r[1] for r in rs))
        if op == "fn":
            lo, hi = self.ev(x.args[1])
            import math
            n = x.args[0]
            if n in ("floor", "ceil", "round", "toint", "trunc"):
                g = {"floor": math.floor, "ceil": math.ceil, "round": round, "toint": int, "trunc": int}[n]
                return (g(lo) if abs(lo) != INF else lo, g(hi) if abs(hi) != INF else hi)
            if n == "abs":
                if lo >= 0:
                    return (lo, hi)
                if hi <= 0:
                    return (-hi, -lo)
                return (0.0, max(-lo, hi))
            if n == "sqrt":
                return (math.sqrt(lo) if 0 <= lo < INF else 0.0, math.sqrt(hi) if 0 <= hi < INF else INF)
            if n == "exp":
                return (math.exp(lo) if abs(lo) < 700 else 0.0, math.exp(hi) if abs(hi) < 700 else INF)
            return (-INF, INF)
        if op == "inv":
            lo, hi = self.ev(x.args[0])
            return self.inv(lo, hi)
        if op == "full":
            return self.ev(x.args[1]) if len(x.args) > 1 and isinstance(x.args[1], T) else (-INF, INF)
        if op in ("row", "vmap", "bcast", "T", "unrow"):
            return self.ev(x.args[0]) if isinstance(x.args[0], T) else (-INF, INF)
        if op == "shapeop" and x.args[0] in ("reshape", "tile", "squeeze", "expand_dims", "ravel", "transpose", "broadcast_to"):
            return self.ev(x.args[1])
        if op == "index":
            return self.ev(x.args[0])
        if op == "arange":
            a, b, s = (self.ev(z) for z in x.args[:3])
            if s == (1.0, 1.0) and abs(a[0]) != INF:
                return (a[0], b[1] - 1 if all(z.op == "const" and isinstance(z.args[0], int) for z in (x.args[0], x.args[2])) else b[1])
            return (-INF, INF)
        if op == "stack":
            rs = [self.ev(y) for y in x.args[1]]
            return (min(r[0] for r in rs), max(r[1] for r in rs))
        if op in ("cmp", "and", "or", "not", "eq", "eq0", "isnone", "in"):
            v = self.truth(x)
            return (0.0, 1.0) if v is None else (float(v), float(v))
        if op == "mod":
            a, b = self.ev(x.args[0]), self.ev(x.args[1])
            if a[0] == a[1] and b[0] == b[1] and abs(a[0]) != INF and abs(b[0]) != INF and b[0]:
                return (a[0] % b[0],) * 2
            if b[0] > 0:
                return (0.0, b[1])
            return (-INF, INF)
        if op == "floordiv":
            import math
            i = self.inv(*self.ev(x.args[1]))
            lo, hi = self.mul(self.ev(x.args[0]), i)
            a, b = self.ev(x.args[0]), self.ev(x.args[1])
            if a[0] == a[1] and b[0] == b[1] and abs(a[0]) != INF and abs(b[0]) != INF and b[0]:
                return (float(a[0] // b[0]),) * 2
            return (math.floor(lo) if abs(lo) != INF else lo, math.floor(hi) if abs(hi) != INF else hi)
        return (-INF, INF)

    def truth(self, c):
        """Truth of a condition for every value in the box, or None."""
        op = c.op
        if op == "const":
            return bool(c.args[0])
        if op == "cmp":
            lo, hi = self.ev(c.args[1])
            if c.args[0] == "<":
                return True if hi < 0 else False if lo >= 0 else None
            return True if hi <= 0 else False if lo > 0 else None
        if op in ("eq0", "eq"):
            if op == "eq":
                (a, b), (d, e) = self.ev(c.args[0]), self.ev(c.args[1])
                lo, hi = (a - e, b - d) if INF not in (abs(a), abs(b), abs(d), abs(e)) else (-INF, INF)
            else:
                lo, hi = self.ev(c.args[0])
            return True if lo == hi == 0 else False if lo > 0 or hi < 0 else None
        if op == "not":
            v = self.truth(c.args[0])
            return None if v is None else not v
        if op in ("and", "or"):
            vs = [self.truth(a) for a in c.args]
            z = op == "or"
            if z in vs:
                return z
            return None if None in vs else not z
        lo, hi = self.env(c) or (-INF, INF)
        return None if lo != hi else bool(lo)

    @staticmethod
    def inv(lo, hi):
        if lo > 0 or hi < 0:
            a = 1 / hi if hi not in (INF, -INF) else 0.0
            b = 1 / lo if lo not in (INF, -INF) else 0.0
            return (min(a, b), max(a, b))
        if lo == 0 and hi > 0:
            return (1 / hi if hi != INF else 0.0, INF)
        return (-INF, INF)

    @staticmethod
    def mul(a, b):
        ps = []
        for x in a:
            for y in b:
                ps.append(0.0 if x == 0 or y == 0 else x * y)
        return (min(ps), max(ps))

    def poly(self, x):
        lo = hi = 0.0
        for m, c in x.args[0]:
            r = (1.0, 1.0)
            for a, e in m:
                b = self.ev(a)
                if e < 0:
                    b = self.inv(*b)
                    e = -e
                if e % 2 == 0 and b[0] < 0:
                    z = max(abs(b[0]), abs(b[1]))
                    b = (0.0 if b[0] <= 0 <= b[1] else min(abs(b[0]), abs(b[1])), z)
                for _ in range(e):
                    r = self.mul(r, b)
            r = self.mul(r, (float(c), float(c)))
            lo += r[0]
            hi += r[1]
        if lo != lo:
            lo = -INF
        if hi != hi:
            hi = INF
        return (lo, hi)


# ------------------------------------------------------------------ proof over families, refutation over members

_PATTERNS = None


def specialisations(ints):
    """A few members of a family: distinct sizes and offsets per axis, corners included."""
    ints = sorted(ints, key=lambda a: a.args[0])
    n = len(ints)
    yield {a: const(0) for a in ints}
    for base, step in ((3, 4), (1, 7), (12, 5)):
        yield {a: const(base + step * k) for k, a in enumerate(ints)}
        yield {a: const(base + step * (n - k)) for k, a in enumerate(ints)}
    for z in range(n):
        yield {a: const(0 if k == z else 6 + 3 * k) for k, a in enumerate(ints)}


def specialise(R, assign):
    f = lambda x: assign.get(x)
    defs = {k: t.subst(v, f) for k, v in R.defs.items()}
    return Region(defs, R.ints - set(assign), R.fracs, R.strict - R.fracs, R.rewrite, R.params - R.ints - R.fracs - R.strict)


def family(R, got, exp, leaf_ok):
    """(verdict, got value, expected value): proved for the family, or refuted on the family or a member of it.

    `got` is an unevaluated term; `exp` a term over the parameters; leaf_ok(R) gives the leaf predicate."""
    g = R.ev(got)
    v = same(g, exp, leaf_ok(R))
    if v is not None:
        return v, g, exp
    for assign in specialisations(R.ints):
        Rs = specialise(R, assign)
        gs = Rs.ev(got)
        es = t.subst(exp, lambda x: assign.get(x))
        if same(gs, es, leaf_ok(Rs)) is False:
            return False, gs, es
    return None, g, exp


# ------------------------------------------------------------------ equality of numeric terms

def differs(a, b, leaf_ok, env=None, rounds=8):
    """True if on some box of inputs the interval enclosures of a and b are disjoint (so they differ there)."""
    names = {}

    def key(x):
        return t.show(x, 30)
    for k in range(rounds):
        vals = {}

        def e(x):
            if env is not None:
                r = env(x, k)
                if r is not None:
                    return r
            if leaf_ok(x):
                if x not in vals:
                    h = 0
                    for ch in key(x):
                        h = (h * 131 + ord(ch)) % 1000003
                    v = float(2 + (h * (2 * k + 3) + 17 * k) % 41)
                    vals[x] = (v, v)
                return vals[x]
            return None
        I = Interval(e)
        (l1, h1), (l2, h2) = I.ev(a), I.ev(b)
        if INF in (abs(l1), abs(h1), abs(l2), abs(h2)):
            continue
        tol = 1e-9 * (1 + abs(l1) + abs(h1) + abs(l2) + abs(h2))
        if l1 > h2 + tol or l2 > h1 + tol:
            return True
    return False


def equal(a, b, leaf_ok, env=None):
    """True: the same polynomial; False: different on a box of inputs; None: not decided."""
    if a is b:
        return True
    if not isinstance(a, T) or not isinstance(b, T):
        return None
    d = t.sub(a, b) if t.poly_of(a) is not None and t.poly_of(b) is not None else None
    if d is const(0) or d is not None and t.is_num(d) and abs(d.args[0]) < 1e-12:
        return True
    return False if differs(a, b, leaf_ok, env) else None


def source_leaf(x):
    """A quantity supplied by the caller: symbol, attribute or element of one."""
    if x.op == "sym":
        return True
    if x.op == "attr":
        return source_leaf(x.args[0])
    if x.op == "index":
        k = x.args[1]
        ks = k.args if k.op == "tuple" else (k,)
        return source_leaf(x.args[0]) and all(z is t.ELL or z.op == "const" for z in ks)
    if x.op == "row":
        return source_leaf(x.args[0])
    return False
