"""Classes of arguments: a documented domain is cut into boxes; every box is
sent through the abstract interpreter, whose branches are decided by `Boxes`.

  accept(...)   no path of the box raises
  reject(...)   every path of the box raises one of the given exceptions

A path counts against the source only if no undecided condition lies on it."""
from __future__ import annotations
from . import terms as t
from .terms import sym, T
from .boxes import Boxes, Val, INF


class Raw(str):
    """Source text."""


class Obj:
    """An instance of a repository class with these field values."""

    def __init__(self, anchor, **fields):
        self.anchor, self.fields = anchor, fields


class Build:
    def __init__(self, prog):
        self.prog, self.val, self.types, self.params, self.n = prog, {}, {}, [], 0

    def fresh(self, v=None, typ=None):
        n = f"a{self.n}"
        self.n += 1
        self.params.append(n)
        s = sym(n)
        if v is not None:
            self.val[s] = v
        if typ is not None:
            self.types[s] = typ
        return n

    def src(self, v):
        if isinstance(v, Raw):
            return str(v)
        if isinstance(v, Val):
            return self.fresh(v)
        if isinstance(v, Obj):
            n = self.fresh(typ=self.prog.get(v.anchor))
            for k, x in v.fields.items():
                self.val[t.mk("attr", sym(n), k)] = x
            self.val[sym(n)] = Val(v.anchor.rsplit(":", 1)[-1], ob=dict(v.fields))
            return n
        if isinstance(v, tuple):
            return "(" + "".join(self.src(x) + ", " for x in v) + ")"
        if isinstance(v, list):
            return "[" + ", ".join(self.src(x) for x in v) + "]"
        if isinstance(v, dict):
            return "{" + ", ".join(f"{k!r}: {self.src(x)}" for k, x in v.items()) + "}"
        return repr(v)


def run(c, template, args, extra=None, opaque=(), pre="", oracle=None, setup=None):
    """Analyse `template % 'name=value, ...'` for this class. -> (Boxes, exits)"""
    b = Build(c.prog)
    txt = ", ".join(f"{k}={b.src(v)}" for k, v in args.items())
    B = Boxes(b.val, extra)

    def orc(x, st):
        if oracle is not None:
            r = oracle(x, st)
            if r is not None:
                return r
        return B.truth(x)
    src = pre + f"\ndef drive({', '.join(b.params)}):\n" + "".join(f"    {l}\n" for l in (template.replace("ARGS", txt)).splitlines())
    I, ex = c.client(src, opaque=list(opaque), oracle=orc, types=b.types, setup=setup)
    for e in ex:
        e.B = B
    return B, ex


def excname(v):
    return v.args[0].rsplit(".", 1)[-1] if v.op == "excobj" else None


def sure(e):
    """Is this path taken for every value of the class, or for one of its corners?"""
    if any(x.kind == "loop-iter" for x in e.st.trace):
        return False        # from within a loop whose number of iterations is not known
    if not e.st.guards:
        return True
    B = getattr(e, "B", None)
    if B is None:
        return False
    for i in range(40):
        n = [i]
        P = type(B)({k: point(v, n) for k, v in B.val.items()}, B.extra)
        if all(P.truth(g) is p for g, p, _ in e.st.guards):
            return True
    return False


def point(v, n):
    """A corner of the box; `n` is a counter that selects the corners one after the other."""
    if v.items is not None:
        return Val(v.kind, items=[point(x, n) for x in v.items])
    if v.ob is not None:
        return Val(v.kind, ob={k: point(x, n) if isinstance(x, Val) else x for k, x in v.ob.items()})
    if v.lo is None or v.lo == v.hi:
        return v
    n[0] = (n[0] * 1103515245 + 12345) % (1 << 31)
    lo, hi = v.lo, v.hi
    if lo == -INF:
        lo = min(hi, 0.0) - 64.0
    if hi == INF:
        hi = max(lo, 0.0) + 64.0
    xs = [lo, hi, lo + 1 if lo + 1 <= hi else hi, hi - 1 if hi - 1 >= lo else lo]
    if v.kind == "float":
        xs.append((lo + hi) / 2)
    x = xs[(n[0] >> 9) % len(xs)]
    return Val(v.kind, x, x)


def understood(v):
    """Not the result of something the analysis did not look into."""
    return not t.contains(v, lambda y: y.op == "call" and not y.args[0] in ("len", "str", "int") or y.op in ("dictmap", "mutated"))


def why(e):
    return "; ".join(("" if p else "not ") + t.show(g, 4)[:120] for g, p, _ in e.st.guards[:3])


def leaves(exits, rec):
    """Does an iteration of this loop raise?"""
    return any(e.kind == "raise" and any(x.kind == "loop-iter" and x.extra is rec for x in e.st.trace) for e in exits)


def accept(c, name, exits, where="", check=None):
    """No exit raises."""
    rs = [e for e in exits if e.kind == "raise"]
    rets = [e for e in exits if e.kind == "return"]
    for e in rs:
        if sure(e):
            return c.decide(name, False, f"raises {t.show(e.val, 3)[:120]}", e.loc)
    if rs or not rets:
        return c.decide(name, None, why(rs[0]) if rs else "no path", where)
    return c.decide(name, True, "", where)


def reject(c, name, exits, exc=("ValueError",), where=""):
    """Every exit raises one of these."""
    v, det, loc = True, "", where
    if not exits:
        v = None
    for e in exits:
        if e.kind == "return":
            if sure(e) and understood(e.val) and not any(x.kind == "loop" and leaves(exits, x.extra) for x in e.st.trace):
                return c.decide(name, False, "accepted", where or e.loc)
            v, det = None, why(e)
        elif excname(e.val) not in exc:
            if sure(e) and excname(e.val) is not None:
                return c.decide(name, False, f"raises {excname(e.val)} instead of {' or '.join(exc)}", e.loc)
            v, det = None, f"raises {t.show(e.val, 3)[:80]}"
        else:
            loc = e.loc
    return c.decide(name, v, det, loc)
