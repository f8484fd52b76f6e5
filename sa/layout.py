"""Where each entry of an array of known size comes from.

An entry is a linear combination of atoms: a stored number (label, position), or one pixel of a resampled
plane.  Two array expressions agree when they have the same shape and the same entries."""
from __future__ import annotations
import itertools
import math
from fractions import Fraction
from . import lib
from . import terms as t

ONE = "1"
LIMIT = 300_000


class Unclear(Exception):
    pass


def strides(shape):
    out, n = [], 1
    for d in reversed(shape):
        out.append(n)
        n *= d
    return out[::-1]


def reorder(shape, cells, axes):
    st = strides(shape)
    new = tuple(shape[a] for a in axes)
    return new, [cells[sum(i * st[a] for i, a in zip(ix, axes))] for ix in itertools.product(*map(range, new))]


def integer(x):
    if isinstance(x, t.T) and lib._cint(x):
        return x.args[0]
    raise Unclear(f"size {x}")


def dims(args):
    a = [x for x in args if isinstance(x, t.T)]
    if len(a) != len(args):
        raise Unclear("keywords")
    if len(a) == 1 and a[0].op in ("tuple", "list"):
        a = list(a[0].args)
    return [integer(x) for x in a]


class Layout:
    def __init__(self):
        self.memo = {}

    def of(self, x):
        """(shape, entries)"""
        if x not in self.memo:
            r = self._of(x)
            if math.prod(r[0]) != len(r[1]):
                raise Unclear("size")
            self.memo[x] = r
        return self.memo[x]

    def _of(self, x):
        if x.op == "arr":
            shape = tuple(integer(d) for d in x.args[1])
            if math.prod(shape) > LIMIT:
                raise Unclear("too large")
            return shape, [(((x.args[0], k), Fraction(1)),) for k in range(math.prod(shape))]
        if t.is_num(x):
            return (), [((ONE, Fraction(x.args[0])),) if x.args[0] else ()]
        if x.op == "T":
            shape, cells = self.of(x.args[0])
            return reorder(shape, cells, range(len(shape))[::-1])
        if x.op == "shapeop":
            return self.shaped(x)
        if x.op == "stack":
            parts = [self.of(y) for y in x.args[1]]
            return self.stacked(parts, x.args[0])
        if x.op == "index":
            shape, pick = self.picked(x.args[0], x.args[1])
            cells = self.of(x.args[0])[1]
            return shape, [cells[k] for k in pick]
        if x.op == "setitem":
            shape, cells = self.of(x.args[0])
            part, pick = self.picked(x.args[0], x.args[1])
            vs = self.spread(self.of(x.args[2]), part)
            cells = list(cells)
            for k, v in zip(pick, vs):
                cells[k] = v
            return shape, cells
        if x.op == "full":
            s = x.args[0]
            shape = tuple(integer(d) for d in s.args) if s.op in ("tuple", "list") else (integer(s),)
            v = self.of(x.args[1])
            return shape, self.spread(v, shape)
        if x.op in ("list", "tuple"):
            return self.stacked([self.of(y) for y in x.args], 0)
        if x.op == "array":
            return self.of(x.args[0])
        if x.op == "imresize":
            return self.resized(x)
        if x.op == "imconvert":
            shape, cells = self.of(x.args[0])
            if x.args[1] == "L" and len(shape) == 2:
                return shape, cells
            raise Unclear("colours")
        if x.op == "poly":
            return self.linear(x)
        raise Unclear(x.op)

    def shaped(self, x):
        how, y, args = x.args[0], x.args[1], x.args[2]
        shape, cells = self.of(y)
        if how == "ravel" and not args:
            return (len(cells),), cells
        if how == "reshape":
            new = dims(args)
            if sum(1 for d in new if d < 0) == 1:
                n = -math.prod(new)
                if n <= 0 or len(cells) % n:
                    raise Unclear("size")
                new = [len(cells) // n if d < 0 else d for d in new]
            return tuple(new), cells
        if how == "transpose":
            p = lib.perm_of(x)
            if p is not None:
                return reorder(shape, cells, p)
        if how == "concatenate":
            ax = 0
            for a in args:
                if isinstance(a, tuple) and a[0] == "axis":
                    ax = integer(a[1])
                elif isinstance(a, t.T):
                    ax = integer(a)
                else:
                    raise Unclear("concatenate")
            its = lib.enumerate_items(y)
            if not its:
                raise Unclear("concatenate")
            parts = [self.of(z) for z in its]
            ax %= len(parts[0][0])
            rest = lambda s: s[:ax] + s[ax + 1:]
            if any(len(s) != len(parts[0][0]) or rest(s) != rest(parts[0][0]) for s, _ in parts):
                raise Unclear("concatenate")
            n = len(parts[0][0])
            front = [ax] + [k for k in range(n) if k != ax]
            moved = [reorder(s, cs, front) for s, cs in parts]
            whole = (sum(s[0] for s, _ in moved),) + moved[0][0][1:]
            return reorder(whole, [v for _, cs in moved for v in cs], [front.index(k) for k in range(n)])
        raise Unclear(how)

    @staticmethod
    def stacked(parts, ax):
        if not parts or any(s != parts[0][0] for s, _ in parts):
            raise Unclear("stack")
        n = len(parts[0][0])
        ax %= n + 1
        whole = (len(parts),) + parts[0][0]
        order = list(range(1, n + 1))
        order.insert(ax, 0)
        return reorder(whole, [v for _, cs in parts for v in cs], order)

    def picked(self, b, key):
        """Shape and positions of a part of an array."""
        shape = self.of(b)[0]
        ks = list(key.args) if key.op == "tuple" else [key]
        n = sum(1 for k in ks if k is not lib.ELL and k is not t.NONE)
        full = t.mk("slice", t.NONE, t.NONE, t.NONE)
        i = ks.index(lib.ELL) if lib.ELL in ks else len(ks)
        ks = ks[:i] + [full] * (len(shape) - n) + ks[i + 1:]
        st, out, axes, d = strides(shape), [], [], 0
        for k in ks:
            if k is t.NONE:
                out.append(1)
                axes.append([0])
                continue
            if d >= len(shape):
                raise Unclear("index")
            if k.op == "slice":
                r = range(shape[d])[slice(*[None if v is t.NONE else integer(v) for v in k.args])]
                out.append(len(r))
                axes.append([i * st[d] for i in r])
            else:
                i = integer(k)
                if not -shape[d] <= i < shape[d]:
                    raise Unclear("index out of range")
                axes.append([i % shape[d] * st[d]])
            d += 1
        return tuple(out), [sum(ix) for ix in itertools.product(*axes)]

    @staticmethod
    def spread(v, shape):
        """Entries of an array broadcast to a shape."""
        s, cells = v
        if s == shape:
            return cells
        s = (1,) * (len(shape) - len(s)) + s
        if len(s) != len(shape) or any(a not in (1, b) for a, b in zip(s, shape)):
            raise Unclear("broadcast")
        st = [0 if a == 1 else w for a, w in zip(s, strides(s))]
        return [cells[sum(i * w for i, w in zip(ix, st))] for ix in itertools.product(*map(range, shape))]

    def resized(self, x):
        shape, cells = self.of(x.args[0])
        W, H = [integer(v) for v in x.args[1].args]
        if len(shape) == 3:
            parts = []
            for k in range(shape[2]):
                parts.append(self.plane(shape[:2], cells[k::shape[2]], W, H))
            return self.stacked(parts, 2)
        if len(shape) != 2:
            raise Unclear("resized")
        return self.plane(shape, cells, W, H)

    @staticmethod
    def plane(shape, cells, W, H):
        """Resampling is linear: factors common to all entries are moved out of it."""
        if (H, W) == shape:
            return shape, cells
        c = cells[0][0][1] if len(cells[0]) == 1 else Fraction(1)
        if any(len(v) != 1 or v[0][1] != c for v in cells):
            c = Fraction(1)
        base = tuple(tuple((a, k / c) for a, k in v) for v in cells)
        return (H, W), [((("resampled", shape, base, k), c),) for k in range(H * W)]

    def linear(self, x):
        shapes, terms = [], []
        for m, c in t.poly_of(x).items():
            if len(m) > 1 or m and m[0][1] != 1:
                raise Unclear("product")
            v = self.of(m[0][0]) if m else ((), [((ONE, Fraction(1)),)])
            shapes.append(v[0])
            terms.append((v, Fraction(c)))
        n = max(map(len, shapes))
        whole = tuple(max(s[k - n + len(s)] if k - n + len(s) >= 0 else 1 for s in shapes) for k in range(n))
        out = [{} for _ in range(math.prod(whole))]
        for v, c in terms:
            for d, cell in zip(out, self.spread(v, whole)):
                for a, k in cell:
                    d[a] = d.get(a, 0) + k * c
        return whole, [tuple(sorted(((a, k) for a, k in d.items() if k), key=repr)) if len(d) > 1 else tuple((a, k) for a, k in d.items() if k) for d in out]


def agree(a, b):
    """True, (False, where) or (None, why)"""
    if a is b:
        return True, ""
    L = Layout()
    try:
        (s1, c1), (s2, c2) = L.of(a), L.of(b)
    except (Unclear, ZeroDivisionError) as e:
        return None, f"not understood: {e}"
    if s1 != s2:
        return False, f"shape {s1} instead of {s2}"
    for k, (x, y) in enumerate(zip(c1, c2)):
        if x != y:
            where = tuple(k // w % d for w, d in zip(strides(s1), s1))
            return False, f"entry {where} is {show(x)} instead of {show(y)}"
    return True, ""


def show(cell):
    f = lambda a: a if isinstance(a, str) else f"{a[0]}[{a[1]}]" if len(a) == 2 else f"resampled {a[2][0][0][0] if a[2] and a[2][0] else ''} pixel {a[3]}"
    return " + ".join((f"{c}*" if c != 1 else "") + f(a) for a, c in cell)[:120] or "0"
