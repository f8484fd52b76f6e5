"""Entries of array terms, addressed by symbolic indices.

A dimension is a tuple of sizes and an index along it a tuple of (index, size) components, most significant
first: flattening concatenates components and reshaping regroups them, so an entry of a flattened array is
found again without index arithmetic."""
from . import terms as t
from .terms import mk, const, NONE

ONE = const(1)
N = t.sym("#mapped")
FULL = mk("slice", NONE, NONE, NONE)


class Unclear(Exception):
    pass


POINTWISE = {"poly", "fn", "min", "max", "ite", "cmp", "floordiv", "mod", "inv", "not", "and", "or", "eq", "eq0", "pow", "clip"}


class Elements:
    """`inputs` maps input array terms to their shapes (tuples of dimensions); entries of them are canonical:
    the leading (mapped) index is dropped, so entry (k, 1) of P is index(row(P), 1)."""

    def __init__(self, inputs):
        self.inputs = inputs
        self.shapes = {}

    # ------------------------------------------------------------ shapes
    def shape(self, x):
        if x not in self.shapes:
            self.shapes[x] = self._shape(x)
        return self.shapes[x]

    def _shape(self, x):
        if x in self.inputs:
            return self.inputs[x]
        op = x.op
        if op in ("const", "sym"):
            return ()
        if op == "row":
            return self.shape(x.args[0])[1:]
        if op == "vmap":
            return ((N,),) + self.shape(x.args[0])
        if op == "arange":
            if x.args[2] is not ONE:
                raise Unclear("a range with a step")
            return ((t.sub(x.args[1], x.args[0]),),)
        if op == "bcast":
            s = self.shape(x.args[0])
            if len(s) != 1:
                raise Unclear("spread of several axes")
            return tuple(s[0] if k == x.args[1] else (ONE,) for k in range(x.args[2]))
        if op == "stack":
            s = self.join([self.shape(y) for y in x.args[1]])
            ax = x.args[0] % (len(s) + 1)
            return s[:ax] + ((const(len(x.args[1])),),) + s[ax:]
        if op == "full":
            s = x.args[0]
            if s.op not in ("tuple", "list"):
                return ((s,),)
            return tuple((d,) for d in s.args)
        if op == "T":
            return tuple(reversed(self.shape(x.args[0])))
        if op == "shapeop":
            n, y = x.args[0], x.args[1]
            comps = [q for d in self.shape(y) for q in d]
            if n == "ravel":
                return (tuple(comps),)
            if n == "reshape":
                return self.regroup(comps, x.args[2])
            raise Unclear(n)
        if op == "atop":
            return self.shape(x.args[0])
        if op == "index":
            return self.indexed(x)[0]
        if op in POINTWISE:
            return self.join([self.shape(y) for y in t.children(x)])
        if op == "attr":
            return ()
        raise Unclear(f"shape of {op}")

    @staticmethod
    def unit(d):
        return all(s is ONE for s in d)

    def join(self, ss):
        """Shape of a pointwise combination."""
        n = max((len(s) for s in ss), default=0)
        out = []
        for k in range(n):
            ds = [s[len(s) - n + k] for s in ss if len(s) - n + k >= 0]
            big = [d for d in ds if not self.unit(d)]
            if any(self.trim(b) != self.trim(big[0]) for b in big):
                raise Unclear("different sizes combined")
            out.append(big[0] if big else (ONE,))
        return tuple(out)

    @staticmethod
    def trim(d):
        return tuple(s for s in d if s is not ONE)

    def regroup(self, comps, items):
        """Dimensions of a reshaped array."""
        comps = [q for q in comps if q is not ONE]
        items = list(items)

        def take(cs, its):
            out, cs = [], list(cs)
            for d in its:
                if d.op == "const" and d.args[0] == -1:
                    return out, cs
                got, prod = [], ONE
                while prod is not d:
                    if not cs:
                        raise Unclear("the sizes do not regroup")
                    got.append(cs.pop(0))
                    prod = t.mul(prod, got[-1])
                out.append(tuple(got) or (ONE,))
            return out, cs
        hole = [k for k, d in enumerate(items) if d.op == "const" and d.args[0] == -1]
        head, rest = take(comps, items)
        if not hole:
            if rest:
                raise Unclear("entries are left over")
            return tuple(head)
        if len(hole) > 1:
            raise Unclear("two sizes left open")
        tail, rest = take(list(reversed(rest)), list(reversed(items))[:len(items) - 1 - hole[0]])
        tail = [tuple(reversed(d)) for d in reversed(tail)]
        return tuple(head) + (tuple(reversed(rest)) or (ONE,),) + tuple(tail)

    # ------------------------------------------------------------ entries
    def at(self, x, idx):
        """Entry of x; idx has one tuple of (index, size) per dimension."""
        s = self.shape(x)
        if len(idx) != len(s):
            raise Unclear(f"{len(idx)} indices for {len(s)} axes")
        for d, i in zip(s, idx):
            if self.trim(d) != tuple(z for _, z in i if z is not ONE):
                raise Unclear("an index of another shape")
        op = x.op
        if x in self.inputs:
            if not s:
                return x
            v = mk("row", x)
            for i in idx[1:]:
                v = mk("index", v, self.flat(i))
            return v
        if not s and op in ("const", "sym", "attr"):
            return x
        if op == "row":
            return self.at(x.args[0], [((None, N),)] + list(idx))
        if op == "vmap":
            return self.at(x.args[0], idx[1:])
        if op == "arange":
            return t.add(x.args[0], self.flat(idx[0]))
        if op == "bcast":
            return self.at(x.args[0], [idx[x.args[1]]])
        if op == "stack":
            ax = x.args[0] % len(s)
            k = self.flat(idx[ax])
            if not (k.op == "const" and isinstance(k.args[0], int)):
                raise Unclear("an entry of a stack at an unknown place")
            y = x.args[1][k.args[0]]
            return self.at(y, self.fit(self.shape(y), list(idx[:ax]) + list(idx[ax + 1:])))
        if op == "full":
            return x.args[1]
        if op == "T":
            return self.at(x.args[0], list(reversed(idx)))
        if op == "shapeop":
            comps = [c for i in idx for c in i if c[1] is not ONE]
            out = []
            for d in self.shape(x.args[1]):
                i = []
                for z in d:
                    if z is ONE:
                        continue
                    k, q = comps.pop(0)
                    if q is not z:
                        raise Unclear("the sizes do not regroup")
                    i.append((k, z))
                out.append(tuple(i))
            return self.at(x.args[1], out)
        if op == "index":
            return self.indexed(x, idx)[1]
        if op in POINTWISE:
            def go(y):
                sy = self.shape(y)
                return self.at(y, self.fit(sy, list(idx)))
            return t.rebuild(x, go)
        raise Unclear(f"entry of {op}")

    def fit(self, s, idx):
        """Indices of an operand of a pointwise combination: leading axes and repeated axes dropped."""
        idx = idx[len(idx) - len(s):] if s else []
        return [() if self.unit(d) else i for d, i in zip(s, idx)]

    @staticmethod
    def flat(i):
        v = const(0)
        for k, z in i:
            if z is ONE:
                continue
            if k is None:
                raise Unclear("the number of the mapped entry is used")
            v = t.add(t.mul(v, z), k)
        return v

    def indexed(self, x, idx=None):
        """(shape, entry) of a basic indexing expression."""
        b, k = x.args
        ks = list(k.args) if k.op == "tuple" else [k]
        s = self.shape(b)
        used = sum(1 for q in ks if q is not t.ELL and q is not NONE)
        if t.ELL in ks:
            j = ks.index(t.ELL)
            ks = ks[:j] + [FULL] * (len(s) - used) + ks[j + 1:]
        else:
            ks = ks + [FULL] * (len(s) - used)
        out, src, n, pos = [], [], 0, 0
        idx = None if idx is None else list(idx)
        for q in ks:
            if q is NONE:
                out.append((ONE,))
                pos += 1
                continue
            if n >= len(s):
                raise Unclear("too many indices")
            if q is FULL:
                out.append(s[n])
                if idx is not None:
                    src.append(idx[pos])
                pos += 1
            elif q.op == "const" and isinstance(q.args[0], int) and not isinstance(q.args[0], bool):
                v = q if q.args[0] >= 0 else t.add(q, self.prod(s[n]))
                src.append(((v, self.prod(s[n])),))
            else:
                raise Unclear("an index that is not understood")
            n += 1
        if idx is None:
            return tuple(out), None
        return tuple(out), self.at(b, src)

    @staticmethod
    def prod(d):
        p = ONE
        for z in d:
            p = t.mul(p, z)
        return p
