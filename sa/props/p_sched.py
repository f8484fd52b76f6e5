"""P21-P26: the life of a file scheduler."""
from __future__ import annotations
import itertools
from ..check import prop
from .. import lib
from .. import terms as t
from ..terms import mk, const, NONE
from ..env import Env, npy, hdf5, img, arr
from ..histories import Ref, check, END, FAIL
from .. import histories as H

FULL = mk("slice", NONE, NONE, NONE)
ASSUME = ["files do not change while they are served", "reading a file yields its contents",
          "numpy stacks, pads and slices arrays as documented"]


class Format:
    """How files of one format are named, built and served."""
    name = "hdf5"
    cls = "HDF5FlowFieldScheduler"
    kw = ""
    many = True

    def path(self, i):
        return f"/d/f{i}.h5"

    def build(self, spec):
        """spec: list of number of slices per file, None when unreadable. -> (env files, {path: rows})"""
        files, rows = {}, {}
        for i, n in enumerate(spec):
            p = self.path(i)
            self.add(files, rows, p, i, n)
        return files, rows

    def add(self, files, rows, p, i, n):
        if n is None:
            files[p], rows[p] = None, None
            return
        files[p] = hdf5(p, n)
        a = files[p]["data"]["flow"]
        rows[p] = [(lib.index(a, mk("tuple", FULL, const(k))), None, None) for k in range(n)]

    def ctor(self, paths, **kw):
        a = "".join(f", {k}={v}" for k, v in kw.items())
        return f"{self.cls}({list(paths)!r}{self.kw}{a})"


class Npy(Format):
    name, cls, many = "numpy", "NumpyFlowFieldScheduler", False

    def path(self, i):
        return f"/d/flow_{i + 1}.npy"

    def add(self, files, rows, p, i, n):
        files[p], rows[p] = (None, None) if n is None else (npy(p), [(arr(p, "H", "W", 2), None, None)])


class NpyImages(Npy):
    name, kw = "numpy with images", ", include_images=True"

    def add(self, files, rows, p, i, n):
        Npy.add(self, files, rows, p, i, n)
        for k in (i, i + 1):
            files[f"/d/img_{k}.jpg"] = img(f"/d/img_{k}.jpg")
        if n is not None:
            im = [mk("imconvert", arr(f"/d/img_{k}.jpg", "IH", "IW", 3), "RGB") for k in (i, i + 1)]
            rows[p] = [(arr(p, "H", "W", 2), *im)]


class Mat(Format):
    name, cls, many, kind, kw, images = "matlab", "MATFlowFieldScheduler", False, "mat5", ", output_shape=(8, 6)", False

    def path(self, i):
        return f"/d/m{i}.mat"

    def add(self, files, rows, p, i, n):
        if n is None:
            files[p], rows[p] = None, None
            return
        d = {"V": arr(p + ":V", 8, 6, 2), "I0": arr(p + ":I0", 8, 6), "I1": arr(p + ":I1", 8, 6)}
        files[p] = {"kind": self.kind, "data": d}
        rows[p] = [(d["V"], d["I0"] if self.images else None, d["I1"] if self.images else None)]


class MatImages(Mat):
    name, kw, images, kind = "matlab 7.3 with images", ", output_shape=(8, 6), include_images=True", True, "mat73"


HDF5, NPY, NPYI, MAT, MATI = Format(), Npy(), NpyImages(), Mat(), MatImages()
ALL = [HDF5, NPY, NPYI, MAT, MATI]


def history(c, f, spec, ops, loop=False, order=None, name=None, kw=None, models=None):
    """Analyse one history and compare it with the reference model."""
    files, rows = f.build(spec)
    order = list(range(len(spec))) if order is None else order
    paths = [f.path(i) for i in order]
    ref = Ref([(p, rows[p]) for p in paths], loop)
    want = []
    for op in ops:
        if isinstance(op, int):
            want.append(ref.batch(op))
        elif "reset" in op:
            ref.reset()
    n = name or f"{f.name} slices={[spec[i] if spec[i] is not None else '-' for i in order]}{' loop' if loop else ''} calls={[o if isinstance(o, int) else 'reset' for o in ops]}"
    if order != sorted(set(order)):
        n += f" files={order}"
    extra = dict(kw or {})
    if loop:
        extra["loop"] = True
    return check(c, n, Env(files), f.ctor(paths, **extra), ops, want, models=models)


def specs(f, maxfiles, maxslices):
    for n in range(1, maxfiles + 1):
        yield from itertools.product(range(1, (maxslices if f.many else 1) + 1), repeat=n)


@prop("P21", "for every history of batch requests over a small environment, the interpretation of the scheduler's own source "
      "yields exactly the slices of the files in list order", ASSUME)
def p21(c):
    deep = c.tier == "thorough"
    for f in ALL:
        with c.group("order"):
            for spec in specs(f, 3 if not f.many or deep else 2, 4 if deep else 3):
                tot = sum(spec)
                for b in range(1, min(tot + 1, 5) + 1):
                    history(c, f, spec, [b] * (-(-tot // b)))
    with c.group("varying batch sizes"):
        for ops in ([1, 2, 3], [2, 1, 1, 2], [3, 1, 2], [1, 4, 1]):
            history(c, HDF5, (3, 1, 2), ops)
    with c.group("repeated entries"):
        for order in ([0, 0], [0, 0, 1], [0, 1, 0], [1, 0, 0], [0, 0, 0], [0, 1, 1, 0]):
            for b in (1, 2, 3):
                n = sum((2, 1)[i] for i in order)
                history(c, HDF5, (2, 1), [b] * -(-n // b), order=order)
                history(c, NPY, (1, 1), [b] * -(-len(order) // b), order=order)
                history(c, MAT, (1, 1), [b] * -(-len(order) // b), order=order)


@prop("P22", "for every placement of unreadable files in a small environment, the interpretation of the scheduler's own source "
      "serves exactly the slices of the readable ones and ends", ASSUME + ["a file that cannot be loaded raises when it is opened"])
def p22(c):
    deep = c.tier == "thorough"
    for f in ALL:
        k = 2 if f.many else 1
        with c.group("skipped"):
            for n in (2, 3, 4) if deep else (2, 3):
                for spec in itertools.product((k, None), repeat=n):
                    if all(x is None for x in spec) or None not in spec:
                        continue
                    tot = sum(x or 0 for x in spec)
                    for b in ((1, 2, 3) if n == 2 or deep else (2,)):
                        history(c, f, spec, [b] * -(-tot // b))
                    history(c, f, spec, [2, 2, 1], loop=True)
        with c.group("nothing readable"):
            for n in (1, 2, 3):
                for loop in (False, True):
                    check(c, f"{f.name}: {n} unreadable files{', looping' if loop else ''}", Env(f.build([None] * n)[0]),
                          f.ctor([f.path(i) for i in range(n)], **({"loop": True} if loop else {})), [1, 2], [FAIL, FAIL])
    with c.group("repeated entries"):
        for order in ([0, 1, 1, 2], [1, 1, 0], [0, 1, 0, 1, 2], [1, 0, 0, 1]):
            for f in ALL:
                k = 2 if f.many else 1
                n = sum(k for i in order if i != 1)
                history(c, f, (k, None, k), [1] * n, order=order)
                history(c, f, (k, None, k), [2, 2], order=order, loop=True)
    with c.group("no slices"):
        for spec in ((0, 2), (2, 0), (2, 0, 1), (0, 0, 2), (1, None, 0, 1)):
            history(c, HDF5, spec, [1, 1])
            history(c, HDF5, spec, [2, 1], loop=True)
        check(c, "empty file, looping", Env({"/d/f0.h5": hdf5("/d/f0.h5", 0)}), HDF5.ctor(["/d/f0.h5"], loop=True), [1], [FAIL])
    with c.group("missing parts"):
        e = {"/d/m0.mat": {"kind": "mat5", "data": {"W": arr("w", 8, 6, 2)}},
             "/d/m1.mat": {"kind": "mat5", "data": {"V": arr("v", 8, 6, 2)}},
             "/d/m2.mat": {"kind": "mat73", "data": {"V": arr("u", 8, 6, 2), "I0": arr("a", 8, 6), "I1": arr("b", 8, 6)}}}
        P = sorted(e)
        V, U = e[P[1]]["data"]["V"], e[P[2]]["data"]
        r = Ref([(P[1], [(V, None, None)]), (P[2], [(U["V"], None, None)])])
        check(c, "no flow in a .mat file", Env(e), MAT.ctor(P), [1, 1, 1], [r.batch(1) for _ in range(3)])
        r = Ref([(P[2], [(U["V"], U["I0"], U["I1"])])])
        check(c, "no images in a .mat file", Env(e), MATI.ctor(P), [1, 1], [r.batch(1) for _ in range(2)])


@prop("P23", "for every history of batch requests over a small environment, a looping scheduler continues with the first slice and "
      "any other one raises StopIteration for good", ASSUME)
def p23(c):
    deep = c.tier == "thorough"
    for f in ALL:
        with c.group("end"):
            for spec in specs(f, 3 if deep else 2, 2):
                tot = sum(spec)
                for b in (1, 2, tot):
                    history(c, f, spec, [b] * (-(-tot // b) + 2))
        with c.group("wrap"):
            for spec in specs(f, 3 if deep else 2, 2):
                tot = sum(spec)
                for b in (1, 2, tot, tot + 1):
                    history(c, f, spec, [b] * min(2 * (-(-tot // b)) + 1, 7), loop=True)
    with c.group("many rounds at once"):
        history(c, HDF5, (1, 2), [7, 2], loop=True)
        history(c, NPY, (1,), [4, 3], loop=True)


@prop("P26", "for every history that leaves an incomplete batch, flow fields, images, mask and files of the interpreted batch agree "
      "entry by entry with the reference", ASSUME)
def p26(c):
    deep = c.tier == "thorough"
    for f in ALL:
        with c.group("padding"):
            for spec in specs(f, 3 if deep or not f.many else 2, 3 if deep else 2):
                tot = sum(spec)
                for b in range(2, 6):
                    if tot % b:
                        history(c, f, spec, [b] * -(-tot // b))
        with c.group("full"):
            for spec in specs(f, 2, 1):
                history(c, f, spec, [sum(spec)])
    with c.group("padding after a skipped file"):
        for spec in ((1, None), (None, 1), (1, None, 1)):
            for f in ALL:
                history(c, f, spec, [3])
    with c.group("gray images"):
        e = {f"/d/m{i}.mat": {"kind": "mat5", "data": {"V": arr(f"V{i}", 8, 6, 2), "I0": arr(f"A{i}", 8, 6, 3), "I1": arr(f"B{i}", 8, 6, 3)}} for i in range(2)}
        r = Ref([(p, [(d["data"]["V"], d["data"]["I0"], d["data"]["I1"])]) for p, d in e.items()])
        check(c, "colour images from .mat files", Env(e), MATI.ctor(list(e)), [3], [r.batch(3)])


R = "s.reset()"


@prop("P24", "for every placement of resets in the histories of a small environment, the interpreted scheduler goes on with the first "
      "slice of the first file; for every session of a sampler, the state after a reset is the one after construction", ASSUME)
def p24(c):
    deep = c.tier == "thorough"
    for f in ALL:
        with c.group("scheduler"):
            for spec in specs(f, 3 if deep else 2, 2):
                tot = sum(spec)
                for b in (1, 2):
                    n = -(-tot // b)
                    for at in range(0, n + 1):
                        history(c, f, spec, [b] * at + [R] + [b] * n)
                    history(c, f, spec, [b] * (n + 1) + [R] + [b] * (n + 1))
                    history(c, f, spec, [b, R, R, b, R, b])
                    history(c, f, spec, [b, R, b, b], loop=True)
        with c.group("after unreadable files"):
            history(c, f, (1, None, 1), [1, 1, R, 1, 1])
            history(c, f, (None, 1), [1, 1, R, 1])
    from .p_sampler import resets
    resets(c)


# ------------------------------------------------------------ randomization
PERM = {1: [[0]], 2: [[1, 0], [1, 0], [1, 0]], 3: [[2, 0, 1], [1, 0, 2], [2, 1, 0]], 4: [[3, 1, 0, 2], [1, 3, 2, 0], [2, 3, 0, 1]]}


def rotations(n):
    return [[(n - 1 - k + s) % n for k in range(n)] for s in range(1, min(n, 5) + 1)] or [[]]


def shuffler(calls):
    """jax.random.permutation (or a choice without replacement) with one fixed outcome per call."""
    def seq_of(x):
        if lib._cint(x):
            return [const(k) for k in range(x.args[0])]
        if x.op == "arange" and all(lib._cint(y) for y in x.args[:3]):
            return [const(k) for k in range(*[y.args[0] for y in x.args[:3]])]
        n = H.length(x)
        return None if n is None else [H.entry(x, k) for k in range(n)]

    def draw(key, x, st):
        xs = seq_of(x)
        if xs is None or len(xs) > 40 or key is None:
            return None
        i = sum(1 for e in st.trace if e.kind == "call" and e.callee.op == "ext" and e.callee.args[0] in ("jax.random.permutation", "jax.random.choice"))
        ps = PERM.get(len(xs)) or rotations(len(xs))
        calls.append((i, key, len(xs)))
        return "ret", mk("list", *[xs[k] for k in ps[i % len(ps)]])

    def permutation(a, k, st):
        return draw(a[0] if a else k.get("key"), a[1] if len(a) > 1 else k.get("x"), st)

    def choice(a, k, st):
        rep = a[3] if len(a) > 3 else k.get("replace")
        x = a[1] if len(a) > 1 else k.get("a")
        if rep is not t.FALSE or x is None:
            return None
        shape = a[2] if len(a) > 2 else k.get("shape")
        n = len(seq_of(x) or ())
        s = lib.enumerate_items(shape) if shape is not None and shape.op == "tuple" else None
        if s is None or len(s) != 1 or not t.is_const(s[0], n):
            return None
        return draw(a[0] if a else k.get("key"), x, st)
    return {"jax.random.permutation": permutation, "jax.random.choice": choice, "jax.devices": lambda a, k, st: ("ret", mk("list", t.sym("cpu0")))}


def rounds(c, f, spec, ops, kw, key=True):
    """-> list over paths of (list over rounds of served paths, keys) or a problem"""
    files, rows = f.build(spec)
    paths = [f.path(i) for i in range(len(spec))]
    calls = []
    extra = dict(kw, randomize=True)
    if key:
        extra["key"] = "key"
    I, ex = H.run(c, Env(files), f.ctor(paths, **extra), ops, params=("key",), models=shuffler(calls),
                  oracle=lambda x, st: False if x.op == "isnone" and x.args[0] is t.sym("key") else None)
    out = []
    for e in ex:
        if e.kind == "raise":
            out.append((None if e.st.guards or H.excname(e.val) is None else False, f"raises {t.show(e.val, 3)[:100]}", None, e))
            continue
        served, cur, bad, k = [], [], None, 0
        for op in ops:
            if not isinstance(op, int):
                served.append(cur)
                cur = []
                continue
            r = e.val.args[k]
            k += 1
            if r.args[0].args[0] != "batch":
                cur.append(r.args[0].args[0])
                continue
            for i in range(op):
                p = lib.enumerate_items(r.args[5])
                p = p[i].args[0] if p and i < len(p) and p[i].op == "const" else None
                v = H.entry(r.args[1], i)
                if p is None or v is None:
                    bad = (None, "entry not resolved")
                elif p and not any(v is x[0] for x in rows[p]):
                    bad = (False if H.known(v) else None, f"entry {i} is {t.show(v, 4)[:100]}, labelled {p}")
                elif p:
                    cur.append(p)
        served.append(cur)
        out.append((True, "", served, e) if bad is None else (*bad, None, e))
    return paths, out, calls


def shuffled_keys(e):
    return [(ev.args[0] if ev.args else dict(ev.kwargs).get("key")) for ev in e.st.trace
            if ev.kind == "call" and ev.callee.op == "ext" and ev.callee.args[0] in ("jax.random.permutation", "jax.random.choice")]


@prop("P25", "the interpreted scheduler, with the random permutation of jax replaced by chosen outcomes, serves every file once per "
      "round, its permutations are drawn with keys derived from the given one, a different one for every round; directories expand in sorted order",
      ASSUME + ["jax.random.permutation permutes", "globbing returns the matching files in any order"])
def p25(c):
    for f in ALL:
        k = 2 if f.many else 1
        with c.group(f"{f.name}: permuted"):
            for n in (1, 2, 3, 4):
                ops = [k] * n + [R] + [k] * n + [R] + [k] * n
                paths, res, _ = rounds(c, f, (k,) * n, ops, {})
                judge(c, f"{n} files", paths, res, k, 3)
            for nm, cut in (("at once", [R]), ("after one slice", [1, R]), ("after one file", [k, R]), ("twice", [R, R]),
                            ("after two files, then after one slice", [k, k, R, 1, R])):
                paths, res, _ = rounds(c, f, (k,) * 3, cut + [k] * 3, {})
                judge(c, f"3 files, reset {nm}", paths, res, k, 1 + cut.count(R), whole=cut.count(R))
            paths, res, _ = rounds(c, f, (k,) * 3, [k] * 9, {"loop": True})
            for r in res:
                if r[2]:
                    r[2][:] = [r[2][0][3 * k * i:3 * k * (i + 1)] for i in range(3)]
            judge(c, "3 files, looping", paths, res, k, 3)
            paths, res, _ = rounds(c, f, (k,) * 3, [k] * 3, {}, key=False)
            judge(c, "3 files, no key given", paths, res, k, 1, None)
        with c.group(f"{f.name}: given order"):
            history(c, f, (k,) * 3, [k] * 3, order=[2, 0, 1])
            history(c, f, (k,) * 3, [k] * 3 + [R] + [k] * 3, order=[1, 2, 0])
    with c.group("directories"):
        directories(c)


def judge(c, name, paths, res, k, nr, key=t.sym("key"), whole=0):
    """`whole`: the rounds before this one were cut short."""
    if not res:
        return c.decide(name, None, "no path")
    for v, d, served, e in res:
        if v is not True:
            c.decide(name, v, d, e.loc)
            continue
        v, d = True, ""
        for i, s in enumerate(served):
            if i < whole:
                continue
            if sorted(s) != sorted(p for p in paths for _ in range(k)):
                v, d = False, f"round {i + 1} serves {s}"
                break
            if s != [p for p in s[::k] for _ in range(k)]:
                v, d = False, f"round {i + 1} mixes files: {s}"
                break
        if v and e.st.guards:
            v, d = None, H.why(e)
        c.decide(f"{name}: every file once per round", v, d, e.loc)
        ks = shuffled_keys(e)
        if len(paths) > 1 and v and not whole:
            c.decide(f"{name}: the permutation drawn is the order served", None if not ks else served[0][::k] in orders(paths), f"{served[0]}", e.loc)
        if len(paths) < 2:
            continue
        v, d = True, ""
        if len(ks) < nr:
            v, d = (False if ks or not opaque_random(e) else None), f"{len(ks)} permutations drawn in {nr} rounds"
        elif len(set(ks[:nr])) < nr:
            v, d = False, f"the key {t.show(ks[0], 5)} is used for several rounds"
        elif key is not None and not all(t.contains(x, lambda y: y is key) for x in ks):
            v, d = False, f"a permutation is drawn with {t.show(ks[0], 5)}"
        c.decide(f"{name}: a fresh key derived from the given one for every round", v, d, e.loc)


def orders(paths):
    p = PERM[len(paths)][0]
    inv = [paths[p.index(i)] for i in range(len(p))]
    return [paths[i] for i in p], inv


def opaque_random(e):
    return any(ev.kind in ("call", "draw") and "random" in t.show(ev.callee if ev.kind == "call" else ev.result, 3) for ev in e.st.trace)


def directories(c):
    for f, ext, other in ((HDF5, ".h5", "/d/x.txt"), (NPY, ".npy", "/d/flow_1.txt"), (MAT, ".mat", "/d/a.h5")):
        names = {"HDF5FlowFieldScheduler": ["/d/b.h5", "/d/a.h5", "/d/s/c.h5", "/d/s/t/a.h5", "/e/z.h5"],
                 "NumpyFlowFieldScheduler": ["/d/flow_2.npy", "/d/flow_1.npy", "/d/flow_7.npy", "/d/flow_5.npy", "/e/flow_9.npy"],
                 "MATFlowFieldScheduler": ["/d/b.mat", "/d/a.mat", "/d/s/c.mat", "/d/s/t/a.mat", "/e/z.mat"]}[f.cls]
        files, rows = {other: img(other)}, {}
        for i, p in enumerate(names):
            f.add(files, rows, p, i, 1)
        ind = sorted(p for p in names if p.startswith("/d/"))
        for nm, lst, exp in (("one directory", ["/d"], ind), ("a directory with a trailing slash", ["/d/"], ind),
                             ("a directory and a file", ["/e/" + names[4].rsplit("/", 1)[1], "/d"], [names[4]] + ind),
                             ("two directories", ["/e", "/d"], [names[4]] + ind), ("a file and its directory", [ind[1], "/d"], [ind[1]] + ind)):
            I, ex = H.run(c, Env(files), f.ctor(lst), ["fl = tuple(s.file_list)"])
            v, d = True, ""
            I, ex = H.run(c, Env(files), f.ctor(lst), [1] * len(exp))
            if not ex:
                v = None
            for e in ex:
                if e.kind == "raise":
                    v, d = (None if H.excname(e.val) is None or e.st.guards else False), f"raises {t.show(e.val, 3)[:80]}"
                    break
                got = []
                for r in e.val.args:
                    fs = lib.enumerate_items(r.args[5]) if r.args[0].args[0] == "batch" else None
                    got.append(fs[0].args[0] if fs and fs[0].op == "const" else None)
                if None in got and not any(r.args[0].args[0] == "end" for r in e.val.args):
                    v, d = None, "file names not resolved"
                elif [posix(g) for g in got] != [posix(x) for x in exp]:
                    v, d = None if e.st.guards else False, f"serves {got} instead of {exp}"
            c.decide(f"{f.name}: {nm}", v, d, "")


def posix(p):
    import posixpath
    return posixpath.normpath(p) if p else p


# ------------------------------------------------------------ construction
PRE = H.IMPORTS + """
from synthpix.scheduler.prefetch import PrefetchingFlowFieldScheduler
from synthpix.scheduler.episodic import EpisodicFlowFieldScheduler
"""


@prop("P18", "the constructors are interpreted for every class of arguments (boxes of values, kinds of objects, states of the file "
      "system); valid classes reach the end on every path, invalid ones end in the documented exception on every path",
      ["files do not change during construction"])
def p18(c):
    for f in ALL:
        with c.group(f.name):
            constructor(c, f)
    with c.group("matlab output shape"):
        from ..boxes import num, ints, reals, txt, none, lst, INF
        from .p_valid import posint, neg
        files, _ = MAT.build([1])
        for ok, nm, v in ((True, "positive integers", (posint(), posint())), (False, "a list", [num(8), num(6)]), (False, "one entry", (num(8),)),
                          (False, "three entries", (num(8), num(6), num(2))), (False, "zero height", (num(0), num(6))), (False, "zero width", (num(8), num(0))),
                          (False, "negative height", (neg("int"), num(6))), (False, "negative width", (num(8), neg("int"))),
                          (False, "fractional height", (reals(0.5, 9.5), num(6))), (False, "fractional width", (num(8), reals(0.5, 9.5))),
                          (False, "text", (txt("8"), txt("6"))), (False, "None", none()), (False, "a number", num(8))):
            made(c, ok, f"output_shape: {nm}", Env(files), "MATFlowFieldScheduler(ARGS)", {"file_list": [MAT.path(0)], "output_shape": v})
    with c.group("numpy images"):
        base = {"/d/flow_1.npy": npy("/d/flow_1.npy"), "/d/flow_2.npy": npy("/d/flow_2.npy"), "/d/other.npy": npy("/d/other.npy"),
                "/d/flow_2.npy.npy": npy("x"), "/d/flow_x.npy": npy("x"), "/d/my_flow_1.npy": npy("x"),
                "/d/img_0.jpg": img("a"), "/d/img_1.jpg": img("b"), "/e/flow_3.npy": npy("y"), "/e/img_3.jpg": img("z"), "/e/flow_4.npy": npy("y")}
        for ok, nm, fl, exc in ((True, "both images", ["/d/flow_1.npy"], None), (False, "second image missing", ["/d/flow_2.npy"], "FileNotFoundError"),
                                (False, "first image missing", ["/e/flow_3.npy"], "FileNotFoundError"), (False, "one of two files without images", ["/d/flow_1.npy", "/d/flow_2.npy"], "FileNotFoundError"),
                                (False, "images in another folder", ["/e/flow_4.npy"], "FileNotFoundError"),
                                (False, "another name", ["/d/other.npy"], "ValueError"), (False, "a name that only starts well", ["/d/flow_2.npy.npy"], "ValueError"),
                                (False, "no number", ["/d/flow_x.npy"], "ValueError"), (False, "a name that only ends well", ["/d/my_flow_1.npy"], "ValueError")):
            made(c, ok, nm, Env(base), "NumpyFlowFieldScheduler(ARGS)", {"file_list": fl, "include_images": True}, (exc,))
        made(c, True, "other names without images", Env(base), "NumpyFlowFieldScheduler(ARGS)", {"file_list": ["/d/other.npy", "/d/flow_2.npy"]})
    wrappers(c)


def made(c, ok, name, env, template, args, exc=("ValueError",), oracle=None):
    from ..classes import run, accept, reject

    def orc(x, st):
        r = env.truth(x, st)
        return r if r is not None or oracle is None else oracle(x, st)
    B, ex = run(c, "return " + template, args, pre=PRE, oracle=orc, setup=lambda I: I.models.update({**env.models(), **shuffler([])}))
    return accept(c, name, ex) if ok else reject(c, name, ex, exc)


def constructor(c, f):
    from ..boxes import num, ints, reals, txt, none, lst, array
    from ..classes import Raw
    k = 2 if f.many else 1
    files, _ = f.build([k, k])
    files["/d/readme.txt"] = img("/d/readme.txt")
    files["/x/readme.txt"] = img("/x/readme.txt")
    P = [f.path(0), f.path(1)]
    env = Env(files, dirs=["/empty"])
    kw = {}
    if "output_shape" in f.kw:
        kw["output_shape"] = (num(8), num(6))
    if "include_images" in f.kw:
        kw["include_images"] = True

    def m(ok, nm, args, exc=("ValueError",)):
        made(c, ok, nm, env, f.cls + "(ARGS)", {**kw, **args}, exc)
    m(True, "a file", {"file_list": [P[0]]})
    m(True, "several files, once in a directory", {"file_list": [P[0], "/d", P[1]]})
    m(True, "all flags", {"file_list": P, "randomize": True, "loop": True})
    m(True, "all flags off", {"file_list": P, "randomize": False, "loop": False})
    m(True, "no key", {"file_list": P, "randomize": True, "key": None})
    m(False, "no list", {"file_list": none()})
    m(False, "a text instead of a list", {"file_list": P[0]})
    m(False, "a tuple instead of a list", {"file_list": tuple(P)})
    m(False, "a number", {"file_list": num(3)})
    m(False, "an empty list", {"file_list": []})
    m(False, "an empty directory", {"file_list": ["/empty"]})
    m(False, "a directory without files of this format", {"file_list": ["/x"]})
    m(False, "a number in the list", {"file_list": [P[0], num(3)]})
    m(False, "None in the list", {"file_list": [P[0], None]})
    m(False, "a missing file", {"file_list": [P[0], "/d/nothere" + P[0][P[0].rindex("."):]]}, ("ValueError", "FileNotFoundError"))
    m(False, "a missing directory", {"file_list": ["/nowhere/"]}, ("ValueError", "FileNotFoundError"))
    m(False, "a file of another format", {"file_list": ["/d/readme.txt"]})
    m(False, "a file of another format among others", {"file_list": [P[0], "/d/readme.txt", P[1]]})
    flags = ["randomize", "loop"] + (["include_images"] if f.cls != "HDF5FlowFieldScheduler" else [])
    for g in flags:
        for nm, v in (("a number", num(1)), ("zero", num(0)), ("a text", txt("yes")), ("None", none()), ("a list", [True])):
            m(False, f"{g}: {nm}", {"file_list": P, g: v})


def wrappers(c):
    from ..boxes import num, ints, reals, txt, none, INF, Val
    from .p_valid import posint, neg, pos
    files, _ = HDF5.build([2, 2])
    # episodes want directories of .mat files
    mats, _ = MAT.build([1, 1, 1])
    env = Env({**files, **mats})
    sub = {"Prefetching": f"HDF5FlowFieldScheduler({[HDF5.path(0)]!r})", "Episodic": f"MATFlowFieldScheduler({[MAT.path(i) for i in range(3)]!r}, output_shape=(8, 6))"}
    for w, sizes in (("Prefetching", ["batch_size", "buffer_size"]), ("Episodic", ["batch_size", "episode_length"])):
        with c.group(f"{w} wrapper"):
            from ..classes import Raw
            good = {"scheduler": Raw(sub[w]), "batch_size": num(2)}
            good.update({"buffer_size": num(3)} if w == "Prefetching" else {"episode_length": num(2)})

            def m(ok, nm, args, exc=("ValueError",)):
                made(c, ok, nm, env, f"{w}FlowFieldScheduler(ARGS)", {**good, **args}, exc)
            m(True, "valid", {})
            for s in sizes:
                if w == "Prefetching":
                    m(True, f"{s}: any positive integer", {s: posint()})
                for nm, v in (("zero", num(0)), ("negative", neg("int")), ("fractional", reals(0.5, INF)), ("a text", txt("2")), ("None", none()), ("a list", [num(2)])):
                    m(False, f"{s}: {nm}", {s: v}, ("ValueError", "TypeError"))
            if w == "Prefetching":
                for s in ("startup_timeout", "steady_state_timeout"):
                    m(True, f"{s}: any positive number", {s: pos()})
                    m(True, f"{s}: any positive integer", {s: posint()})
                    for nm, v in (("zero", num(0)), ("zero as a float", num(0.0)), ("negative", neg()), ("a text", txt("2")), ("None", none())):
                        m(False, f"{s}: {nm}", {s: v}, ("ValueError", "TypeError"))
            else:
                for nm, v in (("None", none()), ("a text", txt("x")), ("a number", num(3)), ("a list of files", [HDF5.path(0)])):
                    m(False, f"scheduler: {nm}", {"scheduler": v}, ("TypeError", "ValueError"))
                m(True, "episode_length: as long as the directory", {"episode_length": num(3)})
                m(False, "episode_length: longer than the directory", {"episode_length": num(4)})
            for nm, v in (("larger", ints(3, INF)), ("smaller", ints(-INF, 1)), ("None", none())):
                made(c, False, f"get_batch: {nm} batch size", env,
                     f"{w}FlowFieldScheduler({sub[w]}, batch_size=2{', episode_length=2' if w == 'Episodic' else ''}).get_batch(ARGS)", {"batch_size": v}, ("ValueError",))
