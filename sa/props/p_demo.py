"""P41: the demo pipeline (src/main.py)."""
from __future__ import annotations
import re
from .. import lib
from .. import terms as t
from .. import histories as H
from ..check import prop
from ..env import arr
from ..query import callee_name
from ..terms import mk, const, T, NONE

CLIENT = '''
import main as demo
import probe


class Batch:
    def __init__(self, i, n):
        self.images1 = probe.array("first", i, n)
        self.images2 = probe.array("second", i, n)
        self.flow_fields = probe.array("flow", i, n)
        self.params = None
        self.done = None
        self.mask = None
        self.files = None


class Sampler:
    def __init__(self, n, size, broken, error):
        self.n, self.size, self.broken, self.error, self.i, self.down = n, size, broken, error, 0, 0
        self.batch_size = size

    def __iter__(self):
        return self

    def __next__(self):
        if self.broken is not None and self.i >= self.broken:
            raise self.error
        if self.i >= self.n:
            raise StopIteration
        self.i += 1
        return Batch(self.i - 1, self.size)

    def reset(self, scheduler_reset=True):
        self.i = 0

    def shutdown(self):
        self.down += 1


def drive():
    s = Sampler(%s)
    demo.synthpix.make = lambda *a, **k: s
    try:
        demo.main("cfg.yaml", "out", %d)
        r = "returned"
    except BaseException as e:
        r = e
    return r, s.down, s.i
'''


def array(a, k, st):
    nm, i, n = (x.args[0] for x in a)
    return "ret", arr(f"{nm} {i}", *{"flow": (n, 64, 48, 2)}.get(nm, (n, 64, 48)))


def run(c, n, size, show, answers=("y",), broken=None, error="ValueError('broken')", faults=None):
    """faults: name of an external function -> (how many calls succeed, exception)"""
    def asked(a, k, st):
        i = sum(1 for e in st.trace if e.kind == "call" and e.callee.op == "builtin" and e.callee.args[0] == "input")
        x = answers[min(i, len(answers) - 1)]
        return ("raise", x[1:]) if x.startswith("!") else ("ret", const(x))

    def faulty(name, after, exc):
        def m(a, k, st):
            i = sum(1 for e in st.trace if e.kind == "call" and e.callee.op == "ext" and e.callee.args[0] == name)
            return ("raise", exc) if i >= after else None
        return m

    def setup(I):
        I.models.update({"probe.array": array, "input": asked})
        for f, (after, exc) in (faults or {}).items():
            I.models[f] = faulty(f, after, exc)
    return c.client(CLIENT % (f"{n}, {size}, {broken}, {error}", show), setup=setup)[1]


def faults_of(cond):
    """The calls of which this condition says that they raise, or None when it says something else."""
    if cond.op == "raises":
        return [cond.args[0]]
    if cond.op in ("and", "or", "not"):
        xs = [faults_of(a) for a in cond.args]
        return None if any(x is None for x in xs) else [y for x in xs for y in x]
    return None


def exempt(x):
    n = callee_name(x.args[0]) if x.op == "ret" else ""
    return n.startswith("goggles") or n.startswith("probe") or n.startswith("os.path")


def ends(c, name, ex, sure=True):
    """The sampler is shut down on every path."""
    verdict, detail, where = True, "", ""
    n = 0
    for e in ex:
        if e.kind != "return" or e.val.op != "tuple" or len(e.val.args) != 3:
            v, d = None, f"not understood: {t.show(e.val, 3)[:80]}"
        else:
            r, down, i = e.val.args
            fs = [faults_of(g) if pol else [] for g, pol, _ in e.st.guards]
            if any(f is not None and any(exempt(x) for x in f) for f in fs):
                continue
            n += 1
            if not lib._cint(down):
                v, d = None, f"number of shutdowns is {t.show(down, 3)[:80]}"
            elif down.args[0] >= 1:
                v, d = True, ""
            else:
                calls = [t.show(x.args[0], 3)[:60] for f in fs if f for x in f][:2]
                v, d = (False if all(f is not None for f in fs) else None), "no shutdown" + (f" when {' and '.join(calls)} fails" if calls else f" when the run ends with {t.show(r, 2)[:60]}")
        if v is not True and (verdict is True or v is False):
            verdict, detail, where = v, d, e.loc
    c.decide(name, verdict if n or verdict is not True else None, detail or f"{n} paths", where)


def picked(x):
    """(what, batch, sample, rest of the index) of a value taken from one of the probe arrays, or None."""
    idx = []
    y = x
    while y.op == "index":
        ks = y.args[1].args if y.args[1].op == "tuple" else (y.args[1],)
        idx.insert(0, ks)
        y = y.args[0]
    while y.op in ("call", "fn") and isinstance(y.args[-1], T):
        y = y.args[-1]
    if y.op != "arr" or not idx or not isinstance(y.args[0], str) or " " not in y.args[0]:
        return None
    j = idx[0][0]
    if not lib._cint(j):
        return None
    what, i = y.args[0].rsplit(" ", 1)
    rest = [z for k, ks in enumerate(idx) for z in (ks[1:] if k == 0 else ks)]
    return what, int(i), j.args[0], rest


def root(x):
    while isinstance(x, T) and x.op in ("index", "attr", "method"):
        x = x.args[0]
    return x


def pictures(e):
    """[(path, what is shown, location)]; what: (kind, batch, sample), or text when it is wrong, or None when unknown"""
    out, quivers = [], []
    for ev in e.st.trace:
        if ev.kind != "call":
            continue
        n = callee_name(ev.callee) if ev.callee.op == "ext" else ev.callee.args[1] if ev.callee.op in ("attr", "method") else ""
        n = n.rsplit(".", 1)[-1]
        kw = dict(ev.kwargs) if not isinstance(ev.kwargs, dict) else ev.kwargs
        a = list(ev.args)
        if n in ("imsave", "imwrite"):
            path, img = (a + [None, None])[:2]
            path, img = kw.get("fname", path), kw.get("arr", img)
            p = picked(img) if img is not None else None
            out.append((path, None if p is None or any(z.op != "slice" and z is not t.ELL for z in p[3]) else p[:3], ev.loc))
        elif n == "quiver":
            quivers.append((root(ev.callee), ev, a))
        elif n == "savefig":
            r = root(ev.callee)
            mine = [q for q in quivers if q[0] is r] or quivers
            quivers = [q for q in quivers if q not in mine]
            path = kw.get("fname", a[0] if a else None)
            out.append((path, arrows(mine[-1][2]) if mine else None, ev.loc))
    return out


def arrows(a):
    a = [x for x in a]
    if len(a) < 4:
        return None
    u, v = picked(a[2]), picked(a[3])
    if u is None or v is None:
        return None
    if u[:3] != v[:3]:
        return f"x component of {u[:3]} with y component of {v[:3]}"
    ch = [p[3][-1] if p[3] and lib._cint(p[3][-1]) else None for p in (u, v)]
    if None in ch:
        return None
    if [k.args[0] % 2 for k in ch] != [0, 1]:
        return f"components {[k.args[0] for k in ch]} of the flow as x and y"
    grid = [mesh(x) for x in a[:2]]
    if None not in grid and grid != [1, 0]:
        return "arrows at transposed positions"
    return u[:3]


def mesh(x):
    y, k = x, None
    while y.op == "index":
        k = y.args[1]
        if y.args[0].op == "index" and t.contains(y.args[0].args[0], lambda z: z.op == "ext" and z.args[0] == "np.mgrid") and y.args[0].args[0].op == "ext" and lib._cint(k):
            return k.args[0] % 2
        y = y.args[0]
    return None


KINDS = {"first": "image1", "second": "image2", "flow": "quiver"}


def labels(c, name, ex):
    es = [e for e in ex if not e.st.guards]
    if len(es) != 1 or es[0].kind != "return":
        return c.decide(name, None, f"{len(es)} paths")
    e = es[0]
    pics = pictures(e)
    if not pics:
        return c.decide(name, None, "no picture found")
    seen, groups = {}, {}
    for path, what, loc in pics:
        if path is None or path.op != "const":
            c.decide(f"{name}: file name", None, t.show(path, 3)[:80] if path is not None else "", loc)
            continue
        p = path.args[0]
        if p in seen:
            c.decide(f"{name}: {p} is written once", False, f"also written at {seen[p]}", loc)
            continue
        seen[p] = loc
        if what is None:
            c.decide(f"{name}: {p}", None, "contents not understood", loc)
            continue
        if isinstance(what, str):
            c.decide(f"{name}: {p}", False, what, loc)
            continue
        kind, i, j = what
        stem = re.sub("image1|image2|quiver", "*", p)
        other = [k for w, k in KINDS.items() if w != kind and k in p.rsplit("/", 1)[-1]]
        if other:
            c.decide(f"{name}: {p}", False, f"shows the {kind} {'image' if kind != 'flow' else 'field'}", loc)
            continue
        if groups.setdefault(stem, (i, j)) != (i, j):
            c.decide(f"{name}: {p}", False, f"shows sample {j} of batch {i}, other pictures of this name sample {groups[stem][1]} of batch {groups[stem][0]}", loc)
            continue
        nums = [int(x) for x in re.findall(r"\d+", p.rsplit("/", 1)[-1])]
        c.decide(f"{name}: {p}", True if i in nums and j in nums else None, f"{kind} of sample {j} of batch {i}", loc)
    c.decide(f"{name}: names of samples", len(set(groups.values())) == len(groups) or None, f"{len(groups)} samples", e.loc)


@prop("P41", "the demo's main is interpreted with a scripted sampler: every external call inside the loop may fail, the sampler may fail or end at any batch, "
             "the user may stop or interrupt - on every path the sampler has been shut down; the recorded saving calls name distinct files and show the images "
             "and the flow (x component, y component) of one and the same sample",
      ["matplotlib draws what it is given", "logging, print and os.path functions do not fail"])
def p41(c):
    deep = c.tier == "thorough"
    with c.group("shut down"):
        ends(c, "nothing to show", run(c, 0, 1, 1))
        ends(c, "any call fails", run(c, 1, 1, 1))
        ends(c, "any call fails, two samples", run(c, 1, 2, 2))
        if deep:
            ends(c, "any call fails, two batches", run(c, 2, 2, 2))
        for show in (0, 1):
            for k in (0, 1, 2):
                for err in ("ValueError('x')", "RuntimeError('x')", "KeyboardInterrupt()", "OSError('x')", "GeneratorExit()", "SystemExit(1)"):
                    ends(c, f"{err.split('(')[0]} at batch {k}, {show} shown", run(c, 3, 1, show, broken=k, error=err))
        for a in ("n", "", "no", "!KeyboardInterrupt", "!EOFError"):
            for at in (0, 1):
                ends(c, f"answer {a!r} after batch {at}", run(c, 4, 1, 1, answers=("y",) * at + (a,)))
        for f in ("matplotlib.pyplot.imsave", "os.makedirs", "matplotlib.pyplot.subplots"):
            for exc in ("OSError", "KeyboardInterrupt", "MemoryError"):
                for after in (0, 1, 2):
                    ends(c, f"{f} raises {exc} at call {after + 1}", run(c, 3, 1, 1, faults={f: (after, exc)}))
    with c.group("pictures"):
        for n, size, show in ((1, 1, 1), (2, 2, 1), (2, 3, 2), (2, 2, 5), (3, 1, 1)) + (((12, 1, 1), (2, 12, 12)) if deep else ()):
            labels(c, f"{n} batches of {size}, {show} shown", run(c, n, size, show))
    with c.group("stopped by the user"):
        for at in (0, 1):
            ex = [e for e in run(c, 4, 1, 1, answers=("y",) * at + ("n",)) if not e.st.guards]
            i = ex[0].val.args[2] if len(ex) == 1 and ex[0].kind == "return" else None
            c.decide(f"no more batches after the user stops at batch {at}", None if i is None or not lib._cint(i) else i.args[0] == at + 1, t.show(i, 2) if i is not None else "")
