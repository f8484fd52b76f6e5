"""Samplers driven step by step (P33, P34 and the sampler part of P24).

The samplers are interpreted on top of a scripted scheduler (or the real
episodic and prefetching wrappers over a small file tree); image generation and
flow adaptation stay uninterpreted, so that each yielded batch names the
scheduler batch and the random key it was made from."""
from __future__ import annotations
from .. import terms as t, lib
from .. import histories as H
from ..check import prop
from ..env import arr
from ..session import GENF, ADAPT
from ..terms import mk, const, sym, T, NONE, TRUE, FALSE
from ..threads import World
from .p_episodes import LAYOUTS, picker
from .p_sched import shuffler

ASSUME = ("image generation and flow adaptation are functions of their arguments (P05-P07 look into them)",
          "histories of up to three flow batches (quick), five (thorough)")
IMPORTS = '''
from synthpix.sampler.synthetic import SyntheticImageSampler
from synthpix.sampler.real import RealImageSampler
from synthpix.scheduler.protocol import SchedulerProtocol, EpisodicSchedulerProtocol, EpisodeEnd
from synthpix.scheduler.prefetch import PrefetchingFlowFieldScheduler
from synthpix.scheduler.episodic import EpisodicFlowFieldScheduler
from synthpix.scheduler.mat import MATFlowFieldScheduler
from synthpix.types import SchedulerData, ImageGenerationSpecification
import probe


class Flows(SchedulerProtocol):
    include_images = True
    batch_size = 7

    def is_running(self):
        return False

    def __init__(self, n, mask=True, files=True):
        self.n, self.mask, self.files, self.pos, self.requests, self.calls = n, mask, files, 0, 0, ()

    def get_batch(self, batch_size):
        self.requests += 1
        self.calls = self.calls + (("get_batch", batch_size),)
        if self.pos >= self.n:
            raise StopIteration
        i = self.pos
        self.pos += 1
        return SchedulerData(flow_fields=probe.array("flow", i, batch_size), images1=probe.array("first", i, batch_size),
                             images2=probe.array("second", i, batch_size), mask=probe.array("valid", i, batch_size) if self.mask else None,
                             files=tuple(f"{i}.{k}" for k in range(batch_size)) if self.files else None)

    def get_flow_fields_shape(self):
        return (192, 192, 2)

    def reset(self):
        self.calls = self.calls + (("reset",),)
        self.pos = 0

    def shutdown(self):
        self.calls = self.calls + (("shutdown",),)

    @property
    def file_list(self):
        return []

    @file_list.setter
    def file_list(self, x):
        self.given = x


class Episodes(Flows, EpisodicSchedulerProtocol):
    def __init__(self, n, length):
        self.n, self.mask, self.files, self.pos, self.requests, self.calls = n, True, True, 0, 0, ()
        self.L, self.t = length, 0

    def get_batch(self, batch_size):
        if self.t >= self.L:
            self.requests += 1
            raise EpisodeEnd("end")
        b = Flows.get_batch(self, batch_size)
        self.t += 1
        return b

    def steps_remaining(self):
        return self.L - self.t

    def next_episode(self):
        self.calls = self.calls + (("next_episode",),)
        self.t = 0

    def reset(self):
        self.calls = self.calls + (("reset",),)
        self.pos = 0
        self.t = 0

    @property
    def episode_length(self):
        return self.L


class Bare(Flows):
    include_images = False


def build(scheduler, k, flows, batch):
    return SyntheticImageSampler(scheduler, batches_per_flow_batch=k, flow_fields_per_batch=flows, flow_field_size=(192.0, 192.0), resolution=1.0,
        velocities_per_pixel=1.0, seed=3, max_speed_x=0.0, max_speed_y=0.0, min_speed_x=0.0, min_speed_y=0.0, output_units="pixels",
        generation_specification=ImageGenerationSpecification(batch_size=batch, image_shape=(16, 16)))

'''
FIELDS = ("images1", "images2", "flow_fields", "params", "done", "mask", "files")


def source(sch, ctor, ops):
    out = [IMPORTS, "def drive(key):", f"    sch = {sch}", f"    s = {ctor}"]
    names = []
    for i, op in enumerate(ops):
        v = f"r{i}"
        if op == "next":
            names.append(v)
            out += ["    try:", "        b = next(s)", f"        {v} = ('batch', {', '.join('b.' + f for f in FIELDS)})",
                    "    except StopIteration:", f"        {v} = ('end',)",
                    "    except EpisodeEnd:", f"        {v} = ('episode end',)",
                    "    except Exception as e:", f"        {v} = ('error', e)"]
        elif isinstance(op, tuple):
            names.append(v)
            out += ["    try:", f"        {v} = ('value', {op[1]})", "    except Exception as e:", f"        {v} = ('error', e)"]
        else:
            out += [f"    {l}" for l in op.splitlines()]
    out.append(f"    return ({', '.join(names)}{',' if names else ''})")
    return "\n".join(out) + "\n"


def generated(y):
    """(the result of) an uninterpreted function of the repository"""
    while y.op == "index":
        y = y.args[0]
    return y.op == "ret" and y.args[0].op == "func"


def oracle(x, st):
    if x.op == "isnone" and (generated(x.args[0]) or x.args[0].op in ("arr", "sym")):
        return False
    return None


def array(a, k, st):
    nm, i, n = (x.args[0] for x in a)
    shape = {"flow": (n, 192, 192, 2), "valid": (n,)}.get(nm, (n, 16, 16))
    return "ret", arr(f"{nm} {i}", *shape)


def run(c, sch, ctor, ops, models=None, world=None, orc=None, devices=1):
    def setup(I):
        I.total = {GENF, ADAPT}
        I.models.update({"probe.array": array, "jax.devices": lambda a, k, st: ("ret", mk("list", *[sym(f"cpu{i}") for i in range(devices)]))})
        I.models.update(models or {})
        if world is not None:
            I.world = world
            I.models.update(world.models())

    def o(x, st):
        r = orc(x, st) if orc is not None else None
        return oracle(x, st) if r is None else r
    return c.client(source(sch, ctor, ops), setup=setup, opaque=[GENF, ADAPT], oracle=o)[1]


def origin(x, what):
    """Numbers of the scheduler's arrays of this kind that the value was made from."""
    found = set()

    def visit(y):
        if y.op == "arr" and isinstance(y.args[0], str) and y.args[0].rsplit(" ", 1)[0] == what:
            found.add(int(y.args[0].rsplit(" ", 1)[1]))
        return False
    t.contains(x, visit)
    return found


def pure(x):
    """The same calls have the same results."""
    return t.subst(x, lambda y: mk("ret", y.args[0], tuple(pure(a) for a in y.args[1]), tuple((n, pure(v)) for n, v in y.args[2]), 0)
                   if y.op == "ret" and y.args[0].op == "func" and y.args[3] != 0 else None)


def kind(r):
    return r.args[0].args[0] if r.op == "tuple" and r.args and r.args[0].op == "const" else None


class Made:
    """A batch made from this batch of the scheduler; done: None, True or False for all samples"""

    def __init__(self, i, done=None, n=4):
        self.i, self.done, self.n = i, done, n


def compare(r, w):
    k = kind(r)
    if k is None:
        return None, t.show(r, 3)[:100]
    if isinstance(w, H.Value):
        return H.compare(r, w)
    if isinstance(w, H.Raises):
        return H.compare(r, w)
    if isinstance(w, str):
        if k == w:
            return True, ""
        if k == "error" and H.excname(r.args[1]) is None:
            return None, t.show(r, 3)[:100]
        return False, f"{k if k != 'error' else t.show(r.args[1], 2)[:60]} instead of {w}"
    if k != "batch":
        if k == "error" and H.excname(r.args[1]) is None:
            return None, t.show(r, 3)[:100]
        return False, f"{k if k != 'error' else t.show(r.args[1], 2)[:60]} instead of a batch"
    b = dict(zip(FIELDS, r.args[1:]))
    for f in ("images1", "images2", "flow_fields"):
        o = origin(b[f], "flow")
        if o != {w.i}:
            return (False if o else None), f"{f} is made from flow batch {sorted(o)} instead of {w.i}"
    o = origin(b["mask"], "valid")
    if b["mask"] is not NONE and o != {w.i}:
        return (False if o else None), f"mask of flow batch {sorted(o)} instead of {w.i}"
    fs = lib.enumerate_items(b["files"]) if b["files"] is not NONE else ()
    if fs is None or any(x.op != "const" for x in fs):
        return None, f"files {t.show(b['files'], 3)[:80]}"
    if any(x.args[0].split(".")[0] != str(w.i) for x in fs):
        return False, f"files of flow batch {fs[0].args[0].split('.')[0]} instead of {w.i}"
    return done(b["done"], w)


def done(x, w):
    if w.done is None:
        return (True, "") if x is NONE else (None, f"done is {t.show(x, 3)[:80]}")
    if x is NONE:
        return False, "no done flag"
    n = H.length(x)
    if n is None:
        return None, f"done is {t.show(x, 3)[:80]}"
    if n != w.n:
        return False, f"{n} done flags for {w.n} samples"
    for i in range(n):
        v = H.entry(x, i)
        if v is None or v.op != "const":
            return None, f"done[{i}] is {t.show(v, 3)[:80] if v is not None else '?'}"
        if bool(v.args[0]) is not w.done:
            return False, f"done[{i}] is {v.args[0]}"
    return True, ""


def check(c, name, sch, ctor, ops, want, cmp=compare, **kw):
    ex = run(c, sch, ctor, ops, **kw)
    if not ex:
        return c.decide(name, None, "no path")
    verdict, detail, where = True, "", ""
    for e in ex:
        if e.kind == "raise":
            v, d = (False if H.excname(e.val) else None), f"raises {t.show(e.val, 3)[:100]}"
        else:
            v, d = True, ""
            for i, (r, w) in enumerate(zip(e.val.args, want)):
                v1, d1 = w.compare(e.val.args[w.j], r) if isinstance(w, Same) else cmp(r, w)
                if v1 is not True and (v is True or v1 is False):
                    v, d = v1, f"observation {i + 1}: {d1}"
        if v is False and e.st.guards:
            v, d = None, H.why(e) + " / " + d
        if v is not True and (verdict is True or v is False):
            verdict, detail, where = v, d, e.loc
    return c.decide(name, verdict, detail, where)


KEYOPS = ("seedkey", "split", "subkey", "fold")


class Same:
    """The same outcome as the j-th one; with another batch of the scheduler in place of its own one."""

    def __init__(self, j, frm=0, to=0):
        self.j, self.frm, self.to = j, frm, to

    def compare(self, a, b):
        def moved(y):
            if y.op == "arr" and isinstance(y.args[0], str) and y.args[0].endswith(f" {self.frm}"):
                return arr(f"{y.args[0].rsplit(' ', 1)[0]} {self.to}", *[x.args[0] for x in y.args[1]])
            if y.op == "const" and isinstance(y.args[0], str) and y.args[0].startswith(f"{self.frm}."):
                return const(f"{self.to}." + y.args[0].split(".", 1)[1])
            return None
        a, b = pure(a), pure(b)
        if self.frm != self.to:
            a = t.subst(a, moved)
        if a is b:
            return True, ""
        if kind(a) is None or kind(b) is None:
            return None, t.show(b, 3)[:100]
        if kind(a) != kind(b):
            return (None if "error" in (kind(a), kind(b)) else False), f"{kind(b)} instead of {kind(a)}"
        for nm in ("flow", "first", "second", "valid"):
            x, y = origin(a, nm), origin(b, nm)
            if x != y:
                return False, f"made from {nm} {sorted(y)} instead of {sorted(x)}"
        x, y = keys(a), keys(b)
        if x != y and x and y:
            return False, f"random key {t.show(sorted(y - x or y, key=str)[0], 6)[:120]} instead of {t.show(sorted(x - y or x, key=str)[0], 6)[:120]}"
        return None, "not the same term"


def keys(x):
    """Outermost random keys that the value depends on."""
    found = set()

    def subterms(y):
        out = []

        def walk(z):
            if isinstance(z, T):
                out.append(z)
            elif isinstance(z, tuple):
                for q in z:
                    walk(q)
        walk(y.args)
        return out
    seen = set()

    def go(y):
        if y in seen:
            return
        seen.add(y)
        if y.op in KEYOPS or y.op == "index" and y.args[0].op in KEYOPS:
            found.add(y)
            return
        for z in subterms(y):
            go(z)
    go(x)
    return found


def syn(k, flows=2, batch=4):
    return f"build(sch, {k}, {flows}, {batch})"


Q = ("value", "sch.requests")
V = H.Value


@prop("P33", "the samplers are interpreted step by step on a scripted scheduler; the scheduler batch that each yielded batch was made from, the "
      "number of requests and the done flags are compared with a counter", ASSUME)
def p33(c):
    top = 3 if c.tier == "quick" else 5
    for k in range(1, top + 1):
        with c.group(f"{k} batches per flow batch"):
            for n in range(0, 4):
                ops, want = [Q], [V(0)]
                for i in range(n * k):
                    ops += ["next", Q]
                    want += [Made(i // k), V(i // k + 1)]
                for i in range(3):
                    ops += ["next", Q]
                    want += ["end", V(n + 1 + i)]
                check(c, f"{n} flow batches, then the end", f"Flows({n})", syn(k), ops, want)
            check(c, "without mask and files", f"Flows(2, mask=False, files=False)", syn(k), ["next"] * (k + 1), [Made(i // k) for i in range(k + 1)])
            for flows, batch in ((1, 4), (4, 4), (3, 4), (1, 1)):
                check(c, f"{flows} flow fields for {batch} samples", f"Flows(2)", syn(k, flows, batch), ["next", Q, "next", Q, ("value", "sch.calls[0][1]")],
                      [Made(0), V(1), Made(1 // k), V(1 + 1 // k), V(flows)])
            check(c, "more data after the end", "Flows(1)", syn(k), ["next"] * k + ["next", "sch.n = 2", "next", Q], [Made(0)] * k + ["end", Made(1), V(3)])
    for L in range(1, top + 1):
        for maker, nm in ((syn(1), "synthetic"), ("RealImageSampler(sch, batch_size=4)", "real")):
            with c.group(f"{nm}, episodes of {L} steps"):
                cmp = compare if nm == "synthetic" else real_cmp
                ops, want, i = [], [], 0
                for ep in range(2):
                    for k in range(L):
                        ops += ["next", Q, ("value", "sch.steps_remaining()")]
                        want += [Made(i, done=(k == L - 1)), V(i + 1), V(L - 1 - k)]
                        i += 1
                    for _ in range(2):
                        ops += ["next", Q, ("value", "sch.steps_remaining()")]
                        want += ["episode end", V(i), V(0)]
                    ops += ["s.next_episode()"]
                check(c, "two episodes", f"Episodes(9, {L})", maker, ops, want, cmp)
                for k in range(L):
                    check(c, f"restart after {k} steps", f"Episodes(9, {L})", maker, ["next"] * k + ["s.next_episode()"] + ["next"] * (L + 1),
                          [Made(j, done=False) for j in range(k)] + [Made(k + j, done=(j == L - 1)) for j in range(L)] + ["episode end"], cmp)
                check(c, "data ends within an episode", f"Episodes({L - 1}, {L})", maker, ["next"] * L, [Made(j, done=False) for j in range(L - 1)] + ["end"], cmp)
    with c.group("flow batches of episodes are never reused"):
        lay = LAYOUTS[0]
        for k in (1, 2, 3):
            for L in (2, 3):
                for pre in (False, True):
                    base = f"EpisodicFlowFieldScheduler(MATFlowFieldScheduler({lay.given!r}, output_shape=(192, 192)), batch_size=2, episode_length={L}, key=key)"
                    sch = f"PrefetchingFlowFieldScheduler({base}, batch_size=2, buffer_size=2)" if pre else base
                    seen = []
                    check(c, f"{k} batches per flow batch, {L} steps{', prefetched' if pre else ''}", sch, syn(k), ["next"] * L + ["next"],
                          list(range(L)) + ["episode end"], fresh(lay, {}), world=World() if pre else None, orc=files_truth(lay),
                          models={**lay.env().models(), **shuffler([]), **picker([[0, 1], [2, 1], [1, 0]], seen)})


def real_cmp(r, w):
    """Batches of the real-image sampler: made from the images of the scheduler."""
    if not isinstance(w, Made) or kind(r) != "batch":
        return compare(r, w)
    b = dict(zip(FIELDS, r.args[1:]))
    for f, nm in (("images1", "first"), ("images2", "second"), ("flow_fields", "flow")):
        o = origin(b[f], nm)
        if o != {w.i}:
            return (False if o else None), f"{f} is made from batch {sorted(o)} instead of {w.i}"
    return done(b["done"], w)


REAL = "RealImageSampler(sch, batch_size={})"


def resets(c):
    """Sampler part of P24."""
    top = 2 if c.tier == "quick" else 4
    n = 2
    for k in range(1, top + 1):
        m = n * k
        with c.group(f"synthetic sampler, {k} batches per flow batch"):
            for at in range(0, m + 2):
                again(c, f"reset after {at} batches", f"Flows({n})", syn(k), [Made(j // k) if j < m else "end" for j in range(at)], [Made(j // k) for j in range(m)] + ["end"])
            for at in range(0, m + 1):
                pos = -(-at // k)
                one = [Made(j // k) for j in range(at)]
                check(c, f"sampler only, after {at} batches", f"Flows({n + 2})", syn(k), ["next"] * at + ["s.reset(scheduler_reset=False)"] + ["next"] * k
                      + ["s.reset(scheduler_reset=False)"] + ["next"] * k,
                      one + [Same(j, 0, pos) if j < at and j < k else Made(pos) for j in range(k)] + [Same(at + j, pos, pos + 1) for j in range(k)])
    with c.group("episodes"):
        for maker, cmp in ((syn(1), compare), (REAL.format(4), real_cmp)):
            for at in range(0, 4):
                again(c, f"reset after {at} steps, {maker.split('(')[0]}", "Episodes(9, 3)", maker, [Made(j, done=(j == 2)) for j in range(at)],
                      [Made(j, done=(j == 2)) for j in range(3)] + ["episode end"], cmp)
    with c.group("real images"):
        for at in range(0, 5):
            again(c, f"reset after {at} batches", "Flows(3)", REAL.format(4), [Made(j) if j < 3 else "end" for j in range(at)], [Made(j) for j in range(3)] + ["end"], real_cmp)
        for at in range(0, 4):
            check(c, f"sampler only, after {at} batches", "Flows(4)", REAL.format(4), ["next"] * at + ["s.reset(scheduler_reset=False)"] + ["next"],
                  [Made(j) for j in range(at)] + [Made(at)], real_cmp)


def again(c, name, sch, maker, first, want, cmp=compare):
    """Some batches, a reset, all batches, a reset, all batches"""
    at, m = len(first), len(want)
    check(c, name, sch, maker, ["next"] * at + ["s.reset()"] + ["next"] * m + ["s.reset()"] + ["next"] * m,
          first + [Same(j) if j < at and j < m - 1 else want[j] for j in range(m)] + [Same(at + j) for j in range(m)], cmp)


class Labelled(Made):
    def __init__(self, i, flows, batch, devices, mask=True, files=True):
        super().__init__(i)
        self.given = {"mask": mask, "files": files}
        self.order = [d * (flows // devices) + k % (flows // devices) for d in range(devices) for k in range(-(-batch // devices))]


def labelled(r, w):
    v, d = compare(r, w)
    if v is not True:
        return v, d
    b = dict(zip(FIELDS, r.args[1:]))
    for f, want in (("mask", [lib.index(arr(f"valid {w.i}", len(set(w.order))), const(k)) for k in w.order]), ("files", [const(f"{w.i}.{k}") for k in w.order])):
        x = b[f]
        if not w.given[f]:
            if x is not NONE:
                return (False if H.length(x) is not None else None), f"{f} is {t.show(x, 3)[:80]} although the scheduler gives none"
            continue
        if x is NONE:
            return False, f"no {f}"
        n = H.length(x)
        if n is None:
            return None, f"length of {f}: {t.show(x, 3)[:100]}"
        if n != len(want):
            return False, f"{n} entries of {f} for {len(want)} samples"
        for j, u in enumerate(want):
            e = H.entry(x, j)
            if e is not u:
                return (False if e is not None and H.known(e) else None), f"{f}[{j}] is {t.show(e, 4)[:80] if e is not None else '?'} instead of {t.show(u, 4)[:80]}"
    return True, ""


def labels(c):
    """Sampler part of P05: the entry of mask and files for every sample."""
    top = 3 if c.tier == "quick" else 4
    for nd in range(1, top + 1):
        for q in range(1, top + 1):
            for batch in range(nd * q, nd * (q + 2) + 1):
                flows = nd * q
                check(c, f"{flows} flow fields, {batch} samples, {nd} devices", "Flows(3)", syn(1, flows, batch), ["next", "next"],
                      [Labelled(i, flows, batch, nd) for i in range(2)], labelled, devices=nd)
        for mask, files in ((True, False), (False, True), (False, False)):
            check(c, f"{nd} devices{'' if mask else ', no mask'}{'' if files else ', no files'}", f"Flows(3, {mask}, {files})", syn(1, nd * 2, nd * 3), ["next", "next"],
                  [Labelled(i, nd * 2, nd * 3, nd, mask, files) for i in range(2)], labelled, devices=nd)
        check(c, f"reused flow fields, {nd} devices", "Flows(3)", syn(2, nd * 2, nd * 3), ["next", "next", "next"],
              [Labelled(i, nd * 2, nd * 3, nd) for i in (0, 0, 1)], labelled, devices=nd)


class Exact:
    """Batch i of the scheduler, handed through."""

    def __init__(self, i, n, mask=True, files=True):
        self.i, self.n, self.mask, self.files = i, n, mask, files


def exact(r, w):
    if not isinstance(w, Exact):
        return compare(r, w)
    if kind(r) != "batch":
        return compare(r, Made(w.i))
    b = dict(zip(FIELDS, r.args[1:]))
    for f, nm in (("images1", "first"), ("images2", "second"), ("flow_fields", "flow"), ("mask", "valid")):
        x = b[f]
        want = array([const(nm), const(w.i), const(w.n)], {}, None)[1] if f != "mask" or w.mask else NONE
        if f == "mask" and x.op == "fn" and x.args[0] == "toint":
            x = x.args[1]
        if x is want:
            continue
        if x is NONE or want is NONE:
            return False, f"{f} is {t.show(x, 3)[:80]} instead of {t.show(want, 3)}"
        for j in range(w.n):
            v, u = H.entry(x, j), H.entry(want, j)
            if v is not u:
                bad = v is not None and (H.known(v) or v.op == "fn" and v.args[0] == "toint" and H.known(v.args[1]))
                return (False if bad else None), f"{f}[{j}] is {t.show(v, 4)[:100] if v is not None else t.show(x, 3)[:100]} instead of {t.show(u, 4)[:100]}"
        if H.length(x) is not None and H.length(x) != w.n:
            return False, f"{f} has {H.length(x)} entries instead of {w.n}"
        if H.length(x) is None:
            return None, f"length of {f}"
    want = mk("tuple", *[const(f"{w.i}.{k}") for k in range(w.n)]) if w.files else NONE
    fs = lib.enumerate_items(b["files"]) if b["files"] is not NONE else None
    if (fs is None) != (want is NONE) or fs is not None and tuple(fs) != want.args:
        return (False if b["files"] is NONE or fs is not None and all(x.op == "const" for x in fs) else None), f"files {t.show(b['files'], 3)[:80]} instead of {t.show(want, 3)}"
    if b["params"] is not NONE:
        return None, f"params {t.show(b['params'], 3)[:60]}"
    return done(b["done"], Made(w.i))


@prop("P34", "the samplers are interpreted on top of a scheduler that records every call; the batches of the real-image sampler are compared entry by entry "
      "with the scheduler's, and the recorded calls with one delegated call per request", ASSUME)
def p34(c):
    deep = c.tier == "thorough"
    with c.group("real images are handed through"):
        for n in (1, 2, 3) if not deep else (1, 2, 3, 4, 5):
            for mask in (True, False):
                for files in (True, False):
                    check(c, f"batches of {n}{'' if mask else ', no mask'}{'' if files else ', no files'}", f"Flows(3, {mask}, {files})", REAL.format(n),
                          ["next"] * 4 + [("value", "sch.calls")], [Exact(i, n, mask, files) for i in range(3)] + ["end", calls(*[("get_batch", n)] * 4)], exact)
        check(c, "default batch size", "Flows(3)", "RealImageSampler(sch)", ["next"] * 2, [Exact(0, 1), Exact(1, 1)], exact)
    for nm, maker, k in (("synthetic", syn(1), 1), ("synthetic, reuse", syn(2), 2), ("real", REAL.format(4), 1)):
        with c.group(f"{nm} sampler"):
            cmp = real_cmp if nm == "real" else compare
            for cls in ("Flows(3)", "Episodes(9, 3)"):
                for at in (0, 1, 2):
                    if cls != "Flows(3)" and k > 1:
                        continue
                    pre = ["next"] * at
                    made = [Made(j // k, None if cls == "Flows(3)" else False) for j in range(at)]
                    kw = dict(cmp=cmp)
                    clear = ["sch.calls = ()"]
                    ops = lambda op: pre + clear + [op, ("value", "sch.calls")]
                    tag = f"{cls.split('(')[0].lower()}, after {at} batches"
                    check(c, f"reset: {tag}", cls, maker, ops("s.reset()"), made + [calls(("reset",))], **kw)
                    check(c, f"reset of the sampler only: {tag}", cls, maker, ops("s.reset(scheduler_reset=False)"), made + [calls()], **kw)
                    check(c, f"shutdown: {tag}", cls, maker, ops("s.shutdown()"), made + [calls(("shutdown",))], **kw)
                    check(c, f"the scheduler is kept: {tag}", cls, maker, ops("s.reset()\ns.shutdown()") + [("value", "s.scheduler is sch"), ("value", "iter(s) is s")],
                          made + [calls(("reset",), ("shutdown",)), V(True), V(True)], **kw)
                    if cls == "Flows(3)":
                        check(c, f"no next episode: {tag}", cls, maker, pre + clear + [("value", "s.next_episode()"), ("value", "sch.calls")],
                              made + [H.Raises("AttributeError"), calls()], **kw)
                    else:
                        check(c, f"next episode: {tag}", cls, maker, ops("s.next_episode()"), made + [calls(("next_episode",))], **kw)
    with c.group("refused schedulers"):
        lay = LAYOUTS[0]
        f = f"MATFlowFieldScheduler({lay.given!r}, output_shape=(192, 192), include_images=%s)"
        e = f"EpisodicFlowFieldScheduler({f}, batch_size=2, episode_length=2, key=key)"
        base = {"stub": ("Bare(2)", "Flows(2)"), "MATLAB files": (f % False, f % True), "episodes": (e % False, e % True)}
        base.update({f"prefetched {n}": tuple(f"PrefetchingFlowFieldScheduler({x}, batch_size=2)" for x in v) for n, v in list(base.items())})
        for nm, (without, images) in base.items():
            for x, w in ((without, H.Raises("ValueError")), (images, V(2))):
                check(c, f"{nm}, {'images' if x is images else 'no images'}", "None", "None", [("value", f"RealImageSampler({x}, batch_size=2).batch_size")], [w],
                      world=World(), orc=files_truth(lay), models={**lay.env().models(), **shuffler([]), **picker([[0, 1], [2, 1], [1, 0]], [])})
        for x in ("3", "None", "[1]", "'flows'"):
            check(c, f"no scheduler: {x}", "None", "None", [("value", f"RealImageSampler({x}, batch_size=2).batch_size")], [H.Raises("TypeError")])


def calls(*cs):
    return H.Value(mk("tuple", *[mk("tuple", *[const(x) for x in y]) for y in cs]))


def files_truth(lay):
    env = lay.env()
    from .p_episodes import oracle as key_given

    def f(x, st):
        r = env.truth(x, st)
        return key_given(x, st) if r is None else r
    return f


def fresh(lay, seen):
    """Consecutive batches are made from consecutive files, every one from new ones."""
    def f(r, w):
        if not isinstance(w, int):
            return compare(r, w)
        if kind(r) != "batch":
            return compare(r, Made(w))
        b = dict(zip(FIELDS, r.args[1:]))
        fs = lib.enumerate_items(b["files"])
        if fs is None or any(x.op != "const" for x in fs):
            return None, f"files {t.show(b['files'], 3)[:80]}"
        fs = [x.args[0] for x in fs]
        used = set()

        def visit(y):
            if y.op == "arr" and y.args[0].endswith(":V"):
                used.add(y.args[0][:-2])
            return False
        t.contains(b["flow_fields"], visit)
        if used != set(fs):
            return (False if used else None), f"flow fields of {sorted(used)} with files {sorted(set(fs))}"
        prev = seen.get(w - 1)
        seen[w] = fs
        if w and prev is not None:
            for a, x in zip(prev, fs):
                if a == x:
                    return False, f"step {w} uses {x} again"
        return True, ""
    return f
