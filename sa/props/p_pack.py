"""P39: packing of the downloaded data sets (scripts/)."""
from __future__ import annotations
import posixpath
from .. import layout
from .. import lib
from .. import terms as t
from ..check import prop
from ..disk import Disk, Entry
from ..env import Env, arr
from ..terms import mk, const, NONE, TRUE, FALSE
from .p_formats import served, unserved
from .p_sched import FULL
from .p_splits import single

CONVERT = '''
import scripts.download_piv_1 as piv


def drive():
    try:
        piv.convert("raw", "out", (%d, %d))
        return "done"
    except Exception as e:
        return e
'''
RECORDS = '''
import scripts.download_piv_2 as piv
from pathlib import Path


def drive():
    try:
        for name in %r:
            piv.process_tfrecord(Path(name), Path("out/train"))
        return "done"
    except Exception as e:
        return e
'''


def component(v, k, last=True):
    return lib.index(v, mk("tuple", FULL, FULL, const(k)) if last else const(k))


class Sample:
    """A flow and two images of a data set, stored as one of the kinds of files it comes in."""

    def __init__(self, name, kind, key="V", first=True, h=8, w=4, images=None, modes=("", ""), magic=b"PIEH"):
        self.name, self.h, self.w = name, h, w
        self.images = images or (h, w)
        label = f"flow of {name}"
        if kind == "flo":
            self.file = Entry("flo", magic=magic, width=w, height=h, data=arr(label, h * w * 2))
            whole = mk("shapeop", "reshape", self.file.data, (mk("tuple", const(h), const(w), const(2)),))
            self.flow = lambda k: component(whole, k)
        else:
            V = arr(label, 2, h, w) if first else arr(label, h, w, 2)
            self.file = Entry("mat5", data={key: V})
            self.flow = lambda k: component(V, k, not first)
        self.kind = kind
        self.img = [arr(f"image {k} of {name}{m}", *self.images) for k, m in ((1, modes[0]), (2, modes[1]))]

    def files(self, images=(True, True)):
        out = {f"raw/{self.name}_flow.{'flo' if self.kind == 'flo' else 'mat'}": self.file}
        for k, y in enumerate(images):
            if y:
                out[f"raw/{self.name}_img{k + 1}.tif"] = Entry("img", data=self.img[k])
        return out

    def want(self, H, W):
        planes = [self.flow(0), self.flow(1)]
        if (H, W) != (self.h, self.w):
            planes = [t.mul(r, mk("imresize", f, mk("tuple", const(W), const(H)), NONE))
                      for f, r in zip(planes, (t.div(const(W), const(self.w)), t.div(const(H), const(self.h))))]
        return mk("stack", -1, tuple(planes))


def grey(c, name, x, s, k, H, W, loc=""):
    """Images may be turned to grey levels and to the size of the flow on the way."""
    img = s.img[k]
    if len(s.images) == 3:
        img = arr(img.args[0] + " in grey", *s.images[:2])
    x = t.subst(x, lambda y: img if y.op == "imconvert" and y.args[0] is s.img[k] and len(s.images) == 3 else None)
    either(c, name, x, [mk("imresize", img, mk("tuple", const(W), const(H)), NONE), img], loc)


def same(c, name, got, want, loc=""):
    c.decide(name, *layout.agree(got, want), loc)


def either(c, name, got, wants, loc):
    """One of these arrays."""
    rs = [layout.agree(got, w) for w in wants]
    best = max(rs, key=lambda r: {True: 2, None: 1, False: 0}[r[0]])
    c.decide(name, *(rs[-1] if best[0] is False else best), loc)


def labels(x):
    return {y.args[0].split("#")[0] for y in t.walk(x) if y.op == "arr"}


def packed(c, name, s, f, H, W, loc):
    """The contents of a packed file against the sample."""
    missing = [k for k in ("V", "I0", "I1") if k not in f.data]
    c.decide(f"{name}: flow and images are stored", not missing and f.complete, f"without {missing}", loc)
    if missing:
        return
    same(c, f"{name}: flow", f.data["V"], s.want(H, W), loc)
    for k, key in ((0, "I0"), (1, "I1")):
        grey(c, f"{name}: {key}", f.data[key], s, k, H, W, loc)


def outputs(files, before):
    return {p: f for p, f in files.items() if p not in before and f.kind == "data"}


def triplets(c, H, W, samples, partial=(), broken=()):
    """Pack these samples: the complete and readable ones, and no other."""
    every = {}
    for s in samples:
        every.update(s.files())
    for s, imgs in partial:
        every.update(s.files(imgs))
    for s in broken:
        every.update(s.files())
    d = Disk(files=every)
    I, ex = c.client(CONVERT % (H, W), setup=d.install)
    e = single(c, "packing runs through", ex, d)
    if e is None:
        return
    if e.val is not const("done"):
        c.decide("packing runs through", False if e.val.op == "excobj" else None, t.show(e.val, 3)[:120], e.loc)
        return
    out = outputs(d.state(e.st.trace)[0], every)
    left = dict(out)
    for s in samples:
        base = posixpath.basename(s.name)
        mine = [p for p, f in out.items() if posixpath.basename(p) == base + ".mat" and "V" in f.data and any(
            y == f"flow of {s.name}" for y in labels(f.data["V"]))]
        c.decide(f"{s.name} is packed once", len(mine) == 1, f"{mine or sorted(out)}"[:150], e.loc)
        if len(mine) == 1:
            left.pop(mine[0])
            c.decide(f"{s.name} is packed into the output folder", mine[0].startswith("out/"), mine[0], e.loc)
            packed(c, s.name, s, out[mine[0]], H, W, e.loc)
    odd = [p for p, f in left.items() if f.complete]
    c.decide("nothing else is packed", not odd, f"{odd[:2]}", e.loc)


class Stream:
    """Record files: name -> list of records, each {"target": …, "flow": …} (arrays of floats or empty)."""

    def __init__(self, files):
        self.files = files

    def models(self):
        def dataset(a, k, st):
            p = a[0].args[0] if a and a[0].op in ("const", "path") else None
            p = p.args[0] if hasattr(p, "args") else p
            name = posixpath.normpath(p) if isinstance(p, str) else None
            return ("ret", mk("list", *[mk("arr", f"record {name} {k}", (const(1),)) for k in range(len(self.files[name]))])) if name in self.files else None

        def parse(a, k, st):
            x = a[0] if a else k.get("serialized")
            if x is None or x.op != "arr" or not x.args[0].startswith("record "):
                return None
            _, name, n = x.args[0].split(" ")
            r = self.files[name][int(n)]
            return "ret", mk("dict", tuple((const(y), z) for y, z in r.items()))
        return {"tensorflow.data.TFRecordDataset": dataset, "tensorflow.io.parse_single_example": parse}

    def truth(self, x, st=None):
        if x.op in ("eq", "cmp", "ne") and any(y.op == "arr" for y in x.args if isinstance(y, t.T)) and any(y is const(b"") for y in x.args):
            a = next(y for y in x.args if isinstance(y, t.T) and y.op == "arr")
            return (a.args[1][0] is const(0)) == (x.op == "eq")
        return None


N = 256 * 256 * 2


def record(name, k, target=N, flow=N):
    return {"target": arr(f"target {k} of {name}", target), "flow": arr(f"flow {k} of {name}", flow), "label": arr(f"label {k} of {name}", 0)}


def records(c, plan):
    """Convert these record files: every well-formed record once, nothing else."""
    s = Stream({name: [record(name, k, *r) for k, r in enumerate(rs)] for name, rs in plan.items()})
    d = Disk()
    I, ex = c.client(RECORDS % (list(plan),), setup=lambda I: d.install(I, s.models()), oracle=s.truth)
    e = single(c, "converting runs through", ex, d)
    if e is None:
        return
    if e.val is not const("done"):
        c.decide("converting runs through", False if e.val.op == "excobj" else None, t.show(e.val, 3)[:120], e.loc)
        return
    out = outputs(d.state(e.st.trace)[0], ())
    left = dict(out)
    whole = lambda x: mk("shapeop", "reshape", x, (const(256), const(256), const(2)))
    for name, rs in plan.items():
        for k, r in enumerate(rs):
            if r != (N, N):
                continue
            mine = [p for p, f in out.items() if "V" in f.data and f"flow {k} of {name}" in labels(f.data["V"])]
            c.decide(f"record {k} of {name} is converted once", len(mine) == 1, f"{len(mine)} of {len(out)} files", e.loc)
            if len(mine) != 1:
                continue
            left.pop(mine[0])
            f = out[mine[0]]
            missing = [x for x in ("V", "I0", "I1") if x not in f.data]
            c.decide(f"record {k} of {name}: flow and images are stored", not missing and f.complete and mine[0].endswith(".mat"), f"without {missing}", e.loc)
            if missing:
                continue
            R = s.files[name][k]
            same(c, f"record {k} of {name}: flow", f.data["V"], whole(R["flow"]), e.loc)
            for j, key in ((0, "I0"), (1, "I1")):
                same(c, f"record {k} of {name}: {key}", f.data[key], component(whole(R["target"]), j), e.loc)
    odd = [p for p, f in left.items() if f.complete]
    c.decide("nothing else is converted", not odd, f"{odd[:2]}", e.loc)


def readable(c, H, W):
    """What was packed is what the MATLAB scheduler serves."""
    s = Sample("x", "flo")
    files = s.files()
    d = Disk(files=files)
    I, ex = c.client(CONVERT % (H, W), setup=d.install)
    e = single(c, "packing runs through", ex, d)
    out = outputs(d.state(e.st.trace)[0], files) if e is not None else {}
    if len(out) != 1:
        c.decide("packing writes one file", None, f"{sorted(out)}")
        return
    f, = out.values()
    try:
        stored = {k: arr(f"stored {k}", *layout.Layout().of(v)[0]) for k, v in f.data.items()}
    except layout.Unclear as u:
        c.decide("packed arrays are understood", None, str(u), e.loc)
        return
    back = {stored[k]: v for k, v in f.data.items()}
    env = Env({"/d/x.mat": {"kind": "mat73", "data": stored}})
    ctor = f"MATFlowFieldScheduler(['/d/x.mat'], output_shape=({H}, {W}), include_images=True)"
    for e2, rs in served(c, env, ctor):
        if not rs or e2.st.guards:
            unserved(c, e2, rs)
            continue
        fl, a, b = [t.subst(y, back.get) for y in rs[0]]
        same(c, "served flow", fl, s.want(H, W), e2.loc)
        for k, x in ((0, a), (1, b)):
            grey(c, f"served image {k + 1}", x, s, k, H, W, e2.loc)


@prop("P39", "the packing functions are interpreted on disks of complete, incomplete and unreadable samples of every format, and on streams of "
             "well-formed and malformed records; every packed file is compared, plane by plane, with the stored sample, and given back to the "
             "MATLAB scheduler",
      ["resampling is linear and keeps planes apart", "h5py, scipy and PIL write and read what they are given"])
def p39(c):
    for H, W in ((8, 4), (4, 12), (16, 4), (8, 2), (4, 8)):
        with c.group(f"formats, packed at {H}x{W}"):
            triplets(c, H, W, [
                Sample("a/x1", "flo"), Sample("a/x2", "flo", h=4, w=12), Sample("b/x1", "mat5", "V"), Sample("b/x3", "mat5", "flow", first=False),
                Sample("x4", "mat5", "uv"), Sample("b/c/x5", "mat5", "F", modes=("#I;16", "#L")), Sample("b/c/x6", "flo", images=(8, 4, 3))])
    with c.group("odd samples"):
        triplets(c, 4, 12, [Sample("my_flow_data/x1", "flo"), Sample("b/x_img1_y", "flo"), Sample("b/uniform_flow_x", "flo"), Sample("z", "flo")],
                 partial=[(Sample("a/x2", "flo"), (True, False)), (Sample("a/x3", "flo"), (False, True)), (Sample("b/x4", "mat5"), (False, False))],
                 broken=[Sample("b/m1", "flo", magic=b"HEIP"), Sample("b/n1", "mat5", "other")])
    for H, W in ((8, 4), (4, 12)):
        with c.group(f"read back at {H}x{W}"):
            readable(c, H, W)
    good, bad = (N, N), [(0, N), (N, 0), (N - 2, N), (N, 2 * N), (0, 0)]
    for name, plan in (("records", [good, good, good]), ("malformed records", [good, bad[0], good, bad[3], bad[1], good, bad[2], good]),
                       ("malformed records first", [bad[0], bad[4], bad[2], good]), ("only malformed records", bad)):
        with c.group(name):
            records(c, {"raw/RAFT256_Training.tfrecord-0": plan})
    with c.group("record files of one folder"):
        records(c, {"raw/RAFT256_Training.tfrecord-0": [good, good], "raw/RAFT256_Training.tfrecord-1": [bad[0], good, good]})
