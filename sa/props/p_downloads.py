"""P40: downloads (scripts/)."""
from __future__ import annotations
import posixpath
from .. import terms as t
from ..check import prop
from ..disk import Disk, Entry, txt
from ..env import arr
from ..terms import mk, const
from .p_pack import N, Sample, labels, outputs, record
from .p_splits import single

GET = '''
import scripts.utils as utils
from pathlib import Path


def drive():
    try:
        return utils.download_file("http://host/f.zip", %s)
    except BaseException as e:
        return e
'''
CLASS2 = '''
import scripts.download_piv_2 as piv


def drive():
    out = []
    for k in range(%d):
        try:
            piv.main("out")
            out.append("done")
        except BaseException as e:
            out.append(e)
    return out
'''
CLASS1 = '''
import scripts.download_piv_1 as piv


def drive():
    out = []
    for k in range(%d):
        try:
            piv.main("out", "8x4")
            out.append("done")
        except BaseException as e:
            out.append(e)
    return out
'''


def transfer(c, what, before, exc, path, broken=()):
    """One download: what is at its final place at every moment, and what the caller is told."""
    name = "out/f.zip"
    old = {name: txt("old\n")} if before == "older file" else {name + ".part": Entry("fetched", url="?", complete=False)} if before == "left-over part" else {}
    new = Entry("zip", members={}, url="http://host/f.zip")
    d = Disk(files=old, dirs=["out"], fetch=lambda url: new, fails=lambda n, url: exc, broken=broken)
    I, ex = c.client(GET % path, setup=d.install)
    e = single(c, what, ex, d)
    if e is None:
        return
    prior = old.get(name)
    for f, loc in d.stages(e.st.trace, name):
        if f is not prior and f is not new:
            c.decide(f"{what}: only complete files at the final place", known(f), "a file is filled at its final place" if isinstance(f, str) or f is not None and not
                     f.complete else "the older file disappears" if f is None else f"it holds {f.kind}", loc)
            break
    else:
        c.decide(f"{what}: only complete files at the final place", True, "", e.loc)
    last = d.state(e.st.trace)[0].get(name)
    told = e.val.args[0] if e.val.op == "const" else False if e.val.op == "excobj" else None
    if told is None:
        c.decide(f"{what}: the caller is told", None, t.show(e.val, 3)[:100], e.loc)
        return
    if exc is None and not broken:
        ok = last is new
        c.decide(f"{what}: the file is there", ok if ok or last is prior else None, "the file did not arrive", e.loc)
        c.decide(f"{what}: the caller is told of the success", bool(told), f"{told}", e.loc)
        return
    c.decide(f"{what}: the caller is told of the failure", not told, f"{told}", e.loc)
    c.decide(f"{what}: nothing new is at the final place", last is prior, "", e.loc)
    if exc != "KeyboardInterrupt":
        c.decide(f"{what}: the failure is reported as a value", e.val.op == "const", t.show(e.val, 3)[:100], e.loc)


def known(f):
    """Is this certainly not a complete download?"""
    return False if f is None or isinstance(f, str) or not f.complete else None


RECORDFILES = {"RAFT256_Training_A.tfrecord-00000": 2, "RAFT256_Training_A.tfrecord-00001": 3, "RAFT256_Training_B.tfrecord": 1,
               "RAFT256_Validation.tfrecord-00000": 2, "RAFT256_Test.tfrecord-00000": 1}


class Class2:
    """The archive of the second class, and what reading its record files yields."""

    def __init__(self):
        self.records = {n: [record(n, k) for k in range(m)] for n, m in RECORDFILES.items()}
        members = {n: Entry("records", name=n) for n in RECORDFILES}
        self.zip = Entry("zip", members={**members, "readme.txt": txt("hello\n")})

    def models(self, d):
        def dataset(a, k, st):
            p = a[0].args[0] if a and a[0].op == "const" else None
            f = d.state(st.trace)[0].get(posixpath.normpath(p)) if isinstance(p, str) else None
            if f is None:
                return None if p is None else ("raise", "OSError")
            if f.kind != "records":
                return None
            return "ret", mk("list", *[mk("arr", f"record {f.name} {k}", (const(1),)) for k in range(len(self.records[f.name]))])

        def parse(a, k, st):
            x = a[0] if a else k.get("serialized")
            if x is None or x.op != "arr" or not x.args[0].startswith("record "):
                return None
            _, name, n = x.args[0].split(" ")
            return "ret", mk("dict", tuple((const(y), z) for y, z in self.records[name][int(n)].items()))
        return {"tensorflow.data.TFRecordDataset": dataset, "tensorflow.io.parse_single_example": parse}

    @staticmethod
    def truth(x, st=None):
        if x.op in ("eq", "ne") and any(y is const(b"") for y in x.args) and any(y.op == "arr" for y in x.args):
            return x.op == "ne"
        return None


def second(c, what, runs, plan, before, whole):
    """Runs of the second script: all samples are there at the end, or none."""
    s = Class2()
    d = Disk(files=before, fetch=lambda url: s.zip, fails=lambda n, url: plan[n] if n < len(plan) else None)
    I, ex = c.client(CLASS2 % runs, setup=lambda I: d.install(I, s.models(d)), oracle=s.truth)
    e = single(c, what, ex, d)
    if e is None:
        return
    files = d.state(e.st.trace)[0]
    out = outputs(files, before)
    if not whole:
        c.decide(f"{what}: nothing is converted", not out, f"{sorted(out)[:2]}", e.loc)
        return
    where = {}
    for n, rs in s.records.items():
        for k in range(len(rs)):
            mine = [p for p, f in out.items() if f.complete and "V" in f.data and f"flow {k} of {n}" in labels(f.data["V"])]
            c.decide(f"{what}: record {k} of {n} is converted once", len(mine) == 1, f"{len(mine)} of {len(out)} files hold it", e.loc)
            where.update({p: n for p in mine})
    for p, n in where.items():
        split = "train" if "Training" in n else "val" if "Validation" in n else None
        if split:
            c.decide(f"{what}: {n} is in {split}", f"/{split}/" in p, p, e.loc)


GROUPS = [[Sample("data/a/x1", "flo"), Sample("data/b/x1", "flo")], [Sample("data/a/x2", "flo"), Sample("other/x3", "flo")]]


def first(c, what, plan, runs, want):
    """Runs of the first script; plan: the outcome of each download of a folder; want: the folders whose samples have to be there."""
    def strip(s):
        return {k[len("raw/"):]: v for k, v in s.files().items()}
    zips = [Entry("zip", members={k: v for s in g for k, v in strip(s).items()}) for g in GROUPS]
    lists = {f"out/splits/{s}.txt": txt("x1_img1.tif\nx2_img1.tif\nx3_img1.tif\n" if s == "train" else "") for s in ("train", "val", "test", "tune")}

    def outcome(n):
        return plan[n] if n < len(plan) else None

    def folder(e):
        kw = dict(e.kwargs)
        url = kw.get("url", e.args[0] if e.args else None)
        dst = kw.get("output", e.args[2] if len(e.args) > 2 else None)
        u = url.args[0] if url is not None and url.op == "const" else None
        return order.setdefault(u, len(order)), dst.args[0] if dst is not None and dst.op == "const" else None

    def effect(files, dirs, e, n):
        k, dst = folder(e)
        if dst is None or k >= len(zips):
            return
        f = posixpath.normpath(posixpath.join(dst, f"data_{k}.zip"))
        # a failed transfer leaves a part of the archive
        if outcome(n) == "cut":
            files[f] = Entry("zip", members={}, complete=False)
        elif outcome(n) is None:
            files[f] = zips[k]
        d.parents(f, dirs)

    def model(a, k, st):
        from .. import files as F
        n = sum(1 for e in st.trace if e.kind == "call" and isinstance(e.callee, t.T) and F.name(e.callee) == "gdown.download_folder")
        x = outcome(n)
        return ("ret", mk("list")) if x is None else ("raise", "OSError" if x == "cut" else x)
    order = {}
    d = Disk(files=lists, effects={"gdown.download_folder": effect})
    I, ex = c.client(CLASS1 % runs, setup=lambda I: d.install(I, {"gdown.download_folder": model}))
    e = single(c, what, ex, d)
    if e is None:
        return
    out = {p: f for p, f in outputs(d.state(e.st.trace)[0], lists).items() if p.startswith("out/packed_class1/") and f.complete}
    for g in want:
        for s in GROUPS[g]:
            mine = [p for p, f in out.items() if "V" in f.data and f"flow of {s.name}" in labels(f.data["V"])]
            c.decide(f"{what}: {s.name} is packed once", len(mine) == 1, f"{mine or sorted(out)}"[:150], e.loc)


@prop("P40", "the download functions and both scripts are interpreted on a disk that changes along the run, with every outcome of the transfers "
             "(success, failure, interruption, at each transfer and over repeated runs); the final path is inspected after every event, and the "
             "converted samples at the end",
      ["a rename is atomic; urlretrieve and copies fill their target in place", "zipfile refuses incomplete archives", "gdown raises when a transfer fails"])
def p40(c):
    for path in ('Path("out/f.zip")', '"out/f.zip"'):
        for before in ("nothing there", "older file", "left-over part"):
            for exc in (None, "urllib.error.URLError", "OSError", "TimeoutError", "ValueError", "KeyboardInterrupt"):
                with c.group(f"{path}, {before}"):
                    transfer(c, "transfer" if exc is None else f"transfer that ends with {exc}", before, exc, path)
        with c.group(path):
            transfer(c, "file that cannot be moved", "nothing there", None, path, broken=("os.replace", "os.rename", "shutil.move"))
    from .p_splits import failing
    with c.group("lists that cannot be fetched"):
        failing(c)
    zname = "out/raw_class2/Data_ProblemClass2_RAFT-PIV.zip"
    whole = Class2().zip
    for what, runs, plan, before, ok in (
            ("one run", 1, [], {}, True),
            ("two runs", 2, [], {}, True),
            ("failed transfer", 1, ["urllib.error.URLError"], {}, False),
            ("interrupted transfer", 1, ["KeyboardInterrupt"], {}, False),
            ("failed transfers", 2, ["urllib.error.URLError", "OSError"], {}, False),
            ("second run after a failed transfer", 2, ["urllib.error.URLError", None], {}, True),
            ("second run after an interrupted transfer", 2, ["KeyboardInterrupt", None], {}, True),
            ("third run after failed transfers", 3, ["OSError", "KeyboardInterrupt", None], {}, True),
            ("archive that is there already", 1, [], {zname: whole}, True),
            ("incomplete archive from elsewhere", 1, [], {zname: Entry("zip", members={}, complete=False)}, False)):
        with c.group(f"second class, {what}"):
            second(c, what, runs, plan, before, ok)
    for what, plan, runs, want in (
            ("one run", [], 1, (0, 1)),
            ("two runs", [], 2, (0, 1)),
            ("first folder fails", ["OSError"], 2, (0, 1)),
            ("second folder fails", [None, "OSError"], 2, (0, 1)),
            ("first folder cut short", ["cut"], 2, (0, 1)),
            ("second folder cut short", [None, "cut"], 2, (0, 1)),
            ("second folder cut short, one run", [None, "cut"], 1, (0,)),
            ("interrupted", ["KeyboardInterrupt"], 2, (0, 1)),
            ("interrupted in the second folder", [None, "KeyboardInterrupt"], 2, (0, 1)),
            ("fails twice", ["OSError", None, "cut"], 3, (0, 1))):
        with c.group(f"first class, {what}"):
            first(c, what, plan, runs, want)
