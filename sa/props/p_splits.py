"""P38: splits of the downloaded data sets (scripts/download_piv_1.py)."""
from __future__ import annotations
import posixpath
from collections import Counter
from .. import lib
from .. import terms as t
from ..check import prop
from ..disk import Disk, Entry, txt
from ..terms import mk, const

FETCH = '''
import scripts.download_piv_1 as piv
from pathlib import Path


def drive(seed):
    for k in range(%d):
        piv.fetch_splits(Path("out/splits"), seed, %r)
    return "done"
'''
SPLIT = '''
import scripts.download_piv_1 as piv
from pathlib import Path


def drive():
    try:
        piv.perform_split(packed_root=Path("out/packed_class1"), split_root=Path("out"))
        return "done"
    except Exception as e:
        return e
'''
NAMES = ("train", "val", "tune")


def entries(n):
    return [f"data/case{k:02d}_img1.tif data/case{k:02d}_img2.tif data/case{k:02d}_flow.flo" for k in range(n)]


def lines(f):
    """The entries of a written list, or None when not known."""
    s = f.text() if f is not None else None
    return None if s is None else [l.strip() for l in s.splitlines() if l.strip()]


def single(c, name, ex, d):
    """The only exit, when it is the only one and depends on nothing."""
    if len(ex) == 1 and not d.clear(ex[0].st.trace):
        c.decide(name, None, "files are written in a loop of unknown length", ex[0].loc)
        return None
    if len(ex) == 1 and not ex[0].st.guards and ex[0].kind == "return":
        return ex[0]
    e = next((e for e in ex if e.kind == "raise"), ex[0] if ex else None)
    c.decide(name, False if e is not None and e.kind == "raise" and not e.st.guards else None,
             f"{len(ex)} outcomes; " + (f"{e.kind} {t.show(e.val, 3)[:120]}" + "".join(f" if {t.show(g[0], 5)[:100]}" for g in e.st.guards[:2]) if e else ""),
             e.loc if e else "")
    return None


def fetched(c, n, ratios, times=1, missing=(), before=None, run=0):
    lists = {"train": "\n".join(entries(n)) + "\n" if n else "", "test": "data/t0_img1.tif\ndata/t1_img1.tif\n"}

    def fetch(url):
        k = "train" if "train" in str(url) else "test" if "test" in str(url) else None
        return None if k is None or k in missing else txt(lists[k])
    d = Disk(files=before, fetch=fetch)
    old, lib.RUN = lib.RUN, run
    try:
        I, ex = c.client(FETCH % (times, ratios), args=[t.sym("seed")], setup=d.install)
    finally:
        lib.RUN = old
    e = single(c, "splitting runs through", ex, d)
    if e is None:
        return None, None
    return e, d.state(e.st.trace)[0]


@prop("P38", "the splitting functions are interpreted on disks with lists of every length and ratio from a set, with shuffles as permutations that "
             "depend on the seed only when seeded; the written lists are compared entry by entry, between two runs and between repeated calls; "
             "packed files must be copied to the folders of exactly the lists that name them",
      ["the official list names each entry once", "urlretrieve stores what the server sends or raises"])
def p38(c):
    for n in (0, 1, 2, 7, 10, 23, 40):
        for ratios in ([80, 10, 10], [60, 20, 20], [34, 33, 33], [100, 0, 0], [0, 50, 50], [10, 85, 5]):
            with c.group(f"{n} entries split {'/'.join(map(str, ratios))}"):
                lists(c, n, ratios)
    with c.group("lists that cannot be fetched"):
        failing(c)
    with c.group("copies"):
        copies(c)


def lists(c, n, ratios):
    e, files = fetched(c, n, ratios)
    if e is None:
        return
    got = {s: lines(files.get(f"out/splits/{s}.txt")) for s in NAMES}
    if any(v is None for v in got.values()):
        gone = [s for s in NAMES if f"out/splits/{s}.txt" not in files]
        c.decide("lists are written", False if gone else None, f"missing: {gone}" if gone else "the written text is not known", e.loc)
        return
    every = Counter(x for v in got.values() for x in v)
    want = entries(n)
    twice = [x for x, k in every.items() if k > 1]
    c.decide("no entry is in two lists or twice in one", not twice, f"{twice[:2]}", e.loc)
    lost = [x for x in want if x not in every]
    more = [x for x in every if x not in want]
    c.decide("every entry is in a list", not lost, f"lost: {lost[:2]}", e.loc)
    c.decide("no other entry is in a list", not more, f"added: {more[:2]}", e.loc)
    for s, r in zip(NAMES, ratios):
        slack = 1 if s != "train" else 2
        c.decide(f"size of {s}", abs(len(got[s]) - n * r / 100) < slack, f"{len(got[s])} of {n} for {r} %", e.loc)
    c.decide("the official test list is kept", lines(files.get("out/splits/test.txt")) == ["data/t0_img1.tif", "data/t1_img1.tif"], "", e.loc)
    for what, kw in (("in another run", dict(run=1)), ("when they are made again", dict(times=2)),
                     ("when older lists exist", dict(before={f"out/splits/{s}.txt": txt("data/old_img1.tif\n") for s in NAMES}))):
        e2, other = fetched(c, n, ratios, **kw)
        if e2 is None:
            continue
        new = {s: lines(other.get(f"out/splits/{s}.txt")) for s in NAMES}
        diff = [s for s in NAMES if new[s] != got[s]]
        v = None if any(x is None for x in new.values()) else not diff
        c.decide(f"the same lists {what}", v, f"{diff} differ" if diff else "", e2.loc)


def failing(c):
    before = {f"out/splits/{s}.txt": txt(f"data/{s}_img1.tif\n") for s in NAMES}
    for what, b in (("on an empty disk", {}), ("with older lists", before)):
        e, files = fetched(c, 10, [80, 10, 10], missing=("train",), before=b)
        if e is None:
            continue
        for s in NAMES:
            p = f"out/splits/{s}.txt"
            c.decide(f"no {s} list is made up {what} when the official list cannot be fetched", files.get(p) is b.get(p),
                     "the list was written although nothing was fetched", e.loc)


PACKED = ["backstep/backstep_Re1000_00001.mat", "backstep/backstep_Re800_00001.mat", "uniform/uniform_00002.mat", "uniform/uniform_00003.mat",
          "cylinder_Re40_00004.mat", "deep/er/SQG_00005.mat", "unlisted_00006.mat", "other/unlisted_Re7_00007.mat", "multi/vortex_00008.mat",
          "multi/vortex_00008b.mat", "again/vortex_00008.mat", "again/backstep_Re1000_00001.mat"]
LISTS = {
    "train": "uniform/uniform_00002_img1.tif uniform/uniform_00002_img2.tif uniform/uniform_00002_flow.flo\n\nbackstep_Re1000_00001_img2.tif\n",
    "val": "  some/where/backstep_Re800_00001_flow.flo  \nvortex_00008.mat\n",
    "test": "cylinder_Re40_00004_img1.tif\nnot_there_00009_img1.tif\n",
    "tune": "SQG_00005.tif\nvortex_00008_img1.tif\nuniform_00003_flow.mat\n",
}
MEMBERS = {
    "train": {"uniform/uniform_00002.mat", "backstep/backstep_Re1000_00001.mat", "again/backstep_Re1000_00001.mat"},
    "val": {"backstep/backstep_Re800_00001.mat", "multi/vortex_00008.mat", "again/vortex_00008.mat"},
    "test": {"cylinder_Re40_00004.mat"},
    "tune": {"deep/er/SQG_00005.mat", "multi/vortex_00008.mat", "again/vortex_00008.mat", "uniform/uniform_00003.mat"},
}


def copies(c):
    packed = {f"out/packed_class1/{p}": Entry("data", data={"name": const(p)}) for p in PACKED}
    texts = {f"out/splits/{s}.txt": txt(x) for s, x in LISTS.items()}
    for run in (0, 1):
        d = Disk(files={**packed, **texts})
        old, lib.RUN = lib.RUN, run
        try:
            I, ex = c.client(SPLIT, setup=d.install)
        finally:
            lib.RUN = old
        e = single(c, "copying runs through", ex, d)
        if e is None:
            continue
        if e.val is not const("done"):
            c.decide("copying runs through", False, f"{t.show(e.val, 3)[:120]}", e.loc)
            continue
        files, _ = d.state(e.st.trace)
        origin = {id(v): k[len("out/packed_class1/"):] for k, v in packed.items()}
        new = {k: v for k, v in files.items() if k not in packed and k not in texts}
        alien = [k for k, v in new.items() if id(v) not in origin or k.split("/")[1] not in MEMBERS]
        c.decide("only packed files are copied, into split folders", True if not alien else False if all(id(new[k]) in origin for k in alien) else None,
                 f"{alien[:3]}", e.loc)
        for p in PACKED:
            where = Counter(k.split("/")[1] for k, v in new.items() if origin.get(id(v)) == p)
            want = {s for s in MEMBERS if p in MEMBERS[s]}
            c.decide(f"{p} is copied to {', '.join(sorted(want)) or 'no split'}", set(where) == want, f"copied to {sorted(where) or 'no split'}", e.loc)
            names = {posixpath.basename(k) for k, v in new.items() if origin.get(id(v)) == p}
            c.decide(f"{p} keeps its name", names <= {posixpath.basename(p)}, f"{sorted(names)}", e.loc)
        kept = all(files.get(k) is v for k, v in packed.items())
        c.decide("the packed files stay where they are", kept, "", e.loc)
    for s in LISTS:
        d = Disk(files={**packed, **{k: v for k, v in texts.items() if s not in k}})
        I, ex = c.client(SPLIT, setup=d.install)
        e = single(c, f"without the {s} list", ex, d)
        if e is None:
            continue
        new = [k for k in d.state(e.st.trace)[0] if k not in packed and k not in texts]
        c.decide(f"a missing {s} list is reported", e.val.op == "excobj", f"returned {t.show(e.val, 2)[:60]} with {len(new)} files copied", e.loc)
