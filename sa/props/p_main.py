"""P47: the data set scripts as they are run (scripts/)."""
from __future__ import annotations
import ast
import posixpath
from .. import terms as t
from ..check import prop, Undecided
from ..disk import Disk, Entry, txt
from ..program import Module
from ..terms import NONE, mk, const
from . import p_demo
from .p_pack import Sample, labels, outputs, packed
from .p_splits import NAMES, entries, lines, single

# stands for the command line parser: the options that are given, the defaults of the others
PARSER = '''
ARGV = %r


class Namespace:
    pass


class ArgumentDefaultsHelpFormatter:
    pass


class ArgumentParser:
    def __init__(self, *args, **kwargs):
        self.specs = []

    def add_argument(self, *names, **kw):
        self.specs.append((names, kw))

    def add_argument_group(self, *args, **kwargs):
        return self

    def error(self, message):
        raise SystemExit(2)

    def exit(self, status=0, message=None):
        raise SystemExit(status)

    def parse_args(self, args=None):
        ns = Namespace()
        for names, kw in self.specs:
            option = names[0]
            for n in names:
                if n.startswith("--"):
                    option = n
            dest = kw["dest"] if "dest" in kw else option.lstrip("-").replace("-", "_")
            if option in ARGV:
                value = ARGV[option]
                if "type" in kw:
                    value = kw["type"](value)
            elif kw.get("action", None) == "store_true":
                value = False
            elif kw.get("required", False):
                raise SystemExit(2)
            else:
                value = kw.get("default", None)
                if isinstance(value, str) and "type" in kw:
                    value = kw["type"](value)
            setattr(ns, dest, value)
        return ns
'''
DRIVE = '''
import %s as script


def drive():
    try:
        script.run_as_main()
        return "done"
    except BaseException as e:
        return e
'''
SHOW = p_demo.CLIENT[:p_demo.CLIENT.index("def drive()")].replace("import main as demo", "import %s as demo") + '''
def drive():
    s = Sampler(%s)
    seen = []

    def make(*args, **kwargs):
        seen.append((args, kwargs))
        return s
    demo.synthpix.make = make
    try:
        demo.run_as_main()
        r = "done"
    except BaseException as e:
        r = e
    return r, [(list(a), list(k.values())) for a, k in seen], s.down
'''
FETCH = '''
import scripts.download_piv_1 as piv
from pathlib import Path


def drive():
    piv.fetch_splits(Path("out/splits"), %d, %r)
    return "done"
'''


def as_main(c, name):
    """The script as a module whose main block is a function."""
    mod = c.prog.modules.get(name)
    if mod is None:
        raise Undecided(f"no script {name}")
    tree = ast.parse(mod.src)
    for k, s in enumerate(tree.body):
        if isinstance(s, ast.If) and ast.unparse(s.test).replace('"', "'") in ("__name__ == '__main__'", "'__main__' == __name__"):
            f = ast.parse("def run_as_main():\n    pass").body[0]
            f.body = s.body
            tree.body[k] = f
            n = name + "_main"
            if n not in c.prog.modules:
                c.prog.modules[n] = Module(n, f"<{n}>", ast.unparse(ast.fix_missing_locations(tree)))
            return n
    raise Undecided(f"{name} has no main block")


def run(c, script, argv, d, models=None):
    c.prog.modules["argparse"] = Module("argparse", "<argparse>", PARSER % argv)
    try:
        return c.client(DRIVE % as_main(c, script), setup=lambda I: d.install(I, models or {}))
    finally:
        del c.prog.modules["argparse"]


def status(v):
    """Does the process report a failure? (None: not known)"""
    if v is const("done"):
        return False
    if v.op != "excobj":
        return None
    if v.args[0] != "SystemExit":
        return True
    if not v.args[1]:
        return False
    code = v.args[1][0]
    if code is NONE:
        return False
    if code.op != "const":
        return None
    return code.args[0] not in (0, False)


def server(n):
    body = "\n".join(entries(n)) + "\n"
    return lambda url: txt(body if "train" in str(url) else "data/t0_img1.tif\n")


SAMPLES = [Sample("data/a/case00", "flo"), Sample("data/b/case01", "mat")]


def drive(c, d):
    """Stands for the folders of the first class."""
    order = {}
    zips = [Entry("zip", members={p[len("raw/"):]: f for p, f in s.files().items()}) for s in SAMPLES]

    def effect(files, dirs, e, n):
        kw = dict(e.kwargs)
        url = kw.get("url", e.args[0] if e.args else None)
        dst = kw.get("output", e.args[2] if len(e.args) > 2 else None)
        k = order.setdefault(url.args[0] if url is not None and url.op == "const" else None, len(order))
        if dst is not None and dst.op == "const" and k < len(zips):
            f = posixpath.normpath(posixpath.join(dst.args[0], f"data_{k}.zip"))
            files[f] = zips[k]
            d.parents(f, dirs)
    d.effects["gdown.download_folder"] = effect
    return {"gdown.download_folder": lambda a, k, st: ("ret", mk("list"))}


def first(c, what, argv, seed, ratios, shape, out="out", n=10):
    d = Disk(fetch=server(n), effects={})
    I, ex = run(c, "scripts.download_piv_1", argv, d, drive(c, d))
    e = single(c, f"{what}: runs through", ex, d)
    if e is None:
        return
    s = status(e.val)
    c.decide(f"{what}: ends well", None if s is None else not s, t.show(e.val, 3)[:100], e.loc)
    if s is not False:
        return
    files = d.state(e.st.trace)[0]
    ref = Disk(fetch=server(n))
    I, rx = c.client(FETCH % (seed, ratios), setup=ref.install)
    r = single(c, f"{what}: reference", rx, ref)
    if r is None:
        return
    want = ref.state(r.st.trace)[0]
    for s in NAMES:
        a, b = lines(files.get(f"{out}/splits/{s}.txt")), lines(want.get(f"out/splits/{s}.txt"))
        c.decide(f"{what}: the {s} list is the one of the seed and ratios", None if b is None or a is None and f"{out}/splits/{s}.txt" in files else a == b,
                 f"{a and a[:2]} of {a and len(a)} instead of {b and b[:2]} of {b and len(b)}", e.loc)
    astray = [p for p in files if not p.startswith(out + "/")]
    c.decide(f"{what}: everything is below the output directory", not astray, f"{astray[:2]}", e.loc)
    for s in SAMPLES:
        mine = [p for p, f in outputs(files, {}).items() if p.startswith(f"{out}/packed_class1/") and "V" in f.data and f"flow of {s.name}" in labels(f.data["V"])]
        c.decide(f"{what}: {s.name} is packed", len(mine) == 1, f"{mine}", e.loc)
        if len(mine) == 1 and (shape != (256, 256) or s is SAMPLES[0] or c.tier == "thorough"):
            packed(c, f"{what}: {s.name}", s, files[mine[0]], *shape, e.loc)


def refused(c, what, argv, script="scripts.download_piv_1"):
    d = Disk(fetch=server(10), effects={})
    I, ex = run(c, script, argv, d, drive(c, d))
    e = single(c, f"{what}: ends", ex, d)
    if e is None:
        return
    s = status(e.val)
    c.decide(f"{what}: ends with a failing status", s, t.show(e.val, 3)[:100], e.loc)
    made = sorted(d.state(e.st.trace)[0])
    c.decide(f"{what}: nothing is written", not made, f"{made[:2]}", e.loc)


def failing(c, what, exc, at):
    d = Disk(fetch=server(10), fails=lambda n, url: exc if n == at else None, effects={})
    I, ex = run(c, "scripts.download_piv_1", {"--out-dir": "out"}, d, drive(c, d))
    e = single(c, f"{what}: ends", ex, d)
    if e is not None:
        c.decide(f"{what}: ends with a failing status", status(e.val), t.show(e.val, 3)[:100], e.loc)


def demo(c, what, argv, config, out, show, n=2, size=3):
    n_args = "%d, %d, None, None" % (n, size)
    c.prog.modules["argparse"] = Module("argparse", "<argparse>", PARSER % argv)
    try:
        _, ex = c.client(SHOW % (as_main(c, "main"), n_args),
                         setup=lambda I: I.models.update({"probe.array": p_demo.array, "input": lambda a, k, st: ("ret", const("y"))}))
    finally:
        del c.prog.modules["argparse"]
    ex = [e for e in ex if not e.st.guards]
    if len(ex) != 1 or ex[0].kind != "return":
        return c.decide(f"{what}: runs through", None, f"{len(ex)} outcomes")
    e = ex[0]
    r, made, down = e.val.args
    s = status(r)
    c.decide(f"{what}: ends well", None if s is None else not s, t.show(r, 3)[:100], e.loc)
    if s is not False:
        return
    given = [x for m in made.args for y in m.args for x in y.args] if made.op == "list" else None
    ok = None if given is None or len(given) != 1 or given[0].op != "const" else given[0].args[0] == config
    c.decide(f"{what}: the pipeline is made from the given configuration", ok, f"{[t.show(x, 2)[:60] for x in given or []]}", e.loc)
    pics = p_demo.pictures(e)
    paths = [p.args[0] if p is not None and p.op == "const" else None for p, _, _ in pics]
    if None in paths:
        return c.decide(f"{what}: saved pictures", None, "names are not known", e.loc)
    astray = [p for p in paths if posixpath.normpath(posixpath.dirname(p)) != posixpath.normpath(out)]
    c.decide(f"{what}: pictures are saved in the output directory", not astray, f"{astray[:2]}", e.loc)
    shown = {w[1:] for _, w, _ in pics if isinstance(w, tuple)}
    if all(isinstance(w, tuple) for _, w, _ in pics):
        want = {(i, j) for i in range(n) for j in range(min(show, size))}
        c.decide(f"{what}: the first {show} samples of every batch are saved", len(shown) == len(want) and {i for i, _ in shown} == {i for i, _ in want},
                 f"{sorted(shown)}", e.loc)


@prop("P47", "the main blocks of the scripts are interpreted from enumerated command lines on symbolic disks: the lists are compared with those of "
             "the given ratios and seed, packed samples with the given shape; malformed ratios and interruptions have to end in a failing status",
      ["argparse is a stand-in that applies types, defaults and required options", "the servers answer with lists of 10 entries"])
def p47(c):
    for what, more, seed, ratios, shape, out in (
            ("defaults", {}, 42, [80, 10, 10], (256, 256), "out"),
            ("another directory", {"--target-shape": "8x4"}, 42, [80, 10, 10], (8, 4), "data/piv"),
            ("ratios", {"--split-ratio": "50/20/30", "--target-shape": "4x6"}, 42, [50, 20, 30], (4, 6), "out"),
            ("seed", {"--split-seed": "7", "--target-shape": "8x4"}, 7, [80, 10, 10], (8, 4), "out"),
            ("shape", {"--target-shape": "16x12"}, 42, [80, 10, 10], (16, 12), "out"),
            ("everything", {"--split-ratio": "40/30/30", "--split-seed": "3", "--target-shape": "8x4"}, 3, [40, 30, 30], (8, 4), "o")):
        with c.group(f"first class, {what}"):
            first(c, what, {"--out-dir": out, **more}, seed, ratios, shape, out)
    for r in ("80/10", "80/10/5", "80/10/10/0", "a/b/c", "80-10-10", "", "50/50/50", "100"):
        with c.group(f"first class, ratios {r!r}"):
            refused(c, f"ratios {r!r}", {"--out-dir": "out", "--split-ratio": r})
    for script in ("scripts.download_piv_1", "scripts.download_piv_2"):
        with c.group(f"{script}, no output directory"):
            refused(c, "no output directory", {}, script)
    for at in (0, 1):
        with c.group(f"first class, interrupted at transfer {at}"):
            failing(c, "interrupted", "KeyboardInterrupt", at)
    for what, argv, config, out, show in (
            ("defaults", {}, "config/main.yaml", "out", 1),
            ("configuration", {"--config": "a/b.yaml"}, "a/b.yaml", "out", 1),
            ("everything", {"--config": "c.yaml", "--output_dir": "pics", "--visualize": "2"}, "c.yaml", "pics", 2),
            ("more than there are", {"--output_dir": "p/q", "--visualize": "5"}, "config/main.yaml", "p/q", 5),
            ("nothing to show", {"--visualize": "0"}, "config/main.yaml", "out", 0)):
        with c.group(f"demo, {what}"):
            demo(c, what, argv, config, out, show)
