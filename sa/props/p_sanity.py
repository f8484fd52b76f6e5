"""The sanity script (P37)."""
from __future__ import annotations
from .. import terms as t
from .. import files as F
from .. import histories as H
from ..check import prop
from ..env import Env, arr, hdf5
from ..terms import mk, const, sym, NONE, TRUE, FALSE

MOD = "synthpix.sanity"
SPEEDS = ("min_speed_x", "max_speed_x", "min_speed_y", "max_speed_y")


# ---------------------------------------------------------------- extremes of arrays
class Cells:
    """An array whose entries are distinguishable: shape and entries (sets of extremes)."""

    def __init__(self, shape, flat):
        self.shape, self.flat = tuple(shape), list(flat)

    def take(self, k):
        ks = list(k)
        if Ellipsis in ks:
            i = ks.index(Ellipsis)
            ks[i:i + 1] = [slice(None)] * (len(self.shape) - len(ks) + 1)
        ks += [slice(None)] * (len(self.shape) - len(ks))
        if len(ks) != len(self.shape):
            return None
        sel, shape = [], []
        for n, x in zip(self.shape, ks):
            if isinstance(x, int):
                if not -n <= x < n:
                    return None
                sel.append([x % n])
            else:
                sel.append(list(range(n))[x])
                shape.append(len(sel[-1]))
        flat = []

        def go(i, off):
            if i == len(sel):
                flat.append(self.flat[off])
                return
            for x in sel[i]:
                go(i + 1, off * self.shape[i] + x)
        go(0, 0)
        return Cells(shape, flat)


def merge(op, parts):
    """op: "max"/"min"; parts: values, i.e. (op, set of atoms)"""
    s = set()
    for p in parts:
        if p is None or (p[0] not in (op, None)):
            return None
        s |= p[1]
    return op, frozenset(s)


def ev(x, files):
    """Value of a term: Cells, or (op, set of atoms): the maximum / minimum of these entries; None: not understood."""
    if x.op == "arr":
        shape = [a.args[0] for a in x.args[1]]
        n = 1
        for s in shape:
            n *= s
        return Cells(shape, [(None, frozenset({(x.args[0], i)})) for i in range(n)])
    if x.op == "const" and isinstance(x.args[0], (int, float)) and not isinstance(x.args[0], bool):
        return None, frozenset({x.args[0]})
    if x.op == "index":
        b = ev(x.args[0], files)
        k = key(x.args[1])
        return b.take(k) if isinstance(b, Cells) and k is not None else None
    if x.op == "reduce" and x.args[0] in ("max", "min", "nanmax", "nanmin", "amax", "amin"):
        b = ev(x.args[1], files)
        op = x.args[0][-3:]
        if not isinstance(b, Cells):
            return None
        ax = x.args[2]
        if ax in ((), None, NONE):
            return merge(op, b.flat)
        return None
    if x.op in ("max", "min"):
        parts = []
        for y in x.args:
            v = ev(y, files)
            if v is None or isinstance(v, Cells) and len(v.flat) != 1:
                return None
            parts.append(v.flat[0] if isinstance(v, Cells) else v)
        return merge(x.op, parts)
    if x.op in ("abs", "fn") and (x.op == "abs" or x.args[0] in ("abs", "fabs", "sqrt", "floor", "ceil", "round")):
        b = ev(x.args[-1], files)
        if isinstance(b, Cells):
            return Cells(b.shape, [(o, frozenset((x.op, str(x.args[0]), a) for a in s)) for o, s in b.flat])
        return None
    if x.op == "toflt":
        return ev(x.args[0], files)
    return None


def key(k):
    def one(z):
        if z.op == "const" and isinstance(z.args[0], int) and not isinstance(z.args[0], bool):
            return z.args[0]
        if z.op == "const" and z.args[0] is Ellipsis or z.op == "ellipsis":
            return Ellipsis
        if z.op == "slice" and all(y is NONE or (y.op == "const" and isinstance(y.args[0], int)) for y in z.args):
            return slice(*(None if y is NONE else y.args[0] for y in z.args))
        raise KeyError
    try:
        return [one(z) for z in (k.args if k.op == "tuple" else (k,))]
    except KeyError:
        return None


def extreme(op, arrays, comp):
    """Entries of this component in all arrays."""
    out = set()
    for a in arrays:
        v = ev(a, None).take([Ellipsis, comp])
        for _, s in v.flat:
            out |= s
    return op, frozenset(out)


def speeds(c, name, files, order):
    env = Env(files)
    src = f"from {MOD} import calculate_min_and_max_speeds\ndef drive():\n    return calculate_min_and_max_speeds({order!r})\n"
    ex = c.client(src, setup=lambda I: I.models.update(env.models()), oracle=env.truth)[1]
    arrays = [next(iter(files[p]["data"].values())) for p in order]
    for s in SPEEDS:
        v, det, loc = True, "", ""
        for e in ex:
            sure = not e.st.guards
            if e.kind == "raise":
                v1, d = (False if sure and H.excname(e.val) else None), f"raises {t.show(e.val, 3)[:100]}"
            elif e.val.op != "dict":
                v1, d = None, t.show(e.val, 3)[:80]
            else:
                got = dict(e.val.args[0]).get(const(s))
                if got is None:
                    v1, d = (False if sure else None), f"{s} is not computed"
                else:
                    r, w = ev(got, files), extreme(s[:3], arrays, 0 if s.endswith("x") else 1)
                    inf = float("inf") if s[:3] == "min" else float("-inf")
                    if isinstance(r, tuple) and r[0] == w[0] and r[1] - {inf} == w[1]:
                        v1, d = True, ""
                    elif isinstance(r, tuple):
                        extra, miss = r[1] - {inf} - w[1], w[1] - r[1]
                        d = f"the {s} is the {r[0]}imum" if r[0] != w[0] else f"the {s} disregards {len(miss)} entries of {', '.join(sorted({str(m[0]) for m in miss}))}" if miss else \
                            f"the {s} also depends on {sorted(map(str, extra))[:3]}"
                        v1 = False if sure else None
                    else:
                        v1, d = None, t.show(got, 6)[:120]
            if v1 is not True and (v is True or v1 is False):
                v, det, loc = v1, d, e.loc
        if not ex:
            v, det = None, "no path"
        c.decide(f"{name}: {s}", v, det, loc)


def h5(p, *shape, key="flow", **more):
    return {"kind": "h5", "data": dict({key: arr(p, *shape)}, **more)}


# ---------------------------------------------------------------- configuration files
CFG = "/cfg/x.yaml"


def load(c, src):
    return c.client(f"def drive(s1, s2, s3, s4):\n    return {src}\n")[1][0].val


def update(c, name, cfg, new, want=None):
    """The file that update_config_file leaves behind reads as the old entries with the new ones in their place."""
    d0, d1 = load(c, cfg), load(c, new)
    src = f"from {MOD} import update_config_file\ndef drive(s1, s2, s3, s4):\n    return update_config_file({CFG!r}, {new})\n"
    env = Env({CFG: {"kind": "yaml"}})

    def setup(I):
        I.models.update(env.models())
        I.models["goggles.load_configuration"] = lambda a, k, st: ("ret", d0) if a and a[0] is const(CFG) else None
    num = lambda x, st: False if x.op == "isinstance" and x.args[0].op == "sym" else False if x.op == "isnone" and x.args[0].op == "sym" else None
    ex = c.client(src, setup=setup, oracle=num)[1]
    want = F.structure(d0)
    want.update(F.structure(d1))
    v, det, loc = True, "", ""
    for e in ex:
        sure = not e.st.guards
        if e.kind == "raise":
            v1, d = (False if sure and H.excname(e.val) else None), f"raises {t.show(e.val, 3)[:100]}"
        else:
            fs = F.written(e.st.trace)
            if const(CFG) not in fs:
                v1, d = (False if sure and not fs else None), "the file is not written"
            else:
                try:
                    v1, d = F.agree(F.loaded(fs[const(CFG)]), want)
                except F.Unclear as u:
                    v1, d = None, str(u)
                except F.Broken as u:
                    v1, d = False, str(u)
                v1 = None if v1 is False and not sure else v1
        if v1 is not True and (v is True or v1 is False):
            v, det, loc = v1, d, e.loc
    if not ex:
        v, det = None, "no path"
    c.decide(name, v, det, loc)


# ---------------------------------------------------------------- the panel
FILES = {"/d/a.h5": h5("/d/a.h5", 2, 2, 2, 3), "/d/b.h5": h5("/d/b.h5", 2, 2, 2), "/d/c.npy": {"kind": "npy", "data": arr("/d/c.npy", 2, 2, 2)}}
OPAQUE = (MOD + ":calculate_min_and_max_speeds", MOD + ":update_config_file")


def panel(c, cfg, answers):
    """-> exits; the computed speeds are the symbols vx..., answers are given in order."""
    d0 = load(c, cfg)
    env = Env(FILES, dirs=("/d/dir.h5",))
    src = f"from {MOD} import missing_speeds_panel\ndef drive():\n    return missing_speeds_panel({CFG!r})\n"

    def inp(a, k, st):
        n = sum(e.kind == "call" and F.name(e.callee) == "input" for e in st.trace)
        return ("ret", const(answers[n])) if n < len(answers) else ("raise", "EOFError")

    def setup(I):
        I.models.update(env.models())
        I.models["goggles.load_configuration"] = lambda a, k, st: ("ret", d0) if a and a[0] is const(CFG) else None
        I.models["input"] = inp
        I.models[MOD + ".calculate_min_and_max_speeds"] = lambda a, k, st: ("ret", COMPUTED)
    return c.client(src, setup=setup, oracle=lambda x, st: False if x.op in ("isinstance", "isnone") and x.args[0].op == "sym" else env.truth(x, st))[1]


COMPUTED = mk("dict", tuple((const(s), sym("computed_" + s)) for s in SPEEDS))


def worst(verdicts):
    """(verdict, detail, where) of several paths"""
    v, det, loc = True, "", ""
    for v1, d, l in verdicts:
        if v1 is not True and (v is True or v1 is False):
            v, det, loc = v1, d, l
    return v, det, loc


def stored(e):
    """What this path leaves in the configuration file: None if it is not written."""
    fs = F.written(e.st.trace)
    return F.loaded(fs[const(CFG)]) if const(CFG) in fs else None


def asked(e):
    """Numbers of questions asked before the speeds are computed and before the file is written (None: not done), and overall"""
    n, comp, wr = 0, None, None
    for x in e.st.trace:
        if x.kind != "call":
            continue
        m = F.name(x.callee)
        if m == "input":
            n += 1
        elif m.endswith("calculate_min_and_max_speeds") and comp is None:
            comp = n
        elif m == "open" and F.handle(x.result) and F.handle(x.result)[0] is const(CFG) and wr is None and F.handle(x.result)[1] not in ("r", "rt"):
            wr = n
        elif m in (".write_text", "goggles.save_configuration", "os.replace", "os.rename", "shutil.move") and wr is None:
            wr = n
    return n, comp, wr


def outcome(c, name, ex, kind, exc=(), value=None, file=None, questions=None):
    """All paths return `value` / raise one of `exc`, having left `file` (None: the configuration is untouched)."""
    out = []
    for e in ex:
        sure = not e.st.guards
        no = False if sure else None
        n, comp, wr = asked(e)
        if e.kind == "raise" and kind == "return":
            out.append((no if H.excname(e.val) else None, f"raises {t.show(e.val, 3)[:100]}", e.loc))
            continue
        if e.kind == "return" and kind == "raise":
            out.append((no, f"returns {t.show(e.val, 3)[:100]}", e.loc))
            continue
        if kind == "raise" and H.excname(e.val) not in exc:
            out.append((no if H.excname(e.val) else None, f"raises {t.show(e.val, 3)[:100]} instead of {' or '.join(exc)}", e.loc))
            continue
        if kind == "return" and value is not None and e.val is not value:
            known = e.val.op == "tuple" and all(y.op in ("sym", "const") for y in e.val.args)
            out.append((no if known else None, f"returns {t.show(e.val, 4)[:120]} instead of {t.show(value, 4)[:120]}", e.loc))
            continue
        if (comp == 0 or wr == 0) and sure:
            out.append((False, "the speeds are computed or stored without asking", e.loc))
            continue
        if questions is not None and n != questions:
            out.append((no, f"{n} questions instead of {questions}", e.loc))
            continue
        try:
            got = stored(e)
        except F.Unclear as u:
            out.append((None, str(u), e.loc))
            continue
        except F.Broken as u:
            out.append((no, str(u), e.loc))
            continue
        if (got is None) != (file is None):
            out.append((no, "the configuration file is not written" if got is None else "the configuration file is written", e.loc))
            continue
        if file is not None:
            r, d = F.agree(got, file)
            out.append((True if r is True else no if r is False else None, d, e.loc))
    if not ex:
        out.append((None, "no path", ""))
    return c.decide(name, *worst(out))


@prop("P37", "the functions of the sanity script are interpreted abstractly: the computed speeds are resolved to the set of array entries they are the maximum or minimum of, "
      "for files of several shapes; the text written to the configuration file is reassembled from the write events and read back; the panel is driven through every kind of "
      "configuration and answer",
      ("h5py, open and goggles.load_configuration behave as documented",))
def p37(c):
    a4, b4, a3 = h5("/d/a.h5", 2, 3, 2, 3), h5("/d/b.h5", 1, 2, 2, 3, key="velocity"), h5("/d/c.h5", 3, 2, 2)
    with c.group("extreme speeds"):
        speeds(c, "one file", {"/d/a.h5": a4}, ["/d/a.h5"])
        speeds(c, "two files", {"/d/a.h5": a4, "/d/b.h5": b4}, ["/d/a.h5", "/d/b.h5"])
        speeds(c, "two files, the other order", {"/d/a.h5": a4, "/d/b.h5": b4}, ["/d/b.h5", "/d/a.h5"])
        speeds(c, "a single flow field", {"/d/c.h5": a3}, ["/d/c.h5"])
        speeds(c, "files of both kinds", {"/d/a.h5": a4, "/d/c.h5": a3, "/d/b.h5": b4}, ["/d/a.h5", "/d/c.h5", "/d/b.h5"])
        speeds(c, "two components only", {"/d/a.h5": h5("/d/a.h5", 2, 2, 2, 2)}, ["/d/a.h5"])
    with c.group("configuration file"):
        upd = "{'min_speed_x': s1, 'max_speed_x': s2, 'min_speed_y': s3, 'max_speed_y': s4}"
        update(c, "speeds added", "{'batch_size': 4, 'file_list': ['/d/a.h5', '/d/b.h5']}", upd)
        update(c, "speeds replaced", "{'min_speed_x': 7, 'batch_size': 4, 'max_speed_x': 'unknown', 'file_list': ['/d/a.h5'], 'max_speed_y': None}", upd)
        update(c, "no files", "{'batch_size': 4, 'seed': 0}", upd)
        update(c, "one key", "{'batch_size': 4, 'seed': 0, 'file_list': ['/d/a.h5']}", "{'seed': 5}")
        update(c, "nothing to update", "{'batch_size': 4, 'seed': 0, 'file_list': ['/d/a.h5']}", "{}")
        update(c, "the files replaced", "{'batch_size': 4, 'file_list': ['/d/a.h5'], 'seed': 0}", "{'file_list': ['/d/b.h5', '/d/c.h5']}")
        update(c, "file list first", "{'file_list': ['/d/a.h5'], 'batch_size': 4}", upd)
        for label, v in (("numbers", "1.5"), ("zero", "0"), ("negative numbers", "-0.25"), ("nothing", "None"), ("true", "True"), ("false", "False"), ("text", "'pixels'"),
                         ("text with a space", "'measure units per second'"), ("text with a colon", "'a: b'"), ("text with a hash", "'a #b'"), ("text that looks like a number", "'12'"),
                         ("text that looks like a boolean", "'true'"), ("text that looks like nothing", "'null'"), ("empty text", "''"), ("quoted text", "'it\\'s \"it\"'"),
                         ("lists of numbers", "[0.1, 2]"), ("nested lists", "[[0.1, 2], [3, 4]]"), ("lists of texts", "['a', 'b: c']"), ("empty lists", "[]"), ("mappings", "{'a': 1, 'b': 'c'}"),
                         ("lists with nothing in them", "[None, True]"), ("several lines", "'a\\nb'"), ("text that looks like a list", "'[1'"), ("tiny numbers", "1e-07")):
            update(c, f"kept: {label}", f"{{'first': 1, 'entry': {v}, 'file_list': ['/d/a.h5'], 'last': 2}}", upd)
        update(c, "kept: file names with special characters", "{'first': 1, 'file_list': ['/d/a: b.h5', '/d/#c.h5', '/d/d #e.h5', '- f'], 'last': 2}", upd)
    with c.group("panel"):
        base = {"file_list": "['/d/a.h5', '/d/b.h5']", "batch_size": "4", "max_speed_x": "1.5", "max_speed_y": "2.5", "min_speed_x": "-3.5", "min_speed_y": "-4"}
        txt = lambda d: "{" + ", ".join(f"{k!r}: {v}" for k, v in d.items()) + "}"
        val = mk("tuple", *[sym("computed_" + s) for s in ("max_speed_x", "max_speed_y", "min_speed_x", "min_speed_y")])
        new = {s: sym("computed_" + s) for s in SPEEDS}

        def file(d):
            f = F.structure(load(c, txt(d)))
            f.update(new)
            return f
        outcome(c, "all speeds given", panel(c, txt(base), ()), "return", value=load(c, "(1.5, 2.5, -3.5, -4)"), questions=0)
        zero = dict(base, max_speed_x="0.0", max_speed_y="0", min_speed_x="0", min_speed_y="0.0")
        outcome(c, "speeds of zero", panel(c, txt(zero), ()), "return", value=load(c, "(0.0, 0, 0, 0.0)"), questions=0)
        none = {k: v for k, v in base.items() if "speed" not in k}
        cases = [("no speeds", none)]
        for s in SPEEDS:
            cases.append((f"without {s}", {k: v for k, v in base.items() if k != s}))
            for v in ("None", "'fast'", "[1]"):
                cases.append((f"{s} {v}", dict(base, **{s: v})))
        for label, d in cases:
            outcome(c, f"{label}: computed", panel(c, txt(d), ("1", "y")), "return", value=val, file=file(d))
            outcome(c, f"{label}: manual", panel(c, txt(d), ("2",)), "raise", ("RuntimeError",), file=None)
        d = cases[0][1]
        outcome(c, "computed, capital Y", panel(c, txt(d), ("1", "Y")), "return", value=val, file=file(d))
        for a in ("n", "", "no", "x"):
            outcome(c, f"computed, not continued: {a!r}", panel(c, txt(d), ("1", a)), "raise", ("RuntimeError",), file=file(d))
        for a in ("3", "", "y", "0", "12"):
            outcome(c, f"another answer: {a!r}", panel(c, txt(d), (a,)), "raise", ("RuntimeError",), file=None)
        for label, f in (("no file list", None), ("an empty file list", "[]"), ("a file list that is none", "'/d/a.h5'"), ("a file list of None", "None"), ("a missing file", "['/d/a.h5', '/d/no.h5']"),
                         ("a file of another format", "['/d/c.npy']"), ("a file name that is none", "['/d/a.h5', 5]"), ("a directory", "['/d/dir.h5']"), ("a format in the second place", "['/d/a.h5', '/d/c.npy']")):
            for d in (base, none):
                g = {k: v for k, v in d.items() if k != "file_list"}
                if f is not None:
                    g["file_list"] = f
                outcome(c, f"{label}{'' if d is base else ', no speeds'}", panel(c, txt(g), ("1", "y")), "raise", ("ValueError",), file=None, questions=0)
