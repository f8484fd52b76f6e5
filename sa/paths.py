"""Paths and text files whose names and contents are known."""
from __future__ import annotations
from pathlib import PurePosixPath
from .terms import mk, const, T, NONE, TRUE, FALSE


def text(x):
    """The string of a known path or string, or None."""
    if x.op == "path":
        return x.args[0].args[0]
    if x.op == "const" and isinstance(x.args[0], str):
        return x.args[0]
    return None


def of(p):
    return mk("path", const(str(p)))


def make(args):
    ts = [text(a) for a in args]
    if None in ts:
        return None
    return of(PurePosixPath(*ts))


def plain(args, kwargs):
    """Outside functions see the names of paths."""
    f = lambda a: a.args[0] if isinstance(a, T) and a.op == "path" else a
    return [f(a) for a in args], {k: f(v) for k, v in kwargs.items()}


def attribute(b, name):
    p = PurePosixPath(text(b))
    if name in ("name", "stem", "suffix"):
        return const(getattr(p, name))
    if name == "parent":
        return of(p.parent)
    if name == "parents":
        return mk("tuple", *[of(q) for q in p.parents])
    if name == "parts":
        return mk("tuple", *[const(q) for q in p.parts])
    if name == "suffixes":
        return mk("list", *[const(q) for q in p.suffixes])
    return None


SAME = {"exists": "os.path.exists", "is_file": "os.path.isfile", "is_dir": "os.path.isdir", "unlink": "os.remove",
        "replace": "os.replace", "rename": "os.rename", "iterdir": "os.listdir", "rmdir": "os.rmdir"}


def method(interp, b, name, args, kwargs, st, fr, node, loc):
    """[(state, value)] or None"""
    p = PurePosixPath(text(b))
    args, kwargs = plain(args, kwargs)
    ts = [text(a) for a in args]

    def r(v):
        return [(st, v)]
    known = None not in ts and not kwargs
    if known and name in ("with_suffix", "with_name", "with_stem", "joinpath", "relative_to"):
        try:
            return r(of(getattr(p, name)(*ts)))
        except ValueError:
            return None
    if known and name in ("is_relative_to", "match", "is_absolute"):
        return r(const(getattr(p, name)(*ts)))
    if name in ("as_posix", "__str__", "__fspath__"):
        return r(b.args[0])
    if name in ("resolve", "absolute", "expanduser"):
        return r(b)
    from . import lib
    ext = lambda n, a, k=None: lib.external(interp, n, a, k or {}, st, fr, node, loc)
    if name == "mkdir":
        ok = kwargs.get("exist_ok", FALSE)
        return ext("os.makedirs", [b.args[0]], {"exist_ok": ok})
    if name in SAME:
        extra = list(args) if name in ("replace", "rename") else []
        out = ext(SAME[name], [b.args[0]] + extra, {k: v for k, v in kwargs.items() if name == "unlink"})
        if name == "iterdir":
            return [(s, mk("list", *[of(p / x.args[0]) for x in v.args]) if v.op == "list" else v) for s, v in out]
        if name in ("replace", "rename"):
            return [(s, of(ts[0]) if None not in ts else v) for s, v in out]
        return out
    if name in ("glob", "rglob") and known and len(ts) == 1:
        pat = str(p / ts[0]) if name == "glob" else str(p / "**" / ts[0])
        out = ext("glob.glob", [const(pat)], {"recursive": TRUE})
        return [(s, mk("list", *[of(x.args[0]) for x in v.args]) if v.op == "list" else v) for s, v in out]
    if name == "open":
        return interp.call(mk("builtin", "open"), [b.args[0]] + list(args), kwargs, st, fr, node)
    if name == "read_text":
        out = interp.call(mk("builtin", "open"), [b.args[0]], {}, st, fr, node)
        return [(s, v.args[0] if v.op == "textfile" else mk("call", ".read", (v,), ())) for s, v in out]
    return None


def reading(b, name, args):
    """Reading from a text file that is known (always from its beginning)."""
    if name == "read" and not args:
        return b.args[0]
    if name == "readlines" and not args:
        return mk("list", *[const(l) for l in b.args[0].args[0].splitlines(True)])
    if name in ("close",):
        return NONE
    return None
