"""Abstract environments: which files exist and what reading them yields.

The contents stay symbolic (`arr`: a label and a shape); only the skeleton of the
file system (names, readable or not, number of slices) is fixed, so that the
analysis can decide the branches that depend on it."""
from __future__ import annotations
import fnmatch
import posixpath
import re
from . import lib
from .terms import mk, const, sym, T, NONE, TRUE, FALSE


def arr(label, *shape):
    return mk("arr", label, tuple(const(s) if isinstance(s, int) else sym(s) if isinstance(s, str) else s for s in shape))


class Env:
    """files: path -> None (unreadable) or {"kind": "npy"|"h5"|"mat5"|"mat73"|"img", "data": term or dict of terms}"""

    def __init__(self, files=None, dirs=()):
        self.files = dict(files or {})
        self.dirs = {posixpath.normpath(d) for d in dirs}
        for f in self.files:
            d = posixpath.dirname(f)
            while d and d not in self.dirs and d != "/":
                self.dirs.add(d)
                d = posixpath.dirname(d)

    def glob(self, pat, recursive):
        rx, i = "", 0
        if recursive:
            pat = pat.replace("/**/", "/\0/")
        for part in pat.split("/"):
            if part == "\0":
                rx += "(/[^/]+)*"
            elif part:
                rx += "/" + re.sub(r"^\(\?s:|\)\\Z$", "", fnmatch.translate(part)).replace(".*", "[^/]*")
        if not pat.startswith("/"):
            rx = rx[1:] if rx.startswith("/") else rx
        # (the order of the result is arbitrary: the worst one)
        return sorted((f for f in list(self.files) + sorted(self.dirs) if re.fullmatch(rx, f)), reverse=not lib.RUN)

    def listing(self, d):
        """Names directly inside this directory (in an arbitrary order: the worst one)."""
        d = posixpath.normpath(d)
        names = {x[len(d):].lstrip("/").split("/")[0] for x in list(self.files) + list(self.dirs) if x.startswith(d.rstrip("/") + "/") and x != d}
        return sorted(names, reverse=not lib.RUN)

    def listm(self, make):
        def f(p):
            d = posixpath.normpath(p)
            if d not in self.dirs:
                return "raise", "NotADirectoryError" if d in self.files else "FileNotFoundError"
            return "ret", mk("list", *[make(posixpath.join(p, n), posixpath.join(d, n) in self.dirs) for n in self.listing(d)])
        return f

    def models(self):
        def path(a):
            return a[0].args[0] if a and a[0].op == "const" and isinstance(a[0].args[0], str) else None

        def onpath(f):
            def m(a, k, st):
                p = path(a)
                return None if p is None else f(p)
            return m

        def reader(kinds, fail, make):
            def f(p):
                x = self.files.get(p)
                if p not in self.files:
                    return "raise", "FileNotFoundError"
                if x is None or x["kind"] not in kinds:
                    return "raise", fail(x)
                return "ret", make(p, x["data"])
            return onpath(f)

        def globm(a, k, st):
            p = path(a)
            if p is None:
                return None
            return "ret", mk("list", *[const(x) for x in self.glob(p, k.get("recursive") is TRUE)])
        oserr = lambda x: "OSError"
        val = lambda x: "ValueError"
        return {
            "os.path.isdir": onpath(lambda p: ("ret", const(posixpath.normpath(p) in self.dirs))),
            "os.path.isfile": onpath(lambda p: ("ret", const(p in self.files))),
            "os.path.exists": onpath(lambda p: ("ret", const(p in self.files or posixpath.normpath(p) in self.dirs))),
            "glob.glob": globm, "glob.iglob": globm,
            "os.scandir": onpath(self.listm(lambda p, isdir: mk("direntry", const(p), const(isdir)))),
            "os.listdir": onpath(self.listm(lambda p, isdir: const(posixpath.basename(p)))),
            "np.load": reader(("npy",), val, lambda p, d: d),
            "h5py.File": reader(("h5", "mat73"), oserr, lambda p, d: mk("h5", h5(d))),
            "h5py.is_hdf5": onpath(lambda p: ("ret", const((self.files.get(p) or {}).get("kind") in ("h5", "mat73")))),
            "scipy.io.loadmat": reader(("mat5",), lambda x: "NotImplementedError" if x and x["kind"] == "mat73" else "ValueError",
                                       lambda p, d: mk("dict", ((const("__header__"), const("")),) + tuple((const(k), v) for k, v in d.items()))),
            "PIL.Image.open": reader(("img",), oserr, lambda p, d: mk("pil", d)),
        }

    def truth(self, x, st=None):
        if x.op == "isinstance":
            v, names = x.args
            base = v
            while base.op in ("index", "T") or base.op == "shapeop":
                base = base.args[1] if base.op == "shapeop" else base.args[0]
            if base.op == "arr":
                return any(n in ("h5py.Dataset", "np.ndarray", "object") for n in names)
            if v.op == "h5":
                return any(n in ("h5py.Group", "h5py.File", "object") for n in names)
        return None


def h5(d):
    return mk("dict", tuple((const(k), mk("h5", h5(v)) if isinstance(v, dict) else v) for k, v in d.items()))


def npy(p, *shape):
    return {"kind": "npy", "data": arr(p, *(shape or ("H", "W", 2)))}


def hdf5(p, slices, key="flow"):
    return {"kind": "h5", "data": {key: arr(p, "X", slices, "Z", 3)}}


def img(p):
    return {"kind": "img", "data": arr(p, "IH", "IW", 3)}
