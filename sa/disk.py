"""A disk that changes while a program runs: its contents follow from the trace."""
from __future__ import annotations
import posixpath
import struct
from . import files as F
from . import lib
from . import paths
from . import terms as t
from .env import Env
from .terms import mk, const, T, NONE, TRUE, FALSE

norm = posixpath.normpath


def single(ty):
    return isinstance(ty, T) and (ty.op == "ext" and ty.args[0] == "np.float32" or ty.op == "const" and ty.args[0] in ("float32", "<f4", "f4"))


def integer(ty):
    return isinstance(ty, T) and (ty.op == "ext" and ty.args[0] == "np.int32" or ty.op == "const" and ty.args[0] in ("int32", "<i4", "i4"))


def garbage(x):
    """Bytes read at another place or as another type."""
    return mk("arr", "not " + str(x.args[0]), x.args[1])


class Entry:
    """One file: kind "text" (pieces), "copy of what was there", "fetched" (url, complete) or "data" (datasets)."""

    def __init__(self, kind, **k):
        self.kind, self.k = kind, k
        self.complete = k.pop("complete", True)

    def __getattr__(self, n):
        try:
            return self.__dict__["k"][n]
        except KeyError:
            raise AttributeError(n)

    def text(self):
        """The text of the file, or None when it is not known."""
        if self.kind == "text":
            holes, out = [], ""
            for how, x in self.k["pieces"]:
                if how == "lines" and x.op in ("list", "tuple"):
                    out += "".join(F.render(y, holes) for y in x.args)
                elif how == "text":
                    out += F.render(x, holes)
                else:
                    return None
            return out if not holes else None
        return None


def txt(s):
    return Entry("text", pieces=[("text", const(s))])


class Disk:
    """files: path -> Entry; fetch(url) -> Entry or None; fails(n, url) -> exception of the n-th download or None.
    effects: name of an outside function -> f(files, dirs, event, n) of its n-th call; broken: functions that fail."""

    def __init__(self, files=None, dirs=(), fetch=None, fails=None, effects=None, broken=()):
        self.effects, self.broken = effects or {}, set(broken)
        self.files = {norm(k): v for k, v in (files or {}).items()}
        self.dirs = {norm(d) for d in dirs}
        for f in self.files:
            self.parents(f, self.dirs)
        self.fetch = fetch or (lambda url: Entry("fetched", url=url))
        self.fails = fails or (lambda n, url: None)

    @staticmethod
    def parents(f, dirs):
        d = posixpath.dirname(f)
        while d and d not in dirs and d != "/":
            dirs.add(d)
            d = posixpath.dirname(d)

    # ------------------------------------------------------------ replay
    def state(self, trace, upto=None):
        """(files, dirs) after these events."""
        files, dirs = dict(self.files), set(self.dirs)
        handles, nget, calls = {}, 0, {}
        for n, e in enumerate(trace):
            if upto is not None and n >= upto:
                break
            if e.kind == "exit" and e.callee in handles:
                self.close(files, handles, e.callee)
            h = e.callee
            while e.kind == "setitem" and isinstance(h, T) and h.op == "setitem":
                h = h.args[0]
            if e.kind == "setitem" and h in handles and handles[h] in files:
                f = files[handles[h]]
                if f.kind == "data":
                    files[handles[h]] = Entry("data", data={**f.data, F.structure(e.args[0]): e.args[1]}, complete=f.complete)
                continue
            if e.kind != "call" or not isinstance(e.callee, T):
                continue
            name = F.name(e.callee)
            if name in self.broken:
                continue
            if name in self.effects:
                self.effects[name](files, dirs, e, calls.get(name, 0))
                calls[name] = calls.get(name, 0) + 1
                continue
            a = [norm(p) if (p := paths.text(x)) is not None else None for x in e.args]
            kw = dict(e.kwargs)
            if name == "open" and a and a[0] is not None:
                m = e.args[1] if len(e.args) > 1 else kw.get("mode", const("r"))
                m = m.args[0] if m.op == "const" else "?"
                if m[0] in "wax":
                    old = files.get(a[0])
                    keep = list(old.k["pieces"]) if m[0] == "a" and old is not None and old.kind == "text" else []
                    files[a[0]] = Entry("text", pieces=keep, complete=False)
                    handles[e.result] = a[0]
            elif name == "h5py.File" and a and a[0] is not None:
                m = e.args[1] if len(e.args) > 1 else kw.get("mode", const("r"))
                if m.op == "const" and m.args[0][:1] in ("w", "x", "a"):
                    files[a[0]] = Entry("data", data={}, complete=False)
                    handles[e.result] = a[0]
            elif name in (".write", ".writelines", ".create_dataset", ".close", ".flush") and e.callee.args[0] in handles:
                p = handles[e.callee.args[0]]
                f = files.get(p)
                if name == ".close":
                    self.close(files, handles, e.callee.args[0])
                elif f is not None and f.kind == "text" and name in (".write", ".writelines") and e.args:
                    files[p] = Entry("text", pieces=f.pieces + [("text" if name == ".write" else "lines", e.args[0])], complete=f.complete)
                elif f is not None and f.kind == "data" and name == ".create_dataset":
                    key = e.args[0] if e.args else kw.get("name")
                    d = kw.get("data", e.args[3] if len(e.args) > 3 else None)
                    files[p] = Entry("data", data={**f.data, F.structure(key): d}, complete=f.complete)
            elif name == "print" and kw.get("file") in handles:
                p = handles[kw["file"]]
                f = files.get(p)
                if f is not None and f.kind == "text":
                    files[p] = Entry("text", pieces=f.pieces + F.printed(e), complete=f.complete)
            elif name in (".extractall", ".extract") and e.callee.args[0].op == "zip":
                z = files.get(e.callee.args[0].args[0].args[0])
                only = [a[0]] if name == ".extract" else None
                dst = kw.get("path", e.args[0 if only is None else 1] if len(e.args) > (0 if only is None else 1) else const("."))
                if z is not None and z.kind == "zip" and paths.text(dst) is not None:
                    for m, x in z.members.items():
                        if only is None or norm(m) in only:
                            f = norm(posixpath.join(paths.text(dst), m))
                            files[f] = x
                            self.parents(f, dirs)
            elif name == ".touch" and e.callee.args[0].op == "path":
                p = norm(paths.text(e.callee.args[0]))
                files.setdefault(p, Entry("text", pieces=[]))
            elif name in (".write_text",) and e.callee.args[0].op == "path":
                files[norm(paths.text(e.callee.args[0]))] = Entry("text", pieces=[("text", e.args[0])])
            elif name in ("os.replace", "os.rename", "shutil.move") and len(a) > 1 and a[0] in files and a[1] is not None:
                dst = posixpath.join(a[1], posixpath.basename(a[0])) if name == "shutil.move" and a[1] in dirs else a[1]
                files[dst] = files.pop(a[0])
                self.parents(dst, dirs)
            elif name in ("shutil.copy", "shutil.copy2", "shutil.copyfile", "os.link") and len(a) > 1 and a[0] in files and a[1] is not None:
                dst = posixpath.join(a[1], posixpath.basename(a[0])) if a[1] in dirs and name in ("shutil.copy", "shutil.copy2") else a[1]
                files[dst] = files[a[0]]
            elif name in ("os.remove", "os.unlink") and a and a[0] is not None:
                files.pop(a[0], None)
            elif name in ("os.makedirs", "os.mkdir") and a and a[0] is not None:
                dirs.add(a[0])
                self.parents(a[0], dirs)
            elif name in ("urllib.request.urlretrieve",):
                url, dst = F.structure(e.args[0]), kw.get("filename", e.args[1] if len(e.args) > 1 else None)
                p = paths.text(dst) if isinstance(dst, T) else None
                if p is not None:
                    got = self.fetch(url)
                    bad = self.fails(nget, url) is not None or got is None
                    files[norm(p)] = Entry("fetched", url=url, complete=False) if bad else got
                nget += 1
        return files, dirs

    EFFECTS = ("open", "h5py.File", "os.replace", "os.rename", "shutil.move", "shutil.copy", "shutil.copy2", "shutil.copyfile", "os.remove",
               "os.unlink", "print", ".write", ".writelines", ".write_text", ".touch", ".create_dataset", "urllib.request.urlretrieve", ".extractall", ".extract")

    PLACES = {"open": (0,), "h5py.File": (0,), "os.replace": (0, 1), "os.rename": (0, 1), "shutil.move": (0, 1), "shutil.copy": (0, 1),
              "shutil.copy2": (0, 1), "shutil.copyfile": (0, 1), "os.remove": (0,), "os.unlink": (0,), "urllib.request.urlretrieve": (1,),
              ".extractall": (0,), "os.makedirs": (0,), "os.mkdir": (0,)}

    def clear(self, trace):
        """Is the state known (nothing was stored in a loop of unknown length, or at a place with an unknown name)?"""
        for e in trace:
            if e.kind == "call" and isinstance(e.callee, T) and F.name(e.callee) in self.PLACES:
                for k in self.PLACES[F.name(e.callee)]:
                    if k < len(e.args) and isinstance(e.args[k], T) and paths.text(e.args[k]) is None and e.args[k].op not in ("ret", "binfile"):
                        return False
        return not any(e.kind == "setitem" or isinstance(e.callee, T) and F.name(e.callee) in self.EFFECTS for e in F.hidden(trace))

    def stages(self, trace, path):
        """The states a file goes through, with the first event at which each is seen; "partly written" when it is filled in place."""
        out, path = [], norm(path)
        for n in range(len(trace) + 1):
            if n:
                e = trace[n - 1]
                if e.kind == "call" and isinstance(e.callee, T) and F.name(e.callee) in self.INPLACE and F.name(e.callee) not in self.broken:
                    kw = dict(e.kwargs)
                    k = self.INPLACE[F.name(e.callee)]
                    x = kw.get(k[1], e.args[k[0]] if len(e.args) > k[0] else None)
                    p = paths.text(x) if isinstance(x, T) else None
                    if p is not None and F.name(e.callee) in ("shutil.copy", "shutil.copy2") and norm(p) in self.state(trace, n)[1]:
                        src = paths.text(e.args[0]) if e.args else None
                        p = posixpath.join(p, posixpath.basename(src)) if src else None
                    if p is not None and norm(p) == path:
                        out.append(("partly written", e.loc))
            f = self.state(trace, n)[0].get(path)
            out.append((f, trace[n - 1].loc if n else ""))
        return out

    INPLACE = {"urllib.request.urlretrieve": (1, "filename"), "shutil.copy": (1, "dst"), "shutil.copy2": (1, "dst"), "shutil.copyfile": (1, "dst")}

    @staticmethod
    def close(files, handles, h):
        p = handles.get(h)
        f = files.get(p)
        if f is not None and not f.complete:
            files[p] = Entry(f.kind, **f.k)

    # ------------------------------------------------------------ what a program is told
    def models(self):
        def at(f):
            def m(a, k, st):
                p = paths.text(a[0]) if a else None
                return None if p is None else f(norm(p), *self.state(st.trace), a, k)
            return m

        def opens(a, k, st):
            return at(openm)(a, {**k, "_n": sum(1 for e in st.trace if e.kind == "call" and isinstance(e.callee, T) and F.name(e.callee) == "open")}, st)

        def stored(kinds, fail, make):
            """Reading a file of these kinds."""
            def f(p, files, dirs, a, k):
                x = files.get(p)
                if x is None:
                    return "raise", "FileNotFoundError"
                return ("ret", make(x)) if x.kind in kinds and x.complete else ("raise", fail)
            return at(f)

        def zipm(p, files, dirs, a, k):
            if p not in files:
                return "raise", "FileNotFoundError"
            if mode(a, k) != "r":
                return None
            return ("ret", mk("zip", const(p))) if files[p].kind == "zip" and files[p].complete else ("raise", "zipfile.BadZipFile")

        def broken(name):
            return lambda a, k, st: ("raise", "OSError")

        def fromfile(a, k, st):
            if not a or a[0].op != "binfile":
                return None
            v = self.read(a[0], a[2] if len(a) > 2 else k.get("count", const(-1)), st, a[1] if len(a) > 1 else k.get("dtype"))
            return None if v is None else ("ret", v)

        def unpack(a, k, st):
            if len(a) < 2 or any(x.op != "const" for x in a[:2]) or not isinstance(a[1].args[0], bytes):
                return None
            try:
                return "ret", mk("tuple", *[const(x) for x in struct.unpack(a[0].args[0], a[1].args[0])])
            except struct.error:
                return "raise", "struct.error"

        def frombuffer(a, k, st):
            ty = a[1] if len(a) > 1 else k.get("dtype")
            return ("ret", a[0] if single(ty) else garbage(a[0])) if a and a[0].op == "arr" else None

        def env(st):
            files, dirs = self.state(st.trace)
            return Env({f: {} for f in files}, dirs)

        def globm(a, k, st):
            p = paths.text(a[0]) if a else None
            if p is None:
                return None
            return "ret", mk("list", *[const(x) for x in env(st).glob(norm(p), k.get("recursive") is TRUE)])

        def listm(p, files, dirs, a, k):
            if p not in dirs:
                return "raise", "FileNotFoundError"
            return "ret", mk("list", *[const(x) for x in Env({f: {} for f in files}, dirs).listing(p)])

        def mode(a, k):
            m = a[1] if len(a) > 1 else k.get("mode", const("r"))
            return m.args[0] if m.op == "const" else "?"

        def openm(p, files, dirs, a, k):
            m = mode(a, k)
            if m in ("r", "rt"):
                if p not in files:
                    return "raise", "FileNotFoundError"
                s = files[p].text()
                return None if s is None else ("ret", mk("textfile", const(s)))
            if m == "rb" and p not in files:
                return "raise", "FileNotFoundError"
            if m == "rb" and files[p].kind == "flo":
                return "ret", mk("binfile", const(p), const(k.pop("_n", 0)))
            if m[0] in "wax" and posixpath.dirname(p) not in dirs and posixpath.dirname(p) not in ("", "/"):
                return "raise", "FileNotFoundError"
            if m[0] == "x" and p in files:
                return "raise", "FileExistsError"
            return None

        def move(p, files, dirs, a, k):
            return None if p in files or p in dirs else ("raise", "FileNotFoundError")

        def makedirs(p, files, dirs, a, k):
            if p in dirs and k.get("exist_ok", a[2] if len(a) > 2 else FALSE) is not TRUE:
                return "raise", "FileExistsError"
            return "ret", NONE

        def get(a, k, st):
            n = sum(1 for e in st.trace if e.kind == "call" and isinstance(e.callee, T) and F.name(e.callee) == "urllib.request.urlretrieve")
            url = F.structure(a[0])
            exc = self.fails(n, url)
            if exc is None and self.fetch(url) is None:
                exc = "urllib.error.HTTPError"
            return ("raise", exc) if exc is not None else ("ret", mk("tuple", k.get("filename", a[1] if len(a) > 1 else NONE), NONE))
        ret = lambda v: ("ret", const(v))
        return {
            "os.path.isdir": at(lambda p, f, d, a, k: ret(p in d)),
            "os.path.isfile": at(lambda p, f, d, a, k: ret(p in f)),
            "os.path.exists": at(lambda p, f, d, a, k: ret(p in f or p in d)),
            "os.listdir": at(listm), "glob.glob": globm, "glob.iglob": globm, "open": opens,
            "os.replace": at(move), "os.rename": at(move), "shutil.move": at(move), "shutil.copy": at(move), "shutil.copy2": at(move),
            "shutil.copyfile": at(move), "os.remove": at(move), "os.unlink": at(move),
            "os.makedirs": at(makedirs), "os.mkdir": at(makedirs), "urllib.request.urlretrieve": get,
            "PIL.Image.open": stored(("img",), "PIL.UnidentifiedImageError", lambda x: mk("pil", x.data)),
            "scipy.io.loadmat": stored(("mat5",), "ValueError", lambda x: mk("dict", ((const("__header__"), const("")),) + tuple(
                (const(k), v) for k, v in x.data.items()))),
            "np.fromfile": fromfile, "np.frombuffer": frombuffer, "struct.unpack": unpack,
            "zipfile.ZipFile": at(zipm), "zipfile.is_zipfile": at(lambda p, f, d, a, k: ret(p in f and f[p].kind == "zip" and f[p].complete)),
            **{n: broken(n) for n in self.broken},
        }

    def read(self, h, count, st, ty=None):
        """What the next read of this file yields (`ty`: the type of the elements; without it bytes), or None when not known."""
        f = self.state(st.trace)[0].get(h.args[0].args[0])
        if f is None or f.kind != "flo":
            return None
        head = f.magic + struct.pack("ii", f.width, f.height)
        at, size = 0, lambda x: 1 if x is None else 4 if single(x) or integer(x) else None
        for e in st.trace:
            if e.kind != "call" or not isinstance(e.callee, T) or at is None:
                continue
            a, kw = e.args, dict(e.kwargs)
            if F.name(e.callee) == ".read" and e.callee.args[0] is h:
                n, w = a[0] if a else const(-1), 1
            elif F.name(e.callee) == "np.fromfile" and a and a[0] is h:
                n, w = a[2] if len(a) > 2 else kw.get("count", const(-1)), size(a[1] if len(a) > 1 else kw.get("dtype"))
            else:
                continue
            at = at + n.args[0] * w if n.op == "const" and w and n.args[0] >= 0 else None
        w = size(ty)
        if at is None or w is None or count.op != "const":
            return None if w is not None else garbage(f.data)
        n = count.args[0]
        if n >= 0 and at + n * w <= len(head):
            if ty is not None and not integer(ty):
                return garbage(f.data)
            raw = head[at:at + n * w]
            return const(raw) if ty is None else mk("array", mk("list", *[const(x) for x in struct.unpack(f"{n}i", raw)]))
        if at == len(head) and (n < 0 or n * w == 8 * f.width * f.height) and (ty is None or single(ty)):
            return f.data
        return garbage(f.data)

    def install(self, I, models=None):
        I.disk, I.faultless = self, True
        I.models.update(self.models())
        I.models.update(models or {})
