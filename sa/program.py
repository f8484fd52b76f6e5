"""Loads /repo's current source and resolves modules, imports, classes and MROs."""
from __future__ import annotations
import ast
import os

REPO = os.environ.get("SA_REPO", "/repo")


class AnalysisBroken(Exception):
    """An anchor (public entry point) of the analysis is gone."""


class Func:
    def __init__(self, node, module, cls=None, name=None):
        self.node, self.module, self.cls = node, module, cls
        self.name = name or getattr(node, "name", "<lambda>")
        base = f"{module.name}." + (f"{cls.name}." if cls else "")
        self.qual = base + self.name
        self.kind = "func"
        self.is_property = self.is_setter = False
        for d in getattr(node, "decorator_list", []):
            s = ast.unparse(d)
            if s == "classmethod":
                self.kind = "classmethod"
            elif s == "staticmethod":
                self.kind = "staticmethod"
            elif s in ("property", "functools.cached_property", "cached_property"):
                self.is_property = True
            elif s.endswith(".setter"):
                self.is_setter = True

    @property
    def loc(self):
        return f"{self.module.rel}:{self.node.lineno}"


class Class:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.qual = f"{module.name}.{node.name}"
        self.methods, self.setters, self.attrs, self.fields = {}, {}, {}, []
        self.decorators = [ast.unparse(d) for d in node.decorator_list]
        self.is_dataclass = any(d.split("(")[0].split(".")[-1] == "dataclass" for d in self.decorators)
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(st, module, self)
                if f.is_setter:
                    self.setters[st.name] = f
                else:
                    self.methods[st.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.fields.append((st.target.id, st.value))
                if st.value is not None:
                    self.attrs[st.target.id] = st.value
        self._mro = None


class Module:
    def __init__(self, name, path, src=None):
        self.name, self.path = name, path
        self.rel = os.path.relpath(path, REPO) if src is None else f"<{name}>"
        self.src = open(path, encoding="utf-8").read() if src is None else src
        self.tree = ast.parse(self.src, path)
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.names = {}
        self._scan(self.tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.names[st.name] = ("func", Func(st, self))
            elif isinstance(st, ast.ClassDef):
                self.names[st.name] = ("class", Class(st, self))
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.names[a.asname] = ("import", a.name)
                    else:
                        self.names[a.name.split(".")[0]] = ("import", a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ""
                if st.level:
                    parts = self.name.split(".")
                    if not self.is_pkg:
                        parts = parts[:-1]
                    parts = parts[: len(parts) - (st.level - 1)]
                    base = ".".join(parts + ([st.module] if st.module else []))
                for a in st.names:
                    self.names[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.names[t.id] = ("expr", st.value)
                    elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(st.value, (ast.Tuple, ast.List)) and len(t.elts) == len(st.value.elts):
                        for a, b in zip(t.elts, st.value.elts):
                            if isinstance(a, ast.Name):
                                self.names[a.id] = ("expr", b)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.names[st.target.id] = ("expr", st.value)
            elif isinstance(st, (ast.If, ast.Try)):
                self._scan(st.body)
                for h in getattr(st, "handlers", []):
                    pass


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules: dict[str, Module] = {}
        src = os.path.join(self.repo, "src")
        for root, dirs, files in os.walk(src):
            dirs[:] = sorted(d for d in dirs if not d.startswith(".") and d != "__pycache__" and not d.endswith(".egg-info"))
            for f in sorted(files):
                if f.endswith(".py"):
                    rel = os.path.relpath(os.path.join(root, f), src)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[: -len(".__init__")]
                    elif rel == "__init__":
                        continue
                    self.modules[rel] = Module(rel, os.path.join(root, f))
        scr = os.path.join(self.repo, "scripts")
        self.script_modules = []
        if os.path.isdir(scr):
            for f in sorted(os.listdir(scr)):
                if f.endswith(".py"):
                    n = "scripts." + f[:-3]
                    self.modules[n] = Module(n, os.path.join(scr, f))
                    self.script_modules.append(n)

    # -------------------------------------------------------------- resolution
    def resolve(self, mod: Module, name: str, depth=0):
        """-> ('func',Func)|('class',Class)|('expr',node,Module)|('module',Module)|('ext',dotted)|None"""
        if depth > 12:
            return None
        e = mod.names.get(name)
        if e is None:
            return None
        if e[0] in ("func", "class"):
            return e
        if e[0] == "expr":
            return ("expr", e[1], mod)
        if e[0] == "import":
            if e[1] in self.modules:
                return ("module", self.modules[e[1]])
            return ("ext", e[1])
        base, nm = e[1], e[2]
        return self.resolve_from(mod, base, nm, depth)

    def resolve_from(self, mod, base, nm, depth=0):
        cand = [base]
        if mod is not None and mod.name.startswith("scripts."):
            cand = ["scripts." + base, base]
        for b in cand:
            full = f"{b}.{nm}" if b else nm
            if b in self.modules:
                r = self.resolve(self.modules[b], nm, depth + 1)
                if r is not None:
                    return r
            if full in self.modules:
                return ("module", self.modules[full])
        return ("ext", f"{base}.{nm}" if base else nm)

    def module_attr(self, m: Module, name):
        r = self.resolve(m, name)
        if r is None and f"{m.name}.{name}" in self.modules:
            return ("module", self.modules[f"{m.name}.{name}"])
        return r

    def mro(self, c: Class):
        if c._mro is None:
            out, exts = [c], []
            seqs = []
            for b in c.node.bases:
                if isinstance(b, ast.Subscript):
                    b = b.value
                r = None
                if isinstance(b, ast.Name):
                    r = self.resolve(c.module, b.id)
                elif isinstance(b, ast.Attribute):
                    r = self._dotted(c.module, b)
                if r and r[0] == "class":
                    seqs.append(list(self.mro(r[1])[0]))
                    exts += self.mro(r[1])[1]
                elif r and r[0] == "ext":
                    exts.append(r[1])
                elif isinstance(b, ast.Name):
                    exts.append(b.id)
            # C3-like merge
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in o[1:] for o in seqs):
                        break
                else:
                    h = seqs[0][0]
                out.append(h)
                seqs = [[x for x in s if x is not h] for s in seqs]
                seqs = [s for s in seqs if s]
            c._mro = (out, exts)
        return c._mro

    def _dotted(self, mod, node):
        parts = []
        while isinstance(node, ast.Attribute):
            parts.append(node.attr)
            node = node.value
        if not isinstance(node, ast.Name):
            return None
        r = self.resolve(mod, node.id)
        for p in reversed(parts):
            if r is None:
                return None
            if r[0] == "module":
                r = self.module_attr(r[1], p)
            elif r[0] == "ext":
                r = ("ext", r[1] + "." + p)
            else:
                return None
        return r

    def find_method(self, c: Class, name, after: Class | None = None):
        m, _ = self.mro(c)
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else m[1:]
        for k in m:
            if name in k.methods:
                return k.methods[name]
        return None

    def find_setter(self, c, name):
        for k in self.mro(c)[0]:
            if name in k.setters:
                return k.setters[name]
            if name in k.methods:
                return None
        return None

    def find_attr(self, c, name):
        for k in self.mro(c)[0]:
            if name in k.attrs:
                return k.attrs[name], k
        return None

    def is_subclass(self, c: Class, d: Class):
        return d in self.mro(c)[0]

    def dataclass_fields(self, c):
        out = []
        for k in reversed(self.mro(c)[0]):
            if k.is_dataclass:
                for f, d in k.fields:
                    out = [x for x in out if x[0] != f] + [(f, d, k)] if False else out
                    if f in [x[0] for x in out]:
                        out = [(f, d, k) if x[0] == f else x for x in out]
                    else:
                        out.append((f, d, k))
        return out

    # -------------------------------------------------------------- anchors
    def get(self, dotted):
        """Find a public anchor 'module:Class.method' or 'module:func' (re-exports followed)."""
        modn, _, path = dotted.partition(":")
        parts = path.split(".")
        m = self.modules.get(modn)
        r = self.resolve(m, parts[0]) if m else None
        if r is None or r[0] not in ("func", "class"):
            # the symbol may have moved to another module: look for a unique public definition
            cands = [x.names[parts[0]] for x in self.modules.values()
                     if parts[0] in x.names and x.names[parts[0]][0] in ("func", "class")
                     and x.name.split(".")[0] == modn.split(".")[0]]
            if len(cands) == 1:
                r = cands[0]
            else:
                raise AnalysisBroken(f"anchor {dotted} not found")
        if len(parts) == 1:
            return r[1]
        if r[0] != "class":
            raise AnalysisBroken(f"anchor {dotted} not found")
        f = self.find_method(r[1], parts[1])
        if f is None:
            raise AnalysisBroken(f"anchor {dotted} not found")
        return f
