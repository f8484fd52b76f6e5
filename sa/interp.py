"""Trace-partitioned abstract interpreter over the value-numbering domain.

Every public entry point is analysed with symbolic inputs; repository callees
are inlined (so extracting or merging helpers does not matter), branches are
partitioned, loops are summarised from one generic iteration (havoc of
everything the loop may write), and external calls are modelled by `lib`.
Nothing is executed and no path condition is handed to a solver: guards are
decided only by constant/interval/type facts.
"""
from __future__ import annotations
import ast
import builtins
import time
from . import terms as t
from . import alias, gens, pylib
from .terms import T, mk, const, NONE, TRUE, FALSE
from .program import Program, Func, Class, Module, AnalysisBroken


class Ev:
    """An effect event."""
    __slots__ = ("kind", "callee", "args", "kwargs", "result", "loc", "extra", "func")

    def __init__(self, kind, callee=None, args=(), kwargs=(), result=None, loc="", extra=None, func=""):
        self.kind, self.callee, self.args, self.kwargs = kind, callee, tuple(args), tuple(sorted(kwargs)) if kwargs else ()
        self.result, self.loc, self.extra, self.func = result, loc, extra, func

    def key(self):
        return (self.kind, self.callee, self.args, self.kwargs, id(self.extra) if self.extra is not None else None)

    def kw(self, name, default=None):
        for k, v in self.kwargs:
            if k == name:
                return v
        return default

    def __repr__(self):
        a = ", ".join([t.show(x, 4) for x in self.args] + [f"{k}={t.show(v, 4)}" for k, v in self.kwargs])
        return f"{self.kind}:{t.show(self.callee, 4) if isinstance(self.callee, T) else self.callee}({a})@{self.loc}"


class Loop:
    def __init__(self, kind, node, loc):
        self.kind, self.node, self.loc = kind, node, loc
        self.iter = None        # term for `for`
        self.cond = None
        self.mu = {}            # var/heap key -> mu term
        self.init = {}          # var/heap key -> initial term
        self.back = []          # [(St, segment trace)]
        self.exits = []         # states that leave through the guard / exhaustion
        self.breaks = []
        self.entry_trace_len = 0


class St:
    __slots__ = ("vars", "heap", "facts", "guards", "trace", "cnt", "links", "ret")

    def __init__(self):
        self.vars, self.heap, self.facts, self.guards, self.trace, self.cnt = {}, {}, {}, (), (), {}
        # places that hold the same mutable container (see alias.py)
        self.links = frozenset()
        # (container, place): what the last return statement gave back, if it is stored somewhere
        self.ret = None

    def copy(self):
        s = St.__new__(St)
        s.vars, s.heap, s.facts = dict(self.vars), dict(self.heap), dict(self.facts)
        s.guards, s.trace, s.cnt, s.links, s.ret = self.guards, self.trace, dict(self.cnt), self.links, self.ret
        return s

    def ev(self, e):
        self.trace = self.trace + (e,)

    def key(self):
        return (frozenset(self.vars.items()), frozenset(self.heap.items()), tuple(e.key() for e in self.trace), self.links)


class Frame:
    _n = 0

    def __init__(self, func, module, chain, cls=None, selfv=None):
        Frame._n += 1
        self.sid = Frame._n
        self.func, self.module, self.cls, self.selfv = func, module, cls, selfv
        self.chain = [self.sid] + list(chain)
        self.locals = set()
        self.globals = set()
        self.nonlocals = set()
        self.closures = False
        self.hook = None

    @property
    def name(self):
        return self.func.qual if self.func else self.module.name


class Closure:
    def __init__(self, func: Func, chain, cls, selfv, defaults):
        self.func, self.chain, self.cls, self.selfv, self.defaults = func, chain, cls, selfv, defaults


class Exit:
    def __init__(self, kind, st: St, val, loc=""):
        self.kind, self.st, self.val, self.loc = kind, st, val, loc

    def __repr__(self):
        return f"Exit({self.kind}, {t.show(self.val) if isinstance(self.val, T) else self.val})"


LOGGER_NAMES = ("get_logger", "getLogger")
MAX_STATES = 400
PHI_AT = 24
MUTATORS = {"append", "extend", "insert", "pop", "popleft", "appendleft", "update", "clear", "remove", "add", "setdefault",
            "sort", "reverse", "discard"}


class Budget(Exception):
    pass


class Interp:
    stop_at = None      # end of the time of the whole check

    def __init__(self, prog: Program, oracle=None, inline_depth=24, opaque=(), phi_at=PHI_AT):
        self.made = {}      # statements that others stand for
        self.gens = {}      # generators that wait for a consumer
        self.lazynode, self.lazygen = None, False
        self.kept = []      # syntax nodes made here stay alive (ids are keys)
        self.p = prog
        self.phi_at = phi_at
        self.oracle = oracle            # callable(term) -> True/False/None for boolean terms
        self.world = None               # schedule of threads (threads.World)
        self.disk = None                # what is stored where (disk.Disk)
        self.faultless = False          # calls of the outside world do not fail unless a model says so
        self.models = {}                # outside function -> meaning given by the caller of the analysis
        self.types: dict[T, Class] = {}  # declared classes of symbolic objects
        self.closures: dict[int, Closure] = {}
        self.collectors = []            # dynamic exception contexts
        self.stack = []                 # inlined functions
        self.depth = inline_depth
        self.opaque = set(opaque)       # qualified names not to inline
        self.total = set()              # ... of these, those that never raise
        self.nobj = 0
        self.nloop = 0
        self.active_iters = []
        self.notes = []                 # imprecision notes
        self.modcache = {}
        self.steps = 0
        self.max_steps = 400000
        self.deadline = time.monotonic() + 90
        self.inlined = set()
        self.callsites = 0
        from . import lib
        self.lib = lib
        self.loops = []

    # ------------------------------------------------------------ public API
    def run(self, func: Func, args=None, selfv=None, st=None, cls=None, kwargs=None):
        """Analyse `func` with the given argument terms (missing ones: symbols). -> [Exit]"""
        st = st.copy() if st is not None else St()
        node = func.node
        names = [a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs]
        bound = dict(kwargs or {})
        params = list(names)
        if func.cls is not None and func.kind != "staticmethod" and params:
            first = params.pop(0)
            if selfv is None:
                selfv = mk("class", (cls or func.cls).qual) if func.kind == "classmethod" else self.new_self(cls or func.cls)
        if args:
            for n, a in zip(params, args):
                bound[n] = a
        for n in params:
            if n not in bound:
                bound[n] = t.sym(n)
        if node.args.kwarg and node.args.kwarg.arg not in bound:
            pass
        exits = []
        coll = Collector(None)
        self.collectors.append(coll)
        try:
            for s, v in self.call_func(func, [], bound, st, None, selfv=selfv, cls=cls or func.cls, top=True):
                exits.append(Exit("return", s, v, func.loc))
        finally:
            self.collectors.pop()
        for s, e, loc in coll.items:
            exits.append(Exit("raise", s, e, loc))
        return exits

    def new_self(self, cls: Class, tag=0):
        return mk("obj", tag, cls.qual)

    def class_of(self, v: T):
        if v.op == "obj":
            return self.find_class(v.args[1])
        return self.types.get(v)

    def find_class(self, qual):
        modn, _, name = qual.rpartition(".")
        m = self.p.modules.get(modn)
        if m and name in m.names and m.names[name][0] == "class":
            return m.names[name][1]
        return None

    # ------------------------------------------------------------ truth
    def truth(self, c: T, st: St):
        if c.op == "const":
            v = c.args[0]
            return bool(v) if not isinstance(v, T) else None
        if c in st.facts:
            return st.facts[c]
        if c.op == "not":
            r = self.truth(c.args[0], st)
            return None if r is None else not r
        if c.op == "and":
            rs = [self.truth(x, st) for x in c.args]
            if any(r is False for r in rs):
                return False
            return True if all(r is True for r in rs) else self._ask(c, st)
        if c.op == "or":
            rs = [self.truth(x, st) for x in c.args]
            if any(r is True for r in rs):
                return True
            return False if all(r is False for r in rs) else self._ask(c, st)
        if c.op == "cmp":
            n = t.nott(c)
            if n in st.facts:
                return not st.facts[n]
            r = self._bound(c, st)
            if r is not None:
                return r
        if c.op in ("list", "tuple", "set"):
            return len(c.args) > 0
        if c.op == "dict":
            return len(c.args[0]) > 0
        if c.op in ("obj", "closure", "func", "class", "bound", "xnew", "excobj", "rematch"):
            return True
        if c.op == "xqueue":
            return len(self.world.items(st, c.args[0]).args) > 0
        return self._ask(c, st)

    def _ask(self, c, st):
        return self.oracle(c, st) if self.oracle else None

    def _split(self, p):
        """poly -> (nonconst key, const)"""
        d = t.poly_of(p)
        if d is None:
            return None, None
        c = d.pop((), 0)
        return d, c

    def _bound(self, c, st):
        o, p = c.args
        d, k = self._split(p)
        if d is None or not d:
            return None
        key = frozenset(d.items())
        nkey = frozenset((m, -v) for m, v in d.items())
        # facts:  e + k1 <(=) 0  =>  e <(=) -k1 ;  -e + k1 <(=) 0  => e >(=) k1
        hi, his, lo, los = None, False, None, False
        for f, val in st.facts.items():
            if f.op != "cmp":
                continue
            ff = f if val else t.nott(f)
            d2, k2 = self._split(ff.args[1])
            if not d2:
                continue
            fk = frozenset(d2.items())
            strict = ff.args[0] == "<"
            if fk == key:
                b = -k2
                if hi is None or b < hi or (b == hi and strict):
                    hi, his = b, strict
            elif fk == nkey:
                b = k2
                if lo is None or b > lo or (b == lo and strict):
                    lo, los = b, strict
        # query e < -k or e <= -k
        q = -k
        if hi is not None:
            if o == "<=" and hi <= q:
                return True
            if o == "<" and (hi < q or (hi == q and his)):
                return True
        if lo is not None:
            if o == "<=" and (lo > q or (lo == q and los)):
                return False
            if o == "<" and lo >= q:
                return False
        return None

    def assume(self, st: St, c: T, pol: bool, loc=""):
        """New state where c has truth value pol, or None if impossible."""
        r = self.truth(c, st)
        if r is not None and r != pol:
            return None
        s = st.copy()
        if r is None:
            s.guards = s.guards + ((c, pol, loc),)
        self._addfact(s, c, pol)
        return s

    def _addfact(self, s, c, pol):
        if c.op == "const":
            return
        s.facts[c] = pol
        if c.op == "not":
            self._addfact(s, c.args[0], not pol)
        elif c.op == "and" and pol:
            for x in c.args:
                self._addfact(s, x, True)
        elif c.op == "or" and not pol:
            for x in c.args:
                self._addfact(s, x, False)
        elif c.op == "and" and not pol:
            rest = [x for x in c.args if self.truth(x, _without(s, c)) is not True]
            if len(rest) == 1:
                self._addfact(s, rest[0], False)
        elif c.op == "or" and pol:
            rest = [x for x in c.args if self.truth(x, _without(s, c)) is not False]
            if len(rest) == 1:
                self._addfact(s, rest[0], True)

    # ------------------------------------------------------------ raise
    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget("step budget exceeded")
        if self.steps % 128 == 0:
            now = time.monotonic()
            if now > self.deadline or Interp.stop_at is not None and now > Interp.stop_at:
                raise Budget("time budget exceeded")

    def raise_(self, st, exc, loc):
        self.collectors[-1].items.append((st, exc, loc))

    def in_try(self):
        return any(c.active for c in self.collectors)

    def may_raise(self, st, call, loc, known=None):
        """External call may raise; only modelled when an enclosing try observes it."""
        if not self.in_try() or self.faultless:
            return
        if known is not None:
            for k in known:
                s = st.copy()
                s.guards += ((mk("raises", call, k), True, loc),)
                self.raise_(s, mk("excobj", k, (call,)), loc)
            return
        s = st.copy()
        # (whether it really does is not known)
        s.guards += ((mk("raises", call, ""), True, loc),)
        self.raise_(s, mk("excany", call), loc)

    # ------------------------------------------------------------ calls
    argplaces = None    # where the arguments of the call at hand come from (mutable containers)

    def call_func(self, func: Func, args, kwargs, st, loc, selfv=None, cls=None, chain=(), defaults=None, top=False,
                  star=None, dstar=None, hook=None):
        """Inline a repository function. -> [(St, value)]; raises go to the collector."""
        lazy, self.lazygen = self.lazygen, False
        if hook is None and not top and gens.is_gen(func):
            kw = {"selfv": selfv, "cls": cls, "chain": chain, "defaults": defaults, "star": star, "dstar": dstar}
            if lazy:
                self.gens[len(self.gens)] = (func, args, kwargs, loc, kw, self.argplaces)
                self.argplaces = None
                return [(st, mk("gen", len(self.gens) - 1))]
            return gens.eager(self, func, args, kwargs, st, loc, kw)
        self.callsites += 1
        if not top and (len(self.stack) > self.depth or self.stack.count(func.qual + str(id(func.node))) > 1):
            self.notes.append(f"not inlined (depth): {func.qual}")
            return [(st, self.opaque_call(mk("func", func.qual), args, kwargs, st, loc))]
        self.inlined.add(func.qual)
        fr = Frame(func, func.module, chain, cls or func.cls, selfv)
        fr.hook = hook
        node = func.node
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        st = st.copy()
        bind = {}
        pos = list(args)
        if func.cls is not None and func.kind != "staticmethod" and not isinstance(node, ast.Lambda) and func.cls.methods.get(func.name) is not None or (func.is_setter):
            if selfv is not None:
                pos = [selfv] + pos
        n = min(len(pos), len(params))
        for i in range(n):
            bind[params[i]] = pos[i]
        if len(pos) > len(params):
            if a.vararg:
                bind[a.vararg.arg] = mk("tuple", *pos[len(params):])
        elif a.vararg:
            bind[a.vararg.arg] = mk("tuple") if star is None else star
        if star is not None and not a.vararg:
            j = 0
            for i in range(n, len(params)):
                if params[i] not in kwargs:
                    bind[params[i]] = self.lib.index(star, const(j))
                    j += 1
        extra = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in params or k in kwonly:
                bind[k] = v
            else:
                extra[k] = v
        if a.kwarg:
            if dstar is not None:
                bind[a.kwarg.arg] = dstar
            else:
                bind[a.kwarg.arg] = kwargs.get(a.kwarg.arg) if top and a.kwarg.arg in kwargs else mk(
                    "dict", tuple((const(k), v) for k, v in extra.items()))
                if top and not extra:
                    bind[a.kwarg.arg] = t.sym(a.kwarg.arg)
        # defaults
        dn = params[len(params) - len(a.defaults):] if a.defaults else []
        dmap = dict(zip(dn, a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                dmap[x.arg] = d
        mfr = Frame(None, func.module, chain)
        for nme in params + kwonly:
            if nme not in bind:
                if dstar is not None and nme in dmap:
                    dv = self.ev1(dmap[nme], st, mfr)
                    bind[nme] = mk("cfgget", dstar, const(nme), dv)
                elif nme in dmap:
                    bind[nme] = defaults[nme] if defaults and nme in defaults else self.ev1(dmap[nme], st, mfr)
                else:
                    bind[nme] = mk("unbound", func.qual, nme) if not top else t.sym(nme)
        given, self.argplaces = self.argplaces, None
        for k, v in bind.items():
            st.vars[(fr.sid, k)] = v
            fr.locals.add(k)
        if given is not None:
            places = dict(zip(reversed(params[:n]), reversed(given[0]))) if star is None else {}
            places.update(given[1])
            for k, (pl, v) in places.items():
                if pl is not None and bind.get(k) is v:
                    alias.link(st, ("v", fr.sid, k), pl)
        self._scan_locals(node, fr)
        self.stack.append(func.qual + str(id(node)))
        try:
            if isinstance(node, ast.Lambda):
                res = [(s, "r", v) for s, v in self.ev(node.body, st, fr)]
            else:
                res = self.block(node.body, st, fr)
        finally:
            self.stack.pop()
        out = []
        for s, flow, v in res:
            if flow == "n":
                v = NONE
            elif flow in ("b", "c"):
                continue
            if not fr.closures and not top:
                s = s.copy()
                for k in [k for k in s.vars if k[0] == fr.sid]:
                    del s.vars[k]
                if s.ret is not None and alias.root(s.ret[1])[0] == "v" and alias.root(s.ret[1])[1] == fr.sid:
                    o = alias.outside(s, s.ret[1], fr.sid)
                    s.ret = (s.ret[0], o) if o is not None else None
                alias.leave(s, fr.sid)
            out.append((s, v))
        if top:
            self.last_frame = fr
            return self.merge(out)
        if hook is not None:
            return self.merge(out)
        return self.phi(self.merge(out))

    def merge(self, out):
        """Merge states that differ only in what was assumed."""
        if len(out) < 2:
            return out
        groups = {}
        for s, v in out:
            groups.setdefault((s.key(), v), []).append(s)
        res = []
        for (k, v), ss in groups.items():
            res.append((self._join(ss), v))
        return res

    def phi(self, out, at=None):
        """Join states with the same effects once there are too many of them."""
        if len(out) <= (self.phi_at if at is None else at):
            return out
        groups = {}
        for s, v in out:
            groups.setdefault(tuple((e.kind, e.callee, e.args[0]) if e.kind == "set" else e.key() for e in s.trace), []).append((s, v))
        res = []
        for g in groups.values():
            if len(g) == 1:
                res.append(g[0])
                continue
            j = self._join([s for s, _ in g])
            if j is g[0][0]:
                j = j.copy()
            gs = [s.guards for s, _ in g]
            n = 0
            while all(len(x) > n for x in gs) and len({x[n][:2] for x in gs}) == 1:
                n += 1
            conds = [t.conj([c if pol else t.nott(c) for c, pol, _ in x[n:]]) for x in gs]

            def pick(vals):
                r = vals[-1]
                for c, v in zip(reversed(conds[:-1]), reversed(vals[:-1])):
                    r = v if v == r else t.ite(c, v, r)
                return r
            for attr in ("vars", "heap"):
                keys = {}
                for s, _ in g:
                    keys.update(dict.fromkeys(getattr(s, attr)))
                d = {}
                for k in keys:
                    vals = [getattr(s, attr).get(k) for s, _ in g]
                    if attr == "heap" and k[0].op == "module":
                        vals = [self.default_attr(*k) if x is None else x for x in vals]
                    if all(x is vals[0] for x in vals):
                        d[k] = vals[0]
                    elif any(x is None for x in vals):
                        have = [(c, x) for c, x in zip(conds, vals) if x is not None]
                        if attr == "heap" or len(have) != len(vals):
                            # undefined on some of the joined paths
                            r = mk("undef", str(k[1]))
                            for c, x in reversed(have):
                                r = t.ite(c, x, r)
                            d[k] = r
                    else:
                        d[k] = pick(vals)
                setattr(j, attr, d)
            tr = []
            for i, e in enumerate(j.trace):
                vals = [s.trace[i] for s, _ in g]
                if e.kind == "set" and any(x.args[1] is not e.args[1] for x in vals):
                    e = Ev("set", e.callee, (e.args[0], pick([x.args[1] for x in vals])), (), None, e.loc, func=e.func)
                tr.append(e)
            j.trace = tuple(tr)
            cnt = {}
            for s, _ in g:
                for k, x in s.cnt.items():
                    cnt[k] = max(cnt.get(k, 0), x)
            j.cnt = cnt
            j.links = frozenset().union(*[s.links for s, _ in g])
            if any(s.ret != j.ret for s, _ in g):
                j.ret = None
            res.append((j, pick([v for _, v in g])))
        return res

    def _squeeze(self, coll):
        """Join raising states of the same statement (once there are many)."""
        if len(coll.items) <= coll.squeezed + 100:
            return
        groups = {}
        for s, e, loc in coll.items:
            groups.setdefault((loc, e.args[0] if e.op == "excobj" else e.op), []).append((s, e))
        items = []
        for (loc, _), g in groups.items():
            if len(g) > 4:
                g = [(s, g[0][1]) for s, _ in self.phi(self.merge([(s, NONE) for s, _ in g]), 4)]
            items += [(s, e, loc) for s, e in g]
        coll.items[:] = items
        coll.squeezed = len(items)

    def _join(self, ss):
        s = ss[0]
        if len(ss) == 1:
            return s
        s = s.copy()
        gs = [x.guards for x in ss]
        n = 0
        while all(len(g) > n for g in gs) and len({g[n][:2] for g in gs}) == 1:
            n += 1
        conds = []
        for g in gs:
            conds.append(t.conj([c if pol else t.nott(c) for c, pol, _ in g[n:]]))
        d = t.disj(conds)
        s.guards = gs[0][:n]
        if d is not TRUE:
            s.guards += ((d, True, gs[0][n][2] if len(gs[0]) > n else ""),)
        s.facts = {c: v for c, v in s.facts.items() if all(x.facts.get(c) == v for x in ss[1:])}
        if d is not TRUE and d.op != "const":
            s.facts[d] = True
        return s

    def _scan_locals(self, node, fr):
        body = node.body if isinstance(node.body, list) else []

        def visit(n):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                fr.locals.add(n.name)
                return
            if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for c in ast.walk(n):
                    if isinstance(c, ast.NamedExpr):
                        fr.locals.add(c.target.id)
                return
            if isinstance(n, ast.Global):
                fr.globals.update(n.names)
            if isinstance(n, ast.Nonlocal):
                fr.nonlocals.update(n.names)
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                fr.locals.add(n.id)
            if isinstance(n, ast.ExceptHandler) and n.name:
                fr.locals.add(n.name)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    fr.locals.add((al.asname or al.name).split(".")[0])
            for c in ast.iter_child_nodes(n):
                visit(c)
        for s in body:
            visit(s)
        fr.locals -= fr.globals | fr.nonlocals

    def bind_names(self, f, args, kwargs, st, skip_self):
        """Bind positional arguments of a repository function to its parameter names."""
        params = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
        if skip_self:
            params = params[1:]
        if len(args) > len(params):
            return args, kwargs
        kw = dict(zip(params, args))
        kw.update(kwargs)
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        dflt = list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [
            (x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for n, d in dflt:
            if n not in kw and "**" not in kw:
                kw[n] = self.ev1(d, st, Frame(None, f.module, ()))
        return [], kw

    def opaque_call(self, callee, args, kwargs, st, loc, fr=None):
        """Effectful unknown call: event + fresh result. Mutates st."""
        args = tuple(self.freeze(a, st) for a in args)
        kw = tuple(sorted((k, self.freeze(v, st)) for k, v in kwargs.items()))
        base = (callee, args, kw)
        n = st.cnt.get(base, 0)
        st.cnt[base] = n + 1
        r = mk("ret", callee, args, kw, n)
        st.ev(Ev("call", callee, args, kw, r, loc or "", func=self.stack[-1] if self.stack else ""))
        return r

    def freeze(self, v, st):
        return v

    # value-level call dispatcher
    def call(self, fv: T, args, kwargs, st, fr, node, star=None, dstar=None):
        loc = self.loc(node, fr)
        self.tick()
        if fv.op == "closure":
            c = self.closures[fv.args[0]]
            return self.call_func(c.func, args, kwargs, st, loc, selfv=c.selfv, cls=c.cls, chain=c.chain, defaults=c.defaults,
                                  star=star, dstar=dstar)
        if fv.op in ("func", "builtin") and fv.args[0] in self.models:
            r = self.lib.modelled(self, self.models[fv.args[0]], fv, args, kwargs, st, loc)
            if r is not None:
                return r
        if fv.op == "func" and self.decorated(self._func_by_qual(fv)):
            f = self._func_by_qual(fv)
            mfr = Frame(None, f.module, ())
            cur = [(st, mk("rawfunc", *fv.args))]
            for d in reversed(f.node.decorator_list):
                cur = [(s3, w2) for s, w in cur for s2, dv in self.ev(d, s, mfr) for s3, w2 in self.call(dv, [w], {}, s2, mfr, node)]
            return [x for s, w in cur for x in self.call(w, args, kwargs, s, fr, node, star, dstar)]
        if fv.op in ("func", "rawfunc"):
            f = self._func_by_qual(fv)
            if f.qual in self.opaque:
                st = st.copy()
                args, kwargs = self.bind_names(f, args, kwargs, st, False)
                r = self.opaque_call(fv, args, kwargs, st, loc)
                if f.qual not in self.total:
                    self.may_raise(st, r, loc)
                return [(st, r)]
            return self.call_func(f, args, kwargs, st, loc, star=star, dstar=dstar)
        if fv.op == "bound":
            selfv, qual, owner = fv.args
            f = self._method_by_qual(owner, qual)
            c = self.class_of(selfv) if selfv.op != "class" else self.find_class(selfv.args[0])
            if f.qual in self.opaque or f"*.{f.name}" in self.opaque:
                st = st.copy()
                args, kwargs = self.bind_names(f, args, kwargs, st, f.kind != "staticmethod")
                r = self.opaque_call(mk("attr", selfv, f.name), args, kwargs, st, loc)
                self.may_raise(st, r, loc)
                return [(st, r)]
            if self._is_stub(f):
                st = st.copy()
                r = self.opaque_call(mk("attr", selfv, f.name), args, kwargs, st, loc)
                self.may_raise(st, r, loc)
                return [(st, r)]
            return self.call_func(f, args, kwargs, st, loc, selfv=selfv, cls=c or f.cls, star=star, dstar=dstar)
        if fv.op == "class":
            return self.instantiate(fv, args, kwargs, st, fr, node, star, dstar)
        if fv.op == "partial":
            f0, a0, k0 = fv.args
            kw = dict(k0)
            kw.update(kwargs)
            return self.call(f0, list(a0) + list(args), kw, st, fr, node, star, dstar)
        if fv.op == "ext" and fv.args[0] in ("dataclasses.replace", "dataclasses.asdict", "dataclasses.fields", "copy.replace") or \
                fv.op == "builtin" and fv.args[0] == "vars":
            r = self.record("dataclasses.replace" if fv.args[0] == "copy.replace" else fv.args[0], args, kwargs, st, fr, node, star, dstar)
            if r is not None:
                return r
        if fv.op == "ext" and fv.args[0] in ("copy.copy", "copy.deepcopy") and args and args[0].op == "obj":
            st = st.copy()
            o = self.allocate(args[0].args[1], st)
            for (b, n), v in list(st.heap.items()):
                if b is args[0]:
                    st.heap[(o, n)] = v if v.op != "obj" or fv.args[0] == "copy.copy" else self.call(fv, [v], {}, st, fr, node)[0][1]
            return [(st, o)]
        if fv.op in ("method", "attr") and fv.args[0].op == "builtin" and fv.args[0].args[0] == "object":
            if fv.args[1] == "__setattr__" and len(args) == 3 and args[1].op == "const":
                st = st.copy()
                st.heap[(args[0], args[1].args[0])] = args[2]
                st.ev(Ev("set", args[0], (args[1], args[2]), (), None, loc, func=self.stack[-1] if self.stack else ""))
                return [(st, NONE)]
            if fv.args[1] == "__new__" and args and args[0].op == "class":
                st = st.copy()
                return [(st, self.allocate(args[0].args[0], st))]
        self.lazygen = False
        r = gens.context(self, fv, args, kwargs, st, fr, node)
        if r is None and star is None and dstar is None:
            r = pylib.call(self, fv, args, kwargs, st, fr, node)
        if r is not None:
            return r
        if fv.op == "getter" and len(args) == 1:
            return [(st, self.lib.index(args[0], fv.args[0]))]
        r = self.lib.call(self, fv, args, kwargs, st, fr, node, star, dstar)
        return r

    def allocate(self, qual, st):
        n = st.cnt.get(("obj", qual), 0) + 1
        st.cnt[("obj", qual)] = n
        return mk("obj", n, qual)

    def _is_stub(self, f: Func):
        """Abstract / protocol method bodies: docstring, pass, ... only."""
        for s in f.node.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, ast.Pass):
                continue
            return False
        decs = [ast.unparse(d) for d in f.node.decorator_list]
        if any("abstractmethod" in d for d in decs):
            return True
        return f.cls is not None and any("Protocol" in ast.unparse(b) for b in f.cls.node.bases)

    def decorated(self, f):
        """Some decorator of a function is defined in the repository."""
        r = getattr(f, "_decorated", None)
        if r is None:
            def mine(d):
                d = d.func if isinstance(d, ast.Call) else d
                x = self.p.resolve(f.module, d.id) if isinstance(d, ast.Name) else None
                return x is not None and x[0] in ("func", "class")
            r = f._decorated = any(mine(d) for d in getattr(f.node, "decorator_list", []))
            if r and f.cls is not None:
                raise Budget(f"decorated method {f.qual}")
        return r

    def _func_by_qual(self, fv):
        modn, _, name = fv.args[0].rpartition(".")
        return self.p.modules[modn].names[name][1]

    def _method_by_qual(self, owner, name):
        c = self.find_class(owner)
        if name.startswith("@set:"):
            return c.setters[name[5:]]
        return c.methods[name]

    def instantiate(self, cv, args, kwargs, st, fr, node, star=None, dstar=None):
        c = self.find_class(cv.args[0])
        st = st.copy()
        mro, exts = self.p.mro(c)
        if any(self._is_exc(e) for e in exts):
            return [(st, mk("excobj", c.qual, tuple(args)))]
        if c.qual in self.opaque or "*.__init__" in self.opaque:
            init = self.p.find_method(c, "__init__")
            args, kwargs = self.bind_names(init, args, kwargs, st, True) if init is not None else (args, kwargs)
            r = self.opaque_call(cv, args, kwargs, st, self.loc(node, fr))
            self.types[r] = c
            if c.qual not in self.total:
                self.may_raise(st, r, self.loc(node, fr))
            return [(st, r)]
        self.nobj += 1
        o = self.allocate(c.qual, st)
        init = self.p.find_method(c, "__init__")
        loc = self.loc(node, fr)
        if init is not None:
            out = []
            for s, _ in self.call_func(init, args, kwargs, st, loc, selfv=o, cls=c, star=star, dstar=dstar):
                out.append((s, o))
            return out
        if c.is_dataclass or any(k.is_dataclass for k in mro):
            fields = self.p.dataclass_fields(c)
            vals = list(args)
            j = 0
            if star is None and dstar is None and (len(vals) > len(fields) or any(
                    i >= len(vals) and f not in kwargs and d is None or i < len(vals) and f in kwargs for i, (f, d, _) in enumerate(fields))):
                self.raise_(st.copy(), mk("excobj", "TypeError", ()), loc)
                return []
            for i, (f, d, k) in enumerate(fields):
                if i < len(vals):
                    v = vals[i]
                elif f in kwargs:
                    v = kwargs[f]
                elif star is not None:
                    v = self.lib.index(star, const(j))
                    j += 1
                elif d is not None:
                    v = self._field_default(d, k, st)
                    if dstar is not None:
                        v = mk("cfgget", dstar, const(f), v)
                elif dstar is not None:
                    v = mk("index", dstar, const(f))
                else:
                    v = mk("unbound", c.qual, f)
                st.heap[(o, f)] = v
            extra = [k for k in kwargs if k not in [f for f, _, _ in fields]]
            if extra:
                self.raise_(st.copy(), mk("excobj", "TypeError", ()), loc)
                return []
            pi = self.p.find_method(c, "__post_init__")
            if pi is not None:
                return [(s, o) for s, _ in self.call_func(pi, [], {}, st, loc, selfv=o, cls=c)]
            return [(st, o)]
        return [(st, o)]

    def _field_default(self, d, k, st):
        fr = Frame(None, k.module, ())
        v = self.ev1(d, st, fr)
        if v.op == "call" and v.args[0] in ("dataclasses.field",):
            kw = dict(v.args[2])
            if "default_factory" in kw:
                f = kw["default_factory"]
                if f.op == "closure":
                    r = self.call(f, [], {}, st, fr, d)
                    if r:
                        return r[0][1]
                if f.op == "builtin" and f.args[0] in ("list", "tuple", "dict"):
                    return mk(f.args[0]) if f.args[0] != "dict" else mk("dict", ())
            if "default" in kw:
                return kw["default"]
        return v

    def _is_exc(self, name):
        b = getattr(builtins, name.split(".")[-1], None)
        return isinstance(b, type) and issubclass(b, BaseException)

    # ------------------------------------------------------------ names
    def loc(self, node, fr):
        return f"{fr.module.rel}:{getattr(node, 'lineno', 0)}"

    def lookup(self, name, st, fr: Frame):
        for sid in fr.chain:
            if (sid, name) in st.vars:
                return st.vars[(sid, name)]
        if name in fr.locals and (fr.sid, name) not in st.vars and fr.func is not None:
            # assigned elsewhere in the function but not on this path
            pass
        return self.module_name(fr.module, name, st)

    def module_name(self, mod: Module, name, st):
        if st is not None and (mk("module", mod.name), name) in st.heap:
            return st.heap[(mk("module", mod.name), name)]
        r = self.p.resolve(mod, name)
        if r is None:
            if name == "__name__":
                return const(mod.name)
            if name == "__file__":
                return mk("ext", "__file__")
            if hasattr(builtins, name):
                return mk("builtin", name)
            return mk("sym", name)
        return self.from_resolved(r, st, name, mod)

    def from_resolved(self, r, st, name, mod):
        if r[0] == "func":
            return mk("func", r[1].qual)
        if r[0] == "class":
            return mk("class", r[1].qual)
        if r[0] == "module":
            return mk("module", r[1].name)
        if r[0] == "ext":
            return mk("ext", self.lib.canon(r[1]))
        if r[0] == "expr":
            if st is not None and (mk("module", r[2].name), name) in st.heap:
                return st.heap[(mk("module", r[2].name), name)]
            key = (r[2].name, name, id(r[1]))
            if key not in self.modcache:
                self.modcache[key] = mk("modconst", r[2].name, name)
                fr = Frame(None, r[2], ())
                s = St()
                saved, self.collectors = self.collectors, [Collector(None)]  # evaluated at import time
                try:
                    v = self.ev1(r[1], s, fr)
                except Exception:
                    v = mk("modconst", r[2].name, name)
                finally:
                    self.collectors = saved
                if v.op == "ret" and v.args[0].op == "ext" and v.args[0].args[0] in self.lib.GENERATORS:
                    # one generator for the whole process: as good as the global one
                    v = mk("ext", v.args[0].args[0].rsplit(".", 1)[0])
                self.modcache[key] = v
            return self.modcache[key]
        raise KeyError(r)

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, fr):
        states = [st]
        done = []
        for node in stmts:
            nxt = []
            for s in states:
                for s2, flow, v in self.stmt(node, s, fr):
                    if flow == "n":
                        nxt.append(s2)
                    else:
                        done.append((s2, flow, v))
            if len(nxt) > 1 and isinstance(node, (ast.If, ast.Try, ast.With, ast.For, ast.While, ast.Expr, ast.Match)):
                nxt = [s for s, _ in self.phi(self.merge([(s, NONE) for s in nxt]))]
            if len(nxt) > MAX_STATES:
                raise Budget(f"too many states at {self.loc(node, fr)}")
            if self.collectors and len(self.collectors[-1].items) > 150:
                self._squeeze(self.collectors[-1])
            states = nxt
            if not states:
                break
        return done + [(s, "n", NONE) for s in states]

    def stmt(self, node, st, fr):
        m = getattr(self, "s_" + type(node).__name__, None)
        self.tick()
        if m is None:
            raise Budget(f"unmodelled statement {type(node).__name__} at {self.loc(node, fr)}")
        return m(node, st, fr)

    def s_Expr(self, node, st, fr):
        if isinstance(node.value, ast.Constant):
            return [(st, "n", NONE)]
        if isinstance(node.value, (ast.Yield, ast.YieldFrom)) and fr.hook is not None:
            return gens.yielded(self, node, st, fr)
        return [(s, "n", NONE) for s, _ in self.ev(node.value, st, fr)]

    def s_Pass(self, node, st, fr):
        return [(st, "n", NONE)]

    s_Global = s_Nonlocal = s_Pass

    def s_Import(self, node, st, fr):
        st = st.copy()
        for al in node.names:
            nm = (al.asname or al.name.split(".")[0])
            tgt = al.name if al.asname else al.name.split(".")[0]
            st.vars[(fr.sid, nm)] = mk("module", tgt) if tgt in self.p.modules else mk("ext", self.lib.canon(tgt))
        return [(st, "n", NONE)]

    def s_ImportFrom(self, node, st, fr):
        st = st.copy()
        base = node.module or ""
        if node.level:
            parts = fr.module.name.split(".")
            if not fr.module.is_pkg:
                parts = parts[:-1]
            parts = parts[: len(parts) - (node.level - 1)]
            base = ".".join(parts + ([node.module] if node.module else []))
        for al in node.names:
            r = self.p.resolve_from(fr.module, base, al.name)
            st.vars[(fr.sid, al.asname or al.name)] = self.from_resolved(r, st, al.name, fr.module)
        return [(st, "n", NONE)]

    def s_FunctionDef(self, node, st, fr):
        st = st.copy()
        st.vars[(fr.sid, node.name)] = self.mkclosure(node, st, fr, node.name)
        return [(st, "n", NONE)]

    def s_ClassDef(self, node, st, fr):
        self.notes.append("local class")
        return [(st, "n", NONE)]

    def mkclosure(self, node, st, fr, name="<lambda>"):
        f = Func(node, fr.module, None, (fr.func.qual.split(".", 1)[-1] + "." if fr.func else "") + name)
        f.qual = f"{fr.name}.{name}"
        cid = (id(node), tuple(fr.chain))
        # defaults are evaluated now
        d = {}
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        for nme, e in list(zip(params[len(params) - len(a.defaults):], a.defaults)) + [
                (x.arg, e) for x, e in zip(a.kwonlyargs, a.kw_defaults) if e is not None]:
            d[nme] = self.ev1(e, st, fr)
        key = hash(cid + tuple(sorted(d.items())))
        self.closures[key] = Closure(f, fr.chain, fr.cls, None, d)
        for s in [fr]:
            s.closures = True
        return mk("closure", key)

    def s_Return(self, node, st, fr):
        if node.value is None:
            return [(st, "r", NONE)]
        out = []
        for s, v in self.ev(node.value, st, fr):
            src = alias.shape(self, node.value, v, s, fr) if alias.container(v) else None
            ret = (v, src) if isinstance(src, tuple) and src[0] in "vhe" else None
            if s.ret != ret:
                s = s.copy()
                s.ret = ret
            out.append((s, "r", v))
        return out

    def s_Break(self, node, st, fr):
        return [(st, "b", NONE)]

    def s_Continue(self, node, st, fr):
        return [(st, "c", NONE)]

    def s_Delete(self, node, st, fr):
        st = st.copy()
        for tg in node.targets:
            if isinstance(tg, ast.Name):
                st.vars.pop((fr.sid, tg.id), None)
            elif isinstance(tg, ast.Subscript):
                res = self.ev(tg.value, st, fr)
                if res:
                    st, b = res[0]
                    for st, k in self.ev(tg.slice, st, fr)[:1]:
                        if b.op == "dict":
                            nv = mk("dict", tuple((a, c) for a, c in b.args[0] if a is not k))
                            pl = alias.place(self, tg.value, st, fr)
                            if pl is not None:
                                st = st.copy()
                                alias.drop(st, ("e", pl, k))
                                return [(alias.write(self, pl, b, nv, st, self.loc(node, fr)), "n", NONE)]
                            return self.assign(tg.value, nv, st, fr)
                        st.ev(Ev("call", mk("attr", b, "__delitem__"), (k,), (), None, self.loc(node, fr)))
        return [(st, "n", NONE)]

    def s_Assert(self, node, st, fr):
        out = []
        for s, c in self.cond(node.test, st, fr):
            r = self.truth(c, s)
            if r is not False:
                s2 = self.assume(s, c, True, self.loc(node, fr))
                if s2 is not None:
                    out.append((s2, "n", NONE))
            if r is not True:
                s3 = self.assume(s, c, False, self.loc(node, fr))
                if s3 is not None:
                    self.raise_(s3, mk("excobj", "AssertionError", ()), self.loc(node, fr))
        return out

    def s_Raise(self, node, st, fr):
        loc = self.loc(node, fr)
        if node.exc is None:
            cur = st.vars.get((fr.sid, "@exc"), mk("excany", NONE))
            self.raise_(st, cur, loc)
            return []
        for s, v in self.ev(node.exc, st, fr):
            if v.op == "class":
                v = mk("excobj", v.args[0], ())
            elif v.op == "builtin":
                v = mk("excobj", v.args[0], ())
            elif v.op == "ext":
                v = mk("excobj", v.args[0], ())
            self.raise_(s, v, loc)
        return []

    def s_If(self, node, st, fr):
        out = []
        for s, c in self.cond(node.test, st, fr):
            for pol, body in ((True, node.body), (False, node.orelse)):
                s2 = self.assume(s, c, pol, self.loc(node, fr))
                if s2 is None:
                    continue
                out += self.block(body, s2, fr) if body else [(s2, "n", NONE)]
        return out

    def cond(self, node, st, fr):
        """Only the truth of this expression matters."""
        if isinstance(node, ast.BoolOp):
            return self.e_BoolOp(node, st, fr, True)
        return self.ev(node, st, fr)

    def s_Assign(self, node, st, fr):
        if isinstance(node.value, ast.Yield) and fr.hook is not None and len(node.targets) == 1:
            return gens.yielded(self, node, st, fr)
        out = []
        for s, v in self.ev(node.value, st, fr):
            states = [s]
            src = alias.shape(self, node.value, v, s, fr)
            for tg in node.targets:
                nx = []
                for q in states:
                    nx += [a for a, _, _ in self.assign(tg, v, q, fr)]
                if src is not None:
                    for q in nx:
                        alias.bind(self, tg, src, v, q, fr)
                elif alias.container(v):
                    src = alias.shape(self, _as_load(tg), v, nx[0], fr) if nx and len(node.targets) > 1 else None
                states = nx
            out += [(q, "n", NONE) for q in states]
        return out

    def s_AnnAssign(self, node, st, fr):
        if node.value is None:
            return [(st, "n", NONE)]
        out = []
        for s, v in self.ev(node.value, st, fr):
            src = alias.shape(self, node.value, v, s, fr)
            for r in self.assign(node.target, v, s, fr):
                if src is not None:
                    alias.bind(self, node.target, src, v, r[0], fr)
                out.append(r)
        return out

    def s_AugAssign(self, node, st, fr):
        out = []
        load = _as_load(node.target)
        for s, a in self.ev(load, st, fr):
            for s2, b in self.ev(node.value, s, fr):
                if is_listy(a) and isinstance(node.op, ast.Add):
                    pl = alias.place(self, load, s2, fr)
                    if pl is not None:
                        items = self.lib.enumerate_items(b)
                        out.append((alias.write(self, pl, a, t.concat(a, mk("list", *items) if items is not None else b), s2, self.loc(node, fr)), "n", NONE))
                        continue
                out += self.assign(node.target, self.binop(node.op, a, b), s2, fr)
        return out

    def assign(self, tg, v, st, fr):
        if isinstance(tg, ast.Name) and tg.id in fr.globals:
            return [(self.set_global(tg.id, v, st, fr, tg), "n", NONE)]
        if isinstance(tg, ast.Name):
            st = st.copy()
            sid = fr.sid
            if tg.id in fr.nonlocals:
                for s in fr.chain[1:]:
                    if (s, tg.id) in st.vars:
                        sid = s
                        break
            st.vars[(sid, tg.id)] = v
            alias.drop(st, ("v", sid, tg.id))
            return [(st, "n", NONE)]
        if isinstance(tg, ast.Starred):
            return self.assign(tg.value, v, st, fr)
        if isinstance(tg, (ast.Tuple, ast.List)):
            states = [st]
            n = len(tg.elts)
            stars = [i for i, e in enumerate(tg.elts) if isinstance(e, ast.Starred)]
            for i, e in enumerate(tg.elts):
                if isinstance(e, ast.Starred):
                    x = self.lib.index(v, mk("slice", const(i), const(i - n + 1) if i - n + 1 else NONE, NONE))
                elif stars and i > stars[0]:
                    x = self.lib.index(v, const(i - n))
                else:
                    x = self.lib.unpack(v, i, n)
                nx = []
                for s in states:
                    nx += [a for a, _, _ in self.assign(e, x, s, fr)]
                states = nx
            return [(s, "n", NONE) for s in states]
        if isinstance(tg, ast.Attribute):
            out = []
            for s, b in self.ev(tg.value, st, fr):
                out += [(q, "n", NONE) for q in self.setattr(b, tg.attr, v, s, fr, tg)]
            return out
        if isinstance(tg, ast.Subscript):
            out = []
            for s, b in self.ev(tg.value, st, fr):
                for s2, k in self.ev(tg.slice, s, fr):
                    pl = alias.place(self, tg.value, s2, fr) if b.op in ("dict", "list", "dictmap") else None
                    if pl is not None and b.op == "dict" and (k.op == "const" or b.args[0] == ()):
                        items = [(a, v if a is k else c) for a, c in b.args[0]]
                        if not any(a is k for a, _ in items):
                            items.append((k, v))
                        s3 = s2.copy()
                        alias.drop(s3, ("e", pl, k))
                        out.append((alias.write(self, pl, b, mk("dict", tuple(items)), s3, self.loc(tg, fr)), "n", NONE))
                    elif pl is not None and b.op == "list" and t.is_num(k) and -len(b.args) <= k.args[0] < len(b.args):
                        items = list(b.args)
                        items[k.args[0]] = v
                        s3 = s2.copy()
                        alias.drop(s3, ("e", pl, const(k.args[0] % len(items))))
                        out.append((alias.write(self, pl, b, mk("list", *items), s3, self.loc(tg, fr)), "n", NONE))
                    elif b.op == "dict" and (k.op == "const" or b.args[0] == ()):
                        items = [(a, c) for a, c in b.args[0] if a is not k] + [(k, v)]
                        out += (self.assign_quiet if isinstance(tg.value, ast.Name) else self.assign)(tg.value, mk("dict", tuple(items)), s2, fr)
                    elif b.op == "list" and t.is_num(k) and -len(b.args) <= k.args[0] < len(b.args):
                        items = list(b.args)
                        items[k.args[0]] = v
                        out += (self.assign_quiet if isinstance(tg.value, ast.Name) else self.assign)(tg.value, mk("list", *items), s2, fr)
                    else:
                        s3 = s2.copy()
                        s3.ev(Ev("setitem", b, (k, v), (), None, self.loc(tg, fr)))
                        nv = mk("setitem", b, k, v)
                        if isinstance(tg.value, (ast.Name, ast.Attribute)):
                            out += self.assign_quiet(tg.value, nv, s3, fr)
                        else:
                            out.append((s3, "n", NONE))
            return out
        self.notes.append(f"assignment target {type(tg).__name__}")
        return [(st, "n", NONE)]

    def assign_quiet(self, tg, v, st, fr):
        """Update the value bound to an lvalue after an in-place mutation."""
        if isinstance(tg, ast.Name):
            for sid in fr.chain:
                if (sid, tg.id) in st.vars:
                    st = st.copy()
                    st.vars[(sid, tg.id)] = v
                    return [(st, "n", NONE)]
            r = self.p.resolve(fr.module, tg.id)
            if r is not None and r[0] == "expr":
                return [(self.set_global(tg.id, v, st, fr, tg), "n", NONE)]
            return [(st, "n", NONE)]
        if isinstance(tg, ast.Attribute):
            out = []
            for s, b in self.ev(tg.value, st, fr):
                s = s.copy()
                s.heap[(b, tg.attr)] = v
                s.ev(Ev("set", b, (const(tg.attr), v), (), None, self.loc(tg, fr), func=self.stack[-1] if self.stack else ""))
                out.append((s, "n", NONE))
            return out
        return [(st, "n", NONE)]

    def setattr(self, b, name, v, st, fr, node):
        c = self.class_of(b)
        if c is not None:
            f = self.p.find_setter(c, name)
            if f is not None and not self._is_stub(f):
                return [s for s, _ in self.call_func(f, [v], {}, st, self.loc(node, fr), selfv=b, cls=c)]
        st = st.copy()
        st.heap[(b, name)] = v
        alias.drop(st, ("h", b, name))
        st.ev(Ev("set", b, (const(name), v), (), None, self.loc(node, fr), func=self.stack[-1] if self.stack else ""))
        return [st]

    # ---- try / with
    def s_Try(self, node, st, fr):
        coll = Collector(node)
        self.collectors.append(coll)
        try:
            res = self.block(node.body, st, fr)
        finally:
            self.collectors.pop()
        # `else` and handlers are outside the protected region, but inside `finally`
        outer = None
        if node.finalbody:
            outer = Collector(node)
            self.collectors.append(outer)
        try:
            out = []
            for s, flow, v in res:
                if flow == "n" and node.orelse:
                    out += self.block(node.orelse, s, fr)
                else:
                    out.append((s, flow, v))
            for s, exc, loc in coll.items:
                out += self.handle(node.handlers, s, exc, loc, fr)
        finally:
            if outer is not None:
                self.collectors.pop()
        if node.finalbody:
            fin = []
            for s, flow, v in out:
                for s2, fl2, v2 in self.block(node.finalbody, s, fr):
                    fin.append((s2, flow, v) if fl2 == "n" else (s2, fl2, v2))
            for s, exc, loc in outer.items:
                for s2, fl2, v2 in self.block(node.finalbody, s, fr):
                    if fl2 == "n":
                        self.raise_(s2, exc, loc)
                    else:
                        fin.append((s2, fl2, v2))
            return fin
        return out

    s_TryStar = s_Try

    def handle(self, handlers, st, exc, loc, fr):
        out = []
        pending = st
        for h in handlers:
            types = None
            if h.type is not None:
                els = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                types = []
                for e in els:
                    v = self.ev1(e, pending, fr)
                    types += list(v.args) if v.op == "tuple" else [v]
            m = self.exc_match(exc, types)
            if m is False:
                continue
            s = pending.copy()
            e2 = exc
            if m is None and types:
                if exc.op == "excany":
                    e2 = mk("excobj", self.exc_name(types[0]), (exc,)) if len(types) == 1 else exc
            s.vars[(fr.sid, "@exc")] = e2
            s.ev(Ev("caught", exc, (), (), None, self.loc(h, fr), extra=None))
            if h.name:
                s.vars[(fr.sid, h.name)] = e2
            for s2, fl, v in self.block(h.body, s, fr):
                s2 = s2.copy()
                s2.vars.pop((fr.sid, "@exc"), None)
                if h.name:
                    s2.vars.pop((fr.sid, h.name), None)
                out.append((s2, fl, v))
            if m is True:
                return out
            if exc.op == "excany":
                exc = mk("excany", *exc.args) if True else exc
        self.raise_(pending, exc, loc)
        return out

    def exc_name(self, v):
        if v.op in ("builtin", "ext", "class"):
            return v.args[0]
        return t.show(v)

    def exc_match(self, exc, types):
        """True / False / None"""
        if exc.op == "excobj" and exc.args[0].startswith("@"):
            return False        # the end of a schedule
        if types is None:
            return True
        if exc.op == "excany":
            names = [self.exc_name(x) for x in types]
            if "BaseException" in names or "Exception" in names:
                return True
            return None
        if exc.op == "excobj":
            n = exc.args[0]
            for x in types:
                r = self.exc_sub(n, self.exc_name(x))
                if r:
                    return True
            return False
        return None

    def exc_sub(self, n, m):
        if n == m:
            return True
        c = self.find_class(n)
        if c is not None:
            mro, exts = self.p.mro(c)
            if any(k.qual == m for k in mro):
                return True
            return any(self.exc_sub(e, m) for e in exts)
        a = self._pyexc(n)
        b = self._pyexc(m)
        if a is not None and b is not None:
            return issubclass(a, b)
        if m in ("Exception", "BaseException"):
            return True
        return False

    def _pyexc(self, n):
        b = getattr(builtins, n, None)
        if isinstance(b, type) and issubclass(b, BaseException):
            return b
        return None

    def s_With(self, node, st, fr):
        return self.withs(node, 0, st, fr)

    def withs(self, node, i, st, fr):
        if i == len(node.items):
            return self.block(node.body, st, fr)
        item = node.items[i]
        evs, out = gens.enter(self, item, st, fr, node, lambda s: self.withs(node, i + 1, s, fr))
        if out is not None:
            return out
        out = []
        for s2, v in evs:
            s2 = s2.copy()
            s2.ev(Ev("enter", v, (), (), v, self.loc(node, fr)))
            for q, _, _ in (self.assign(item.optional_vars, v, s2, fr) if item.optional_vars is not None else [(s2, "n", NONE)]):
                for s3, fl, r in self.withs(node, i + 1, q, fr):
                    s3 = s3.copy()
                    s3.ev(Ev("exit", v, (), (), None, self.loc(node, fr)))
                    out.append((s3, fl, r))
        return out

    s_AsyncWith = s_With

    def s_Match(self, node, st, fr):
        """Cases are tried one after the other, as the conditionals they stand for."""
        name = f"@match{node.lineno}"
        subject = ast.Name(id=name, ctx=ast.Load())

        def test(p, x):
            """-> condition, bindings"""
            if isinstance(p, ast.MatchValue):
                return ast.Compare(left=x, ops=[ast.Eq()], comparators=[p.value]), []
            if isinstance(p, ast.MatchSingleton):
                return ast.Compare(left=x, ops=[ast.Is()], comparators=[ast.Constant(value=p.value)]), []
            if isinstance(p, ast.MatchAs):
                c, b = test(p.pattern, x) if p.pattern is not None else (ast.Constant(value=True), [])
                return c, b + ([(p.name, x)] if p.name else [])
            if isinstance(p, ast.MatchOr):
                rs = [test(q, x) for q in p.patterns]
                if any(b for _, b in rs):
                    raise Budget("names bound in alternatives")
                return ast.BoolOp(op=ast.Or(), values=[c for c, _ in rs]), []
            if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
                return ast.Call(func=ast.Name(id="isinstance", ctx=ast.Load()), args=[x, p.cls], keywords=[]), []
            if isinstance(p, ast.MatchSequence) and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
                cs = [ast.Call(func=ast.Name(id="isinstance", ctx=ast.Load()), args=[x, ast.Tuple(elts=[ast.Name(id="tuple", ctx=ast.Load()), ast.Name(
                    id="list", ctx=ast.Load())], ctx=ast.Load())], keywords=[]),
                    ast.Compare(left=ast.Call(func=ast.Name(id="len", ctx=ast.Load()), args=[x], keywords=[]), ops=[ast.Eq()], comparators=[ast.Constant(value=len(p.patterns))])]
                bs = []
                for i, q in enumerate(p.patterns):
                    c, b = test(q, ast.Subscript(value=x, slice=ast.Constant(value=i), ctx=ast.Load()))
                    cs.append(c)
                    bs += b
                return ast.BoolOp(op=ast.And(), values=cs), bs
            raise Budget(f"pattern at {self.loc(node, fr)}")
        key = ("match", id(node))
        if key not in self.made:
            chain = None
            for case in reversed(node.cases):
                c, bs = test(case.pattern, subject)
                bind = [ast.Assign(targets=[ast.Name(id=n, ctx=ast.Store())], value=v) for n, v in bs]
                if case.guard is not None:
                    for n, v in bs:
                        c = ast.BoolOp(op=ast.And(), values=[c, ast.BoolOp(op=ast.Or(), values=[
                            ast.Call(func=ast.Name(id="bool", ctx=ast.Load()), args=[ast.Tuple(elts=[ast.NamedExpr(target=ast.Name(id=n, ctx=ast.Store()), value=v)], ctx=ast.Load())], keywords=[])])])
                    c = ast.BoolOp(op=ast.And(), values=[c, case.guard])
                chain = ast.If(test=c, body=bind + case.body, orelse=[chain] if chain is not None else [])
            whole = [ast.Assign(targets=[ast.Name(id=name, ctx=ast.Store())], value=node.subject)] + ([chain] if chain is not None else [])
            for q in whole:
                ast.copy_location(q, node)
                ast.fix_missing_locations(q)
            self.made[key] = whole
            self.kept.append(node)
        return self.block(self.made[key], st, fr)

    # ---- loops
    def s_While(self, node, st, fr):
        """Iterations whose condition is decided are unrolled; the rest is summarised."""
        if isinstance(node.test, ast.Constant) and self.world is None:
            r = self.straight(node, st, fr) if node.test.value else None
            r = self.branching(node, st, fr) if r is None and node.test.value else r
            return r if r is not None else self.loop("while", node, st, fr, None)
        out, todo, n = [], [st], 0
        limit = 12 if self.world is None else 120
        heads = []      # states at the head of the loop while there is one path
        while todo:
            nx = []
            heads = heads + [todo[0]] if len(todo) == 1 and len(heads) == n else []
            for s in todo:
                mark = len(self.collectors[-1].items)
                rs = self.cond(node.test, s.copy(), fr)
                v = self.truth(rs[0][1], rs[0][0]) if len(rs) == 1 and len(self.collectors[-1].items) == mark else None
                if v and n >= limit and self.world is not None:
                    raise Budget("endless loop")
                if v and n >= limit and len(heads) == n + 1 and self.periodic(heads, fr):
                    self.notes.append("endless loop")
                    self.raise_(s, mk("excobj", "@endless", ()), self.loc(node, fr))
                    continue
                if v is None or v and n >= limit:
                    del self.collectors[-1].items[mark:]
                    out += self.loop("while", node, s, fr, None)
                elif v is False:
                    out += self.block(node.orelse, rs[0][0], fr) if node.orelse else [(rs[0][0], "n", NONE)]
                else:
                    for q, fl, x in self.block(node.body, rs[0][0], fr):
                        if fl in ("n", "c"):
                            nx.append(q)
                        elif fl == "b":
                            out.append((q, "n", NONE))
                        else:
                            out.append((q, fl, x))
            todo = nx
            n += 1
        return out

    def periodic(self, heads, fr):
        """The loop is back in a state it was in before, and nothing was assumed in between: it never ends."""
        last = heads[-1]
        read = {x.id for x in ast.walk(fr.func.node if fr.func else fr.module.tree) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
        k, live = None, {x for x in heads[0].vars if x[0] != fr.sid or x[1] in read} | {(fr.sid, x) for x in read}
        for h in reversed(heads[:-1]):
            if h.guards != last.guards:
                return False
            k = k or self.canonical(last, live)
            if self.canonical(h, live) == k:
                return True
        return False

    def canonical(self, st, live):
        """Variables and reachable attributes, objects numbered in order of discovery."""
        attrs = {}
        for (o, n), v in st.heap.items():
            attrs.setdefault(o, []).append((str(n), v))
        names, queue, out = {}, [], []

        def rename(x):
            if x.op == "obj":
                if x not in names:
                    names[x] = mk("obj", -1 - len(names), x.args[1])
                    queue.append(x)
                return names[x]
            return None
        for k in sorted((k for k in st.vars if k in live), key=str):
            v = st.vars[k]
            out.append((str(k), t.subst(v, rename) if isinstance(v, T) else v))
        queue += [o for o in sorted((o for o in attrs if o.op != "obj"), key=str)]
        while queue:
            o = queue.pop(0)
            for n, v in sorted(attrs.get(o, ()), key=lambda y: y[0]):
                out.append((names.get(o, o), n, t.subst(v, rename) if isinstance(v, T) else v))
        return out

    def branching(self, node, st, fr, limit=6, width=6):
        """`while True` that is left on every path after a few iterations; None otherwise."""
        mark, loops = list(self.collectors[-1].items), len(self.loops)
        out, todo = [], [st.copy()]
        for _ in range(limit):
            nx = []
            for s in todo:
                for q, fl, v in self.block(node.body, s, fr):
                    if fl in ("n", "c"):
                        nx.append(q)
                    elif fl == "b":
                        out.append((q, "n", NONE))
                    else:
                        out.append((q, fl, v))
            todo = nx
            if not todo:
                return out
            if len(todo) > width or len(self.loops) != loops:
                break
        self.collectors[-1].items[:] = mark
        del self.loops[loops:]
        return None

    def straight(self, node, st, fr, limit=12):
        """`while True` whose every branch is decided, iteration by iteration; None otherwise."""
        mark, loops = len(self.collectors[-1].items), len(self.loops)
        q, heads = st, [st]
        for _ in range(limit):
            rs = self.block(node.body, q.copy(), fr)
            new = self.collectors[-1].items[mark:]
            if len(rs) + len(new) == 1 and len(self.loops) == loops:
                if new:
                    if len(new[0][0].guards) == len(st.guards):
                        return []
                    break
                q, fl, v = rs[0]
                if len(q.guards) != len(st.guards):
                    break
                if fl in ("n", "c"):
                    heads.append(q)
                    if len(heads) > limit and self.periodic(heads, fr):
                        self.raise_(q, mk("excobj", "@endless", ()), self.loc(node, fr))
                        return []
                    continue
                return [(q, "n", NONE)] if fl == "b" else [(q, fl, v)]
            break
        del self.collectors[-1].items[mark:]
        del self.loops[loops:]
        return None

    def s_For(self, node, st, fr):
        out = []
        self.lazynode = node.iter
        its = self.ev(node.iter, st, fr)
        self.lazynode = None
        for s, it in its:
            if it.op == "gen":
                out += gens.loop(self, node, it, s, fr)
                continue
            items = self.lib.enumerate_items(it)
            if items is not None and len(items) <= 40:
                states = [s]
                done = []
                broke = []
                for ix, x in enumerate(items):
                    nx = []
                    for q in states:
                        src = alias.item(self, node.iter, ix, q, fr) if alias.holds(x) else None
                        for q1, _, _ in self.assign(node.target, x, q, fr):
                            if src is not None:
                                alias.bind(self, node.target, src, x, q1, fr)
                            for q2, fl, v in self.block(node.body, q1, fr):
                                if fl in ("n", "c"):
                                    nx.append(q2)
                                elif fl == "b":
                                    broke.append(q2)
                                else:
                                    done.append((q2, fl, v))
                    states = [a for a, _ in self.merge([(a, NONE) for a in nx])]
                    if len(states) > MAX_STATES:
                        raise Budget("unrolled loop states")
                for q in states:
                    if node.orelse:
                        done += self.block(node.orelse, q, fr)
                    else:
                        done.append((q, "n", NONE))
                out += done + [(q, "n", NONE) for q in broke]
            else:
                rs = self.protocol(node, s, fr, it)
                out += self.loop("for", node, s, fr, it) if rs is None else rs
        return out

    def protocol(self, node, st, fr, it, limit=12):
        """Iteration over an object of the repository (or of a client), one __next__ at a time; None when it has no end in sight."""
        src, start, n = it, None, None
        while src.op == "enumerate" or src.op == "islice":
            if src.op == "enumerate":
                if start is not None or not self.lib._cint(src.args[1]):
                    return None
                start, src = src.args[1].args[0], src.args[0]
            else:
                n, src = src.args[1], src.args[0]
        c = self.class_of(src) if src.op == "obj" else None
        if c is None or self.p.find_method(c, "__iter__") is None:
            return None
        loc = self.loc(node, fr)
        mark = list(self.collectors[-1].items)
        out, todo = [], []
        for s, i in self.call_func(self.p.find_method(c, "__iter__"), [], {}, st, loc, selfv=src, cls=c):
            ci = self.class_of(i) if i.op == "obj" else None
            f = self.p.find_method(ci, "__next__") if ci is not None else None
            if f is None:
                self.collectors[-1].items[:] = mark
                return None
            todo.append((s, i, f, ci))
        for k in range(limit + 1):
            nx = []
            for s, i, f, ci in todo:
                coll = Collector(None)
                self.collectors.append(coll)
                try:
                    rs = self.call_func(f, [], {}, s, loc, selfv=i, cls=ci) if n is None or k < n else []
                    if n is not None and k >= n:
                        coll.items.append((s, mk("excobj", "StopIteration", ()), loc))
                finally:
                    self.collectors.pop()
                for q, exc, l in coll.items:
                    if self.exc_match(exc, [mk("builtin", "StopIteration")]):
                        out += self.block(node.orelse, q, fr) if node.orelse else [(q, "n", NONE)]
                    else:
                        self.collectors[-1].items.append((q, exc, l))
                for q, x in rs:
                    for q1, _, _ in self.assign(node.target, x if start is None else mk("tuple", const(start + k), x), q, fr):
                        for q2, fl, v in self.block(node.body, q1, fr):
                            if fl in ("n", "c"):
                                nx.append((q2, i, f, ci))
                            elif fl == "b":
                                out.append((q2, "n", NONE))
                            else:
                                out.append((q2, fl, v))
            todo = nx
            if not todo:
                return out
            if len(todo) > 16:
                break
        self.collectors[-1].items[:] = mark
        return None

    def loop(self, kind, node, st, fr, it):
        loc = self.loc(node, fr)
        # which locations may the body write?
        names = set()

        def visit(n):
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                if isinstance(n, ast.FunctionDef):
                    names.add(n.name)
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                return
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names.add(n.id)
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                b = n
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(n, ast.Subscript) and isinstance(b, ast.Name):
                    names.add(b.id)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                if isinstance(n.func.value, ast.Name):
                    names.add(n.func.value.id)
            if isinstance(n, ast.NamedExpr):
                names.add(n.target.id)
            for c in ast.iter_child_nodes(n):
                visit(c)
        for b in node.body:
            visit(b)
        if kind == "while":
            visit(node.test)
        tnames = set()
        if kind == "for":
            for c in ast.walk(node.target):
                if isinstance(c, ast.Name):
                    tnames.add(c.id)
        self.nloop += 1
        lid = f"L{self.nloop}"
        rec = Loop(kind, node, loc)
        self.loops.append(rec)
        rec.iter = it
        rec.entry_trace_len = len(st.trace)
        rec.entry = st
        # effectful iteration: an object whose __next__ is a repository method
        k = self.active_iters.count(it) if it is not None else 0
        elem = self.lib.iter_elem(it, k) if it is not None else None

        heapkeys = set()
        varkeys = set()
        result = None
        for attempt in range(4):
            h = st.copy()
            rec.mu, rec.init, rec.back, rec.exits, rec.breaks = {}, {}, [], [], []
            for key in varkeys:
                rec.init[key] = st.vars[key]
                rec.mu[key] = h.vars[key] = mk("mu", lid, key[1])
            for nme in sorted(names - tnames):
                for sid in fr.chain:
                    if (sid, nme) in st.vars:
                        key = (sid, nme)
                        rec.init[key] = st.vars[key]
                        rec.mu[key] = mk("mu", lid, nme)
                        h.vars[key] = rec.mu[key]
                        break
            for key in heapkeys:
                rec.init[key] = st.heap.get(key, self.default_attr(*key))
                rec.mu[key] = mk("mu", lid, f"{t.show(key[0])}.{key[1]}")
                h.heap[key] = rec.mu[key]
            # facts about overwritten things survive only if they mention no heap attr being havoced
            dead = {self.default_attr(*key) for key in heapkeys}
            if dead:
                h.facts = {c: v for c, v in h.facts.items() if not t.contains(c, lambda x: x in dead)}
            pre = len(h.trace)
            h.trace = h.trace + (Ev("loop-iter", None, (), (), None, loc, extra=rec),)
            saved_items = list(self.collectors[-1].items)
            saved_cnt = dict(h.cnt)
            outs = []
            if it is not None:
                self.active_iters.append(it)
            try:
                if kind == "while":
                    for s, c in self.cond(node.test, h, fr):
                        rec.cond = c
                        sf = self.assume(s, c, False, loc)
                        if sf is not None:
                            outs.append((sf, "exit", NONE))
                        stt = self.assume(s, c, True, loc)
                        if stt is not None:
                            outs += self.block(node.body, stt, fr)
                else:
                    hx = h.copy()
                    outs.append((hx, "exit", NONE))
                    for s, _, _ in self.assign(node.target, elem, h, fr):
                        outs += self.block(node.body, s, fr)
            finally:
                if it is not None:
                    self.active_iters.pop()
            # heap keys written?
            new = set()
            for s, fl, _ in outs:
                for key, v in s.heap.items():
                    if key not in heapkeys and h.heap.get(key) is not v and fl in ("n", "c"):
                        new.add(key)
            newv = {key for s, fl, _ in outs if fl in ("n", "c") for key, v in s.vars.items()
                    if key in st.vars and key not in rec.mu and h.vars.get(key) is not v and not (key[0] == fr.sid and key[1] in tnames)}
            if new or newv:
                heapkeys |= new
                varkeys |= newv
                self.collectors[-1].items[:] = saved_items
                continue
            result = outs
            break
        if result is None:
            result = outs
        for s, fl, v in result:
            if fl in ("n", "c"):
                rec.back.append(s)
        # accumulators
        accs = {}
        hasbreak = any(fl == "b" for _, fl, _ in result)
        effectful = any(len([e for e in s.trace[pre + 1:] if e.kind not in ("loop-iter",)]) > 0 for s in rec.back)
        for key, mu in rec.mu.items():
            if key in heapkeys and not isinstance(key[0], int) and False:
                continue
            acc = self._accumulator(rec, key, mu, it, k, hasbreak, lid)
            if acc is not None:
                accs[mu] = acc
        rec.accs = accs

        def close(s, after):
            if not accs:
                return s
            s = s.copy()
            f = lambda x: accs.get(x)
            memo = {}
            for kk, v in list(s.vars.items()):
                s.vars[kk] = t.subst(v, f, memo)
            for kk, v in list(s.heap.items()):
                s.heap[kk] = t.subst(v, f, memo)
            return s

        out = []
        for s, fl, v in result:
            if fl in ("n", "c"):
                continue
            if fl == "exit":
                s = s.copy()
                # normal termination: drop the partial-iteration events of the guard
                s.trace = s.trace[:pre] + (Ev("loop", None, (), (), None, loc, extra=rec),) + s.trace[pre + 1:]
                s = close(s, True)
                rec.exits.append(s)
                if node.orelse:
                    out += self.block(node.orelse, s, fr)
                else:
                    out.append((s, "n", NONE))
            elif fl == "b":
                s = close(s, True)
                rec.breaks.append(s)
                out.append((s, "n", NONE))
            else:
                s = close(s, True)
                out.append((s, fl, t.subst(v, lambda x: accs.get(x)) if accs else v))
        return out

    def default_attr(self, b, name):
        if b.op == "module" and b.args[0] in self.p.modules:
            return self.module_name(self.p.modules[b.args[0]], name, None)
        return mk("attr", b, name)

    def set_global(self, name, v, st, fr, node):
        """Bind a variable of the module that declares it."""
        r = self.p.resolve(fr.module, name)
        b = mk("module", r[2].name if r is not None and r[0] == "expr" else fr.module.name)
        st = st.copy()
        st.heap[(b, name)] = v
        st.ev(Ev("set", b, (const(name), v), (), None, self.loc(node, fr), func=self.stack[-1] if self.stack else ""))
        return st

    def _accumulator(self, rec, key, mu, it, k, hasbreak, lid):
        """Closed form of a loop-carried variable, if its updates have one."""
        if not rec.back:
            return None
        init = rec.init[key]
        vals = []
        for s in rec.back:
            v = s.vars.get(key) if isinstance(key[0], int) else s.heap.get(key)
            if v is None:
                return None
            vals.append(v)
        # list accumulation
        if is_listy(init) or init.op == "mu" and all(v is mu or v.op == "concat" and v.args[0] is mu for v in vals):
            elems, conds, ok = [], [], True
            others = [m for m in rec.mu.values()]
            for s, v in zip(rec.back, vals):
                if v is mu:
                    continue
                if v.op == "concat" and v.args[0] is mu and not any(t.contains(a, lambda x: x is mu) for a in v.args[1:]):
                    rest = v.args[1] if len(v.args) == 2 else mk("concat", *v.args[1:])
                    elems.append(rest)
                    base = len(rec.entry.guards)
                    conds.append(t.conj([c if pol else t.nott(c) for c, pol, _ in s.guards[base:]]))
                else:
                    ok = False
            if ok and elems:
                e0 = elems[0]
                simple = all(e is e0 for e in elems) and not any(t.contains(e0, lambda x: x in others) for _ in [0])
                if it is not None and not hasbreak and simple and not any(e.kind == "call" for s in rec.back for e in s.trace[rec.entry_trace_len + 1:]):
                    c = t.disj(conds)
                    if len(elems) == len(vals):
                        c = TRUE
                    if e0.op == "list" and len(e0.args) == 1:
                        r = mk("map", e0.args[0], self.lib.strip_iter(it), c)
                    else:
                        r = mk("flatmap", e0, self.lib.strip_iter(it), c)
                    return t.concat(init, r)
                return t.concat(init, mk("accum", tuple(elems), it if it is not None else NONE, lid)) if not (
                    init.op == "list" and not init.args) else mk("accum", tuple(elems), it if it is not None else NONE, lid)
            if not elems:
                return init if all(v is mu for v in vals) else None
        if all(v is mu for v in vals):
            return init
        # fold
        if it is not None and not hasbreak:
            uniq = {v for v in vals}
            if len(uniq) == 1:
                body = vals[0]
                if not any(t.contains(body, lambda x: x is m) for kk, m in rec.mu.items() if m is not mu):
                    b = t.subst(body, lambda x: t.sym("@acc") if x is mu else None)
                    if not t.contains(b, lambda x: x.op == "ret"):
                        return mk("fold", b, init, self.lib.strip_iter(it))
        # last-iteration value not depending on the loop state: keep opaque
        return None

    # ------------------------------------------------------------ expressions
    def ev1(self, node, st, fr):
        """Evaluate where a single result is expected."""
        r = self.ev(node, st, fr)
        if not r:
            return mk("bottom")
        if len(r) > 1:
            v = r[0][1]
            if all(x[1] is v for x in r):
                return v
            # gamma
            res = r[-1][1]
            for s, v in reversed(r[:-1]):
                g = t.conj([c if p else t.nott(c) for c, p, _ in s.guards[len(st.guards):]])
                res = t.ite(g, v, res)
            return res
        st.cnt = dict(r[0][0].cnt)
        return r[0][1]

    def ev(self, node, st, fr):
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            self.notes.append(f"unmodelled expression {type(node).__name__} at {self.loc(node, fr)}")
            return [(st, mk("opaque", ast.dump(node)))]
        return m(node, st, fr)

    def evs(self, nodes, st, fr):
        """Evaluate a list left to right -> [(St, [values])]"""
        acc = [(st, [])]
        for n in nodes:
            nx = []
            for s, vs in acc:
                for s2, v in self.ev(n, s, fr):
                    nx.append((s2, vs + [v]))
            acc = nx
        return acc

    def e_Constant(self, node, st, fr):
        return [(st, const(node.value))]

    def e_Name(self, node, st, fr):
        return [(st, self.lookup(node.id, st, fr))]

    def e_NamedExpr(self, node, st, fr):
        out = []
        for s, v in self.ev(node.value, st, fr):
            src = alias.shape(self, node.value, v, s, fr)
            for s2, _, _ in self.assign(node.target, v, s, fr):
                if src is not None:
                    alias.bind(self, node.target, src, v, s2, fr)
                out.append((s2, v))
        return out

    def e_JoinedStr(self, node, st, fr):
        parts = []
        cur = [(st, [])]
        for v in node.values:
            nx = []
            for s, ps in cur:
                if isinstance(v, ast.Constant):
                    nx.append((s, ps + [const(v.value)]))
                else:
                    for s2, x in self.ev(v.value, s, fr):
                        if v.conversion == 114:
                            x = const(repr(x.args[0])) if x.op == "const" and isinstance(x.args[0], (str, int)) else mk("call", "repr", (x,), ())
                        if v.format_spec is not None:
                            fs = v.format_spec.values
                            x = self.lib.fmt(x, fs[0].value) if len(fs) == 1 and isinstance(fs[0], ast.Constant) else mk("fmt", x, ast.unparse(v.format_spec))
                        nx.append((s2, ps + [x]))
            cur = nx
        out = []
        for s, ps in cur:
            out.append((s, self.lib.fstr(ps)))
        return out

    def _seq(self, op, node, st, fr):
        cur = [(st, [])]   # list of parts; ('*', v) for starred
        for e in node.elts:
            nx = []
            for s, vs in cur:
                if isinstance(e, ast.Starred):
                    for s2, v in self.ev(e.value, s, fr):
                        nx.append((s2, vs + [("*", v)]))
                else:
                    for s2, v in self.ev(e, s, fr):
                        nx.append((s2, vs + [v]))
            cur = nx
        out = []
        for s, vs in cur:
            r = mk(op)
            for v in vs:
                if isinstance(v, tuple):
                    items = self.lib.enumerate_items(v[1])
                    r = t.concat(r, mk(op, *items)) if items is not None else t.concat(r, v[1])
                else:
                    r = t.concat(r, mk(op, v)) if r.op != op else mk(op, *r.args, v)
            out.append((s, r))
        return out

    def e_Tuple(self, node, st, fr):
        return self._seq("tuple", node, st, fr)

    def e_List(self, node, st, fr):
        return self._seq("list", node, st, fr)

    def e_Set(self, node, st, fr):
        return [(s, mk("set", *v.args)) for s, v in self._seq("list", node, st, fr)]

    def e_Dict(self, node, st, fr):
        cur = [(st, ())]
        for k, v in zip(node.keys, node.values):
            nx = []
            for s, items in cur:
                if k is None:
                    for s2, d in self.ev(v, s, fr):
                        if d.op == "dict":
                            it = dict(items)
                            for a, b in d.args[0]:
                                it.pop(a, None)
                                it[a] = b
                            nx.append((s2, tuple(it.items())))
                        else:
                            nx.append((s2, items + ((mk("starstar"), d),)))
                else:
                    for s2, kv in self.evs([k, v], s, fr):
                        it = dict(items)
                        it.pop(kv[0], None)
                        it[kv[0]] = kv[1]
                        nx.append((s2, tuple(it.items())))
            cur = nx
        return [(s, mk("dict", items)) for s, items in cur]

    def e_Slice(self, node, st, fr):
        parts = [node.lower, node.upper, node.step]
        cur = [(st, [])]
        for p in parts:
            nx = []
            for s, vs in cur:
                if p is None:
                    nx.append((s, vs + [NONE]))
                else:
                    for s2, v in self.ev(p, s, fr):
                        nx.append((s2, vs + [v]))
            cur = nx
        return [(s, mk("slice", *vs)) for s, vs in cur]

    def e_UnaryOp(self, node, st, fr):
        out = []
        for s, v in (self.cond if isinstance(node.op, ast.Not) else self.ev)(node.operand, st, fr):
            if isinstance(node.op, ast.Not):
                out.append((s, t.nott(self.truthy(v))))
            elif isinstance(node.op, ast.USub):
                out.append((s, const(-v.args[0]) if t.is_num(v) else t.neg(v)))
            elif isinstance(node.op, ast.UAdd):
                out.append((s, v))
            else:
                out.append((s, mk("invert", v)))
        return out

    def truthy(self, v):
        """Boolean view of a value."""
        if v.op in ("list", "tuple", "set"):
            return const(len(v.args) > 0)
        if v.op == "dict":
            return const(len(v.args[0]) > 0)
        if v is NONE:
            return FALSE
        if v.op == "const":
            return const(bool(v.args[0]))
        if v.op in ("path", "textfile", "binfile", "zip"):
            return TRUE
        return v

    def e_BinOp(self, node, st, fr):
        out = []
        for s, (a, b) in self.evs([node.left, node.right], st, fr):
            out.append((s, self.binop(node.op, a, b)))
        return out

    def binop(self, op, a, b):
        lib = self.lib
        a, b = lib.num(a), lib.num(b)
        if isinstance(op, ast.Add):
            if (lib.textual(a) or lib.textual(b)) and not (a.op == "const" and b.op == "const") and all(
                    lib.textual(x) or x.op in ("ret", "call", "sym", "attr", "index", "elem") for x in (a, b)):
                return lib.fstr([a, b])
            return lib.stackwise(t.add, a, b)
        if isinstance(op, ast.Sub):
            return lib.stackwise(t.sub, a, b)
        if isinstance(op, ast.Mult):
            return lib.stackwise(t.mul, a, b)
        if isinstance(op, ast.Div):
            if a.op == "path" or b.op == "path":
                v = lib.paths.make([a, b])
                if v is not None:
                    return v
            if a.op in ("ret", "call", "sym", "attr", "fstr") and (t.is_const(b) and isinstance(b.args[0], str) or b.op == "fstr"):
                return mk("pathjoin", a, b)
            if a.op == "pathjoin":
                return mk("pathjoin", *a.args, b)
            return lib.stackwise(t.div, a, b)
        if isinstance(op, ast.FloorDiv):
            return t.floordiv(a, b)
        if isinstance(op, ast.Mod):
            if a.op == "const" and isinstance(a.args[0], str):
                v = lib.percent(a.args[0], b)
                return v if v is not None else mk("binop", "Mod", a, b)
            return t.mod(a, b)
        if isinstance(op, ast.Pow):
            return t.power(a, b)
        if isinstance(op, ast.BitAnd):
            return t.conj([a, b]) if isbool(a) and isbool(b) else mk("band", *sorted((a, b)))
        if isinstance(op, ast.BitOr):
            if a.op == "dict" and b.op == "dict":
                d = dict(a.args[0])
                for k, v in b.args[0]:
                    d.pop(k, None)
                    d[k] = v
                return mk("dict", tuple(d.items()))
            return t.disj([a, b]) if isbool(a) and isbool(b) else mk("bor", *sorted((a, b)))
        return mk("binop", type(op).__name__, a, b)

    OPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is",
           ast.IsNot: "isnot", ast.In: "in", ast.NotIn: "notin"}

    def e_Compare(self, node, st, fr):
        out = []
        for s, vs in self.evs([node.left] + node.comparators, st, fr):
            parts = []
            for i, op in enumerate(node.ops):
                parts.append(self.compare(self.OPS[type(op)], vs[i], vs[i + 1]))
            out.append((s, t.conj(parts) if len(parts) > 1 else parts[0]))
        return out

    def compare(self, op, a, b):
        a, b = self.lib.num(a), self.lib.num(b)
        if op in ("is", "isnot") and (b is NONE or a is NONE):
            x = a if b is NONE else b
            if self.class_of(x) is not None:
                return const(op == "isnot")
        if op in ("is", "isnot") and a is not b and a.op == b.op and a.op in ("obj", "class"):
            return const(op == "isnot")
        if op in ("in", "notin") and b.op == "call" and b.args[0] == "keys":
            b = b.args[1][0]
        return t.compare(op, a, b)

    def e_BoolOp(self, node, st, fr, truth=False):
        isand = isinstance(node.op, ast.And)
        ev = self.cond if truth else self.ev
        # (as a value, `a or b` is a or b itself; as a condition, only its truth matters)
        allbool = isbool_all if truth else lambda ps: all(isbool(p) for p in ps)
        # evaluate lazily; fork only when a later operand has effects or may raise
        cur = [(st, [], None)]   # (state, parts, decided value)
        for i, n in enumerate(node.values):
            nx = []
            for s, parts, dec in cur:
                if dec is not None:
                    nx.append((s, parts, dec))
                    continue
                if parts:
                    guard = t.conj(parts) if isand else t.disj(parts)
                    tv = self.truth(guard, s)
                    if tv is (not isand):
                        nx.append((s, parts, const(not isand) if allbool(parts) else self.shortcut(parts, isand, s)))
                        continue
                    # evaluate under the assumption
                    s1 = self.assume(s, guard, isand, self.loc(n, fr))
                    if s1 is None:
                        nx.append((s, parts, parts[-1]))
                        continue
                    before = len(self.collectors[-1].items)
                    rs = ev(n, s1, fr)
                    pure = len(rs) == 1 and rs[0][0].trace == s1.trace and rs[0][0].heap == s1.heap and len(
                        self.collectors[-1].items) == before and self._samevars(rs[0][0], s1)
                    if pure:
                        q = s.copy()
                        q.cnt = dict(rs[0][0].cnt)
                        nx.append((q, parts + [rs[0][1]], None))
                    else:
                        s0 = self.assume(s, guard, not isand, self.loc(n, fr))
                        if s0 is not None:
                            nx.append((s0, parts, const(not isand) if allbool(parts) else self.shortcut(parts, isand, s0)))
                        for r, v in rs:
                            nx.append((r, [v], None))
                else:
                    for r, v in ev(n, s, fr):
                        nx.append((r, [v], None))
            cur = nx
        out = []
        for s, parts, dec in cur:
            if dec is not None:
                out.append((s, dec))
                continue
            if len(parts) == 1:
                out.append((s, parts[0]))
            elif allbool(parts):
                out.append((s, t.conj(parts) if isand else t.disj(parts)))
            else:
                out.append((s, self.shortcut(parts, isand, s)))
        return out

    def shortcut(self, parts, isand, s):
        """Value of `a or b ...`: a if a else b ..."""
        v = parts[-1]
        for p in reversed(parts[:-1]):
            tv = self.truth(p, s)
            if tv is None:
                if isbool(p) and isbool(v):
                    v = t.conj([p, v]) if isand else t.disj([p, v])
                else:
                    v = t.ite(self.truthy(p), v, p) if isand else t.ite(self.truthy(p), p, v)
            elif tv is not isand:
                v = p
        return v

    def _samevars(self, a, b):
        return a.vars == b.vars

    def e_IfExp(self, node, st, fr):
        out = []
        for s, c in self.cond(node.test, st, fr):
            rs = []
            for pol, e in ((True, node.body), (False, node.orelse)):
                s2 = self.assume(s, c, pol, self.loc(node, fr))
                if s2 is None:
                    continue
                rs += [(s3, v, pol) for s3, v in self.ev(e, s2, fr)]
            if len(rs) == 2 and rs[0][2] != rs[1][2] and rs[0][0].key() == rs[1][0].key() and _numeric_pair(rs[0][1], rs[1][1]):
                (sa, va, _), (sb, vb, _) = rs if rs[0][2] else rs[::-1]
                out.append((self._join([sa, sb]), t.ite(c, va, vb)))
            else:
                out += self.merge([(a, b) for a, b, _ in rs])
        return out

    def e_Lambda(self, node, st, fr):
        return [(st, self.mkclosure(node, st, fr))]

    def e_Starred(self, node, st, fr):
        return self.ev(node.value, st, fr)

    def e_Await(self, node, st, fr):
        return self.ev(node.value, st, fr)

    def e_FormattedValue(self, node, st, fr):
        return self.ev(node.value, st, fr)

    # ---- comprehensions
    def e_ListComp(self, node, st, fr):
        return self.comp(node, st, fr, "list")

    def e_GeneratorExp(self, node, st, fr):
        return self.comp(node, st, fr, "list")

    def e_SetComp(self, node, st, fr):
        return [(s, self.lib.mkset(v)) for s, v in self.comp(node, st, fr, "list")]

    def e_DictComp(self, node, st, fr):
        return self.comp(node, st, fr, "dict")

    def comp(self, node, st, fr, kind):
        cfr = Frame(fr.func, fr.module, fr.chain, fr.cls, fr.selfv)
        cfr.locals = set()

        def gen(i, s):
            """-> [(St, list-term)] for generators i.."""
            if i == len(node.generators):
                if kind == "dict":
                    return [(s2, mk("list", mk("tuple", *kv))) for s2, kv in self.evs([node.key, node.value], s, cfr)]
                return [(s2, mk("list", v)) for s2, v in self.ev(node.elt, s, cfr)]
            g = node.generators[i]
            res = []
            for s1, it in self.ev(g.iter, s, cfr if i else cfr):
                items = self.lib.enumerate_items(it)
                if items is not None and len(items) <= 64:
                    cur = [(s1, mk("list"))]
                    for x in items:
                        nx = []
                        for q, acc in cur:
                            for q1, _, _ in self.assign(g.target, x, q, cfr):
                                for q2, c in self._ifs(g.ifs, q1, cfr):
                                    tv = self.truth(c, q2)
                                    if tv is False:
                                        nx.append((q2, acc))
                                        continue
                                    if tv is None:
                                        for q3, v in gen(i + 1, q2):
                                            nx.append((q3, t.concat(acc, mk("guarded", c, v))))
                                    else:
                                        for q3, v in gen(i + 1, q2):
                                            nx.append((q3, t.concat(acc, v)))
                        cur = nx
                        if len(cur) > MAX_STATES:
                            raise Budget("comprehension states")
                    res += cur
                else:
                    k = self.active_iters.count(it)
                    elem = self.lib.iter_elem(it, k)
                    self.active_iters.append(it)
                    try:
                        for q1, _, _ in self.assign(g.target, elem, s1, cfr):
                            for q2, c in self._ifs(g.ifs, q1, cfr):
                                q3 = self.assume(q2, c, True) if c is not TRUE else q2
                                if q3 is None:
                                    res.append((q2, mk("list")))
                                    continue
                                rs = gen(i + 1, q3)
                                if len(rs) > 1:
                                    base = len(q3.guards)
                                    v = rs[-1][1]
                                    for a, b in reversed(rs[:-1]):
                                        gd = t.conj([x if p else t.nott(x) for x, p, _ in a.guards[base:]])
                                        if b.op == "list" and v.op == "list" and len(b.args) == 1 and len(v.args) == 1:
                                            v = mk("list", t.ite(gd, b.args[0], v.args[0]))
                                        else:
                                            v = t.ite(gd, b, v)
                                    rs = [(rs[0][0], v)]
                                for q4, v in rs:
                                    q5 = q2.copy()
                                    q5.cnt = dict(q4.cnt)
                                    q5.trace = q4.trace
                                    q5.heap = q4.heap
                                    it2, c2 = self.lib.strip_iter(it), c
                                    # composing over a filtered map keeps its filter
                                    if it.op == "map" and it.args[2] is not TRUE:
                                        c2 = t.conj([it.args[2], c])
                                    if v.op == "list" and len(v.args) == 1:
                                        res.append((q5, mk("map", v.args[0], it2, c2)))
                                    else:
                                        res.append((q5, mk("flatmap", v, it2, c2)))
                    finally:
                        self.active_iters.pop()
            return res
        out = []
        for s, v in gen(0, st):
            s = s.copy()
            for kx in [kx for kx in s.vars if kx[0] == cfr.sid]:
                del s.vars[kx]
            if kind == "dict":
                if v.op == "list" and all(x.op == "tuple" for x in v.args):
                    v = mk("dict", tuple({x.args[0]: x.args[1] for x in v.args}.items()))
                else:
                    v = mk("dictmap", v)
            out.append((s, v))
        return out

    def _ifs(self, ifs, st, fr):
        cur = [(st, TRUE)]
        for n in ifs:
            nx = []
            for s, c in cur:
                for s2, v in self.cond(n, s, fr):
                    nx.append((s2, t.conj([c, self.truthy(v)])))
            cur = nx
        return cur

    # ---- attribute / subscript / call
    def e_Attribute(self, node, st, fr):
        out = []
        for s, b in self.ev(node.value, st, fr):
            if node.attr in ("append", "extend", "add", "remove", "discard", "appendleft", "update") and alias.container(b) and alias.place(self, node.value, s, fr) is not None:
                lam = ast.copy_location(ast.Lambda(
                    args=ast.arguments(posonlyargs=[], args=[ast.arg(arg="@x")], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]),
                    body=ast.Call(func=node, args=[ast.Name(id="@x", ctx=ast.Load())], keywords=[])), node)
                for q in ast.walk(lam):
                    if not hasattr(q, "lineno"):
                        q.lineno, q.col_offset = node.lineno, node.col_offset
                self.kept.append(lam)
                out.append((s, self.mkclosure(lam, s, fr)))
                continue
            out += self.getattr(b, node.attr, s, fr, node)
        return out

    def getattr(self, b, name, st, fr, node):
        if b.op == "module":
            if (b, name) in st.heap:
                return [(st, st.heap[(b, name)])]
            m = self.p.modules[b.args[0]]
            r = self.p.module_attr(m, name)
            if r is None:
                return [(st, mk("attr", b, name))]
            return [(st, self.from_resolved(r, st, name, m))]
        if b.op == "ext":
            full = self.lib.canon(b.args[0] + "." + name)
            if b.args[0] in self.p.modules or full in self.p.modules:
                return [(st, mk("module", full))]
            return [(st, mk("ext", full))]
        if (b, name) in st.heap:
            return [(st, st.heap[(b, name)])]
        if b.op == "xnew" and self.world is not None:
            v = self.world.getattr(self, b, name, st)
            if v is not None:
                return [(st, v)]
        if name == "__dict__" and b.op == "obj":
            return [(st, self.obj_dict(b, st))]
        if name == "__dataclass_fields__" and (b.op == "class" or self.class_of(b) is not None):
            c = self.find_class(b.args[0]) if b.op == "class" else self.class_of(b)
            return [(st, mk("dict", tuple((const(f), mk("dcfield", f)) for f, _, _ in self.p.dataclass_fields(c))))]
        if b.op == "dcfield" and name == "name":
            return [(st, const(b.args[0]))]
        if b.op == "super":
            selfv, owner = b.args
            c = self.class_of(selfv) if selfv.op != "class" else self.find_class(selfv.args[0])
            f = self.p.find_method(c, name, after=self.find_class(owner)) if c else None
            if f is None:
                return [(st, mk("attr", b, name))]
            return [(st, mk("bound", selfv, f.name, f.cls.qual))]
        if b.op == "class":
            c = self.find_class(b.args[0])
            if name in ("__name__", "__qualname__"):
                return [(st, const(c.name))]
            f = self.p.find_method(c, name)
            if f is not None:
                if f.kind == "classmethod":
                    return [(st, mk("bound", b, f.name, f.cls.qual))]
                return [(st, mk("unboundm", f.cls.qual, f.name))]
            a = self.p.find_attr(c, name)
            if a is not None:
                return [(st, self.ev1(a[0], st, Frame(None, a[1].module, ())))]
            return [(st, mk("attr", b, name))]
        c = self.class_of(b)
        if c is not None:
            if name == "__class__":
                return [(st, mk("class", c.qual))]
            f = self.p.find_method(c, name)
            if f is not None:
                if f.is_property:
                    if self._is_stub(f):
                        return [(st, mk("attr", b, name))]
                    return self.call_func(f, [], {}, st, self.loc(node, fr), selfv=b, cls=c)
                if f.kind == "staticmethod":
                    return [(st, mk("unboundm", f.cls.qual, f.name))]
                if f.kind == "classmethod":
                    return [(st, mk("bound", mk("class", c.qual), f.name, f.cls.qual))]
                return [(st, mk("bound", b, f.name, f.cls.qual))]
            if b.op == "obj":
                a = self.p.find_attr(c, name)
                if a is not None:
                    return [(st, self.ev1(a[0], st, Frame(None, a[1].module, ())))]
            return [(st, self.default_attr(b, name))]
        return [(st, self.lib.attr(b, name))]

    def obj_dict(self, b, st):
        """The instance attributes: declared fields first, then in order of assignment."""
        c = self.class_of(b)
        names = [f for f, _, _ in self.p.dataclass_fields(c)] if c is not None else []
        names += [n for (o, n) in st.heap if o is b and n not in names]
        return mk("dict", tuple((const(n), st.heap[(b, n)]) for n in names if (b, n) in st.heap))

    def record(self, name, args, kwargs, st, fr, node, star, dstar):
        """dataclasses helpers on known records; None: not understood."""
        if not args or args[0].op not in ("obj", "class", "sym", "ret", "elem"):
            return None
        o = args[0]
        c = self.find_class(o.args[0]) if o.op == "class" else self.class_of(o)
        if c is None:
            return None
        fields = self.p.dataclass_fields(c)
        if not fields:
            return None
        if name == "dataclasses.fields":
            return [(st, mk("tuple", *[mk("dcfield", f) for f, _, _ in fields]))]
        if o.op == "class" or star is not None or dstar is not None:
            return None
        vals = {}
        for f, _, _ in fields:
            if f in kwargs:
                vals[f] = kwargs[f]
                continue
            r = self.getattr(o, f, st, fr, node)
            if len(r) != 1:
                return None
            st, vals[f] = r[0]
        if name == "dataclasses.replace":
            if any(k not in vals for k in kwargs):
                self.raise_(st.copy(), mk("excobj", "TypeError", ()), self.loc(node, fr))
                return []
            return self.instantiate(mk("class", c.qual), [], vals, st, fr, node)
        return [(st, mk("dict", tuple((const(k), v) for k, v in vals.items())))]

    def e_Subscript(self, node, st, fr):
        out = []
        for s, (b, k) in self.evs([node.value, node.slice], st, fr):
            v = self.lib.index(b, k)
            if v.op == "bottom" and b.op in ("list", "tuple") and not any(x.op in ("star", "starred") for x in b.args):
                self.raise_(s.copy(), mk("excobj", "IndexError", (const(f"{b.op} index out of range"),)), self.loc(node, fr))
                continue
            if v.op == "index" and b.op == "h5" and t.is_const(k) and isinstance(k.args[0], str) and b.args[0].op == "dict" and "/" not in k.args[0]:
                self.raise_(s.copy(), mk("excobj", "KeyError", (k,)), self.loc(node, fr))
                continue
            if b.op == "dict" and not any(a is k for a, _ in b.args[0]) and all(t.is_const(a) for a, _ in b.args[0]) and t.is_const(k) and s.links:
                pl = alias.place(self, node.value, s, fr)
                mkv = alias.factory(s, pl) if pl is not None else None
                if mkv is not None:
                    for s1, d in self.call(mkv, [], {}, s, fr, node):
                        out.append((alias.write(self, pl, b, mk("dict", b.args[0] + ((k, d),)), s1, self.loc(node, fr)), d))
                    continue
            if v.op == "index" and b.op == "dict" and t.is_const(k) and v.args == (b, k) and all(len(x) == 2 and t.is_const(x[0]) for x in b.args[0]):
                self.raise_(s.copy(), mk("excobj", "KeyError", (k,)), self.loc(node, fr))
                continue
            if v.op == "index" and b.op != "modconst" and self.in_try() and not self.lib.inbounds(v):
                self.may_raise(s, v, self.loc(node, fr), known=("KeyError",) if t.is_const(k) and isinstance(k.args[0], str) else ("IndexError",))
                # after a successful access the key is known to be present
            out.append((s, v))
        return out

    def e_Call(self, node, st, fr):
        # super()
        if isinstance(node.func, ast.Name) and node.func.id == "super" and self.p.resolve(fr.module, "super") is None:
            selfv = fr.selfv
            if selfv is None and fr.func is not None:
                names = [a.arg for a in fr.func.node.args.args]
                if names:
                    selfv = self.lookup(names[0], st, fr)
            owner = fr.func.cls.qual if fr.func and fr.func.cls else ""
            return [(st, mk("super", selfv, owner))]
        # logger calls and printing have no modelled effect; arguments may still have
        # in-place mutators on local containers
        out = []
        if isinstance(node.func, ast.Attribute):
            bases = self.ev(node.func.value, st, fr)
            for s, b in bases:
                if self.lib.is_logger(b):
                    out += self._ignored(node, s, fr)
                    continue
                if b.op == "xqueue" and node.func.attr in MUTATORS:
                    out += self._mutate(node, b, s, fr)
                    continue
                if node.func.attr in MUTATORS and b.op in ("list", "concat", "map", "flatmap", "dict", "set", "mu", "mkset", "accum", "guarded", "dictmap", "listcast", "call") \
                        and self._is_container(b, st):
                    pl = None if isinstance(node.func.value, (ast.Name, ast.Attribute)) else alias.place(self, node.func.value, s, fr)
                    if pl is not None or isinstance(node.func.value, (ast.Name, ast.Attribute)):
                        out += self._mutate(node, b, s, fr, pl)
                        continue
                    if isinstance(node.func.value, ast.Subscript) or isinstance(node.func.value, ast.Call) and node.func.attr in alias.GROW:
                        raise Budget(f"container changed in place at {self.loc(node, fr)} is not tracked")
                for s2, f in self.getattr(b, node.func.attr, s, fr, node.func):
                    if f.op == "attr" and f.args[0] is b and f.args[1] == node.func.attr:
                        f = mk("method", b, node.func.attr)
                    if node.func.attr == "shuffle" and node.args and isinstance(node.args[0], (ast.Name, ast.Attribute)):
                        rs = self._call_args(node, f, s2, fr)
                        src = self.lib.shuffler(f, s2)
                        out += self._shuffled(node, src, rs, fr) if src is not None else rs
                        continue
                    out += self._call_args(node, f, s2, fr)
            return out
        for s, f in self.ev(node.func, st, fr):
            rs = self._call_args(node, f, s, fr)
            src = self.lib.shuffler(f, s) if f.op == "ext" and node.args and isinstance(node.args[0], (ast.Name, ast.Attribute)) else None
            out += self._shuffled(node, src, rs, fr) if src is not None else rs
        return out

    def _shuffled(self, node, src, rs, fr):
        """In-place shuffling of the sequence bound to an lvalue."""
        out = []
        for s, v in rs:
            for s1, b in self.ev(node.args[0], s, fr):
                for s2, _, _ in self.assign_quiet(node.args[0], self.lib.shuffled(b, src), s1, fr):
                    out.append((s2, v))
        return out

    def _is_container(self, b, st):
        if b.op == "mu":
            for rec in reversed(self.loops):
                for key, m in rec.mu.items():
                    if m is b:
                        i = rec.init[key]
                        return self._is_container(i, st)
            return False
        if b.op == "call":
            return b.args[0] in ("list", "dict", "set", "sorted", "collections.deque", "collections.OrderedDict", "dict.copy")
        return True

    def _ignored(self, node, st, fr):
        # evaluate arguments only for effects of repository calls (rare); values are dropped
        return [(st, NONE)]

    def _mutate(self, node, b, st, fr, at=None):
        name = node.func.attr
        out = []
        for s, args in self.evs([a for a in node.args], st, fr):
            kwargs = {}
            if b.op == "xqueue":
                s = s.copy()
                val = self.world.mutate(s, b.args[0], name, args)
                out.append((s, mk("mutres", b, name, tuple(args)) if val is None else val))
                continue
            ok = True
            val = NONE
            if name == "append" and len(args) == 1:
                nv = t.concat(b, mk("list", args[0])) if b.op != "mu" else mk("concat", b, mk("list", args[0]))
            elif name == "extend" and len(args) == 1:
                items = self.lib.enumerate_items(args[0])
                x = mk("list", *items) if items is not None else args[0]
                nv = t.concat(b, x) if b.op != "mu" else mk("concat", b, x)
            elif name == "update" and b.op == "dict":
                d = dict(b.args[0])
                src = args[0] if args else None
                kws = []
                for k in node.keywords:
                    if k.arg:
                        kws.append((const(k.arg), self.ev1(k.value, s, fr)))
                if src is not None and src.op == "dict":
                    kws = list(src.args[0]) + kws
                    src = None
                for k, v in kws:
                    d.pop(k, None)
                    d[k] = v
                if src is not None:
                    d.pop(mk("starstar"), None)
                    d[mk("starstar")] = src
                nv = mk("dict", tuple(d.items()))
            elif name == "pop" and b.op == "dict" and args and args[0].op == "const":
                d = dict(b.args[0])
                if args[0] in d:
                    val = d.pop(args[0])
                elif len(args) == 1 and all(len(x) == 2 and t.is_const(x[0]) for x in b.args[0]):
                    self.raise_(s.copy(), mk("excobj", "KeyError", (args[0],)), self.loc(node, fr))
                    continue
                else:
                    val = args[1] if len(args) > 1 else mk("bottom")
                nv = mk("dict", tuple(d.items()))
            elif name == "pop" and b.op == "list" and b.args:
                i = args[0].args[0] if args and t.is_num(args[0]) else -1
                items = list(b.args)
                val = items.pop(i)
                nv = mk("list", *items)
            elif name == "pop" and b.op == "list" and len(args) <= 1:
                self.raise_(s.copy(), mk("excobj", "IndexError", (const("pop from empty list"),)), self.loc(node, fr))
                continue
            elif name == "clear":
                nv = mk("list") if b.op not in ("dict", "dictmap") else mk("dict", ())
            elif name == "add" and b.op in ("set", "mkset"):
                nv = mk("set", *b.args, args[0]) if b.op == "set" else mk("mkset", t.concat(b, mk("list", args[0])))
            elif name == "setdefault" and b.op == "dict" and len(args) == 2:
                d = dict(b.args[0])
                d.setdefault(args[0], args[1])
                val = d[args[0]]
                nv = mk("dict", tuple(d.items()))
            elif name == "sort":
                kws = {k.arg: self.ev1(k.value, s, fr) for k in node.keywords if k.arg}
                nv = self.lib.keyed_sort(self, b, kws, s, fr, node) or self.lib.py_sorted(b, sorted(kws.items()))
            elif pylib.mutate(b, name, args) is not None:
                nv, val = pylib.mutate(b, name, args)
            else:
                nv = mk("mutated", b, name, tuple(args))
                val = mk("mutres", b, name, tuple(args))
            pl = at if at is not None else alias.place(self, node.func.value, s, fr)
            if pl is None:
                for s2, _, _ in self.assign_quiet(node.func.value, nv, s, fr):
                    out.append((s2, val))
                continue
            s2 = s.copy()
            if name not in ("append", "extend", "add", "update", "setdefault"):
                alias.drop(s2, pl, inside=True)
            s2 = alias.write(self, pl, b, nv, s2, self.loc(node, fr))
            if name == "append" and b.op == "list" and len(args) == 1 and alias.holds(args[0]):
                src = alias.shape(self, node.args[0], args[0], s, fr)
                if src is not None:
                    alias.connect(s2, ("e", pl, const(len(b.args))), src)
            out.append((s2, val))
        return out

    def _call_args(self, node, f, st, fr):
        lazy = node is self.lazynode
        if lazy:
            self.lazynode = None
        if f.op == "builtin" and f.args[0] == "print" and all(k.arg != "file" for k in node.keywords):
            # still evaluate the arguments: they may call repository code
            res = []
            for s, _ in self.evs([a.value if isinstance(a, ast.Starred) else a for a in node.args], st, fr):
                res.append((s, NONE))
            return res
        cur = [(st, [], {}, None, None)]
        for a in node.args:
            nx = []
            for s, ar, kw, star, ds in cur:
                if isinstance(a, ast.Starred):
                    for s2, v in self.ev(a.value, s, fr):
                        items = self.lib.enumerate_items(v)
                        if items is not None:
                            nx.append((s2, ar + list(items), kw, star, ds))
                        else:
                            nx.append((s2, ar, kw, v, ds))
                else:
                    for s2, v in self.ev(a, s, fr):
                        nx.append((s2, ar + [v], kw, star, ds))
            cur = nx
        for k in node.keywords:
            nx = []
            for s, ar, kw, star, ds in cur:
                for s2, v in self.ev(k.value, s, fr):
                    if k.arg is None:
                        if v.op == "dict" and all(kk.op == "const" for kk, _ in v.args[0]):
                            d = dict(kw)
                            for kk, vv in v.args[0]:
                                d[kk.args[0]] = vv
                            nx.append((s2, ar, d, star, ds))
                        else:
                            nx.append((s2, ar, kw, star, v))
                    else:
                        d = dict(kw)
                        d[k.arg] = v
                        nx.append((s2, ar, d, star, ds))
            cur = nx
        out = []
        for s, ar, kw, star, ds in cur:
            self.argplaces = None
            if f.op in ("closure", "func", "bound", "class", "partial") and any(alias.container(v) for v in ar + list(kw.values())):
                if not any(isinstance(a, ast.Starred) for a in node.args):
                    pls = [(alias.place(self, a, s, fr) if alias.container(v) else None, v) for a, v in zip(node.args, ar)]
                    self.argplaces = (pls, {k.arg: (alias.place(self, k.value, s, fr), kw[k.arg]) for k in node.keywords if k.arg and alias.container(kw[k.arg])})
            self.lazygen = lazy
            for s2, v in self.call(f, ar, kw, s, fr, node, star, ds):
                if s2.ret is not None and f.op not in ("closure", "func", "bound"):
                    s2 = s2.copy()
                    s2.ret = None
                out.append((s2, v))
            self.argplaces = None
        return out


class Collector:
    def __init__(self, node):
        self.items = []
        self.squeezed = 0
        self.active = node is not None


def _without(s, c):
    q = St()
    q.facts = {k: v for k, v in s.facts.items() if k is not c}
    return q


def _as_load(n):
    n2 = ast.copy_location(ast.parse(ast.unparse(n), mode="eval").body, n)
    for c in ast.walk(n2):
        if not hasattr(c, "lineno"):
            c.lineno = n.lineno
    return n2


BOOL_OPS = {"cmp", "and", "or", "not", "eq", "eq0", "isnone", "in", "isinstance", "all", "any", "ord", "isclose"}


def isbool(v):
    return v.op in BOOL_OPS or (v.op == "const" and isinstance(v.args[0], bool))


def isbool_all(vs):
    return all(isbool(v) or v.op in ("ret", "call", "sym", "attr", "cfgget", "index", "elem", "bcmp", "list", "const") for v in vs)


def is_listy(v):
    return v.op in ("list", "concat", "map", "flatmap", "accum")


NUMERIC = ("poly", "min", "max", "fn", "floordiv", "mod", "inv", "reduce")
PLAIN = NUMERIC + ("attr", "sym", "index", "row", "elem")


def _numeric_pair(a, b):
    """Both branches of a conditional expression are numbers: keep it one value."""
    na, nb = (x.op in NUMERIC or x.op == "const" and isinstance(x.args[0], (int, float)) and not isinstance(x.args[0], bool) for x in (a, b))
    return (na and (nb or b.op in PLAIN)) or (nb and a.op in PLAIN)
