"""P31, P32: episodes."""
from __future__ import annotations
from ..check import prop
from .. import lib
from .. import terms as t
from .. import histories as H
from ..terms import mk, const, NONE
from ..env import Env, arr
from .p_sched import shuffler

ASSUME = ["files do not change while they are served", "jax.random.choice and randint may return every value of their range"]
KEYSYM = t.sym("key")


def population(x):
    """The values a random choice may take, in order, or None."""
    if lib._cint(x):
        return [const(k) for k in range(x.args[0])]
    n = H.length(x)
    return None if n is None else [H.entry(x, k) for k in range(n)]


def picker(plan, seen):
    """jax.random.choice / randint with chosen outcomes: draw j of call i picks value number plan[i][j] (mod the number of values).
    `seen` collects (call, number of values, replace, key)."""
    def nth(st):
        return sum(1 for e in st.trace if e.kind == "call" and e.callee.op == "ext" and e.callee.args[0] in ("jax.random.choice", "jax.random.randint", "jax.random.permutation"))

    def out(vals, shape, key, st, repl):
        i = nth(st)
        if vals is None or not vals or any(v is None for v in vals):
            return None
        if shape is None or shape is NONE or shape.op == "tuple" and not shape.args:
            n = None
        else:
            s = lib.enumerate_items(shape) if shape.op in ("tuple", "list") else [shape]
            if s is None or len(s) != 1 or not lib._cint(s[0]):
                return None
            n = s[0].args[0]
        p = plan[i % len(plan)]
        seen.append((i, len(vals), repl, key))
        pick = [vals[p[j % len(p)] % len(vals)] for j in range(n or 1)]
        return "ret", pick[0] if n is None else mk("list", *pick)

    def choice(a, k, st):
        g = lambda i, nm, d=None: a[i] if len(a) > i else k.get(nm, d)
        if g(4, "p", NONE) is not NONE or g(5, "axis", const(0)) is not const(0):
            return None
        return out(population(g(1, "a")), g(2, "shape"), g(0, "key"), st, g(3, "replace", t.TRUE))

    def randint(a, k, st):
        g = lambda i, nm, d=None: a[i] if len(a) > i else k.get(nm, d)
        lo, hi = g(2, "minval"), g(3, "maxval")
        if not (lib._cint(lo) and lib._cint(hi)):
            return None
        return out([const(v) for v in range(lo.args[0], hi.args[0])], g(1, "shape"), g(0, "key"), st, t.TRUE)
    return {"jax.random.choice": choice, "jax.random.randint": randint}


class Layout:
    def __init__(self, name, dirs, given, extra=()):
        """dirs: {directory: names of its files}; given: file_list of the wrapped scheduler"""
        self.name, self.dirs, self.given = name, dirs, given
        self.files, self.rows = {}, {}
        for d, ns in dirs.items():
            for n in ns:
                p = f"{d}/{n}"
                V = arr(p + ":V", 8, 6, 2)
                self.files[p] = {"kind": "mat5", "data": {"V": V, "I0": arr(p + ":I0", 8, 6), "I1": arr(p + ":I1", 8, 6)}}
                self.rows[p] = V
        for p in extra:
            self.files[p] = None

    def env(self):
        return Env(self.files)

    def runs(self, L):
        """All admissible episodes."""
        out = []
        for d, ns in self.dirs.items():
            ps = [f"{d}/{n}" for n in sorted(ns)]
            out += [tuple(ps[s:s + L]) for s in range(len(ps) - L + 1)]
        return out

    def ctor(self, B, L, kw=""):
        return f"EpisodicFlowFieldScheduler(MATFlowFieldScheduler({self.given!r}, output_shape=(8, 6){kw}), batch_size={B}, episode_length={L}, key=key)"


num = lambda n: [f"{i:02d}.mat" for i in range(n)]
LAYOUTS = [
    Layout("two folders", {"/r/a": num(3), "/r/b": num(4)}, ["/r/a", "/r/b"]),
    Layout("nested folders, other files", {"/r/x/a": num(2), "/r/x/b": num(4), "/r/c": num(3)}, ["/r"], ["/r/c/readme.txt", "/r/x/a/flow_1.npy", "/r/x/b/01.txt"]),
    Layout("names without leading zeros", {"/r/a": ["8.mat", "9.mat", "10.mat"], "/r/b": ["m2.mat", "m1.mat", "m3.mat"]}, ["/r/b", "/r/a"]),
    Layout("folders of the same name", {"/r/x/run": num(2), "/r/y/run": num(3)}, ["/r"]),
    Layout("one folder", {"/r": num(4)}, ["/r"]),
    Layout("one folder given as files in reverse", {"/r/a": num(3), "/r/b": num(3)}, [f"/r/{d}/{n}" for d in "ba" for n in reversed(num(3))]),
]


def oracle(x, st):
    return False if x.op == "isnone" and x.args[0] is KEYSYM else None


def tell(c, lay, B, L, plan, ops, kw=""):
    """-> [(exit, outcomes)], draws"""
    seen = []
    I, ex = H.run(c, lay.env(), lay.ctor(B, L, kw), ops, params=("key",), oracle=oracle, models={**shuffler([]), **picker(plan, seen)})
    return ex, seen


def files_of(r, B, lay):
    """The files of a recorded batch, checked against its flow fields -> (paths, None) or (None, (verdict, detail))"""
    if r.op != "tuple" or r.args[0].op != "const":
        return None, (None, t.show(r, 3)[:100])
    if r.args[0].args[0] != "batch":
        d = f"{t.show(r, 3)[:80]} instead of a batch"
        return None, (None if r.args[0].args[0] == "error" and H.excname(r.args[1]) is None else False, d)
    ps = lib.enumerate_items(r.args[5]) if r.args[5] is not NONE else None
    if ps is None or len(ps) != B or any(p.op != "const" for p in ps):
        return None, (None, f"files: {t.show(r.args[5], 3)[:100]}")
    ps = [p.args[0] for p in ps]
    for i, p in enumerate(ps):
        v = H.entry(r.args[1], i)
        if v is None:
            return None, (None, f"flow {i} not resolved")
        if p in lay.rows and v is not lay.rows[p]:
            return None, (False if H.known(v) else None, f"flow {i} is {t.show(v, 3)[:60]}, labelled {p}")
    return ps, None


def episode(c, lay, B, L, plan, kw="", skip=0, again=""):
    """The files of one episode as [(files of entry 0), ...] per path, or a problem (verdict, detail)."""
    ops = [B] * skip + ([again] if again else []) + [B] * L
    ex, seen = tell(c, lay, B, L, plan, ops, kw)
    out = []
    for e in ex:
        if e.kind == "raise":
            out.append((e, None, (None if e.st.guards or H.excname(e.val) is None else False, f"raises {t.show(e.val, 3)[:100]}")))
            continue
        if e.val.op != "tuple":
            out.append((e, None, (None, t.show(e.val, 2)[:80])))
            continue
        steps, bad = [], None
        for r in e.val.args[skip:]:
            ps, b = files_of(r, B, lay)
            if b is not None:
                bad = b
                break
            steps.append(ps)
        if bad is not None and e.st.guards:
            bad = (None, H.why(e) + " / " + bad[1])
        out.append((e, None if bad else [tuple(s[i] for s in steps) for i in range(B)], bad))
    return out, seen


@prop("P31", "the episodic wrapper over the MATLAB scheduler is interpreted on small directory trees with every start drawn in turn; the files "
      "served are compared with the admissible runs of consecutive files", ASSUME)
def p31(c):
    for lay in LAYOUTS:
        short = min(len(x) for x in lay.dirs.values())
        for L in range(1, short + 1):
            with c.group(f"{lay.name}, {L} steps"):
                want = lay.runs(L)
                F, ok = {}, True
                n = None
                for i in range(len(want)):
                    eps, seen = episode(c, lay, 1, L, [[i]])
                    ns = {m for _, m, _, _ in seen}
                    if len(ns) != 1:
                        c.decide("starts", None, f"draws {sorted(ns)}")
                        ok = False
                        break
                    n = ns.pop()
                    for e, ep, bad in eps:
                        if bad is not None:
                            c.decide(f"start {i}", *bad, e.loc)
                            ok = False
                            continue
                        good = ep[0] in want
                        c.decide(f"start {i}", good if not e.st.guards or good else None,
                                 f"{list(ep[0])} are not {L} consecutive files of one directory", e.loc)
                        if i in F and F[i] != ep[0]:
                            c.decide(f"start {i}", None, f"{F[i]} or {ep[0]}")
                        F[i] = ep[0]
                if not ok:
                    continue
                c.decide("number of starts", n == len(want), f"{n} starts are drawn from, {len(want)} are admissible")
                missing = [w for w in want if w not in F.values()]
                c.decide("every start", not missing if n == len(want) or not missing else None if n > len(want) else False,
                         f"never drawn: {[list(w) for w in missing[:2]]}")
                for B in (2, 3) if len(want) > 1 else (2,):
                    for plan in ([0, 1, 2], [len(want) - 1, 0, 1], [1, 1, 0]):
                        for kw in ("", ", randomize=True, key=key, loop=True") if L == short else ("",):
                            eps, _ = episode(c, lay, B, L, [plan], kw)
                            for e, ep, bad in eps:
                                nm = f"batch of {B}, draws {plan[:B]}{' over a shuffled scheduler' if kw else ''}"
                                if bad is not None:
                                    c.decide(nm, *bad, e.loc)
                                    continue
                                w = [F[p % len(want)] for p in plan[:B]]
                                inside = all(x in want for x in ep)
                                c.decide(nm, ep == w if not e.st.guards else None if ep != w else True,
                                         f"episodes {[list(x) for x in ep]} instead of {[list(x) for x in w]}" if inside else
                                         f"{[list(x) for x in ep if x not in want][:2]} are not consecutive files of one directory", e.loc)
            if L == short:
                for rest in ("reset", "next_episode", "reset_episode"):
                    with c.group(f"{lay.name}, {L} steps, after {rest}"):
                        for done in sorted({0, 1, L}):
                            eps, seen = episode(c, lay, 2, L, [[0, 0], [1, len(want) - 1]], "", done, f"s.{rest}()")
                            for e, ep, bad in eps:
                                nm = f"after {done} steps"
                                if bad is not None:
                                    c.decide(nm, *bad, e.loc)
                                    continue
                                w = [F[1 % len(want)], F[len(want) - 1]]
                                c.decide(nm, ep == w if not e.st.guards or ep == w else None, f"episodes {[list(x) for x in ep]} instead of {[list(x) for x in w]}", e.loc)
                            keys = {i: k for i, _, _, k in seen}
                            if len(keys) == 2 and all(k is not None for k in keys.values()):
                                ks = list(keys.values())
                                fresh = ks[0] is not ks[1]
                                c.decide(f"fresh key after {done} steps", fresh, f"both draws use {t.show(ks[0])}")
                            else:
                                c.decide(f"fresh key after {done} steps", None, f"draws {sorted(keys)}")
        # a folder that is too short
        with c.group(f"{lay.name}, too short"):
            for L in (short + 1, short + 2):
                I, ex = H.run(c, lay.env(), lay.ctor(1, L), [], params=("key",), oracle=oracle, models={**shuffler([]), **picker([[0]], [])})
                from ..classes import reject
                reject(c, f"{L} steps", ex, ("ValueError",))
    unreadable(c)


def unreadable(c):
    """A frame that cannot be read: the entries that are served still belong to their episodes."""
    lay0 = LAYOUTS[0]
    want = lay0.runs(3)
    a, b = next(w for w in want if "/a/" in w[0]), next(w for w in want if "/b/" in w[0])
    for gone in (a[0], a[1], b[1], a[2]):
        lay = Layout("", lay0.dirs, lay0.given)
        lay.files[gone] = None
        ex, _ = tell(c, lay, 2, 3, [[want.index(a), want.index(b)]], [2, 2, 2])
        for e in ex:
            v, d = True, ""
            if e.kind == "raise":
                v, d = (True if H.excname(e.val) and not H.excname(e.val).startswith("@") else None), t.show(e.val, 2)[:80]
            else:
                for k, r in enumerate(e.val.args):
                    if r.op != "tuple" or r.args[0].op != "const":
                        v, d = None, t.show(r, 3)[:80]
                        break
                    if r.args[0].args[0] != "batch":
                        continue
                    ps = lib.enumerate_items(r.args[5]) if r.args[5] is not NONE else None
                    if ps is None or len(ps) != 2 or any(p.op != "const" for p in ps):
                        v, d = None, "files not resolved"
                        break
                    for ent, p in enumerate(ps):
                        if p.args[0] and p.args[0] != (a, b)[ent][k]:
                            v, d = False, f"step {k + 1}, entry {ent + 1} is {p.args[0]} instead of {(a, b)[ent][k]}"
            if v is False and e.st.guards:
                v = None
            if v is False:
                return c.decide("a frame that cannot be read", v, d, e.loc, key="frame that cannot be read")
            c.decide(f"a frame that cannot be read: {gone}", v, d, e.loc)


@prop("P32", "every history of steps and restarts up to two episodes is interpreted; outcomes and the remaining-steps counter are compared with a counter",
      ASSUME)
def p32(c):
    lay = LAYOUTS[0]
    restarts = ("s.reset()", "s.next_episode()", "s.reset_episode()")
    thorough = c.tier == "thorough"
    for B in (1, 2):
        for L in (1, 2, 3):
            full = [B] * L
            hist = [("to the end", full + [B]), ("past the end", full + [B, B, B])]
            for r in restarts:
                nm = r[2:-2]
                for k in range(L + 2):
                    hist.append((f"{nm} after {k} requests", [B] * k + [r] + full + [B]))
                hist.append((f"{nm} twice", [B, r, r] + full + [B]))
                hist.append((f"{nm} in every episode", [B, r] + full + [B, r, B, r] + full + [B]))
            for k in range(L):
                hist.append((f"mixed after {k} requests", [B] * k + [restarts[1]] + [B] * k + [restarts[0]] + full + [B]))
            if thorough:
                import itertools
                for seq in itertools.product([B, "s.reset()", "s.next_episode()"], repeat=L + 3):
                    hist.append((f"history {[x if isinstance(x, int) else x[2:-2] for x in seq]}", list(seq)))
            with c.group(f"batch of {B}, {L} steps"):
                for nm, ops in hist:
                    story, want, served = [("value", "s.steps_remaining()"), ("value", "len(s)"), ("value", "s.episode_length")], [H.Value(L)] * 3, 0
                    for op in ops:
                        story.append(op)
                        if isinstance(op, int):
                            if served < L:
                                served += 1
                                want.append("batch")
                            else:
                                want.append(H.Raises("EpisodeEnd"))
                        else:
                            served = 0
                        story.append(("value", "s.steps_remaining()"))
                        want.append(H.Value(L - served))
                    outcome(c, nm, lay, B, L, story, want)
    with c.group("a request that fails serves no step"):
        for L in (1, 2, 3):
            lay = Layout("unreadable at the end", {"/r/a": num(L)}, ["/r/a"])
            lay.files[f"/r/a/{L - 1:02d}.mat"] = None
            gone = ("value", "s.steps_remaining()")
            story, want = [], []
            for k in range(L - 1):
                story += [1, gone]
                want += ["batch", H.Value(L - k - 1)]
            story += [1, gone, 1, gone, "s.next_episode()", gone]
            want += [H.END, H.Value(1), H.END, H.Value(1), H.Value(L)]
            outcome(c, f"{L} steps, the last one cannot be read", lay, 1, L, story, want)
    from .p_prefetch import episodes
    episodes(c)


def outcome(c, name, lay, B, L, ops, want):
    ex, seen = tell(c, lay, B, L, [[0, 1], [2, 1], [1, 0]], ops)
    if not ex:
        return c.decide(name, None, "no path")
    for e in ex:
        if e.kind == "raise":
            c.decide(name, None if e.st.guards or H.excname(e.val) is None else False, f"raises {t.show(e.val, 3)[:100]}", e.loc)
            continue
        v, d = True, ""
        for i, (r, w) in enumerate(zip(e.val.args, want)):
            if w == "batch":
                ps, bad = files_of(r, B, lay)
                v1, d1 = (True, "") if bad is None else bad
            else:
                v1, d1 = H.compare(r, w)
            if v1 is not True and (v is True or v1 is False):
                v, d = v1, f"observation {i + 1}: {d1}"
        if v is False and e.st.guards:
            v, d = None, H.why(e) + " / " + d
        c.decide(name, v, d, e.loc)
