"""P07: same configuration and seed give the same data.

Sources of nondeterminism are followed into values: what the generation
functions and the samplers return must not contain one. What has no value of
its own (the order of directory listings and of sets, unseeded shuffles, state
that outlives an instance) is decided by interpreting the same session in two
runs that differ in exactly that, and by two instances in one process."""
from __future__ import annotations
import zlib
from .. import lib
from .. import terms as t
from .. import histories as H
from ..check import prop, Undecided
from ..env import Env, arr
from ..query import calls
from ..session import synthetic, GENF, ADAPT
from ..terms import mk, const, sym, T, NONE
from ..threads import World
from . import p_sampler as S
from .p_episodes import LAYOUTS, population
from .p_motion import gen_setup
from .p_sched import ALL, NPY, NPYI, MAT, HDF5

PREFIX = ("time.", "random.", "np.random.", "uuid.", "secrets.", "os.environ", "socket.", "platform.", "tempfile.")
NAMES = {"os.urandom", "os.getpid", "os.getppid", "os.times", "os.getenv", "threading.get_ident", "threading.get_native_id", "threading.current_thread",
         "datetime.datetime.now", "datetime.datetime.today", "datetime.datetime.utcnow", "datetime.date.today", "time", "random", "os.getcwd", "os.getlogin"}
SEEDED = {"random.Random", "np.random.default_rng", "np.random.RandomState", "np.random.SeedSequence", "np.random.PCG64", "np.random.MT19937",
          "np.random.Philox", "np.random.Generator"}
HARMLESS = {"random.seed", "np.random.seed", "random.shuffle", "np.random.shuffle", "time.sleep", "time.struct_time"}


def nondeterministic(x, seeded=()):
    """Does this term stand for a value that another run may not reproduce?"""
    if x.op == "ext":
        n = x.args[0]
        if n in HARMLESS or n in SEEDED:
            return False
        return n in NAMES - {"time", "random"} or n.startswith(tuple(p for p in PREFIX if p not in seeded))
    if x.op == "ret" and x.args[0].op == "ext" and x.args[0].args[0] in SEEDED and x.args[0].args[0] != "np.random.Generator":
        return not x.args[1] or x.args[1][0] is NONE
    if x.op == "call" and x.args[0] == "id":
        return True
    if x.op == "call" and x.args[0] == "hash":
        return not (len(x.args[1]) == 1 and t.is_num(x.args[1][0]))
    if x.op == "permuted":
        return x.args[1].op == "unseeded"
    return False


def source(x, e=None):
    """A source of nondeterminism in this term, or None."""
    seeded = set()
    for ev in e.st.trace if e is not None else ():
        if ev.kind == "call" and ev.callee.op == "ext" and ev.callee.args[0] in ("random.seed", "np.random.seed") and ev.args and ev.args[0] is not NONE:
            seeded.add(ev.callee.args[0].replace("seed", ""))
    return next((y for y in t.walk(x) if nondeterministic(y, seeded)), None)


def deep(x, e, open=()):
    """Objects replaced by their fields, repeated pure calls by one call."""
    def f(y):
        if y.op == "obj":
            if y in open:
                return mk("cycle", open.index(y))
            fs = [(a, v) for (o, a), v in e.st.heap.items() if o is y]
            return mk("record", y.args[1], tuple((const(a), deep(v, e, open + (y,))) for a, v in sorted(fs, key=lambda p: str(p[0]))))
        return None
    return S.pure(t.subst(x, f))


def clean(c, name, e, vals, loc=""):
    """No source of nondeterminism in these values of one path."""
    for v in vals:
        s = source(deep(v, e), e)
        if s is not None:
            c.decide(name, False if not e.st.guards else None, f"depends on {t.show(s, 4)[:120]}", loc or e.loc, key=f"{name}: {t.show(s, 3)[:60]}")
            return
    c.ok(name, f"{sum(1 for v in vals for _ in t.walk(v))} terms", loc)


FUNCTIONS = [("synthpix.generate:img_gen_from_data", "positions to image"), ("synthpix.generate:add_noise_to_image", "noise"),
             ("synthpix.generate:gaussian_2d_correlated", "particle patch"), ("synthpix.utils:match_histogram", "histogram matching"),
             ("synthpix.apply:apply_flow_to_particles", "displacement"), ("synthpix.utils:flow_field_adapter", "flow adaptation"),
             ("synthpix.utils:bilinear_interpolate", "interpolation"), ("synthpix.utils:trilinear_interpolate", "3-D interpolation")]


def functions(c):
    from ..query import shape_oracle
    for q, name in FUNCTIONS:
        with c.group(name):
            I, ex = c.exits(q, oracle=shape_oracle)
            if not ex:
                raise Undecided("no path")
            for e in ex:
                if e.kind == "return":
                    clean(c, name, e, [e.val] + [ev.result for ev in e.st.trace if ev.kind == "draw"])
    for nm, kw in (("plain", {}), ("mask", dict(mask=sym("mask"))), ("histogram", dict(histogram=sym("histogram")))):
        with c.group(f"generated pair, {nm}"):
            f, I, e = gen_setup(c, **kw)
            clean(c, f"generated pair, {nm}", e, [e.val] + [ev.result for ev in e.st.trace if ev.kind == "draw"], f.loc)


def sampler_values(c):
    with c.group("synthetic batch, any settings"):
        for s in synthetic(c)[:None if c.tier == "thorough" else 4]:
            for x in s.step("b = next(obj)\nreturn (b.images1, b.images2, b.flow_fields, b.params, b.mask, b.files, b.done)"):
                if x.kind != "return":
                    continue
                v = deep(x.val, x.e)
                src = source(v, x.e)
                c.decide("synthetic batch, any settings", src is None, f"depends on {t.show(src, 4)[:120]}" if src is not None else "no source", x.e.loc)


# ------------------------------------------------------------ models of random outcomes that depend on the key alone
def keyed():
    def h(key, *more):
        return zlib.crc32((t.show(key, 40) + repr(more) + (str(lib.RUN) if source(key) is not None else "")).encode())

    def seed(key):
        return mk("unseeded") if source(key) is not None else mk("seeded", key)

    def items(x):
        return population(x) if x is not None else None

    def permutation(a, k, st):
        key, x = (a[0] if a else k.get("key")), (a[1] if len(a) > 1 else k.get("x"))
        xs = items(x)
        if xs is None or key is None or any(v is None for v in xs):
            return None
        return "ret", mk("list", *lib.shuffle_items(xs, seed(key)))

    def pick(vals, shape, key, repl):
        if vals is None or not vals or key is None or any(v is None for v in vals):
            return None
        if shape is None or shape is NONE or shape.op == "tuple" and not shape.args:
            return "ret", vals[h(key) % len(vals)]
        s = lib.enumerate_items(shape) if shape.op in ("tuple", "list") else [shape]
        if s is None or len(s) != 1 or not lib._cint(s[0]):
            return None
        n = s[0].args[0]
        if repl is t.FALSE:
            return "ret", mk("list", *lib.shuffle_items(vals, seed(key))[:n])
        return "ret", mk("list", *[vals[h(key, j) % len(vals)] for j in range(n)])

    def choice(a, k, st):
        g = lambda i, nm, d=None: a[i] if len(a) > i else k.get(nm, d)
        return pick(items(g(1, "a")), g(2, "shape"), g(0, "key"), g(3, "replace", t.TRUE))

    def randint(a, k, st):
        g = lambda i, nm, d=None: a[i] if len(a) > i else k.get(nm, d)
        lo, hi = g(2, "minval"), g(3, "maxval")
        if lo is None or hi is None or not (lib._cint(lo) and lib._cint(hi)):
            return None
        return pick([const(v) for v in range(lo.args[0], hi.args[0])], g(1, "shape"), g(0, "key"), t.TRUE)
    def drawn(vals, n, mod, st, distinct=False):
        """Outcome of a process-wide generator: another one in every run, unless it was seeded."""
        src = lib.shuffler(mk("ext", mod + ".shuffle"), st)
        if vals is None or not vals or any(v is None for v in vals):
            return None
        xs = lib.shuffle_items(vals, src)
        if n is None:
            return "ret", xs[0]
        return "ret", mk("list", *[xs[j % len(xs)] for j in range(n)])

    def width(x):
        if x is None or x is NONE:
            return None
        xs = lib.enumerate_items(x) if x.op in ("tuple", "list") else [x]
        return xs[0].args[0] if xs is not None and len(xs) == 1 and lib._cint(xs[0]) else -1

    def between(lo, hi):
        if lo is not None and hi is None:
            lo, hi = const(0), lo
        return [const(v) for v in range(lo.args[0], hi.args[0])] if lib._cint(lo) and lib._cint(hi) and hi.args[0] - lo.args[0] <= 1000 else None

    def glob(mod, name):
        def m(a, k, st):
            g = lambda i, nm, d=None: a[i] if len(a) > i else k.get(nm, d)
            if name == "permutation":
                xs = items(g(0, "x"))
                return drawn(xs, len(xs or ()), mod, st)
            if name == "choice":
                n = width(g(1, "size"))
                return None if n == -1 else drawn(items(g(0, "a")) if mod == "np.random" else lib.enumerate_items(a[0]), n, mod, st)
            if name == "sample":
                n = width(g(1, "k"))
                return None if n in (None, -1) else drawn(lib.enumerate_items(a[0]), n, mod, st)
            if name in ("randint", "randrange", "integers"):
                n = width(g(2, "size")) if mod == "np.random" else None
                hi = g(1, "high") if mod == "np.random" else g(1, "b", g(1, "stop"))
                if name == "randint" and mod == "random" and lib._cint(hi):
                    hi = const(hi.args[0] + 1)
                return None if n == -1 else drawn(between(g(0, "low", g(0, "a")), hi), n, mod, st)
        return m
    process = {f"{m}.{n}": glob(m, n) for m, ns in (("np.random", ("permutation", "choice", "randint", "integers")), ("random", ("choice", "sample", "randint", "randrange"))) for n in ns}
    return {**process, "jax.random.permutation": permutation, "jax.random.choice": choice, "jax.random.randint": randint,
            "jax.devices": lambda a, k, st: ("ret", mk("list", sym("cpu0"))), "probe.array": S.array}


BATCH = {"get": "b = {x}.get_batch({n})\n        {v} = ('batch', b.flow_fields, b.images1, b.images2, b.mask, b.files)",
         "next": "b = next({x})\n        {v} = ('batch', b.images1, b.images2, b.flow_fields, b.params, b.done, b.mask, b.files)"}


def client(sch, ctor, ops, twins):
    """The same calls on one instance, or in turn on two."""
    out = [S.IMPORTS, H.IMPORTS, "def drive(key):"]
    xs = ["a", "b_"] if twins else ["a"]
    rec = {x: [] for x in xs}
    for x in xs:
        out += [f"    {x}_sch = {sch}", f"    {x} = {ctor.replace('sch', x + '_sch') if ctor else x + '_sch'}"]
    for i, op in enumerate(ops):
        for x in xs:
            if op[0] in BATCH:
                v = f"{x}{i}"
                rec[x].append(v)
                out += ["    try:", "        " + BATCH[op[0]].format(x=x, v=v, n=op[1] if len(op) > 1 else ""),
                        "    except EpisodeEnd:", f"        {v} = ('episode end',)",
                        "    except StopIteration:", f"        {v} = ('end',)",
                        "    except Exception as e:", f"        {v} = ('error', str(type(e)))"]
            else:
                out += [f"    {x}.{op[1]}"]
    out.append("    return (" + ", ".join("(" + "".join(v + ", " for v in rec[x]) + ")" for x in xs) + ",)")
    return "\n".join(out) + "\n"


def interpret(c, env, src, world, run=0):
    lib.RUN = run
    try:
        def setup(I):
            I.total = {GENF, ADAPT}
            I.models.update(env.models())
            I.models.update(keyed())
            if world:
                I.world = World()
                I.models.update(I.world.models())

        def orc(x, st):
            r = env.truth(x, st)
            if r is None and x.op == "isnone" and x.args[0] is sym("key"):
                return False
            return S.oracle(x, st) if r is None else r
        return c.client(src, setup=setup, opaque=[GENF, ADAPT], oracle=orc)[1]
    finally:
        lib.RUN = 0


def fixed(x):
    """Different terms of this kind stand for different values."""
    bad = {"unknown", "havoc", "mutated", "ite", "permuted", "widen", "mu"}
    return not t.contains(x, lambda y: y.op in bad)


def which(x, y):
    """Verdict and explanation for two results that should be equal."""
    if x is y:
        return True, ""
    a, b = lib.enumerate_items(x) if x.op in ("tuple", "list") else None, lib.enumerate_items(y) if y.op in ("tuple", "list") else None
    if a is not None and b is not None:
        if len(a) != len(b):
            return False, f"{len(a)} entries and {len(b)} entries"
        best = (True, "")
        for i, (p, q) in enumerate(zip(a, b)):
            v, d = which(p, q)
            if v is False:
                return v, d if a[0].op != "const" or i == 0 else f"{d}"
            if v is None:
                best = v, d
        return best
    n1, n2 = H.length(x), H.length(y)
    if n1 is not None and n1 == n2:
        best = (True, "")
        for i in range(n1):
            p, q = H.entry(x, i), H.entry(y, i)
            if p is None or q is None:
                best = None, "entries not resolved"
                continue
            v, d = (True, "") if p is q else (False if H.known(p) and H.known(q) else None, f"{t.show(p, 4)[:90]} and {t.show(q, 4)[:90]}")
            if v is False:
                return v, d
            if v is None:
                best = v, d
        if best[0] is not None:
            return best
    sure = fixed(x) and fixed(y)
    if H.literal(x) and H.literal(y):
        return False, f"{t.show(x, 3)[:90]} and {t.show(y, 3)[:90]}"
    la, lb = labels(x), labels(y)
    if la != lb and sure:
        return False, f"made from {sorted(la - lb)[:2] or sorted(la)[:2]} and {sorted(lb - la)[:2] or sorted(lb)[:2]}"
    ka, kb = S.keys(x), S.keys(y)
    if ka != kb and ka and kb and sure:
        return False, f"random key {t.show(sorted(ka - kb or ka, key=str)[0], 6)[:90]} and {t.show(sorted(kb - ka or kb, key=str)[0], 6)[:90]}"
    return None, f"{t.show(x, 3)[:90]} and {t.show(y, 3)[:90]}"


def labels(x):
    return {y.args[0] for y in t.walk(x) if y.op == "arr" and isinstance(y.args[0], str)}


def outcomes(c, name, ex):
    """The results of the only path."""
    if len(ex) != 1 or ex[0].kind != "return":
        e = ex[0] if ex else None
        bad = [x for x in ex if x.kind == "raise"]
        c.decide(name, None, f"{len(ex)} paths" + (f", raises {t.show(bad[0].val, 2)[:80]}" if bad else f": {H.why(e)}" if e is not None else ""))
        return None
    return ex[0], deep(ex[0].val, ex[0])


def session(c, name, env, sch, ctor, ops, world=False):
    with c.group(name):
        one = client(sch, ctor, ops, False)
        a = outcomes(c, name, interpret(c, env, one, world, 0))
        b = outcomes(c, name, interpret(c, env, one, world, 1)) if a is not None else None
        if b is not None:
            v, d = which(a[1], b[1])
            c.decide(f"{name}: the order of listings, sets and unseeded shuffles", v, d)
            clean(c, f"{name}: values", a[0], [a[1]])
        if not world:
            ab = outcomes(c, name, interpret(c, env, client(sch, ctor, ops, True), world, 0))
            if ab is not None:
                x, y = ab[1].args
                v, d = which(x, y)
                c.decide(f"{name}: two instances in one process", v, d)
                if a is not None:
                    v, d = which(a[1].args[0], x)
                    c.decide(f"{name}: alone and beside another instance", v, d)


G = lambda n: ("get", n)
N = ("next",)
RESET = ("do", "reset()")


def folders(f, n=4):
    """A folder of files of this format."""
    files, rows = f.build([1 + i % 2 for i in range(n)] if f.many else [1] * n)
    return Env(files)


@prop("P07", "values returned by the generation functions and by the samplers (symbolic inputs and settings) contain no clock, global or unseeded random "
             "generator, process identity, environment variable or object identity; sessions of every scheduler, of the episodic and prefetching wrappers "
             "and of both samplers are interpreted in two runs that differ in the order of directory listings and sets and in unseeded shuffles, and on two "
             "instances side by side: all yield the same terms",
      ["jax, numpy and file readers are deterministic functions of their arguments", "the interleaving of the prefetching thread is P28-P30's subject"])
def p07(c):
    deep_ = c.tier == "thorough"
    functions(c)
    sampler_values(c)
    for f in ALL:
        env = folders(f)
        d = "['/d']"
        for rnd in ("", ", shuffled", ", shuffled without a key"):
            kw = {"": "", ", shuffled": ", randomize=True, key=key"}.get(rnd, ", randomize=True")
            for given, gn in ((d, "a folder"), (repr([f.path(2), f.path(0), f.path(1)]), "a list")):
                sch = f"{f.cls}({given}{f.kw}{kw})"
                session(c, f"{f.name}, {gn}{rnd}", env, sch, "", [G(2), G(1), RESET, G(2), G(2)])
                if deep_:
                    session(c, f"{f.name}, {gn}{rnd}, looped", env, f"{f.cls}({given}{f.kw}{kw}, loop=True)", "", [G(3), G(3), G(3), RESET, G(3), RESET, G(3)])
    for lay in LAYOUTS:
        for B, L in ((2, 2),) if not deep_ else ((1, 2), (2, 2), (3, 1), (2, 3)):
            session(c, f"episodes, {lay.name}, {B} of {L}", lay.env(), lay.ctor(B, L), "", [G(B)] * L + [G(B), ("do", "next_episode()"), G(B), RESET, G(B)])
    session(c, "episodes without a key", LAYOUTS[0].env(), LAYOUTS[0].ctor(2, 2).replace(", key=key", ""), "", [G(2), G(2), ("do", "next_episode()"), G(2)])
    flows = "Flows(4)"
    for k in (1, 2):
        session(c, f"synthetic images, {k} per flow", Env({}), flows, f"build(sch, {k}, 2, 4)", [N, N, N, RESET, N])
    session(c, "real images", Env({}), flows, "RealImageSampler(sch, batch_size=4)", [N, N, RESET, N])
    emat = "EpisodicFlowFieldScheduler(MATFlowFieldScheduler({}, output_shape=(192, 192){}), batch_size=2, episode_length=2, key=key)"
    for lay in LAYOUTS[:None if deep_ else 2]:
        session(c, f"synthetic images of episodes, {lay.name}", lay.env(), emat.format(repr(lay.given), ""), "build(sch, 1, 2, 2)", [N, N, N, ("do", "next_episode()"), N])
        session(c, f"synthetic images of prefetched episodes, {lay.name}", lay.env(), f"PrefetchingFlowFieldScheduler({emat.format(repr(lay.given), '')}, batch_size=2)",
                "build(sch, 1, 2, 2)", [N, N, ("do", "next_episode()"), N], world=True)
        session(c, f"real images of episodes, {lay.name}", lay.env(), emat.format(repr(lay.given), ", include_images=True"), "RealImageSampler(sch, batch_size=2)",
                [N, N, N, ("do", "next_episode()"), N])
