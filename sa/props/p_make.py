"""From a configuration to the pipeline (P35) and to the settings (P36).

`make` and the `from_config` constructors are interpreted abstractly for an
enumeration of configurations; the constructors they end in stay opaque, so
what is compared are the classes and the arguments they are called with."""
from __future__ import annotations
from .. import terms as t
from .. import histories as H
from ..check import prop
from ..env import Env, arr
from ..terms import mk, const, sym, NONE, TRUE, FALSE

BASE = {".mat": "synthpix.scheduler.mat.MATFlowFieldScheduler", ".npy": "synthpix.scheduler.numpy.NumpyFlowFieldScheduler", ".h5": "synthpix.scheduler.hdf5.HDF5FlowFieldScheduler"}
EPI = "synthpix.scheduler.episodic.EpisodicFlowFieldScheduler"
PRE = "synthpix.scheduler.prefetch.PrefetchingFlowFieldScheduler"
REAL = "synthpix.sampler.real.RealImageSampler"
SYN = "synthpix.sampler.synthetic.SyntheticImageSampler"
OPAQUE = list(BASE.values()) + [EPI, PRE, REAL, SYN]
YAML = "/cfg/data.yaml"

# a complete configuration: key -> source of a value no other key has
FULL = {
    "batch_size": "4", "image_shape": "[31, 47]", "img_offset": "[5, 6.5]", "seeding_density_range": "[0.011, 0.013]", "p_hide_img1": "0.017", "p_hide_img2": "0.019",
    "diameter_ranges": "[[1.5, 2.25], [0.75, 3.5]]", "diameter_var": "1.75", "intensity_ranges": "[[81, 91.5], [70, 200.25]]", "intensity_var": "2.75",
    "rho_ranges": "[[-0.375, 0.125], [0.0625, 0.625]]", "rho_var": "3.75", "dt": "0.03125", "noise_uniform": "4.75", "noise_gaussian_mean": "5.75",
    "noise_gaussian_std": "6.75", "batches_per_flow_batch": "7", "flow_fields_per_batch": "3", "flow_field_size": "[101, 103.5]", "resolution": "107.5",
    "velocities_per_pixel": "0.109375", "seed": "113", "max_speed_x": "12.5", "max_speed_y": "13.5", "min_speed_x": "-14.5", "min_speed_y": "-15.5",
    "output_units": "'pixels'", "device_ids": "[0]"}
INSPEC = ("batch_size", "image_shape", "img_offset", "seeding_density_range", "p_hide_img1", "p_hide_img2", "diameter_ranges", "diameter_var", "intensity_ranges",
          "intensity_var", "rho_ranges", "rho_var", "dt", "noise_uniform", "noise_gaussian_mean", "noise_gaussian_std")
TUPLES = ("image_shape", "img_offset", "seeding_density_range", "flow_field_size")


def sort(b):
    return b.op in ("list", "tuple", "dict") or b.op == "const"


def plain(x):
    """Fully known values: comparing them by identity is exact."""
    return x.op in ("sym", "const", "arr") or (x.op in ("list", "tuple") and all(plain(y) for y in x.args))


def text(cfg):
    return "{" + ", ".join(f"{k!r}: {v}" for k, v in cfg.items()) + "}"


def value(c, src, cache={}):
    if src not in cache:
        ex = c.client(f"def drive(files, flag1, flag2):\n    return {src}\n")[1]
        cache[src] = ex[0].val
    return cache[src]


def made(x):
    """(class, arguments) of a call of an opaque constructor."""
    if x.op == "ret" and x.args[0].op == "class":
        return x.args[0].args[0], dict(x.args[2])
    return None, {}


def build(c, cfg, env=None, oracle=None, body=None, imports="from synthpix.make import make", models=None):
    src = f"{imports}\ndef drive(files, flag1, flag2):\n    return {body or f'make({text(cfg)})'}\n"
    env = env or Env()

    def setup(I):
        I.total |= set(OPAQUE)
        I.models.update({"jax.devices": lambda a, k, st: ("ret", mk("list", sym("cpu0")))})
        I.models.update(env.models())
        I.models.update(models or {})

    def orc(x, st):
        if oracle is not None:
            r = oracle(x, st)
            if r is not None:
                return r
        return env.truth(x, st)
    return c.client(src, opaque=OPAQUE, setup=setup, oracle=orc)[1]


def single(c, name, ex):
    """The value of the only path, or None after having reported why there is none."""
    for e in ex:
        if e.kind == "raise":
            ok = False if H.excname(e.val) and not e.st.guards else None
            c.decide(name, ok, f"raises {t.show(e.val, 3)[:140]}", e.loc)
            return None
    if len(ex) != 1:
        c.decide(name, None, f"{len(ex)} paths: {H.why(ex[0]) if ex else ''}")
        return None
    return ex[0]


def same(got, want):
    if got is want:
        return True
    return False if plain(got) and plain(want) else None


def sh(x):
    return "absent" if x is None else t.show(x, 4)[:70]


class Chain:
    """Compares nested constructor calls with the expected ones."""

    def __init__(self, c, name, loc):
        self.c, self.name, self.loc, self.v, self.det = c, name, loc, True, ""

    def note(self, v, det):
        if v is not True and (self.v is True or (v is False and self.v is None)):
            self.v, self.det = v, det

    def cls(self, x, want):
        got, kw = made(x)
        if got is None:
            self.note(None, f"{sh(x)} instead of a {want.rsplit('.', 1)[-1]}")
        elif got != want:
            self.note(False, f"{got.rsplit('.', 1)[-1]} instead of {want.rsplit('.', 1)[-1]}")
            return None
        else:
            return kw
        return None

    def arg(self, kw, cls, k, want):
        got = kw.get(k)
        v = None if got is None else same(got, want)
        if v is not True:
            self.note(v, f"{cls.rsplit('.', 1)[-1]} gets {k} = {sh(got)} instead of {sh(want)}")

    def done(self):
        return self.c.decide(self.name, self.v, self.det, self.loc)


def ancestors(k):
    out = [k]
    while k.op in ("subkey", "fold", "split") and isinstance(k.args[0], t.T):
        k = k.args[0]
        out.append(k)
    return out


def keys(ch, seed, pairs):
    """Keys derived from the seed, none of them equal to or derived from another."""
    for what, k in pairs:
        if k is None:
            ch.note(None, f"no key for the {what}")
            continue
        r = ancestors(k)[-1]
        if r.op != "seedkey":
            ch.note(False if k is NONE or H.literal(k) else None, f"the key for the {what} is {sh(k)}, not derived from the seed")
        elif r.args[0] is not seed:
            ch.note(same(r.args[0], seed), f"the key for the {what} comes from the seed {sh(r.args[0])} instead of {sh(seed)}")
    for i, (wa, a) in enumerate(pairs):
        for wb, b in pairs[i + 1:]:
            if a is None or b is None or ancestors(a)[-1].op != "seedkey" or ancestors(b)[-1].op != "seedkey":
                continue
            if a is b or a in ancestors(b) or b in ancestors(a):
                ch.note(False, f"the keys for the {wa} and the {wb} are not independent: {sh(a)} and {sh(b)}")


def pipeline(c, name, ex, cfg, fmt, images, ep, buf):
    e = single(c, name, ex)
    if e is None:
        return
    ch = Chain(c, name, e.loc)
    n = value(c, cfg["batch_size"] if images else cfg["flow_fields_per_batch"])
    if images:
        kw = ch.cls(e.val, REAL)
        if kw is not None:
            ch.arg(kw, REAL, "batch_size", value(c, cfg["batch_size"]))
    else:
        kw = ch.cls(e.val, SYN)
        if kw is not None:
            for k in ("batches_per_flow_batch", "flow_fields_per_batch"):
                ch.arg(kw, SYN, k, value(c, cfg[k]))
    seen = []
    if kw is not None and buf:
        kw = ch.cls(kw.get("scheduler", NONE), PRE)
        if kw is not None:
            ch.arg(kw, PRE, "batch_size", n)
            ch.arg(kw, PRE, "buffer_size", const(buf))
    if kw is not None and ep:
        kw = ch.cls(kw.get("scheduler", NONE), EPI)
        if kw is not None:
            ch.arg(kw, EPI, "batch_size", n)
            ch.arg(kw, EPI, "episode_length", const(ep))
            seen.append(("episodes", kw.get("key")))
    if kw is not None:
        kw = ch.cls(kw.get("scheduler", NONE), BASE[fmt])
        if kw is not None:
            ch.arg(kw, BASE[fmt], "file_list", value(c, cfg.get("file_list", "[]")))
            ch.arg(kw, BASE[fmt], "randomize", value(c, cfg.get("randomize", "False")))
            ch.arg(kw, BASE[fmt], "loop", value(c, cfg.get("loop", "True")))
            if fmt != ".h5" or "include_images" in kw:
                ch.arg(kw, BASE[fmt], "include_images", const(images))
            if images:
                ch.arg(kw, BASE[fmt], "output_shape", value(c, "tuple(%s)" % cfg.get("image_shape", "(256, 256)")))
            seen.append(("file order", kw.get("key")))
    if kw is not None:
        keys(ch, value(c, cfg.get("seed", "0")), seen)
    ch.done()


def rejected(c, name, ex, exc, says=None):
    """Every path raises one of these exceptions (its message mentioning `says`)."""
    if not ex:
        return c.decide(name, None, "no path")
    v, det, loc = True, "", ""
    for e in ex:
        sure = not e.st.guards
        if e.kind == "return":
            v1, d = (False if sure else None), f"accepted: {sh(e.val)}"
        else:
            n = H.excname(e.val)
            if n is None:
                v1, d = None, f"raises {t.show(e.val, 3)[:90]}"
            elif n not in exc:
                v1, d = (False if sure else None), f"raises {n} instead of {' or '.join(exc)}"
            elif says is not None and not t.contains(e.val, lambda y: y.op == "const" and isinstance(y.args[0], str) and says in y.args[0]):
                v1, d = (False if sure else None), f"the {n} does not name {says}: {t.show(e.val, 4)[:90]}"
            else:
                v1, d = True, ""
        if v1 is not True and (v is True or v1 is False):
            v, det, loc = v1, d, e.loc
    return c.decide(name, v, det, loc)


def configs():
    """(label, configuration, format, images, episode length, buffer size)"""
    for fmt, images in ((".mat", True), (".mat", False), (".npy", False), (".h5", False)):
        for ep in (None, 0, 1, 3):
            for buf in (None, 0, 1, 2):
                for given in (True, False):
                    g = dict(FULL)
                    g["scheduler_class"] = repr(fmt)
                    if not given:
                        if images:
                            del g["image_shape"], g["batches_per_flow_batch"]
                            del g["seed"]
                    else:
                        g.update(randomize="flag1", loop="flag2", file_list="files")
                    if images or given:
                        g["include_images"] = repr(images)
                    if ep is not None:
                        g["episode_length"] = repr(ep)
                    if buf is not None:
                        g["buffer_size"] = repr(buf)
                    if images and given:
                        g["image_shape"] = "[33, 49]"
                    yield (f"{fmt}{' images' if images else ''}, episode_length {ep}, buffer_size {buf}, {'options given' if given else 'defaults'}",
                           g, fmt, images, ep or 0, buf or 0)


def less(g, *ks):
    return {k: v for k, v in g.items() if k not in ks}


@prop("P35", "make is interpreted abstractly for an enumeration of configurations (formats, images, episode length, buffer size, optional keys given or not); "
      "the nested constructor calls it ends in, the keys they are given and the exceptions for malformed configurations are compared with the described pipeline",
      ("constructors and goggles.load_configuration behave as documented (their own arguments are checked by P17, P18)",))
def p35(c):
    mat = dict(FULL, scheduler_class="'.mat'", file_list="files")
    with c.group("pipeline"):
        for label, g, *rest in configs():
            pipeline(c, label, build(c, g), g, *rest)
    with c.group("rejected configuration"):
        def rej(label, g, exc, **kw):
            rejected(c, label, build(c, g, **kw), exc)
        for k in ("scheduler_class", "batch_size", "flow_fields_per_batch"):
            rej(f"without {k}", less(mat, k), ("ValueError",))
            rej(f"without {k}, images", less(dict(mat, include_images="True"), k), ("ValueError",))
        rej("without batches_per_flow_batch", less(mat, "batches_per_flow_batch"), ("ValueError",))
        rej("batches_per_flow_batch None", dict(mat, batches_per_flow_batch="None"), ("ValueError",))
        for s in (".txt", "mat", "", ".MAT"):
            rej(f"scheduler_class {s!r}", dict(mat, scheduler_class=repr(s)), ("ValueError",))
        for v in ("0", "-1", "2.5", "'4'", "None", "[4]"):
            rej(f"batch_size {v}", dict(mat, batch_size=v), ("ValueError",))
        for k in ("buffer_size", "episode_length"):
            for v in ("-1", "1.5", "'2'", "None"):
                rej(f"{k} {v}", dict(mat, **{k: v}), ("ValueError",))
        for v in ("1", "0", "'yes'", "None"):
            rej(f"include_images {v}", dict(mat, include_images=v), ("TypeError",))
        for f in (".h5", ".npy"):
            rej(f"images from {f}", dict(mat, scheduler_class=repr(f), include_images="True"), ("ValueError",))
            rej(f"images from {f} in episodes", dict(mat, scheduler_class=repr(f), include_images="True", episode_length="3", buffer_size="2"), ("ValueError",))
        for v in ("5", "None", "[1]", "('a.yaml',)"):
            rejected(c, f"make({v})", build(c, None, body=f"make({v})"), ("TypeError",))
    with c.group("configuration file"):
        env = Env({YAML: {"kind": "yaml"}, "/cfg/a.txt": {"kind": "yaml"}}, dirs=("/cfg/d.yaml",))

        def load(what):
            return {"goggles.load_configuration": lambda a, k, st: ("ret", what) if (a and a[0] is const(YAML)) else None,
                    "gg.load_configuration": lambda a, k, st: ("ret", what) if (a and a[0] is const(YAML)) else None}
        for label, g, fmt, images, ep, buf in list(configs())[:6] + list(configs())[-2:]:
            d = value(c, text(g))
            pipeline(c, label, build(c, None, env=env, body=f"make({YAML!r})", models=load(d)), g, fmt, images, ep, buf)
        d = value(c, text(mat))
        rejected(c, "another extension", build(c, None, env=env, body="make('/cfg/a.txt')", models=load(d)), ("ValueError",))
        rejected(c, "missing file", build(c, None, env=env, body="make('/cfg/no.yaml')", models=load(d)), ("FileNotFoundError",))
        rejected(c, "a directory", build(c, None, env=env, body="make('/cfg/d.yaml')", models=load(d)), ("ValueError",))
        for s in ("None", "[1, 2]", "'text'", "3"):
            rejected(c, f"file containing {s}", build(c, None, env=env, body=f"make({YAML!r})", models=load(value(c, s))), ("TypeError",))
        rejected(c, "file without batch_size", build(c, None, env=env, body=f"make({YAML!r})", models=load(value(c, text(less(mat, "batch_size"))))), ("ValueError",))


FROM = "from synthpix.sampler import RealImageSampler, SyntheticImageSampler\nfrom synthpix.scheduler import HDF5FlowFieldScheduler, MATFlowFieldScheduler, NumpyFlowFieldScheduler"
MASK, HIST, WRONG = "/cfg/mask.npy", "/cfg/hist.npy", "/cfg/wrong.npy"


def inside(x, st):
    """Contents of the mask files: MASK holds zeros and ones, WRONG something else besides."""
    if x.op == "reduce" and x.args[0] in ("all", "any"):
        y = x.args[1]
        neg = y.op in ("invert", "not")
        y = y.args[0] if neg else y
        if not t.contains(y, lambda z: z.op == "arr"):
            return None
        p = next(z.args[0] for z in t.walk(y) if z.op == "arr")
        if p not in (MASK, WRONG) or not member(y):
            return None
        vals = (True,) if p == MASK else (True, False)
        vals = tuple(v is not neg for v in vals)
        return all(vals) if x.args[0] == "all" else any(vals)
    return None


def member(y):
    """Is this the elementwise test whether a value is 0 or 1?"""
    if y.op == "call" and y.args[0] in ("np.isin", "jnp.isin") and not y.args[2]:
        w = y.args[1][1]
        return w.op in ("list", "tuple", "set") and sorted(str(z.args[0]) for z in w.args if z.op == "const") == ["0", "1"] and len(w.args) == 2
    if y.op == "or" and len(y.args) == 2:
        return {z.args[0] for z in y.args if z.op == "eq"} == {const(0), const(1)}
    return False


def synthetic(c, name, cfg, env=None, oracle=None, extra=()):
    """SyntheticImageSampler.from_config(scheduler, cfg)"""
    e = single(c, name, build(c, cfg, env, oracle, f"SyntheticImageSampler.from_config(files, {text(cfg)})", FROM))
    if e is None:
        return
    ch = Chain(c, name, e.loc)
    kw = ch.cls(e.val, SYN)
    if kw is not None:
        ch.arg(kw, SYN, "scheduler", sym("files"))
        for k in FULL:
            if k not in INSPEC and k != "device_ids":
                ch.arg(kw, SYN, k, value(c, f"tuple({cfg[k]})" if k in TUPLES else cfg[k]))
        ch.arg(kw, SYN, "device_ids", value(c, cfg.get("device_ids", "None")))
        for k, v in (("mask_images", NONE), ("histogram", NONE)) + tuple(extra):
            if k not in dict(extra) or (k, v) in extra:
                ch.arg(kw, SYN, k, v)
        spec = kw.get("generation_specification")
        for f in INSPEC:
            want = value(c, f"tuple({cfg[f]})" if f in TUPLES else f"[tuple(x) for x in {cfg[f]}]" if f.endswith("_ranges") else cfg[f])
            got = e.st.heap.get((spec, f))
            v = None if got is None else same(got, want)
            if v is not True:
                ch.note(v, f"the specification gets {f} = {sh(got)} instead of {sh(want)}")
    ch.done()


def called(c, name, body, cls, want, env=None, oracle=None):
    e = single(c, name, build(c, None, env, oracle, body, FROM))
    if e is None:
        return
    ch = Chain(c, name, e.loc)
    kw = ch.cls(e.val, cls)
    if kw is not None:
        for k, v in want:
            ch.arg(kw, cls, k, value(c, v))
    ch.done()


@prop("P36", "the from_config constructors are interpreted abstractly for configurations whose values are pairwise different, with optional keys given and absent and "
      "every required key removed in turn; the arguments of the constructors they end in, and the exceptions, are compared with the configuration",
      ("np.load behaves as documented",))
def p36(c):
    env = Env({MASK: {"kind": "npy", "data": arr(MASK, "H", "W")}, WRONG: {"kind": "npy", "data": arr(WRONG, "H", "W")},
               HIST: {"kind": "npy", "data": arr(HIST, 256)}, "/cfg/a.txt": None}, dirs=("/cfg/d.npy",))
    mask, hist = ("mask_images", arr(MASK, "H", "W")), ("histogram", arr(HIST, 256))
    with c.group("synthetic sampler"):
        synthetic(c, "complete configuration", FULL)
        synthetic(c, "unrelated keys", dict(FULL, scheduler_class="'.mat'", loop="flag1", something="files"))
        synthetic(c, "without device_ids", less(FULL, "device_ids"))
        synthetic(c, "mask and histogram None", dict(FULL, mask="None", histogram="None"))
        synthetic(c, "mask", dict(FULL, mask=repr(MASK)), env, inside, (mask,))
        synthetic(c, "histogram", dict(FULL, histogram=repr(HIST)), env, inside, (hist,))
        synthetic(c, "mask and histogram", dict(FULL, mask=repr(MASK), histogram=repr(HIST)), env, inside, (mask, hist))
        for k, v in (("p_hide_img1", "0.0"), ("diameter_var", "0"), ("min_speed_x", "0.0"), ("noise_uniform", "0"), ("img_offset", "(0, 0)"), ("device_ids", "None"),
                     ("output_units", "'measure units'"), ("diameter_ranges", "[(1.5, 2.5)]"), ("rho_ranges", "[[0, 0], [-0.5, 0.5], [0.1, 0.2]]"), ("seed", "0")):
            synthetic(c, f"{k} {v}", dict(FULL, **{k: v}))
        for k in FULL:
            if k != "device_ids":
                rejected(c, f"without {k}", build(c, None, body=f"SyntheticImageSampler.from_config(files, {text(less(FULL, k))})", imports=FROM), ("KeyError",), k)
        for k in ("mask", "histogram"):
            for v in ("5", "['/cfg/mask.npy']", "''", "'/cfg/none.npy'", "'/cfg/d.npy'"):
                rejected(c, f"{k} {v}", build(c, None, env, inside, f"SyntheticImageSampler.from_config(files, {text(dict(FULL, **{k: v}))})", FROM), ("ValueError",))
            rejected(c, f"{k} file of another kind", build(c, None, env, inside, f"SyntheticImageSampler.from_config(files, {text(dict(FULL, **{k: repr('/cfg/a.txt')}))})", FROM), ("ValueError",))
        rejected(c, "mask with other values", build(c, None, env, inside, f"SyntheticImageSampler.from_config(files, {text(dict(FULL, mask=repr(WRONG)))})", FROM), ("ValueError",))
    with c.group("real sampler"):
        called(c, "batch_size", "RealImageSampler.from_config(files, {'batch_size': 6, 'flow_fields_per_batch': 2})", REAL, (("scheduler", "files"), ("batch_size", "6")))
        called(c, "default batch_size", "RealImageSampler.from_config(files, {})", REAL, (("scheduler", "files"), ("batch_size", "1")))
    for k, fmt, settings in (("MATFlowFieldScheduler", ".mat", ("include_images", "output_shape")), ("NumpyFlowFieldScheduler", ".npy", ("include_images",)), ("HDF5FlowFieldScheduler", ".h5", ())):
        with c.group(k):
            full = {"file_list": "[files, 'x']", "randomize": "flag1", "loop": "flag2", "key": "files", "include_images": "True", "output_shape": "[31, 47]"}
            default = {"file_list": "[]", "randomize": "False", "key": "None", "include_images": "False", "output_shape": "(256, 256)"}
            ks = ("file_list", "randomize", "loop", "key") + settings
            w = lambda d: tuple((x, f"tuple({d[x]})" if x == "output_shape" else d[x]) for x in ks if x in d)
            cls = BASE[fmt]
            called(c, "all keys", f"{k}.from_config({text(full)})", cls, w(full))
            called(c, "no keys", f"{k}.from_config({{}})", cls, w(default))
            for x in ks:
                called(c, f"only {x}", f"{k}.from_config({text({x: full[x]})})", cls, w(dict(default, **{x: full[x]})))
            for x in ("randomize", "loop", "include_images"):
                if x in ks:
                    called(c, f"{x} False", f"{k}.from_config({text(dict(full, **{x: 'False'}))})", cls, w(dict(full, **{x: "False"})))
