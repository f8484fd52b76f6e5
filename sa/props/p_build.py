"""P17: construction of samplers."""
from .. import terms as t
from ..terms import mk, const, sym, NONE
from ..check import prop, Undecided
from ..classes import accept, reject
from ..boxes import num, ints, reals, none, txt, array, seq, lst, Val, INF
from ..settings import boxes, KW, SP, SCH, at
from ..session import SYN, GENF, ADAPT, Step
from ..query import kwd
from .p_valid import neg, pos, posint, nonneg, over, under

EXTRA = ", mask_images=kw.mask, histogram=kw.histogram, device_ids=kw.device_ids"
PLAIN = "synthpix.scheduler.numpy.NumpyFlowFieldScheduler"


def build(c, ch, shape=(64, 64, 2), devices=1, scheduler="plain"):
    B = boxes(ch, shape=shape, devices=devices)

    def orc(x, st):
        if x.op == "isinstance" and x.args[0] is SCH and scheduler == "none":
            return False
        return B.truth(x)
    spec = c.prog.get("synthpix.types:ImageGenerationSpecification")
    I, ex = c.client(SYN % EXTRA, opaque=[GENF, ADAPT], oracle=orc, types={SP: spec})
    for e in ex:
        e.B = B
    return B, I, ex


def syn_valid():
    yield "default configuration", {}, {}
    yield "integers", {"kw.size_y": num(128), "kw.size_x": num(128), "kw.resolution": num(1), "kw.velocities_per_pixel": num(1), "kw.max_speed_x": num(1),
                       "kw.max_speed_y": num(1), "kw.min_speed_x": num(-1), "kw.min_speed_y": num(-1)}, {}
    yield "measure units", {"kw.output_units": txt("measure units per second")}, {}
    yield "one sample for every flow", {"kw.flow_fields_per_batch": num(8)}, {}
    yield "one flow for all samples", {"kw.flow_fields_per_batch": num(1)}, {}
    yield "seed zero", {"kw.seed": num(0)}, {}
    yield "any seed", {"kw.seed": ints(0)}, {}
    yield "any number of batches per flow", {"kw.batches_per_flow_batch": posint()}, {}
    yield "fluid at rest", {f"kw.{m}_speed_{a}": num(0.0) for m in ("min", "max") for a in "xy"}, {}
    yield "flow in one direction", {"kw.min_speed_x": num(0.5), "kw.max_speed_x": num(0.5)}, {}
    yield "three components", {}, dict(shape=(64, 32, 3))
    yield "several devices", {}, dict(devices=4)
    yield "batch not divisible by the devices", {}, dict(devices=3)
    yield "more devices than samples", {"spec.batch_size": num(2), "kw.flow_fields_per_batch": num(2)}, dict(devices=5)
    yield "batch not divisible by the flows", {"kw.flow_fields_per_batch": num(3)}, {}
    yield "mask of the image's shape", {"kw.mask": array(num(16), num(16))}, {}
    yield "histogram of the image's size", {"kw.histogram": array(num(256), sum=num(256.0))}, {}
    yield "oblong images", {"spec.image_shape": seq(16, 24), "kw.mask": array(num(16), num(24)), "kw.histogram": array(num(256), sum=num(384.0))}, {}


def syn_invalid():
    posi = (("zero", num(0)), ("negative", neg("int")), ("fractional", reals(-INF, INF)), ("text", txt("2")), ("None", none()))
    for n in ("batches_per_flow_batch", "flow_fields_per_batch"):
        for m, v in posi:
            yield f"{n}: {m}", {f"kw.{n}": v}, {}
    yield "more flows than samples", {"kw.flow_fields_per_batch": ints(9)}, {}
    for n in ("size_y", "size_x", "resolution", "velocities_per_pixel"):
        for m, v in (("zero", num(0.0)), ("negative", neg()), ("negative integer", neg("int")), ("text", txt("2")), ("None", none())):
            yield f"{n}: {m}", {f"kw.{n}": v}, {}
    for m, v in (("negative", neg("int")), ("fractional", reals(-INF, INF)), ("text", txt("2")), ("None", none())):
        yield f"seed: {m}", {"kw.seed": v}, {}
    for n in ("max_speed_x", "max_speed_y", "min_speed_x", "min_speed_y"):
        for m, v in (("text", txt("2")), ("None", none())):
            yield f"{n}: {m}", {f"kw.{n}": v}, {}
    for a in "xy":
        yield f"speeds in {a} reversed", {f"kw.max_speed_{a}": Val("float", -INF, -1.001)}, {}
        yield f"speeds in {a} reversed, both positive", {f"kw.max_speed_{a}": num(0.25), f"kw.min_speed_{a}": num(0.5)}, {}
        yield f"speeds in {a} reversed, both negative", {f"kw.max_speed_{a}": num(-0.5), f"kw.min_speed_{a}": num(-0.25)}, {}
    for m, v in (("unknown", txt("metres")), ("prefix of a unit", txt("pixel")), ("a number", num(1)), ("None", none())):
        yield f"output_units: {m}", {"kw.output_units": v}, {}
    ob = {"spec.image_shape": seq(16, 24)}
    yield "mask: transposed", {**ob, "kw.mask": array(num(24), num(16))}, {}
    yield "mask: wider", {**ob, "kw.mask": array(num(16), ints(25))}, {}
    yield "mask: three axes", {**ob, "kw.mask": array(num(16), num(24), num(1))}, {}
    yield "histogram: too few bins", {"kw.histogram": array(ints(1, 255), sum=num(256.0))}, {}
    yield "histogram: too many bins", {"kw.histogram": array(ints(257), sum=num(256.0))}, {}
    yield "histogram: two axes", {"kw.histogram": array(num(256), num(1), sum=num(256.0))}, {}
    yield "histogram: too few pixels", {"kw.histogram": array(num(256), sum=Val("float", 0.0, 250.0))}, {}
    yield "histogram: too many pixels", {"kw.histogram": array(num(256), sum=Val("float", 260.0, INF))}, {}
    for m, s in (("two numbers", (64, 64)), ("four numbers", (64, 64, 2, 1)), ("one component", (64, 64, 1)), ("four components", (64, 64, 4)), ("empty rows", (0, 64, 2)),
                 ("negative columns", (64, -1, 2))):
        yield f"flow shape: {m}", {}, dict(shape=s)
    yield "flow shape: a list", {}, dict(shape=lst(64, 64, 2))
    yield "flow shape: fractional", {}, dict(shape=seq(num(64.0), num(64), num(2)))
    yield "flow shape: None", {}, dict(shape=none())


@prop("P17", "The documented domain of every setting is cut into boxes around a complete configuration; each box is sent through the samplers' "
             "constructors by abstract interpretation, branches being decided for the whole box. The rounded batch size and the settings "
             "that reach the generator and the adapter are compared as terms.",
      ["the generation specification itself is valid (P15)", "numbers are reals (no NaN)"])
def p17(c):
    with c.group("synthetic/valid"):
        for n, ch, more in syn_valid():
            accept(c, n, build(c, ch, **more)[2])
    with c.group("synthetic/invalid"):
        for n, ch, more in syn_invalid():
            reject(c, n, build(c, ch, **more)[2], ("ValueError", "TypeError"))
        reject(c, "scheduler: something else", build(c, {}, scheduler="none")[2], ("TypeError", "ValueError"))
    with c.group("batch size"):
        sizes = [(8, 1), (8, 3), (9, 3), (1, 4), (5, 5), (7, 2), (300, 8), (11, 4)]
        if c.tier == "thorough":
            sizes = [(b, d) for b in range(1, 26) for d in range(1, 10)]
        for b, d in sizes:
            B, I, ex = build(c, {"spec.batch_size": num(b), "kw.flow_fields_per_batch": num(1)}, devices=d)
            r = [e for e in ex if e.kind == "return"]
            if len(r) != 1:
                c.und(f"{b} samples on {d} devices", f"{len(r)} paths", "")
                continue
            got = r[0].st.heap.get((r[0].val, "batch_size"))
            v = B.get(got) if got is not None else None
            want = -(-b // d) * d
            c.decide(f"{b} samples on {d} devices", None if v is None or v.lo is None or v.lo != v.hi else v.lo == want,
                     f"batch size {v}, expected {want}", r[0].loc)
    with c.group("settings are used"):
        used(c)
    with c.group("real"):
        real(c)


def used(c):
    from ..session import synthetic
    fields = [n for n, _, _ in c.prog.dataclass_fields(c.prog.get("synthpix.types:ImageGenerationSpecification"))]
    done = {}
    for s0 in synthetic(c, extra=", mask_images=kw.mask, histogram=kw.histogram"):
        for s in s0.step("return next(obj)"):
            if s.kind != "return":
                continue
            A, G = s.calls("flow_field_adapter"), s.calls("generate_images_from_flow")
            if len(A) != 1 or len(G) != 1:
                continue
            ak, gk = kwd(A[0]), kwd(G[0])
            par = gk.get("parameters")

            def same(name, got, want, where):
                v = True if got is want else None if got is None or not settled(got) else False
                done.setdefault(name, []).append((v, got, where))
            for f in fields:
                if f not in ("batch_size", "img_offset") and par is not None:
                    same(f"specification: {f}", s.st.heap.get((par, f)), at(SP, f), G[0].loc)
            # a mask or histogram that was not given stays away
            for f, k in (("mask", "mask"), ("histogram", "histogram")):
                w = at(KW, k)
                if s.st.facts.get(mk("isnone", w)) is True:
                    same(f"{f}, not given", NONE if gk.get(f) is w else gk.get(f, NONE), NONE, G[0].loc)
                else:
                    same(f, gk.get(f), w, G[0].loc)
            same("resolution", ak.get("resolution"), at(KW, "resolution"), A[0].loc)
            same("output units", ak.get("output_units"), at(KW, "output_units"), A[0].loc)
            same("time step", ak.get("dt"), at(SP, "dt"), A[0].loc)
            for k, a in ((0, "height"), (1, "width")):
                sh = ak.get("new_flow_field_shape")
                from .. import lib
                want = lib.fn("toint", t.mul(mk("index", at(SP, "image_shape"), const(k)), at(KW, "velocities_per_pixel")))
                same(f"flow {a}", sh.args[k] if sh is not None and sh.op in ("tuple", "list") and len(sh.args) == 2 else None, want, A[0].loc)
    for n, vs in done.items():
        bad = [v for v in vs if v[0] is False]
        und = [v for v in vs if v[0] is None]
        w = (bad or und or vs)[0]
        c.decide(n, False if bad else None if und else True, f"{len(vs)} construction paths" if not (bad or und) else f"uses {t.show(w[1], 5) if w[1] is not None else None}", w[2])
    if not done:
        raise Undecided("no batch is produced")


def settled(x):
    return not t.contains(x, lambda y: y.op in ("ret", "mu", "phi", "mutated"))


REAL = '''
from synthpix.sampler.real import RealImageSampler
def drive(scheduler, n):
    return RealImageSampler(scheduler=scheduler, batch_size=n)
'''


def real(c):
    SCHED, N = sym("scheduler"), sym("n")

    def depth(x):
        n = 0
        while x.op == "attr" and x.args[1] in ("scheduler", "_scheduler"):
            x, n = x.args[0], n + 1
        return n if x is SCHED else None

    def run(v, images, proto=True, wraps=()):
        """A base scheduler with or without images inside of this many wrappers."""
        from ..boxes import Boxes
        B = Boxes({N: v})

        def orc(x, st):
            if x.op == "isinstance" and depth(x.args[0]) is not None:
                from ..session import flat
                ns = {str(n).rsplit(".", 1)[-1] for n in flat(x.args[1])}
                if ns & {"EpisodicFlowFieldScheduler", "PrefetchingFlowFieldScheduler"}:
                    d = depth(x.args[0])
                    return d < len(wraps) and wraps[d] + "FlowFieldScheduler" in ns
                return proto if "SchedulerProtocol" in ns else None
            if x.op in ("getattrd", "attr", "hasattr") and "include_images" in [y.args[0] if isinstance(y, t.T) and y.op == "const" else y for y in x.args[1:]]:
                d = depth(x.args[0])
                return None if d is None else d == len(wraps) and (images if x.op != "hasattr" else True)
            return B.truth(x)
        I, ex = c.client(REAL, oracle=orc)
        for e in ex:
            e.B = B
        return ex
    r = run(posint(), True)
    accept(c, "any batch size", r)
    for e in r:
        if e.kind == "return":
            got = e.st.heap.get((e.val, "batch_size"))
            c.decide("the batch size is the requested one", True if got is N else None, "", e.loc)
    for m, v in (("zero", num(0)), ("negative", neg("int")), ("fractional", reals(-INF, INF)), ("text", txt("2")), ("None", none())):
        reject(c, f"batch_size: {m}", run(v, True), ("ValueError", "TypeError"))
    ws = [(), ("Prefetching",), ("Episodic",), ("Prefetching", "Episodic")]
    for w in ws:
        n = "".join(f" in {x.lower()}" for x in w)
        accept(c, "scheduler with images" + n, run(posint(), True, wraps=w))
        reject(c, "scheduler without images" + n, run(posint(), False, wraps=w), ("ValueError", "TypeError"))
    reject(c, "scheduler: something else", run(posint(), True, False), ("ValueError", "TypeError"))
