"""P05: samples stay with their flow, mask and file."""
from .. import terms as t
from ..terms import mk, const, sym, NONE, TRUE
from ..check import prop, Undecided
from ..domain import equal, source_leaf
from ..query import kwd, calls, only_return
from ..session import synthetic
from .p_motion import gen_setup
from .p_flow import adapter, strip as strip_tiles, tile_ok

ND, B, F, D, I_ = sym("n_devices"), sym("per_device"), sym("n_flows"), sym("device"), sym("i")


def param_env(x, k):
    """Witness values of the layout parameters: several devices, several flows per device, more samples than flows."""
    nd, fl, b = ((2, 2, 5), (3, 2, 3), (2, 3, 4), (4, 2, 7), (3, 3, 8), (2, 5, 6), (5, 2, 3), (2, 4, 9))[k % 8]
    v = {ND: nd, B: b, F: nd * fl, D: nd - 1 - (k % 2) * (nd - 2), I_: b - 1}.get(x)
    return None if v is None else (float(v), float(v))


def simp(x):
    """Division and remainder of device * per_device + i by per_device."""
    k = t.add(t.mul(D, B), I_)

    def f(y):
        if y.op in ("floordiv", "mod"):
            a, b = simp(y.args[0]), simp(y.args[1])
            if b is B and a is k:
                return D if y.op == "floordiv" else I_
            if b is B and a is I_:
                return const(0) if y.op == "floordiv" else I_
            if b is ND and a is D:
                return const(0) if y.op == "floordiv" else D
            return (t.floordiv if y.op == "floordiv" else t.mod)(a, b)
        return None
    return t.subst(x, f)


def span(it):
    """Bounds of an index range: its number of entries, if it starts at zero with step one."""
    if it.op in ("range", "arange") and t.is_const(it.args[0], 0) and t.is_const(it.args[2], 1):
        return it.args[1]
    return None


def grid_axis(y):
    """arange[:, None] and arange[None, :] as the axes of a 2-D grid."""
    if y.op == "index" and span(y.args[0]) is not None:
        ks = y.args[1].args if y.args[1].op == "tuple" else (y.args[1],)
        if len(ks) <= 2 and sum(z is NONE for z in ks) == 1 and all(z is NONE or z.op == "slice" and all(w is NONE for w in z.args) for z in ks):
            return mk("bcast", y.args[0], 1 if ks[0] is NONE else 0, 2)
    return None


def at(seq, k):
    """Entry number k = device * per_device + i of an index sequence, or None."""
    while seq.op == "call" and seq.args[0] in ("list", "tuple") and len(seq.args[1]) == 1:
        seq = seq.args[1][0]
    if seq.op == "flatmap" and seq.args[2] is TRUE:
        inner, outer = seq.args[0], seq.args[1]
        n = span(outer)
        if n is ND and inner.op == "map" and inner.args[2] is TRUE and span(inner.args[1]) is B and k is KK:
            e1, e2 = mk("elem", outer, 0), mk("elem", inner.args[1], 0)
            if e1 is e2:
                return None
            return t.subst(inner.args[0], lambda y: D if y is e1 else I_ if y is e2 else None)
        return None
    if seq.op == "map" and seq.args[2] is TRUE:
        it = seq.args[1]
        e = mk("elem", it, 0)
        el = at(it, k)
        if el is None:
            return None
        return t.subst(seq.args[0], lambda y: el if y is e else None)
    if span(seq) is not None:
        return k if span(seq) is t.mul(ND, B) else None
    if seq.op == "shapeop":
        n, x = seq.args[0], seq.args[1]
        a = [z for z in seq.args[2] if isinstance(z, t.T)]
        if n == "repeat" and a and a[0] is B and span(x) is ND:
            return D
        if n == "tile" and a and a[0] is ND and span(x) is B:
            return I_
        if n in ("ravel", "flatten", "reshape") and (n != "reshape" or a and t.is_const(a[0], -1)):
            x = t.subst(x, grid_axis)
            bc = [y for y in t.walk(x) if y.op == "bcast"]
            if bc and all(y.args[2] == 2 for y in bc):
                ok = all(span(y.args[0]) is (ND if y.args[1] == 0 else B) for y in bc)
                return t.subst(x, lambda y: (D if y.args[1] == 0 else I_) if y.op == "bcast" else None) if ok else None
        return None
    if seq.op in ("poly", "mod", "floordiv"):
        ok = [True]

        def f(y):
            if y.op in ("arange", "range", "shapeop"):
                r = at(y, k)
                if r is None:
                    ok[0] = False
                return r
            return None
        r = t.subst(seq, f)
        return r if ok[0] else None
    return None


KK = t.add(t.mul(D, B), I_)


@prop("P05", "Index provenance: the flow applied to sample i is value-numbered as flow_field[i mod n]; the adapter's output is the cyclic "
             "repetition of its input; in an abstract session the flow given to the generator and the flow yielded are the two results of one "
             "adapter call on the scheduler's flows, and the entry of mask and files at position device * per_device + i is normalised to "
             "device * (flows / devices) + i mod (flows / devices) of the same scheduler batch; sharding splits both along the field axis.",
      ["shard_map splits leading axes evenly over the devices", "flows per batch is a multiple of the device count (jax rejects anything else)"])
def p05(c):
    with c.group("image generator"):
        f, I, e = gen_setup(c)
        mv = calls(e, "apply_flow_to_particles")
        if len(mv) != 1:
            raise Undecided(f"{len(mv)} displacement steps")
        fl = kwd(mv[0]).get("flow_field")
        FF = sym("flow_field")
        i = mk("row", mk("arange", const(0), mk("attr", sym("parameters"), "batch_size"), const(1)))
        n = mk("index", mk("attr", FF, "shape"), const(0))
        v = None
        if fl is not None and fl.op == "index" and fl.args[0] is FF:
            k = t.subst(fl.args[1], lambda y: sym("i") if y is i else sym("n") if y is n else None)
            v = equal(k, mk("mod", sym("i"), sym("n")), source_leaf, lambda x, r: None)
        c.decide("sample i is moved by flow i mod n", v, fl, mv[0].loc)
    with c.group("flow adapter"):
        g = c.prog.get("synthpix.utils:flow_field_adapter")
        val = adapter(c, "pixels")
        if val.op != "tuple" or len(val.args) != 2:
            raise Undecided("result is not a pair")
        body, tiles = strip_tiles(val.args[0])
        tile_ok(c, tiles, None, g.loc)
    ss = synthetic(c)
    for s0 in ss[:None if c.tier == "thorough" else 2]:
        with c.group("sharding"):
            sharding(c, s0)
        with c.group("sampler"):
            hist = [s0]
            for step in range(2 if c.tier != "thorough" else 3):
                nxt = []
                for s in hist:
                    for x in s.step("return next(obj)"):
                        if x.kind == "return":
                            pairing(c, x)
                            nxt.append(x)
                hist = nxt
    from .p_sampler import labels
    with c.group("labels of the samples"):
        labels(c)


def sharding(c, s):
    ev = [e for e in s.st.trace if e.kind == "shard"]
    if not ev:
        c.und("devices split the batch", "no shard_map found")
        return
    for e in ev:
        kw = dict(e.kwargs)
        specs = []
        for n in ("in_specs", "out_specs"):
            x = kw.get(n)
            if x is None:
                c.und(n, "not given", e.loc)
                continue
            xs = x.args if x.op in ("tuple", "list") else (x,)
            for y in xs:
                full = y.op == "call" and str(y.args[0]).endswith("PartitionSpec")
                v = None
                if full:
                    ax = y.args[1]
                    v = False if len(ax) == 0 or ax[0] is NONE else True
                c.decide(f"{n} splits along the device axis", v, y, e.loc, key="replicated axis")


def pairing(c, s):
    st, b = s.st, s.val
    get = lambda n: st.heap.get((b, n))
    loc = next((e.loc for e in reversed(s.new()) if e.kind == "call" and "generate_images" in t.show(e.callee, 3)), "")
    gens = s.calls("generate_images_from_flow")
    if len(gens) != 1:
        raise Undecided(f"{len(gens)} generator calls")
    gen = gens[0]
    G = gen.result
    for k, n in enumerate(("images1", "images2", "params")):
        v = get(n)
        c.decide(f"{n} of the generated batch", True if v is mk("index", G, const(k)) else
                 False if v is not None and v.op == "index" and v.args[0] is G else None, v, gen.loc)
    fl = kwd(gen).get("flow_field")
    if fl is None or fl.op != "index" or not fl.args[0].op == "ret":
        raise Undecided(f"flow given to the generator not recognised: {t.show(fl, 4) if fl is not None else None}")
    A = fl.args[0]
    c.decide("particles move with the adapter's flow over the seeded region", fl.args[1] is const(1), fl, gen.loc)
    of = get("flow_fields")
    v = of is mk("index", A, const(0))
    c.decide("yielded flow is the adapter's image window of the same flows", v if v else False if of is not None and of.op == "index" and of.args[0].op == "ret" else None,
             of, gen.loc)
    akw = dict(A.args[2])
    src = akw.get("flow_fields")
    if src is None:
        raise Undecided("adapter input not recognised")
    par = kwd(gen).get("parameters")
    bs = st.heap.get((par, "batch_size")) if par is not None else None
    c.decide("adapter and generator agree on the samples per device", True if bs is not None and bs is akw.get("batch_size") else
             (equal(bs, akw["batch_size"], lambda y: source_leaf(y) or y.op == "call") if bs is not None and akw.get("batch_size") is not None else None),
             f"{t.show(bs, 4) if bs is not None else None} / {t.show(akw.get('batch_size'), 4) if akw.get('batch_size') is not None else None}", gen.loc)
    if not (src.op == "attr" and src.args[1] == "flow_fields"):
        c.und("flows come from the scheduler", src, gen.loc)
        return
    batch = src.args[0]
    asked = batch.args[1][0] if batch.op == "ret" and batch.args[1] else None
    if asked is None:
        c.und("flows come from the scheduler", batch, gen.loc)
        return
    c.ok("flows come from one scheduler batch", batch, gen.loc)
    total = bs.args[0] if bs is not None and bs.op == "floordiv" else None
    nd = next((y for y in t.walk(bs) if y.op == "call" and y.args[0] == "len"), None) if bs is not None else None

    def norm(x):
        return t.subst(x, lambda y: B if y is bs else t.mul(ND, B) if total is not None and y is total else ND if y is nd else F if y is asked else None)
    exp = t.add(t.mul(D, t.floordiv(F, ND)), t.mod(I_, t.floordiv(F, ND)))
    leaf = lambda y: False
    for n in ("mask", "files"):
        x = get(n)
        if x is NONE or x is None:
            continue
        while x.op == "call" and x.args[0] in ("list", "tuple") and len(x.args[1]) == 1:
            x = x.args[1][0]
        base, idx = None, None
        if x.op == "index":
            base, idx = x.args[0], at(norm(x.args[1]), KK)
        elif x.op == "map" and x.args[2] is TRUE:
            y = at(norm(x), KK)
            if y is not None and y.op == "index":
                base, idx = y.args
                base = mk("attr", batch, n) if base is norm(mk("attr", batch, n)) else base
        if base is None:
            if x is mk("attr", batch, n):
                c.bad(f"{n} of sample follows its flow", f"{n} has one entry per flow field, samples have one per image", gen.loc, key=f"{n} not expanded")
            else:
                c.und(f"{n} of sample follows its flow", x, gen.loc)
            continue
        if base is not mk("attr", batch, n):
            c.decide(f"{n} belongs to the flow's batch", False if base.op == "attr" and base.args[0].op == "ret" else None, base, gen.loc)
            continue
        if idx is None:
            c.und(f"{n} of sample follows its flow", x, gen.loc)
            continue
        idx = simp(idx)
        v = equal(idx, exp, leaf, param_env)
        c.decide(f"{n} of sample follows its flow", v, t.show(idx, 6) if v else f"sample i of device d gets entry {t.show(idx, 6)}, its flow is {t.show(exp, 6)}", gen.loc)
