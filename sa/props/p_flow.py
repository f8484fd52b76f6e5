"""P04: resampled flow fields."""
from .. import terms as t
from ..terms import mk, const, sym, NONE
from ..check import prop, Undecided
from ..domain import Region, equal, source_leaf, leaves
from ..query import only_return, pointwise, retname, kwd

ONE = const(1)
ANCHOR = "synthpix.utils:flow_field_adapter"
BI = "synthpix.utils.bilinear_interpolate"


def el(name, k):
    return mk("index", sym(name), const(k))


def adapter(c, units):
    key = ("adapter", units)
    if key not in c.cache:
        I, ex = c.exits(ANCHOR, kwargs=dict(output_units=const(units)), opaque=[BI])
        c.cache[key] = only_return(c, ex, "flow_field_adapter").val
    return c.cache[key]


def strip(x):
    """Body of a per-flow-field result; (body, wrapper terms)"""
    tiles = []
    while True:
        if x.op == "index" and x.args[1].op in ("slice", "tuple") and x.args[0].op in ("shapeop", "vmap", "row", "index", "ext"):
            tiles.append(x)
            x = x.args[0]
        elif x.op == "shapeop" and x.args[0] in ("tile", "repeat"):
            tiles.append(x)
            x = x.args[1]
        elif x.op == "index" and x.args[0].op in ("shapeop", "vmap"):
            tiles.append(x)
            x = x.args[0]
        elif x.op in ("vmap",):
            x = x.args[0]
        else:
            return x, tiles


def samples(c, body, name):
    """[(factor, opaque bilinear result)] per channel"""
    if body.op != "stack" or len(body.args[1]) != 2:
        raise Undecided(f"{name} is not assembled from two components: {t.show(body, 4)}")
    out = []
    for ch in body.args[1]:
        rets = [y for y in t.walk(ch) if y.op == "ret" and retname(y) == BI]
        rets = [r for r in rets if not any(r is not o and t.contains(o, lambda z, r=r: z is r) for o in rets)]
        if len(rets) != 1:
            raise Undecided(f"{name}: {len(rets)} interpolations in one component")
        out.append((t.div(ch, rets[0]), rets[0]))
    return out


def check_grid(c, tag, body, factor, start, extent, nodes, where):
    """extent: flow grid steps covered; nodes: (rows, cols) or None to read them from the code."""
    F = sym("flow_fields")
    for k, ((fac, r), comp) in enumerate(zip(samples(c, body, tag), "uv")):
        kw = dict(r.args[2])
        img = kw.get("image")
        # which component of the flow is sampled
        if img is not None and img.op == "index" and img.args[1].op == "tuple" and t.is_num(img.args[1].args[-1]):
            ch = img.args[1].args[-1].args[0]
            c.decide(f"{tag}: component {comp} samples component {comp}", ch in (k, k - 2), f"samples channel {ch}", where)
            check_pad(c, f"{tag} {comp}", img.args[0], where)
        else:
            c.und(f"{tag}: component {comp} source", img, where)
        c.decide(f"{tag}: unit factor of {comp}", equal(fac, factor, source_leaf), f"{t.show(fac, 6)}; expected {t.show(factor, 6)}", where)
        Y, X = sym("Y"), sym("X")
        for nm, pos, ax, at in (("x", "x_f", 1, X), ("y", "y_f", 0, Y)):
            g = kw.get(pos)
            if g is None:
                c.und(f"{tag}: {nm} coordinates of {comp}", "argument not recognised", where)
                continue
            val = pointwise(g, [Y, X])
            n = nodes[ax]
            exp = t.add(start[ax], t.mul(t.div(t.sub(extent[ax], ONE), t.sub(n, ONE)), at))
            v = equal(val, exp, source_leaf)
            c.decide(f"{tag}: {nm} coordinates of {comp}", v, "evenly spaced over the requested region" if v else
                     f"got {t.show(val, 7)}, expected {t.show(exp, 7)}", where)


def check_pad(c, tag, src, where):
    pads = [y for y in t.walk(src) if y.op == "shapeop" and y.args[0] == "pad"]
    F = sym("flow_fields")
    if len(pads) == 1 and (pads[0].args[1].op == "row" and pads[0].args[1].args[0] is F):
        kw = {k: v for k, v in (a for a in pads[0].args[2] if isinstance(a, tuple))}
        w = kw.get("pad_width") or next((a for a in pads[0].args[2] if isinstance(a, t.T)), None)
        if w is None or w.op not in ("tuple", "list") or len(w.args) < 2:
            c.und(f"{tag}: extension of the flow", src, where)
            return
        for k, ax in enumerate("yx"):
            p = w.args[k]
            if p.op not in ("tuple", "list") or len(p.args) != 2:
                c.und(f"{tag}: extension in {ax}", p, where)
                continue
            v1 = equal(p.args[0], el("zero_padding", k), source_leaf)
            v2 = equal(p.args[1], const(0), source_leaf)
            v = False if False in (v1, v2) else None if None in (v1, v2) else True
            c.decide(f"{tag}: extension in {ax} is at the low border only", v, p, where)
    elif not pads and t.contains(src, lambda y: y is F):
        c.bad(f"{tag}: the flow is extended", f"sampled without padding: {t.show(src, 4)}", where)
    else:
        c.und(f"{tag}: extension of the flow", src, where)


def tile_ok(c, tiles, body_n, where):
    """Sample i of the output is flow field i mod n, and there are batch_size samples."""
    B = sym("batch_size")
    cut = [x for x in tiles if x.op == "index"]
    rep = [x for x in tiles if x.op == "shapeop"]
    if not rep and len(cut) == 1:
        k = cut[0].args[1]
        k = k.args[0] if k.op == "tuple" and all(z is t.ELL or z.op == "slice" for z in k.args[1:]) else k
        ars = [y for y in t.walk(k) if y.op == "arange"]
        ns = [y for y in t.walk(k) if y.op == "index" and y.args[0].op == "attr" and y.args[0].args[1] == "shape" and t.is_const(y.args[1], 0)]
        if len(ars) == 1:
            i, N = sym("sample"), sym("n_flows")
            k2 = t.subst(k, lambda y: i if y is ars[0] else N if y in ns else None)
            c.decide("samples cycle over the flow fields", equal(k2, mk("mod", i, N), source_leaf), k2, where)
            c.decide("exactly batch_size samples are returned", equal(ars[0].args[1], B, source_leaf) if ars[0].args[0] is const(0) else None, ars[0], where)
            return
    if len(rep) != 1:
        c.und("assignment of flow fields to samples", "not a tiling", where)
        return
    if rep[0].args[0] == "repeat":
        c.bad("samples cycle over the flow fields", "flow fields are repeated consecutively while images cycle over them", where)
        return
    a = rep[0].args[2]
    reps = a[0] if a and isinstance(a[0], t.T) else dict(x for x in a if isinstance(x, tuple)).get("reps")
    if reps is None or reps.op not in ("tuple", "list"):
        c.und("number of repetitions", rep[0], where)
        return
    tail = all(t.is_const(x, 1) for x in reps.args[1:])
    c.decide("only the sample axis is repeated", tail if tail else (False if all(t.is_num(x) for x in reps.args[1:]) else None), reps, where)
    r0 = reps.args[0]
    ns = [y for y in t.walk(r0) if y.op == "index" and y.args[0].op == "attr" and y.args[0].args[1] == "shape"]
    N = sym("n_flows")
    r1 = t.subst(r0, lambda y: N if y in ns and t.is_const(y.args[1], 0) else None)
    # enough repetitions: the excess over batch/n is enclosed for each residue class
    v = None
    if r1 is mk("floordiv", t.sub(t.add(B, N), ONE), N) or r1 is t.neg(t.floordiv(t.neg(B), N)) or r1 is t.add(ONE, t.floordiv(B, N)) \
            or r1 is t.add(ONE, t.floordiv(t.sub(B, ONE), N)):
        v = True
    else:
        for b, n in ((5, 2), (7, 3), (3, 2), (4, 4), (1, 1), (9, 5)):
            x = t.subst(r1, lambda y: const(b) if y is B else const(n) if y is N else None)
            if x.op == "fn" or t.is_num(x):
                if t.is_num(x) and x.args[0] * n < b:
                    v = False
    c.decide("enough repetitions to fill the batch", v, r1, where)
    ok = None
    if len(cut) == 1:
        k = cut[0].args[1]
        k = k.args[0] if k.op == "tuple" and all(z is t.ELL or z.op == "slice" for z in k.args[1:]) else k
        if k.op == "slice":
            lo, hi, st = k.args
            ok = (lo is NONE or t.is_const(lo, 0)) and (st is NONE or t.is_const(st, 1)) and equal(hi, B, source_leaf)
    elif not cut:
        ok = False
    c.decide("exactly batch_size samples are returned", ok, cut[0].args[1] if cut else "no cut", where)


@prop("P04", "The flow-field adapter is value-numbered with the interpolation kept uninterpreted: sampling coordinates must be "
             "polynomial-identical to evenly spaced nodes over the image region (resp. the position bounds) in grid steps, each "
             "component must sample its own component of the extended flow, the unit factor must be resolution*dt exactly for "
             "pixel output, and the batch must be the cyclic repetition of the flow fields, cut at the batch size.",
      ["IEEE rounding is not modelled", "the interpolation itself is P01"])
def p04(c):
    f = c.prog.get(ANCHOR)
    res, dt = sym("resolution"), sym("dt")
    rr = [sym("res_y"), sym("res_x")]
    pbo = [t.mul(el("position_bounds_offset", k), rr[k]) for k in (0, 1)]
    istart = [t.add(pbo[k], t.mul(t.div(el("img_offset", k), res), rr[k])) for k in (0, 1)]
    iext = [t.mul(t.div(el("image_shape", k), res), rr[k]) for k in (0, 1)]
    pext = [t.mul(t.div(el("position_bounds", k), res), rr[k]) for k in (0, 1)]
    for units in ("pixels", "measure units per second"):
        with c.group(f"output in {units}"):
            val = adapter(c, units)
            if val.op != "tuple" or len(val.args) != 2:
                raise Undecided(f"result is not a pair: {t.show(val, 3)}")
            body, tiles = strip(val.args[0])
            fac = t.mul(res, dt) if units == "pixels" else ONE
            check_grid(c, "returned flow", body, fac, istart, iext, [el("new_flow_field_shape", k) for k in (0, 1)], f.loc)
            tile_ok(c, tiles, None, f.loc)
    with c.group("flow over the position bounds"):
        val = adapter(c, "pixels")
        body, tiles = strip(val.args[1])
        nodes = [mk("max", *sorted([ONE, mk("fn", "toint", pext[k])], key=lambda z: z.id)) for k in (0, 1)]
        from .. import lib
        nodes = [lib.nary("max", [ONE, lib.fn("toint", pext[k])]) for k in (0, 1)]
        check_grid(c, "position bounds flow", body, ONE, pbo, pext, nodes, f.loc)
        c.decide("one crop per flow field", True if not tiles else None, f"{len(tiles)} reshaping steps", f.loc)


SAMPLED = """
from synthpix.utils import generate_array_flow_field
import probe

def f(time, row, col):
    return probe.u(time, row, col), probe.v(time, row, col)

def drive():
    a = generate_array_flow_field(f, {shape})
    return a, [{entries}]
"""


def nested(x):
    """The shape of an array that was put together from scalars."""
    if x.op == "call" or t.is_num(x):
        return []
    if x.op == "stack" and x.args[1]:
        inner = [nested(y) for y in x.args[1]]
        if None in inner or any(y != inner[0] for y in inner):
            return None
        at = x.args[0] if x.args[0] >= 0 else len(inner[0]) + 1 + x.args[0]
        return inner[0][:at] + [len(inner)] + inner[0][at:]
    return None


def entries_of(shape):
    H, W = shape
    return [(i, j, k) for i in range(H) for j in range(W) for k in (0, 1)]


@prop("P46", "value numbering with the mapped axes unrolled: for enumerated grid shapes every entry of the sampled field is the application of the "
             "flow function to time 1 and that entry's own row and column, first component first.",
      ["flow functions are pure and take one pixel at a time", "grids of up to 8 rows and columns are enumerated"])
def p46(c):
    f = c.prog.get("synthpix.utils:generate_array_flow_field")
    shapes = [(1, 1), (1, 3), (3, 1), (2, 3), (3, 2), (4, 5)] + ([(5, 4), (8, 8), (7, 2)] if c.tier == "thorough" else [])

    def setup(I):
        I.unroll = 8
        for n in "uv":
            I.models[f"probe.{n}"] = lambda a, k, st, n=n: ("ret", mk("call", "sample_" + n, tuple(a)))
    for shape in shapes:
        with c.group(f"grid of {shape[0]} x {shape[1]}"):
            want = entries_of(shape)
            src = SAMPLED.format(shape=shape, entries=", ".join(f"a[{i}, {j}, {k}]" for i, j, k in want))
            _, exits = c.client(src, setup=setup)
            rets = [e for e in exits if e.kind == "return"]
            if len(rets) != 1 or len(exits) != 1:
                if exits and not rets and all(not e.st.guards for e in exits):
                    c.bad("returns", "sampling never returns a field", f.loc)
                    continue
                raise Undecided("sampling does not return in one way")
            val = rets[0].val
            dims = nested(val.args[0])
            c.decide("shape", None if dims is None else dims == [*shape, 2], f"shape {dims}", f.loc)
            if dims is not None and dims != [*shape, 2]:
                continue
            for (i, j, k), x in zip(want, val.args[1].args):
                if x.op != "call" or len(x.args[1]) != 3:
                    c.decide(f"entry {i}, {j}, {k}", None, t.show(x, 3)[:80], f.loc)
                    continue
                name, (time, row, col) = x.args[0], x.args[1]
                known = all(t.is_num(y) for y in (row, col))
                ok = None if not known else (name, row.args[0], col.args[0]) == ("sample_" + "uv"[k], i, j)
                c.decide(f"entry {i}, {j}, {k}", ok, f"samples {name[7:]} at row {t.show(row, 2)[:30]}, column {t.show(col, 2)[:30]}", f.loc)
                v = time.args[1] if time.op == "full" else time.args[1][0] if time.op == "stack" and len(time.args[1]) == 1 else time
                c.decide(f"time of entry {i}, {j}, {k}", v.args[0] == 1 if t.is_num(v) else None, f"time {t.show(v, 2)[:30]}", f.loc)
