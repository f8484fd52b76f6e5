"""P02, P03: displacement of particles and images."""
from itertools import product
from .. import terms as t
from ..terms import mk, const, sym, NONE
from ..check import prop, Undecided
from ..domain import Region, same, leaves, family, specialise, specialisations
from ..query import only_return, shape_oracle, pointwise, unwrap_vmap, calls, kwd, rets_of, retname
from .p_interp import axis_regions

ONE = const(1)


def cell_value(arr, cells):
    exp = const(0)
    for corner in product(*cells):
        w = ONE
        for _, wt in corner:
            w = t.mul(w, wt)
        exp = t.add(exp, t.mul(w, mk("index", arr, mk("tuple", *[ix for ix, _ in corner]))))
    return exp


def sample_leaf(R):
    """Leaves that are plain inputs: parameters, symbols, array samples at parametric indices."""
    def ok(x):
        if x.op in ("sym", "const"):
            return True
        if x.op == "index":
            k = x.args[1]
            ks = k.args if k.op == "tuple" else (k,)
            return all(z is t.ELL or z.op == "const" or all(y in R.params or y.op == "const" for y in leaves(z)) for z in ks) and (
                x.args[0].op in ("sym",) or x.args[0].op == "index" and ok(x.args[0]))
        return False
    return ok


@prop("P02", "The displaced coordinates returned for a particle are value-numbered; with the particle placed (parametrically) "
             "inside a cell, on a sample, or beyond a border, they must be polynomial-identical to position + dt * resolution * "
             "interpolated velocity, axis by axis; the image generator is analysed with the displacement step as an uninterpreted "
             "function and both frames' positions are compared under it.",
      ["IEEE rounding is not modelled", "P01 covers the remaining position classes of the interpolation itself"])
def p02(c):
    for dims, axes in ((2, "yx"), (3, "zyx")):
        with c.group(f"{dims}-D particles"):
            P, F = sym("P"), sym("F")
            dt = sym("dt")
            res = {n: sym(f"res_{n}") for n in "xyz"}
            orc = lambda x, st, d=dims: (x.args[0].args[0] == d if x.args[0].op == "const" else x.args[1].args[0] == d) if (
                x.op == "eq" and any(a is mk("index", mk("attr", P, "shape"), ONE) for a in x.args) and any(t.is_num(a) for a in x.args)) else shape_oracle(x)
            f = c.prog.get("synthpix.apply:apply_flow_to_particles")
            I, ex = c.exits("synthpix.apply:apply_flow_to_particles", args=[P, F, dt, res["x"], res["y"], res["z"]], oracle=orc)
            val = unwrap_vmap(only_return(c, ex, "apply_flow_to_particles").val)
            if val.op == "stack" and len(val.args[1]) == dims:
                comps = [unwrap_vmap(x) for x in val.args[1]]
            else:
                raise Undecided(f"result is not a vector of {dims} coordinates: {t.show(val, 4)}")
            row = mk("row", P)
            pos = {n: mk("index", row, const(k)) for k, n in enumerate(axes)}
            pos2 = {n: mk("row", mk("index", P, mk("tuple", t.ELL, const(k)))) for k, n in enumerate(axes)}
            # both ways of naming a particle's coordinate are the same input
            comps = [t.subst(x, lambda y: next((pos[n] for n in axes if pos2[n] is y), None)) for x in comps]
            # rescaling of the flow array view
            chan = {n: mk("index", F, mk("tuple", t.ELL, const(k))) for k, n in enumerate("xyz"[:dims])}
            # all combinations of two position classes on each axis
            regsets = []
            for n in axes:
                sizes = [mk("index", mk("attr", mk("index", F, mk("tuple", t.ELL, const(k))), "shape"), const(axes.index(n))) for k in range(dims)]
                rs = []
                for lab, defs, ints, fr, cell in axis_regions(n, pos[n], sizes[0]):
                    d = dict(defs)
                    for s in sizes[1:] + [mk("index", mk("attr", F, "shape"), const(axes.index(n)))]:
                        d[s] = defs[sizes[0]]
                    rs.append((lab, d, ints, fr, cell))
                regsets.append(rs if dims == 2 or c.tier == "thorough" else rs[:2])
            for combo in product(*regsets):
                defs, ints, fr = {}, [], []
                for lab, d, i, f_, cell in combo:
                    defs.update(d)
                    ints += i
                    fr += f_
                R = Region(defs, ints, fr)
                for k, n in enumerate(axes):
                    vel = cell_value(chan[n], [cb[4] for cb in combo])
                    exp = t.add(R.ev(pos[n]), t.mul(dt, t.mul(res[n], vel)))
                    v, got, exp = family(R, comps[k], exp, sample_leaf)
                    lab = ", ".join(f"{m} {cb[0]}" for m, cb in zip(axes, combo))
                    c.decide(f"new {n} for a particle with {lab}", v,
                             "position + dt * resolution * velocity" if v else f"got {t.show(got, 5)}, expected {t.show(exp, 5)}", f.loc)
    with c.group("both frames of a generated pair"):
        frames_positions(c)


def gen_setup(c, mask=NONE, histogram=NONE, opaque=("img_gen_from_data", "add_noise_to_image", "match_histogram", "apply_flow_to_particles")):
    key = ("gen", mask, histogram, tuple(opaque))
    if key in c.cache:
        return c.cache[key]
    OP = {"img_gen_from_data": "synthpix.generate.img_gen_from_data", "add_noise_to_image": "synthpix.generate.add_noise_to_image",
          "match_histogram": "synthpix.utils.match_histogram", "apply_flow_to_particles": "synthpix.apply.apply_flow_to_particles"}
    f = c.prog.get("synthpix.data_generate:generate_images_from_flow")
    facts = {}
    M, H = sym("mask"), sym("histogram")

    def orc(x, st):
        if x.op == "isnone" and x.args[0] in (M, H):
            return False
        return shape_oracle(x)
    spec = sym("parameters")
    cls = c.prog.modules["synthpix.types"].names.get("ImageGenerationSpecification")
    I, ex = c.exits("synthpix.data_generate:generate_images_from_flow", opaque=[OP[o] for o in opaque], oracle=orc,
                    kwargs=dict(mask=mask, histogram=histogram, parameters=spec, key=sym("key"), flow_field=sym("flow_field"),
                                position_bounds=sym("position_bounds"), flow_field_res_x=sym("flow_field_res_x"),
                                flow_field_res_y=sym("flow_field_res_y")))
    e = only_return(c, ex, "generate_images_from_flow")
    c.cache[key] = (f, I, e)
    return c.cache[key]


def comp(x, k):
    """k-th column of a (N, 2) array term."""
    if x.op == "stack" and x.args[0] == -1:
        return x.args[1][k]
    return mk("index", x, mk("tuple", t.ELL, const(k)))


def frames_positions(c):
    f, I, e = gen_setup(c)
    renders = calls(e, "img_gen_from_data")
    moves = calls(e, "apply_flow_to_particles")
    if len(renders) != 2:
        raise Undecided(f"{len(renders)} rendering steps found, expected 2")
    first, second = (kwd(r) for r in renders)
    imgs = images(e)
    p1, p2 = first.get("particle_positions"), second.get("particle_positions")
    if len(moves) != 1:
        if p1 is p2:
            c.bad("second frame is displaced", "both frames are rendered from the same positions", renders[1].loc)
            return
        raise Undecided(f"{len(moves)} displacement steps found, expected 1")
    mv = kwd(moves[0])
    res = moves[0].result
    pb = [mk("index", sym("position_bounds"), const(k)) for k in (0, 1)]
    arg = mv["particle_positions"]
    fl = mv["flow_field"]
    shp = [mk("index", mk("attr", sym("flow_field"), "shape"), const(k + 1)) for k in (0, 1)]
    loc = moves[0].loc
    for k, ax in enumerate("yx"):
        # the particle is handed over in grid steps
        exp = t.mul(comp(p1, k), t.div(shp[k], pb[k]))
        v = same(comp(arg, k), exp, plain)
        c.decide(f"{ax} is rescaled from pixels to grid steps", v, comp(arg, k) if v else f"got {t.show(comp(arg, k), 6)}, expected {t.show(exp, 6)}", loc)
    D = [sym("D_y"), sym("D_x")]
    # displacement D (in grid steps) moves the particle by D * bounds / grid size pixels
    r_k = [mk("index", res, mk("tuple", t.ELL, const(k))) for k in (0, 1)]
    for k, ax in enumerate("yx"):
        got = t.subst(comp(p2, k), lambda y: next((t.add(comp(arg, j), D[j]) for j in (0, 1) if y is r_k[j]), None))
        if t.contains(got, lambda y: y is res):
            c.und(f"{ax} displacement", t.show(comp(p2, k), 6), loc)
            continue
        exp = t.add(comp(p1, k), t.mul(D[k], t.div(pb[k], shp[k])))
        v = same(got, exp, plain)
        c.decide(f"second-frame {ax} = first-frame {ax} + displacement", v, got if v else f"got {t.show(got, 6)}, expected {t.show(exp, 6)}", renders[1].loc)
    par = sym("parameters")
    for name, exp in (("dt", mk("attr", par, "dt")), ("flow_field_res_x", sym("flow_field_res_x")), ("flow_field_res_y", sym("flow_field_res_y"))):
        v = mv.get(name) is exp
        c.decide(f"{name} handed to the displacement", v if v or mv.get(name) is not None and plain(mv[name]) or mv.get(name) is not None and mv[name].op == "const" else None,
                 mv.get(name), loc)
    # frame order: image 1 from the original, image 2 from the displaced positions
    if imgs is not None:
        for k, im in enumerate(imgs):
            rs = rets_of(im, "img_gen_from_data")
            uses = [r for r in rs if t.contains(r, lambda y: y is res)]
            v = (len(rs) == 1) and (bool(uses) == (k == 1)) if len(rs) == 1 else None
            c.decide(f"image {k + 1} shows the {'displaced' if k else 'original'} particles", v, "", f.loc)


def plain(x):
    """An input quantity (symbol, attribute, element, random draw)."""
    if x.op in ("sym", "draw", "arange"):
        return True
    if x.op in ("attr", "index", "row"):
        return plain(x.args[0]) or x.args[0].op == "ret"
    return False


def images(e):
    """Per-sample values of the two image batches."""
    v = e.val
    if v.op != "tuple" or len(v.args) < 2:
        return None
    out = []
    for k in (0, 1):
        x = v.args[k]
        if x.op == "vmap":
            x = x.args[0]
        out.append(x)
    return out


# ------------------------------------------------------------------ P03

def field_leaf(R, img):
    base = sample_leaf(R)
    return base


def warp_regions(dt):
    """Displacements written through the source position: u = (X - x_s)/dt."""
    return


def check_backward(c, val, img, flow_at, H, W, sign, where, tag):
    """val: pointwise image value at output pixel (Y, X)."""
    X, Y, dt = sym("X"), sym("Y"), sym("dt")
    xs, ys = sym("x_s"), sym("y_s")
    rx = axis_regions("x", xs, W)
    ry = axis_regions("y", ys, H)
    for a, b in product(ry, rx):
        defs = {**a[1], **b[1]}
        R = Region(defs, list(a[2]) + list(b[2]), list(a[3]) + list(b[3]), strict=(dt,), reals=(X, Y))
        defs[flow_at[0]] = t.div(t.sub(X, R.ev(xs)), dt)
        defs[flow_at[1]] = t.div(t.sub(Y, R.ev(ys)), dt)
        R = Region(defs, R.ints, R.fracs, strict=(dt,), reals=(X, Y))
        exp = cell_value(img, [a[4], b[4]])
        v, got, exp = family(R, val, exp, sample_leaf)
        if v is None:
            v = probe(got, val, img, flow_at, H, W)
        c.decide(f"{tag}: source position with y {a[0]}, x {b[0]}", v,
                 "samples the image at (y - v dt, x - u dt)" if v else f"got {t.show(got, 5)}, expected {t.show(exp, 5)}", where)


def probe(_, val, img, flow_at, H, W, forward=False):
    """Bounded box of inputs on which any clamp or floor of a linear position is decidable (refutation only)."""
    fx, fy = sym("p_fx"), sym("p_fy")
    defs = {sym("X"): const(2000), sym("Y"): const(1000), H: const(5000), W: const(7000), sym("dt"): const(2),
            flow_at[0]: t.div(t.add(const(31), t.neg(fx)), const(2)), flow_at[1]: t.div(t.add(const(17), t.neg(fy)), const(2))}
    R = Region(defs, (), (fx, fy))
    got = R.ev(val)
    exp = cell_value(img, [[(const(983), t.sub(ONE, fy)), (const(984), fy)], [(const(1969), t.sub(ONE, fx)), (const(1970), fx)]])
    v = same(got, exp, sample_leaf(R))
    return False if v is False else None


def dims_of(img):
    return mk("index", mk("attr", img, "shape"), const(0)), mk("index", mk("attr", img, "shape"), const(1))


@prop("P03", "The warped image is value-numbered and made pointwise. Backward: with the flow written through the source position, "
             "the value must be identical to bilinear sampling there for all 16 classes of source positions. Forward: the loop must "
             "visit every source pixel once and its accumulated deposits must be identical to the bilinear splat restricted to the "
             "image, for all classes of target positions. Callable flows must be evaluated as f(t, x, y) at every pixel and warped the same way.",
      ["IEEE rounding is not modelled"])
def p03(c):
    img, flow, dt = sym("I"), sym("F"), sym("dt")
    H, W = dims_of(img)
    Y, X = sym("Y"), sym("X")
    fl = [mk("index", flow, mk("tuple", t.ELL, const(k))) for k in (0, 1)]
    with c.group("backward warp"):
        f = c.prog.get("synthpix.apply:apply_flow_to_image_backward")
        I, ex = c.exits("synthpix.apply:apply_flow_to_image_backward", args=[img, flow, dt])
        val = pointwise(only_return(c, ex, f.name).val, [Y, X])
        check_backward(c, val, img, fl, H, W, -1, f.loc, "backward")
    with c.group("forward splat"):
        f = c.prog.get("synthpix.apply:apply_flow_to_image_forward")
        I, ex = c.exits("synthpix.apply:apply_flow_to_image_forward", args=[img, flow, dt])
        check_forward(c, only_return(c, ex, f.name).val, img, fl, H, W, f.loc, "forward")
    with c.group("callable flow"):
        f = c.prog.get("synthpix.apply:apply_flow_to_image_callable")
        fun, tt = sym("flow_function"), sym("time")
        for fwd in (False, True):
            I, ex = c.exits("synthpix.apply:apply_flow_to_image_callable", args=[img, fun, tt, dt, const(fwd)],
                            opaque=["synthpix.apply.apply_flow_to_image_forward", "synthpix.apply.apply_flow_to_image_backward"])
            e = only_return(c, ex, f.name)
            want = "forward" if fwd else "backward"
            tag = f"forward={fwd}"
            nm = retname(e.val) or ""
            if not nm.startswith("synthpix.apply.apply_flow_to_image_"):
                c.und(f"{tag}: direction", e.val, f.loc)
                continue
            c.decide(f"{tag}: direction", nm.endswith(want), nm, f.loc)
            kw = dict(e.val.args[2])
            c.decide(f"{tag}: image", kw.get("image") is img, kw.get("image"), f.loc)
            c.decide(f"{tag}: dt", kw.get("dt") is dt, kw.get("dt"), f.loc)
            uv = kw.get("flow_field")
            fc = [x for x in t.walk(uv) if x.op == "ret" and x.args[0] is fun]
            if len(fc) != 1:
                c.und(f"{tag}: flow evaluation", uv, f.loc)
                continue
            call = fc[0]
            a = list(call.args[1])
            if len(a) != 3:
                c.bad(f"{tag}: flow evaluation", f"called with {len(a)} arguments", f.loc)
                continue
            c.decide(f"{tag}: time is the first argument", a[0] is tt, a[0], f.loc)
            for pos, (z, ax) in enumerate(((a[1], 1), (a[2], 0))):
                g = z
                while g.op == "row":
                    g = g.args[0]
                nm = "x" if ax == 1 else "y"
                if g.op == "bcast":
                    ok = g.args[1] == ax and g.args[0] is mk("arange", const(0), (H, W)[ax], const(1))
                    c.decide(f"{tag}: argument {pos + 2} is {nm}", ok, g, f.loc)
                else:
                    c.und(f"{tag}: argument {pos + 2} is {nm}", g, f.loc)
            # channel order of the assembled flow
            body = uv
            while body.op == "vmap":
                body = body.args[0]
            if body.op == "stack":
                got = [t.subst(y, lambda x: x.args[0] if x.op == "vmap" else None) for y in body.args[1]]
                uvs = [mk("index", call, const(k)) for k in (0, 1)]
                if got == uvs: ok = True
                elif len(got) != 2 or all(g in uvs for g in got): ok = False
                else: ok = None
                c.decide(f"{tag}: (u, v) channel order", ok, body, f.loc)
            elif body is call or t.contains(body, lambda x: x is call):
                if body is call or body.op == "call":
                    c.ok(f"{tag}: (u, v) channel order", body, f.loc)
                else:
                    c.und(f"{tag}: (u, v) channel order", body, f.loc)


def check_forward(c, val, img, fl, H, W, where, tag):
    if val.op != "fori":
        c.und("deposit loop", f"not a loop over pixels: {t.show(val, 3)}", where)
        return
    body, init, lv = None, None, None
    lvs = [x for x in t.walk(val) if x.op == "loopvar"]
    if len(lvs) != 1:
        c.und("deposit loop", "loop variable not identified", where)
        return
    lv = lvs[0]
    lo, hi = lv.args[0], lv.args[1]
    carry = [x for x in t.walk(val) if x.op == "carry"]
    lo_ok = lo is const(0)
    hi_ok = t.sub(hi, t.mul(H, W)) is const(0)
    c.decide("every source pixel is visited once", bool(lo_ok and hi_ok), f"loop runs over [{t.show(lo)}, {t.show(hi)})", where)
    body = val.args[0]
    # pixel coordinates of the loop variable
    r, k = mk("floordiv", lv, W), mk("mod", lv, W)
    Y, X = sym("Y"), sym("X")

    def pix(x):
        if x is r:
            return Y
        if x is k:
            return X
        if x.op == "index" and x.args[1] is mk("tuple", r, k):
            b = pointwise(x.args[0], [Y, X])
            return None if b is x.args[0] and b.op not in ("index", "sym") else (b if b.op not in ("index", "sym") else mk("at_px", b))
        return None
    b = t.subst(body, pix)
    b = t.subst(b, lambda x: Y if x is r else X if x is k else None)
    val_px = mk("at_px", img)
    # the deposits, innermost first
    deps = []

    def collect(x, conds):
        if x.op == "ite":
            c1, a, d = x.args
            # conditional deposit on top of d
            if a.op == "atop" and same_base(a.args[0], d):
                collect(d, conds)
                deps.append((c1, a))
                return True
            return False
        if x.op == "atop":
            if not collect(x.args[0], conds):
                return False
            deps.append((t.TRUE, x))
            return True
        return x.op in ("carry", "loopcarry", "mu", "full", "call", "sym", "shapeop", "acc") or True

    def same_base(p, d):
        return p is d
    if not collect(b, ()) or not deps:
        c.und("deposits", t.show(b, 3), where)
        return
    if t.contains(b, lambda x: x is lv):
        c.und("pixel coordinates", "the loop variable is not decoded as (row, column) of the image", where)
        return
    dt = sym("dt")
    for a, bx in product(target_regions("y", H), target_regions("x", W)):
        defs = {**a[1], **bx[1]}
        R0 = Region(defs, list(a[2]) + list(bx[2]), list(a[3]) + list(bx[3]), strict=(dt,), reals=(X, Y))
        xd, yd = R0.ev(sym("x_d")), R0.ev(sym("y_d"))
        defs = {**R0.defs, fl[0]: t.div(t.sub(xd, X), dt), fl[1]: t.div(t.sub(yd, Y), dt)}
        R = Region(defs, R0.ints, R0.fracs, strict=(dt,), reals=(X, Y))
        lab = f"target with y {a[0]}, x {bx[0]}"
        exp = [(mk("tuple", iy, ix), t.mul(t.mul(wy, wx), val_px)) for (iy, wy), (ix, wx) in product(a[4], bx[4])]
        v, msg = splat(R, deps, exp, val_px)
        if v is None:
            for assign in specialisations(R.ints):
                g = lambda x: assign.get(x)
                v2, msg2 = splat(specialise(R, assign), deps, [(t.subst(k, g), t.subst(w, g)) for k, w in exp], val_px)
                if v2 is False:
                    v, msg = v2, msg2
                    break
        c.decide(lab, v, msg or "bilinear splat, inside the image only", where)


def splat(R, deps, expected, val_px):
    got, exp = {}, {}
    for k, w in expected:
        exp[k] = t.add(exp.get(k, const(0)), w)
    for cond, at in deps:
        cv = R.ev(cond)
        if cv is t.FALSE:
            continue
        if cv is not t.TRUE:
            return None, f"condition not decided: {t.show(cv, 4)}"
        _, idx, op, amount = at.args
        if op != "add":
            return None, f"deposit operation {op}"
        ii = R.ev(idx)
        got[ii] = t.add(got.get(ii, const(0)), R.ev(amount))
    v, msg = True, ""
    for kk in sorted(set(got) | set(exp)):
        g, w = got.get(kk, const(0)), exp.get(kk, const(0))
        s = same(g, w, lambda x: sample_leaf(R)(x) or x is val_px)
        if kk.op != "tuple" or any(not all(y in R.params for y in leaves(z) if y.op != "const") for z in kk.args):
            s = None if s is not True else True
        if s is not True:
            v = False if s is False or v is False else None
            msg = f"at {t.show(kk)}: deposits {t.show(g, 5)}, bilinear splat deposits {t.show(w, 5)}"
            if v is False:
                break
    return v, msg


def target_regions(name, size):
    i, s, f = sym(f"{name}_i"), sym(f"{name}_s"), sym(f"{name}_f")
    d = sym(f"{name}_d")
    add, sub = t.add, t.sub
    return [
        ("inside a cell", {d: add(i, f), size: add(add(i, s), const(2))}, (i, s), (f,), [(i, sub(ONE, f)), (add(i, ONE), f)]),
        ("between the image and the low border", {d: add(const(-1), f), size: add(s, ONE)}, (s,), (f,), [(const(0), f)]),
        ("between the image and the high border", {d: add(s, f), size: add(s, ONE)}, (s,), (f,), [(s, sub(ONE, f))]),
        ("beyond the low border", {d: sub(const(-2), sub(i, f)), size: add(s, ONE)}, (i, s), (f,), []),
        ("beyond the high border", {d: add(add(add(s, ONE), i), f), size: add(s, ONE)}, (i, s), (f,), []),
    ]
