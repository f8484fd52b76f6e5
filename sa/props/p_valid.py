"""P15, P16: validation of specifications and arguments."""
from .. import terms as t, classes as K
from ..terms import mk, const, sym
from ..check import prop, Undecided
from ..classes import Raw, Obj, accept, reject
from ..boxes import num, ints, reals, none, txt, array, Val, INF

TINY = 1e-300


def neg(kind="float"):
    return Val(kind, -INF, -1.0 if kind == "int" else -TINY)


def over(x):
    """Every real above x."""
    return Val("float", x * (1 + 1e-15) if x > 0 else x + 1e-300 if x == 0 else x * (1 - 1e-15), INF)


def under(x):
    return Val("float", -INF, x * (1 - 1e-15) if x > 0 else -1e-300 if x == 0 else x * (1 + 1e-15))


def unit():
    return Val("float", 0.0, 1.0)


def pos():
    return Val("float", TINY, INF)


def posint():
    return Val("int", 1.0, INF)


def nonneg():
    return Val("float", 0.0, INF)


# ordered pairs: boxes that only touch
def lowhigh(a=1.0, b=4.0):
    return (Val("float", a, b), Val("float", b, INF))


def spec_args():
    return dict(batch_size=posint(), image_shape=(posint(), posint()), img_offset=(nonneg(), nonneg()),
                seeding_density_range=(Val("float", 0.0, 0.5), Val("float", 0.5, INF)), p_hide_img1=unit(), p_hide_img2=unit(),
                diameter_ranges=[(Val("float", TINY, 2.0), Val("float", 2.0, INF))], diameter_var=nonneg(),
                intensity_ranges=[(Val("float", TINY, 2.0), Val("float", 2.0, INF))], intensity_var=nonneg(),
                rho_ranges=[(Val("float", -1 + 1e-9, 0.0), Val("float", 0.0, 1 - 1e-9))], rho_var=nonneg(), dt=pos(),
                noise_uniform=nonneg(), noise_gaussian_mean=nonneg(), noise_gaussian_std=nonneg())


P2 = lambda a, b: (num(float(a)), num(float(b)))


def spec_valid():
    """Boxes inside of the documented domain, with their boundaries."""
    yield "any valid fields", {}
    yield "integers", {"img_offset": (ints(0), ints(0)), "seeding_density_range": (num(0), num(1)), "dt": posint(), "p_hide_img1": num(0), "p_hide_img2": num(1),
                       "diameter_var": ints(0), "intensity_var": ints(0), "rho_var": ints(0), "noise_uniform": ints(0), "noise_gaussian_mean": ints(0),
                       "noise_gaussian_std": ints(0), "diameter_ranges": [(num(1), num(2))], "intensity_ranges": [(num(50), num(200))], "rho_ranges": [(num(0), num(0))]}
    yield "smallest batch", {"batch_size": num(1)}
    yield "one-pixel images", {"image_shape": (num(1), num(1))}
    yield "no offset", {"img_offset": (num(0), num(0))}
    yield "offset in one direction only", {"img_offset": (num(0.0), num(7.5))}
    yield "fixed seeding density", {"seeding_density_range": P2(0.25, 0.25)}
    yield "empty seeding", {"seeding_density_range": P2(0, 0)}
    for p in ("p_hide_img1", "p_hide_img2"):
        for x in (0.0, 1.0):
            yield f"{p} = {x:g}", {p: num(x)}
    for n in ("diameter_ranges", "intensity_ranges"):
        yield f"fixed {n}", {n: [P2(2, 2)]}
        yield f"several {n}", {n: [P2(0.5, 1), P2(3, 3), P2(0.25, 4)]}
    yield "rho_ranges close to the limits", {"rho_ranges": [P2(-0.999, 0.999)]}
    yield "several rho_ranges", {"rho_ranges": [P2(-0.9, -0.5), P2(0.5, 0.5), P2(-0.25, 0.75)]}
    yield "no variance, no noise", {n: num(0.0) for n in ("diameter_var", "intensity_var", "rho_var", "noise_uniform", "noise_gaussian_mean", "noise_gaussian_std")}


def spec_invalid():
    for n, v in (("zero", num(0)), ("negative", neg("int")), ("fractional", reals(-INF, INF)), ("text", txt("8")), ("None", none())):
        yield f"batch_size: {n}", {"batch_size": v}
    for k in (0, 1):
        for n, v in (("zero", num(0)), ("negative", neg("int")), ("fractional", Val("float", -INF, INF)), ("text", txt("8"))):
            s = [posint(), posint()]
            s[k] = v
            yield f"image_shape[{k}]: {n}", {"image_shape": tuple(s)}
        o = [nonneg(), nonneg()]
        o[k] = neg()
        yield f"img_offset[{k}]: negative", {"img_offset": tuple(o)}
        o = [nonneg(), nonneg()]
        o[k] = txt("1")
        yield f"img_offset[{k}]: text", {"img_offset": tuple(o)}
    three = (posint(), posint(), posint())
    for n in ("image_shape", "img_offset", "seeding_density_range"):
        yield f"{n}: three entries", {n: three}
        yield f"{n}: one entry", {n: (posint(),)}
        yield f"{n}: not a tuple", {n: posint()}
    yield "seeding_density_range: reversed", {"seeding_density_range": (Val("float", 0.5, INF), Val("float", 0.0, 0.4999))}
    yield "seeding_density_range: negative", {"seeding_density_range": (neg(), nonneg())}
    yield "seeding_density_range: text", {"seeding_density_range": (num(0.0), txt("1"))}
    for p in ("p_hide_img1", "p_hide_img2"):
        yield f"{p}: above one", {p: over(1.0)}
        yield f"{p}: negative", {p: neg()}
    good = {"diameter_ranges": P2(0.5, 1), "intensity_ranges": P2(50, 200), "rho_ranges": P2(-0.5, 0.5)}
    for n, g in good.items():
        yield f"{n}: empty", {n: []}
        yield f"{n}: a tuple", {n: g}
        yield f"{n}: not a list", {n: num(1.0)}
        yield f"{n}: entries are numbers", {n: [num(0.25), num(0.5)]}
        yield f"{n}: entries with three numbers", {n: [g + (num(1.0),)]}
        yield f"{n}: later entry with three numbers", {n: [g, g + (num(1.0),)]}
        bad = [("reversed", (Val("float", 0.5, INF), Val("float", -INF, 0.4999)))]
        if n == "rho_ranges":
            bad += [("minimum is -1", P2(-1, 0)), ("minimum below -1", (under(-1.0), num(0.0))), ("maximum is 1", P2(0, 1)), ("maximum above 1", (num(0.0), over(1.0)))]
        else:
            bad += [("minimum is zero", P2(0, 1)), ("minimum is negative", (neg(), num(1.0)))]
        for m, b in bad:
            yield f"{n}: {m}", {n: [b]}
            yield f"{n}: {m} in the second entry", {n: [g, b]}
            yield f"{n}: {m} in the first of three entries", {n: [b, g, g]}
    for n in ("diameter_var", "intensity_var", "rho_var", "noise_uniform", "noise_gaussian_mean", "noise_gaussian_std"):
        yield f"{n}: negative", {n: neg()}
        yield f"{n}: negative integer", {n: neg("int")}
        yield f"{n}: text", {n: txt("0")}
        yield f"{n}: None", {n: none()}
    for n, v in (("zero", num(0.0)), ("integer zero", num(0)), ("negative", neg()), ("text", txt("1"))):
        yield f"dt: {n}", {"dt": v}


IMP = "from synthpix.types import ImageGenerationSpecification, ImageGenerationParameters\n"


@prop("P15", "The documented domain of a specification is cut into boxes (types, lengths, intervals with their boundaries). Every box is sent "
             "through the constructor and through update() by abstract interpretation; each branch is decided for the whole box. Valid boxes must "
             "reach no raise, invalid boxes no return, and the stored fields must be the given values.",
      ["lists of ranges are explored up to length 3 (the conditions look at the entries one by one)", "numbers are reals (no NaN)"])
def p15(c):
    with c.group("valid"):
        for n, ch in spec_valid():
            for how, tpl in (("constructed", "return ImageGenerationSpecification(ARGS)"), ("updated", "return spec.update(ARGS)")):
                args = {**spec_args(), **ch}
                B, ex = run_spec(c, tpl, args)
                accept(c, f"{n}, {how}", ex)
                if n == "any valid fields":
                    stored(c, how, ex, args)
    with c.group("invalid"):
        for n, ch in spec_invalid():
            B, ex = run_spec(c, "return ImageGenerationSpecification(ARGS)", {**spec_args(), **ch})
            reject(c, n, ex)
            B, ex = run_spec(c, "return spec.update(ARGS)", ch)
            reject(c, n + ", updated", ex)
    with c.group("defaults"):
        I, ex = c.client(IMP + "def drive():\n    return ImageGenerationSpecification()\n")
        accept(c, "are valid", ex)


def run_spec(c, tpl, args):
    if tpl.startswith("return spec"):
        # the record that is updated was valid
        S = sym("spec")
        base = spec_args()
        b = K.Build(c.prog)
        txt_ = ", ".join(f"{k}={b.src(v)}" for k, v in args.items())
        pre = ", ".join(f"{k}={b.src(v)}" for k, v in base.items())
        B = K.Boxes(b.val)
        src = IMP + f"def drive({', '.join(b.params)}):\n    spec = ImageGenerationSpecification({pre})\n    {tpl.replace('ARGS', txt_)}\n"
        I, ex = c.client(src, oracle=lambda x, st: B.truth(x))
        for e in ex:
            e.B = B
        return B, ex
    return K.run(c, tpl, args, pre=IMP)


def stored(c, how, ex, args):
    r = [e for e in ex if e.kind == "return"]
    if len(r) != 1:
        raise Undecided("several construction paths")
    e = r[0]
    b = K.Build(c.prog)
    I = c.interp()
    for k, v in args.items():
        got = e.st.heap.get((e.val, k))
        want = term(b, v)
        c.decide(f"{k} is stored as given, {how}", True if got is want else False if got is not None and plain(got) else None,
                 f"stored: {t.show(got, 4) if got is not None else None}", e.loc)


def plain(x):
    """Built from the given values and constants only."""
    return x.op in ("sym", "const") or x.op in ("tuple", "list", "min", "max") and all(plain(y) for y in x.args) or \
        x.op == "poly" and all(plain(y) for m in t.poly_of(x) for y, _ in m)


def term(b, v):
    if isinstance(v, Val):
        return sym(b.fresh())
    if isinstance(v, tuple):
        return mk("tuple", *[term(b, x) for x in v])
    if isinstance(v, list):
        return mk("list", *[term(b, x) for x in v])
    raise Undecided("value")


# ---------------------------------------------------------------- P16
ADAPT = "from synthpix.utils import input_check_flow_field_adapter as f\n"
GEN = "from synthpix.data_generate import input_check_gen_img_from_flow as f\n"
APPLY = "from synthpix.apply import input_check_apply_flow as f\n"
SPEC = "synthpix.types:ImageGenerationSpecification"


def adapter_args():
    return dict(flow_field=array(posint(), posint(), posint(), num(2)), new_flow_field_shape=(posint(), posint()), image_shape=(posint(), posint()),
                img_offset=(nonneg(), nonneg()), resolution=pos(), res_x=pos(), res_y=pos(), position_bounds=(pos(), pos()),
                position_bounds_offset=(nonneg(), nonneg()), batch_size=posint(), output_units="pixels", dt=pos(), zero_padding=(ints(0), ints(0)))


def adapter_valid():
    yield "any valid arguments", {}
    yield "measure units", {"output_units": "measure units per second"}
    yield "integers", {"img_offset": (ints(0), ints(0)), "resolution": posint(), "res_x": posint(), "res_y": posint(), "position_bounds": (posint(), posint()),
                       "position_bounds_offset": (ints(0), ints(0)), "dt": posint()}
    yield "no offset, no padding", {"img_offset": (num(0), num(0)), "position_bounds_offset": (num(0), num(0)), "zero_padding": (num(0), num(0))}
    yield "padding in one direction only", {"zero_padding": (num(0), num(3))}
    yield "one by one", {"new_flow_field_shape": (num(1), num(1)), "image_shape": (num(1), num(1)), "batch_size": num(1)}


def bad_pair(name, good, cases, what="pair"):
    for k in (0, 1):
        for n, v in cases:
            s = [good, good]
            s[k] = v
            yield f"{name}[{k}]: {n}", {name: tuple(s)}
    yield f"{name}: three entries", {name: (good, good, good)}
    yield f"{name}: one entry", {name: (good,)}


def adapter_invalid():
    yield "flow_field: a number", {"flow_field": num(1.0)}
    yield "flow_field: a list", {"flow_field": [num(1.0)]}
    yield "flow_field: three axes", {"flow_field": array(posint(), posint(), num(2))}
    yield "flow_field: five axes", {"flow_field": array(posint(), posint(), posint(), posint(), num(2))}
    yield "flow_field: three components", {"flow_field": array(posint(), posint(), posint(), ints(3))}
    yield "flow_field: one component", {"flow_field": array(posint(), posint(), posint(), num(1))}
    wrong = [("zero", num(0)), ("negative", neg("int")), ("fractional", reals(-INF, INF)), ("text", txt("1"))]
    for n in ("new_flow_field_shape", "image_shape"):
        yield from bad_pair(n, posint(), wrong)
        yield f"{n}: a list", {n: [posint(), posint()]}
    for n in ("img_offset", "position_bounds_offset"):
        yield from bad_pair(n, nonneg(), [("negative", neg()), ("negative integer", neg("int")), ("text", txt("1"))])
        yield f"{n}: a list", {n: [nonneg(), nonneg()]}
    yield from bad_pair("position_bounds", pos(), [("zero", num(0)), ("negative", neg()), ("text", txt("1"))])
    yield "position_bounds: a list", {"position_bounds": [pos(), pos()]}
    yield from bad_pair("zero_padding", ints(0), [("negative", neg("int")), ("fractional", reals(-INF, INF)), ("text", txt("1"))])
    yield "zero_padding: a list", {"zero_padding": [ints(0), ints(0)]}
    for n in ("resolution", "res_x", "res_y", "dt"):
        for m, v in (("zero", num(0.0)), ("negative", neg()), ("text", txt("1")), ("None", none())):
            yield f"{n}: {m}", {n: v}
    for m, v in (("zero", num(0)), ("negative", neg("int")), ("fractional", reals(-INF, INF)), ("text", txt("1"))):
        yield f"batch_size: {m}", {"batch_size": v}
    yield "output_units: unknown", {"output_units": "metres"}
    yield "output_units: prefix of a unit", {"output_units": "pixel"}
    yield "output_units: a number", {"output_units": num(1)}
    yield "output_units: None", {"output_units": none()}


def gen_args(**par):
    p = dict(batch_size=posint(), image_shape=K.Val("tuple", items=[num(16), num(32)]), img_offset=K.Val("tuple", items=[num(4.0), num(8.0)]),
             seeding_density_range=K.Val("tuple", items=[num(0.25), num(0.5)]), dt=pos())
    p.update(par)
    return dict(flow_field=array(posint(), posint(), posint(), num(2)), parameters=Obj(SPEC, **p), position_bounds=(ints(20), ints(40)),
                flow_field_res_x=pos(), flow_field_res_y=pos())


def gen_valid():
    yield "any valid arguments", {}
    yield "integer resolutions", {"flow_field_res_x": posint(), "flow_field_res_y": posint()}
    yield "image that just fits", {"position_bounds": (num(20), num(40))}
    yield "with a mask", {"mask": array(num(16), num(32))}
    yield "with a histogram", {"histogram": array(num(256), sum=num(512.0))}
    yield "without mask and histogram", {"mask": none(), "histogram": none()}


def gen_invalid():
    yield "flow_field: a number", {"flow_field": num(1.0)}
    yield "flow_field: a list", {"flow_field": [num(1.0)]}
    yield "flow_field: three axes", {"flow_field": array(posint(), posint(), num(2))}
    yield "flow_field: five axes", {"flow_field": array(posint(), posint(), posint(), num(2), num(2))}
    yield "flow_field: three components", {"flow_field": array(posint(), posint(), posint(), ints(3))}
    yield "flow_field: one component", {"flow_field": array(posint(), posint(), posint(), num(1))}
    yield from bad_pair("position_bounds", ints(64), [("zero", num(0)), ("negative", neg("int")), ("fractional", reals(64.0, INF))])
    yield "position_bounds: not high enough", {"position_bounds": (ints(1, 19), ints(40))}
    yield "position_bounds: not wide enough", {"position_bounds": (ints(20), ints(1, 39))}
    yield "position_bounds: swapped", {"position_bounds": (num(40), num(20))}
    for n in ("flow_field_res_x", "flow_field_res_y"):
        for m, v in (("zero", num(0.0)), ("negative", neg()), ("text", txt("1")), ("None", none())):
            yield f"{n}: {m}", {n: v}
    yield "mask: not an array", {"mask": [num(1)]}
    yield "mask: transposed", {"mask": array(num(32), num(16))}
    yield "mask: too small", {"mask": array(num(16), num(31))}
    yield "mask: three axes", {"mask": array(num(16), num(32), num(1))}
    yield "histogram: not an array", {"histogram": [num(1)]}
    yield "histogram: two axes", {"histogram": array(num(256), num(1), sum=num(512.0))}
    yield "histogram: too few bins", {"histogram": array(ints(1, 255), sum=num(512.0))}
    yield "histogram: too many bins", {"histogram": array(ints(257), sum=num(512.0))}
    yield "histogram: too few pixels", {"histogram": array(num(256), sum=Val("float", 0.0, 500.0))}
    yield "histogram: too many pixels", {"histogram": array(num(256), sum=Val("float", 520.0, INF))}


def apply_args():
    return dict(particle_positions=array(posint(), num(2)), flow_field=array(posint(), posint(), num(2)), dt=reals(-INF, INF),
                flow_field_res_x=pos(), flow_field_res_y=pos(), flow_field_res_z=pos())


def apply_valid():
    yield "any valid arguments", {}
    yield "three dimensions", {"particle_positions": array(posint(), num(3)), "flow_field": array(posint(), posint(), num(3))}
    yield "integers", {"dt": ints(-INF, INF), "flow_field_res_x": posint(), "flow_field_res_y": posint(), "flow_field_res_z": posint()}
    yield "no time step", {"dt": num(0.0)}


def apply_invalid():
    yield "particle_positions: a list", {"particle_positions": [num(1.0)]}
    yield "particle_positions: a number", {"particle_positions": num(1.0)}
    yield "particle_positions: one axis", {"particle_positions": array(posint())}
    yield "particle_positions: three axes", {"particle_positions": array(posint(), posint(), num(2))}
    yield "particle_positions: one column", {"particle_positions": array(posint(), num(1))}
    yield "particle_positions: four columns", {"particle_positions": array(posint(), ints(4))}
    yield "flow_field: a list", {"flow_field": [num(1.0)]}
    yield "flow_field: two axes", {"flow_field": array(posint(), num(2))}
    yield "flow_field: four axes", {"flow_field": array(posint(), posint(), posint(), num(2))}
    yield "flow_field: one component", {"flow_field": array(posint(), posint(), num(1))}
    yield "flow_field: four components", {"flow_field": array(posint(), posint(), ints(4))}
    yield "two coordinates, three components", {"flow_field": array(posint(), posint(), num(3))}
    yield "three coordinates, two components", {"particle_positions": array(posint(), num(3))}
    for m, v in (("text", txt("1")), ("None", none())):
        yield f"dt: {m}", {"dt": v}
    for n in ("flow_field_res_x", "flow_field_res_y", "flow_field_res_z"):
        for m, v in (("zero", num(0.0)), ("integer zero", num(0)), ("negative", neg()), ("text", txt("1")), ("None", none())):
            yield f"{n}: {m}", {n: v}


@prop("P16", "The documented domains of the arguments are cut into boxes (types, lengths, number of axes, intervals with their boundaries). Every box is "
             "sent through the checker by abstract interpretation; each branch is decided for the whole box. Valid boxes must reach no raise, "
             "invalid boxes no return and no other exception than ValueError.",
      ["numbers are reals (no NaN)", "a histogram's sum is close to the number of pixels, or differs by more than a thousandth"])
def p16(c):
    for title, pre, base, valid, invalid in (("flow adaptation", ADAPT, adapter_args, adapter_valid, adapter_invalid),
                                             ("image generation", GEN, gen_args, gen_valid, gen_invalid),
                                             ("particle motion", APPLY, apply_args, apply_valid, apply_invalid)):
        with c.group(title + "/valid"):
            for n, ch in valid():
                accept(c, n, checked(c, pre, {**base(), **ch}))
        with c.group(title + "/invalid"):
            for n, ch in invalid():
                reject(c, n, checked(c, pre, {**base(), **ch}))


def checked(c, pre, args):
    return K.run(c, "return f(ARGS)", args, pre=pre)[1]
