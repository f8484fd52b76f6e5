"""P06 (key use), P08-P11, P13: the image generator."""
from .. import terms as t
from .. import lib
from ..terms import mk, const, sym, NONE
from ..check import prop, Undecided
from ..domain import Interval, equal, source_leaf, differs, INF
from ..query import only_return, calls, kwd, rets_of, retname, unwrap_vmap, factors, draws_in, callee_name
from .p_motion import gen_setup, comp, images

GEN = "synthpix.data_generate:generate_images_from_flow"
PAR = sym("parameters")
ONE = const(1)


def par(name, *ks):
    x = mk("attr", PAR, name)
    for k in ks:
        x = mk("index", x, const(k))
    return x


def per_sample(x):
    """Value for one sample of a quantity reported per batch."""
    if x.op == "vmap":
        return x.args[0]
    if x.op == "index" and x.args[1].op != "tuple" and elementwise(x.args[1]):
        return mk("index", x.args[0], t.subst(x.args[1], lambda y: y.args[0] if y.op == "vmap" else None))
    if x.op != "vmap" and elementwise(x):
        return t.subst(x, lambda y: y.args[0] if y.op == "vmap" else None)
    if x.op == "draw":
        return mk("row", x)
    if x.op in ("min", "max"):
        return mk("row", x)
    return mk("row", x)


def elementwise(x):
    """Is this computed entry by entry from values per sample?"""
    if x.op == "vmap":
        return True
    if x.op not in ("poly", "min", "max", "fn", "clip", "cmp", "ite", "not", "and", "or", "mod", "floordiv"):
        return False
    subs = [y for y in t.children(x) if t.contains(y, lambda z: z.op == "vmap")]
    return bool(subs) and all(elementwise(y) for y in subs)


def unrow(x):
    while x.op == "row":
        x = x.args[0]
    return x


# ------------------------------------------------------------------ bounds

def le(x, hi):
    """x <= hi for every value of the inputs (True) or unknown (None)."""
    if x is hi:
        return True
    if x.op == "min":
        return True if any(le(y, hi) for y in x.args) else None
    if x.op == "max":
        return True if all(le(y, hi) for y in x.args) else None
    if x.op == "ite":
        return True if le(x.args[1], hi) and le(x.args[2], hi) else None
    if x.op == "draw" and x.args[0] == "uniform":
        return le(dict(x.args[2])["maxval"], hi)
    if x.op in ("row", "vmap"):
        return le(x.args[0], hi)
    return None


def ge(x, lo):
    if x is lo:
        return True
    if x.op == "max":
        return True if any(ge(y, lo) for y in x.args) else None
    if x.op == "min":
        return True if all(ge(y, lo) for y in x.args) else None
    if x.op == "ite":
        return True if ge(x.args[1], lo) and ge(x.args[2], lo) else None
    if x.op == "draw" and x.args[0] == "uniform":
        return ge(dict(x.args[2])["minval"], lo)
    if x.op in ("row", "vmap"):
        return ge(x.args[0], lo)
    return None


def within(x, lo, hi):
    """lo <= x <= hi, given lo <= hi.  A clip is min(hi, max(lo, x)) or max(lo, min(hi, x))."""
    def up(x):
        if x is lo:
            return True
        if x.op == "max":
            return all(up(y) for y in x.args)
        if x.op == "min":
            return any(up(y) for y in x.args)
        if x.op == "ite":
            return up(x.args[1]) and up(x.args[2])
        if x.op == "draw" and x.args[0] == "uniform":
            return up(dict(x.args[2])["maxval"])
        return x is hi

    def dn(x):
        if x is hi:
            return True
        if x.op == "min":
            return all(dn(y) for y in x.args)
        if x.op == "max":
            return any(dn(y) for y in x.args)
        if x.op == "ite":
            return dn(x.args[1]) and dn(x.args[2])
        if x.op == "draw" and x.args[0] == "uniform":
            return dn(dict(x.args[2])["minval"])
        return x is lo
    return (True if up(x) else None), (True if dn(x) else None)


def draw_env(normal, uniform, over):
    """Interval environment: random draws take a possible outcome; `over` maps inputs to intervals."""
    memo = {}

    def env(x, I=None):
        for f in over:
            r = f(x)
            if r is not None:
                return r
        if x.op == "draw":
            n, ps = x.args[0], dict(x.args[2])
            if n == "normal":
                return (normal, normal)
            if n == "uniform":
                a, b = iv.ev(ps["minval"]), iv.ev(ps["maxval"])
                if a[0] == a[1] and b[0] == b[1] and abs(a[0]) != INF and abs(b[0]) != INF:
                    v = a[0] + uniform * (b[0] - a[0])
                    return (v, v)
                return (min(a[0], b[0]), max(a[1], b[1]))
            if n == "bernoulli":
                return (0.0, 1.0)
        return None
    iv = Interval(env)
    return iv


# ------------------------------------------------------------------ P08

@prop("P08", "Interval evaluation of every returned image over all inputs (any particle image, any noise draw, mask in {0,1}, any "
             "target histogram) must be enclosed in [0, 255]; it is refuted only by a box of inputs whose whole enclosure lies outside.",
      ["NaN inputs are not modelled"])
def p08(c):
    BOX = [("bright image", 1000.0, 0.0, 0.0), ("large mean", 0.0, 1000.0, 0.0), ("low image", -1000.0, 0.0, 0.0), ("large normal noise", 0.0, 0.0, 1000.0),
           ("large negative noise", 0.0, 0.0, -1000.0)]

    def verdict(val, name, where, imgs=()):
        iv = draw_env_all([lambda x: (0.0, 1.0) if x is sym("mask") else None])
        lo, hi = iv.ev(val)
        if lo >= 0 and hi <= 255:
            c.ok(name, f"enclosure [{lo:g}, {hi:g}]", where)
            return
        for lab, im, mean, nz in BOX:
            def over(x):
                if x in imgs or x is sym("image") or (x.op == "ret" and (retname(x) or "").endswith("img_gen_from_data")) or x.op == "atop":
                    return (im, im)
                if x is sym("mask"):
                    return (1.0, 1.0)
                if x in (par("noise_gaussian_mean"), sym("noise_gaussian_mean")):
                    return (mean, mean)
                if x in (par("noise_gaussian_std"), sym("noise_gaussian_std")):
                    return (1.0, 1.0) if nz else (0.0, 0.0)
                if x in (par("noise_uniform"), sym("noise_uniform")):
                    return (0.0, 0.0)
                return None
            l2, h2 = draw_env(nz, 0.5, [over]).ev(val)
            if l2 > 255 or h2 < 0:
                c.bad(name, f"with {lab}: values in [{l2:g}, {h2:g}]", where)
                return
        c.und(name, f"enclosure [{lo:g}, {hi:g}]", where)

    with c.group("noise stage"):
        f = c.prog.get("synthpix.generate:add_noise_to_image")
        I, ex = c.exits("synthpix.generate:add_noise_to_image")
        verdict(only_return(c, ex, f.name).val, "noisy image", f.loc)
    with c.group("rendering"):
        f = c.prog.get("synthpix.generate:img_gen_from_data")
        I, ex = c.exits("synthpix.generate:img_gen_from_data", kwargs=dict(clip=const(True)))
        verdict(only_return(c, ex, f.name).val, "clipped rendering", f.loc)
    for lab, kw in (("plain", {}), ("masked", dict(mask=sym("mask"))), ("histogram matched", dict(histogram=sym("histogram"))),
                    ("masked and histogram matched", dict(mask=sym("mask"), histogram=sym("histogram")))):
        with c.group(f"generated pair, {lab}"):
            f, I, e = gen_setup(c, opaque=("img_gen_from_data", "apply_flow_to_particles"), **kw)
            for k, im in enumerate(images(e) or ()):
                verdict(im, f"image {k + 1}", f.loc)


def draw_env_all(over):
    """All outcomes of the random draws."""
    def env(x):
        for f in over:
            r = f(x)
            if r is not None:
                return r
        if x.op == "draw":
            n, ps = x.args[0], dict(x.args[2])
            if n == "uniform":
                a, b = iv.ev(ps["minval"]), iv.ev(ps["maxval"])
                return (min(a[0], b[0]), max(a[1], b[1]))
            if n == "bernoulli":
                return (0.0, 1.0)
            return (-INF, INF)
        return None
    iv = Interval(env)
    return iv


# ------------------------------------------------------------------ P09

RANGES = {"diameters_x": "diameter_ranges", "diameters_y": "diameter_ranges", "rho": "rho_ranges", "intensities": "intensity_ranges"}
REPORT = {"diameter_ranges": "diameter_ranges", "rho_ranges": "rho_ranges", "intensity_ranges": "intensity_ranges"}


def strip_visibility(x):
    """Drop 0/1 factors (visibility, hiding) of a product; returns (value, dropped)"""
    fs = factors(x)
    if fs is None:
        return x, []
    co, ats = fs
    drop = [a for a, e in ats if e == 1 and (a.op in ("cmp", "eq", "eq0", "not", "and", "or") or a.op == "draw" and a.args[0] == "bernoulli" or
                                             a.op in ("ite",) and all(t.is_const(y, 0, 1, True, False) for y in a.args[1:]))]
    v = const(co) if co != 1 else ONE
    v = t.from_poly({(): co})
    for a, e in ats:
        if a in drop:
            continue
        v = t.mul(v, t.power(a, const(e)))
    return v, drop


def reported(e):
    v = e.val.args[2] if e.val.op == "tuple" and len(e.val.args) == 3 else None
    if v is None:
        return {}
    if v.op == "obj":
        return {k[1]: x for k, x in e.st.heap.items() if k[0] is v}
    if v.op == "ret":
        return dict(v.args[2])
    return {}


@prop("P09", "Each particle parameter handed to the renderer (four parameters, two frames) must be enclosed by the two ends of one "
             "range of the requested list of ranges of that parameter, and that very range (same random choice) must be the one "
             "reported for the sample; the density must be enclosed by its range, decide the number of visible particles of both frames, "
             "and be the one reported.",
      ["uniform(minval, maxval) stays within its arguments", "ranges satisfy min <= max (P15)"])
def p09(c):
    f, I, e = gen_setup(c)
    rs = calls(e, "img_gen_from_data")
    if len(rs) != 2:
        raise Undecided(f"{len(rs)} rendering steps")
    rep = reported(e)
    for fr, r in enumerate(rs):
        kw = kwd(r)
        for p, rng in RANGES.items():
            with c.group(f"frame {fr + 1} {p}"):
                v = kw.get(p)
                if v is None:
                    raise Undecided("argument not recognised")
                if p == "intensities":
                    v, _ = strip_visibility(v)
                rows = sorted({y for y in t.walk(v) if y.op == "index" and y.args[0] is mk("attr", PAR, rng) and not t.is_num(y.args[1])}, key=lambda z: z.id)
                fixed = [y for y in t.walk(v) if y.op == "index" and y.args[0] is mk("attr", PAR, rng) and t.is_num(y.args[1])]
                own = [y for y in rows]
                used = rep.get(REPORT[rng])
                used = per_sample(used) if used is not None else None
                if len(own) > 1:
                    # the ends of all ranges next to the one range that was chosen at random
                    drawn = [y for y in own if y.args[1].op == "draw"]
                    if len(drawn) == 1 and all(y in drawn or whole_column(y) for y in own):
                        own = drawn
                if len(own) != 1:
                    if fixed and used is not None and used not in fixed and used.op == "index" and not t.is_num(used.args[1]):
                        c.bad("reported range is the one used", f"uses {t.show(fixed[0], 4)}, reports {t.show(used, 4)}", r.loc)
                        continue
                    other = [y for n in set(RANGES.values()) - {rng} for y in t.walk(v) if y.op == "index" and y.args[0] is mk("attr", PAR, n)]
                    if other and not own:
                        c.bad("range of the parameter", f"drawn from {t.show(other[0], 3)}", r.loc)
                        continue
                    raise Undecided(f"{len(own)} ranges used: {t.show(v, 5)}")
                rr = own[0]
                lo, hi = mk("index", rr, const(0)), mk("index", rr, const(1))
                up, dn = within(v, lo, hi)
                for nm, ok in (("upper end", up), ("lower end", dn)):
                    if ok is None:
                        ok = refute_range(v, rr, nm)
                    c.decide(f"stays within the {nm} of its range", ok, t.show(v, 5), r.loc)
                if used is None:
                    c.und("reported range", "not found in the result", f.loc)
                else:
                    v2 = True if used is rr else None
                    if v2 is None:
                        a, b = [y for y in t.walk(used) if y.op == "draw"], [y for y in t.walk(rr) if y.op == "draw"]
                        if used.op == "index" and (used.args[0] is not rr.args[0] and used.args[0].op == "attr" or set(a) != set(b) or t.is_num(used.args[1]) != t.is_num(rr.args[1])):
                            v2 = False
                    c.decide("reported range is the one used", v2, f"used {t.show(rr, 4)}, reported {t.show(used, 4)}", f.loc)
                d = rr.args[1]
                if d.op == "draw" and d.args[0] == "randint":
                    ps = dict(d.args[2])
                    n = mk("call", "len", (mk("attr", PAR, rng),), ())
                    hi_ok = ps["maxval"] is n or (None if not (t.is_num(ps["maxval"]) or ps["maxval"].op in ("call", "poly")) else
                                                  equal(ps["maxval"], n, lambda z: source_leaf(z) or z.op == "call"))
                    c.decide("choice over all ranges: low end", equal(ps["minval"], const(0), source_leaf), ps["minval"], f.loc)
                    c.decide("choice over all ranges: high end", hi_ok, ps["maxval"], f.loc)
                else:
                    c.und("random choice of the range", d, f.loc)
    with c.group("seeding density"):
        dens = rep.get("seeding_densities")
        if dens is None:
            raise Undecided("not found in the result")
        lo, hi = par("seeding_density_range", 0), par("seeding_density_range", 1)
        x = dens
        # clipping below at 0 keeps the lower end: densities are non-negative
        up, _ = within(x, lo, hi)
        dn = lower_density(x, lo)
        for nm, ok in (("upper end", up), ("lower end", dn)):
            if ok is None:
                ok = refute_density(x, lo, hi, nm)
            c.decide(f"reported density within the {nm} of its range", ok, t.show(x, 5), f.loc)
        row = lib.row(dens)
        pb = [mk("index", sym("position_bounds"), const(k)) for k in (0, 1)]
        for fr, r in enumerate(rs):
            v = kwd(r).get("intensities")
            _, drop = strip_visibility(v)
            vis = [a for a in drop if a.op == "cmp"]
            if len(vis) != 1:
                c.und(f"frame {fr + 1}: number of visible particles", t.show(v, 4), r.loc)
                continue
            a = vis[0]
            ar = [y for y in t.walk(a) if y.op == "arange"]
            if a.op != "cmp" or len(ar) != 1:
                c.und(f"frame {fr + 1}: number of visible particles", a, r.loc)
                continue
            k, D = sym("k"), sym("density")
            a2 = t.subst(a, lambda y: k if y is ar[0] else D if y in (row, dens) else None)
            want = t.compare("<", k, lib.fn("floor", t.mul(t.mul(pb[0], pb[1]), D)))
            v = True if a2 is want else None
            if v is None:
                # as many visible particles as pixels * density (up to rounding)
                p, q = a2.args[1], want.args[1]
                env = lambda y, kk: (12.0, 12.0) if y is pb[0] else (9.0, 9.0) if y is pb[1] else (0.25, 0.25) if y is D else None
                if differs(t.sub(p, q), const(0), source_leaf, env):
                    I2 = Interval(lambda y: env(y, 0) or ((5.0, 5.0) if source_leaf(y) else None))
                    d = I2.ev(t.sub(p, q))
                    v = False if d[0] > 1.5 or d[1] < -1.5 else None
            n = ar[0].args[1]
            cap = t.mul(t.mul(pb[0], pb[1]), hi)
            v5 = True if n in (lib.fn("toint", cap), lib.fn("floor", cap), lib.fn("ceil", cap)) or t.add(lib.fn("toint", cap), ONE) is n else None
            if v5 is None:
                env = lambda y: (5.0, 5.0) if y in (par("image_shape", 0), par("image_shape", 1)) else (12.0, 12.0) if y is pb[0] else (9.0, 9.0) if y is pb[1] else (0.125, 0.125) if y is lo else (0.25, 0.25) if y is hi else None
                l5, h5 = Interval(env).ev(n)
                v5 = False if h5 < 27 else None
            c.decide(f"frame {fr + 1}: enough particles for the maximal density", v5, n, r.loc)
            c.decide(f"frame {fr + 1}: visible particles = floor(pixels * reported density)", v, a2, r.loc)


def lower_density(x, lo):
    if x is lo:
        return True
    if x.op == "max":
        return True if any(lower_density(y, lo) for y in x.args) else None
    if x.op == "min":
        return True if all(lower_density(y, lo) or y is par("seeding_density_range", 1) for y in x.args) else None
    if x.op == "draw" and x.args[0] == "uniform":
        return lower_density(dict(x.args[2])["minval"], lo)
    return None


def whole_column(y):
    """ranges[..., k] or ranges[:, k]"""
    i = y.args[1]
    return i.op == "tuple" and len(i.args) == 2 and t.is_num(i.args[1]) and (t.is_const(i.args[0], Ellipsis) or i.args[0].op in ("ellipsis", "slice"))


def refute_range(v, rr, end):
    lo, hi = mk("index", rr, const(0)), mk("index", rr, const(1))

    def over(x):
        if x is lo:
            return (10.0, 10.0)
        if x is hi:
            return (20.0, 20.0)
        if x.op == "index" and x.args[0].op == "index" and x.args[0].args[0].op == "attr" and x.args[0].args[0].args[0] is PAR:
            return (10.0, 10.0) if t.is_const(x.args[1], 0) else (20.0, 20.0)
        if x.op == "index" and x.args[0].op == "attr" and x.args[0].args[0] is PAR and x.args[0].args[1].endswith("_ranges"):
            return (10.0, 10.0) if t.is_const(x.args[1], 0) else (20.0, 20.0)
        k = None
        if x.op == "reduce" and x.args[1].op == "index" and x.args[1].args[0] is rr.args[0] and whole_column(x.args[1]):
            k = t.cval(x.args[1].args[1].args[-1])
        elif x.op == "reduce" and x.args[1].op == "map" and x.args[1].args[1] is rr.args[0] and x.args[1].args[0].op == "index" and x.args[1].args[0].args[0].op == "elem":
            k = t.cval(x.args[1].args[0].args[1])
        if k is not None:
            # three ranges: 1..5, the chosen one, 30..40
            return {("max", 1): (40.0, 40.0), ("min", 0): (1.0, 1.0), ("max", 0): (30.0, 30.0), ("min", 1): (5.0, 5.0)}.get((x.args[0], k))
        if source_leaf(x) and x.op == "attr" and x.args[1].endswith("_var"):
            return (400.0, 400.0)
        return None
    for nz in (-9.0, 0.0, 9.0):
        for u in (0.0, 0.25, 0.5, 0.9, 0.999):
            l, h = draw_env(nz, u, [over]).ev(v)
            if end == "upper end" and l > 20 + 1e-9 or end == "lower end" and h < 10 - 1e-9:
                return False
    return None


def refute_density(x, lo, hi, end):
    for a, b in ((0.1, 0.2), (0.001, 0.002), (3.0, 4.0)):
        over = lambda y: (a, a) if y is lo else (b, b) if y is hi else None
        for u in (0.0, 0.5, 0.999):
            l, h = draw_env(0.0, u, [over]).ev(x)
            if end == "upper end" and l > b + 1e-9 or end == "lower end" and h < a - 1e-9:
                return False
    return None


# ------------------------------------------------------------------ P10

def of_pair(b, parts, k):
    """An elementwise expression of the pair itself -> of its k-th component"""
    hidden = [sym("#0"), sym("#1")]
    b = t.subst(b, lambda y: hidden[parts.index(y)] if y in parts else None)
    b = t.subst(b, lambda y: parts[k] if y is parts[0].args[0] else None)
    return t.subst(b, lambda y: parts[hidden.index(y)] if y in hidden else None)


@prop("P10", "The two rendering steps of a pair are compared argument by argument: same particle population (uniform over the whole "
             "rendered area, same visibility), each frame hidden with its own probability, second-frame parameters = first-frame "
             "parameters + normal draw * sqrt(own variance) before clipping, both rendered over the position bounds and cropped to the "
             "same window of image size at the image offset, both given the requested noise levels and one common maximal diameter.",
      ["random generators have the documented distributions"])
def p10(c):
    f, I, e = gen_setup(c)
    rs = calls(e, "img_gen_from_data")
    if len(rs) != 2:
        raise Undecided(f"{len(rs)} rendering steps")
    k1, k2 = (kwd(r) for r in rs)
    pb = [mk("index", sym("position_bounds"), const(k)) for k in (0, 1)]
    with c.group("particle positions"):
        p = k1.get("particle_positions")
        for k, ax in enumerate("yx"):
            x = comp(p, k)
            ds = draws_in(x)
            if len(ds) != 1 or ds[0].args[0] != "uniform":
                c.und(f"{ax}: uniform over the rendered area", x, rs[0].loc)
                continue
            for end, u in (("low", 0.0), ("high", 1.0)):
                U = sym("U")
                ps = dict(ds[0].args[2])
                val = t.subst(x, lambda y: U if (y is ds[0] or y.op == "index" and y.args[0] is ds[0]) else None)
                lo, hi = ps["minval"], ps["maxval"]
                lo, hi = (comp(b, k) if t.is_seq(b) else of_pair(b, pb, k) for b in (lo, hi))
                at = t.subst(val, lambda y: (lo if end == "low" else hi) if y is U else None)
                c.decide(f"{ax}: {end} end of the area", equal(at, const(0) if end == "low" else pb[k], source_leaf), at, rs[0].loc)
            # a separate coordinate per axis
        a = [t.show(comp(p, k), 30) for k in (0, 1)]
        cols = [[y for y in t.walk(comp(p, k)) if y.op == "index" and y.args[0].op == "draw"] for k in (0, 1)]
        dd = [draws_in(comp(p, k)) for k in (0, 1)]
        if dd[0] and dd[1]:
            same = dd[0] == dd[1] and cols[0] and cols[1] and cols[0] == cols[1]
            same = same or (dd[0] == dd[1] and not cols[0] and not cols[1])
            c.decide("y and x are drawn separately", not same, "", rs[0].loc)
    with c.group("visibility"):
        vis, hid = [], []
        for kw in (k1, k2):
            _, drop = strip_visibility(kw.get("intensities"))
            vis.append([a for a in drop if a.op == "cmp"])
            hid.append([a for a in drop if a.op == "draw"])
        if all(len(v) == 1 for v in vis):
            same = vis[0][0] is vis[1][0]
            c.decide("same particles exist in both frames", same or None, "", rs[0].loc)
        else:
            n = [len(v) for v in vis]
            c.decide("same particles exist in both frames", False if sorted(n) == [0, 1] else None, f"{n} visibility conditions", rs[1].loc)
        for k in (0, 1):
            want = t.sub(ONE, par(f"p_hide_img{k + 1}"))
            if len(hid[k]) == 1:
                p = dict(hid[k][0].args[2])["p"]
                c.decide(f"frame {k + 1} hides with its own probability", equal(p, want, source_leaf), p, rs[k].loc)
            else:
                c.decide(f"frame {k + 1} hides with its own probability", False if not hid[k] and len(hid[1 - k]) in (1, 2) else None,
                         f"{len(hid[k])} hiding draws", rs[k].loc)
        if len(hid[0]) == 1 and len(hid[1]) == 1:
            c.decide("the frames hide independently", hid[0][0].args[1] is not hid[1][0].args[1], "", rs[1].loc)
    with c.group("frame-to-frame changes"):
        vars_ = {"diameters_x": "diameter_var", "diameters_y": "diameter_var", "rho": "rho_var", "intensities": "intensity_var"}
        noises = {}
        for p, var in vars_.items():
            a, b = k1.get(p), k2.get(p)
            if p == "intensities":
                a, b = strip_visibility(a)[0], strip_visibility(b)[0]
            rows = sorted({y for y in t.walk(b) if y.op == "index" and y.args[0].op == "index" and y.args[0].args[0].op == "attr" and y.args[0].args[0].args[0] is PAR},
                          key=lambda z: z.id)
            ns = [y for y in draws_in(b) if y.args[0] == "normal" and y not in draws_in(a)]
            if len(ns) != 1:
                if b is a:
                    c.bad(f"{p} varies between frames", "unchanged", rs[1].loc)
                elif ns and all(change_differs(b, t.add(a, t.mul(n, lib.fn("sqrt", par(var))))) for n in ns):
                    c.bad(f"{p} of frame 2 = frame 1 + normal * sqrt({var})", t.show(b, 6), rs[1].loc)
                else:
                    c.und(f"{p} varies between frames", f"{len(ns)} normal draws", rs[1].loc)
                continue
            N = sym("n01")
            noises[p] = ns[0]
            # inside the range nothing is clipped: look at the innermost value
            x = unclip(b, rows, ns[0])
            A = sym("first_frame_value")
            x2 = t.subst(x, lambda y: A if y is a else N if y is ns[0] else None)
            if a.op not in ("draw", "sym", "min", "max"):
                x2 = t.subst(t.add(t.sub(x, a), A), lambda y: N if y is ns[0] else None)
            want = t.add(A, t.mul(N, lib.fn("sqrt", par(var))))
            v = equal(x2, want, source_leaf)
            if v is False and t.contains(x2, lambda y: y.op in ("draw",)):
                v = None
            c.decide(f"{p} of frame 2 = frame 1 + normal * sqrt({var})", v, x2, rs[1].loc)
        ks = {}
        for p, d in noises.items():
            ks.setdefault(d.args[1], []).append(p)
        c.decide("parameters vary independently", all(len(v) == 1 for v in ks.values()) if noises else None,
                 "; ".join(",".join(v) for v in ks.values()), rs[1].loc)
    with c.group("window"):
        for k, kw in enumerate((k1, k2)):
            s = kw.get("image_shape")
            v = [equal(lib.index(s, const(j)), pb[j], source_leaf) for j in (0, 1)] if s is not None else [None]
            c.decide(f"frame {k + 1} is rendered over the position bounds", False if False in v else None if None in v else True, s, rs[k].loc)
        md = [kw.get("max_diameter") for kw in (k1, k2)]
        c.decide("common patch size", True if md[0] is md[1] else None, md[0], rs[0].loc)
        for k, m in enumerate(md):
            c.decide(f"frame {k + 1}: patch sized by the largest requested diameter", largest_diameter(m), m, rs[k].loc)
        adds = calls(e, "add_noise_to_image")
        if len(adds) != 2:
            raise Undecided(f"{len(adds)} noise steps")
        for k, a in enumerate(adds):
            kw = kwd(a)
            im = kw.get("image")
            crop(c, f"frame {k + 1}", im, a.loc)
            for n in ("noise_uniform", "noise_gaussian_mean", "noise_gaussian_std"):
                v = equal(kw.get(n), par(n), source_leaf)
                c.decide(f"frame {k + 1}: {n}", v, kw.get(n), a.loc)
        c.decide("noise of the frames is independent", kwd(adds[0]).get("key") is not kwd(adds[1]).get("key"), "", adds[1].loc)


def change_differs(x, want):
    """x and want differ for some outcome of the draws that is inside of all ranges."""
    memo = {}

    def env(y, k):
        if y.op == "draw":
            i = memo.setdefault(y, len(memo))
            if y.args[0] == "normal":
                return ((0.01 * (i + 1)),) * 2
            if y.args[0] == "uniform" and t.is_num(dict(y.args[2])["minval"]):
                return (0.3 + 0.01 * i,) * 2
            return (14.0 + 0.1 * i,) * 2
        if y.op == "index" and y.args[0].op == "index" and y.args[0].args[0].op == "attr" and y.args[0].args[0].args[0] is PAR:
            return (10.0, 10.0) if t.is_const(y.args[1], 0) else (20.0, 20.0)
        if y.op == "attr" and y.args[0] is PAR and y.args[1].endswith("_var"):
            return (4.0, 4.0)
        return None
    return differs(x, want, lambda y: False, env, rounds=1)


def largest_diameter(m, src=None):
    src = src if src is not None else mk("attr", PAR, "diameter_ranges")
    if m is None:
        return None
    if m.op == "reduce" and m.args[0] == "max" and m.args[1].op == "map":
        el = m.args[1].args[0]
        if el.op == "index" and el.args[0].op == "elem" and el.args[0].args[0] is src:
            return True if t.is_const(el.args[1], 1, -1) else False if t.is_const(el.args[1], 0) else None
        return None
    if m.op == "reduce" and m.args[0] in ("max", "min") and m.args[1] is src or m.op == "reduce" and m.args[0] == "min":
        return False if m.args[0] == "min" else True
    if m.op == "index" and m.args[0].op == "index" and m.args[0].args[0] is src and t.is_num(m.args[0].args[1]):
        return False
    if m.op == "index" and m.args[0].op == "reduce" and m.args[0].args[1] is src and m.args[0].args[2] == ():
        return False                 # the range with the largest lower end
    return None


def unclip(x, ends, noise):
    while x.op in ("min", "max"):
        rest = [y for y in x.args if t.contains(y, lambda z: z is noise)]
        if len(rest) != 1:
            return x
        x = rest[0]
    return x


def crop(c, tag, im, where):
    k = im.args[1] if im is not None and im.op == "index" else None
    if k is None or not (im.args[0].op == "ret"):
        if im is not None and im.op == "ret" and (retname(im) or "").endswith("img_gen_from_data"):
            c.bad(f"{tag}: cropped to the image", "the whole rendered area is returned", where)
        else:
            c.und(f"{tag}: cropped to the image", im, where)
        return
    ks = k.args if k.op == "tuple" else (k,)
    if len(ks) != 2 or any(z.op != "slice" for z in ks):
        c.und(f"{tag}: cropped to the image", k, where)
        return
    for j, (ax, s) in enumerate(zip("yx", ks)):
        off, n = par("img_offset", j), par("image_shape", j)
        v = [equal(s.args[0], off, source_leaf), equal(s.args[1], t.add(off, n), source_leaf), True if s.args[2] is NONE or t.is_const(s.args[2], 1) else None]
        c.decide(f"{tag}: {ax} window is [offset, offset + size)", False if False in v else None if None in v else True, s, where)


# ------------------------------------------------------------------ P11

@prop("P11", "The masked images are value-numbered against the unmasked ones: with mask value 0 the interval enclosure of the pixel "
             "must be exactly 0, and with mask value 1 the value must be identical to the pixel generated without a mask, for both frames.",
      ["histogram matching, which remaps all levels, is not combined with the mask here"])
def p11(c):
    f, I, e0 = gen_setup(c)
    f, I, e1 = gen_setup(c, mask=sym("mask"))
    M = sym("mask")
    a, b = images(e0), images(e1)
    if not a or not b:
        raise Undecided("images not identified")
    for k in (0, 1):
        x = b[k]
        leafs = lambda y: y.op == "ret"
        iv = Interval(lambda y: (0.0, 0.0) if y is M else (1.0, 200.0) if y.op == "ret" else None)
        lo, hi = iv.ev(x)
        v = True if lo == hi == 0 else False if lo > 0 or hi < 0 else None
        c.decide(f"image {k + 1}: masked-out pixels are zero", v, f"[{lo:g}, {hi:g}] {t.show(x, 3)}", f.loc)
        one = t.subst(x, lambda y: ONE if y is M else None)
        v = True if one is a[k] else equal(one, a[k], lambda y: y.op == "ret")
        if v is None:
            iv = Interval(lambda y: (1.0, 1.0) if y is M else (100.0, 200.0) if y.op == "ret" else None)
            lo, hi = iv.ev(x)
            v = False if hi < 100 or lo > 200 else None
        c.decide(f"image {k + 1}: other pixels are unchanged", v, t.show(one, 3), f.loc)


# ------------------------------------------------------------------ P13

@prop("P13", "The histogram matching routine is value-numbered; its result must be a level looked up in the cumulative target "
             "histogram at the source's cumulative frequency (left search), both cumulatives normalised by their own last entry, over 256 "
             "unit bins, with every index enclosed in [0, 255]; the generator must match each frame to the given histogram, after noise.",
      ["jnp.histogram, digitize and searchsorted behave as documented"])
def p13(c):
    f = c.prog.get("synthpix.utils:match_histogram")
    with c.group("matching"):
        I, ex = c.exits("synthpix.utils:match_histogram", args=[sym("source"), sym("target")])
        v = only_return(c, ex, f.name).val
        match_shape(c, v, f.loc)
    with c.group("use"):
        f2, I, e = gen_setup(c, histogram=sym("histogram"))
        f2, I, e0 = gen_setup(c)
        base = images(e0)
        for k, im in enumerate(images(e) or ()):
            if im.op == "ret" and (retname(im) or "").endswith("match_histogram"):
                kw = dict(im.args[2])
                c.decide(f"image {k + 1} is matched to the given histogram", True if kw.get("template_hist") is sym("histogram") else None, "", f2.loc)
                c.decide(f"image {k + 1}: the finished image is matched", True if kw.get("source") is base[k] else None, "", f2.loc)
            else:
                c.decide(f"image {k + 1} is matched to the given histogram", False if im is base[k] or not t.contains(im, lambda y: y is sym("histogram")) else None, im, f2.loc)


def peel(x):
    while True:
        if x.op == "shapeop" and x.args[0] in ("reshape", "ravel", "astype", "squeeze", "broadcast_to"):
            x = x.args[1]
        elif x.op == "fn" and x.args[0] in ("toint",):
            x = x.args[1]
        elif x.op == "astype":
            x = x.args[0]
        else:
            return x


def cumulative(x):
    """(raw counts, normalised?) of cumsum(h)/cumsum(h)[-1]"""
    fs = factors(x)
    if fs is None:
        return None
    co, ats = fs
    if co != 1:
        return None
    num = [a for a, e in ats if e == 1 and a.op != "inv"]
    den = [a if e == -1 else a.args[0] for a, e in ats if e == -1 or a.op == "inv"]
    if len(num) != 1:
        return None
    cs = num[0]
    return cs, den


def match_shape(c, v, where):
    v = peel(v)
    # a gather from the levels 0..255 is the index itself
    if v.op == "index" and peel(v.args[0]).op == "arange":
        ar = peel(v.args[0])
        ok = t.is_const(ar.args[0], 0) and t.is_const(ar.args[1], 256) and t.is_const(ar.args[2], 1)
        c.decide("256 output levels", ok, ar, where)
        v = peel(v.args[1])
    iv = Interval(lambda x: None)
    lo, hi = iv.ev(v)
    c.decide("output levels within [0, 255]", True if lo >= 0 and hi <= 255 else None, f"[{lo:g}, {hi:g}]", where)
    ss = [y for y in t.walk(v) if is_call(y, "searchsorted")]
    if len(ss) != 1:
        c.und("level lookup", f"{len(ss)} searches: {t.show(v, 4)}", where)
        return
    a = call_args(ss[0], ("a", "v", "side"))
    side = a.get("side")
    c.decide("left search", True if side is None or t.is_const(side, "left") else False if t.is_const(side, "right") else None, side, where)
    T = cumulative(peel(a["a"])) if "a" in a else None
    tgt = sym("target")
    if T is None:
        c.und("target cumulative", a.get("a"), where)
    else:
        cs, den = T
        cs0 = peel(cs)
        if is_red(cs0, "cumsum"):
            c.decide("target cumulative of the target histogram", peel(red_arg(cs0)) is tgt or None, cs0, where)
        elif peel(cs0) is tgt:
            c.bad("target cumulative", "the target histogram is not accumulated", where)
        norm_ok(c, "target", cs, den, where)
    S = a.get("v")
    if S is None or S.op != "index":
        c.und("source frequency", S, where)
        return
    C = cumulative(peel(S.args[0]))
    if C is None:
        c.und("source cumulative", S.args[0], where)
    else:
        cs, den = C
        cs0 = peel(cs)
        ok = None
        if is_red(cs0, "cumsum"):
            h = peel(red_arg(cs0))
            if t.contains(h, lambda y: y is sym("source")):
                ok = True
            elif t.contains(h, lambda y: y is tgt):
                ok = False
        c.decide("source cumulative of the source histogram", ok, cs0, where)
        norm_ok(c, "source", cs, den, where)
    idx = S.args[1]
    lo, hi = iv.ev(idx)
    c.decide("bin index within [0, 255]", True if lo >= 0 and hi <= 255 else None, f"[{lo:g}, {hi:g}]", where)
    dg = [y for y in t.walk(idx) if is_call(y, "digitize")]
    if len(dg) == 1:
        D = sym("bin_number")
        i2 = t.subst(idx, lambda y: D if y is dg[0] else None)
        v3 = None
        for val, want in ((1.0, 0.0), (7.0, 6.0), (256.0, 255.0)):
            I2 = Interval(lambda y: (val, val) if y is D else None)
            l, h = I2.ev(i2)
            if l == h == want:
                v3 = True if v3 is not False else False
            elif l > want or h < want:
                v3 = False
        c.decide("pixel p is looked up in bin floor(p)", v3, i2, where)
        b = call_args(dg[0], ("x", "bins", "right"))
        bn = b.get("bins")
        bn = peel(bn) if bn is not None else None
        c.decide("lookup in unit bins", unit_bins(bn), bn, where)
        hs = [y for y in t.walk(S.args[0]) if is_call(y, "histogram")]
        if len(hs) == 1:
            hb = call_args(hs[0], ("a", "bins", "range")).get("bins")
            hb = peel(hb) if hb is not None else None
            c.decide("counts over unit bins", unit_bins(hb), hb, where)
        else:
            c.und("counts over unit bins", S.args[0], where)
        r = b.get("right")
        c.decide("bins are closed below", True if r is None or t.is_const(r, False) else False if t.is_const(r, True) else None, r, where)
    else:
        c.und("pixel lookup", idx, where)


def unit_bins(b):
    if b is None:
        return None
    if b.op == "arange":
        return t.is_const(b.args[0], 0) and t.is_const(b.args[2], 1) and t.is_const(b.args[1], 257, 256)
    if b.op == "linspace" and all(t.is_num(z) for z in b.args[:3]):
        lo, hi, n = (z.args[0] for z in b.args[:3])
        return lo == 0 and hi - lo == n - 1 and n in (256, 257)
    return None


def norm_ok(c, nm, cs, den, where):
    if len(den) == 1:
        d = den[0]
        if d.op == "index" and peel(d.args[0]) is peel(cs):
            c.decide(f"{nm} cumulative is normalised by its last entry", True if t.is_const(d.args[1], -1, 255) else False if t.is_num(d.args[1]) else None, d, where)
        else:
            c.und(f"{nm} cumulative normalisation", d, where)
    else:
        c.decide(f"{nm} cumulative is normalised by its last entry", False if not den else None, f"{len(den)} divisors", where)


def is_call(x, name):
    if x.op == "call" and isinstance(x.args[0], str):
        return x.args[0].split(".")[-1] == name
    if x.op in ("shapeop", "pure") and x.args[0] == name:
        return True
    return x.op == "ret" and (retname(x) or "").split(".")[-1] == name


def call_args(x, names):
    if x.op == "call":
        pos, kws = x.args[1], x.args[2]
    elif x.op == "ret":
        pos, kws = x.args[1], x.args[2]
    else:
        pos, kws = (x.args[1],) + tuple(a for a in x.args[2] if isinstance(a, t.T)), tuple(a for a in x.args[2] if isinstance(a, tuple))
    d = dict(zip(names, pos))
    d.update({k: v for k, v in kws})
    return d


def is_red(x, name):
    return (x.op == "reduce" and x.args[0] == name) or is_call(x, name)


def red_arg(x):
    return x.args[1] if x.op == "reduce" else (x.args[1][0] if isinstance(x.args[1], tuple) else x.args[1])
