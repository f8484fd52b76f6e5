"""P12: the patch a particle is rendered with."""
from itertools import product
from .. import terms as t
from ..terms import mk, const, sym
from ..check import prop
from ..domain import Region, Interval, differs, leaves, specialisations, specialise, INF
from ..elements import Elements, Unclear, N, ONE
from ..query import only_return, shape_oracle

FN = "synthpix.generate:img_gen_from_data"
P, H, W, MD = sym("P"), sym("H"), sym("W"), sym("max_diameter")
DX, DY, AMP, RHO = (mk("row", sym(n)) for n in ("dx", "dy", "amp", "rho"))
TWO = const(2)


def strip(x, what):
    """The argument of a nested min / max with constants."""
    while x.op in ("min", "max"):
        rest = [y for y in x.args if y.op != "const"]
        if len(rest) != 1:
            return None
        x = rest[0]
    return x


def scatter(x):
    """(image before, (row indices, column indices) each as (array, column or None), operation, values)"""
    if x.op != "atop":
        raise Unclear(f"the image is {x.op}, not an update of an image")
    base, ix, op, v = x.args
    if ix.op == "call" and ix.args[0] is t.sym("tuple") or ix.op == "call" and t.show(ix.args[0]) == "tuple":
        a = ix.args[1][0]
        return base, [(a, 0), (a, 1)], op, v
    if ix.op == "tuple" and len(ix.args) == 2:
        return base, [(a, None) for a in ix.args], op, v
    raise Unclear("the pixels that are written are not understood")


def gaussian(dx, dy):
    """Expected value at an offset from the centre."""
    sx, sy = t.div(DX, TWO), t.div(DY, TWO)
    z = t.sub(t.add(t.div(t.power(dx, TWO), t.power(sx, TWO)), t.div(t.power(dy, TWO), t.power(sy, TWO))),
              t.div(t.mul(t.mul(TWO, RHO), t.mul(dx, dy)), t.mul(sx, sy)))
    return t.mul(AMP, mk("fn", "exp", t.div(t.neg(z), t.mul(TWO, t.sub(ONE, t.power(RHO, TWO))))))


class Patch:
    """Pixel and value written for patch cell (p, q) of a particle."""

    def __init__(self, c, value):
        E = Elements({P: ((N,), (TWO,)), **{sym(n): ((N,),) for n in ("dx", "dy", "amp", "rho")}})
        base, (rr, cc), op, v = scatter(value)
        self.op, self.base = op, base
        sv = E.shape(v)
        sr = E.shape(rr[0])
        if rr[1] is None:
            entry = lambda a, i: E.at(a[0], i)
            dims = sr
        else:
            if len(sr) < 1 or sr[0] != (TWO,):
                raise Unclear("pixel coordinates do not come in pairs")
            entry = lambda a, i: E.at(a[0], [((const(a[1]), TWO),)] + i)
            dims = sr[1:]
        flat = lambda ds: [z for d in ds for z in d if z is not ONE]
        if len(dims) != len(sv) or any(E.trim(a) != E.trim(b) for a, b in zip(dims, sv)):
            if flat(dims) != flat(sv):
                raise Unclear("as many values as pixels")
            raise Unclear("values and pixels are laid out differently")
        sizes = flat(sv)
        if N not in sizes or len(sizes) != 3 or sizes.count(N) != 1:
            raise Unclear("not one patch per particle")
        names = iter((sym("p"), sym("q")))
        idx, self.cells = [], []
        for d in sv:
            i = []
            for z in d:
                if z is ONE:
                    continue
                k = None if z is N else next(names)
                if k is not None:
                    self.cells.append((k, z))
                i.append((k, z))
            idx.append(tuple(i))
        self.row, self.col, self.val = entry(rr, idx), entry(cc, idx), E.at(v, idx)
        self.zero = E.at(base, [((sym("i"), d[0]),) for d in E.shape(base)])
        self.area = E.shape(base)


def rounding(x):
    """Rounded multiples of the largest diameter in a term."""
    return {y for y in t.walk(x) if y.op == "fn" and y.args[0] in ("toint", "floor", "ceil", "round", "trunc")
            and t.contains(y, lambda z: z is MD) and not t.contains(y, lambda z: z.op == "sym" and z is not MD)}


def classes(n, x, size, r):
    """(label, definitions, integers, reals in the unit interval, reals, centre, pixel of the centre)"""
    i, j, f, a = sym(f"{n}_cell"), sym(f"{n}_rest"), sym(f"{n}_frac"), sym(f"{n}_beyond")
    r2 = t.mul(TWO, r)
    # a particle behind the border is rendered just in front of the next pixel
    edge = t.sub(sum_((r, j, ONE)), const(1e-6))
    s = lambda *xs: sum_(xs)
    yield "between pixels", {x: s(r, i, f), size: s(r2, TWO, i, j)}, (i, j), (f,), (), s(r, i, f), s(r, i)
    yield "on a pixel", {x: s(r, i), size: s(r2, ONE, i, j)}, (i, j), (), (), s(r, i), s(r, i)
    yield ("in front of the border", {x: t.sub(r, a), size: s(r2, ONE, j)}, (j,), (), (a,), r, r)
    yield ("behind the border", {x: s(r, j, ONE, a), size: s(r2, ONE, j)}, (j,), (), (a,), edge, s(r, j))


def sum_(xs):
    v = const(0)
    for x in xs:
        v = t.add(v, x)
    return v


def numbers(x, k):
    """Values at which two results are compared: within the domain of the formula."""
    if x is RHO:
        return (0.1 + 0.1 * (k % 5),) * 2
    if x in (DX, DY):
        return (1.5 + 0.5 * (k % 3) + (0.7 if x is DX else 0.0),) * 2
    if x is AMP:
        return (100.0 + k, 100.0 + k)
    if x.op == "sym":
        n = x.args[0]
        if n.endswith("_frac"):
            return (0.2 + 0.07 * k,) * 2 if n[0] == "x" else (0.65 - 0.05 * k,) * 2
        if n in ("p", "q"):
            return (float(1 + (k + (n == "q")) % 3),) * 2
        if n == "radius":
            return (2.0, 2.0)
        if n.endswith(("_cell", "_rest")):
            return (float(3 + k + 2 * (n[0] == "x")),) * 2
        if n.endswith("_beyond"):
            return (1.3 + k, 1.3 + k)
        if n in ("x", "y", "x0", "y0"):
            return (1.0 + 0.3 * k + 0.9 * (n[0] == "x") - 0.4 * (n[-1] == "0"),) * 2
        if n.startswith("sigma"):
            return (1.0 + 0.2 * k + 0.5 * n.endswith("x"),) * 2
        return None
    return None


def value_of(x, k):
    lo, hi = Interval(lambda y: numbers(y, k)).ev(x)
    return lo if lo == hi and abs(lo) != INF else None


def alike(a, b):
    """True: the same term; False: another value at some point; None."""
    if a is b:
        return True
    if t.poly_of(a) is not None and t.poly_of(b) is not None:
        d = t.sub(a, b)
        if d is const(0):
            return True
    for k in range(8):
        u, v = value_of(a, k), value_of(b, k)
        if u is not None and v is not None and abs(u - v) > 1e-5 * (1 + abs(u) + abs(v)):
            return False
    return None


def sgn(R, x):
    return R.sign(x, strict=True)


def holds(R, x):
    """x >= 0 on the family: True; negative on a member: False."""
    x = R.ev(x)
    if sgn(R, x) in ("pos", "nonneg", "zero"):
        return True
    for assign in specialisations(R.ints):
        Rs = specialise(R, assign)
        if sgn(Rs, Rs.ev(t.subst(x, lambda y: assign.get(y)))) == "neg":
            return False
    return None


@prop("P12", "The rendering function is interpreted with symbolic positions, diameters, amplitudes, correlations, image size and largest "
             "diameter; the entries of its scatter (pixel written, value added) are addressed symbolically through stacking, "
             "flattening and transposition. With the particle placed parametrically between pixels, on one, or beyond a border, each "
             "entry must be polynomial-identical to the Gaussian at that pixel, the entries must cover a full square about the "
             "particle's pixel once each, and lie in the image.",
      ["IEEE rounding is not modelled", "The image is at least one patch large, as the property says"])
def p12(c):
    with c.group("the Gaussian"):
        formula(c)
    f = c.prog.get(FN)
    base = dict(particle_positions=P, image_shape=mk("tuple", H, W), max_diameter=MD, diameters_x=sym("dx"), diameters_y=sym("dy"),
                intensities=sym("amp"), rho=sym("rho"))
    I, ex = c.exits(FN, oracle=shape_oracle, kwargs=dict(base, clip=t.FALSE))
    raw = only_return(c, ex, "img_gen_from_data").val
    I, ex = c.exits(FN, oracle=shape_oracle, kwargs=dict(base, clip=t.TRUE))
    clipped = only_return(c, ex, "img_gen_from_data").val
    v = True if clipped is mk("min", const(255), mk("max", const(0), raw)) else None
    core = strip(clipped, "image")
    if v is None and core is raw:
        I0 = {x: Interval(lambda y, z=x: (float(z), float(z)) if y is raw else None).ev(clipped) for x in (-3, 0, 7, 255, 300)}
        want = {-3: 0, 0: 0, 7: 7, 255: 255, 300: 255}
        v = all(a == b == want[x] for x, (a, b) in I0.items())
    c.decide("clipping bounds the values to [0, 255] and changes nothing else", v, t.show(clipped, 3), f.loc)
    try:
        patch = Patch(c, raw)
    except Unclear as u:
        c.und("entries of the image", str(u))
        return
    c.decide("contributions are added", True if patch.op == "add" else False if patch.op in ("set", "max", "min", "multiply", "mul") else None,
             f"the image is updated with {patch.op}", f.loc)
    c.decide("an image without particles is black", alike(patch.zero, const(0)), t.show(patch.zero, 3), f.loc)
    hs = [d[0] for d in patch.area]
    c.decide("the image has the requested shape", True if hs == [H, W] else False if len(hs) == 2 and all(h in (H, W) for h in hs) else None,
             ", ".join(t.show(h, 3) for h in hs), f.loc)
    (p, sp), (q, sq) = patch.cells
    with c.group("size of the patch"):
        for md in (0.4, 1.0, 1.2, 1.5, 2.0, 2.7, 3.0, 4.0, 5.3, 8.0):
            for z, nm in ((sp, "rows"), (sq, "columns")):
                val = Interval(lambda x: (md, md) if x is MD else None).ev(z)
                need = 2 * int(1.5 * md) + 1
                ok = None if val[0] != val[1] else val[0] >= need
                c.decide(f"{nm} of the patch with a largest diameter of {md:g}", ok, f"{val[0]:g} {nm}; {need} reach 1.5 diameters", f.loc)
    rs = rounding(mk("tuple", patch.row, patch.col, patch.val, sp, sq))
    if len(rs) != 1:
        c.und("radius of the patch", f"{len(rs)} roundings of the largest diameter")
        return
    rad = sym("radius")
    turn = {next(iter(rs)): rad}
    sub = lambda x: t.subst(x, lambda y: turn.get(y))
    row, col, val, sp, sq = (sub(x) for x in (patch.row, patch.col, patch.val, sp, sq))
    # half the patch, written with the radius
    half = t.div(t.sub(sp, ONE), TWO)
    if sp is not sq or t.poly_of(half) is None or any(x is not rad for x in leaves(half) if x.op != "const"):
        c.und("radius of the patch", f"{t.show(sp, 4)} by {t.show(sq, 4)} entries")
        return
    Y, X = mk("index", mk("row", P), const(0)), mk("index", mk("row", P), const(1))
    alias = mk("shapeop", "reshape", P, (const(-1), TWO))
    same = {mk("index", mk("row", alias), const(k)): mk("index", mk("row", P), const(k)) for k in (0, 1)}
    row, col, val = (t.subst(x, lambda y: same.get(y)) for x in (row, col, val))
    for (ly, dy, iy, fy, ry, cy, py), (lx, dx, ix, fx, rx, cx, px) in product(classes("y", Y, H, half), classes("x", X, W, half)):
        lab = f"row {ly}, column {lx}"
        R = Region({**dy, **dx}, set(iy) | set(ix) | {rad, p, q}, set(fy) | set(fx), (), None, set(ry) | set(rx))
        gr, gc, gv = R.ev(row), R.ev(col), R.ev(val)
        # the square of pixels about the particle, each once
        v, why = covers(R, gr, gc, p, q, py, px, rad, half)
        c.decide(f"pixels of the patch: {lab}", v, why, f.loc)
        for g, size, n in ((gr, R.ev(H), "row"), (gc, R.ev(W), "column")):
            last = {p: t.sub(t.sub(R.ev(sp), ONE), p), q: t.sub(t.sub(R.ev(sq), ONE), q)}
            lo = inside(R, g, last)
            hi = inside(R, t.sub(t.sub(size, ONE), g), last)
            v = False if False in (lo, hi) else True if lo and hi else None
            c.decide(f"no {n} is written outside of the image: {lab}", v, f"{n} {t.show(g, 4)} of {t.show(size, 4)}", f.loc)
        c.decide(f"value at a pixel: {lab}", alike(gv, gaussian(t.sub(gc, cx), t.sub(gr, cy))), f"got {t.show(gv, 5)}", f.loc)


def inside(R, g, last):
    """g >= 0 for every cell: cells counted from the first or from the last one."""
    res = []
    for flip in product((False, True), repeat=2):
        cells = [k for k, on in zip(last, flip) if on]
        v = holds(R, t.subst(g, lambda y: last[y] if y in cells else None))
        if v:
            return True
        res.append(v)
    # refuted only by a cell of the patch: its first or last
    for corner in product((False, True), repeat=2):
        at = {k: (t.subst(last[k], lambda y: const(0) if y is k else None) if on else const(0)) for k, on in zip(last, corner)}
        if holds(R, t.subst(g, lambda y: at.get(y))) is False:
            return False
    return None


def covers(R, gr, gc, p, q, py, px, rad, half):
    d, e = t.sub(gr, py), t.sub(gc, px)
    want = {t.sub(p, half), t.sub(half, p)}, {t.sub(q, half), t.sub(half, q)}
    if d in want[0] and e in want[1] or d in {t.subst(x, lambda y: q if y is p else None) for x in want[0]} and \
            e in {t.subst(x, lambda y: p if y is q else None) for x in want[1]}:
        return True, "every pixel of the square once"
    for r in (1, 2):
        n = 2 * r + 1
        h = t.subst(half, lambda y: const(r) if y is rad else None)
        if not t.is_num(h) or h.args[0] != r:
            return None, f"half a patch is {t.show(half, 3)}"
        got = []
        for i, j in product(range(n), range(n)):
            at = {p: const(i), q: const(j), rad: const(r)}
            for assign in specialisations(R.ints - {p, q, rad}):
                Rs = specialise(R, {**assign, **at})
                z = [Rs.ev(t.subst(x, lambda y: {**assign, **at}.get(y))) for x in (d, e)]
                break
            if not all(t.is_num(y) for y in z):
                return None, f"pixel ({t.show(gr, 4)}, {t.show(gc, 4)})"
            got.append(tuple(y.args[0] for y in z))
        square = {(i, j) for i in range(-r, r + 1) for j in range(-r, r + 1)}
        if len(set(got)) < len(got):
            return False, f"with radius {r} some pixels are written {len(got) - len(set(got)) + 1} times: {sorted(got)[:6]}"
        if not square <= set(got):
            return False, f"with radius {r} the pixels written are {sorted(set(got))[:6]}… about the particle's"
    return True, "every pixel of the square once, for the radii that were enumerated"


def formula(c):
    fn = "synthpix.generate:gaussian_2d_correlated"
    try:
        f = c.prog.get(fn)
    except KeyError:
        return
    a = {n: sym(n) for n in ("x", "y", "x0", "y0", "sigma_x", "sigma_y", "rho", "amplitude")}
    I, ex = c.exits(fn, kwargs=a)
    got = only_return(c, ex, "gaussian_2d_correlated").val
    dx, dy = t.sub(a["x"], a["x0"]), t.sub(a["y"], a["y0"])
    z = t.sub(t.add(t.div(t.power(dx, TWO), t.power(a["sigma_x"], TWO)), t.div(t.power(dy, TWO), t.power(a["sigma_y"], TWO))),
              t.div(t.mul(t.mul(TWO, a["rho"]), t.mul(dx, dy)), t.mul(a["sigma_x"], a["sigma_y"])))
    exp = t.mul(a["amplitude"], mk("fn", "exp", t.div(t.neg(z), t.mul(TWO, t.sub(ONE, t.power(a["rho"], TWO))))))
    back = {a["rho"]: RHO, a["amplitude"]: AMP}
    s = lambda x: t.subst(x, lambda y: back.get(y))
    c.decide("value of the correlated Gaussian", alike(s(got), s(exp)), t.show(got, 6), f.loc)
