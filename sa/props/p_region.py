"""P14: the seeded region."""
from .. import terms as t, lib
from ..terms import mk, const, sym, NONE
from ..check import prop, Undecided
from ..domain import Interval, INF
from ..query import kwd
from ..session import synthetic
from ..settings import boxes, KW, SP, SCH, seq, lst, num

at = lambda o, n: mk("attr", o, n)
el = lambda x, k: mk("index", x, const(k))
R, DT = at(KW, "resolution"), at(SP, "dt")
ROUND = ("toint", "floor", "ceil", "round", "trunc")
EPS = 1e-6


class Axis:
    def __init__(self, k, shape):
        n = "yx"[k]
        self.n, self.k = n, k
        self.H = el(at(SP, "image_shape"), k)
        self.io = el(at(SP, "img_offset"), k)
        self.size = at(KW, f"size_{n}")
        self.vmax, self.vmin = at(KW, f"max_speed_{n}"), at(KW, f"min_speed_{n}")
        self.vp = lib.nary("max", [self.vmax, const(0)])
        self.vn = lib.nary("min", [self.vmin, const(0)])
        self.grid = el(shape, k)


def base_env(axes):
    e = {R: (EPS, INF), DT: (EPS, INF)}
    for a in axes:
        e.update({a.H: (1.0, INF), a.io: (0.0, INF), a.size: (EPS, INF), a.grid: (1.0, INF)})
    return e


def normalise(x):
    """max(0.0, a) and max(0, a) are the same real number."""
    memo = {}

    def f(y):
        if y.op in ("max", "min"):
            return lib.nary(y.op, [fz(t.subst(z, f, memo)) for z in y.args])
        return None

    def fz(z):
        return const(int(z.args[0])) if t.is_num(z) and z.args[0] == int(z.args[0]) else z
    return t.subst(x, f, memo)


def ge(x, y, env, depth=4):
    """Provable x >= y for all inputs of the environment."""
    if x is y:
        return True
    if Interval(lambda z: env.get(z)).ev(t.sub(x, y))[0] >= 0:
        return True
    if depth == 0:
        return False
    d = depth - 1
    if x.op in ("max", "min"):
        return (any if x.op == "max" else all)(ge(a, y, env, d) for a in x.args)
    if y.op in ("max", "min"):
        return (all if y.op == "max" else any)(ge(x, b, env, d) for b in y.args)
    if x.op == "fn" and y.op == "fn" and x.args[0] in ROUND and (x.args[0] == y.args[0] or {x.args[0], y.args[0]} <= {"toint", "floor", "trunc"} or x.args[0] == "ceil"):
        if ge(x.args[1], y.args[1], env, d):
            return True
    if x.op == "fn" and x.args[0] == "ceil" and ge(x.args[1], y, env, d):
        return True
    if x.op == "poly":
        ps = t.poly_of(x)
        for m, c in ps.items():
            if len(m) == 1 and m[0][1] == 1 and c > 0 and m[0][0].op in ("max", "min"):
                mm = m[0][0]
                alts = [t.subst(x, lambda z: a if z is mm else None) for a in mm.args]
                if (any if mm.op == "max" else all)(ge(a, y, env, d) for a in alts):
                    return True
    return False


def witnesses(axes, n):
    """Deterministic sample valuations of the settings (dyadic, so that sums are exact)."""
    seed = 12345
    out = []

    def rnd(xs):
        nonlocal seed
        seed = (seed * 1103515245 + 12345) % (1 << 31)
        return xs[(seed >> 8) % len(xs)]
    for _ in range(n):
        v = {R: rnd((0.5, 1.0, 2.0, 4.0, 8.0)), DT: rnd((0.25, 0.5, 1.0, 2.0))}
        odd = rnd((None, None, None, 0, 1))
        for a in axes:
            fit = a.k != odd
            H = float(rnd((3, 8, 10, 33)))
            mx, mn = rnd((-8.0, -1.0, 0.0, 0.5, 2.75, 6.5)), rnd((-5.25, -2.0, -0.5, 0.0, 0.25, 6.0))
            mn = min(mn, mx)
            vp, vn = max(mx, 0), min(mn, 0)
            need = vp * v[DT]
            io = need + rnd((0.0, 0.0, 1.0, 7.0)) if fit or rnd((True, True, False)) else max(0.0, need - rnd((0.25, 1.0)))
            end = io + H / v[R] - vn * v[DT]
            size = end + rnd((0.0, 1.0, 16.0)) if fit or rnd((True, False)) else end - rnd((0.25, 1.0))
            if size <= 0:
                size = end
            v.update({a.H: H, a.io: io, a.size: size, a.vmax: mx, a.vmin: mn, a.grid: float(rnd((5, 16, 64)))})
        v["diam"] = rnd((0.5, 1.0, 4.0))
        v["hide"] = rnd((0.0, 0.5))
        v["boxes"], v["admitted"] = valuation(axes, v), {}
        out.append(v)
    return out


def valuation(axes, v):
    """A complete typed configuration with this geometry."""
    n2 = lambda f: seq(*(num(f(a)) for a in axes))
    over = {"kw.resolution": num(v[R]), "spec.dt": num(v[DT]), "spec.image_shape": seq(*(num(int(v[a.H])) for a in axes)),
            "spec.img_offset": n2(lambda a: v[a.io]), "spec.diameter_ranges": lst(seq(num(0.25), num(v["diam"]))),
            "spec.p_hide_img1": num(v["hide"])}
    for a in axes:
        over.update({f"kw.size_{a.n}": num(v[a.size]), f"kw.max_speed_{a.n}": num(v[a.vmax]), f"kw.min_speed_{a.n}": num(v[a.vmin])})
    return boxes(over, shape=tuple(int(v[a.grid]) for a in axes) + (2,))


def admitted(s, v):
    """Do the conditions of this construction path hold for the valuation? True / False / None"""
    if id(s) not in v["admitted"]:
        v["admitted"][id(s)] = _admitted(s, v["boxes"])
    return v["admitted"][id(s)]


def _admitted(s, B):
    r = True
    for cnd, val in s.st.facts.items():
        tv = B.truth(cnd)
        if tv is None:
            r = None
        elif tv != val:
            return False
    return r


@prop("P14", "The arguments that reach the generator and the adapter are value-numbered over symbolic settings on every construction path. "
             "Margins, containment, the start of the region in flow coordinates and the padding are proved as inequalities between these "
             "terms (interval reasoning on polynomials, monotone rounding); acceptance conditions are read from the path conditions. A "
             "failed proof is reported only with a valuation of the settings for which the extracted terms contradict the property.",
      ["IEEE rounding is not modelled", "margins hold up to rounding to whole pixels", "numbers of pixels are non-negative"])
def p14(c):
    f = c.prog.get("synthpix.sampler.synthetic:SyntheticImageSampler.__init__")
    ss = synthetic(c)
    shape = None
    firsts = []
    for s0 in ss:
        nx = [x for x in s0.step("return next(obj)") if x.kind == "return"]
        if nx:
            firsts.append((s0, nx[0]))
    if not firsts:
        raise Undecided("no batch is produced")
    for s0, s in firsts:
        for y in s.st.trace:
            if y.kind == "call" and t.show(y.callee, 3).endswith("get_flow_fields_shape") and y.result is not None:
                shape = y.result
    if shape is None:
        raise Undecided("the flow field shape is not requested from the scheduler")
    axes = [Axis(k, shape) for k in (0, 1)]
    env = base_env(axes)
    wit = witnesses(axes, 150 if c.tier != "thorough" else 1500)
    admitted_by = {}
    with c.group("seeded region"):
        regions(c, firsts, axes, env, wit, admitted_by, f)
    with c.group("configurations that do not fit"):
        for a in axes:
            fits(c, a, [s0 for s0, _ in firsts], env, wit, admitted_by, f)
    with c.group("configurations that fit"):
        n, unknown = 0, 0
        for v in wit:
            if all(min(lo(a, v), hi(a, v)) >= 0 for a in axes):
                rs = [admitted(s0, v) for s0, _ in firsts]
                n += 1
                unknown += True not in rs and None in rs
                if set(rs) == {False}:
                    c.bad("are accepted", f"rejected: {inputs(v, axes)}", f.loc)
                    break
        else:
            c.decide("are accepted", None if unknown or not n else True, f"{n} valuations of the settings", f.loc)


def regions(c, firsts, axes, env, wit, admitted_by, f):
    seen = set()
    for s0, s in firsts:
        A, G = s.calls("flow_field_adapter"), s.calls("generate_images_from_flow")
        if len(A) != 1 or len(G) != 1:
            c.und("first batch", f"{len(A)} adapter calls, {len(G)} generator calls", f.loc)
            continue
        ak, gk = kwd(A[0]), kwd(G[0])
        par = gk.get("parameters")
        sig = tuple(ak.get(n) for n in sorted(ak) if n not in ("batch_size", "flow_fields"))
        io_gen = s.st.heap.get((par, "img_offset")) if par is not None else None
        same = lambda n, a, b: c.decide(n, True if a is b and a is not None else None if a is None or b is None else False if a.op != "ret" else None,
                                        "" if a is b else f"{t.show(a, 6) if a is not None else a} / {t.show(b, 6) if b is not None else b}", G[0].loc)
        if sig not in seen:
            same("generator and adapter use the same region", gk.get("position_bounds"), ak.get("position_bounds"))
            same("generator and adapter use the same image offset", io_gen, ak.get("img_offset"))
            same("generator and adapter use the same image shape", s.st.heap.get((par, "image_shape")), ak.get("image_shape"))
            same("generator and adapter use the same time step", s.st.heap.get((par, "dt")), ak.get("dt"))
            same("flow grid resolution in y", gk.get("flow_field_res_y"), ak.get("res_y"))
            same("flow grid resolution in x", gk.get("flow_field_res_x"), ak.get("res_x"))
        for a in axes:
            geometry(c, s0, a, ak, env, wit, f, sig in seen, axes)
        seen.add(sig)
        for i, v in enumerate(wit):
            if admitted(s0, v) is True:
                admitted_by.setdefault(i, s0)


def tup(x, k):
    if x is not None and x.op in ("tuple", "list") and len(x.args) == 2:
        return normalise(x.args[k])
    return None


def geometry(c, s0, a, ak, env, wit, f, again, axes):
    k = a.k
    pb, io, pbo, pad = (tup(ak.get(n), k) for n in ("position_bounds", "img_offset", "position_bounds_offset", "zero_padding"))
    res = ak.get("res_" + a.n)
    if None in (pb, io, pbo, pad, res):
        raise Undecided("region arguments are not pairs")
    vp, vn = normalise(a.vp), normalise(a.vn)
    lowd = t.mul(t.mul(vp, DT), R)
    high = t.neg(t.mul(t.mul(vn, DT), R))
    E = io.args[1] if io.op == "fn" and io.args[0] in ROUND else io
    U = t.sub(a.io, t.div(E, R))
    obs = []
    obs.append((f"{a.n}: the region reaches as far before the image as the fastest flow",
                ge(io, lib.fn("toint", lowd), env),
                lambda ev: ev(io) >= int(ev(lowd) + 1e-9)))
    obs.append((f"{a.n}: the image lies inside of the region", ge(pb, t.add(io, a.H), env) and ge(io, const(0), env),
                lambda ev: ev(pb) >= ev(io) + ev(a.H) - 1e-9 and ev(io) >= -1e-9))
    want = t.add(t.add(E, a.H), high)
    obs.append((f"{a.n}: the region reaches as far behind the image as the fastest flow",
                ge(pb, lib.fn("toint", want), env) or ge(pb, t.add(t.add(io, a.H), high), env),
                lambda ev: ev(pb) >= ev(io) + ev(a.H) + int(ev(high) + 1e-9) - 1e-9))
    p1 = lib.nary("max", [const(0), U])
    obs.append((f"{a.n}: the region starts in the flow field where the image offset says", pbo is normalise(p1) or (pbo is U),
                lambda ev: abs(ev(pbo) - max(0.0, ev(a.io) - ev(io) / ev(R))) <= 1.0001 / ev(R)))
    p2 = normalise(lib.fn("ceil", t.mul(lib.nary("max", [const(0), t.neg(U)]), res)))
    p3 = normalise(lib.fn("ceil", t.mul(lib.nary("max", [const(0), t.neg(U)]), normalise(res))))
    obs.append((f"{a.n}: the flow is extended as far as the region leaves it", pad in (p2, p3),
                lambda ev: max(0.0, ev(io) / ev(R) - ev(a.io)) * ev(res) - 1e-6 <= ev(pad) <= (max(0.0, ev(io) / ev(R) - ev(a.io)) + 1 / ev(R)) * ev(res) + 1.000001))
    obs.append((f"{a.n}: grid steps per unit length", res is t.div(a.grid, a.size), lambda ev: abs(ev(res) - ev(a.grid) / ev(a.size)) <= 1e-9 * ev(res)))
    for name, proved, test in obs:
        bad = None
        for v in wit:
            if admitted(s0, v) is not True:
                continue
            I = v["boxes"]

            def ev(x):
                lo, hi = I.ev(x)
                if lo != hi:
                    raise ValueError
                return lo
            try:
                if not test(ev):
                    bad = (v, {n: I.ev(x)[0] for n, x in (("offset", io), ("bounds", pb), ("bounds offset", pbo), ("padding", pad))})
                    break
            except ValueError:
                continue
        if bad:
            v, got = bad
            inp = inputs(v, [a])
            c.bad(name, f"for {inp} the code computes {got}", f.loc)
        elif proved:
            if not again:
                c.ok(name, "", f.loc)
        else:
            c.und(name, f"offset {t.show(io, 5)}; bounds {t.show(pb, 5)}", f.loc)


def lo(a, v):
    return v[a.io] - max(0, v[a.vmax]) * v[DT]


def hi(a, v):
    return v[a.size] - (v[a.io] + v[a.H] / v[R] - min(0, v[a.vmin]) * v[DT])


def inputs(v, axes):
    return {t.show(x, 4): z for x, z in v.items() if isinstance(x, t.T) and (x in (R, DT) or any(x in (a.H, a.io, a.size, a.vmax, a.vmin, a.grid) for a in axes))}


def fits(c, a, sess, env, wit, admitted_by, f):
    vp, vn = normalise(a.vp), normalise(a.vn)
    low = t.sub(a.io, t.mul(vp, DT))
    high = t.sub(a.size, t.add(t.add(a.io, t.div(a.H, R)), t.neg(t.mul(vn, DT))))
    for name, term, fn in (("starts before the flow field", low, lo),
                           ("ends after the flow field", high, hi)):
        bad = None
        for i, v in enumerate(wit):
            if fn(a, v) < -1e-6 and i in admitted_by:
                bad = v
                break
        proved = all(any(implied(cnd, val, term, env) for cnd, val in s.st.facts.items()) for s in sess)
        if bad:
            inp = inputs(bad, [a])
            c.bad(f"{a.n}: a region that {name} is rejected", f"accepted: {inp}", f.loc)
        else:
            c.decide(f"{a.n}: a region that {name} is rejected", True if proved else None, "", f.loc)


def implied(cnd, val, term, env):
    """Does the recorded condition imply term >= 0?"""
    if cnd.op != "cmp":
        return False
    p = normalise(cnd.args[1])
    # p < 0 false, or p <= 0 false: p >= 0;  p < 0 true: -p >= 0
    q = t.neg(p) if val else p
    return ge(term, q, env, 1)
