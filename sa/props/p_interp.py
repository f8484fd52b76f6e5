from itertools import product
from .. import terms as t
from ..terms import mk, const, sym
from ..check import prop
from ..domain import Region, same, leaves, family


def axis_regions(name, x, size):
    """The four families of positions along an axis: (label, defs, ints, fracs, cell)

    cell = [(index, weight), ...]: the value that multilinear interpolation has to produce."""
    i, s, f = sym(f"{name}_i"), sym(f"{name}_s"), sym(f"{name}_f")
    one = const(1)
    add, sub = t.add, t.sub
    return [
        ("inside a cell", {x: add(i, f), size: add(add(i, s), const(2))}, (i, s), (f,),
         [(i, sub(one, f)), (add(i, one), f)]),
        ("on a sample", {x: i, size: add(add(i, s), one)}, (i, s), (), [(i, one)]),
        ("beyond the low border", {x: t.neg(add(i, f)), size: add(s, one)}, (i, s), (f,), [(const(0), one)]),
        ("beyond the high border", {x: add(add(s, i), f), size: add(s, one)}, (i, s), (f,), [(s, one)]),
    ]


def leaf_ok_for(arr, params):
    def ok(x):
        if x.op == "sym":
            return True
        if x.op == "index" and x.args[0] is arr:
            k = x.args[1]
            return all(all(y in params for y in leaves(z) if y.op != "const") for z in (k.args if k.op == "tuple" else (k,)))
        return x.op == "const"
    return ok


def check_interp(c, anchor, dims, order):
    """order: names of the axes in index order; params: (array, then coordinates)."""
    f = c.prog.get(anchor)
    names = [a.arg for a in f.node.args.args]
    if len(names) != 1 + dims:
        c.und("signature", f"{anchor} takes {names}")
        return
    arr = sym("V")
    coords = {n: sym(f"at_{n}") for n in "xyz"[:dims]}
    I, ex = c.exits(anchor, args=[arr] + [coords[n] for n in "xyz"[:dims]])
    rets = [e for e in ex if e.kind == "return"]
    if len(rets) != 1:
        c.und("single result", f"{len(rets)} return paths")
        return
    val = rets[0].val
    sizes = {n: mk("index", mk("attr", arr, "shape"), const(k)) for k, n in enumerate(order)}
    regs = [axis_regions(n, coords[n], sizes[n]) for n in order]
    for combo in product(*regs):
        defs, ints, fracs = {}, [], []
        for lab, d, i, fr, cell in combo:
            defs.update(d)
            ints += i
            fracs += fr
        R = Region(defs, ints, fracs)
        exp = const(0)
        for corner in product(*[cell for *_, cell in combo]):
            w = const(1)
            for _, wt in corner:
                w = t.mul(w, wt)
            exp = t.add(exp, t.mul(w, mk("index", arr, mk("tuple", *[ix for ix, _ in corner]))))
        v, got, exp = family(R, val, exp, lambda r: leaf_ok_for(arr, r.params))
        lab = ", ".join(f"{n} {r[0]}" for n, r in zip(order, combo))
        c.decide(f"value at position with {lab}", v,
                 "equals the multilinear combination of the enclosing samples" if v else
                 f"{anchor.split(':')[1]} gives {t.show(got, 6)}, multilinear interpolation gives {t.show(exp, 6)}", f.loc)


@prop("P01", "Each interpolation routine is value-numbered into a polynomial over clamps, floors and samples; for every "
             "combination of position classes per axis (inside a cell, on a sample, beyond either border), written with "
             "non-negative parameters, the clamps and floors are decided by coefficient signs and the remaining polynomial must "
             "be identical to the multilinear combination of the enclosing samples (weights in [0,1] summing to 1).",
      ["IEEE rounding is not modelled: arithmetic is exact over the rationals",
       "indices are evaluated in NumPy/JAX gather semantics for in-range indices only (the analysis shows they are in range)"])
def p01(c):
    with c.group("bilinear"):
        check_interp(c, "synthpix.utils:bilinear_interpolate", 2, "yx")
    with c.group("trilinear"):
        check_interp(c, "synthpix.utils:trilinear_interpolate", 3, "zyx")
