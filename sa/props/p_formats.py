"""P27: decoding of the file formats."""
from __future__ import annotations
from ..check import prop
from .. import lib
from .. import terms as t
from .. import histories as H
from ..terms import mk, const, NONE
from ..env import Env, npy, img, arr
from .p_sched import FULL

PILOPS = H.OK_OPS | {"array"}


def known(v):
    return not t.contains(v, lambda y: y.op not in PILOPS or y.op == "shapeop" and y.args[0] != "transpose")


def channel(v, k):
    """Component k (last axis) of an image or flow, as a polynomial of resized planes; None when not understood."""
    if v.op == "stack" and isinstance(v.args[0], int) and k < len(v.args[1]):
        sh = lib.shape_of(v)
        if v.args[0] == -1 or sh and v.args[0] == len(sh) - 1:
            return plane(v.args[1][k])
    if v.op == "poly":
        out = const(0)
        for m, c in t.poly_of(v).items():
            x = const(c)
            for y, e in m:
                z = channel(y, k)
                if z is None:
                    return None
                for _ in range(e):
                    x = t.mul(x, z)
            out = t.add(out, x)
        return out
    if v.op == "array":
        its = lib.enumerate_items(v.args[0])
        return its[k] if its and k < len(its) and t.is_num(its[k]) else None
    if v.op == "setitem":
        key = v.args[1]
        if key.op == "tuple" and lib._cint(key.args[-1]) and all(y is lib.ELL or y is FULL for y in key.args[:-1]):
            return plane(v.args[2]) if key.args[-1].args[0] in (k, k - 2) else channel(v.args[0], k)
        return None
    if v.op in ("const", "sym"):
        return v if v.op == "const" else None
    if v.op == "imresize":
        x = channel(v.args[0], k)
        return None if x is None else resized(x, v.args[1])
    sh = lib.shape_of(v)
    if sh is None or len(sh) != 3:
        return None
    return plane(lib.index(v, mk("tuple", FULL, FULL, const(k))))


def plane(v):
    """Resampling is linear: factors are moved out of it; the kind of resampling is left out."""
    def f(x):
        if x.op == "imresize":
            return resized(plane(x.args[0]), x.args[1])
        return None
    return t.subst(v, f)


def resized(x, size):
    """the resizing of a linear combination of planes"""
    if x.op != "poly":
        return mk("imresize", x, size, NONE)
    out = const(0)
    for m, c in t.poly_of(x).items():
        m = list(m)
        if len(m) != 1 or m[0][1] != 1:
            return mk("imresize", x, size, NONE)
        out = t.add(out, t.mul(const(c), mk("imresize", m[0][0], size, NONE)))
    return out


def same(c, name, got, want):
    if got is None:
        return c.decide(name, None, "not understood")
    if got is want:
        return c.decide(name, True, "")
    return c.decide(name, False if known(got) else None, f"{t.show(got, 6)[:150]} instead of {t.show(want, 6)[:150]}")


def served(c, env, ctor, n=1):
    """The batches of n requests of one sample: [(flow, image1, image2, files)] on every path."""
    I, ex = H.run(c, env, ctor, [1] * n)
    out = []
    for e in ex:
        rs = e.val.args if e.kind == "return" and e.val.op == "tuple" else None
        if rs is None or any(r.op != "tuple" or r.args[0].op != "const" for r in rs):
            out.append((e, None if e.kind == "raise" else ()))
        elif any(r.args[0].args[0] != "batch" for r in rs):
            out.append((e, None))
        else:
            out.append((e, [[H.entry(x, 0) if x is not NONE else NONE for x in r.args[1:4]] for r in e.val.args]))
    return out


def unserved(c, e, rs):
    c.decide("served", False if rs is None and not e.st.guards else None, t.show(e.val, 4)[:200], e.loc)


def shape(c, env, ctor):
    I, ex = c.client(H.IMPORTS + f"\ndef drive():\n    s = {ctor}\n    return s.get_flow_fields_shape()\n", oracle=env.truth,
                     setup=lambda I: I.models.update(env.models()))
    return ex


def shapes(c, name, env, ctor, want):
    for e in shape(c, env, ctor):
        if e.kind == "raise":
            c.decide(name, False if not e.st.guards else None, f"raises {t.show(e.val, 3)[:100]}", e.loc)
            continue
        its = lib.enumerate_items(e.val)
        if its is None or e.st.guards:
            c.decide(name, None, t.show(e.val, 4)[:100], e.loc)
        else:
            ok = len(its) == len(want) and all(a is b for a, b in zip(its, want))
            c.decide(name, True if ok else False if all(x.op in ("const", "sym") for x in its) else None,
                     f"{t.show(e.val, 3)[:80]} instead of {[t.show(x) for x in want]}", e.loc)


@prop("P27", "the decoding functions are interpreted on symbolic files of every layout, size and extension; the resulting planes are compared, "
      "as expressions over the stored arrays, with the documented axes, ratios and pairs",
      ["resampling is linear and keeps planes apart", "h5py, scipy and PIL read what was stored"])
def p27(c):
    sizes = [(8, 4), (8, 12), (16, 4), (16, 12), (4, 2), (4, 4)]
    layouts = [("(height, width, 2)", (8, 4, 2), lambda V, k: lib.index(V, mk("tuple", FULL, FULL, const(k)))),
               ("(2, height, width)", (2, 8, 4), lambda V, k: lib.index(V, const(k)))]
    for kind in ("mat5", "mat73"):
        for lname, lshape, at in layouts:
            for oh, ow in sizes:
                V = arr("V", *lshape)
                for iname, i0, i1 in ((None, None, None), ("images of the flow's size", (8, 4), (8, 4)), ("images of the output size", (oh, ow), (oh, ow)),
                                      ("images of other sizes", (3, 5), (oh, 5)), ("colour images", (8, 4, 3), (oh, ow, 3))):
                    d = {"V": V}
                    if i0:
                        d.update(I0=arr("I0", *i0), I1=arr("I1", *i1))
                    env = Env({"/d/a.mat": {"kind": kind, "data": d}})
                    ctor = f"MATFlowFieldScheduler(['/d/a.mat'], output_shape=({oh}, {ow}){', include_images=True' if i0 else ''})"
                    with c.group(f"{kind} {lname} to {oh}x{ow}" + (f" with {iname}" if iname else "")):
                        for e, rs in served(c, env, ctor):
                            if not rs or e.st.guards:
                                unserved(c, e, rs)
                                continue
                            fl, a, b = rs[0]
                            size = mk("tuple", const(ow), const(oh))
                            for k, comp, ratio in ((0, "x", t.div(const(ow), const(4))), (1, "y", t.div(const(oh), const(8)))):
                                w = at(V, k)
                                if (oh, ow) != (8, 4):
                                    w = t.mul(ratio, mk("imresize", w, size, NONE))
                                same(c, f"{comp} component", channel(fl, k), w)
                            sh = lib.shape_of(fl)
                            c.decide("served shape", None if sh is None else [x for x in sh] == [const(oh), const(ow), const(2)],
                                     f"{[t.show(x) for x in sh or ()]}", e.loc)
                            for x, nm, s0 in ((a, "I0", i0), (b, "I1", i1)):
                                if s0 is None:
                                    same(c, f"no {nm}", x, NONE)
                                else:
                                    w = arr(nm, *s0)
                                    if s0[:2] != (oh, ow):
                                        w = mk("imresize", w, size, NONE)
                                    same(c, nm, plane(x), w)
                        if iname is None:
                            shapes(c, "announced shape", env, ctor, [const(oh), const(ow), const(2)])
    # HDF5: the slices are taken along the second axis
    for n in (1, 2, 3):
        from ..env import hdf5
        for key in ("flow", "a"):
            D = arr("D", *(("X", n, "Z", 2) if key == "flow" else (4, n, 5, 2)))
            env = Env({"/d/a.h5": {"kind": "h5", "data": {key: D}}})
            ctor = "HDF5FlowFieldScheduler(['/d/a.h5'])"
            with c.group(f"hdf5 with {n} slices, dataset {key!r}"):
                for e, rs in served(c, env, ctor, n):
                    if not rs or e.st.guards:
                        unserved(c, e, rs)
                        continue
                    for k, r in enumerate(rs):
                        same(c, f"slice {k}", r[0], lib.index(D, mk("tuple", FULL, const(k))))
                        same(c, "no image", r[1], NONE)
                shapes(c, "announced shape", env, ctor, lib.shape_of(lib.index(D, mk("tuple", FULL, const(0)))))
    # numpy: flow t belongs to the images t-1 and t of its folder
    for names in (["/a/flow_1.npy"], ["/a/flow_10.npy", "/a/flow_9.npy"], ["/b/flow_3.npy", "/a/flow_3.npy"], ["/a/flow_007.npy"], ["flow_2.npy"]):
        files, want = {}, []
        for p in names:
            folder, _, base = p.rpartition("/")
            n = int(base[5:-4])
            j = lambda k: (folder + "/" if folder else "") + f"img_{k}.jpg"
            files[p] = npy(p, 8, 4, 2)
            for k in (n - 2, n - 1, n, n + 1):
                files[j(k)] = img(j(k))
            want.append((files[p]["data"], j(n - 1), j(n)))
        env = Env(files)
        ctor = f"NumpyFlowFieldScheduler({names!r}, include_images=True)"
        with c.group(f"numpy {names}"):
            for e, rs in served(c, env, ctor, len(names)):
                if not rs or e.st.guards:
                    unserved(c, e, rs)
                    continue
                for k, (r, w) in enumerate(zip(rs, want)):
                    same(c, f"flow {k}", r[0], w[0])
                    for x, p, nm in ((r[1], w[1], "first"), (r[2], w[2], "second")):
                        same(c, f"{nm} image {k}", x, mk("imconvert", arr(p, "IH", "IW", 3), "RGB"))
            shapes(c, "announced shape", env, ctor, [const(8), const(4), const(2)])
