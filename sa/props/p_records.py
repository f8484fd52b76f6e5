"""Records: updates (P19) and pytrees (P20).

The record classes and their fields are read from the source; every class is
built with distinguishable values and driven through its public methods."""
from __future__ import annotations
import ast
from .. import terms as t, lib
from .. import histories as H
from ..check import prop
from ..program import Class
from ..terms import mk, const, sym, NONE, TRUE, FALSE

MOD = "synthpix.types"
# two valid values and the falsy valid ones, per field of the specification
SPEC = {
    "batch_size": ("7", "8", ()), "image_shape": ("(31, 32)", "(33, 34)", ()), "img_offset": ("(5, 6)", "(7.5, 8)", ("(0, 0)",)),
    "seeding_density_range": ("(0.3, 0.4)", "(0.5, 0.6)", ("(0, 0)",)), "p_hide_img1": ("0.3", "0.4", ("0.0", "0")), "p_hide_img2": ("0.5", "0.6", ("0.0", "0")),
    "diameter_ranges": ("[(2.0, 3.0)]", "[(4.0, 5.0), (1.0, 9.0)]", ()), "diameter_var": ("2.5", "3.5", ("0.0", "0")),
    "intensity_ranges": ("[(2.0, 3.0)]", "[(4.0, 5.0), (1.0, 9.0)]", ()), "intensity_var": ("2.75", "3.75", ("0.0", "0")),
    "rho_ranges": ("[(0.25, 0.5)]", "[(-0.5, 0.5), (0.0, 0.0)]", ()), "rho_var": ("2.25", "3.25", ("0.0", "0")), "dt": ("0.5", "0.25", ()),
    "noise_uniform": ("1.5", "2.5", ("0.0", "0")), "noise_gaussian_mean": ("3.5", "4.5", ("0.0", "0")), "noise_gaussian_std": ("5.5", "6.5", ("0.0", "0"))}
FALSY = ("None", "0", "False", "0.0", "()", "''", "[]", "{}")


def records(c):
    """Record classes of the package: dataclasses with an `update` method or registered as pytrees."""
    m = c.prog.modules.get(MOD)
    out = []
    for nm in m.names if m is not None else ():
        r = c.prog.resolve(m, nm)
        k = r[1] if isinstance(r, tuple) and r and r[0] == "class" else r
        if isinstance(k, Class) and k.name == nm and (k.is_dataclass or any(b.is_dataclass for b in c.prog.mro(k))) and c.prog.dataclass_fields(k):
            out.append(k)
    return out


def place(k):
    return f"{k.module.rel}:{k.node.lineno}"


def values(c, k):
    """field -> (source of the original value, of the new value, of falsy values); None if the field is not known"""
    out = {}
    for i, (f, _, _) in enumerate(c.prog.dataclass_fields(k)):
        if k.name == "ImageGenerationSpecification":
            out[f] = SPEC.get(f)
        else:
            out[f] = (f"old{i}", f"new{i}", FALSY)
    return out


def syms(c, k):
    n = len(c.prog.dataclass_fields(k))
    return [f"old{i}" for i in range(n)] + [f"new{i}" for i in range(n)]


def oracle(x, st):
    if x.op == "isnone" and x.args[0].op == "sym":
        return False
    return None


def drive(c, k, body, params, top=""):
    src = f"from {MOD} import *\nfrom {MOD} import {k.name}\n{top}\ndef drive({', '.join(params)}):\n" + "".join(f"    {l}\n" for l in body)
    return c.client(src, oracle=oracle)[1]


def ctor(k, vals, name=None):
    return f"{name or k.name}({', '.join(f'{f}={v[0]}' for f, v in vals.items())})"


def compare(got, want, what):
    """-> (verdict, detail)"""
    if got is want:
        return True, ""
    plain = lambda x: x.op == "sym" or H.literal(x)
    return (False if plain(got) and plain(want) else None), f"{what} is {t.show(got, 4)[:80]} instead of {t.show(want, 4)[:60]}"


def outcome(c, name, ex, want):
    """Every path returns these values (a nested list of (label, term))."""
    if not ex:
        return c.decide(name, None, "no path")
    v, det, loc = True, "", ""
    for e in ex:
        if e.kind == "raise":
            v1, d1 = (False if H.excname(e.val) and not e.st.guards else None), f"raises {t.show(e.val, 3)[:100]}"
        else:
            v1, d1 = True, ""
            for got, (what, w) in zip(e.val.args, want):
                a, b = compare(got, w, what)
                if a is not True and (v1 is True or a is False):
                    v1, d1 = a, b
            if v1 is False and e.st.guards:
                v1, d1 = None, H.why(e) + " / " + d1
        if v1 is not True and (v is True or v1 is False):
            v, det, loc = v1, d1, e.loc
    return c.decide(name, v, det, loc)


def term(c, src):
    """The term of a value given by its source text."""
    ex = c.client(f"def drive({src if src.isidentifier() and src not in ('None', 'False', 'True') else ''}):\n    return {src}\n")[1]
    return ex[0].val


@prop("P19", "every record class of synthpix.types, with the fields its source declares, is built and updated by the abstract interpreter for every "
      "subset of a covering family of fields and values (including None and falsy ones); the fields of the result and of the original are compared",
      ("records are constructed with keyword arguments",))
def p19(c):
    n = 0
    for k in records(c):
        if c.prog.find_method(k, "update") is None:
            continue
        n += 1
        vals = values(c, k)
        unknown = [f for f, v in vals.items() if v is None]
        if unknown:
            c.und(f"{k.name}: fields", f"no values known for {', '.join(unknown)}")
            vals = {f: v for f, v in vals.items() if v is not None}
        fs = list(vals)
        cache = {}

        def T(src):
            if src not in cache:
                cache[src] = term(c, src)
            return cache[src]

        def one(label, change, base=k.name, top=""):
            body = [f"r = {ctor(k, vals, base)}", f"q = r.update({', '.join(f'{f}={v}' for f, v in change.items())})"]
            obs = [("original " + f, f"r.{f}", T(vals[f][0])) for f in fs] + [("updated " + f, f"q.{f}", T(change.get(f, vals[f][0]))) for f in fs]
            obs += [("the result is a new record:", "q is not r", TRUE), ("the result has the same type:", f"type(q) is {base}", TRUE)]
            ex = drive(c, k, body + [f"return ({', '.join(s for _, s, _ in obs)},)"], syms(c, k), top)
            outcome(c, label, ex, [(w, x) for w, _, x in obs])
        with c.group(k.name):
            one("no field", {})
            for f in fs:
                one(f"{f}", {f: vals[f][1]})
                for z in vals[f][2]:
                    one(f"{f} to {z}", {f: z})
            for i in range(len(fs)):
                for j in range(i + 1, len(fs)) if c.tier == "thorough" or len(fs) < 8 else (i + 1,) if i + 1 < len(fs) else ():
                    one(f"{fs[i]} and {fs[j]}", {fs[i]: vals[fs[i]][1], fs[j]: vals[fs[j]][1]})
            one("all fields", {f: vals[f][1] for f in fs})
            one("all but one", {f: vals[f][1] for f in fs[1:]})
            one("of a subclass", {fs[-1]: vals[fs[-1]][1]}, base="Sub", top=f"class Sub({k.name}):\n    pass")
            two = [f"r = {ctor(k, vals)}", f"q = r.update({fs[0]}={vals[fs[0]][1]})", f"p = q.update({fs[-1]}={vals[fs[-1]][1]})"]
            obs = [(f"{nm} {f}", f"{v}.{f}", T(vals[f][1 if ch else 0])) for nm, v, changed in (("original", "r", ()), ("first", "q", (0,)), ("second", "p", (0, len(fs) - 1)))
                   for i, f in enumerate(fs) for ch in (i in changed,)]
            outcome(c, "two updates", drive(c, k, two + [f"return ({', '.join(s for _, s, _ in obs)},)"], syms(c, k)), [(w, x) for w, _, x in obs])
            if not frozen(k):
                f = fs[-1]
                body = [f"r = {ctor(k, vals)}", f"q = r.update({fs[0]}={vals[fs[0]][1]})", f"q.{f} = {vals[f][1]}", f"return (r.{f}, q.{f})"]
                outcome(c, "a changed result", drive(c, k, body, syms(c, k)), [("original " + f, T(vals[f][0])), ("result's " + f, T(vals[f][1]))])
    if not n:
        c.und("records with an update method", "none found")


def frozen(k):
    return any("frozen=True" in d for d in k.decorators)


@prop("P20", "every record class registered as a pytree is flattened and rebuilt by the abstract interpreter from distinguishable field values; the rebuilt "
      "fields are compared with the original ones and every field has to occur in the flattened form",
      ("jax flattens with tree_flatten and rebuilds with tree_unflatten(aux, children)",))
def p20(c):
    known = {"SynthpixBatch", "ImageGenerationParameters"}
    for k in records(c):
        how = [d.split("(")[0].rsplit(".", 1)[-1] for d in k.decorators]
        reg = [d for d in how if d.startswith("register_")]
        if k.name not in known and not reg:
            continue
        fs = [f for f, _, _ in c.prog.dataclass_fields(k)]
        with c.group(k.name):
            if "register_dataclass" in reg:
                c.ok("registered as a dataclass, all fields are leaves", k.name, place(k))
                continue
            flat, un = c.prog.find_method(k, "tree_flatten"), c.prog.find_method(k, "tree_unflatten")
            if flat is None or un is None:
                if registered_elsewhere(c, k):
                    c.und("flattening", "registered with functions outside of the class", place(k))
                else:
                    c.bad("registered as a pytree", f"{k.name} has no tree_flatten/tree_unflatten", place(k))
                continue
            if reg or registered_elsewhere(c, k):
                c.ok("registered as a pytree", reg, place(k))
            else:
                c.bad("registered as a pytree", f"{k.name} is not registered with jax", place(k))
            olds = [f"old{i}" for i in range(len(fs))]
            cases = [("all fields given", olds)]
            for i, f in enumerate(fs):
                cases.append((f"{f} absent", [("None" if j == i else o) for j, o in enumerate(olds)]))
            cases.append(("nothing but the first field", [olds[0]] + ["None"] * (len(fs) - 1)))
            for nm, vs in cases:
                for wrap in ("children", "list(children)", "tuple(children)"):
                    body = [f"r = {k.name}({', '.join(f'{f}={v}' for f, v in zip(fs, vs))})", "children, aux = r.tree_flatten()",
                            f"q = {k.name}.tree_unflatten(aux, {wrap})",
                            f"return ({', '.join('q.' + f for f in fs)}, {', '.join('r.' + f for f in fs)}, type(q) is {k.name})"]
                    want = [sym(v) if v != "None" else NONE for v in vs]
                    outcome(c, f"{nm}, rebuilt from {wrap}", drive(c, k, body, olds),
                            [(f"rebuilt {f}", w) for f, w in zip(fs, want)] + [(f"original {f}", w) for f, w in zip(fs, want)] + [("same type", TRUE)])
            # leaves replaced by something else (tracers, placeholders), in the same places
            body = [f"r = {k.name}({', '.join(f'{f}={v}' for f, v in zip(fs, olds))})", "children, aux = r.tree_flatten()",
                    f"q = {k.name}.tree_unflatten(aux, [f(x) for x in children])", f"return ({', '.join('q.' + f for f in fs)},)"]
            ex = drive(c, k, body, olds + ["f"])
            for e in ex:
                if e.kind != "return":
                    c.decide("leaves are replaced", None if e.st.guards or H.excname(e.val) is None else False, f"raises {t.show(e.val, 3)[:80]}", e.loc)
                    continue
                for f, o, v in zip(fs, olds, e.val.args):
                    hit = [x for x in olds if t.contains(v, lambda y: y is sym(x))]
                    ok = hit == [o] and v is not sym(o)
                    kept = v is sym(o)
                    c.decide(f"{f} is a leaf", True if ok else None if e.st.guards or not hit else
                             (True if kept and f == "files" else False), "not replaced along with the leaves" if kept else t.show(v, 4)[:80], e.loc)
            for e in drive(c, k, [body[0], body[1], "return aux"], olds):
                if e.kind == "return":
                    hit = [f for f, o in zip(fs, olds) if f != "files" and t.contains(e.val, lambda y: y is sym(o))]
                    c.decide("no array in the static part", True if not hit else None if e.st.guards else False, ", ".join(hit), e.loc)


def registered_elsewhere(c, k):
    for m in c.prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and ast.unparse(n.func).rsplit(".", 1)[-1].startswith("register_") and any(
                    isinstance(x, (ast.Name, ast.Attribute)) and ast.unparse(x).rsplit(".", 1)[-1] == k.name for x in n.args):
                return True
    return False
