"""P06: linear use of random keys."""
from .. import terms as t
from ..terms import mk, const, sym, NONE
from ..check import prop, Undecided
from ..query import only_return, kwd, calls, rets_of
from ..session import synthetic
from .p_motion import gen_setup, images

KEYOPS = ("subkey", "fold", "split")


def strip(k):
    """Key value without layout changes: reshape(key, (-1, n))[0] of one key is that key."""
    while True:
        if k.op == "index" and k.args[0].op == "shapeop":
            k = k.args[0].args[1]
        elif k.op == "shapeop" and k.args[0] in ("tile", "repeat", "broadcast_to"):
            return k
        elif k.op == "shapeop":
            k = k.args[1]
        elif k.op == "ret" and t.show(k.args[0], 2).endswith("device_put"):
            k = k.args[1][0]
        elif k.op == "call" and k.args[0] and t.show(k.args[0], 2).endswith("device_put"):
            k = k.args[1][0]
        else:
            return k


def parent(k):
    k = strip(k)
    if k.op in KEYOPS:
        return strip(k.args[0])
    if k.op in ("row", "index") and k.args[0].op == "split":
        return strip(k.args[0].args[0])
    return None


def chain(k):
    """[key, parent, ..., root]"""
    out = [strip(k)]
    while True:
        p = parent(out[-1])
        if p is None:
            return out
        out.append(p)


def derivation(k):
    """(kind, parent, count/None, index) of a derived key"""
    k = strip(k)
    if k.op == "subkey":
        return ("split", strip(k.args[0]), k.args[1], k.args[2])
    if k.op == "fold":
        return ("fold", strip(k.args[0]), None, k.args[1])
    if k.op == "split":
        return ("split", strip(k.args[0]), k.args[1], None)
    if k.op in ("row", "index") and k.args[0].op == "split":
        i = k.args[1] if k.op == "index" else mk("row", mk("arange", const(0), k.args[0].args[1], const(1)))
        return ("split", strip(k.args[0].args[0]), k.args[0].args[1], i)
    return None


def is_row(x):
    return x.op == "row" and x.args[0].op == "arange"


def injective(x):
    """Is x, as a function of the sample index, injective?  True / False / None (not a function of it: False)"""
    rows = [y for y in t.walk(x) if is_row(y)]
    if not rows:
        return False if all(y.op in ("const", "sym", "attr", "index", "poly") for y in t.walk(x)) else None
    if len(set(rows)) != 1:
        return None
    r = rows[0]
    d = t.poly_of(x)
    if d is not None:
        lin = [(m, c) for m, c in d.items() if any(t.contains(a, lambda y: y is r) for a, _ in m)]
        if len(lin) == 1 and lin[0][0] == ((r, 1),):
            return True
        if len(lin) == 1 and len(lin[0][0]) == 1 and lin[0][0][0][1] == 1:
            return injective_atom(lin[0][0][0][0], r)
        return None
    return injective_atom(x, r)


def injective_atom(x, r):
    if x is r:
        return True
    if x.op in ("mod", "floordiv") and x.args[0] is r:
        return False          # indices 0 and n (or 0 and 1) give the same value
    if x.op in ("min", "max") and any(not t.contains(a, lambda y: y is r) for a in x.args):
        return False
    if x.op == "fn" and x.args[0] in ("toint", "float", "cast", "toarray"):
        return injective(x.args[1])
    return None


def linear_use(c, draws, where, root_ok):
    """draws: [(name, key term, loc)] that are made in one run."""
    seen = {}
    for n, k, loc in draws:
        k = strip(k)
        if k in seen:
            c.bad(f"{n} draw has its own key", f"the key {t.show(k, 6)} was already used at {seen[k][1]}", loc, key=f"reused key {n}")
        else:
            c.ok(f"{n} draw has its own key", k, loc)
            seen[k] = (n, loc)
    for n, k, loc in draws:
        for p in chain(k)[1:]:
            d = derivation(p)
            if p not in seen and d is not None and d[0] == "split" and mk("split", d[1], d[2]) in seen:
                c.bad(f"{n} key is not derived from a key that is drawn from", f"{t.show(p, 6)} is one of the keys used at {seen[mk('split', d[1], d[2])][1]}",
                      loc, key=f"drawn key derived {n}")
            elif p in seen:
                c.bad(f"{n} key is not derived from a key that is drawn from", f"{t.show(p, 6)} feeds a draw at {seen[p][1]} and is split further",
                      loc, key=f"drawn key derived {n}")
        root = chain(k)[-1]
        v = root_ok(root)
        c.decide(f"{n} key derives from the given key", v, root, loc, key=f"foreign root {n}")
    # derivations of one parent
    der = {}
    for n, k, loc in draws:
        for x in chain(k)[:-1]:
            d = derivation(x)
            if d is not None:
                der.setdefault(d[1], {})[x] = (d, loc)
    for p, xs in der.items():
        forms = {(d[0], d[2]) for d, _ in xs.values()}
        loc = next(iter(xs.values()))[1]
        if len(forms) == 1:
            idx = [d[3] for d, _ in xs.values()]
            if len(xs) > 1 and any(i is not None and i.op != "const" for i in idx):
                col = collide(idx)
                c.decide("children of one key are distinct", col, f"{t.show(p, 6)} with {[t.show(i, 3) for i in idx]}", loc, key="colliding children")
            else:
                c.ok("children of one key are distinct", p, loc)
        else:
            # split with different counts, or split and folded: the same counters are hashed
            ranges = [d for d, _ in xs.values()]
            v = None
            for a in ranges:
                for b in ranges:
                    if a is not b and (a[0], a[2]) != (b[0], b[2]) and overlap(a, b):
                        v = False
            c.decide("one key is derived in one way only", v, f"{t.show(p, 6)} is " + " and ".join(sorted(f"{f[0]} {t.show(f[1], 3) if f[1] is not None else ''}" for f in forms)),
                     loc, key="key derived in two ways")


def overlap(a, b):
    """Can two derivations (split i of n / fold of i) of one key hash the same counter?"""
    x, y = a[3], b[3]
    if x is None or y is None:
        return True
    if x is y:
        return True
    if x.op == "const" and y.op == "const":
        return x.args[0] == y.args[0]
    for u, v in ((x, y), (y, x)):
        if u.op == "const" and is_row(v):
            return True
    return False


def collide(idx):
    """Are these derivation indices pairwise distinct (True), surely colliding somewhere (False)?"""
    for i, x in enumerate(idx):
        for y in idx[i + 1:]:
            if x is y:
                continue
            d = t.poly_of(t.sub(x, y))
            if d is not None and set(d) == {()} and d[()] != 0:
                # same index plus an offset: sample i + c of one is sample i of the other
                return False if t.contains(x, is_row) else True
            if (x.op == "const" and is_row(y)) or (y.op == "const" and is_row(x)):
                return False
            if not (x.op == "const" and y.op == "const"):
                return None
    return True


@prop("P06", "Keys are value-numbered as derivation chains (split index, folded data). On every path: no two draws have the same key, "
             "no drawn key is an ancestor of another, no key is derived in two overlapping ways, every chain ends at the key that was "
             "given, each sample's chain depends injectively on the sample index, and the keys of successive batches (an abstract session "
             "of three batches), and of the devices of one batch, are pairwise distinct.",
      ["jax.random.split/fold_in are collision-free hashes of (key, counter)"])
def p06(c):
    key = sym("key")
    for mask in (NONE,):
        with c.group("image generator"):
            f, I, e = gen_setup(c, mask=mask, opaque=("img_gen_from_data", "match_histogram", "apply_flow_to_particles"))
            ds = [(ev.result.args[0], ev.result.args[1], ev.loc) for ev in e.st.trace if ev.kind == "draw"]
            if not ds:
                raise Undecided("no draws found")
            ds = label(ds)

            def root_ok(r):
                if r is key:
                    return True
                if r.op == "seedkey" or r.op == "const":
                    return t.contains(r, lambda y: y is key)
                return None if not (r.op == "sym") else False
            linear_use(c, ds, f.loc, root_ok)
            per_sample(c, f, e, ds)
    with c.group("noise"):
        I, ex = c.exits("synthpix.generate:add_noise_to_image")
        e = only_return(c, ex, "add_noise_to_image")
        ds = label([(ev.result.args[0], ev.result.args[1], ev.loc) for ev in e.st.trace if ev.kind == "draw"])
        linear_use(c, ds, "", lambda r: True if r is key else False if r.op == "seedkey" else None)
    with c.group("sampler"):
        for s in synthetic(c)[:None if c.tier == "thorough" else 4]:
            sampler_keys(c, s)


def label(ds):
    cnt = {}
    out = []
    for n, k, l in ds:
        i = cnt[n] = cnt.get(n, 0) + 1
        out.append((f"{n} #{i}", k, l))
    return out


def per_sample(c, f, e, ds):
    """Draws that enter the image of a sample must differ between samples."""
    v = e.val
    if v.op != "tuple" or len(v.args) < 2 or any(x.op != "vmap" for x in v.args[:2]):
        raise Undecided("images are not produced sample by sample")
    inner = images(e)
    by = {}
    for ev in e.st.trace:
        if ev.kind == "draw":
            by[ev.result] = ev
    seen = {}

    def visit(x, indexed):
        # a draw reached without going through a per-sample selection is shared by the samples
        k = (x, indexed)
        if k in seen:
            return
        seen[k] = True
        if x.op == "draw":
            hits.append((x, indexed))
            return
        if x.op == "row":
            visit(x.args[0], True)
            return
        if x.op == "index" and t.contains(x.args[1], is_row):
            visit(x.args[0], True)
            visit(x.args[1], indexed)
            return
        for y in t.children(x):
            visit(y, indexed)
    hits = []
    for x in inner:
        visit(x, False)
    names = {}
    for (n, k, l), ev in zip(ds, [ev for ev in e.st.trace if ev.kind == "draw"]):
        names.setdefault(ev.result, n)
    for x, indexed in hits:
        n = names.get(x, x.args[0])
        loc = by[x].loc if x in by else f.loc
        if indexed:
            c.ok(f"{n} differs between samples", "drawn for the whole batch, selected by sample", loc)
            continue
        ch = chain(x.args[1])
        vs = []
        for k in ch[:-1]:
            d = derivation(k)
            if d is None or d[3] is None:
                vs.append(None)
                continue
            vs.append(injective(d[3]))
        if any(v is True for v in vs):
            v = True
        elif vs and all(v is False for v in vs):
            v = False
        elif not vs:
            v = False
        else:
            v = None
        c.decide(f"{n} differs between samples", v, "key " + t.show(x.args[1], 6), loc, key=f"{n} shared by samples")


def sampler_keys(c, s0, n=3):
    """Every history of n batches."""
    hist = [(s0, [])]
    for i in range(n):
        nxt = []
        for s, ks in hist:
            rs = [x for x in s.step("return next(obj)") if x.kind == "return"]
            if not rs:
                raise Undecided("next() does not return")
            for x in rs:
                g = x.calls("generate_images_from_flow")
                if len(g) != 1:
                    raise Undecided(f"batch {i} makes {len(g)} generator calls")
                k = kwd(g[0]).get("key", g[0].args[0] if g[0].args else None)
                nxt.append((x, ks + [(k, g[0].loc)]))
        hist = nxt
    done = set()
    for _, ks in hist:
        if tuple(ks) in done:
            continue
        done.add(tuple(ks))
        one_history(c, ks)


def one_history(c, ks):
    draws = []
    for i, (k, loc) in enumerate(ks):
        k = strip(k)
        if k.op == "row" and k.args[0].op == "split":
            k = k.args[0]
        v = all_different(k)
        c.decide("every device has its own key", v, k, loc, key="devices share a key")
        if v is None or k.op in ("map", "list", "stack"):
            c.und(f"keys of batch {i}", k, loc)
            continue
        if v is False:
            k = strip(k.args[1])
        draws.append((f"batch {i}", k, loc))
    linear_use(c, draws, ks[-1][1], lambda r: (True if r.op == "seedkey" and t.contains(r, lambda y: y.op == "attr" and y.args[1] == "seed")
                                         else False if r.op == "seedkey" else None))


def all_different(k):
    if k.op == "split":
        return True
    if k.op == "shapeop" and k.args[0] in ("tile", "repeat", "broadcast_to"):
        return False
    return None
