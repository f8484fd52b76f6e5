"""What a path writes into files, and what a YAML reader makes of it.

The text is assembled from the constant parts of the written strings; values
that are only known symbolically stay terms (holes) and come back as such."""
from __future__ import annotations
import json
import re
from . import terms as t
from .terms import T, mk, const, NONE


class Unclear(Exception):
    """Not understood."""


class Broken(Exception):
    """Certainly not what a reader accepts."""


def literal(x, holes):
    """Python value of a literal term; other terms become holes (strings that name them)."""
    if x.op == "const":
        return x.args[0]
    if x.op in ("list", "tuple"):
        return [literal(y, holes) for y in x.args]
    if x.op == "dict":
        return {literal(k, holes): literal(v, holes) for k, v in x.args[0]}
    holes.append(x)
    return f"\0{len(holes) - 1}\0"


def structure(x):
    """Like `literal`, with the terms themselves in place of holes."""
    if x.op == "const":
        return x.args[0]
    if x.op in ("list", "tuple"):
        return [structure(y) for y in x.args]
    if x.op == "dict":
        return {structure(k): structure(v) for k, v in x.args[0]}
    return x


def name(f):
    if isinstance(f, T) and f.op in ("ext", "builtin", "func"):
        return f.args[0]
    if isinstance(f, T) and f.op == "attr":
        return "." + f.args[1]
    return str(f) if isinstance(f, str) else ""


def render(x, holes):
    """Text of a string-valued term."""
    if x.op == "const":
        return str(x.args[0])
    if x.op == "fstr":
        return "".join(render(y, holes) for y in x.args)
    if x.op == "poly" or (x.op == "add" and len(x.args) == 2):
        raise Unclear(t.show(x, 3))
    if x.op == "call" and name(x.args[0]) in ("json.dumps",):
        kw = dict(x.args[2])
        if set(kw) - {"default", "ensure_ascii", "sort_keys"}:
            raise Unclear(t.show(x, 3))
        return json.dumps(literal(x.args[1][0], holes))
    if x.op in ("list", "tuple", "dict"):
        return str(literal(x, holes))
    if x.op == "call" and name(x.args[0]) in ("str", "repr"):
        return render(x.args[1][0], holes)
    holes.append(x)
    return f"\0{len(holes) - 1}\0"


def handle(x):
    """(path term, mode) if this is an opened file."""
    if x.op == "enter":
        x = x.args[0]
    if x.op == "ret" and x.args[0].op == "builtin" and x.args[0].args[0] == "open":
        a, kw = x.args[1], dict(x.args[2])
        mode = a[1] if len(a) > 1 else kw.get("mode", const("r"))
        return a[0], mode.args[0] if mode.op == "const" else None
    return None


def hidden(trace, seen=None):
    """Calls made inside loops of unknown length (their number and order are not known)."""
    seen = set() if seen is None else seen
    out, inside = [], False
    for e in trace:
        if e.kind == "loop-iter":
            inside = True
        if e.kind in ("loop", "loop-iter") and id(e.extra) not in seen:
            seen.add(id(e.extra))
            for s in list(e.extra.back) + list(e.extra.breaks):
                k = next((i for i, x in enumerate(s.trace) if x.kind == "loop-iter" and x.extra is e.extra), len(s.trace))
                out += [x for x in s.trace[k + 1:] if x.kind in ("call", "setitem")] + hidden(s.trace[k + 1:], seen)
        elif inside and e.kind in ("call", "setitem"):
            out.append(e)
    return out


def written(trace):
    """path term -> list of pieces, in order: ("text", term), ("dump", term) or ("unclear", what)"""
    out = {}
    for e in trace:
        if e.kind != "call" or not isinstance(e.callee, T):
            continue
        n = name(e.callee)
        if n == "open" and e.result is not None:
            h = handle(e.result)
            if h and h[1] in ("w", "wt", "w+"):
                out[h[0]] = []
            elif h and h[1] not in ("r", "rt", "rb"):
                out.setdefault(h[0], []).append(("unclear", f"opened with mode {h[1]}"))
        elif n in (".write", ".writelines"):
            h = handle(e.callee.args[0])
            if h and h[0] in out:
                out[h[0]].append(("text", e.args[0]) if n == ".write" else ("lines", e.args[0]))
        elif n in ("yaml.safe_dump", "yaml.dump", "json.dump", ".dump"):
            hs = [handle(a) for a in list(e.args[1:]) + [v for _, v in e.kwargs]]
            for h in hs:
                if h and h[0] in out:
                    out[h[0]].append(("dump", e.args[0]))
        elif n in ("goggles.save_configuration", "gg.save_configuration"):
            out[e.args[1]] = [("dump", e.args[0])]
        elif n == "print":
            h = handle(dict(e.kwargs).get("file", NONE))
            if h and h[0] in out:
                out[h[0]] += printed(e)
        elif n in ("os.replace", "os.rename", "shutil.move") and e.args and e.args[0] in out:
            out[e.args[1]] = out.pop(e.args[0])
        elif n in ("os.remove", "os.unlink") and e.args:
            out.pop(e.args[0], None)
            out[e.args[0]] = [("unclear", "removed")]
        elif n in (".write_text",):
            out[e.callee.args[0]] = [("text", e.args[0])]
    for e in hidden(trace):
        n = name(e.callee) if isinstance(e.callee, T) else ""
        if n in (".write", ".writelines", "print", ".write_text") or n.endswith((".dump", "_dump")):
            for k in out:
                out[k] = out[k] + [("unclear", "written in a loop of unknown length")]
    return out


def printed(e):
    """What print(..., file=f) writes."""
    kw = dict(e.kwargs)
    sep, end = kw.get("sep", const(" ")), kw.get("end", const("\n"))
    out = []
    for k, x in enumerate(e.args):
        out += ([("text", const(" ") if sep is NONE else sep)] if k else []) + [("text", x)]
    return out + [("text", const("\n") if end is NONE else end)]


def loaded(pieces):
    """What a YAML reader makes of these pieces (terms for holes)."""
    if any(k == "unclear" for k, _ in pieces):
        raise Unclear(next(x for k, x in pieces if k == "unclear"))
    if any(k == "dump" for k, _ in pieces):
        if len(pieces) != 1:
            raise Unclear("several documents")
        return structure(pieces[0][1])
    holes, txt = [], ""
    for k, x in pieces:
        if k == "lines":
            if x.op not in ("list", "tuple"):
                raise Unclear(t.show(x, 3))
            txt += "".join(render(y, holes) for y in x.args)
        else:
            txt += render(x, holes)
    return document(txt, holes)


HOLE = re.compile(r"\0(\d+)\0")
KEY = re.compile(r"^([A-Za-z_][\w.-]*):(?:[ ]+(.*))?$")


def back(v, holes):
    if isinstance(v, str):
        m = HOLE.fullmatch(v)
        if m:
            return holes[int(m.group(1))]
        if HOLE.search(v):
            raise Unclear("text around a value")
        return v
    if isinstance(v, list):
        return [back(x, holes) for x in v]
    if isinstance(v, dict):
        return {k: back(x, holes) for k, x in v.items()}
    return v


def scalar(s, holes):
    s = s.strip()
    if HOLE.fullmatch(s):
        return holes[int(HOLE.fullmatch(s).group(1))]
    try:
        return back(json.loads(s), holes)
    except ValueError:
        pass
    if s[:1] in ("'",) and re.fullmatch(r"'(?:[^']|'')*'", s):
        return back(s[1:-1].replace("''", "'"), holes)
    if s in ("", "~", "null", "Null", "NULL"):
        return None
    if s in ("true", "True", "TRUE"):
        return True
    if s in ("false", "False", "FALSE"):
        return False
    if re.fullmatch(r"[-+]?(\.[0-9]+|[0-9]+(\.[0-9]*)?)([eE][-+]?[0-9]+)?", s):
        return float(s)
    if s[0] in "[{":
        return flow(s, holes)
    if s[0] in "\"'&*!|>%@`,]}#-?:" or HOLE.search(s):
        if s[0] in "\"'%@`,]}":
            raise Broken(f"the value {s[:30]!r} is not valid")
        raise Unclear(f"the value {s[:30]!r}")
    if ": " in s or s.endswith(":"):
        raise Broken(f"the value {s[:40]!r} is not a scalar")
    if " #" in s:
        return s[:s.index(" #")]
    return s


def flow(s, holes):
    """A Python-like flow sequence or mapping."""
    if s.startswith("[") and s.endswith("]") and not re.search(r"[\[\]{}\"']", s[1:-1]):
        return [scalar(x, holes) for x in s[1:-1].split(",")] if s[1:-1].strip() else []
    if re.fullmatch(r"[\[{].*[\]}]", s) and not re.search(r"[\"#&*!|>%@`]", s):
        try:
            import ast
            v = ast.literal_eval(s)
        except (ValueError, SyntaxError):
            raise Unclear(f"the value {s[:30]!r}")

        def conv(x):
            # (None, True and False are words to YAML: None stays text)
            if isinstance(x, tuple):
                raise Unclear(s[:30])
            if x is None:
                return "None"
            return [conv(y) for y in x] if isinstance(x, list) else {k: conv(y) for k, y in x.items()} if isinstance(x, dict) else x
        return back(conv(v), holes)
    raise Unclear(f"the value {s[:30]!r}")


def document(txt, holes):
    """A block mapping of flow values and block sequences."""
    out, cur, ind = {}, None, None
    for l in txt.split("\n"):
        if not l.strip() or l.lstrip().startswith("#"):
            continue
        m = KEY.match(l)
        if m:
            k = m.group(1)
            if k in out:
                raise Broken(f"the key {k} occurs twice")
            out[k] = scalar(m.group(2) or "", holes)
            cur, ind = (k, None) if not (m.group(2) or "").strip() else (None, None)
            continue
        m = re.match(r"^( *)- (.*)$", l)
        if m and cur is not None and (ind is None or ind == m.group(1)):
            ind = m.group(1)
            if out[cur] is None:
                out[cur] = []
            out[cur].append(scalar(m.group(2), holes))
            continue
        raise Unclear(f"line {l[:40]!r}")
    return out


def agree(got, want):
    """True / False / None (comparison of loaded structures), and where they differ"""
    if isinstance(got, T) or isinstance(want, T):
        if got is want:
            return True, ""
        known = lambda x: not isinstance(x, T) or x.op == "sym"
        return False if known(got) and known(want) else None, f"{t.show(got, 4) if isinstance(got, T) else got!r} instead of {t.show(want, 4) if isinstance(want, T) else want!r}"
    if isinstance(want, dict) and isinstance(got, dict):
        for k in want:
            if k not in got:
                return False, f"{k!r} is missing"
        for k in got:
            if k not in want:
                return False, f"{k!r} is new"
        rs = [(agree(got[k], want[k]), k) for k in want]
        for (v, d), k in sorted(rs, key=lambda r: r[0][0] is not False):
            if v is not True:
                return v, f"{k}: {d}"
        return True, ""
    if isinstance(want, (list, tuple)) and isinstance(got, (list, tuple)):
        if len(got) != len(want):
            return False, f"{len(got)} entries instead of {len(want)}"
        for a, b in zip(got, want):
            v, d = agree(a, b)
            if v is not True:
                return v, d
        return True, ""
    if type(got) is bool or type(want) is bool or isinstance(got, str) or isinstance(want, str) or got is None or want is None:
        same = type(got) is type(want) and got == want
    else:
        same = not isinstance(got, (dict, list)) and not isinstance(want, (dict, list)) and got == want
    return (True, "") if same else (False, f"{got!r} instead of {want!r}")
