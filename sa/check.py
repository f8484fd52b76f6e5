"""Obligations, verdicts, evidence.

A property check is a list of obligations; each is

  discharged  the rule was applied to the current source and holds;
  violated    the rule was applied and a construct of the source contradicts it;
  undecided   the source is outside of what the analysis understands.

Only `violated` raises an alarm.  A check none of whose obligations can be
decided (or whose public anchors are gone) ends with status 2: no answer.
"""
from __future__ import annotations
import json
import os
import sys
import time
import traceback
from contextlib import contextmanager
from pathlib import Path
from . import terms as t
from .program import Program, AnalysisBroken
from .interp import Interp, Budget

ROOT = Path(__file__).resolve().parent.parent
REGISTRY: dict = {}


def prop(pid, rule, assumptions=()):
    def deco(f):
        REGISTRY[pid] = (f, rule, list(assumptions))
        return f
    return deco


class Undecided(Exception):
    """The analysed construct is outside of what the rule understands."""


class Check:
    def __init__(self, pid, tier, seed, prog=None):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.prog = prog or Program()
        self.obl = []
        self.inlined = set()
        self.paths = 0
        self.callsites = 0
        self.notes = []
        self.group_name = ""
        self.cache = {}

    # -- verdicts
    def ok(self, name, detail="", where=""):
        self.obl.append(dict(name=self._n(name), status="discharged", where=where, detail=_s(detail)))

    def bad(self, name, detail="", where="", key=None):
        self.obl.append(dict(name=self._n(name), status="violated", where=where, detail=_s(detail), key=key or self._n(name)))

    def und(self, name, detail="", where=""):
        self.obl.append(dict(name=self._n(name), status="undecided", where=where, detail=_s(detail)))

    def decide(self, name, verdict, detail="", where="", key=None):
        """verdict: True / False / None"""
        (self.ok if verdict is True else self.und if verdict is None else self.bad)(
            name, detail, where, *([key] if verdict is False else []))
        return verdict

    def _n(self, n):
        return f"{self.group_name}: {n}" if self.group_name else n

    @contextmanager
    def group(self, name):
        old = self.group_name
        self.group_name = f"{old}/{name}" if old else name
        n0 = len(self.obl)
        try:
            yield
        except Undecided as e:
            self.und("analysis", str(e))
        except Budget as e:
            self.und("analysis", f"budget: {e}")
        except AnalysisBroken as e:
            self.und("analysis", f"anchor: {e}")
        except RecursionError:
            self.und("analysis", "recursion limit")
        except Exception as e:  # an engine error never becomes an alarm
            self.und("analysis", "engine: " + "".join(traceback.format_exception_only(type(e), e)).strip() +
                     " @ " + "; ".join(f"{f.name}:{f.lineno}" for f in traceback.extract_tb(e.__traceback__)[-3:]))
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
        finally:
            if len(self.obl) == n0:
                self.und("analysis", "no obligation generated")
            self.group_name = old

    # -- running the interpreter
    def interp(self, **kw):
        return Interp(self.prog, **kw)

    def exits(self, anchor, args=None, opaque=(), oracle=None, **kw):
        f = self.prog.get(anchor)
        I = Interp(self.prog, oracle=oracle, opaque=opaque)
        types = kw.pop("types", {})
        for k, v in types.items():
            I.types[k] = v
        cls = kw.pop("cls", None)
        ex = I.run(f, args=args, cls=cls, **kw)
        self.absorb(I, ex)
        return I, ex

    def client(self, src, name="drive", args=None, kwargs=None, opaque=(), oracle=None, types=None, st=None, setup=None,
               cont=None):
        """Analyse a client of the library (source text that is interpreted abstractly, never run)."""
        from .program import Module
        n = f"sa_client_{len([m for m in self.prog.modules if m.startswith('sa_client_')])}"
        self.prog.modules[n] = Module(n, f"<{n}>", src)
        f = self.prog.get(f"{n}:{name}")
        I = cont or Interp(self.prog, oracle=oracle, opaque=opaque)
        if cont is not None and oracle is not None:
            I.oracle = oracle
        for k, v in (types or {}).items():
            I.types[k] = v
        if setup:
            setup(I)
        I.deadline = time.monotonic() + 90
        ex = I.run(f, args=args, kwargs=kwargs, st=st)
        self.absorb(I, ex)
        return I, ex

    def absorb(self, I, ex=()):
        self.inlined |= I.inlined
        self.paths += len(ex)
        self.callsites += I.callsites
        for n in I.notes:
            if n not in self.notes:
                self.notes.append(n)

    # -- result
    def finish(self, rule, assumptions, t0):
        known, fixed = load_known(self.pid)
        vio = [o for o in self.obl if o["status"] == "violated"]
        dis = [o for o in self.obl if o["status"] == "discharged"]
        und = [o for o in self.obl if o["status"] == "undecided"]
        new, old = [], []
        for o in vio:
            (old if any(k == o["key"] for k, _ in known) else new).append(o)
        for k, txt in known:
            hit = any(o["key"] == k for o in vio)
            print(f"KNOWN-FINDING: property={self.pid} {txt}" + ("" if hit else " (not seen on this tree)"))
        rdir = ROOT / "evidence" / "replay"
        rdir.mkdir(parents=True, exist_ok=True)
        rp = rdir / f"{self.pid}.json"
        if new:
            rp.write_text(json.dumps(dict(property=self.pid, rule=rule, violations=new,
                                          rerun=f"python3 -m sa.run {self.pid}"), indent=1))
            for o in new:
                print(f"  violated: {o['name']} at {o['where']}: {o['detail'][:600]}")
            print(f"VIOLATION property={self.pid} replay={rp}")
        for o in und[:6]:
            print(f"  undecided: {o['name']} {o['where']}: {o['detail'][:300]}")
        status = 1 if new else (0 if dis or old else 2)
        ev = dict(
            property=self.pid, tier=self.tier, seed=self.seed, level="other",
            coverage=dict(
                explanation=rule,
                obligations=len(self.obl), discharged=len(dis), undecided=len(und),
                violated=len(vio), known_findings=len(old),
                functions_analysed=sorted(x for x in self.inlined if not x.startswith("sa_client")), paths=self.paths, inlined_calls=self.callsites,
                obligation_list=[dict(name=o["name"], status=o["status"], where=o["where"], detail=o["detail"][:200])
                                 for o in self.obl],
                imprecision_notes=self.notes[:40],
                parsed_modules=len(self.prog.modules)),
            wall_s=round(time.time() - t0, 3),
            violations=len(new),
            assumptions=assumptions)
        (ROOT / "evidence" / f"{self.pid}.json").write_text(json.dumps(ev, indent=1))
        print(f"{self.pid}: {len(dis)} discharged, {len(und)} undecided, {len(new)} violated, {len(old)} known; "
              f"{len([x for x in self.inlined if not x.startswith('sa_client')])} functions, {self.paths} paths, {time.time() - t0:.1f}s")
        return status


def _s(d):
    return t.show(d, 8) if isinstance(d, t.T) else str(d)


def load_known(pid):
    """`known: property=<id> key=<obligation key> :: <what fails>` / `fixed: property=<id> <commit> <what failed>`"""
    known, fixed = [], []
    p = ROOT / "known-findings.txt"
    if p.exists():
        for line in p.read_text().splitlines():
            line = line.strip()
            if line.startswith("known:") and f"property={pid} " in line:
                body = line.split(f"property={pid} ", 1)[1]
                key, _, txt = body.partition(" :: ")
                known.append((key.strip().removeprefix("key="), txt.strip()))
            elif line.startswith("fixed:") and f"property={pid} " in line:
                fixed.append(line)
    return known, fixed


def run(pid, tier, seed):
    t0 = time.time()
    f, rule, assumptions = REGISTRY[pid]
    try:
        c = Check(pid, tier, seed)
    except AnalysisBroken as e:
        print(f"{pid}: cannot analyse: {e}")
        return 2
    sys.setrecursionlimit(20000)
    Interp.stop_at = time.monotonic() + (300 if tier == "quick" else 600)
    with c.group(""):
        f(c)
    return c.finish(rule, assumptions, t0)
