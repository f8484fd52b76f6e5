"""Prefetching (P28-P30).

Producer and consumer of the prefetching scheduler are interpreted against each
other under enumerated schedules (threads.World), with a scripted scheduler
underneath whose batches are named by the position at which it produced them."""
from __future__ import annotations
from .. import terms as t, lib
from .. import histories as H
from ..check import prop
from ..interp import Interp
from ..terms import mk, const, NONE, TRUE, FALSE
from ..threads import World, Turns, W, LIVE, HANG

CLS = "PrefetchingFlowFieldScheduler"
IMPORTS = """
from synthpix.scheduler.prefetch import PrefetchingFlowFieldScheduler
from synthpix.scheduler.protocol import SchedulerProtocol, EpisodicSchedulerProtocol, EpisodeEnd
from synthpix.types import SchedulerData
import probe


class Tape(SchedulerProtocol):
    def __init__(self, tape):
        self.tape, self.pos, self.run, self.ended = tape, 0, 0, False

    def get_batch(self, batch_size):
        probe.request()
        if self.pos >= len(self.tape):
            raise StopIteration
        x = self.tape[self.pos]
        self.pos += 1
        if x == "error":
            raise OSError("unreadable")
        if x == "end":
            raise StopIteration
        n = f"run {self.run} batch {x} of {batch_size}"
        return SchedulerData(flow_fields=n + " flow", images1=n + " 1", images2=n + " 2", mask=n + " mask", files=n + " files")

    def get_flow_fields_shape(self):
        return (8, 6, 2)

    def reset(self):
        probe.reset()
        self.pos = 0
        self.run += 1

    def shutdown(self):
        return None

    @property
    def file_list(self):
        return ["a"]

    @file_list.setter
    def file_list(self, x):
        self.given = x


class Episodes(EpisodicSchedulerProtocol):
    def __init__(self, length, episodes, broken=-1, fails=-1):
        self.L, self.n, self.broken, self.fails, self.e, self.t, self.run = length, episodes, broken, fails, 0, 0, 0

    def get_batch(self, batch_size):
        probe.request()
        if self.e >= self.n:
            raise StopIteration
        if self.t >= self.L:
            raise EpisodeEnd("end")
        if self.e == 0 and self.t == self.fails:
            raise OSError("unreadable")
        n = f"run {self.run} episode {self.e} step {self.t} of {batch_size}"
        self.t += 1
        return SchedulerData(flow_fields=n + " flow", images1=n + " 1", images2=n + " 2", mask=n + " mask", files=n + " files")

    def next_episode(self):
        if self.e == self.broken:
            raise OSError("unreadable")
        self.e += 1
        self.t = 0

    def steps_remaining(self):
        return self.L - self.t

    @property
    def episode_length(self):
        return self.L

    def get_flow_fields_shape(self):
        return (8, 6, 2)

    def reset(self):
        probe.reset()
        self.e, self.t = 0, 0
        self.run += 1

    def shutdown(self):
        return None

    @property
    def file_list(self):
        return ["a"]

    @file_list.setter
    def file_list(self, x):
        self.given = x

"""
ASSUME = ("queue.Queue is a linearizable bounded FIFO; attribute writes of one thread become visible in order",
          "schedules: eager and lazy producer, every number of timed-out waits given, buffers of 1 to 3 batches (quick), 1 to 5 (thorough)")
BATCH = 2
OPTS = "startup_timeout=7.5, steady_state_timeout=1.25"


def source(ctor, ops):
    out = [IMPORTS, "def drive():", f"    s = {CLS}({ctor}, {OPTS})"]
    names = []
    for i, op in enumerate(ops):
        v = f"r{i}"
        if op == "get":
            names.append(v)
            out += ["    probe.call()", "    try:", f"        b = s.get_batch({BATCH})",
                    f"        {v} = ('batch', b.flow_fields, b.images1, b.images2, b.mask, b.files)",
                    "    except StopIteration:", f"        {v} = ('end',)",
                    "    except Exception as e:", f"        {v} = ('error', e)"]
        elif isinstance(op, tuple):
            names.append(v)
            out += ["    try:", f"        {v} = ('value', {op[1]})", "    except Exception as e:", f"        {v} = ('error', e)"]
        else:
            out += [f"    {l}" for l in op.splitlines()]
    out.append(f"    return ({', '.join(names)}{',' if names else ''})")
    return "\n".join(out) + "\n"


def run(c, world, ctor, ops):
    def setup(I):
        I.world = world
        I.models.update(world.models())

        def reset(a, k, st):
            world.leftovers(st, "when the wrapped scheduler is reset", "")
            return "ret", NONE

        def call(a, k, st):
            world.count(st, "calls")
            return "ret", NONE

        def request(a, k, st):
            if world.get(st, "told") is TRUE and world.count(st, "requests after stop") > 3:
                world.note(st, "keeps requesting batches after the stop signal", "")
                return "raise", HANG
            return "ret", NONE
        I.models.update({"probe.reset": reset, "probe.call": call, "probe.request": request})
    try:
        return c.client(source(ctor, ops), setup=setup)
    finally:
        world.close()


def batch(n, run=0, what="batch"):
    return f"run {run} {what} {n} of {BATCH}"


def step(e, k, run=0):
    return f"run {run} episode {e} step {k} of {BATCH}"


FIELDS = ("flow", "1", "2", "mask", "files")


def compare(r, w):
    if not isinstance(w, str) or w in (H.END, H.FAIL):
        return H.compare(r, w)
    if r.op != "tuple" or not r.args or r.args[0].op != "const":
        return None, t.show(r, 3)[:100]
    k = r.args[0].args[0]
    if k != "batch":
        if k == "error" and H.excname(r.args[1]) is None:
            return None, t.show(r, 3)[:100]
        return False, f"{'StopIteration' if k == 'end' else t.show(r, 3)[:80]} instead of batch '{w}'"
    for f, x in zip(FIELDS, r.args[1:]):
        if x.op != "const":
            return None, t.show(x, 3)[:100]
        if x.args[0] != f"{w} {f}":
            return False, f"'{x.args[0]}' instead of '{w} {f}'"
    return True, ""


def problems(e):
    return e.st.heap.get((W, "problems"), ())


def check(c, name, world, ctor, ops, want, key=None, extra=None, hang=True):
    """Every path of the history yields the outcomes; `extra(e)` gives further (verdict, detail)."""
    I, ex = run(c, world, ctor, ops)
    if not ex:
        return c.decide(name, None, "no path")
    verdict, detail, where = True, "", ""
    for e in ex:
        loc = e.loc
        ps = problems(e)
        if e.kind == "raise":
            n = e.val.args[0] if e.val.op == "excobj" else None
            v, d = False if n else None, f"raises {t.show(e.val, 3)[:100]}"
            if n == "@suspend":
                v = None
            if ps:
                v, (d, loc) = False, ps[-1]
        elif ps:
            v, (d, loc) = False, ps[0]
        else:
            v, d = True, ""
            for i, (r, w) in enumerate(zip(e.val.args, want)):
                v1, d1 = compare(r, w)
                if v1 is not True and (v is True or v1 is False):
                    v, d = v1, f"observation {i + 1}: {d1}"
            if v is True and extra is not None:
                v, d = extra(e)
        if v is False and e.st.guards:
            v, d = None, H.why(e) + " / " + d
        if v is not True and (verdict is True or v is False):
            verdict, detail, where = v, d, loc
    return c.decide(name, verdict, detail, where, **({"key": key} if key else {}))


def turns(n, steps=(0, 1, None), lates=(0, 1)):
    """Schedules of a history with n queue operations: what the producer does before each of them."""
    import itertools
    for late in lates:
        for w in itertools.product(steps, repeat=n):
            nm = "".join("a" if x is None else str(x) for x in w)
            yield f"turns {nm}{', full once' if late == 1 else f', full {late} times' if late else ''}", dict(word=w, late=late)


def tape(n, end=()):
    return f"Tape({list(range(n)) + list(end)!r})"


def sizes(c):
    return (1, 2, 3) if c.tier == "quick" else (1, 2, 3, 4, 5)


@prop("P28", "producer and consumer are interpreted against each other under enumerated schedules; what the consumer gets is compared with what "
      "the wrapped scheduler produced", ASSUME)
def p28(c):
    for q in sizes(c):
        with c.group(f"buffer of {q}"):
            for n in range(0, q + 3):
                want = [batch(i) for i in range(n)] + [H.END]
                ctor = f"{tape(n)}, {BATCH}, {q}"
                ops = ["get"] * (n + 1)
                check(c, f"{n} batches, producer ahead", World(), ctor, ops, want)
                check(c, f"{n} batches, consumer waits", World(eager=False), ctor, ops, want)
                for late in range(n + 1):
                    w = list(want)
                    w.insert(late, H.END)
                    check(c, f"{n} batches, wait {late + 1} runs out of time", World(eager=False, empty=[late]), ctor, ops + ["get"], w)
                if n > q:
                    for j in (1, 2, 3):
                        full = {i: j for i in range(q, n)}
                        check(c, f"{n} batches, buffer full {j} times", World(full=full), ctor, ops, want)
                    check(c, f"{n} batches, buffer full in turn", World(full={i: i % 3 for i in range(n)}), ctor, ops, want)
                if n >= q:
                    check(c, f"{n} batches, buffer full at the end of the stream", World(eos_full=True), ctor, ops, want,
                          key="buffer full at the end of the stream")
            n = q + 1
            for nm, kw in turns(min(n + 1, 4) if c.tier == "quick" else n + 2):
                check(c, f"{n} batches, {nm}", Turns(**kw), f"{tape(n)}, {BATCH}, {q}", ["get"] * (n + 1), [batch(i) for i in range(n)] + [H.END])
            check(c, "default buffer", World(), f"{tape(10)}, {BATCH}", ["get"] * 11, [batch(i) for i in range(10)] + [H.END])
            n = q + 2
            check(c, "stops producing at a full buffer", World(room=q), f"{tape(40)}, {BATCH}, {q}", ["get"] * q, [batch(i) for i in range(q)])


def dead(e):
    """All threads have ended."""
    live = [x for x in e.st.heap.get((W, "threads"), ()) if e.st.heap.get((x, "@state")) is LIVE]
    return (False, "a background thread may still be running") if live else (True, "")


def starts(n):
    def f(e):
        k = e.st.heap.get((W, "starts"), const(0)).args[0]
        if k != n:
            return False, f"{k} threads started instead of {n}"
        for x in e.st.heap.get((W, "threads"), ()):
            d = e.st.heap.get((x, "daemon"), dict(x.args[2]).get("daemon", FALSE))
            if d is not TRUE:
                return (False if d is FALSE else None), f"daemon={t.show(d, 2)}"
        return True, ""
    return f


def both(*fs):
    def f(e):
        for g in fs:
            v, d = g(e)
            if v is not True:
                return v, d
        return True, ""
    return f


def slow(e):
    """A timed join may return before the thread has ended."""
    return True, ""


@prop("P29", "the thread's life is interpreted under enumerated schedules: construction, first use, reset and shutdown with an empty, partly "
      "consumed, full and exhausted buffer, and a stop signal that arrives at every check of the worker", ASSUME)
def p29(c):
    thorough = c.tier == "thorough"
    with c.group("start"):
        ctor = f"{tape(9)}, {BATCH}, 2"
        check(c, "construction does not start the thread", World(), ctor, [("value", "s.is_running()")], [H.Value(False)], extra=starts(0))
        for q in ("s.get_flow_fields_shape()", "s.file_list", "s.steps_remaining()", "s.file_list = ['b']"):
            check(c, f"{q} does not start the thread", World(), ctor, [f"x = {q}" if "=" not in q else q], [], extra=starts(0))
        for eager in (True, False):
            for n in (1, 2, 4):
                check(c, f"one thread for {n} requests, {'eager' if eager else 'lazy'}", World(eager=eager), ctor, ["get"] * n,
                      [batch(i) for i in range(n)], extra=starts(1))
        check(c, "running after first use", World(room=3), ctor, [("value", "s.is_running()"), "get", ("value", "s.is_running()")],
              [H.Value(False), batch(0), H.Value(True)], extra=starts(1))
        check(c, "not running at the end", World(), f"{tape(1)}, {BATCH}, 2", ["get", "get", ("value", "s.is_running()")],
              [batch(0), H.END, H.Value(False)], extra=starts(1))
        for ops in (["s.next_episode()", "get"], ["s.next_episode()", "s.next_episode()", "get"], ["get", "s.next_episode()", "get"]):
            check(c, f"one thread for episodes ({len(ops)} calls, {ops[0]})", World(), f"Episodes(3, 4), {BATCH}, 2", ops, [], extra=starts(1))
    for q in sizes(c):
        with c.group(f"reset, buffer of {q}"):
            ctor = f"{tape(40)}, {BATCH}, {q}"
            again = [batch(i, 1) for i in range(2)]
            for k in range(0, q + 3):
                pre = ["get"] * k
                want = [batch(i) for i in range(k)]
                n = 1 if k else 0
                first = [k + q] if k else []
                check(c, f"full buffer after {k} requests", World(room=first + [2 + q]), ctor, pre + ["s.reset()"] + ["get"] * 2, want + again, extra=starts(n + 1))
                check(c, f"empty buffer after {k} requests", World(eager=False, room=first + [2 + q]), ctor, pre + ["s.reset()"] + ["get"] * 2, want + again, extra=starts(n + 1))
                check(c, f"twice after {k} requests", World(room=first + [2 + q]), ctor, pre + ["s.reset()", "s.reset()"] + ["get"] * 2,
                      want + [batch(i, 2) for i in range(2)], extra=starts(n + 1))
                check(c, f"again after {k} requests", World(room=first + [2 + q, 1 + q]), ctor, pre + ["s.reset()"] + ["get"] * 2 + ["s.reset()", "get"],
                      want + again + [batch(0, 2)], extra=starts(n + 2))
                check(c, f"not started again before use, {k} requests", World(room=k + q), ctor, pre + ["s.reset()", ("value", "s.is_running()")],
                      want + [H.Value(False)], extra=both(starts(n), dead))
            for k in range(0, min(q, 2) + 2):
                for rest in (0, 1, None):
                    for late in (0, 1):
                        for slow in (False, True):
                            nm = f"turns {rest}, full {late} times{', slow join' if slow else ''}"
                            alive = None if slow else dead
                            pre, want, n = ["get"] * k, [batch(i) for i in range(k)], 1 if k else 0
                            kw = dict(rest=rest, late=late, slow=slow)
                            check(c, f"after {k} requests, {nm}", Turns(**kw), ctor, pre + ["s.reset()"] + ["get"] * 2, want + again, extra=starts(n + 1))
                            check(c, f"twice after {k} requests, {nm}", Turns(**kw), ctor, pre + ["s.reset()", "get", "s.reset()"] + ["get"] * 2,
                                  want + [batch(0, 1)] + [batch(i, 2) for i in range(2)], extra=starts(n + 2))
                            check(c, f"shutdown after {k} requests, {nm}", Turns(**kw), ctor, pre + ["s.shutdown()"], want,
                                  extra=both(starts(n), alive) if alive else starts(n))
            check(c, "after a late producer", World(eager=False, empty=[0]), ctor, ["get", "s.reset()", "get", "get"], [H.END] + again)
            n = q + 1
            check(c, "after the end", World(), f"{tape(n)}, {BATCH}, {q}", ["get"] * (n + 1) + ["s.reset()"] + ["get"] * (n + 1),
                  [batch(i) for i in range(n)] + [H.END] + [batch(i, 1) for i in range(n)] + [H.END], extra=starts(2))
            check(c, "after an error", World(), f"{tape(1, ['error'])}, {BATCH}, {q}", ["get", "get", "s.reset()", "get", "get"],
                  [batch(0), H.Raises("OSError"), batch(0, 1), H.Raises("OSError")], extra=starts(2))
            check(c, "after an error, then a late producer", World(eager=False, empty=[3]), f"{tape(1, ['error'])}, {BATCH}, {q}",
                  ["get", "get", "s.reset()", "get", "get"], [batch(0), H.Raises("OSError"), batch(0, 1), H.END])
        with c.group(f"shutdown, buffer of {q}"):
            for k in range(0, q + 2):
                pre = ["get"] * k
                for eager in (True, False):
                    for twice in (False, True):
                        check(c, f"after {k} requests, {'eager' if eager else 'lazy'}{', twice' if twice else ''}", World(eager=eager, room=k + q), ctor,
                              pre + ["s.shutdown()"] * (1 + twice), [batch(i) for i in range(k)], extra=starts(1 if k else 0))
                for rest in (0, None):
                    for late in (0, 1):
                        for end in (["s.__del__()"], ["s.shutdown()", "s.__del__()"], ["s.reset()", "s.__del__()"]):
                            check(c, f"{', then '.join(end)} after {k} requests, turns {rest}, full {late} times", Turns(rest=rest, late=late), ctor,
                                  pre + end, [batch(i) for i in range(k)], extra=both(starts(1 if k else 0), dead))
            check(c, "after the end", World(), f"{tape(1)}, {BATCH}, {q}", ["get", "get", "s.shutdown()"], [batch(0), H.END], extra=both(starts(1), dead))
            check(c, "with a full buffer at the end", World(), f"{tape(q + 1)}, {BATCH}, {q}", ["get", "s.shutdown()"], [batch(0)], extra=both(starts(1), dead))
        with c.group(f"worker, buffer of {q}"):
            for at in range(0, (12 if thorough else 6)):
                for room in range(0, q + 1):
                    check(c, f"stop at check {at}, {room} free places", World(stop_at=at, room=room, always_full=True), ctor,
                          ["try:\n    s.get_batch(2)\nexcept StopIteration:\n    pass"], [])


@prop("P30", "every wait of the consumer is enumerated with its timeout; the ends of the stream (exhaustion, errors of requests and of new "
      "episodes) are interpreted under enumerated schedules", ASSUME)
def p30(c):
    def waits(e, first=(1,)):
        ws = e.st.heap.get((W, "waits"), ())
        per = {}
        for tmo, call in ws:
            per.setdefault(call.args[0], []).append(tmo)
        got = e.st.heap.get((W, "calls"), const(0)).args[0]
        for i in range(1, got + 1):
            w = 7.5 if i in first else 1.25
            xs = per.get(i, [])
            if not xs:
                return None, f"request {i} does not wait"
            if any(x is NONE for x in xs):
                return False, f"request {i} waits without a timeout"
            if len(xs) > 1:
                return None, f"request {i} waits {len(xs)} times"
            if not t.is_num(xs[0]):
                return None, f"request {i} waits for {t.show(xs[0], 3)[:80]}"
            if xs[0].args[0] != w:
                return False, f"request {i} waits for {t.show(xs[0])} instead of {w}"
        return True, ""
    for q in sizes(c):
        with c.group(f"buffer of {q}"):
            for eager in (True, False):
                nm = "eager" if eager else "lazy"
                check(c, f"timeouts, {nm}", World(eager=eager), f"{tape(9)}, {BATCH}, {q}", ["get"] * 4, [batch(i) for i in range(4)], extra=waits)
                for k in (0, 1, 2):
                    check(c, f"timeouts after a reset after {k} requests, {nm}", World(eager=eager), f"{tape(9)}, {BATCH}, {q}",
                          ["get"] * k + ["s.reset()"] + ["get"] * 2, [batch(i) for i in range(k)] + [batch(0, 1), batch(1, 1)],
                          extra=lambda e: waits(e, (1, k + 1)))
                for n in range(0, q + 3):
                    got = [batch(i) for i in range(n)]
                    check(c, f"end after {n}, {nm}", World(eager=eager), f"{tape(n)}, {BATCH}, {q}", ["get"] * (n + 1), got + [H.END])
                    check(c, f"error after {n}, {nm}", World(eager=eager), f"{tape(n, ['error'])}, {BATCH}, {q}", ["get"] * (n + 1), got + [H.Raises("OSError")])
                    if n >= q and eager:
                        check(c, f"error after {n}, full buffer", World(eos_full=True), f"{tape(n, ['error'])}, {BATCH}, {q}", ["get"] * (n + 1),
                              got + [H.Raises("OSError")])
                    if not eager:
                        for late in range(n + 1):
                            w = got + [H.Raises("OSError")]
                            w.insert(late, H.END)
                            check(c, f"error after {n}, wait {late + 1} runs out of time", World(eager=False, empty=[late]), f"{tape(n, ['error'])}, {BATCH}, {q}",
                                  ["get"] * (n + 2), w)
                for L in (1, 2):
                    for k in range(L + 1):
                        ops = ["get"] * k + ["s.next_episode()"] + ["get"] * L + ["s.next_episode()"] + ["get"] * (L if k == 0 else 1)
                        first = [step(0, i) for i in range(k)]
                        if k == 0:      # not started: the first episode follows
                            w = [step(0, i) for i in range(L)] + [H.Raises("OSError")] + [H.Raises("OSError", "StopIteration")] * (L - 1)
                        else:
                            w = first + [H.Raises("OSError")] + [H.Raises("OSError", "StopIteration")] * (L - 1) + [H.Raises("OSError", "StopIteration")]
                        check(c, f"error of the next episode ({L} steps, {k} served), {nm}", World(eager=eager), f"Episodes({L}, 9, broken=0), {BATCH}, {q}", ops, w)
                for L in (2, 3):
                    for k in range(1, L):
                        for f in range(k, L):
                            check(c, f"error at step {f} of {L} while {k} steps are served and the rest is skipped, {nm}", World(eager=eager),
                                  f"Episodes({L}, 9, fails={f}), {BATCH}, {q}", ["get"] * k + ["s.next_episode()", "get"],
                                  [step(0, i) for i in range(k)] + [H.Raises("OSError")])
            for n in range(0, q + 2):
                got = [batch(i) for i in range(n)]
                for what, end, w in (("end", (), H.END), ("error", ["error"], H.Raises("OSError"))):
                    for nm, kw in turns(min(n + 1, 3), lates=(0, 1, 3)):
                        check(c, f"{what} after {n}, {nm}", Turns(**kw), f"{tape(n, end)}, {BATCH}, {q}", ["get"] * (n + 1), got + [w])
                    for rest in (0, None):
                        for at in range(n + 1):
                            w2 = got + [w]
                            w2.insert(at, H.END)
                            check(c, f"{what} after {n}, wait {at + 1} runs out of time, then turns {rest}",
                                  Turns(word=(0,) * (at + 2), rest=rest, late=1, empty=[at]), f"{tape(n, end)}, {BATCH}, {q}", ["get"] * (n + 2), w2)
            check(c, "batch size differs", World(), f"{tape(3)}, {BATCH}, {q}", [("value", f"s.get_batch({BATCH + 1})")], [H.Raises("ValueError")])


def histories(L, thorough):
    """Requests and restarts up to two episodes, as (name, operations)."""
    out = []
    for r in ("s.next_episode()", "s.reset()"):
        nm = r[2:-2]
        for k in range(L + 2):
            out.append((f"{nm} after {k} requests", ["get"] * k + [r] + ["get"] * (L + 1)))
        out.append((f"{nm} twice", ["get", r, r] + ["get"] * (L + 1)))
        out.append((f"{nm} in every episode", ["get", r] + ["get"] * (L + 1) + [r, "get", r] + ["get"] * L))
    for k in range(L):
        out.append((f"mixed after {k} requests", ["get"] * k + ["s.next_episode()"] + ["get"] * k + ["s.reset()"] + ["get"] * L))
        out.append((f"mixed the other way after {k} requests", ["get"] * k + ["s.reset()"] + ["get"] * k + ["s.next_episode()"] + ["get"] * L))
    if thorough:
        import itertools
        for seq in itertools.product(["get", "s.next_episode()", "s.reset()"], repeat=L + 3):
            out.append((f"history {[x if x == 'get' else x[2:-2] for x in seq]}", list(seq)))
    return out


def story(ops, L):
    """Operations with the counter observed after each, and the outcomes wanted. Batches after the first restart are named by their
    position in an episode only."""
    full, want = [("value", "s.steps_remaining()"), ("value", "s.episode_length")], [H.Value(L)] * 2
    e, k, run, started = 0, 0, 0, False
    puts = 0
    for op in ops:
        full.append(op)
        if op == "get":
            if k < L:
                want.append(step(e, k, run))
                k += 1
            else:
                want.append(H.Raises("EpisodeEnd"))
            started = True
        elif "reset" in op:
            e, k, run, started = 0, 0, run + 1, False
        else:
            if started:
                e += 1
            k, started = 0, True
        full.append(("value", "s.steps_remaining()"))
        want.append(H.Value(L - k))
    return full, want


def episodes(c):
    """Episodes through the prefetching wrapper (P32)."""
    for L in (1, 2, 3):
        for q in (1, 2, 4) if c.tier == "quick" else (1, 2, 3, 4, 5):
            with c.group(f"prefetched, {L} steps, buffer of {q}"):
                ctor = f"Episodes({L}, 9), {BATCH}, {q}"
                for nm, ops in histories(L, c.tier != "quick" and L < 3):
                    full, want = story(ops, L)
                    for eager in (True, False):
                        check(c, f"{nm}, {'eager' if eager else 'lazy'}", World(eager=eager), ctor, full, want)
                if q < 3 or c.tier != "quick":
                    for nm, ops in histories(L, False):
                        full, want = story(ops, L)
                        for late in (0, 1):
                            for w, rest in ((), None), ((None, 0, 1), 0), ((0, 1, 0, 1, 1), 1):
                                check(c, f"{nm}, turns {w} then {rest}, full {late} times", Turns(word=w, rest=rest, late=late), ctor, full, want)
                # a flush that runs out of time leaves the rest of the episode to be skipped
                if L > 1:
                    for k in range(1, L):
                        for rest in (0, None):
                            for late in (0, 1, 2):
                                for at in range(k, L):
                                    full, want = story(["get"] * k + ["s.next_episode()"] + ["get"] * (L + 1) + ["s.next_episode()", "get"], L)
                                    w = (0,) * (at + 2) + (rest,)
                                    check(c, f"next_episode after {k} requests runs out of time at wait {at + 1}, then turns {rest}, full {late} times",
                                          Turns(word=w, rest=rest, late=late, empty=[at]), ctor, full, want)
                for k in range(1, L):
                    for late in range(k, L):
                        full, want = story(["get"] * k + ["s.next_episode()"] + ["get"] * (L + 1) + ["s.next_episode()", "get"], L)
                        check(c, f"next_episode after {k} requests runs out of time at wait {late + 1}", World(eager=False, empty=[late]), ctor, full, want)
                    full, want = story(["get"] * k + ["s.next_episode()", "s.next_episode()"] + ["get"] * L, L)
                    check(c, f"two flushes after {k} requests run out of time", World(eager=False, empty=[k, k + 1]), ctor, full, want)
                for k in range(1, L - 1):
                    for gap in (1, 2):
                        ops = ["get"] * k + ["s.next_episode()", "get"] + ["get"] * L
                        check(c, f"next_episode after {k} requests and the {gap}. wait of the next request run out of time", World(eager=False, empty=[k, k + gap]),
                              ctor, ops, [step(0, i) for i in range(k)] + [H.END] + [step(1, i) for i in range(L)])
                for k in range(1, L):
                    full, want = story(["get"] * k + ["s.next_episode()", "s.reset()"] + ["get"] * (L + 1), L)
                    check(c, f"next_episode after {k} requests runs out of time, then reset", World(eager=False, empty=[k]), ctor, full, want)
                # a request that ends or fails serves no step
                left = ("value", "s.steps_remaining()")
                for eager in (True, False):
                    ops, want = ["get", left] * L + ["s.next_episode()", "get", left, "get", left], []
                    for k in range(L):
                        want += [step(0, k), H.Value(L - k - 1)]
                    check(c, f"the stream ends, {'eager' if eager else 'lazy'}", World(eager=eager), f"Episodes({L}, 1), {BATCH}, {q}", ops,
                          want + [H.END, H.Value(L)] * 2)
                    for f in range(L):
                        check(c, f"step {f + 1} fails, {'eager' if eager else 'lazy'}", World(eager=eager), f"Episodes({L}, 9, fails={f}), {BATCH}, {q}",
                              ["get", left] * (f + 2), want[:2 * f] + [H.Raises("OSError"), H.Value(L - f)] * 2)
                # a request that runs out of time serves no step
                for late in range(L):
                    full, want = story(["get"] * (L + 1), L)
                    i = 2 + 2 * late
                    full[i:i] = ["get", ("value", "s.steps_remaining()")]
                    want[i:i] = [H.END, H.Value(L - late)]
                    check(c, f"request {late + 1} runs out of time", World(eager=False, empty=[late]), ctor, full, want)
