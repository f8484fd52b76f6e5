"""Schedules of a producer thread and its consumer.

The source of both sides is interpreted under one schedule at a time.  A
schedule fixes how the two run against each other:

  eager   the producer runs ahead as far as it can when it is started;
  lazy    the producer delivers each item only when the consumer waits for it,
          and nothing that it writes is visible before the item it precedes.

`full[n]` makes the n-th waiting put find the buffer full that many times,
`empty` lists the waiting gets that run out of time, `room` is the number of
puts after which the producer is stuck on a full buffer, and `stop_at` lets
the consumer's stop signal arrive at that check of the producer.
"""
from __future__ import annotations
from . import terms as t
from . import lib
from .terms import mk, const, T, NONE, TRUE, FALSE

W = mk("world")
SUSPEND, HANG = "@suspend", "@hang"
LIMIT = 30
CAP = 60        # puts of an endless producer


class World:
    def __init__(self, eager=True, full=None, empty=(), room=None, stop_at=None, always_full=False, eos_full=False):
        self.eager, self.full, self.empty, self.room, self.stop_at = eager, full or {}, set(empty), room, stop_at
        self.always_full, self.eos_full = always_full, eos_full
        self.logs = {}
        self.problems = []      # (what, loc)

    def close(self):
        pass

    def models(self):
        def clock(a, k, st):
            return "ret", self.get(st, "clock", const(1000.0))
        return {n: clock for n in ("time.time", "time.monotonic", "time.perf_counter")} | {"time.sleep": self.sleep}

    def sleep(self, a, k, st):
        self.advance(st, a[0] if a else NONE)
        return "ret", NONE

    # ------------------------------------------------------------ state
    def get(self, st, name, default=None):
        return st.heap.get((W, name), default)

    def put(self, st, name, v):
        st.heap[(W, name)] = v

    def count(self, st, name):
        n = self.get(st, name, const(0)).args[0]
        self.put(st, name, const(n + 1))
        return n

    def note(self, st, what, loc):
        """A problem on this path."""
        self.put(st, "problems", self.get(st, "problems", ()) + ((what, loc),))

    def advance(self, st, d):
        x = self.get(st, "clock", const(1000.0))
        self.put(st, "clock", const(x.args[0] + d.args[0]) if t.is_num(d) and t.is_num(x) else mk("later", x, d))

    def items(self, st, q):
        return st.heap.get((q, "@items"), mk("list"))

    def producer(self, st):
        return self.get(st, "thread")

    # ------------------------------------------------------------ hooks of the interpreter
    def getattr(self, interp, b, name, st):
        kind = b.args[0]
        if kind == "queue.Queue" and name == "queue":
            return mk("xqueue", b)
        if kind == "queue.Queue" and name == "maxsize":
            return dict(b.args[2]).get("maxsize", const(0))
        if kind == "threading.Thread" and name == "daemon":
            return dict(b.args[2]).get("daemon", FALSE)
        return None

    def method(self, interp, b, name, args, kwargs, st, fr, node, loc):
        """-> outcomes, or None when the call is not known"""
        st = st.copy()
        kind = b.args[0]
        kw = dict(kwargs)
        arg = lambda i, n, d: args[i] if i < len(args) else kw.get(n, d)
        if kind == "queue.Queue":
            if name in ("get", "get_nowait"):
                block, tmo = (FALSE, NONE) if name == "get_nowait" else (arg(0, "block", TRUE), arg(1, "timeout", NONE))
                return self.q_get(interp, b, block, tmo, st, loc)
            if name in ("put", "put_nowait"):
                block, tmo = (FALSE, NONE) if name == "put_nowait" else (arg(1, "block", TRUE), arg(2, "timeout", NONE))
                return self.q_put(interp, b, arg(0, "item", NONE), block, tmo, st, loc)
            n = len(self.items(st, b).args)
            if name == "qsize":
                return [(st, const(n))]
            if name == "empty":
                return [(st, const(n == 0))]
            if name == "full":
                m = self.maxsize(b)
                return [(st, const(m > 0 and n >= m))]
            if name in ("task_done",):
                return [(st, NONE)]
            return None
        if kind == "threading.Event":
            flag = st.heap.get((b, "@flag"), FALSE)
            if name == "set":
                st.heap[(b, "@flag")] = TRUE
                return [(st, NONE)]
            if name == "clear":
                st.heap[(b, "@flag")] = FALSE
                return [(st, NONE)]
            if name in ("is_set", "isSet", "wait"):
                if self.producer(st) is not None:
                    self.put(st, "watched", self.get(st, "watched", ()) + ((b,) if b not in self.get(st, "watched", ()) else ()))
                    n = self.count(st, "checks")
                    if self.stop_at is not None and n >= self.stop_at:
                        flag = TRUE
                        st.heap[(b, "@flag")] = TRUE
                        self.put(st, "told", TRUE)
                if name == "wait" and flag is not TRUE:
                    self.advance(st, arg(0, "timeout", NONE))
                return [(st, flag)]
            return None
        if kind == "threading.Thread":
            return self.thread(interp, b, name, arg, st, fr, node, loc)
        if kind in ("threading.Lock", "threading.RLock", "threading.Condition"):
            return [(st, TRUE if name == "acquire" else NONE)]
        return None

    def maxsize(self, q):
        m = dict(q.args[2]).get("maxsize", const(0))
        return m.args[0] if lib._cint(m) else 0

    # ------------------------------------------------------------ queue
    def q_get(self, interp, q, block, tmo, st, loc):
        def fail(s):
            if block is TRUE:
                self.advance(s, tmo)
            interp.raise_(s, mk("excobj", "queue.Empty", ()), loc)
            return []
        me = self.producer(st)
        if me is None:
            if block is TRUE:
                n = self.count(st, "gets")
                self.put(st, "waits", self.get(st, "waits", ()) + ((tmo, self.get(st, "calls", const(0))),))
                if n in self.empty:
                    if tmo is NONE:
                        self.note(st, "get() without a timeout although the producer is late", loc)
                        interp.raise_(st, mk("excobj", HANG, ()), loc)
                        return []
                    return fail(st)
            if not self.items(st, q).args and block is TRUE:
                self.deliver(st, q)
        xs = self.items(st, q).args
        if not xs and block is TRUE and any(st.heap.get((x, "@state")) is LIVE for x in self.get(st, "threads", ())):
            interp.raise_(st, mk("excobj", SUSPEND, ()), loc)     # beyond the schedule
            return []
        if not xs:
            if block is TRUE and tmo is NONE:
                self.note(st, "get() without a timeout and nothing left to come", loc)
                interp.raise_(st, mk("excobj", HANG, ()), loc)
                return []
            return fail(st)
        st.heap[(q, "@items")] = mk("list", *xs[1:])
        return [(st, xs[0])]

    def deliver(self, st, q=None, late=False):
        """The producer puts its next item (lazy schedule)."""
        key = self.get(st, "log")
        if key is None:
            return
        log = self.logs[key.args[0]]
        i = self.get(st, "delivered", const(0)).args[0]
        if i >= len(log):
            return
        qq, item, writes, th = log[i]
        self.put(st, "delivered", const(i + 1))
        for k, v in writes.items():
            if v is None:
                st.heap.pop(k, None)
            else:
                st.heap[k] = v
        if qq is not None:
            st.heap[(qq, "@items")] = mk("list", *self.items(st, qq).args, item)
        if i + 1 == len(log):
            self.finish(st, th)

    def finish(self, st, th):
        if st.heap.get((th, "@state")) is LIVE:
            st.heap[(th, "@state")] = const("ended")

    def q_put(self, interp, q, item, block, tmo, st, loc):
        me = self.producer(st)
        xs = self.items(st, q).args
        m = self.maxsize(q)
        if me is None:      # the consumer's own put
            if m and len(xs) >= m:
                if block is TRUE and tmo is NONE:
                    self.note(st, "put() without a timeout on a full buffer", loc)
                    interp.raise_(st, mk("excobj", HANG, ()), loc)
                    return []
                interp.raise_(st, mk("excobj", "queue.Full", ()), loc)
                return []
            st.heap[(q, "@items")] = mk("list", *xs, item)
            return [(st, NONE)]
        n = self.get(st, "puts", const(0)).args[0]
        timed = block is not TRUE or tmo is not NONE
        full = False
        room = self.room
        if isinstance(room, (list, tuple)):     # one number per thread
            room = room[min(self.get(st, "starts").args[0], len(room)) - 1]
        if n >= (CAP if room is None else room):
            if not self.always_full or not timed:
                self.put(st, "pending", mk("pending", q, item, const(timed)))
                interp.raise_(st, mk("excobj", SUSPEND, ()), loc)
                return []
            full = True
        elif m and len(xs) >= m or m and not self.eager and n >= m:
            j = self.get(st, ("tries", n), const(0)).args[0]
            if j < self.full.get(n, 0):
                self.put(st, ("tries", n), const(j + 1))
                full = timed
        if self.eos_full and item is NONE and m and n >= m:
            full = timed
        if full:
            if block is TRUE:
                self.advance(st, tmo)
            k = self.count(st, "fulls")
            if k > LIMIT:
                self.note(st, "keeps waiting for the full buffer" + (" after the stop signal" if self.get(st, "told") is TRUE else ""), loc)
                interp.raise_(st, mk("excobj", HANG, ()), loc)
                return []
            interp.raise_(st, mk("excobj", "queue.Full", ()), loc)
            return []
        self.put(st, "puts", const(n + 1))
        if self.get(st, "told") is TRUE and self.count(st, "puts after stop") > LIMIT:
            self.note(st, "keeps producing after the stop signal", loc)
            interp.raise_(st, mk("excobj", HANG, ()), loc)
            return []
        st.heap[(q, "@items")] = mk("list", *xs, item)
        self.snapshot(st, q, item)
        return [(st, NONE)]

    def snapshot(self, st, q, item):
        if self.eager:
            return
        key = self.get(st, "rec").args[0]
        # one log per path: extended copies
        log, base = self.logs[key]
        now = {k: v for k, v in st.heap.items() if k[0] is not W and not (k[1] == "@items")}
        writes = {k: v for k, v in now.items() if base.get(k) is not v}
        writes |= {k: None for k in base if k not in now}
        new = len(self.logs)
        self.logs[new] = (log + [(q, item, writes, self.producer(st))], now)
        self.put(st, "rec", const(new))

    def mutate(self, st, q, name, args):
        """In-place change of Queue.queue. -> (value, ok)"""
        xs = list(self.items(st, q).args)
        v = NONE
        if name == "append":
            xs.append(args[0])
        elif name == "appendleft":
            xs.insert(0, args[0])
        elif name == "clear":
            xs = []
        elif name in ("popleft", "pop"):
            if not xs:
                return None
            # the queue holds only what the consumer has not taken yet
            m = self.maxsize(q)
            i = (max(0, len(xs) - m) if m and self.producer(st) is not None else 0) if name == "popleft" else -1
            v = xs.pop(i)
        else:
            return None
        st.heap[(q, "@items")] = mk("list", *xs)
        if name == "append" and self.producer(st) is not None:
            self.put(st, "puts", const(self.get(st, "puts", const(0)).args[0] + 1))
            self.snapshot(st, q, args[0])
        return v

    # ------------------------------------------------------------ threads
    def thread(self, interp, th, name, arg, st, fr, node, loc):
        state = st.heap.get((th, "@state"))
        if name == "is_alive":
            if state is not LIVE:
                return [(st, FALSE)]
            return [(st, TRUE)]
        if name == "start":
            self.count(st, "starts")
            if state is not None:
                self.note(st, "a thread is started twice", loc)
                interp.raise_(st, mk("excobj", "RuntimeError", ()), loc)
                return []
            self.leftovers(st, "when the next one is started", loc)
            self.put(st, "threads", self.get(st, "threads", ()) + (th,))
            return self.run(interp, th, st, fr, node, loc)
        if name == "join":
            if state is None:
                self.note(st, "a thread that was not started is joined", loc)
                interp.raise_(st, mk("excobj", "RuntimeError", ()), loc)
                return []
            tmo = arg(0, "timeout", NONE)
            if state is not LIVE:
                return [(st, NONE)]
            return self.join(interp, th, tmo, st, loc)
        return None

    def leftovers(self, st, when, loc):
        for x in self.get(st, "threads", ()):
            if st.heap.get((x, "@state")) is LIVE:
                self.note(st, f"an earlier thread may still be running {when}", loc)

    def run(self, interp, th, st, fr, node, loc):
        from .interp import Collector
        kw = dict(th.args[2])
        target = kw.get("target", NONE)
        args = lib.enumerate_items(kw["args"]) if "args" in kw else []
        st.heap[(th, "@state")] = LIVE
        if target is NONE or args is None:
            return None
        pre = st.copy()
        st.heap[(W, "thread")] = th
        st.heap[(W, "puts")] = const(0)
        if not self.eager:
            new = len(self.logs)
            self.logs[new] = ([], {k: v for k, v in st.heap.items() if k[0] is not W and k[1] != "@items"})
            self.put(st, "rec", const(new))
        for v in ("pending", "watched", "log", "delivered", "checks", "fulls", "told"):
            st.heap.pop((W, v), None)
            pre.heap.pop((W, v), None)
        saved, interp.collectors = interp.collectors, [Collector(None)]
        kws = kw.get("kwargs", NONE)
        kws = {k.args[0]: v for k, v in kws.args[0]} if kws.op == "dict" else {}
        try:
            rs = [(s, None) for s, _ in interp.call(target, list(args), kws, st, fr, node)]
            rs += [(s, exc) for s, exc, _ in interp.collectors[0].items]
        finally:
            interp.collectors = saved
        out = []
        for s, exc in rs:
            s = s.copy()
            s.heap.pop((W, "thread"), None)
            end = const("ended")
            if exc is not None and exc.op == "excobj" and exc.args[0] == SUSPEND:
                end = LIVE
            elif exc is not None and exc.op == "excobj" and exc.args[0] == HANG:
                end = LIVE
            elif exc is not None:
                self.put(s, "died", mk("died", exc))
            if self.eager:
                s.heap[(th, "@state")] = end
                out.append((s, NONE))
                continue
            log, base = self.logs[self.get(s, "rec").args[0]]
            now = {k: v for k, v in s.heap.items() if k[0] is not W and k[1] != "@items"}
            if end is not LIVE:
                writes = {k: v for k, v in now.items() if base.get(k) is not v}
                if writes or not log:
                    log = log + [(None, None, writes, th)]
            p = pre.copy()
            for v in ("pending", "watched", "problems", "died"):
                if (W, v) in s.heap:
                    p.heap[(W, v)] = s.heap[(W, v)]
            p.guards, p.facts, p.trace, p.cnt = s.guards, s.facts, s.trace, s.cnt
            new = len(self.logs)
            self.logs[new] = log
            self.put(p, "log", const(new))
            self.put(p, "delivered", const(0))
            out.append((p, NONE))
        return out

    def join(self, interp, th, tmo, st, loc):
        told = [e for e in self.get(st, "watched", ()) if st.heap.get((e, "@flag")) is TRUE]
        if not self.eager and self.get(st, "log") is not None:
            log = self.logs[self.get(st, "log").args[0]]
            i = self.get(st, "delivered", const(0)).args[0]
            busy = i < len(log)
        else:
            busy = True
        pend = self.get(st, "pending")
        if busy and not told:
            self.note(st, "waits for a thread that was not told to stop", loc)
            if tmo is NONE:
                interp.raise_(st, mk("excobj", HANG, ()), loc)
                return []
            return [(st, NONE)]
        if pend is not None and self.eager:
            q, item, timed = pend.args
            m = self.maxsize(q)
            if len(self.items(st, q).args) < m or m == 0:
                st.heap[(q, "@items")] = mk("list", *self.items(st, q).args, item)
            elif timed is FALSE:
                self.note(st, "waits for a thread that is stuck on a full buffer", loc)
                if tmo is NONE:
                    interp.raise_(st, mk("excobj", HANG, ()), loc)
                    return []
                return [(st, NONE)]
            self.put(st, "pending", None)
            st.heap.pop((W, "pending"), None)
        elif not self.eager and busy:
            qq = log[i][0]
            if qq is None or self.maxsize(qq) == 0 or len(self.items(st, qq).args) < self.maxsize(qq):
                self.deliver(st)
        if tmo is not NONE and self.count(st, ("joins", th)) < 2:
            # the wrapped scheduler may take longer than any fixed time
            self.put(st, "slow", TRUE)
            return [(st, NONE)]
        st.heap[(th, "@state")] = const("ended")
        return [(st, NONE)]


LIVE = const("live")


class Killed(BaseException):
    pass


class Side:
    """One thread of the interpreted program, suspended and resumed at its switch points."""

    def __init__(self, interp, body):
        import threading
        self.interp, self.body = interp, body
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.dyn, self.inbox, self.outbox, self.error, self.killed, self.ended = None, None, None, None, False, False
        self.th = threading.Thread(target=self._main, daemon=True)
        self.started = False

    def _main(self):
        self.go.acquire()
        try:
            if not self.killed:
                self.outbox = ("end", self.body(self.inbox))
        except Killed:
            pass
        except BaseException as e:      # Budget and errors of the analyser: raised on the other side
            self.error = e
        self.ended = True
        self.back.release()

    def _dyn(self):
        I = self.interp
        return I.collectors, I.stack, I.active_iters, I.loops, I.lazynode, I.lazygen, getattr(I, "argplaces", None)

    def _set(self, d):
        I = self.interp
        I.collectors, I.stack, I.active_iters, I.loops, I.lazynode, I.lazygen, I.argplaces = d

    def resume(self, st):
        """-> (what, state or outcomes)"""
        from .interp import Collector
        mine = self._dyn()
        self._set(self.dyn or ([Collector(None)], [], [], [], None, False, None))
        self.inbox = st
        if not self.started:
            self.started = True
            self.th.start()
        self.go.release()
        self.back.acquire()
        self.dyn = self._dyn()
        self._set(mine)
        if self.error is not None:
            raise self.error
        return self.outbox

    def leave(self, what, st):
        """Called by this side: the other one goes on."""
        self.outbox = (what, st)
        self.back.release()
        self.go.acquire()
        if self.killed:
            raise Killed()
        return self.inbox

    def kill(self):
        if self.started and not self.ended:
            self.killed = True
            self.go.release()
            self.back.acquire()


class Turns(World):
    """Both sides take turns on the same state.

    Before each of its queue operations the consumer lets the producer complete
    `word[i]` puts (`rest` beyond the word; None: as many as it can).  A put that
    finds the buffer full runs out of time `late` times before it waits for room.
    `empty` lists the waiting gets that run out of time before the producer moves."""

    def __init__(self, word=(), rest=0, late=0, empty=(), slow=False):
        super().__init__(empty=empty)
        self.word, self.rest, self.late, self.slow = word, rest, late, slow
        self.sides = {}
        self.turn = 0

    def close(self):
        for s in self.sides.values():
            s.kill()
        self.sides = {}

    def hand(self, st):
        """Only the newest state goes on: there is one path."""
        from .interp import Budget
        if self.get(st, "turn", const(0)).args[0] != self.turn:
            raise Budget("more than one path while threads take turns")
        st = st.copy()
        self.turn += 1
        self.put(st, "turn", const(self.turn))
        return st

    def live(self, st):
        for th in self.get(st, "threads", ()):
            if st.heap.get((th, "@state")) is LIVE and th in self.sides:
                yield th

    def go(self, st, th):
        """Let the producer run to its next switch point. -> (what, state)"""
        st = self.hand(st)
        self.put(st, "thread", th)
        what, r = self.sides[th].resume(st)
        if what == "end":
            st, exc = r
            st = st.copy()
            st.heap[(th, "@state")] = const("ended")
            if exc is not None:
                self.put(st, "died", mk("died", exc))
        else:
            st = r
        st = self.hand(st)
        st.heap.pop((W, "thread"), None)
        return what, st

    def advance_by(self, st, k):
        """The producer completes k puts (None: as many as it can)."""
        for th in list(self.live(st)):
            n = 0
            while k is None or n < k:
                what, st = self.go(st, th)
                if what != "put":
                    break
                n += 1
                if n > CAP:
                    break
        return st

    def before(self, st):
        i = self.count(st, "ops")
        k = self.word[i] if i < len(self.word) else self.rest
        return self.advance_by(st, k) if k != 0 else st

    # ------------------------------------------------------------ queue
    def q_get(self, interp, q, block, tmo, st, loc):
        def fail(s):
            if block is TRUE:
                self.advance(s, tmo)
            interp.raise_(s, mk("excobj", "queue.Empty", ()), loc)
            return []
        if self.producer(st) is None:
            st = self.before(st)
            if block is TRUE:
                n = self.count(st, "gets")
                if n in self.empty and not self.items(st, q).args:
                    if tmo is NONE:
                        self.note(st, "get() without a timeout although the producer is late", loc)
                        interp.raise_(st, mk("excobj", HANG, ()), loc)
                        return []
                    return fail(st)
                if not self.items(st, q).args:
                    st = self.advance_by(st, 1)
        xs = self.items(st, q).args
        if not xs:
            if block is TRUE and tmo is NONE:
                self.note(st, "get() without a timeout and nothing left to come", loc)
                interp.raise_(st, mk("excobj", HANG, ()), loc)
                return []
            return fail(st)
        st.heap[(q, "@items")] = mk("list", *xs[1:])
        return [(st, xs[0])]

    def q_put(self, interp, q, item, block, tmo, st, loc):
        me = self.producer(st)
        m = self.maxsize(q)
        timed = block is not TRUE or tmo is not NONE
        if me is None:
            st = self.before(st)
            if m and len(self.items(st, q).args) >= m and timed is False:
                self.note(st, "put() without a timeout on a full buffer", loc)
                interp.raise_(st, mk("excobj", HANG, ()), loc)
                return []
        else:
            n = self.get(st, "puts", const(0)).args[0]
            j = self.get(st, ("tries", n), const(0)).args[0]
            waited = 0
            while m and len(self.items(st, q).args) >= m and not (timed and j < self.late):
                st = self.sides[me].leave("full", st)
                waited += 1
                if timed and len(self.items(st, q).args) >= m:
                    break
                if waited > LIMIT:
                    from .interp import Budget
                    raise Budget("a put waits for ever")
            self.put(st, ("tries", n), const(j + 1))
        xs = self.items(st, q).args
        if m and len(xs) >= m:
            if block is TRUE:
                self.advance(st, tmo)
            if me is not None and self.count(st, "fulls") > LIMIT:
                self.note(st, "keeps waiting for the full buffer" + (" after the stop signal" if self.get(st, "told") is TRUE else ""), loc)
                interp.raise_(st, mk("excobj", HANG, ()), loc)
                return []
            interp.raise_(st, mk("excobj", "queue.Full", ()), loc)
            return []
        st.heap[(q, "@items")] = mk("list", *xs, item)
        if me is not None:
            self.put(st, "puts", const(self.get(st, "puts", const(0)).args[0] + 1))
            st = self.sides[me].leave("put", st)
        return [(st, NONE)]

    def mutate(self, st, q, name, args):
        xs = list(self.items(st, q).args)
        v = NONE
        if name == "append":
            xs.append(args[0])
        elif name == "appendleft":
            xs.insert(0, args[0])
        elif name == "clear":
            xs = []
        elif name in ("popleft", "pop"):
            if not xs:
                return None
            v = xs.pop(0 if name == "popleft" else -1)
        else:
            return None
        st.heap[(q, "@items")] = mk("list", *xs)
        return v

    # ------------------------------------------------------------ threads
    def run(self, interp, th, st, fr, node, loc):
        kw = dict(th.args[2])
        target = kw.get("target", NONE)
        args = lib.enumerate_items(kw["args"]) if "args" in kw else []
        kws = kw.get("kwargs", NONE)
        kws = {k.args[0]: v for k, v in kws.args[0]} if kws.op == "dict" else {}
        if target is NONE or args is None:
            return None

        def body(s):
            from .interp import Budget
            rs = [(x, None) for x, _ in interp.call(target, list(args), kws, s, fr, node)]
            rs += [(x, exc) for x, exc, _ in interp.collectors[0].items]
            if len(rs) != 1:
                raise Budget("more than one path in a thread")
            return rs[0]
        st.heap[(th, "@state")] = LIVE
        self.put(st, "puts", const(0))
        for v in ("watched", "fulls", "told"):
            st.heap.pop((W, v), None)
        for k in [k for k in st.heap if k[0] is W and isinstance(k[1], tuple) and k[1][0] == "tries"]:
            del st.heap[k]
        self.sides[th] = Side(interp, body)
        return [(self.before(st), NONE)]

    def join(self, interp, th, tmo, st, loc):
        told = [e for e in self.get(st, "watched", ()) if st.heap.get((e, "@flag")) is TRUE]
        if self.slow and tmo is not NONE and self.count(st, ("joins", th)) < 1:
            return [(st, NONE)]
        n = 0
        while st.heap.get((th, "@state")) is LIVE:
            what, st = self.go(st, th)
            n += 1
            told = told or [e for e in self.get(st, "watched", ()) if st.heap.get((e, "@flag")) is TRUE]
            if st.heap.get((th, "@state")) is not LIVE:
                break
            if n > LIMIT or what == "full" and not told:
                self.note(st, "waits for a thread that was not told to stop" if not told else "waits for a thread that does not stop", loc)
                if tmo is NONE:
                    interp.raise_(st, mk("excobj", HANG, ()), loc)
                    return []
                break
        return [(st, NONE)]
