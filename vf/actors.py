"""Actors used by the workloads.  Importable in sub pools (PYTHONPATH=/verif)."""
import asyncio
import os
import time

import xoscar as xo

from . import mon


class Boom(Exception):
    """User exception with state; survives pickling through args."""

    def __init__(self, token, extra=None):
        super().__init__(token, extra)
        self.token = token
        self.extra = extra


def f(token):
    """What a call with `token` must answer."""
    return ("re", token, len(str(token)))


# --- C01 ------------------------------------------------------------------
class Section:
    """Monitors one actor: who is inside, in what order, who overlapped."""

    def __init__(self):
        self.inside = []
        self.trace = []
        self.overlaps = []
        self.maxin = 0

    def __call__(self, tag):
        return _Sec(self, tag)


class _Sec:
    def __init__(self, s, tag):
        self.s, self.tag = s, tag

    def __enter__(self):
        s = self.s
        if s.inside:
            s.overlaps.append((list(s.inside), self.tag))
        s.inside.append(self.tag)
        s.maxin = max(s.maxin, len(s.inside))
        s.trace.append("+" + self.tag)

    def __exit__(self, *a):
        self.s.inside.remove(self.tag)
        self.s.trace.append("-" + self.tag)


class _Awaited:
    def __init__(self, gate):
        self.gate = gate

    def __await__(self):
        return self.gate.wait().__await__()


class ExclMixin:
    def __init__(self, peer=None):
        super().__init__()
        self.sec = Section()
        self.bal = 0
        self.applied = 0
        self.peer = peer
        self.gate = asyncio.Event()

    def sync_add(self, tag, k):
        with self.sec("s" + tag):
            b = self.bal
            self.bal = b + k
            self.applied += 1
            return self.bal

    async def async_add(self, tag, k, d, n=1):
        with self.sec("a" + tag):
            b = self.bal
            for _ in range(n):
                await asyncio.sleep(d)
            self.bal = b + k
            self.applied += 1
            return self.bal

    async def peer_add(self, tag, k, d):
        """Calls another actor while holding this one's lock."""
        with self.sec("p" + tag):
            b = self.bal
            await self.peer.relay(d)
            self.bal = b + k
            self.applied += 1
            return self.bal

    async def fail(self, tag, d):
        with self.sec("f" + tag):
            await asyncio.sleep(d)
            raise Boom(tag)

    def sync_fail(self, tag):
        with self.sec("x" + tag):
            raise Boom(tag)

    async def gen_add(self, tag, k, d, steps=2):
        """Generator method: the lock is released exactly at the yields."""
        for i in range(steps):
            with self.sec(f"g{i}" + tag):
                b = self.bal
                await asyncio.sleep(d)
                self.bal = b + k
                self.applied += 1
            got = yield asyncio.sleep(d, ("y", i))
            with self.sec(f"h{i}" + tag):
                if got != ("y", i):
                    raise RuntimeError(f"yield gave {got!r}")
        raise xo.Return(("gen", tag))

    async def gen_tuple(self, tag, k, d):
        with self.sec("t" + tag):
            b = self.bal
            await asyncio.sleep(d)
            self.bal = b + k
            self.applied += 1
        r = yield asyncio.sleep(d, 1), asyncio.sleep(0, 2)
        with self.sec("u" + tag):
            await asyncio.sleep(0)
            assert r == (1, 2), r
        raise xo.Return(("tup", tag))

    async def _part_fails(self, d, tag):
        await asyncio.sleep(d)
        raise Boom(tag)

    async def gen_fail(self, tag, k, d):
        """The awaited part fails; what follows the yield runs under the lock again."""
        with self.sec("m" + tag):
            b = self.bal
            await asyncio.sleep(d)
            self.bal = b + k
        try:
            yield self._part_fails(d, tag)
        except Boom as e:
            with self.sec("n" + tag):
                b = self.bal
                await asyncio.sleep(d)
                self.bal = b + k
                assert e.token == tag
        with self.sec("o" + tag):
            await asyncio.sleep(0)
        yield 5
        with self.sec("q" + tag):
            await asyncio.sleep(0)
        raise xo.Return(("genfail", tag))

    async def gen_self(self, tag, k, d):
        """Calls itself at a yield, where the lock is free."""
        with self.sec("A" + tag):
            await asyncio.sleep(d)
        yield self.ref().async_add(tag + "self", k, d)
        with self.sec("B" + tag):
            await asyncio.sleep(0)
        yield self.ref().sync_add(tag + "sync", k), self.ref().async_add.tell(tag + "told", k, d)
        with self.sec("C" + tag):
            await asyncio.sleep(0)
        raise xo.Return(("genself", tag))

    async def gen_raise(self, tag, k, d):
        with self.sec("D" + tag):
            b = self.bal
            await asyncio.sleep(d)
            self.bal = b + k
        yield asyncio.sleep(d)
        with self.sec("E" + tag):
            await asyncio.sleep(0)
            raise Boom(tag)

    async def returns_coro(self, tag, k, d):
        """Returned awaitables run after the lock is released."""
        with self.sec("r" + tag):
            b = self.bal
            await asyncio.sleep(d)
            self.bal = b + k
            self.applied += 1
        return asyncio.sleep(d, ("rc", tag))

    @xo.extensible
    async def ext(self, tag, k, d):
        with self.sec("e" + tag):
            b = self.bal
            await asyncio.sleep(d)
            self.bal = b + k
            self.applied += 1
            return k

    @ext.batch
    async def batch_ext(self, args_list, kwargs_list):
        with self.sec("b" + args_list[0][0]):
            b = self.bal
            tot = 0
            out = []
            for a in args_list:
                tot += a[1]
                await asyncio.sleep(a[2])
                self.applied += 1
                out.append(a[1])
            self.bal = b + tot
            return out

    async def wait_gate_yield(self):
        """Others must be able to run while this waits at a yield."""
        with self.sec("W"):
            self.gate.clear()
        yield self.gate.wait()
        with self.sec("V"):
            pass
        raise xo.Return("gate-open")

    async def wait_gate_ret(self):
        with self.sec("W"):
            self.gate.clear()
        return self.gate.wait()

    async def wait_gate_tuple(self):
        with self.sec("W"):
            self.gate.clear()
        return self.gate.wait(), 1

    def wait_gate_future(self):
        """Not a coroutine: what it returns is awaited outside."""
        with self.sec("W"):
            self.gate.clear()
        return asyncio.ensure_future(self.gate.wait())

    def wait_gate_object(self):
        with self.sec("W"):
            self.gate.clear()
        return _Awaited(self.gate)

    def wait_gate_futures(self):
        with self.sec("W"):
            self.gate.clear()
        return 1, asyncio.ensure_future(self.gate.wait()), _Awaited(self.gate)

    async def open_gate(self):
        with self.sec("O"):
            self.gate.set()
        return "opened"

    async def report(self):
        return dict(trace=list(self.sec.trace), overlaps=list(self.sec.overlaps), inside=list(self.sec.inside),
                    bal=self.bal, applied=self.applied, maxin=self.sec.maxin)


class Excl(ExclMixin, xo.Actor):
    pass


EXCL_KINDS = ["sync_add", "async_add", "peer_add", "gen_add", "gen_tuple", "gen_fail", "gen_self", "gen_raise", "returns_coro", "ext", "batch", "batch_tell",
              "fail", "sync_fail", "tell", "tell_gen", "tell_delay", "cancel", "cancel_gen", "cancel_batch"]


def excl_expected(op):
    kind, tag, k, d = op
    return {"gen_add": 2 * k, "gen_fail": 2 * k, "gen_self": 3 * k, "tell_gen": 2 * k, "batch": 2 * k + 2, "batch_tell": 2 * k + 1, "fail": 0, "sync_fail": 0,
            "cancel": 0, "cancel_gen": 0, "cancel_batch": 0}.get(kind, k)


async def excl_do(ref, op, start):
    """One operation on an Excl actor, from wherever this runs."""
    kind, tag, k, d = op
    await asyncio.sleep(start)
    if kind == "sync_add":
        await ref.sync_add(tag, k)
    elif kind == "batch":
        m = ref.ext
        await m.batch(m.delay(tag + "x", k, d), m.delay(tag + "y", k + 1, d), m.delay(tag + "z", 1, 0))
    elif kind == "batch_tell":
        m = ref.ext
        await m.batch(m.delay(tag + "x", k, d), m.delay(tag + "y", k + 1, d), send=False)
    elif kind in ("fail", "sync_fail", "gen_raise"):
        try:
            await (ref.sync_fail(tag) if kind == "sync_fail" else ref.fail(tag, d) if kind == "fail" else ref.gen_raise(tag, k, d))
        except Boom as e:
            assert e.token == tag, (e.token, tag)
        else:
            raise RuntimeError("exception swallowed")
    elif kind == "tell":
        await ref.async_add.tell(tag, k, d)
    elif kind == "tell_gen":
        await ref.gen_add.tell(tag, k, d)
    elif kind == "tell_delay":
        await ref.async_add.tell_delay(tag, k, d, delay=d)
    elif kind.startswith("cancel"):
        m = ref.ext
        t = asyncio.ensure_future(ref.async_add(tag, 0, d) if kind == "cancel" else ref.gen_add(tag, 0, d) if kind == "cancel_gen"
                                  else m.batch(m.delay(tag + "x", 0, d), m.delay(tag + "y", 0, d)))
        await asyncio.sleep(d / 2)
        t.cancel()
        try:
            await t
        except asyncio.CancelledError:
            pass
    else:
        await getattr(ref, kind)(tag, k, d)


class Relay(xo.StatelessActor):
    async def relay(self, d):
        await asyncio.sleep(d)
        return d


class Free(ExclMixin, xo.StatelessActor):
    """Same code, stateless: bodies may and must be able to overlap."""

    def __init__(self):
        super().__init__()
        self.arrived = 0
        self.bar = asyncio.Event()

    async def meet(self, n):
        self.arrived += 1
        if self.arrived >= n:
            self.bar.set()
        await self.bar.wait()
        return self.arrived


class HalfFree(xo.Actor):
    """Stateful actor with one method exempt from the lock."""

    def __init__(self):
        super().__init__()
        self.arrived = 0
        self.bar = asyncio.Event()

    @xo.no_lock
    async def meet(self, n):
        self.arrived += 1
        if self.arrived >= n:
            self.bar.set()
        await self.bar.wait()
        return self.arrived

    async def hold(self, n):
        """Holds the lock until the no_lock calls have met."""
        await self.bar.wait()
        return self.arrived


class Spawner(xo.Actor):
    """Calls a target from inside a pool: by local reference when it lives here."""

    async def run(self, calls):
        """calls: [(address, uid, method, args, mode)] -> outcomes, all concurrently."""
        tasks = []
        kinds = []
        for addr, uid, meth, args, mode in calls:
            ref = await xo.actor_ref(addr, uid)
            kinds.append(type(ref).__name__)
            m = getattr(ref, meth) if meth else None
            if mode == "op":
                tasks.append(asyncio.ensure_future(excl_do(ref, args[0], args[1])))
            elif mode == "tell":
                tasks.append(asyncio.ensure_future(_tell(m, args)))
            elif mode == "cancel":
                tasks.append(asyncio.ensure_future(_cancelled(m, args)))
            else:
                tasks.append(asyncio.ensure_future(m(*args)))
        res = await asyncio.gather(*tasks, return_exceptions=True)
        return [norm(r) for r in res], kinds


async def _tell(m, args):
    await m.tell(*args)
    return "told"


async def _cancelled(m, args, after=0.002):
    t = asyncio.ensure_future(m(*args))
    await asyncio.sleep(after)
    t.cancel()
    try:
        await t
    except asyncio.CancelledError:
        return "cancelled"
    return "finished"


def norm(r):
    if isinstance(r, BaseException):
        names = [c.__name__ for c in type(r).__mro__]
        return ("EXC", names, getattr(r, "token", None), str(r)[:300])
    return ("OK", r)


# --- C02: exactly once, per-sender order ------------------------------------
class SinkMixin:
    def __init__(self):
        super().__init__()
        self.log = []

    async def put(self, sender, seq, d=0, payload=None):
        self.log.append((sender, seq))
        if d:
            await asyncio.sleep(d)
        return (sender, seq, len(payload) if payload is not None else None)

    def put_sync(self, sender, seq, payload=None):
        self.log.append((sender, seq))
        return (sender, seq, len(payload) if payload is not None else None)

    async def busy(self, d):
        await asyncio.sleep(d)

    async def put_gen(self, sender, seq, d=0):
        self.log.append((sender, seq))
        yield asyncio.sleep(d)
        raise xo.Return((sender, seq, None))

    @xo.extensible
    def put_ext(self, sender, seq):
        self.log.append((sender, seq))
        return (sender, seq, None)

    def seen(self):
        return list(self.log)

    def count(self):
        return len(self.log)


class Sink(SinkMixin, xo.Actor):
    pass


class FreeSink(SinkMixin, xo.StatelessActor):
    pass


async def stream(ref, sender, ops, wrong):
    """One sender: issues ops in order, awaiting each.  Returns what it saw."""
    for seq, (mode, d, size) in enumerate(ops):
        payload = b"x" * size if size >= 0 else None
        if mode == "call":
            r = await ref.put(sender, seq, d, payload)
            want = (sender, seq, None if payload is None else size)
        elif mode == "sync":
            r = await ref.put_sync(sender, seq, payload)
            want = (sender, seq, None if payload is None else size)
        elif mode == "gen":
            r = await ref.put_gen(sender, seq, d)
            want = (sender, seq, None)
        elif mode == "ext":
            r = await ref.put_ext(sender, seq)
            want = (sender, seq, None)
        elif mode == "tell":
            await ref.put.tell(sender, seq, d, payload)
            continue
        elif mode == "tellsync":
            await ref.put_sync.tell(sender, seq, payload)
            continue
        elif mode == "seen":
            # a call sees everything this sender told before
            got = [s for n, s in await ref.seen() if n == sender]
            want = [q for q in range(seq) if ops[q][0] != "seen"]
            if got != want:
                wrong.append((sender, seq, "seen", got, want))
            continue
        if tuple(r) != want:
            wrong.append((sender, seq, mode, r, want))


class Sender(xo.StatelessActor):
    async def go(self, addr, uid, sender, ops):
        ref = await xo.actor_ref(addr, uid)
        wrong = []
        await stream(ref, sender, ops, wrong)
        return wrong, type(ref).__name__


# --- C03/C05: echo with delays, call life cycle ------------------------------
class Echo(xo.StatelessActor):
    """Answers out of order; logs each call's life cycle."""

    def __init__(self):
        super().__init__()
        self.started = {}
        self.ended = {}

    async def echo(self, token, d=0, size=0):
        await asyncio.sleep(d)
        return f(token), b"p" * size

    def echo_sync(self, token):
        return f(token)

    async def echo_err(self, token, d=0):
        await asyncio.sleep(d)
        raise Boom(token)

    async def echo_gen(self, token, d=0):
        v = yield asyncio.sleep(d, token)
        raise xo.Return(f(v))

    async def hop(self, token, d, route):
        """Forwards along route=[(addr, uid), ...] and answers what came back."""
        if not route:
            await asyncio.sleep(d)
            return f(token)
        ref = await xo.actor_ref(*route[0])
        return await ref.hop(token, d, route[1:])

    async def fan(self, tokens, target):
        """Concurrent calls from inside a pool."""
        ref = await xo.actor_ref(*target)
        rs = await asyncio.gather(*[ref.echo(t, d, s) for t, d, s in tokens])
        return [r == (f(t), b"p" * s) for r, (t, d, s) in zip(rs, tokens)]


class LifeMixin:
    """Records started/finished/cancelled of every call id."""

    def __init__(self):
        super().__init__()
        self.ev = []
        self.gate = asyncio.Event()

    async def hold(self, cid):
        """Holds the actor until release()."""
        self.gate.clear()
        self.ev.append(("start", cid))
        await self.gate.wait()
        self.ev.append(("end", cid))
        return f(cid)

    async def work(self, cid, d, swallow=False, cleanup=0):
        self.ev.append(("start", cid))
        try:
            await asyncio.sleep(d)
        except asyncio.CancelledError:
            if swallow:
                self.ev.append(("swallow", cid))
                return f(cid)
            try:
                if cleanup:
                    await asyncio.sleep(cleanup)
            finally:
                # (cancelled once more meanwhile, perhaps)
                self.ev.append(("cancelled", cid))
            raise
        self.ev.append(("end", cid))
        return f(cid)

    @xo.generator
    async def xwork(self, cid, d):
        self.ev.append(("start", cid))
        try:
            await asyncio.sleep(d)
        except asyncio.CancelledError:
            self.ev.append(("cancelled", cid))
            raise
        self.ev.append(("end", cid))
        yield f(cid)

    async def gwork(self, cid, d):
        self.ev.append(("start", cid))
        try:
            yield asyncio.sleep(d)
        except (asyncio.CancelledError, GeneratorExit):
            # GeneratorExit: cancelled while it waits to be resumed, then closed
            self.ev.append(("cancelled", cid))
            raise
        self.ev.append(("end", cid))
        raise xo.Return(f(cid))

    async def gkeep(self, cid, d):
        """Its cancellation comes where it waits, and it deals with it."""
        self.ev.append(("start", cid))
        try:
            yield asyncio.sleep(d)
        except asyncio.CancelledError:
            self.ev.append(("swallow", cid))
        except GeneratorExit:
            self.ev.append(("cancelled", cid))
            raise
        else:
            self.ev.append(("end", cid))
        raise xo.Return(f(cid))

    async def twork(self, cid, d):
        return self._part(cid + "/0", d), self._part(cid + "/1", d)

    async def rwork(self, cid, d):
        return self._part(cid, d)

    async def _part(self, cid, d):
        self.ev.append(("start", cid))
        try:
            await asyncio.sleep(d)
        except asyncio.CancelledError:
            self.ev.append(("cancelled", cid))
            raise
        self.ev.append(("end", cid))
        return f(cid)

    async def via(self, cid, d, target):
        """Cancellation must travel on to the actor we are waiting for."""
        self.ev.append(("start", cid))
        try:
            ref = await xo.actor_ref(*target)
            r = await ref.work(cid, d)
        except asyncio.CancelledError:
            self.ev.append(("cancelled", cid))
            raise
        self.ev.append(("end", cid))
        return r

    async def bump(self, x):
        await asyncio.sleep(0)
        return f(x)

    async def settle(self):
        import gc

        gc.collect()

    def events(self):
        return list(self.ev)


class Life(LifeMixin, xo.Actor):
    @xo.no_lock
    def events(self):
        return list(self.ev)

    @xo.no_lock
    def release(self):
        self.gate.set()


class FreeLife(LifeMixin, xo.StatelessActor):
    pass


class WaitLife(LifeMixin, xo.StatelessActor):
    async def fail_after(self, cid, d):
        await asyncio.sleep(d)
        raise Boom(cid)

    async def fail_own(self, cid, d):
        await asyncio.sleep(d)
        raise asyncio.TimeoutError(f"own {cid}")

    def pid(self):
        return os.getpid()

    async def wait_inside(self, waits):
        async def one(addr, uid, cid, d, timeout):
            ref = await xo.actor_ref(addr, uid)
            try:
                return "ok", await xo.wait_for(ref.work(cid, d), timeout)
            except Exception as e:
                return type(e).__name__

        return await asyncio.gather(*[one(*w) for w in waits])


class LifeDriver(xo.StatelessActor):
    """Issues and cancels calls from inside a pool."""

    async def drive(self, plans):
        return await drive_cancels(plans)


async def drive_cancels(plans):
    """plans: [(addr, uid, method, cid, args, start, cancel_after or None)]

    Returns [(cid, outcome, seconds from cancel to outcome)].
    """

    async def first(ref, cid, args):
        async for x in await ref.xwork(cid, *args):
            return x

    async def one(addr, uid, meth, cid, args, start, after):
        await asyncio.sleep(start)
        if addr.startswith("main!"):  # not resolved: main pool passes the call on
            ref = xo.core.ActorRef(addr[5:], uid)
        else:
            ref = await xo.actor_ref(addr, uid)
        if meth == "xwork":
            t = asyncio.ensure_future(first(ref, cid, args))
        else:
            t = asyncio.ensure_future(getattr(ref, meth)(cid, *args))
        if after is not None:
            for i, secs in enumerate(after if isinstance(after, (tuple, list)) else (after,)):
                await asyncio.sleep(secs)
                t.cancel()
        t0 = time.monotonic()
        try:
            r = await t
            out = ("ok", r)
        except asyncio.CancelledError:
            out = ("cancelled", None)
        except Exception as e:
            out = ("error", f"{type(e).__name__}: {e}"[:300])
        return cid, out, time.monotonic() - t0, type(ref).__name__

    return await asyncio.gather(*[one(*p) for p in plans])


# --- C04: exceptions ---------------------------------------------------------
class AttrErr(Exception):
    level = "class-default"
    hits = 0
    retry = True
    note = "none"

    def __init__(self, a, *, b=0):
        super().__init__(a)
        self.a = a
        self.b = b
        self.level = "instance"
        self.hits = b
        self.retry = False
        self.note = None

    @property
    def doubled(self):
        return self.b * 2


class ReduceErr(AttrErr):
    """Brings its own pickling."""

    def __reduce__(self):
        return _mk_reduce_err, (self.a, self.b)


def _mk_reduce_err(a, b):
    return ReduceErr(a, b=b)


class StrErr(ValueError):
    def __init__(self, code):
        super().__init__(code)
        self.code = code

    def __str__(self):
        return f"code<{self.code}>"


class BadUnpickle(Exception):
    def __init__(self, a, b):
        super().__init__(f"{a}/{b}")


class NewErr(Exception):
    def __new__(cls, a, b):
        return super().__new__(cls, a, b)

    def __init__(self, a, b):
        super().__init__(a, b)


class NoPickle(Exception):
    def __init__(self, msg):
        super().__init__(msg)
        import threading

        self.lock = threading.Lock()


class Deep(KeyError, AttributeError):
    pass


def make_exc(kind, tok):
    import asyncio as aio

    from xoscar import errors as xe

    if kind == "AttrErr":
        return AttrErr(tok, b=7)
    if kind == "ReduceErr":
        return ReduceErr(tok, b=8)
    if kind == "StrErr":
        return StrErr(tok)
    if kind == "BadUnpickle":
        return BadUnpickle(tok, "z")
    if kind == "NewErr":
        return NewErr(tok, 2)
    if kind == "NoPickle":
        return NoPickle(tok)
    if kind == "Deep":
        return Deep(tok)
    if kind == "Boom":
        return Boom(tok, {"n": [1, 2]})
    if kind == "Local":
        class LocalErr(LookupError):
            pass
        return LocalErr(tok, 3)
    if kind == "OSError":
        return OSError(5, "io-" + tok, "/f/" + tok)
    if kind == "FileNotFoundError":
        try:
            open("/nonexistent/" + tok)
        except OSError as e:
            return e
    if kind == "UnicodeDecodeError":
        return UnicodeDecodeError("utf-8", tok.encode(), 0, 1, "bad")
    if kind == "Group":
        return ExceptionGroup(tok, [ValueError(tok), Boom(tok)])
    if kind == "Noted":
        e = ValueError(tok)
        e.add_note("note-" + tok)
        return e
    if kind in ("Caused", "Hidden", "InContext"):
        e, c = ValueError(tok), KeyError(tok, 1)
        if kind == "InContext":
            e.__context__ = c
        else:
            c.__cause__ = OSError(2, tok)
            e.__cause__ = c if kind == "Caused" else None
        return e
    if kind == "Empty":
        return ValueError()
    if kind == "Big":
        return ValueError(tok, "x" * 300_000)
    if kind in ("TimeoutError",):
        return aio.TimeoutError(tok)
    if hasattr(xe, kind):
        return getattr(xe, kind)(tok)
    import builtins

    return getattr(builtins, kind)(tok)


EXC_KINDS = ["AttrErr", "ReduceErr", "StrErr", "NewErr", "Deep", "Boom", "Local", "OSError", "FileNotFoundError",
             "Group", "Noted", "Caused", "Hidden", "InContext", "Empty", "Big", "TimeoutError", "ActorNotExist", "ServerClosed", "ValueError", "KeyError",
             "IndexError", "TypeError", "AttributeError", "RuntimeError", "NotImplementedError", "AssertionError", "EOFError",
             "ConnectionError", "BrokenPipeError", "ConnectionRefusedError", "PermissionError", "ArithmeticError", "StopAsyncIteration"]
ODD_KINDS = ["BadUnpickle", "NoPickle"]  # an error must arrive, not necessarily this one


class ThrowMixin:
    def __init__(self):
        super().__init__()
        self.runs = 0

    def _raise_here(self, kind, tok):
        self.runs += 1
        raise make_exc(kind, tok)

    def t_sync(self, kind, tok):
        self._raise_here(kind, tok)

    async def t_async(self, kind, tok):
        await asyncio.sleep(0)
        self._raise_here(kind, tok)

    async def t_gen(self, kind, tok):
        yield asyncio.sleep(0)
        self._raise_here(kind, tok)

    async def t_yielded(self, kind, tok):
        """The yielded awaitable fails; the generator does not handle it."""
        yield self.t_async(kind, tok)

    async def t_ret(self, kind, tok):
        return self.t_async(kind, tok)

    async def t_tuple(self, kind, tok):
        return asyncio.sleep(0), self.t_async(kind, tok)

    @xo.extensible
    async def t_ext(self, kind, tok):
        await asyncio.sleep(0)
        self._raise_here(kind, tok)

    async def t_hop(self, kind, tok, route, meth):
        ref = await xo.actor_ref(*route[0])
        if len(route) > 1:
            return await ref.t_hop(kind, tok, route[1:], meth)
        return await getattr(ref, meth)(kind, tok)

    async def t_catch(self, kind, tok, target, meth):
        """Catches by type inside a pool and reports."""
        import inspect

        ref = await xo.actor_ref(*target)
        try:
            await getattr(ref, meth)(kind, tok)
        except type(make_exc(kind, tok)) if kind != "Local" else LookupError as e:
            return describe_exc(e, kind)
        return None

    def where(self):
        return self.address, os.getpid()

    def ok(self, x):
        return f(x)

    def n_runs(self):
        return self.runs


def describe_exc(e, kind):
    """The attributes of an exception a handler can rely on."""
    d = {"args": e.args}
    if kind in ("AttrErr", "ReduceErr"):
        d["attrs"] = (e.a, e.b, e.level, e.hits, e.doubled, e.retry, e.note)
    elif kind == "StrErr":
        d["attrs"] = (e.code,)
    elif kind == "Boom":
        d["attrs"] = (e.token, e.extra)
    elif kind in ("OSError", "FileNotFoundError"):
        d["attrs"] = (e.errno, e.strerror, e.filename)
    elif kind == "UnicodeDecodeError":
        d["attrs"] = (e.encoding, bytes(e.object), e.start, e.end, e.reason)
    elif kind == "Noted":
        d["attrs"] = tuple(e.__notes__)
    if kind in ("Caused", "Hidden", "InContext"):
        # what it was raised from is shown to whoever reads its traceback
        chain, x = [], e
        while x.__cause__ is not None:
            x = x.__cause__
            chain.append((type(x).__name__, x.args))
        d["cause"] = chain
        if kind == "Hidden":
            d["hidden"] = e.__suppress_context__
    elif kind == "Group":
        d["args"] = (e.args[0],)
        d["attrs"] = (e.message, tuple((type(x).__name__, x.args) for x in e.exceptions))
    return d


class Throw(ThrowMixin, xo.Actor):
    pass


class FreeThrow(ThrowMixin, xo.StatelessActor):
    pass


# --- C08: hooks -------------------------------------------------------------
class Hooked(xo.Actor):
    """Records its whole life; told how to fail."""

    def __init__(self, token, init_fail=False, post=None, pre=None, d1=0.0, d2=0.0):
        super().__init__()
        mon.emit("init", tok=token, has_uid=False)
        if init_fail:
            raise Boom(token, "init")
        self.token, self.post, self.pre, self.d1, self.d2 = token, post, pre, d1, d2

    async def __post_create__(self):
        mon.emit("post", tok=self.token, uid=self.uid.decode(), addr=self.address)
        try:
            await asyncio.sleep(self.d1)
            if self.post == "raise":
                raise Boom(self.token, "post")
            if self.post == "base":
                raise KeyError(self.token)
        except asyncio.CancelledError:
            mon.emit("post_cancelled", tok=self.token)
            raise
        mon.emit("posted", tok=self.token)

    async def __pre_destroy__(self):
        mon.emit("pre", tok=self.token)
        await asyncio.sleep(self.d2)
        if self.pre == "raise":
            self.pre = None
            mon.emit("pre_failed", tok=self.token)
            raise Boom(self.token, "pre")
        mon.emit("pred", tok=self.token)

    async def touch(self):
        mon.emit("call", tok=self.token)
        return self.token


class HookDriver(xo.StatelessActor):
    async def run(self, ops):
        return await asyncio.gather(*[hook_op(o) for o in ops])


async def hook_op(o):
    """One creation or destruction; timed outcome."""
    from xoscar.backends.allocate_strategy import AddressSpecified

    if o.get("gap"):
        await asyncio.sleep(o["gap"])
    r = dict(o, t0=time.monotonic_ns())
    try:
        if o["op"] == "create":
            kw = {}
            if o["via"] != o["home"]:
                kw["allocate_strategy"] = AddressSpecified(o["home"])
            if o.get("bad_args"):
                kw["no_such_argument"] = 1
            t = asyncio.ensure_future(xo.create_actor(Hooked, o["tok"], o.get("init_fail", False), o.get("post"), o.get("pre"), o.get("d1", 0.0), o.get("d2", 0.0),
                                                      uid=o["uid"], address=o["via"], **kw))
            if o.get("cancel") is not None:
                await asyncio.sleep(o["cancel"])
                t.cancel()
            ref = await t
            r["out"] = "ok" if ref.address == o["home"] and ref.uid == o["uid"].encode() else f"ref {ref}"
        elif o["op"] == "destroy":
            await xo.destroy_actor(xo.core.ActorRef(o["via"], o["uid"]))
            r["out"] = "ok"
        else:
            r["out"] = "tok:" + await xo.core.ActorRef(o["via"], o["uid"]).touch()
    except asyncio.CancelledError:
        r["out"] = "cancelled"
    except Exception as e:
        names = [c.__name__ for c in type(e).__mro__]
        for n in ("ActorAlreadyExist", "ActorNotExist", "Boom", "KeyError", "TypeError"):
            if n in names:
                r["out"] = n + (":" + str(e.extra) if n == "Boom" else "")
                break
        else:
            r["out"] = "ERR " + names[0] + " " + str(e)[:200]
    r["t1"] = time.monotonic_ns()
    return r
