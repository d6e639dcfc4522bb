"""C28: asynchronous files, events and caches behave like what they stand for."""
import asyncio
import collections
import io
import os
import random
import threading

from xoscar.aio import AioEvent, AioFileObject, alru_cache

ID = "C28"
LEVEL = "exploration"
RULE = ("random sequences of operations on files of all modes through AioFileObject next to the same file opened plainly; blocking files and events that only the event loop can let go on; random histories of calls, ends, failures, "
        "cancellations, invalidations, closing of cached coroutines against a model of a least-recently-used cache that computes once; distinct = (what, kind, sequence); all non-trivial")
WAIT = 30


# --- files -------------------------------------------------------------------
def file_op(r, text):
    def data():
        s = "".join(r.choice("ab\ncé ") for _ in range(r.choice([0, 1, 5, 40, 3000])))
        return s if text else s.encode()

    n = r.choice([-1, 0, 1, 3, 10, 500, None])
    op = r.choice(["read", "read", "readline", "readlines", "write", "write", "writelines", "seek", "seek", "tell", "truncate", "flush", "isatty", "seekable", "writable", "readable", "closed", "mode",
                   "name", "iterate", "read1", "readinto", "close", "iterate some"])
    if op in ("read", "readline", "readlines", "read1"):
        return op, ((n,) if n is not None else ())
    if op == "write":
        return op, (data() if r.random() < 0.95 else 5,)
    if op == "writelines":
        return op, ([data() for _ in range(r.randint(0, 3))],)
    if op == "seek":
        return op, r.choice([(0,), (0, 2), (r.randint(0, 50),), (-1,), (0, 1)])
    if op == "truncate":
        return op, r.choice([(), (r.randint(0, 30),)])
    if op == "readinto":
        return op, (r.choice([0, 1, 7, 100]),)
    if op == "close" and r.random() < 0.8:
        return "flush", ()
    return op, ()


DIRECT = {"closed", "mode", "name"}
SYNC = {"readable", "fileno"}


def plain_do(f, op, args):
    if op in DIRECT:
        return getattr(f, op)
    if op in ("iterate", "iterate some"):
        out = []
        for line in iter(f.readline, f.read(0)):  # (a file in text mode refuses to tell between lines got by next)
            out.append(line)
            if op == "iterate some" and len(out) == 2:
                break
        return out
    if op == "readinto":
        b = bytearray(args[0])
        n = f.readinto(b)
        return n, bytes(b)
    return getattr(f, op)(*args)


async def aio_do(f, op, args):
    if op in DIRECT:
        return getattr(f, op)
    if op in SYNC:
        return getattr(f, op)(*args)
    if op in ("iterate", "iterate some"):
        out = []
        async for line in f:
            out.append(line)
            if op == "iterate some" and len(out) == 2:
                break
        return out
    if op == "readinto":
        b = bytearray(args[0])
        n = await f.readinto(b)
        return n, bytes(b)
    return await getattr(f, op)(*args)


async def outcome(aw):
    try:
        return "ok", await aw
    except Exception as e:
        return "error", type(e).__name__, str(e).replace("plain", "aio")


async def files(ctx, i):
    r = random.Random(f"{ctx.seed}/f{i}")
    text = r.random() < 0.5
    mode = r.choice(["r", "w", "a", "r+", "w+", "a+"]) + ("" if text else "b")
    kw = {}
    if text:
        kw = {"encoding": "utf8", "newline": r.choice([None, "", "\n"])}
    elif r.random() < 0.3:
        kw = {"buffering": 0}
    start = "".join(r.choice("xyz\nü ") for _ in range(r.choice([0, 30, 400]))).encode()
    names = []
    for who in ("plain", "aio"):
        p = os.path.join(ctx.scratch, f"{who}{i}")
        with open(p, "wb") as f:
            f.write(start)
        names.append(p)
    plain = open(names[0], mode, **kw)
    aio = AioFileObject(open(names[1], mode, **kw))
    if r.random() < 0.1:
        aio = AioFileObject(aio)
    ops = []
    for _ in range(r.randint(3, 25)):
        op, args = file_op(r, text)
        ops.append((op, args))

        async def plainly():
            return plain_do(plain, op, args)

        want = await outcome(plainly())
        got = await ctx.within(outcome(aio_do(aio, op, args)), WAIT, f"{op} of a file")
        if op == "name":
            want, got = os.path.basename(want[1]).replace("plain", "aio"), os.path.basename(got[1])
        ctx.check(got == want, f"AioFileObject.{op} differs from the file's", got=got, expected=want, mode=mode, ops=ops[-6:])
        ctx.count("file_operations")
        if op == "close":
            break
    ctx.check(aio.closed == plain.closed, "AioFileObject.closed differs")
    if not plain.closed:
        ctx.check(aio.fileno() > 2, "AioFileObject.fileno is no descriptor")
        if r.random() < 0.5:
            inner = aio._file
            exc = r.choice([None, ValueError, asyncio.CancelledError, KeyboardInterrupt, StopAsyncIteration, GeneratorExit])
            try:
                async with aio as f:
                    ctx.check(f is aio, "async with gives another file")
                    if exc is not None:
                        raise exc()
                ctx.check(exc is None, "async with swallowed an exception", error=str(exc))
            except (exc or ()) as e:
                ctx.check(type(e) is exc, "async with raised another exception", got=repr(e))
            except RuntimeError as e:  # how coroutines pass on what ends iterations
                ctx.check(exc is StopAsyncIteration, "async with raised another exception", got=repr(e))
            ctx.check(inner.closed, "async with does not close the file", left_by=str(exc))
        else:
            await aio.close()
        plain.close()
    contents = [open(n, "rb").read() for n in names]
    ctx.check(contents[0] == contents[1], "a file written through AioFileObject has other contents", mode=mode, ops=ops)
    for n in names:
        os.unlink(n)
    ctx.case(("file", mode, tuple(o for o, _ in ops)), sample=f"{mode} {[o for o, _ in ops]}")


class Stuck(io.RawIOBase):
    """Whose operations go on when the event loop lets them."""

    def __init__(self):
        self.ev = threading.Event()
        self.inside = threading.Event()
        self.freed = []

    def _block(self, what):
        self.inside.set()
        self.freed.append((what, self.ev.wait(20)))

    def __getattribute__(self, name):
        if name in BLOCKING:
            def method(*a):
                object.__getattribute__(self, "_block")(name)
                return name, a

            return method
        return object.__getattribute__(self, name)


BLOCKING = ["close", "flush", "isatty", "read", "read1", "readinto", "readline", "readlines", "seek", "seekable", "tell", "truncate", "writable", "write", "writelines"]


async def not_blocking(ctx, r):
    for op in r.sample(BLOCKING, 6) if ctx.quick else BLOCKING:
        f = Stuck()
        a = AioFileObject(f)
        t = asyncio.ensure_future(getattr(a, op)("x"))
        for _ in range(2000):
            if f.inside.is_set():
                break
            await asyncio.sleep(0.005)
        f.ev.set()
        got = await ctx.within(t, WAIT, f"{op} of a blocking file")
        ctx.check(f.freed == [(op, True)] and got == (op, ("x",)), "a file's operation blocks the event loop", op=op, got=got, freed=f.freed)
        ctx.count("blocking_operations")
        ctx.case(("blocking", op))
    for make in (AioEvent, lambda: AioEvent(threading.Event())):
        e = make()
        ts = [asyncio.ensure_future(e.wait()) for _ in range(3)] + [asyncio.ensure_future(e.wait(0.01))]
        await asyncio.sleep(0.05)
        ctx.check(not e.is_set() and not any(t.done() for t in ts[:3]), "an event nobody set is over")
        e.set()
        got = await ctx.within(asyncio.gather(*ts), WAIT, "waiting for an event")
        ctx.check(e.is_set() and got == [True, True, True, False], "waiting for an event gives something else", got=got)
        e.clear()
        ctx.check(not e.is_set() and await e.wait(0.01) is False, "a cleared event is set")
        ctx.case("event")


# --- caches ------------------------------------------------------------------
class Boom(Exception):
    pass


class Model:
    """What the cache must be: key -> computation number, least recently used first."""

    def __init__(self, maxsize, keep_errors):
        self.maxsize, self.keep_errors = maxsize, keep_errors
        self.cache = collections.OrderedDict()
        self.state = {}  # computation -> 'pending' | ('value', v) | ('error', e) | 'cancelled'
        self.hits = self.misses = 0
        self.started = 0

    def call(self, key):
        n = self.cache.get(key)
        if n is not None:
            s = self.state[n]
            if s == "cancelled" or (s[0] == "error" and not self.keep_errors):
                del self.cache[key]
            else:
                self.hits += 1
                self.cache.move_to_end(key)
                return n
        n = self.started
        self.started += 1
        self.state[n] = "pending"
        self.cache[key] = n
        if self.maxsize is not None and len(self.cache) > self.maxsize:
            self.cache.popitem(last=False)
        self.misses += 1
        return n


async def settle():
    for _ in range(6):
        await asyncio.sleep(0)


async def cache_history(ctx, i):
    r = random.Random(f"{ctx.seed}/c{i}")
    maxsize = r.choice([None, 0, 1, 2, 3, 5, 128])
    typed = r.random() < 0.5
    keep = r.random() < 0.5
    gates = []

    async def fn(*args, **kw):
        n = len(gates)
        g = asyncio.get_running_loop().create_future()
        gates.append((g, args, kw))
        v = await g
        if isinstance(v, Exception):
            raise v
        return (n, v)

    style = r.choice(["call", "bare", "method"])
    kwargs = dict(maxsize=maxsize, typed=typed, cache_exceptions=keep)
    if style == "bare" and r.random() < 0.5:
        f = alru_cache(fn)
        maxsize, typed, keep = 128, False, True
        kwargs = {}
    else:
        f = alru_cache(**kwargs)(fn) if style == "call" else alru_cache(fn, **kwargs)
    m = Model(maxsize, keep)
    keys = [((1,), {}), ((2,), {}), (("1",), {}), ((1, 2), {}), ((1.0, 2), {}), ((True, 2), {}), ((), {"a": 1}), ((1,), {"a": 1}), ((None,), {}), (((1, 2),), {})][: r.choice([2, 4, 10])]

    def key_of(args, kw):
        def one(x):
            return (type(x).__name__, x) if typed else x

        # equal arguments of other types are one key unless told otherwise
        return (len(args), tuple(one(a) for a in args), tuple(sorted((k, one(v)) for k, v in kw.items())))

    calls = []  # (task, computation, cancelled by us)
    log = []
    for _ in range(r.randint(5, 60)):
        what = r.choice(["call"] * 6 + ["end"] * 5 + ["cancel caller", "invalidate", "clear", "info", "cancel computation"])
        pending = [n for n, s in m.state.items() if s == "pending"]
        log.append(what)
        if what == "call":
            args, kw = r.choice(keys)
            n = m.call(key_of(args, kw))
            t = asyncio.ensure_future(f(*args, **kw))
            calls.append([t, n, False])
            log[-1] = f"call {args} {kw} -> {n}"
            await settle()
            ctx.check(len(gates) == m.started, "a cached coroutine was run when it should not, or not when it should", log=log[-15:], ran=len(gates), expected=m.started, maxsize=maxsize, typed=typed, cache_exceptions=keep)
            if n == m.started - 1 and m.state[n] == "pending":
                ctx.check(gates[n][1:] == (args, kw) or m.hits, "a cached coroutine got other arguments", got=gates[n][1:], expected=(args, kw))
        elif what == "end" and pending:
            n = r.choice(pending)
            if r.random() < 0.3:
                e = Boom(n)
                m.state[n] = ("error", e)
                gates[n][0].set_result(e)
            else:
                m.state[n] = ("value", (n, n * 3))
                gates[n][0].set_result(n * 3)
            log[-1] = f"end {n} {m.state[n]}"
        elif what == "cancel computation" and pending and r.random() < 0.5:
            n = r.choice(pending)
            m.state[n] = "cancelled"
            gates[n][0].cancel()
            log[-1] = f"cancel computation {n}"
        elif what == "cancel caller":
            ts = [c for c in calls if not c[0].done()]
            if ts:
                c = r.choice(ts)
                c[0].cancel()
                c[2] = True
        elif what == "invalidate":
            args, kw = r.choice(keys)
            k = key_of(args, kw)
            had = m.cache.pop(k, None) is not None
            ctx.check(f.invalidate(*args, **kw) == had, "invalidate does not say what it did", log=log[-15:])
        elif what == "clear" and r.random() < 0.3:
            f.cache_clear()
            m.cache.clear()
            m.hits = m.misses = 0
        await settle()
        info = f.cache_info()
        ctx.check((info.hits, info.misses, info.maxsize, info.currsize) == (m.hits, m.misses, maxsize, len(m.cache)), "cache_info is wrong", got=tuple(info), expected=(m.hits, m.misses, maxsize, len(m.cache)), log=log[-15:])
    # everybody gets what their computation gave
    for n, s in list(m.state.items()):
        if s == "pending":
            m.state[n] = ("value", (n, n * 3))
            gates[n][0].set_result(n * 3)
    if r.random() < 0.5:
        closing = f.close()
        try:
            await f(1)
        except RuntimeError:
            pass
        else:
            ctx.violation("a closed cache was called")
        await ctx.within(closing, WAIT, "closing of a cache")
        info = f.cache_info()
        ctx.check((info.hits, info.misses, info.currsize) == (0, 0, 0), "a closed cache is not empty", got=tuple(info))
        f.open()
        ctx.count("caches_closed")
    for t, n, cancelled in calls:
        done, _ = await asyncio.wait([t], timeout=WAIT)
        ctx.check(done, "a caller of a cached coroutine waits forever", computation=n, log=log)
        s = m.state[n]
        if cancelled and t.cancelled():
            continue
        if s == "cancelled":
            ctx.check(t.cancelled(), "a caller did not get the cancellation of its computation", log=log)
        elif s[0] == "value":
            ctx.check(not t.cancelled() and t.exception() is None and t.result() == s[1], "a caller got another result than its computation's", got=t, expected=s, log=log)
        else:
            ctx.check(not t.cancelled() and t.exception() is s[1], "a caller got another error than its computation's", got=t, expected=s, log=log)
        ctx.count("cached_calls")
    ctx.case(("cache", maxsize, typed, keep, tuple(log)), sample=f"maxsize={maxsize} typed={typed} cache_exceptions={keep}: {log[:8]}")


async def run(ctx):
    loop = asyncio.get_running_loop()
    loop.set_exception_handler(lambda l, c: None)  # computations nobody waits for any more
    i = 0
    ctx.phase("blocking")
    await not_blocking(ctx, ctx.rng)
    while ctx.left(8, 120) and i < ctx.n(1500, 50000):
        i += 1
        ctx.phase(f"file {i}")
        await files(ctx, i)
        ctx.phase(f"cache {i}")
        await cache_history(ctx, i)
        await cache_history(ctx, -i)
