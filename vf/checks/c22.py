"""C22: channels deliver every message once, whole and in order of sending."""
import asyncio
import hashlib
import random

import numpy as np

import xoscar as xo
from xoscar.backends.communication import get_server_type
from xoscar.backends.communication.errors import ChannelClosed
from xoscar.errors import ServerClosed

from .. import pools
from .. import serops as so

ID = "C22"
LEVEL = "exploration"
RULE = ("connections over TCP, unix sockets and in-process channels with several senders at both ends sending messages of 0 to 12 MB in up to 400 buffers at once, slow and doubled receivers, buffers reused right after "
        "send returned, and ends closing at any time; every message is rebuilt by its receiver and compared, with order per sender; distinct = (transport, senders, receivers, kinds of messages); all non-trivial")
WAIT = 60
CLOSED = (EOFError, ChannelClosed, ConnectionError, ServerClosed, OSError)


def payload(seed, reuse=False):
    r = random.Random(seed)
    k = r.randrange(12)
    if k < 3:
        return r.choice([None, "x", [1, {"a": (2,)}], {"k": r.random()}, b"", "", []])
    if k < 5:
        return np.frombuffer(r.randbytes(r.choice([8, 1000, 65536, 300000])), "u1").copy()
    if k == 5:
        return [np.frombuffer(r.randbytes(r.choice([1, 9, 3000])), "u1").copy() for _ in range(r.choice([1, 5, 60, 400]))]
    if k == 6:
        return np.random.default_rng(seed).integers(0, 255, r.choice([1 << 20, 3 << 20, 12 << 20]) if r.random() < 0.4 else 1 << 18, dtype="u1")
    if k == 7:
        return np.arange(r.choice([10, 5000]) * 8.0).reshape(-1, 4, 2)[:: r.choice([1, 2])]
    if k == 8:
        a = np.asfortranarray(np.random.default_rng(seed).random((40, r.choice([1, 50]))))
        return r.choice([a, memoryview(a), memoryview(a.T), memoryview(bytearray(r.randbytes(5000)))])
    if k == 9:
        return [r.randbytes(r.choice([0, 1, 1023, 1024, 70000])) for _ in range(r.randint(1, 20))]
    if k == 10:
        return "é" * r.choice([5, 1024, 50000])
    return so.value(r, 2)


class End:
    """One end of a channel."""

    def __init__(self, ctx, rng, chan, name, kind):
        self.ctx, self.rng, self.chan, self.name = ctx, rng, chan, name
        self.got, self.finished, self.last = {}, asyncio.Event(), {}
        self.nrecv, self.kind = rng.choice([1, 1, 1, 2]), kind
        # a cancelled receive ends a UCX channel
        self.cancels = kind != "ucx"
        self.slow = rng.choice([0, 0, 0.003])

    async def send_all(self, sender, n):
        rng = random.Random(self.rng.getrandbits(40))
        for i in range(n):
            seed = rng.getrandbits(40)
            await self.chan.send(("msg", sender, i, seed, payload(seed)))
            if rng.random() < 0.2:
                await asyncio.sleep(rng.choice([0, 0, 0.002]))

    async def recv_all(self):
        while not self.finished.is_set():
            m = await self.chan.recv()
            if m[0] == "done":
                if self.cancels:
                    self.finished.set()
                return
            _, sender, i, seed, got = m
            # (channels within a process hand over the objects themselves)
            d = so.diff(payload(seed), got, seen={"original"} if self.kind == "dummy" else None)
            self.ctx.check(d is None, "a message changed on its way", difference=d, payload_seed=seed, end=self.name)
            self.ctx.check((sender, i) not in self.got, "a message arrived twice", message=[sender, i], end=self.name)
            if self.nrecv == 1:
                self.ctx.check(self.last.get(sender, -1) == i - 1, "messages of a sender arrived out of order", sender=sender, got=i, after=self.last.get(sender), end=self.name)
                self.last[sender] = i
            self.got[sender, i] = type(got).__name__
            self.ctx.count("messages")
            if self.slow:
                await asyncio.sleep(self.rng.choice([0, self.slow]))

    async def receive(self):
        ts = [asyncio.ensure_future(self.recv_all()) for _ in range(self.nrecv)]
        try:
            await asyncio.wait(ts, return_when=asyncio.FIRST_COMPLETED)
            if len(ts) > 1:
                # what another receiver took before the last message is still judged
                await asyncio.sleep(0.05)
            if not self.cancels:
                await asyncio.gather(*ts)
        finally:
            for t in ts:
                if t.done():
                    t.result()
                else:
                    t.cancel()
            await asyncio.gather(*ts, return_exceptions=True)


async def server(kind, handler):
    if kind in ("socket", "ucx"):
        conf = dict(host="127.0.0.1", port=pools.free_port())
        address = ("ucx://" if kind == "ucx" else "") + f"127.0.0.1:{conf['port']}"
        t = get_server_type(address)
    else:
        i = random.randrange(10**6, 2**31)
        address = f"unixsocket:///{i}" if kind == "unix" else f"dummy://{i}"
        conf = dict(address=address)
        t = get_server_type(address)
    s = await t.create(dict(conf, handle_channel=handler))
    await s.start()
    return s, await t.client_type.connect(address)


async def chatter(ctx, rng, kind):
    ctx.phase(f"{kind}: both ends send")
    accepted = asyncio.get_running_loop().create_future()
    over = asyncio.Event()

    async def handler(chan):
        accepted.set_result(chan)
        await over.wait()

    s, client = await server(kind, handler)
    try:
        theirs = await ctx.within(accepted, WAIT, "accepting a connection")
        ends = []
        for name, chan in (("client", client), ("server", theirs)):
            ends.append(End(ctx, rng, chan, name, kind))
        plan = [[rng.randint(1, 12) for _ in range(rng.choice([0, 1, 2, 5]))] for _ in ends]

        async def sending(e, ns):
            await asyncio.gather(*[e.send_all(i, n) for i, n in enumerate(ns)])
            for _ in range(1 if e.cancels else next(o.nrecv for o in ends if o is not e)):
                await e.chan.send(("done",))

        jobs = [asyncio.ensure_future(e.receive()) for e in ends] + [asyncio.ensure_future(sending(e, ns)) for e, ns in zip(ends, plan)]
        await ctx.within(asyncio.gather(*jobs), WAIT, f"messages over {kind}")
        for e, ns in zip(ends, reversed(plan)):
            want = {(i, j) for i, n in enumerate(ns) for j in range(n)}
            ctx.check(set(e.got) == want, "messages did not arrive", end=e.name, missing=sorted(want - set(e.got))[:5], more=sorted(set(e.got) - want)[:5])
        ctx.case((kind, tuple(map(len, plan)), tuple(e.nrecv for e in ends), tuple(sorted({t for e in ends for t in e.got.values()}))), sample=dict(transport=kind, senders=[len(p) for p in plan], messages=[sum(p) for p in plan]))
    finally:
        over.set()
        await client.close()
        await s.stop()


async def reuse(ctx, rng, kind):
    """A buffer is the sender's again once send has returned."""
    ctx.phase(f"{kind}: reused buffers")
    go, got = asyncio.Event(), []
    sizes = [rng.choice([100, 30000, 60000, 200000, 2_000_000]) for _ in range(rng.randint(1, 6))]

    async def handler(chan):
        await go.wait()
        for _ in sizes:
            got.append(await chan.recv())
            if rng.random() < 0.5:
                await asyncio.sleep(0.002)
        await chan.send("all")

    s, client = await server(kind, handler)
    try:
        async def send():
            for i, n in enumerate(sizes):
                a = np.full(n, i + 1, "u1")
                x = [memoryview(a), a, [a, a.copy()], {"a": a}][rng.randrange(4)]
                await client.send(x)
                a[:] = 99

        t = asyncio.ensure_future(send())
        await asyncio.sleep(rng.choice([0, 0.01]))
        go.set()
        await ctx.within(t, WAIT, "sending")
        ctx.check(await ctx.within(client.recv(), WAIT, "receiving") == "all", "a message changed on its way")
        for i, x in enumerate(got):
            y = x["a"] if isinstance(x, dict) else x[0] if isinstance(x, list) else x
            y = np.frombuffer(y, "u1") if not isinstance(y, np.ndarray) else y
            ctx.check(len(y) == sizes[i] and (y == i + 1).all(), "a buffer reused after it was sent changed what arrived", size=sizes[i], wrong=int((y != i + 1).sum()))
            ctx.count("reused_buffers")
        ctx.case((kind, "reuse", tuple(sizes)), sample=dict(transport=kind, reused_sizes=sizes))
    finally:
        await client.close()
        await s.stop()


async def closing(ctx, rng, kind):
    """Whoever closes, what was sent before arrives (over sockets) and nobody waits forever."""
    ctx.phase(f"{kind}: closing")
    who = rng.choice(["client", "server"])
    n, size = rng.randint(0, 6), rng.choice([10, 100000, 1_000_000])
    go = asyncio.Event()
    accepted = asyncio.get_running_loop().create_future()

    async def handler(chan):
        accepted.set_result(chan)
        await go.wait()

    s, client = await server(kind, handler)
    try:
        theirs = await ctx.within(accepted, WAIT, "accepting a connection")
        a, b = (client, theirs) if who == "client" else (theirs, client)
        waiting = asyncio.ensure_future(a.recv())

        async def rest():
            got = []
            if slow:
                await asyncio.sleep(0.05)
            while True:
                try:
                    got.append(await b.recv())
                except CLOSED:
                    return got

        slow = rng.random() < 0.5
        reader = asyncio.ensure_future(rest())
        for i in range(n):
            await ctx.within(a.send((i, np.full(size, i, "u1"))), WAIT, "sending")
        if kind == "dummy":
            await asyncio.sleep(0.1)
        await ctx.within(a.close(), WAIT, "closing a channel")
        ctx.check(a.closed, "a closed channel is not closed")
        got = await ctx.within(reader, WAIT, "receiving from a closed channel")
        ctx.check([x[0] for x in got] == list(range(n)) and all((x[1] == x[0]).all() and len(x[1]) == size for x in got), "what was sent before closing did not arrive", who=who, sent=n, got=len(got), size=size)
        for name, t in (("who waits when its own end closes", waiting), ("a later receiver", a.recv()), ("a later receiver of the other end", b.recv())):
            try:
                await ctx.within(t, WAIT, name)
                ctx.violation("something arrived that was never sent", where=name)
            except CLOSED:
                pass
        try:
            for _ in range(50):
                await ctx.within(a.send("late"), WAIT, "sending on a closed channel")
            ctx.violation("sending on a closed channel succeeded")
        except CLOSED:
            pass
        ctx.case((kind, "closing", who, n), sample=dict(transport=kind, closes=who, sent=n))
        ctx.count("closings")
    finally:
        go.set()
        await client.close()
        await s.stop()


async def stopping(ctx, rng, kind):
    """A server that stops ends all of its channels, however many."""
    ctx.phase(f"{kind}: stopping")
    chans = []
    n = rng.choice([1, 7, 20, 40])
    go = asyncio.Event()

    async def handler(chan):
        chans.append(chan)
        await go.wait()

    s, client = await server(kind, handler)
    clients = [client]
    try:
        for _ in range(n - 1):
            clients.append(await type(client).connect(client.dest_address))

        async def all_there():
            while len(chans) < n:
                await asyncio.sleep(0.01)

        await ctx.within(all_there(), WAIT, "accepting connections")
        held = list(chans)
        waiting = [asyncio.ensure_future(c.recv()) for c in clients]
        if rng.random() < 0.5:
            waiting += [asyncio.ensure_future(c.recv()) for c in held]
        await asyncio.sleep(0)
        for j in rng.sample(range(n), rng.randint(0, n // 3)):
            await ctx.within(clients[j].close(), WAIT, "closing a channel")
        await ctx.within(s.stop(), WAIT, "stopping a server")
        ctx.check(s.stopped, "a stopped server says it is not")
        ctx.check(all(c.closed for c in held), "a channel is open though its server was stopped", of=n, open=sum(not c.closed for c in held))
        for w in waiting:
            try:
                await ctx.within(w, WAIT, "receiving from a server that was stopped")
                ctx.violation("something arrived that was never sent", where="stopped server")
            except CLOSED:
                pass
        try:
            await ctx.within(type(client).connect(client.dest_address), WAIT, "connecting to a stopped server")
            ctx.violation("a stopped server accepts connections")
        except (*CLOSED, KeyError):
            pass
        ctx.case((kind, "stopping", n), sample=dict(transport=kind, stopped_with=n))
        ctx.count("channels_of_stopped_servers", n)
    finally:
        go.set()
        for c in clients:
            await c.close()
        await s.stop()


class Sink(xo.StatelessActor):
    def __init__(self):
        super().__init__()
        self.got = {}

    async def put(self, i, a, nap=0):
        self.got[i] = hashlib.md5(bytes(a)).hexdigest()

    async def block(self, secs):
        import time

        time.sleep(secs)

    async def seen(self):
        return self.got


async def tells(ctx, rng, ref, base):
    """Arguments belong to the caller again once tell has returned."""
    ctx.phase("tells of reused buffers")
    await ref.block.tell(0.05)
    want = {}
    a = np.zeros(rng.choice([3_000_000, 500_000]), "u1")
    for i in range(base, base + 5):
        a[:] = rng.randrange(256)
        want[i] = hashlib.md5(a.tobytes()).hexdigest()
        await ctx.within(ref.put.tell(i, a), WAIT, "a tell")
    a[:] = 99
    for _ in range(2000):
        seen = await ctx.within(ref.seen(), WAIT, "a call")
        if all(i in seen for i in want):
            break
        await asyncio.sleep(0.005)
    for i, h in want.items():
        ctx.check(seen.get(i) == h, "an argument reused after it was told changed what arrived", number=i)
    ctx.count("reused_in_tells", len(want))
    ctx.case(("tells", len(a)), sample=dict(tells_of=len(a)))


KEEPING = """
import gc, sys
sys.path.insert(0, %r)
import numpy as np
from xoscar.backends.communication.utils import write_buffers


class Writer:
    def write(self, b):
        # what the transport was given is part of the garbage of a failure
        try:
            raise ValueError
        except ValueError as e:
            self.err, self.kept = e, b


a = np.arange(60, dtype="f8")
gc.disable()
for _ in range(50):
    views = [a.data, a.reshape(6, 10).data, a.reshape(6, 10).T.data, memoryview(bytearray(9)), memoryview(b"x"), memoryview(bytearray(80)).cast("d")]
    if "cut" in sys.argv:
        views = [a[::2].data, a.reshape(6, 10)[:, 1:3].data, a[:0].data]
    for v in views:
        w = Writer()
        w.given = v
        write_buffers(w, [v])
    del w, v, views
gc.enable()
gc.collect()
print("collected")
"""


async def garbage(ctx):
    """Views given to transports may be found in garbage."""
    ctx.phase("garbage")
    import os
    import sys
    for args in ([], ["cut"]):
        p = await asyncio.create_subprocess_exec(sys.executable, "-c", KEEPING % os.path.dirname(os.path.dirname(xo.__file__)), *args, stdout=asyncio.subprocess.PIPE, stderr=asyncio.subprocess.PIPE)
        out, err = await ctx.within(p.communicate(), 60, "collecting garbage does not end")
        ctx.check(p.returncode == 0 and b"collected" in out, "a process died of collecting what it had written to a channel", code=p.returncode, err=err.decode()[-500:], args=args)
        ctx.count("collected")


async def run(ctx):
    rng = ctx.rng
    await garbage(ctx)
    async with pools.pool(n_process=1) as pool:
        ref = await xo.create_actor(Sink, address=pools.subs(pool)[0])
        n = 0
        while n < 12 or ctx.left(12, 240):
            kind = ["socket", "unix", "dummy"][n % 3]
            n += 1
            await chatter(ctx, rng, kind)
            if kind != "dummy":
                await reuse(ctx, rng, kind)
            await closing(ctx, rng, kind)
            await stopping(ctx, rng, kind)
            if n % 4 == 1:
                await tells(ctx, rng, ref, n * 10)
