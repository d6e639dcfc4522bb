"""C24: a message that cannot be read harms nothing but itself."""
import asyncio
import contextlib
import os
import socket
import struct
import sys
import threading
import types

import cloudpickle

import xoscar as xo
from xoscar.backends.communication.socket import _gen_unix_socket_default_path
from xoscar.backends.message import DEFAULT_PROTOCOL, HasActorMessage, ResultMessage, SendMessage, new_message_id
from xoscar.errors import SendMessageFailed, ServerClosed
from xoscar.serialization.exception import UnpickleableError
from xoscar.serialization import AioDeserializer, AioSerializer

from .. import pools

ID = "C24"
LEVEL = "fault_enumeration"
RULE = ("(a) calls, creations, tells and batches whose arguments or results cannot be read by the other side, among good ones of the same connection; (b) bytes cut, changed, mixed up or split anyhow sent to servers "
        "of pools; (c) answers cut, changed, doubled or split anyhow by a peer speaking the protocol; who else uses the connection or pool is judged call by call; distinct = (what is broken, where, by whom); all non-trivial")
WAIT = 30


class Boom:
    """Cannot be read by another process."""

    def __init__(self, how):
        self.how = how

    def __reduce__(self):
        return explode, (os.getpid(), self.how)


class Sealed(Exception):
    """Cannot be sent."""

    def __init__(self):
        super().__init__("sealed")
        self.lock = threading.Lock()


class Own(Exception):
    pass


def explode(pid, how):
    if os.getpid() == pid:
        return Boom(how)
    if how == "sealed":
        raise Sealed
    raise {"value": ValueError, "own": Own, "key": KeyError, "eof": EOFError, "connection": ConnectionResetError, "timeout": asyncio.TimeoutError}[how](how)


def foreign(kind):
    """An instance of a class other processes do not have."""
    name = f"vf_only_in_{os.getpid()}"
    if name not in sys.modules:
        m = types.ModuleType(name)
        exec("import enum\nclass Thing: pass\nclass Kind(enum.Enum):\n    A = 1\nclass Odd(dict):\n    def __init__(self): pass\n", m.__dict__)
        for c in (m.Thing, m.Kind, m.Odd):
            c.__module__ = name
        sys.modules[name] = m
    m = sys.modules[name]
    return {"thing": m.Thing, "enum": lambda: m.Kind.A, "odd": m.Odd}[kind]()


BODY = {"value": ValueError, "own": Own, "key": KeyError, "eof": EOFError, "connection": ConnectionResetError, "timeout": asyncio.TimeoutError, "sealed": (Sealed, SendMessageFailed, UnpickleableError), "thing": ModuleNotFoundError, "cycle": AssertionError}
HEAD = ["enum", "odd"]  # read before anything of the message is known


def broken(how):
    if how in ("thing", "enum", "odd"):
        return foreign(how)
    if how == "cycle":
        x = []
        x.append((x,))
        return x
    return Boom(how)


def wrapped(rng, x):
    return rng.choice([lambda: x, lambda: [1, x], lambda: {"k": [x], "l": 2}, lambda: ("a" * 2000, x), lambda: [[[x]], b"z" * 5000]])()


class Works(xo.StatelessActor):
    def __init__(self, *a):
        super().__init__()
        self.ran, self.bad = [], 0

    async def echo(self, i, v=None, delay=0.0):
        self.ran.append(i)
        if delay:
            await asyncio.sleep(delay)
        return [i, v]

    @xo.extensible
    async def take(self, *a, **k):
        self.bad += 1

    async def give(self, how, seed):
        import random

        return wrapped(random.Random(seed), broken(how))

    async def log(self):
        return list(self.ran), self.bad

    async def storm(self, target, seed, n):
        """The same from within another process."""
        import random

        return await storm(random.Random(seed), target, n, f"a{seed}")


async def outcome(aw):
    try:
        return "ok", await asyncio.wait_for(asyncio.shield(asyncio.ensure_future(aw)), WAIT)
    except asyncio.CancelledError:
        raise
    except BaseException as e:
        return "error", e


async def tell(t, x):
    return await t.take.tell(x)


async def batch(t, x):
    return await t.take.batch(t.take.delay(1), t.take.delay(x))


async def storm(rng, t, n, tag):
    """n calls started within moments, some of which cannot be read; returns problems seen and what was counted."""
    jobs, problems, seen = [], [], {}
    header = rng.random() < 0.25
    hows = list(BODY) + (HEAD if header else [])
    for i in range(n):
        key = f"{tag}-{i}"
        if rng.random() < 0.6:
            v = rng.choice([None, "x" * rng.choice([3, 3000]), [1, [2]], b"b" * 200000])
            jobs.append((None, key, v, asyncio.ensure_future(outcome(t.echo(key, v, delay=rng.choice([0, 0, 0.02, 0.2]))))))
        else:
            how = rng.choice(hows)
            x = wrapped(rng, broken(how))
            where = rng.choice(["arg", "kwarg", "tell", "batch", "create", "result"])
            if where == "arg":
                aw = t.take(1, x)
            elif where == "kwarg":
                aw = t.take(a=1, b=x)
            elif where == "tell":
                aw = tell(t, x)
            elif where == "batch":
                aw = batch(t, x)
            elif where == "create":
                aw = xo.create_actor(Works, x, address=t.address)
            else:
                aw = t.give(how, rng.randrange(2**30))
            jobs.append((how, where, None, asyncio.ensure_future(outcome(aw))))
        if rng.random() < 0.3:
            await asyncio.sleep(rng.choice([0, 0, 0.005, 0.03]))
    any_head = any(h in HEAD for h, *_ in jobs)
    for how, key, v, job in jobs:
        kind, r = await job
        if isinstance(r, asyncio.TimeoutError) and how != "timeout":
            problems.append(f"a call ({how or 'good'} {key}) did not end")
        elif how is None:
            if kind == "ok":
                if r[0] != key or bytes(r[1]) != v if isinstance(v, bytes) else r != [key, v]:
                    problems.append(f"a call was answered wrongly: {str(r)[:100]}")
            elif not any_head:
                problems.append(f"a call failed because of others of its connection: {r!r:.200}")
            elif not isinstance(r, (ServerClosed, ModuleNotFoundError)):
                problems.append(f"a call failed because of others of its connection otherwise than as closed: {r!r:.200}")
            seen["good"] = seen.get("good", 0) + 1
        else:
            seen[f"{how}:{key}"] = seen.get(f"{how}:{key}", 0) + 1
            if key == "tell" and kind == "ok":
                continue
            if kind == "ok":
                problems.append(f"what cannot be read ({how} as {key}) was taken: {r!r:.100}")
            elif how in BODY and not any_head and not (isinstance(r, BODY[how])):
                problems.append(f"what cannot be read ({how} as {key}) failed as {r!r:.200}")
    for i in range(3):
        kind, r = await outcome(t.echo(f"{tag}-after{i}", i))
        if kind != "ok" or r != [f"{tag}-after{i}", i]:
            problems.append(f"afterwards a call failed: {r!r:.200}")
    return problems, seen


async def storms(ctx, rng, actors):
    t, c = rng.sample(actors, 2)
    seed, n = rng.randrange(2**40), rng.choice([4, 15, 40])
    import random

    ctx.phase("unreadable values")
    if t is not actors[0] and rng.random() < 0.5:
        who = "client"
        problems, seen = await ctx.within(storm(random.Random(seed), t, n, f"c{seed}"), 3 * WAIT, "calls among which some cannot be read")
    else:
        who = "actor"
        problems, seen = await ctx.within(c.storm(t, seed, n), 3 * WAIT, "calls among which some cannot be read")
    ctx.check(not problems, problems and problems[0], who=who, seed=seed, others=problems[1:4])
    ran, bad = await ctx.within(t.log(), WAIT, "a call")
    ctx.check(len(set(ran)) == len(ran), "a call was carried out twice")
    ctx.check(bad == 0, "a call whose arguments cannot be read was carried out", times=bad)
    for k, m in seen.items():
        ctx.count("good_calls" if k == "good" else "unreadable", m)
        if k != "good":
            ctx.case((k, who), sample=dict(unreadable=k, who=who))


# -- (b) ---------------------------------------------------------------


async def message(uid, address):
    mid = new_message_id()
    m = HasActorMessage(mid, xo.core.ActorRef(address, uid), protocol=DEFAULT_PROTOCOL)
    return mid, b"".join(bytes(b) for b in await AioSerializer(m).run())


def reheader(data, f):
    (n,) = struct.unpack("<Q", data[1:9])
    h = cloudpickle.loads(data[11 : 11 + n])
    h = cloudpickle.dumps(f(h))
    return data[:1] + struct.pack("<Q", len(h)) + data[9:11] + h + data[11 + n :]


def spoil(rng, how, data):
    if how == "random":
        return rng.randbytes(rng.choice([1, 11, 100, 5000]))
    if how == "version":
        return bytes([rng.choice([0, 2, 255])]) + data[1:]
    if how == "text":
        return b"GET / HTTP/1.1\r\nHost: x\r\n\r\n"
    if how == "cut":
        return data[: rng.randrange(len(data))]
    if how == "header bytes":
        return data[:11] + b"\xff" * (len(data) - 11)
    if how == "length":
        return data[:1] + struct.pack("<Q", rng.choice([0, 1, len(data) - 12, 2**63, 2**40])) + data[9:]
    if how == "shape":
        return reheader(data, lambda h: rng.choice([5, (), ({},), ({"buf_sizes": []},), ({"buf_sizes": [], "is_cuda_buffers": []}, ()), None, ({"buf_sizes": [], "is_cuda_buffers": []}, (32105, 0, 0, True))]))
    if how == "sizes":
        def f(h):
            sizes = h[0]["buf_sizes"]
            h[0]["buf_sizes"] = rng.choice([[-1], [2**62], sizes + [3], None, ["x"]])
            h[0]["is_cuda_buffers"] = [False] * (len(sizes) + 1)
            return h

        return reheader(data, f)
    if how == "serializer":
        return reheader(data, lambda h: (h[0], (31999,) + h[1][1:]))
    if how == "type":
        return reheader(data, lambda h: (h[0], h[1][:4] + (99,) + h[1][5:]))
    raise AssertionError(how)


SPOILT = ["random", "version", "text", "cut", "header bytes", "length", "shape", "sizes", "serializer", "type"]
SURE = ["version", "text", "header bytes", "shape", "serializer", "type"]  # nothing more to wait for


async def connect(rng, address, internal):
    if internal is not None and rng.random() < 0.4:
        return "unix", *await asyncio.open_unix_connection(_gen_unix_socket_default_path(internal))
    host, port = address.rsplit(":", 1)
    return "socket", *await asyncio.open_connection(host, int(port))


async def dribble(rng, w, data):
    """In pieces as networks may deliver them."""
    style = rng.randrange(4)
    i = 0
    while i < len(data):
        n = {0: len(data), 1: 1, 2: rng.randint(1, 7), 3: rng.randint(1, 300)}[style]
        w.write(data[i : i + n])
        await w.drain()
        i += n
        if style and rng.random() < min(0.2, 40 * n / len(data)):
            await asyncio.sleep(rng.choice([0, 0.001, 0.01]))


async def raw(ctx, rng, actors, places):
    """Peers of a pool sending garbage, while others call."""
    t = rng.choice(actors)
    address, internal = places[t.address]
    how = rng.choice(SPOILT + ["fine", "fine"])
    ctx.phase(f"bytes: {how}")
    if rng.random() < 0.6:
        # peers that vanish without a farewell, whatever they had sent
        for _ in range(rng.randint(1, 3)):
            host, port = address.rsplit(":", 1)
            _, w = await asyncio.open_connection(host, int(port))
            w.write(rng.choice([b"", (await message(b"nobody", t.address))[1], (await message(t.uid, t.address))[1][: rng.randint(1, 30)]]))
            await asyncio.sleep(rng.choice([0, 0.02]))
            w.get_extra_info("socket").setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            w.transport.abort()
            ctx.count("connections_reset")
    kind, r, w = await connect(rng, address, internal)
    try:
        tag = rng.randrange(2**60)
        good = [asyncio.ensure_future(t.echo(f"r{tag}-{i}", i, delay=0.02)) for i in range(3)]
        expect = []
        data = b""
        for i in range(rng.randint(0, 3)):
            uid = rng.choice([t.uid, b"nobody"])
            mid, d = await message(uid, t.address)
            expect.append((mid, uid == t.uid))
            data += d
        if how != "fine":
            data += spoil(rng, how, (await message(t.uid, t.address))[1])
        with contextlib.suppress(ConnectionError):
            await ctx.within(dribble(rng, w, data), WAIT, "sending to a pool")
        if rng.random() < 0.3 or how in ("cut", "length", "random", "sizes"):
            with contextlib.suppress(OSError):
                w.write_eof()
        got = []
        try:
            while len(got) < len(expect):
                m = await ctx.within(AioDeserializer(r).run(), WAIT, "an answer of a pool")
                got.append(m)
        except (EOFError, ConnectionError, asyncio.IncompleteReadError):
            # answers under way may be lost with a connection that was broken
            ctx.check(how != "fine", "a connection was closed though all sent was right", how=how)
        by = dict(expect)
        for m in got:
            if m.message_id in by:
                ctx.check(isinstance(m, ResultMessage) and m.result is by.pop(m.message_id), "a right message was answered wrongly", how=how, got=m)
        if how == "fine":
            ctx.check(not by, "right messages were not answered", left=len(by))
        elif how in SURE:
            # told or closed, not left waiting
            try:
                m = await ctx.within(AioDeserializer(r).run(), WAIT, "an answer to what cannot be read, or end of connection", how=how)
                while isinstance(m, ResultMessage) and m.message_id in by:
                    by.pop(m.message_id)
                    m = await ctx.within(AioDeserializer(r).run(), WAIT, "an answer to what cannot be read, or end of connection", how=how)
                ctx.check(not isinstance(m, ResultMessage), "what cannot be read was answered with a result", how=how, got=m)
            except (EOFError, ConnectionError, asyncio.IncompleteReadError):
                pass
        if rng.random() < 0.3:
            # gone without farewell
            with contextlib.suppress(RuntimeError, OSError):
                if kind == "socket":
                    w.get_extra_info("socket").setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                w.write(b"\x01" * rng.randint(0, 20))
            w.transport.abort()
            ctx.count("connections_reset")
        for i, g in enumerate(good):
            x = await ctx.within(g, WAIT, "a call")
            ctx.check(x == [f"r{tag}-{i}", i], "a call was answered wrongly while another peer sent garbage", got=x)
        x = await ctx.within(t.echo(f"r{tag}-later", 1), WAIT, "a call after a peer that sent garbage", how=how)
        ctx.check(x == [f"r{tag}-later", 1], "a call was answered wrongly after another peer sent garbage", got=x)
        ctx.case((how, kind, "server"), sample=dict(sent=how, over=kind))
        ctx.count("connections")
    finally:
        w.close()


# -- (c) ---------------------------------------------------------------


class Peer:
    """Speaks the protocol, but breaks its answers."""

    def __init__(self, rng, how):
        self.rng, self.how, self.tasks, self.often = rng, how, [], 1

    async def serve(self, r, w):
        self.tasks.append(asyncio.current_task())
        rng = self.rng
        try:
            held = []
            while True:
                m = await AioDeserializer(r).run()
                if not isinstance(m, SendMessage):
                    continue
                data = b"".join(bytes(b) for b in await AioSerializer(ResultMessage(m.message_id, ["answer", rng.randbytes(rng.choice([0, 3000]))], protocol=m.protocol)).run())
                how = self.how if rng.random() < self.often else "fine"
                if how == "fine":
                    await dribble(rng, w, data)
                elif how == "double":
                    await dribble(rng, w, data + data)
                elif how == "reorder":
                    held.append(data)
                    if len(held) == 3:
                        rng.shuffle(held)
                        await dribble(rng, w, b"".join(held))
                        held = []
                else:
                    await dribble(rng, w, spoil(rng, how, data))
                    if how in ("cut", "length", "random", "sizes") or rng.random() < 0.3:
                        w.close()
                        return
        except (EOFError, ConnectionError, asyncio.IncompleteReadError):
            pass
        finally:
            w.close()


async def answers(ctx, rng):
    how = rng.choice(SPOILT + ["fine", "double", "reorder"])
    ctx.phase(f"answers: {how}")
    peer = Peer(rng, how)
    if how not in ("double", "reorder"):
        peer.often = rng.choice([0.4, 1])
    server = await asyncio.start_server(peer.serve, "127.0.0.1", 0)
    try:
        port = server.sockets[0].getsockname()[1]
        ref = xo.core.ActorRef(f"127.0.0.1:{port}", b"x")
        gone = []
        if rng.random() < 0.5:
            # among calls whose callers have given up waiting even for their end
            for i in range(rng.randint(1, 2)):
                gone.append(asyncio.ensure_future(xo.has_actor(ref)))
            await asyncio.sleep(0.05)
            for _ in range(2):
                for g in gone:
                    g.cancel()
                await asyncio.sleep(0.01)
        ends = await ctx.within(asyncio.gather(*[outcome(ref.echo(i)) for i in range(3 if how == "reorder" else rng.choice([3, 8]))]), 2 * WAIT, "calls whose answers cannot be read", how=how)
        if gone:
            await asyncio.wait(gone, timeout=WAIT)
            ctx.check(all(g.done() and (g.cancelled() or g.exception()) for g in gone), "a call cancelled twice did not end", how=how)
        if peer.often < 1:
            # whatever was broken on a connection is not what is read later
            peer.how = "fine"
            for i in range(40):  # what it still answers to calls before may be broken
                kind, e = await ctx.within(outcome(ref.echo(i)), 2 * WAIT, "a call after answers that cannot be read", how=how)
                if kind == "ok":
                    break
                await asyncio.sleep(0.05)
            ctx.check(kind == "ok" and e[0] == "answer", "calls fail long after an answer that could not be read", how=how, got=e)
            ctx.count("peers_mending")
        for kind, e in ends:
            if how in ("fine", "reorder", "double") and kind == "ok":
                ctx.check(e[0] == "answer", "a call was answered wrongly", how=how, got=e)
            else:
                ctx.check(how not in ("fine", "reorder", "double"), "a call failed though its answer was right", how=how, got=e)
                ctx.check(kind == "error" or peer.often < 1, "an answer that cannot be read was taken", how=how, got=e)
                ctx.check(not isinstance(e, asyncio.TimeoutError), "a call did not end though its answer cannot come any more", how=how)
        ctx.case((how, "client"), sample=dict(answered=how, ends=[e[0] for e in ends]))
        ctx.count("peers")
    finally:
        server.close()
        for x in peer.tasks:
            x.cancel()


async def run(ctx):
    rng = ctx.rng
    async with pools.pool(n_process=2) as pool:
        places = {pool.external_address: (pool.external_address, None)}
        for i, a in enumerate(pools.subs(pool), 1):
            places[a] = (a, None)
        for p in pool._config.get_process_indexes():
            conf = pool._config.get_pool_config(p)
            places[conf["external_address"][0]] = (conf["external_address"][0], p)
        actors = [await xo.create_actor(Works, address=a) for a in pools.addresses(pool)]
        n = 0
        while n < 8 or ctx.left(18, 240):
            n += 1
            await storms(ctx, rng, actors)
            for _ in range(3):
                await raw(ctx, rng, actors, places)
                await answers(ctx, rng)
