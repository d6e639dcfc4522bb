"""C15: actors that wait, big transfers, and pools in processes of their own."""
import asyncio
import os
import signal
import subprocess
import sys

import numpy as np

import xoscar as xo
from xoscar.errors import ServerClosed


class Victim(xo.StatelessActor):
    def __init__(self):
        super().__init__()
        self.n = 0

    async def wait(self, d=3600):
        await asyncio.sleep(d)
        return "over"

    async def echo(self, x):
        return x

    async def big(self, n):
        return np.zeros(n, "u1")

    async def take(self, arr):
        await asyncio.sleep(3600)

    async def suicide(self):
        os._exit(1)

    def pid(self):
        return os.getpid()

    @xo.generator
    async def stream(self):
        yield 1
        await asyncio.sleep(3600)

    async def freeze(self):
        os.kill(os.getpid(), signal.SIGSTOP)

    @xo.extensible
    async def ext(self, d):
        await asyncio.sleep(d)
        return d


class Locked(xo.Actor):
    async def wait(self, d=3600):
        await asyncio.sleep(d)


class SlowBorn(xo.Actor):
    async def __post_create__(self):
        await asyncio.sleep(3600)


CLOSED = (ServerClosed, ConnectionError, EOFError)


def closed(e):
    """The error says that the other side is gone."""
    return isinstance(e, CLOSED)


async def one(kind, ref, lref):
    """A call that is pending for as long as the callee lives; what became of it."""
    try:
        if kind == "wait":
            r = await ref.wait()
        elif kind == "queued":
            r = await lref.wait()
        elif kind == "big":
            r = (await ref.big(300_000_000)).nbytes
        elif kind == "take":
            r = await ref.take(np.zeros(200_000_000, "u1"))
        elif kind == "batch":
            m = ref.ext
            r = await m.batch(m.delay(3600), m.delay(3601))
        elif kind == "create":
            r = await xo.create_actor(SlowBorn, address=ref.address)
        elif kind == "stream":
            it = await ref.stream()
            assert await it.__anext__() == 1
            it._gc_destroy = False  # its actor is about to die
            r = await it.__anext__()
        elif kind == "wait_for":
            r = await xo.wait_for(ref.wait(), 3000)
        else:
            raise AssertionError(kind)
        return ["ok", repr(r)[:100]]
    except BaseException as e:
        return ["closed" if closed(e) else "other", [c.__name__ for c in type(e).__mro__], str(e)[:200]]


KINDS = ["wait", "wait", "queued", "take", "batch", "create", "stream", "wait_for"]


class Caller(xo.StatelessActor):
    """Calls from inside a pool."""

    def __init__(self):
        super().__init__()
        self.tasks = {}

    async def begin(self, key, kinds, ref, lref):
        self.tasks[key] = [asyncio.ensure_future(one(k, ref, lref)) for k in kinds]

    async def ends(self, key):
        return await asyncio.gather(*self.tasks.pop(key))

    async def later(self, ref):
        return await outcome(ref.echo(1))


async def outcome(aw):
    try:
        return ["ok", await aw]
    except BaseException as e:
        return ["closed" if closed(e) else "other", [c.__name__ for c in type(e).__mro__], str(e)[:200]]


SERVE = """
import asyncio, sys, os
sys.path.insert(0, '/verif')
import xoscar as xo
from vf import pools, crashops as co
async def main():
    pool = await pools.start(int(sys.argv[1]))
    for i, a in enumerate(pools.addresses(pool)):
        await xo.create_actor(co.Victim, address=a, uid=f'v{i}')
        await xo.create_actor(co.Locked, address=a, uid=f'l{i}')
    print('READY', *pools.addresses(pool), flush=True)
    loop = asyncio.get_running_loop()
    reader = asyncio.StreamReader()
    await loop.connect_read_pipe(lambda: asyncio.StreamReaderProtocol(reader), sys.stdin)
    line = (await reader.readline()).decode()
    if line.startswith('stop'):
        await pool.stop()
        print('STOPPED', flush=True)
        await asyncio.sleep(3600)
asyncio.run(main())
"""


async def serve(n):
    """A pool whose main process is a process of its own: (process, addresses)"""
    p = await asyncio.create_subprocess_exec(sys.executable, "-c", SERVE, str(n), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, start_new_session=True)
    line = (await p.stdout.readline()).decode().split()
    assert line and line[0] == "READY", line
    return p, line[1:]
