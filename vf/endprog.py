"""C27: a user's program, ended in all kinds of states.  argv: JSON description."""
import asyncio
import json
import os
import sys
import threading

import xoscar as xo

spec = json.loads(sys.argv[1])


class Boom(Exception):
    pass


class Act(xo.StatelessActor):
    async def wait(self, d=3600):
        await asyncio.sleep(d)
        return "over"

    async def stubborn(self):
        """Takes a moment to be cancelled."""
        try:
            await asyncio.sleep(3600)
        finally:
            await asyncio.sleep(0.05)

    async def fails(self):
        await asyncio.sleep(0.3)
        raise Boom

    def add(self, k):
        return k + 1

    @xo.generator
    async def stream(self):
        for i in range(10**6):
            yield i
            await asyncio.sleep(0.01)

    @xo.extensible
    async def ext(self, d):
        await asyncio.sleep(d)
        return d

    async def other(self, ref):
        return await ref.wait()

    async def yields(self, ref):
        yield ref.wait()


class Locked(xo.Actor):
    async def wait(self, d=3600):
        await asyncio.sleep(d)


class SlowBorn(xo.Actor):
    async def __post_create__(self):
        await asyncio.sleep(3600)


class SlowDeath(xo.Actor):
    async def __pre_destroy__(self):
        await asyncio.sleep(3600)


async def consume(ref):
    async for _ in await ref.stream():
        pass


async def pend(kind, acts, lockeds, addr, k):
    """Something that does not end."""
    import random

    r = random.Random(f"{kind}{k}")
    a, b, lo = r.choice(acts), r.choice(acts), r.choice(lockeds)
    if kind == "call":
        await a.wait()
    elif kind == "stubborn":
        await a.stubborn()
    elif kind == "fails":
        await a.fails()
    elif kind == "tell":
        await a.wait.tell()
        await a.wait()
    elif kind == "batch":
        await a.ext.batch(a.ext.delay(3600), a.ext.delay(3600))
    elif kind == "hop":
        await a.other(b)
    elif kind == "yield":
        await a.yields(b)
    elif kind == "queue":
        await asyncio.gather(lo.wait(), lo.wait(), lo.wait())
    elif kind == "stream":
        await consume(a)
    elif kind == "born":
        await xo.create_actor(SlowBorn, address=a.address)
    elif kind == "dying":
        ref = await xo.create_actor(SlowDeath, address=a.address)
        await xo.destroy_actor(ref)
    elif kind == "timeout":
        while True:
            try:
                await asyncio.wait_for(a.wait(), 0.02)
            except asyncio.TimeoutError:
                pass
    elif kind == "shield":
        await asyncio.shield(a.wait())
    elif kind == "group":
        async with asyncio.TaskGroup() as g:
            g.create_task(a.wait())
            g.create_task(b.wait())
    else:
        raise AssertionError(kind)


async def part(p, last):
    pool = None
    keep = []
    if p["pool"] is not None:
        pool = await xo.create_actor_pool("127.0.0.1", n_process=p["pool"])
        addrs = [pool.external_address, *pool.sub_processes]
    else:
        addrs = p["addresses"]
    acts = [await xo.create_actor(Act, address=a) for a in addrs]
    lockeds = [await xo.create_actor(Locked, address=a) for a in addrs]
    assert await asyncio.gather(*(a.add(i) for i, a in enumerate(acts))) == [i + 1 for i in range(len(acts))]
    for k, kind in enumerate(p["pending"]):
        keep.append(asyncio.ensure_future(pend(kind, acts, lockeds, addrs, k)))
    if p["loose"]:  # nobody refers to what is pending
        keep = []
    await asyncio.sleep(p["time"])
    if pool is not None and p["stop"]:
        await pool.stop()
    if last:
        print("READY", flush=True)
    end = p["end"]
    if end == "return":
        return 5
    if end == "raise":
        raise Boom
    if end == "exit":
        sys.exit(3)
    if end == "cancel":
        asyncio.current_task().cancel()
        await asyncio.sleep(3600)
    if end == "signal":
        print("SIGNAL", flush=True)
        await asyncio.sleep(3600)


def main():
    for i, p in enumerate(spec["parts"]):
        last = i == len(spec["parts"]) - 1
        if p["thread"]:
            box = []

            def go():
                try:
                    box.append(asyncio.run(part(p, last)))
                except BaseException as e:
                    box.append(e)

            t = threading.Thread(target=go)
            t.start()
            t.join()
            if isinstance(box[0], BaseException) and last:
                raise box[0]
            print("PART", type(box[0]).__name__, flush=True)
        elif last:
            asyncio.run(part(p, last))
        else:
            try:
                r = asyncio.run(part(p, last))
                print("PART", type(r).__name__, flush=True)
            except BaseException as e:
                print("PART", type(e).__name__, flush=True)
    print("DONE", flush=True)


if __name__ == "__main__":
    main()
