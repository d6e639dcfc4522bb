"""C34: what xoscar names itself never has the name of anything else."""
import asyncio
import io
import os
import sys

import numpy as np

import xoscar as xo
from xoscar.aio import AioFileObject

from .. import pools

ID = "C34"
LEVEL = "exploration"
RULE = ("ids made by families of processes (forked before and after ids were made, forked again, spawned), threads and pools, with random seeded the same everywhere; names given to actors, generators and buffers made by "
        "many clients at once; forked clients that cancel their calls; no two may be the same and nobody may get another's; distinct = (family, seed) or (kind of name, makers); all non-trivial")
WAIT = 60


class Namer(xo.StatelessActor):
    def __init__(self):
        super().__init__()
        self.kept = []

    @xo.generator
    def gen(self, n):
        for i in range(n):
            yield i

    async def make(self, n, address):
        """Actors, buffers and files nobody gave a name."""
        refs = await asyncio.gather(*(xo.create_actor(Plain, i, address=address) for i in range(n)))
        arrays = [np.zeros(1) for _ in range(n)]
        files = [AioFileObject(io.BytesIO()) for _ in range(n)]
        self.kept += arrays + files
        return refs, [xo.buffer_ref(self.address, a) for a in arrays], [xo.file_object_ref(self.address, f) for f in files]


class Plain(xo.Actor):
    def __init__(self, i):
        self.i = i

    def get(self):
        return self.i


class Slow(xo.StatelessActor):
    def __init__(self):
        super().__init__()
        self.state = {}
        self.events = {}

    async def slow(self, name):
        ev = self.events[name] = asyncio.Event()
        self.state[name] = "running"
        try:
            await ev.wait()
            self.state[name] = "done"
            return "finished"
        except asyncio.CancelledError:
            self.state[name] = "stopped"
            raise

    def all_there(self, k):
        return len(self.state) >= k

    def count_cancelled(self):
        return sum(v == "stopped" for v in self.state.values())

    def release(self, name):
        self.events[name].set()

    async def how(self, name):
        for _ in range(100):
            if self.state[name] != "running":
                break
            await asyncio.sleep(0.02)
        return self.state[name]

    def reset(self):
        self.state.clear()
        self.events.clear()


async def program(ctx, *args):
    p = await asyncio.create_subprocess_exec(sys.executable, "-W", "ignore", "-m", "vf.idgen", *map(str, args), stdout=asyncio.subprocess.PIPE, cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
    out, _ = await ctx.within(p.communicate(), 2 * WAIT, f"program {args}")
    ctx.check(p.returncode == 0, "a program making ids failed", args=args, rc=p.returncode)
    return out.decode().split("\n")[:-1]


async def families(ctx, rng, rounds):
    seen = {}
    for r in range(rounds):
        hows = ["", "s", "gf", "sgf", "f", "sf", "gfn", "sgfn", "t", "sgft"]
        rng.shuffle(hows)
        hows = hows[: ctx.n(5, 10)] + ["sgf"]
        n = rng.choice([30, 300])
        res = await asyncio.gather(*(program(ctx, "family", h or "-", n, r) for h in hows))
        for how, lines in zip(hows, res):
            ctx.check(len(lines) >= n, "ids are missing", how=how, got=len(lines))
            for x in lines:
                ctx.check(x not in seen, "an id was made twice", id=x, first=seen.get(x), second=(r, how))
                ctx.check(len(x) in (32, 64), "an id of another length", id=x)
                seen[x] = (r, how)
            ctx.case(("family", how, n, r), sample=f"{how}: {len(lines)} ids, e.g. {lines[0][:16]}")
    ctx.count("ids_compared", len(seen))


async def names(ctx, pl, rng):
    address = pools.addresses(pl)
    namers = [await xo.create_actor(Namer, address=a) for a in address for _ in range(2)]
    k = rng.randint(3, 12)
    dests = [rng.choice(address) for _ in namers]
    jobs = await ctx.within(asyncio.gather(*(nm.make(k, d) for nm, d in zip(namers, dests))), WAIT, "making actors without names")
    actors, bufs, files = ([x for j in jobs for x in j[i]] for i in range(3))
    for what, xs in (("actors", actors), ("buffers", bufs), ("files", files)):
        ctx.check(len({x.uid for x in xs}) == len(xs), f"two {what} have one name", n=len(xs), names=len({x.uid for x in xs}))
        ctx.count("names_compared", len(xs))
    for j, (refs, _, _) in enumerate(jobs):
        got = await asyncio.gather(*(r.get() for r in refs))
        ctx.check(got == list(range(k)), "an actor without a given name is another", got=got)
    # generators: everybody iterates the own one
    nm = rng.choice(namers)
    gens = await asyncio.gather(*(nm.gen(i) for i in range(10)))

    async def all_of(g):
        return [x async for x in g]

    got = await ctx.within(asyncio.gather(*(all_of(g) for g in gens)), WAIT, "generators at once")
    ctx.check(got == [list(range(i)) for i in range(10)], "generators got mixed up", got=got)
    for r in actors + namers:
        await xo.destroy_actor(r)
    ctx.case(("names", k, tuple(sorted(d == address[0] for d in dests))))


async def run(ctx):
    rng = ctx.rng
    ctx.phase("families")
    fam = asyncio.ensure_future(families(ctx, rng, ctx.n(1, 12)))
    async with pools.pool(2) as pl:
        slow = await xo.create_actor(Slow, address=rng.choice(pools.addresses(pl)), uid="slow2")
        await xo.destroy_actor(slow)
        while True:
            ctx.phase("names")
            await names(ctx, pl, rng)
            for seeded in ("seeded", "not"):
                ctx.phase(f"forked clients {seeded}")
                at = rng.choice(pools.addresses(pl))
                slow = await xo.create_actor(Slow, address=at, uid="slow")
                k = rng.choice([2, 4, 6])
                lines = sorted(await program(ctx, "clients", pl.external_address, k, seeded))
                want = sorted(f"{i} cancelled stopped" if i % 2 else f"{i} finished done" for i in range(k))
                ctx.check(lines == want, "forked clients got each other's answers or cancellations", got=lines, expected=want, seeded=seeded)
                await xo.destroy_actor(slow)
                ctx.count("forked_clients", k)
                ctx.case(("clients", k, seeded, at == pl.external_address))
            if not ctx.left(8, 120):
                break
        await fam
