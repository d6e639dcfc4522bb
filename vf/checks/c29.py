"""C29: a pool that listens on all interfaces is used by any of its addresses."""
import asyncio
import json
import os
import random
import sys

import xoscar as xo
from xoscar.backends.allocate_strategy import AddressSpecified, MainPool, ProcessIndex, RandomLabel, RandomSubPool
from xoscar.errors import ActorNotExist

from .. import pools
from .. import recops as ro
from .c33 import has_ipv6

ID = "C29"
LEVEL = "exploration"
RULE = ("pools listening at 0.0.0.0 or :: in processes of their own, used by clients with and without a pool of their own through different addresses of the machine at once: creations, lookups, calls, cancellations, "
        "destructions, kills, configurations; a model says which actor lives where, and each reference got has to name a host by which the pool was reached; distinct = (operation, where, client); non-trivial = the operation went by another address than the configured one")
WAIT = 60


class World:
    def __init__(self, ctx, rng, own, addresses, hosts, labels, call):
        self.ctx, self.rng, self.own, self.addresses, self.hosts, self.labels = ctx, rng, own, addresses, hosts, labels
        self.ports = [a.rpartition(":")[2] for a in addresses]
        self.actors = {}  # uid -> index of process
        self.k = 0
        self.name = call

    def at(self, i):
        return f"{self.rng.choice(self.hosts)}:{self.ports[i]}"

    def w(self, aw, what, **kw):
        return self.ctx.within(aw, WAIT, what, client=self.name, **kw)

    def good(self, ref, i, via, what):
        host, _, port = ref.address.rpartition(":")
        self.ctx.check(port == self.ports[i], f"{what} is of another process", got=ref.address, want=self.addresses[i], client=self.name)
        self.ctx.check(host == via.rpartition(":")[0], f"{what} names a host by which the pool was not reached", got=ref.address, via=via, client=self.name)

    async def create(self):
        rng = self.rng
        self.k += 1
        uid = f"{self.name}{self.k}"
        n = len(self.ports) - 1
        via = self.at(0)
        how = rng.choice(["main", "sub", "sub through main", "index", "random", "label", "mainpool"])
        kw, want = {}, None
        if how == "main":
            want = {0}
        elif how == "sub":
            i = rng.randrange(1, n + 1)
            via, want = self.at(i), {i}
        elif how == "sub through main":
            i = rng.randrange(0, n + 1)
            kw, want = dict(allocate_strategy=AddressSpecified(rng.choice([self.addresses[i], f"{via.rpartition(':')[0]}:{self.ports[i]}"]))), {i}
        elif how == "index":
            i = rng.randrange(0, n + 1)
            kw, want = dict(allocate_strategy=ProcessIndex(i)), {i}
        elif how == "random":
            kw, want = dict(allocate_strategy=RandomSubPool()), set(range(1, n + 1))
        elif how == "label":
            lb = rng.choice([x for x in self.labels if x])
            kw, want = dict(allocate_strategy=RandomLabel(lb)), {i for i, x in enumerate(self.labels) if x == lb}
        else:
            kw, want = dict(allocate_strategy=MainPool()), {0}
        r = await self.w(xo.create_actor(ro.KeepB, uid=uid, address=via, **kw), "create_actor", how=how, via=via)
        i = self.ports.index(r.address.rpartition(":")[2])
        self.ctx.check(i in want, "an actor was made in another process than asked for", how=how, got=r.address, want=sorted(want))
        self.good(r, i, via, "the reference got by create_actor")
        s = await self.w(r.state(), "a call")
        self.ctx.check(s["address"] == self.addresses[i] and s["uid"] == uid, "an actor is elsewhere than its reference says", got=s["address"], want=self.addresses[i])
        self.actors[uid] = i
        return "create " + how

    async def lookup(self):
        if not self.actors:
            return await self.create()
        uid = self.rng.choice(sorted(self.actors))
        i = self.actors[uid]
        via = self.at(self.rng.choice([0, 0, i]))
        r = await self.w(xo.actor_ref(via, uid), "actor_ref", via=via, at=self.addresses[i])
        self.good(r, i, via, "the reference got by actor_ref")
        self.ctx.check(await self.w(xo.has_actor(r), "has_actor"), "has_actor says no of an actor that exists")
        s = await self.w(r.state(), "a call")
        self.ctx.check(s["uid"] == uid, "a call reached another actor")
        # by the main process without looking it up
        d = xo.core.ActorRef(self.at(0), uid.encode())
        s = await self.w(d.state(), "a call through main pool")
        self.ctx.check(s["uid"] == uid, "a call through main pool reached another actor")
        return "lookup " + ("main" if i == 0 else "sub")

    async def missing(self):
        via = self.at(self.rng.randrange(len(self.ports)))
        try:
            await self.w(xo.actor_ref(via, "nobody"), "actor_ref of nobody")
        except ActorNotExist:
            pass
        else:
            self.ctx.violation("an actor that does not exist can be looked up", via=via)
        self.ctx.check(not await self.w(xo.has_actor(xo.core.ActorRef(via, b"nobody")), "has_actor of nobody"), "has_actor says yes of an actor that does not exist")
        return "missing"

    async def cancel(self):
        if not self.actors:
            return await self.create()
        uid = self.rng.choice(sorted(self.actors))
        i = self.actors[uid]
        r = xo.core.ActorRef(self.at(self.rng.choice([0, i])), uid.encode())
        t = asyncio.ensure_future(r.nap(3600))
        await asyncio.sleep(self.rng.choice([0.01, 0.05, 0.2]))
        t.cancel()
        done, _ = await asyncio.wait([t], timeout=WAIT)
        self.ctx.check(bool(done), "a call cancelled does not end", via=r.address, at=self.addresses[i], client=self.name)
        self.ctx.check(t.cancelled(), "a call cancelled ended in another way", got=None if t.cancelled() else repr(t.exception())[:200])
        s = await self.w(r.state(), "a call after one cancelled")
        self.ctx.check(s["uid"] == uid, "a call reached another actor")
        return "cancel " + ("main" if i == 0 else "sub")

    async def destroy(self):
        if not self.actors:
            return await self.create()
        uid = self.rng.choice(sorted(self.actors))
        i = self.actors.pop(uid)
        via = self.at(self.rng.choice([0, i]))
        r = xo.core.ActorRef(via, uid.encode())
        if self.rng.random() < 0.5:
            r = await self.w(xo.actor_ref(via, uid), "actor_ref")
        await self.w(xo.destroy_actor(r), "destroy_actor", via=via)
        for j in (0, i):
            gone = xo.core.ActorRef(self.at(j), uid.encode())
            self.ctx.check(not await self.w(xo.has_actor(gone), "has_actor"), "an actor destroyed is said to exist", via=via, at=self.addresses[i])
            try:
                await self.w(xo.actor_ref(gone.address, uid), "actor_ref")
            except ActorNotExist:
                pass
            else:
                self.ctx.violation("an actor destroyed can be looked up", via=via)
        return "destroy " + ("main" if i == 0 else "sub")

    async def config(self):
        i = self.rng.randrange(len(self.ports))
        c = await self.w(xo.get_pool_config(self.at(i)), "get_pool_config")
        got = [c.get_external_address(x) for x in c.get_process_indexes()]
        self.ctx.check(sorted(got) == sorted(self.addresses), "the configuration of a pool names others than its processes", got=got, want=self.addresses)
        return "config " + ("main" if i == 0 else "sub")

    async def meet(self):
        """Two actors of the pool, references got from outside."""
        if len(self.actors) < 2:
            return await self.create()
        a, b = self.rng.sample(sorted(self.actors), 2)
        ra = xo.core.ActorRef(self.at(self.actors[a]), a.encode())
        via = self.at(0)
        rb = await self.w(xo.actor_ref(via, b), "actor_ref")
        s = await self.w(ra.ask(rb), "a call between actors")
        self.ctx.check(s["uid"] == b, "a call between actors reached another actor")
        return "meet"

    async def kill_main(self):
        mains = [u for u, i in self.actors.items() if i == 0]
        if not mains:
            return await self.create()
        uid = self.rng.choice(mains)
        try:
            await self.w(xo.kill_actor(xo.core.ActorRef(self.at(self.rng.randrange(len(self.ports))), uid.encode())), "kill_actor of an actor in main pool")
        except ValueError:
            pass
        else:
            self.ctx.violation("an actor of the main pool could be killed")
        return "kill main"

    STEPS = ["create", "create", "create", "lookup", "lookup", "missing", "cancel", "cancel", "destroy", "config", "meet", "kill_main"]

    async def steps(self, n):
        for _ in range(n):
            what = await getattr(self, self.rng.choice(self.STEPS))()
            self.ctx.case((what, self.name[0]))
            self.ctx.count("operations")

    async def kill(self, worlds):
        """The process of an actor is killed, recovered, and has its actors again."""
        mine = [u for u, i in self.actors.items() if i]
        if not mine:
            return
        uid = self.rng.choice(mine)
        i = self.actors[uid]
        r = await self.w(xo.actor_ref(self.at(0), uid), "actor_ref")
        before = await self.w(r.state(), "a call")
        await self.w(xo.kill_actor(r), "kill_actor", at=r.address)
        main = self.at(0)
        await self.w(xo.wait_actor_pool_recovered(f"{main.rpartition(':')[0]}:{self.ports[i]}", main), "wait_actor_pool_recovered")
        for wd in worlds:
            for u, j in wd.actors.items():
                if j == i:
                    r = xo.core.ActorRef(wd.at(j), u.encode())
                    s = await self.w(r.state(), "a call to an actor recovered")
                    self.ctx.check(s["uid"] == u and s["address"] == self.addresses[j], "an actor was recovered elsewhere", got=s["address"])
                    self.ctx.check(s["pid"] != before["pid"], "kill_actor did not end the process")
        self.ctx.case(("kill", self.name[0]))
        self.ctx.count("kills")


async def one(ctx, rng, k):
    v6 = has_ipv6() and rng.random() < 0.25
    host = "::" if v6 else "0.0.0.0"
    hosts = ["::1"] if v6 else [f"127.0.{rng.randrange(3)}.{rng.randrange(1, 250)}" for _ in range(3)] + ["127.0.0.1"]
    n = rng.choice([1, 2, 3])
    labels = [rng.choice(["a", "b", None]) for _ in range(n)] + ["a"]
    spec = dict(address=f"{host}:{pools.free_port()}", n=n, labels=labels)
    own = await pools.start(rng.choice([0, 1])) if k % 2 else None  # clients with a pool of their own, and without
    p = await asyncio.create_subprocess_exec(sys.executable, "-m", "vf.zeroserve", json.dumps(spec), stdin=asyncio.subprocess.PIPE, stdout=asyncio.subprocess.PIPE)
    try:
        addresses = json.loads(await ctx.within(p.stdout.readline(), WAIT * 2, "start of a pool on all interfaces"))
        ctx.check(addresses[0] == spec["address"] and all(a.rpartition(":")[0] == host for a in addresses), "a pool on all interfaces has other addresses than asked for", got=addresses)
        worlds = [World(ctx, random.Random(rng.random()), own, addresses, rng.sample(hosts, k=min(len(hosts), 2)), labels, c) for c in ("xy" if own is None else "pq")]
        for r in range(2):
            ctx.phase(f"{k} {r} {host}")
            await asyncio.gather(*[w.steps(12) for w in worlds])
            ctx.phase(f"{k} {r} {host} kill")
            await worlds[r].kill(worlds)
        # nothing is left going round in the pool
        ctx.phase(f"{k} rest")
        await asyncio.sleep(0.3)
        used = [cpu(p.pid)]
        await asyncio.sleep(1)
        used.append(cpu(p.pid))
        ctx.check(used[1] - used[0] < 0.7, "a pool on all interfaces goes on working when all calls are answered", seconds=used[1] - used[0])
    finally:
        p.stdin.close()
        try:
            await asyncio.wait_for(p.wait(), WAIT)
        except asyncio.TimeoutError:
            p.kill()
            ctx.violation("a pool on all interfaces does not stop", spec=spec)
        if own:
            await own.stop()


def cpu(pid):
    with open(f"/proc/{pid}/stat") as f:
        v = f.read().rpartition(")")[2].split()
    return (int(v[11]) + int(v[12])) / os.sysconf("SC_CLK_TCK")


async def run(ctx):
    k = 0
    while ctx.left(35, 600) or k < 3:
        await one(ctx, random.Random(ctx.rng.random()), k)
        k += 1
        if k > 200:
            break
