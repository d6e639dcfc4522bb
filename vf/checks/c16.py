"""C16: auto recovery brings back the process and exactly the actors it should."""
import asyncio
import os
import signal

import numpy as np
import xoscar as xo
from xoscar.backends.allocate_strategy import AddressSpecified, ProcessIndex, RandomSubPool

from .. import crashops as co
from .. import pools
from .. import recops as ro

ID = "C16"
LEVEL = "fault_enumeration"
RULE = ("random histories of creations (by clients, by actors of main, of the same and of other processes, through main with strategies or at the sub pool), destructions and calls, "
        "then one or several sub processes die (SIGKILL, exit, kill_actor; idle, during creations, again while recovering), in every recovery mode; after wait_actor_pool_recovered "
        "the actors found are compared with the model; distinct = (mode, death, ways the lost actors were made); non-trivial = at least one process died")
WAIT = 60


def values(rng, depth=0):
    k = rng.randint(0, 7 if depth < 2 else 4)
    if k == 0:
        return rng.randint(-5, 10**12)
    if k == 1:
        return "s%d" % rng.randint(0, 99)
    if k == 2:
        return rng.randbytes(rng.choice([0, 3, 5000]))
    if k == 3:
        return None
    if k == 4:
        return rng.random()
    if k == 5:
        return [values(rng, depth + 1) for _ in range(rng.randint(0, 3))]
    if k == 6:
        return {str(i): values(rng, depth + 1) for i in range(rng.randint(0, 3))}
    return tuple(values(rng, depth + 1) for _ in range(rng.randint(0, 3)))


class World:
    def __init__(self, ctx, rng, pool, mode):
        self.ctx, self.rng, self.pool, self.mode = ctx, rng, pool, mode
        self.main = pool.external_address
        self.addrs = pools.addresses(pool)
        self.subs = self.addrs[1:]
        self.model = {}  # uid -> dict(cls, args, address, ref, how, n, pid)
        self.gone = []  # (address, uid) destroyed
        self.k = 0

    async def create(self, address=None, how=None, cls=None, friend=None):
        rng = self.rng
        wanted, given = cls, friend
        self.k += 1
        uid = f"a{self.k}"
        address = address or rng.choice(self.addrs)
        cls = rng.choice(["KeepA", "KeepA", "KeepB", "SlowBorn", "Greedy", "FriendOf", "Dependent"])
        friend = None
        if wanted:
            cls, friend = wanted, given
        elif cls == "Dependent":
            near = sorted(u for u, m in self.model.items() if m["address"] == address and address != self.main)
            if near and how is None:
                friend = rng.choice(near)
                how = rng.choice(["client", "actor", "index", "specified"])
            else:
                cls = "FriendOf"
        if cls == "FriendOf":
            if not self.model:
                cls = "KeepA"
            else:
                friend = rng.choice(sorted(self.model))
        if cls == "Greedy":
            things = [
                [values(rng) for _ in range(rng.randint(1, 3))],
                [rng.randint(0, 99) for _ in range(rng.randint(1, 3))],
                {str(i): rng.choice([i, values(rng)]) for i in range(rng.randint(1, 3))},
                np.arange(rng.choice([1, 50, 5000])) + 1,
            ]
            args, kw = (rng.choice(things),), {}
        elif cls in ("FriendOf", "Dependent"):
            args, kw = (self.model[friend]["ref"], values(rng)), {}
        else:
            args = tuple(values(rng) for _ in range(rng.randint(0, 3)))
            kw = {} if rng.random() < 0.5 else dict(z=values(rng), other=values(rng))
        mine = (args, kw)
        args, kw = fresh(args), fresh(kw)  # an actor of this process is given the very objects
        # (a maker is busy while it makes, so the new one could not call it)
        makers = [m for u, m in self.model.items() if cls != "Dependent" or u != friend]
        strategy, target = None, address
        how = how or rng.choice(["client", "client", "actor", "actor", "index", "specified", "random"])
        if how in ("index", "specified", "random") and address == self.main:
            how = "client"
        if how == "actor" and not makers:
            how = "client"
        if how == "index":
            strategy, target = ProcessIndex(1 + self.subs.index(address)), self.main
        elif how == "specified":
            strategy, target = AddressSpecified(address), self.main
        elif how == "random":
            strategy, target = RandomSubPool(), self.main
        if how == "actor":
            maker = rng.choice(makers)
            how = "actor in main" if maker["address"] == self.main else "actor in same process" if maker["address"] == address else "actor elsewhere"
            if rng.random() < 0.3 and address != self.main:
                how += " by index"
                strategy, target = ProcessIndex(1 + self.subs.index(address)), self.main
            ref = await self.ctx.within(maker["ref"].make(cls, target, uid, args, kw, strategy), WAIT, "create_actor")
        else:
            more = {} if strategy is None else dict(allocate_strategy=strategy)
            ref = await self.ctx.within(xo.create_actor(ro.CLASSES[cls], *args, uid=uid, address=target, **more, **kw), WAIT, "create_actor")
        if how != "random":
            self.ctx.check(ref.address == address, "an actor was not made where it was wanted", how=how, got=ref.address, want=address)
        s = await self.ctx.within(ref.state(), WAIT, "a call")
        # what a reference in the arguments was made of is compared by what it points to
        self.model[uid] = dict(uid=uid, cls=cls, args=mine, address=ref.address, ref=ref, how=how, n=0, pid=s["pid"], friend=friend)
        self.ctx.check(same(s["args"], mine), "an actor was made with other arguments", uid=uid, got=s["args"], want=mine)
        self.ctx.count("created")
        return uid

    async def destroy(self, uid=None):
        rng = self.rng
        friends = {m["friend"] for m in self.model.values() if m["friend"]}
        can = [u for u in self.model if u not in friends]
        if not can:
            return
        uid = uid or rng.choice(sorted(can))
        m = self.model.pop(uid)
        others = [o for o in self.model.values()]
        if others and rng.random() < 0.5:
            await self.ctx.within(rng.choice(others)["ref"].remove(m["ref"]), WAIT, "destroy_actor")
        elif m["address"] != self.main and rng.random() < 0.3:
            await self.ctx.within(xo.destroy_actor(xo.core.ActorRef(self.main, m["ref"].uid)), WAIT, "destroy_actor through main pool")
        else:
            await self.ctx.within(xo.destroy_actor(m["ref"]), WAIT, "destroy_actor")
        self.gone.append((m["address"], m["uid"]))
        self.ctx.count("destroyed")

    async def use(self):
        if not self.model:
            return
        m = self.rng.choice(list(self.model.values()))
        m["n"] += 1
        n = await self.ctx.within(m["ref"].incr(), WAIT, "a call")
        self.ctx.check(n == m["n"], "state of an actor is not its own", uid=m["uid"], got=n, want=m["n"])

    async def step(self):
        k = self.rng.randint(0, 9)
        if k < 5:
            await self.create()
        elif k < 7:
            await self.destroy()
        else:
            await self.use()

    def pid_of(self, address):
        return self.pool.sub_processes[address].pid

    async def die(self, address, how):
        pid = self.pid_of(address)
        victims = [m for m in self.model.values() if m["address"] == address]
        if how == "kill_actor" and victims:
            await self.ctx.within(xo.kill_actor(self.rng.choice(victims)["ref"]), WAIT, "kill_actor")
        elif how == "frozen":
            os.kill(pid, signal.SIGSTOP)
            await asyncio.sleep(0.1)
            os.kill(pid, signal.SIGKILL)
        else:
            os.kill(pid, signal.SIGKILL)
        return pid

    async def reaped(self, pid):
        for _ in range(3000):
            if not os.path.exists(f"/proc/{pid}"):
                return
            await asyncio.sleep(0.01)
        raise AssertionError("process not reaped")

    async def judge(self, dead, how, pids, expect):
        """dead: addresses whose process died; expect: 'actor', 'process' or None"""
        ctx, rng = self.ctx, self.rng
        lost = []
        for m in list(self.model.values()):
            if m["address"] not in dead:
                s = await ctx.within(m["ref"].state(), WAIT, "a call to an actor of a process that lives")
                ctx.check(s["n"] == m["n"] and s["pid"] == m["pid"], "an actor of a process that did not die changed", uid=m["uid"], got=s, want=m["n"])
                continue
            lost.append(m["how"])
            if expect == "actor":
                asker = rng.choice([None, *[o for o in self.model.values() if o["address"] not in dead]])
                if asker is None:
                    s = await ctx.within(m["ref"].state(), WAIT, "a call to a recovered actor")
                else:
                    s = await ctx.within(asker["ref"].ask(m["ref"]), WAIT, "a call of an actor to a recovered actor")
                want = dict(cls=m["cls"], uid=m["uid"], address=m["address"], n=0, log=["init", "post"])
                got = {k: s[k] for k in want}
                ctx.check(got == want, "a recovered actor is not as it was made", how=m["how"], got=got, want=want)
                ctx.check(same(s["args"], m["args"]), "a recovered actor was made with other arguments", how=m["how"], cls=m["cls"], got=s["args"], want=m["args"])
                ctx.check(s["pid"] not in pids and s["pid"] == self.pid_of(m["address"]), "a recovered actor is not in the new process", got=s["pid"], new=self.pid_of(m["address"]))
                ctx.check(s["env"] == str(1 + self.subs.index(m["address"])), "a recovered process does not have its environment", got=s["env"])
                if m["friend"]:
                    f = await ctx.within(m["ref"].meet(), WAIT, "a recovered actor uses the reference it was made with")
                    ctx.check(f == m["friend"], "a recovered actor holds another reference", got=f, want=m["friend"])
                m["n"], m["pid"] = 0, s["pid"]
                ctx.count("actors_recovered")
            elif expect == "process":
                has = await ctx.within(xo.has_actor(m["ref"]), WAIT, "has_actor in a recovered process")
                ctx.check(has is False, "an actor came back though only the process is recovered", uid=m["uid"])
                del self.model[m["uid"]]
                ctx.count("actors_lost")
            else:
                o = await ctx.within(co.outcome(m["ref"].state()), WAIT, "a call to a process that stays dead")
                ctx.check(o[0] == "closed", "a call to a process that stays dead did not fail as closed", got=o)
                del self.model[m["uid"]]
                ctx.count("actors_lost")
        if expect:
            for a, uid in self.gone:
                if a in dead:
                    has = await ctx.within(xo.has_actor(xo.core.ActorRef(a, uid.encode())), WAIT, "has_actor")
                    ctx.check(has is False, "a destroyed actor came back when its process was recovered", uid=uid)
                    ctx.count("destroyed_stay_so")
        ctx.case((self.mode, how, len(dead), tuple(sorted(set(lost)))), sample=dict(mode=str(self.mode), death=how, processes=len(dead), lost=lost))


def fresh(v):
    if isinstance(v, (list, tuple)):
        return type(v)(fresh(x) for x in v)
    if isinstance(v, dict):
        return {k: fresh(x) for k, x in v.items()}
    return v.copy() if isinstance(v, np.ndarray) else v


def same(a, b):
    if isinstance(a, xo.core.ActorRef) and isinstance(b, xo.core.ActorRef):
        return a.uid == b.uid and a.address == b.address
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and bool((a == b).all())
    return a == b


async def history(ctx, rng, mode, nth):
    n = rng.randint(2, 3)
    downs, ups = [], []

    def on_down(pool, address):
        downs.append(address)

    def on_up(pool, address):
        ups.append((address, pool.sub_processes[address].pid))

    args = {} if mode == "default" else dict(auto_recover=mode)
    async with pools.pool(n_process=n, on_process_down=on_down, on_process_recover=on_up, envs=[{"VF_MARK": str(i + 1)} for i in range(n)], **args) as pool:
        expect = {"default": "actor", True: "actor", "actor": "actor", "process": "process", False: None}[mode]
        w = World(ctx, rng, pool, mode)
        await ctx.within(xo.wait_actor_pool_recovered(w.main, w.main), WAIT, "waiting for main pool")
        for _ in range(rng.randint(8, 16)):
            await w.step()
        for a in w.subs:
            await w.create(a)
            u = await w.create(a, how=rng.choice(["client", "actor", "index"]), cls="SlowBorn")
            await w.create(a, how=rng.choice(["client", "index"]), cls="Dependent", friend=u)
        rounds = ctx.n(2, 3) if expect else 1
        for r in range(rounds):
            ctx.phase(f"history {nth} mode {mode} death {r}")
            if not expect and len(w.subs) < 2:
                break
            dead = rng.sample(w.subs, rng.choice([1, 1, 2]) if len(w.subs) > 1 and expect else 1)
            how = rng.choice(["kill", "kill", "frozen", "kill_actor", "twice", "busy"])
            ndown, nup = len(downs), len(ups)
            pids = set()
            kills = {a: 1 for a in dead}
            busy = []
            if how == "busy":
                # others make actors in processes that live meanwhile
                alive = [a for a in w.addrs if a not in dead]

                async def more():
                    for _ in range(6):
                        await w.create(rng.choice(alive), how="client")
                        await asyncio.sleep(0.05)

                busy.append(asyncio.ensure_future(more()))
                await asyncio.sleep(0)
            for a in dead:
                pids.add(await w.die(a, "kill" if how in ("twice", "busy") else how))
            for p in pids:
                await ctx.within(w.reaped(p), WAIT, "reaping")
            if not expect:
                for _ in range(WAIT * 20):
                    if len(downs) > ndown:
                        break
                    await asyncio.sleep(0.05)
                ctx.check(set(downs[ndown:]) == set(dead), "the loss of a process was not reported", got=downs[ndown:], want=dead)
                await asyncio.sleep(0.6)
                ctx.check(not ups, "a process was recovered though it must not be", got=ups)
                for a in dead:
                    ctx.check(pool.sub_processes[a].pid in pids and not os.path.exists(f"/proc/{pool.sub_processes[a].pid}"), "a process was started again though it must not be")
                    await ctx.within(xo.wait_actor_pool_recovered(a, w.main), WAIT, "waiting for a process that is never recovered")
            if how == "twice" and expect:
                # again as soon as a new process is there
                for _ in range(WAIT * 50):
                    if pool.sub_processes[dead[0]].pid not in pids:
                        break
                    await asyncio.sleep(0.02)
                p = pool.sub_processes[dead[0]].pid
                ctx.check(p not in pids, "a process was not recovered")
                os.kill(p, signal.SIGKILL)
                pids.add(p)
                await ctx.within(w.reaped(p), WAIT, "reaping")
                kills[dead[0]] += 1
            if expect:
                waits = []
                for a in dead:
                    others = [m for m in w.model.values() if m["address"] not in dead]
                    waits.append(xo.wait_actor_pool_recovered(a, w.main))
                    if others:
                        waits.append(rng.choice(others)["ref"].wait_recovered(a, w.main))
                await ctx.within(asyncio.gather(*waits), WAIT, "waiting for the recovery of a pool", mode=str(mode), how=how)
            for b in busy:
                await ctx.within(b, WAIT, "creations while another process died")
            await w.judge(dead, how, pids, expect)
            if expect:
                for a in dead:
                    d, u = downs[ndown:].count(a), [x for x in ups[nup:] if x[0] == a]
                    # a process that dies while it is recovered is one more loss, but its first recovery may not have been completed
                    ctx.check(d == kills[a], "losses of a process were not each reported once", got=d, want=kills[a], how=how)
                    ctx.check(1 <= len(u) <= kills[a], "recoveries of a process were not each reported once", got=u, want=kills[a])
                    ctx.check(u[-1][1] == pool.sub_processes[a].pid, "a recovery was reported before the new process was there")
                ctx.check(not set(downs[ndown:]) - set(dead) and not {x[0] for x in ups[nup:]} - set(dead), "a loss of a process that did not die was reported", got=downs[ndown:])
                ctx.count("recoveries", len(dead))
            # life goes on, also where it was recovered
            for a in (w.addrs if expect else [x for x in w.addrs if x not in dead]):
                await w.create(a, how="client")
            if expect:
                for _ in range(rng.randint(2, 6)):
                    await w.step()
            elif not expect:
                break
        return


async def run(ctx):
    rng = ctx.rng
    modes = ["default", "actor", True, "process", False]
    nth = 0
    while nth < 5 or ctx.left(12, 300):
        batch = [modes[(nth + i) % 5] for i in range(ctx.n(5, 5))]
        rs = [__import__("random").Random(rng.random()) for _ in batch]
        await asyncio.gather(*[history(ctx, r, m, nth + i) for i, (r, m) in enumerate(zip(rs, batch))])
        nth += len(batch)
        if ctx.quick and nth >= 5 and ctx.elapsed() > 8:
            break
