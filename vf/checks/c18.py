"""C18: sub pools can be appended and removed while the pool is in use."""
import asyncio
import os
import signal
import sys

import xoscar as xo
from xoscar.backends.allocate_strategy import ProcessIndex, RandomLabel, RandomSubPool
from xoscar.errors import NoIdleSlot

from .. import crashops as co
from .. import pools
from .. import recops as ro
from .c17 import bindable, children, still_there

ID = "C18"
LEVEL = "fault_enumeration"
RULE = ("random histories of appends (labels, environments, given addresses, several at once, some that fail), removals (graceful, forced, of dead or recovering processes), deaths, "
        "creations (by address, strategy, actors) and calls, also while appends and removals are under way; after each step the configuration told by every process, the processes, and the "
        "state of every actor are compared with a model; distinct = (step, mode, number of processes before); non-trivial = a sub pool was appended, removed or died")
WAIT = 60


class World:
    def __init__(self, ctx, rng, pool, mode):
        self.ctx, self.rng, self.pool, self.mode = ctx, rng, pool, mode
        self.main = pool.external_address
        self.model = {a: dict(label=None, mark=None, pid=p.pid, alive=True) for a, p in pool.sub_processes.items()}
        self.actors = {}  # uid -> dict(ref, address, n)
        self.removed = []  # (address, uid)
        self.k = 0

    def w(self, aw, what, **kw):
        return self.ctx.within(aw, WAIT, what, mode=self.mode, subs=len(self.model), **kw)

    def live(self):
        return [self.main] + [a for a, m in self.model.items() if m["alive"]]

    # -- steps --------------------------------------------------------------
    async def append(self, fail=None, given=None):
        rng = self.rng
        self.k += 1
        mark, label = f"m{self.k}", rng.choice([None, "red", "blue"])
        args = dict(label=label, env={"VF_MARK": mark})
        if given is None:
            given = rng.random() < 0.3
        if given:
            args["external_address"] = f"127.0.0.1:{pools.free_port()}"
        if rng.random() < 0.2:
            args["start_python"] = sys.executable
        if fail == "module":
            args["modules"] = ["no_such_module_at_all"]
        elif fail == "python":
            args["start_python"] = "/nonexistent/python"
        elif rng.random() < 0.3:
            args["modules"] = ["vf.recops"]
        if fail:
            try:
                a = await self.w(self.pool.append_sub_pool(**args), "append_sub_pool that fails")
            except (ImportError, OSError):
                self.ctx.count("failed_appends")
                return
            self.ctx.violation("append_sub_pool succeeded though it cannot", how=fail, address=a)
        a = await self.w(self.pool.append_sub_pool(**args), "append_sub_pool")
        self.ctx.check(a not in self.model and a != self.main, "an appended sub pool has the address of another", address=a)
        if given:
            self.ctx.check(a == args["external_address"], "an appended sub pool has not the address given", got=a, want=args["external_address"])
        self.model[a] = dict(label=label, mark=mark, pid=self.pool.sub_processes[a].pid, alive=True)
        self.ctx.count("appended")
        return a

    async def remove(self, a=None):
        rng = self.rng
        a = a or rng.choice(sorted(self.model))
        m = self.model.pop(a)
        pid = self.pool.sub_processes[a].pid
        procs = {p for p in children() if p[0] == pid}
        lost = {u: x for u, x in self.actors.items() if x["address"] == a}
        pending = []
        if m["alive"]:
            for x in lost.values():
                pending.append(asyncio.ensure_future(co.outcome(x["ref"].nap(3600))))
            await asyncio.sleep(rng.choice([0, 0.02]))
        for u in lost:
            del self.actors[u]
        await self.w(self.pool.remove_sub_pool(a, timeout=rng.choice([None, 1, 5]), force=rng.random() < 0.3), "remove_sub_pool", dead=not m["alive"])
        self.ctx.check(not still_there(procs), "the process of a removed sub pool runs on", pid=pid)
        for p in pending:
            e = await self.w(p, "a call pending at a removed sub pool")
            self.ctx.check(e[0] == "closed", "a call pending at a removed sub pool did not fail as closed", got=e)
        for u, x in lost.items():
            e = await self.w(co.outcome(x["ref"].incr()), "a call to an actor of a removed sub pool")
            self.ctx.check(e[0] == "closed", "a call to an actor of a removed sub pool did not fail as closed", got=e)
        self.ctx.check(await bindable(a), "the address of a removed sub pool cannot be used again", address=a)
        self.removed.append(a)
        self.ctx.count("removed")

    async def kill(self):
        can = [a for a in self.model if self.model[a]["alive"]]
        if not can:
            return None
        a = self.rng.choice(can)
        p = self.pool.sub_processes[a]
        os.kill(p.pid, signal.SIGKILL)
        # until it is collected it counts as running, and thus as recovered
        await p.wait()
        self.ctx.count("killed")
        if self.mode is False:
            self.model[a]["alive"] = False
        if self.mode != "actor":
            self.actors = {u: x for u, x in self.actors.items() if x["address"] != a}
        else:
            for x in self.actors.values():
                if x["address"] == a:
                    x["n"] = 0
        return a

    async def recovered(self, a):
        if self.mode:
            await self.w(xo.wait_actor_pool_recovered(a, self.main), "wait_actor_pool_recovered")

    async def create(self, a=None):
        rng = self.rng
        self.k += 1
        uid = f"u{self.k}"
        live = self.live()
        how = rng.choice(["address", "address", "index", "random", "label", "actor"])
        kw = {}
        if a is not None:
            how = "address"
        if all(m["alive"] for m in self.model.values()) and self.model and how in ("index", "random", "label"):
            if how == "index":
                i = rng.randrange(1, len(self.model) + 1)
                kw, a = dict(allocate_strategy=ProcessIndex(i)), self.main
            elif how == "random":
                kw, a = dict(allocate_strategy=RandomSubPool()), self.main
            else:
                label = rng.choice(["red", "blue"])
                kw, a = dict(allocate_strategy=RandomLabel(label)), self.main
        elif how in ("index", "random", "label"):
            how = "address"
        a = a or rng.choice(live)
        makers = [x for x in self.actors.values()]
        if how == "actor" and makers:
            ref = await self.w(rng.choice(makers)["ref"].make("KeepA", a, uid, (), {}), "create_actor by an actor")
        else:
            try:
                ref = await self.w(xo.create_actor(ro.KeepA, uid=uid, address=a, **kw), "create_actor", how=how)
            except (NoIdleSlot, IndexError, ValueError) as e:
                wanted = {m["label"] for m in self.model.values()}
                self.ctx.check(how == "label" and label not in wanted, "an actor could not be allocated", how=how, error=e, labels=sorted(map(str, wanted)))
                return
        if how == "label":
            self.ctx.check(ref.address in self.model and self.model[ref.address]["label"] == label, "an actor was allocated to a process without the label", label=label, got=ref.address)
        elif how in ("index", "random"):
            self.ctx.check(ref.address in self.model, "an actor was allocated elsewhere than to a sub pool", got=ref.address)
        else:
            self.ctx.check(ref.address == a, "an actor was made elsewhere", got=ref.address, want=a)
        self.actors[uid] = dict(ref=ref, address=ref.address, n=0)
        self.ctx.count("created_" + how)

    # -- oracle -------------------------------------------------------------
    async def verify(self, step):
        ctx = self.ctx
        ctx.check(set(self.pool.sub_processes) == set(self.model), "sub pools of the pool differ from those appended and not removed", step=step, got=sorted(self.pool.sub_processes), want=sorted(self.model))
        for at in self.live():
            c = await self.w(xo.get_pool_config(at), "get_pool_config")
            got = {}
            for i in c.get_process_indexes():
                p = c.get_pool_config(i)
                got[p["external_address"][0]] = (p["label"], (p["env"] or {}).get("VF_MARK"))
            want = {a: (m["label"], m["mark"]) for a, m in self.model.items()}
            main = got.pop(self.main, None)
            ctx.check(main is not None, "the main pool is missing in the configuration", step=step, at=at)
            ctx.check(got == want, "configuration differs from what was appended and removed", step=step, at="main" if at == self.main else "sub", got=got, want=want)
            ctx.check(len(c.get_process_indexes()) == len(self.model) + 1, "process indexes in the configuration are not as many as processes", step=step)
            ctx.count("configurations_compared")
        live = self.live()
        for u, x in self.actors.items():
            if x["address"] not in live:
                continue
            s = await self.w(x["ref"].incr(), "a call")
            x["n"] += 1
            ctx.check(s == x["n"], "an actor lost state though its process was not touched", step=step, got=s, want=x["n"])
            s = await self.w(x["ref"].state(), "a call")
            ctx.check(s["address"] == x["address"], "an actor is elsewhere", got=s["address"])
            if x["address"] != self.main:
                m = self.model[x["address"]]
                ctx.check(s["env"] == m["mark"], "the environment of a sub pool is not the one given", got=s["env"], want=m["mark"], step=step)
                ctx.check(s["pid"] == self.pool.sub_processes[x["address"]].pid, "an actor is in another process than that of its sub pool", step=step)
            o = self.rng.choice(list(self.actors.values()))
            if o["address"] in live and o is not x:
                s2 = await self.w(o["ref"].ask(x["ref"]), "a call between processes")
                ctx.check(s2["uid"] == u and s2["n"] == x["n"], "a call between processes reached another actor", got=s2)
                ctx.count("calls_between_processes")
            s3 = await self.w(xo.core.ActorRef(self.main, x["ref"].uid).state(), "a call through main pool") if x["address"] != self.main else None
            ctx.check(s3 is None or s3["uid"] == u, "a call through main pool reached another actor", got=s3)
        for a in self.removed[-3:]:
            if a not in self.model:
                e = await self.w(co.outcome(xo.create_actor(ro.KeepA, uid="late", address=a)), "create_actor at a removed sub pool")
                ctx.check(e[0] != "ok", "an actor was created at a removed sub pool", address=a)


STEPS = ["kill while appending", "kill while removing", "append", "append", "append2", "fail", "append while creating", "remove", "remove", "remove while creating", "kill", "remove dead", "append while dead", "append fails beside", "readd"]


async def history(ctx, rng, n, mode, steps):
    async with pools.pool(n_process=n, auto_recover=mode) as pool:
        w = World(ctx, rng, pool, mode)
        await w.create()
        await w.verify("start")
        for step in steps:
            if step.startswith("remove") and not w.model or step.startswith("kill") and not w.model or len(w.model) > 5 and step.startswith("append"):
                step = "remove" if len(w.model) > 5 else "append"
            if step in ("remove dead", "append while dead") and not any(m["alive"] for m in w.model.values()):
                step = "append"
            ctx.phase(step)
            before = len(w.model)
            if step == "append":
                await w.append()
            elif step == "append2":
                await asyncio.gather(w.append(), w.append())
            elif step == "fail":
                await w.append(fail=rng.choice(["module", "python"]))
            elif step == "append fails beside":
                await asyncio.gather(w.append(given=False), w.append(fail=rng.choice(["module", "python"]), given=False), w.append(given=False))
            elif step == "append while creating":
                t = asyncio.ensure_future(w.append())
                while not t.done():
                    await w.create()
                    await asyncio.sleep(0.15)
                await t
            elif step == "remove":
                await w.remove()
            elif step == "remove while creating":
                a = rng.choice(sorted(w.model))
                others = [x for x in w.live() if x != a]
                t = asyncio.ensure_future(w.remove(a))
                await asyncio.sleep(0)
                while not t.done():
                    await w.create(rng.choice(others))
                    await asyncio.sleep(0.05)
                await t
            elif step == "kill":
                a = await w.kill()
                if a:
                    await w.recovered(a)
            elif step == "remove dead":
                a = await w.kill()
                w.model[a]["alive"] = False
                await asyncio.sleep(rng.uniform(0, 1.5))
                waits = asyncio.ensure_future(xo.wait_actor_pool_recovered(a, w.main)) if mode else None
                await asyncio.sleep(0.05)
                await w.remove(a)
                if waits:
                    await w.w(waits, "waiting for the recovery of a sub pool that is removed")
                await asyncio.sleep(rng.choice([0.6, 1.8]))
            elif step == "append while dead":
                a = await w.kill()
                t = asyncio.ensure_future(w.append())
                await w.recovered(a)
                await t
            elif step == "kill while appending":
                # the new process is started while the configuration changes
                t = asyncio.ensure_future(w.append())
                await asyncio.sleep(rng.uniform(0, 0.9))
                a = await w.kill()
                if a:
                    await w.recovered(a)
                await w.w(t, "append_sub_pool while a process is recovered")
            elif step == "kill while removing":
                if len(w.model) < 2:
                    await w.append()
                a = await w.kill()
                if a:
                    await asyncio.sleep(rng.uniform(0.2, 1.4))
                    await w.remove(rng.choice(sorted(x for x in w.model if x != a) or [a]))
                    if a in w.model:
                        await w.recovered(a)
            elif step == "readd":
                # a sub pool at the address of one that was removed
                free = [a for a in w.removed if a not in w.model]
                if not free:
                    continue
                a = await w.w(pool.append_sub_pool(external_address=free[-1], env={"VF_MARK": "again"}), "append_sub_pool")
                ctx.check(a == free[-1], "wrong address", got=a)
                w.model[a] = dict(label=None, mark="again", pid=pool.sub_processes[a].pid, alive=True)
            if rng.random() < 0.7:
                await w.create()
            await w.verify(step)
            ctx.case((step, mode, before), nontrivial=True, sample=dict(step=step, mode=str(mode), subs=before))


async def run(ctx):
    rng = ctx.rng
    i = 0
    while i < 1 or ctx.left(20, 400):
        steps = STEPS[:]
        rng.shuffle(steps)
        await history(ctx, rng, rng.choice([0, 1, 2]), rng.choice(["actor", "actor", "process", False]), steps)
        i += 1
        if ctx.quick:
            break
