"""C15: when a process dies, what waits for it fails; nothing waits forever, nobody else notices."""
import asyncio
import contextlib
import os
import signal

import xoscar as xo

from .. import crashops as co
from .. import pools

ID = "C15"
LEVEL = "fault_enumeration"
RULE = ("pending calls, queued calls, batches, creations, generator steps and transfers to a process that is killed (SIGKILL, frozen then killed, exits in a method, "
        "kill_actor, stopped pool; sub or main process), waited for by clients and by actors of other processes, directly and through main pool; each must fail as closed, "
        "and calls to others meanwhile must succeed; distinct = (way to die, kind of wait, who waits); all non-trivial")
WAIT = 45


async def bystander(ctx, refs, stop, n):
    i = 0
    while not stop.is_set():
        for r in refs:
            i += 1
            x = await ctx.within(r.echo(["by", n, i]), WAIT, "a call to a process that did not die")
            ctx.check(x == ["by", n, i], "a call to a living process was answered wrongly while another died", got=x)
            ctx.count("bystander_calls")
        await asyncio.sleep(0.005)


def judge(ctx, how, who, kinds, ends):
    for k, e in zip(kinds, ends):
        if "through main" in who and e[0] == "other" and e[1][0] == "ActorNotExist":
            # it reached main pool only when that knew of the death already
            ctx.count("asked_too_late")
            continue
        ctx.check(e[0] == "closed", "what waited for a process that died did not fail as closed", death=how, who=who, kind=k, got=e)
        ctx.case((how, k, who), sample=dict(death=how, waiting=k, who=who, error=e[1][0]))
        ctx.count("failed_" + e[1][0].split(".")[-1])


async def sub_deaths(ctx, rng, npool):
    hows = ["kill", "frozen", "suicide", "kill_actor"]
    rng.shuffle(hows)
    async with pools.pool(n_process=len(hows) + 1, auto_recover=False) as pool:
        addrs = pools.addresses(pool)
        vs = [await xo.create_actor(co.Victim, address=a, uid=f"v{i}") for i, a in enumerate(addrs)]
        ls = [await xo.create_actor(co.Locked, address=a, uid=f"l{i}") for i, a in enumerate(addrs)]
        callers = [await xo.create_actor(co.Caller, address=a, uid=f"c{i}") for i, a in enumerate(addrs)]
        last = len(addrs) - 1
        for i, how in enumerate(hows, 1):
            ctx.phase(f"pool {npool} death {i}: {how}")
            v, lo = vs[i], ls[i]
            pid = await v.pid()
            mainref, mainl = xo.core.ActorRef(addrs[0], v.uid), xo.core.ActorRef(addrs[0], lo.uid)
            jobs = []
            for who, c, r, q in (("client", None, v, lo), ("client through main", None, mainref, mainl), ("main's actor", callers[0], v, lo), ("another process", callers[last], v, lo),
                                 ("another process through main", callers[last], mainref, mainl), ("next to die", callers[i + 1], v, lo)):
                kinds = [rng.choice(co.KINDS) for _ in range(rng.randint(1, 6))]
                if "through" in who:  # (creation at main's address is a creation in main)
                    kinds = [k if k not in ("create",) else "wait" for k in kinds]
                if c is None:
                    ts = [asyncio.ensure_future(co.one(k, r, q)) for k in kinds]
                    jobs.append((who, kinds, asyncio.gather(*ts)))
                else:
                    await c.begin(f"{i} {who}", kinds, r, q)
                    jobs.append((who, kinds, c.ends(f"{i} {who}")))
            stop = asyncio.Event()
            by = asyncio.ensure_future(bystander(ctx, [vs[0], vs[last]], stop, i))
            await asyncio.sleep(rng.choice([0.02, 0.1, 0.3]))
            if how == "kill":
                os.kill(pid, signal.SIGKILL)
            elif how == "frozen":
                os.kill(pid, signal.SIGSTOP)
                late = [asyncio.ensure_future(co.one(k, v, lo)) for k in ("wait", "take")]
                await asyncio.sleep(0.05)
                os.kill(pid, signal.SIGKILL)
                jobs.append(("client while frozen", ["wait", "take"], asyncio.gather(*late)))
            elif how == "suicide":
                with contextlib.suppress(*co.CLOSED):
                    await ctx.within(v.suicide(), WAIT, "a call that ends its process")
                    ctx.violation("a call that ended its process was answered")
            else:
                await ctx.within(xo.kill_actor(v), WAIT, "kill_actor")
            for who, kinds, j in jobs:
                ends = await ctx.within(j, WAIT, "what waits for a process that died", death=how, who=who, kinds=kinds)
                judge(ctx, how, who, kinds, ends)
            # whoever asks now is told as well
            o = await ctx.within(co.outcome(v.echo(1)), WAIT, "a call to a dead process")
            ctx.check(o[0] == "closed", "a call to a dead process did not fail as closed", got=o)
            o = await ctx.within(callers[last].later(v), WAIT, "a call to a dead process")
            ctx.check(o[0] == "closed", "a call to a dead process did not fail as closed", got=o)
            o = await ctx.within(co.outcome(mainref.echo(1)), WAIT, "a call to a dead process through main pool")
            ctx.check(o[0] != "ok", "a call to a dead process was answered", got=o)
            stop.set()
            await ctx.within(by, WAIT, "bystander")
            ctx.count("deaths")


async def main_deaths(ctx, rng, npool):
    """The other pool is another main process with its sub processes."""
    async with pools.pool(n_process=1) as pool:
        caller = await xo.create_actor(co.Caller, address=pools.subs(pool)[0], uid="c")
        for how in rng.sample(["main killed", "group killed", "pool stopped"], ctx.n(2, 3)):
            ctx.phase(f"pool {npool} {how}")
            p, addrs = await co.serve(1)
            try:
                jobs = []
                for i, a in enumerate(addrs):
                    v, lo = await xo.actor_ref(a, f"v{i}"), await xo.actor_ref(a, f"l{i}")
                    if i == 0:
                        v0 = v
                    kinds = [rng.choice([k for k in co.KINDS if k != "create"]) for _ in range(4)]
                    jobs.append((f"client of {'main' if i == 0 else 'sub'}", kinds, asyncio.gather(*[asyncio.ensure_future(co.one(k, v, lo)) for k in kinds])))
                    kinds = [rng.choice([k for k in co.KINDS if k != "create"]) for _ in range(3)]
                    await caller.begin(a, kinds, v, lo)
                    jobs.append((f"actor calling {'main' if i == 0 else 'sub'}", kinds, caller.ends(a)))
                await asyncio.sleep(rng.choice([0.02, 0.1, 0.3]))
                if how == "main killed":
                    p.kill()
                elif how == "group killed":
                    os.killpg(p.pid, signal.SIGKILL)
                else:
                    p.stdin.write(b"stop\n")
                for who, kinds, j in jobs:
                    ends = await ctx.within(j, WAIT, "what waits for a pool that ended", death=how, who=who, kinds=kinds)
                    judge(ctx, how, who, kinds, ends)
                if how == "pool stopped":
                    line = await ctx.within(p.stdout.readline(), WAIT, "stopping a pool with calls pending")
                    ctx.check(line.startswith(b"STOPPED"), "a pool with calls pending did not stop", got=line)
                o = await ctx.within(co.outcome(v0.echo(1)), WAIT, "a call to a pool that ended")
                ctx.check(o[0] == "closed", "a call to a pool that ended did not fail as closed", got=o)
                ctx.count("deaths")
            finally:
                with contextlib.suppress(ProcessLookupError):
                    os.killpg(p.pid, signal.SIGKILL)
                await p.wait()


async def run(ctx):
    rng = ctx.rng
    n = 0
    while n < 1 or ctx.left(8, 240):
        n += 1
        await sub_deaths(ctx, rng, n)
        await main_deaths(ctx, rng, n)
