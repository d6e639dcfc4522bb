"""C01: calls on a stateful actor never run inside each other."""
import asyncio

import xoscar as xo

from .. import actors, pools

ID = "C01"
LEVEL = "exploration"
RULE = ("random concurrent mixes of sync/async/generator/batch/tuple-returning/failing/cancelled calls and tells, issued "
        "remotely and through local references, against stateful actors whose every lock-holding section is bracketed by an "
        "occupancy monitor and a read-sleep-write balance; distinct = distinct order of section entries/exits seen on one "
        "actor; non-trivial = at least two callers were in flight at the same time")

def plan(rng, n, prefix=""):
    return [(rng.choice(actors.EXCL_KINDS), f"{prefix}{i}", rng.randint(1, 9), rng.choice([0, 0, 0.001, 0.003, 0.008])) for i in range(n)]


async def settle(ctx, ref, want, what):
    """Tells have no answer: wait until everything was applied (or nothing moves)."""
    last = None
    for _ in range(600):
        rep = await ctx.within(ref.report(), 60, "report()")
        state = (rep["bal"], rep["applied"], len(rep["trace"]))
        if rep["bal"] == want and not rep["inside"]:
            return rep
        if state == last and _ > 100:
            break
        last = state
        await asyncio.sleep(0.01)
    return rep


def judge(ctx, rep, want, where, ops):
    if rep["overlaps"]:
        ctx.violation("two calls of one stateful actor were inside at the same time", where=where,
                      overlaps=rep["overlaps"][:5], trace=rep["trace"][-60:], ops=ops)
    if rep["bal"] != want:
        ctx.violation("lost or duplicated update under the actor lock", where=where, got=rep["bal"], want=want, ops=ops)


async def round_(ctx, pool, i):
    rng = ctx.rng
    ctx.phase(f"round {i}")
    addrs = pools.addresses(pool)
    addr = rng.choice(addrs)
    relay = await xo.create_actor(actors.Relay, address=rng.choice(addrs), uid=f"relay{i}")
    ref = await xo.create_actor(actors.Excl, relay, address=addr, uid=f"excl{i}")
    spawn = [await xo.create_actor(actors.Spawner, address=a, uid=f"sp{i}-{j}") for j, a in enumerate([addr, rng.choice(addrs)])]
    n = rng.randint(6, 26)
    ops = plan(rng, n)
    tasks = [asyncio.create_task(actors.excl_do(ref, op, rng.choice([0, 0, 0.001, 0.004]))) for op in ops]
    # the same kind of calls made from inside the pools (local references in `addr`)
    for j, s in enumerate(spawn):
        mine = plan(rng, rng.randint(1, 8), f"s{j}.")
        ops += mine
        calls = [(addr, f"excl{i}", None, (op, rng.choice([0, 0, 0.001, 0.004])), "op") for op in mine]
        tasks.append(asyncio.create_task(s.run(calls)))
    want = sum(actors.excl_expected(op) for op in ops)
    for t in tasks:
        r = await ctx.within(t, 60, "call on a stateful actor", ops=ops)
        if isinstance(r, tuple):
            for kind in r[1]:
                ctx.count(f"calls_from_pool_{kind}")
            bad = [x for x in r[0] if x[0] == "EXC"]
            if bad:
                ctx.violation("call failed", outcomes=bad[:3], ops=ops)
    rep = await settle(ctx, ref, want, "settle")
    judge(ctx, rep, want, "random mix", ops)
    ctx.count("sections", len(rep["trace"]) // 2)
    ctx.count("calls", len(ops))
    ctx.case("|".join(rep["trace"]), nontrivial=len(ops) >= 2, sample=dict(ops=ops[:8], order=rep["trace"][:16]))
    for r in [ref, relay] + spawn:
        await xo.destroy_actor(r)


async def release(ctx, pool, i):
    """The lock is free at yields and for returned awaitables, and after failures/cancellation."""
    rng = ctx.rng
    ctx.phase(f"release {i}")
    for addr in pools.addresses(pool)[:2]:
        ref = await xo.create_actor(actors.Excl, address=addr, uid=f"rel{i}")
        sp = await xo.create_actor(actors.Spawner, address=addr, uid=f"relsp{i}")
        for meth, want in [("wait_gate_yield", "gate-open"), ("wait_gate_ret", True), ("wait_gate_tuple", (True, 1)), ("wait_gate_future", True), ("wait_gate_object", True), ("wait_gate_futures", (1, True, True))]:
            for local in (False, True):
                if local:
                    t = asyncio.ensure_future(sp.run([(addr, f"rel{i}", meth, (), "call")]))
                else:
                    t = asyncio.ensure_future(getattr(ref, meth)())
                # only once the waiter has passed its locked section may the gate open
                for _ in range(2000):
                    rep = await ctx.within(ref.report(), 60, f"a call while {meth} waits outside the lock", local=local)
                    if rep["trace"].count("+W") > rep["trace"].count("+O"):
                        break
                    await asyncio.sleep(0.005)
                await ctx.within(ref.open_gate(), 60, f"open_gate while {meth} waits outside the lock")
                r = await ctx.within(t, 60, meth)
                if local:
                    r = r[0][0][1]
                ctx.check(r == want, f"{meth} answered {r!r} instead of {want!r}", local=local)
                ctx.count("lock_released_at_yield")
                ctx.case(("release", meth, local, addr == pool.external_address))
        rep = await ref.report()
        judge(ctx, rep, rep["bal"], "release", [])
        await xo.destroy_actor(ref)
        await xo.destroy_actor(sp)


async def free(ctx, pool, i):
    ctx.phase(f"free {i}")
    n = ctx.rng.randint(2, 30)
    for cls in (actors.Free, actors.HalfFree):
        for addr in pools.addresses(pool)[:2]:
            ref = await xo.create_actor(cls, address=addr, uid=f"free{i}")
            tasks = []
            if cls is actors.HalfFree:
                tasks.append(asyncio.ensure_future(ref.hold(n)))
                await asyncio.sleep(0.005)
            tasks += [asyncio.ensure_future(ref.meet(n)) for _ in range(n)]
            for t in tasks:
                await ctx.within(t, 60, f"{n} lock-free calls on a {cls.__name__} actor did not run concurrently")
            ctx.count("concurrent_lockfree_calls", n)
            ctx.case(("free", cls.__name__, n, addr == pool.external_address))
            await xo.destroy_actor(ref)


async def run(ctx):
    async with pools.pool(n_process=2) as pool:
        i = 0
        while i < ctx.n(8, 40) or ctx.left(22, 300):
            await round_(ctx, pool, i)
            if i % 6 == 0:
                await release(ctx, pool, i)
                await free(ctx, pool, i)
            i += 1
        ctx.count("rounds", i)
