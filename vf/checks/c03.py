"""C03: every caller gets the answer (or error) of its own call."""
import asyncio
import threading

import xoscar as xo

from .. import actors, pools
from ..actors import f

ID = "C03"
LEVEL = "exploration"
RULE = ("bursts of concurrent calls with unique tokens from several tasks, several OS threads (own event loops) and from inside every pool, to "
        "several stateless actors that answer after random delays (so answers overtake each other), with errors, generators, payloads "
        "up to 3 MB, multi-hop routes and calls cancelled mid-flight; every answer must be the function of its own token; "
        "distinct = distinct completion order relative to issue order; non-trivial = at least one answer overtook another")


async def burst(rng, targets, n, tag, bad, order, cancel=True):
    async def one(i):
        tok = f"{tag}.{i}"
        addr, uid = rng.choice(targets)
        d = rng.choice([0, 0, 0.001, 0.002, 0.005, 0.02])
        kind = rng.choice(["echo", "echo", "echo", "sync", "err", "gen", "hop", "cancel" if cancel else "echo"])
        size = rng.choice([0, 0, 10, 5000, 200_000]) if rng.random() < 0.98 else 3_000_000
        route = [rng.choice(targets) for _ in range(rng.randint(0, 3))]
        await asyncio.sleep(rng.choice([0, 0, 0, 0.001]))
        ref = await xo.actor_ref(addr, uid)
        try:
            if kind == "echo":
                r = await ref.echo(tok, d, size)
                if r != (f(tok), b"p" * size):
                    bad.append((tok, kind, actors.norm(r)))
            elif kind == "sync":
                r = await ref.echo_sync(tok)
                if r != f(tok):
                    bad.append((tok, kind, r))
            elif kind == "gen":
                r = await ref.echo_gen(tok, d)
                if r != f(tok):
                    bad.append((tok, kind, r))
            elif kind == "hop":
                r = await ref.hop(tok, d, route)
                if r != f(tok):
                    bad.append((tok, kind, r))
            elif kind == "err":
                try:
                    r = await ref.echo_err(tok, d)
                    bad.append((tok, kind, "no error", r))
                except actors.Boom as e:
                    if e.token != tok:
                        bad.append((tok, kind, "someone else's error", e.token))
            elif kind == "cancel":
                t = asyncio.ensure_future(ref.echo(tok, d + 0.01, size))
                await asyncio.sleep(rng.choice([0, 0.001, 0.004]))
                t.cancel()
                try:
                    r = await t
                    if r != (f(tok), b"p" * size):
                        bad.append((tok, kind, actors.norm(r)))
                except asyncio.CancelledError:
                    pass
        except Exception as e:
            bad.append((tok, kind, f"{type(e).__name__}: {e}"[:300]))
        order.append(i)

    await asyncio.gather(*[one(i) for i in range(n)])


def thread_main(seed, targets, n, tag, bad, order):
    import random

    asyncio.run(burst(random.Random(seed), targets, n, tag, bad, order))


async def round_(ctx, i, targets, threads):
    rng = ctx.rng
    ctx.phase(f"round {i}")
    bad, order = [], []
    n = rng.randint(5, 120)
    jobs = [burst(rng, targets, n, f"m{i}", bad, order)]
    ths = []
    for j in range(threads):
        o = []
        t = threading.Thread(target=thread_main, args=(rng.random(), targets, rng.randint(3, 30), f"t{i}.{j}", bad, o), daemon=True)
        ths.append((t, o))
        t.start()
    for j in range(rng.randint(0, 3)):
        src, dst = rng.choice(targets), rng.choice(targets)
        ref = await xo.actor_ref(*src)
        toks = [(f"f{i}.{j}.{k}", rng.choice([0, 0.001, 0.004]), rng.choice([0, 100, 50_000])) for k in range(rng.randint(2, 40))]

        async def fan(ref=ref, toks=toks, dst=dst):
            r = await ref.fan(toks, dst)
            if not all(r):
                bad.append(("fan", [t for t, ok in zip(toks, r) if not ok][:3]))

        jobs.append(fan())
    await ctx.within(asyncio.gather(*jobs), 120, "concurrent calls")
    for t, o in ths:
        await ctx.within(asyncio.to_thread(t.join), 120, "calls from a thread")
        ctx.count("calls_from_threads", len(o))
    if bad:
        ctx.violation("a call was answered with something that is not its own answer", bad=bad[:5])
    inv = sum(1 for a, b in zip(order, order[1:]) if b < a)
    ctx.count("calls", n)
    ctx.count("overtakings", inv)
    ctx.case(order, nontrivial=inv >= 1, sample=dict(completion_order=order[:30]))


async def run(ctx):
    async with pools.pool(n_process=2) as pool:
        targets = []
        for k, a in enumerate(pools.addresses(pool) * 2):
            await xo.create_actor(actors.Echo, address=a, uid=f"e{k}")
            targets.append((a, f"e{k}"))
        i = 0
        while i < ctx.n(12, 60) or ctx.left(18, 240):
            await round_(ctx, i, targets, ctx.rng.choice([0, 0, 0, 1, 2]))
            i += 1
    async with pools.inproc_pool(n_process=3) as pool:
        targets = []
        for k, a in enumerate(pools.addresses(pool)):
            await xo.create_actor(actors.Echo, address=a, uid=f"i{k}")
            targets.append((a, f"i{k}"))
        j = 0
        t_end = ctx.elapsed() + ctx.budget(5, 60)
        while j < 5 or ctx.elapsed() < t_end:
            await round_(ctx, i + j, targets, 0)
            j += 1
    ctx.count("rounds", i + j)
