"""C02: every call and tell is executed exactly once, in each sender's order."""
import asyncio

import xoscar as xo

from .. import actors, pools

ID = "C02"
LEVEL = "exploration"
RULE = ("1..6 senders (the driver's tasks and actors in every pool, by remote and by local reference) each issue a random "
        "sequence of calls, tells (with delays and payloads up to 1 MB) and reads to shared sinks; an offline checker compares each sink's log with "
        "the issued sequences: exactly once, in issue order per sender, own tells visible to later calls; distinct = distinct merged order of senders at a sink; "
        "non-trivial = two or more senders actually interleaved")


def make_ops(rng, n, tells):
    ops = []
    for _ in range(n):
        mode = rng.choice(["call", "sync", "gen", "ext", "tell", "tell", "tellsync", "tellsync", "seen"] if tells else ["call", "sync", "gen", "ext"])
        size = rng.choice([-1, -1, 0, 10, 2000, 70000]) if rng.random() < 0.97 else 1_000_000
        ops.append((mode, rng.choice([0, 0, 0, 0.001, 0.003]), size))
    return ops


async def round_(ctx, pool, i):
    rng = ctx.rng
    ctx.phase(f"round {i}")
    addrs = pools.addresses(pool)
    stateless = rng.random() < 0.25
    sinks = [(rng.choice(addrs), f"sink{i}-{j}") for j in range(rng.randint(1, 2))]
    refs = [await xo.create_actor(actors.FreeSink if stateless else actors.Sink, address=a, uid=u) for a, u in sinks]
    senders, streams = [], []
    for j in range(rng.randint(1, 6)):
        a = rng.choice(addrs)
        senders.append(await xo.create_actor(actors.Sender, address=a, uid=f"snd{i}-{j}"))
    # much else under way in the same pools
    crowd = []
    if rng.random() < 0.35:
        for a, u in sinks:
            by = await xo.create_actor(actors.FreeSink, address=a, uid=f"by-{u}")
            crowd.append((by, [asyncio.ensure_future(by.busy(rng.random() * 0.3)) for _ in range(rng.choice([20, 64, 70, 200]))]))
        ctx.count("crowded_rounds")
    issued = {u: {} for _, u in sinks}
    wrongs = []
    names = 0
    for j, s in enumerate(senders):
        k = rng.randrange(len(sinks))
        name = f"a{j}"
        ops = make_ops(rng, rng.randint(3, 40), True)
        issued[sinks[k][1]][name] = ops
        streams.append(asyncio.ensure_future(s.go(sinks[k][0], sinks[k][1], name, ops)))
    for j in range(rng.randint(0, 3)):
        k = rng.randrange(len(sinks))
        name = f"d{j}"
        ops = make_ops(rng, rng.randint(3, 40), True)
        issued[sinks[k][1]][name] = ops
        ref = await xo.actor_ref(*sinks[k]) if rng.random() < 0.5 else refs[k]
        streams.append(asyncio.ensure_future(actors.stream(ref, name, ops, wrongs)))
    for s in streams:
        r = await ctx.within(s, 120, "a sender's sequence of calls and tells", issued=issued)
        if r is not None:
            wrongs.extend(r[0])
            ctx.count(f"senders_{r[1]}")
    if wrongs:
        ctx.violation("a call got a wrong answer, or did not see its sender's earlier tells", wrong=wrongs[:4])
    for (a, u), ref in zip(sinks, refs):
        want_n = sum(1 for ops in issued[u].values() for o in ops if o[0] != "seen")
        for t in range(3000):
            n = await ctx.within(ref.count(), 60, "count()")
            if n >= want_n:
                break
            if t > 500 and t % 100 == 0:
                pass
            await asyncio.sleep(0.01 if t < 1000 else 0.02)
        await asyncio.sleep(0.005)
        log = [tuple(x) for x in await ref.seen()]
        check_log(ctx, log, issued[u], dict(stateless=stateless))
        order = "".join(x[0] for x in log)
        switches = sum(1 for p, q in zip(log, log[1:]) if p[0] != q[0])
        ctx.count("messages", len(log))
        ctx.count("sender_switches", switches)
        ctx.case(order, nontrivial=switches >= 2, sample=dict(order=order[:80], senders=len(issued[u])))
        await xo.destroy_actor(ref)
    for by, calls in crowd:
        await ctx.within(asyncio.gather(*calls), 60, "calls beside")
        await xo.destroy_actor(by)
    for s in senders:
        await xo.destroy_actor(s)


def check_log(ctx, log, issued, info):
    per = {}
    for s, q in log:
        per.setdefault(s, []).append(q)
    for s, ops in issued.items():
        want = [q for q, o in enumerate(ops) if o[0] != "seen"]
        got = per.pop(s, [])
        if sorted(got) != want:
            lost = [q for q in want if q not in got]
            dup = sorted({q for q in got if got.count(q) > 1})
            ctx.violation("a message was lost or executed more than once", sender=s, lost=[(q, ops[q]) for q in lost[:5]],
                          duplicated=[(q, ops[q]) for q in dup[:5]], **info)
        if got != want:
            k = next(i for i, (x, y) in enumerate(zip(got, want)) if x != y)
            ctx.violation("messages of one sender were executed out of order", sender=s, position=k, got=got[k:k + 6],
                          want=want[k:k + 6], ops=ops[max(0, k - 1):k + 4], **info)
    if per:
        ctx.violation("a message nobody sent was executed", senders=list(per))


async def run(ctx):
    i = 0
    async with pools.pool(n_process=2) as pool:
        while i < ctx.n(10, 60) or ctx.left(18, 240):
            await round_(ctx, pool, i)
            i += 1
    # in-process backend: dummy channels, many more interleavings per second
    j = 0
    t_end = ctx.elapsed() + ctx.budget(6, 60)
    async with pools.inproc_pool(n_process=3) as pool:
        while j < 5 or ctx.elapsed() < t_end:
            await round_(ctx, pool, i + j)
            j += 1
    ctx.count("rounds_multiprocess", i)
    ctx.count("rounds_inprocess", j)
