"""C10: where an actor is does not change what its methods mean."""
import asyncio

import xoscar as xo

from .. import pools
from .. import transops as tr

ID = "C10"
LEVEL = "exploration"
RULE = ("random programs of calls (all kinds of signatures and methods, arguments of 14 families incl. arrays to 12 MB and user objects, failing and wrong calls; as call, "
        "send, options, tell, tell_delay) run step by step against a plain Python object and against an actor, for actors in main pool, sub pools, the in-process backend "
        "and another pool, asked by clients and actors of the same, another and the main process; distinct = (method, how, outcome, argument kinds, route)")


async def run(ctx):
    rng = ctx.rng
    async with pools.pool(n_process=2) as pool, pools.pool(n_process=1) as pool2, pools.inproc_pool(n_process=1) as tpool:
        addrs = pools.addresses(pool)
        a2, taddrs = pools.addresses(pool2), pools.addresses(tpool)
        probers = {a: await xo.create_actor(tr.Prober, address=a, uid="prober") for a in addrs + a2 + taddrs}
        n = 0
        rnd = 0
        while rnd < ctx.n(4, 60) or ctx.left(10, 240):
            rnd += 1
            ctx.phase(f"round {rnd}")
            prog = [tr.rand_step(rng) for _ in range(ctx.n(25, 50))]
            jobs, routes = [], []
            for place in rng.sample(addrs + a2 + taddrs, 4):
                kind = "main" if place in (addrs[0], a2[0]) else "test" if place in taddrs else "sub"
                for route in ("client", "same", "other", "via main"):
                    n += 1
                    # (what a stateless actor does while another call of the same sender waits is its own business: the program is sequential)
                    cls = rng.choice([tr.Uni, tr.Uni, tr.FreeUni])
                    if route == "other" and place in taddrs:
                        continue
                    if route == "via main" and kind != "sub":
                        continue
                    ref = await xo.create_actor(cls, address=place, uid=f"u{n}")
                    if route == "client":
                        jobs.append(tr.compare(ref, prog, cls is tr.FreeUni))
                    elif route == "same":
                        p = probers[place]
                        jobs.append(p.compare(place, ref.uid, prog, cls is tr.FreeUni) if rng.random() < 0.5 else p.compare_ref(ref, prog, cls is tr.FreeUni))
                    elif route == "other":
                        o = rng.choice([a for a in addrs + a2 if a != place])
                        jobs.append(probers[o].compare_ref(ref, prog, cls is tr.FreeUni))
                    else:
                        m = addrs[0] if place in addrs else a2[0]
                        jobs.append(tr.compare(xo.core.ActorRef(m, ref.uid), prog, cls is tr.FreeUni))
                    routes.append((kind, route, cls.__name__, ref))
            res = await ctx.within(asyncio.gather(*jobs), 150, "programs of calls")
            for (bad, rk), (kind, route, cls, ref) in zip(res, routes):
                ctx.check(not bad, "a call of an actor meant something else than the method called", where=kind, route=route, ref=rk, actor=cls, disagreements=bad[:3])
                for s in prog:
                    ctx.case((s[0], s[3], tuple(v[0] for v in s[1]), tuple(sorted(s[2])), kind, route, rk), sample=dict(step=str(s)[:120], place=kind, route=route, ref=rk))
                ctx.count("programs_" + rk)
            await asyncio.gather(*[r[3].destroy() for r in routes])
