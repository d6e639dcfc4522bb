"""C11: what a method returned, yielded or raised means the same for every caller."""
import asyncio

import xoscar as xo

from .. import pools, resultops as ro

ID = "C11"
LEVEL = "exploration"
RULE = ("random result shapes (values, coroutines, tasks, futures, tuples of them at all positions, async generators yielding such shapes, catching or not the "
        "failures of what they yield, nested to depth 3), returned by sync / async / no_lock / generator methods of stateful and stateless actors, asked "
        "for over every route; answers compared with a reference model; distinct = (shape skeleton, method, route); non-trivial = contains an awaitable or generator")


def skel(s):
    if s[0] in ("tup",):
        return "(" + ",".join(skel(x) for x in s[1]) + ")"
    if s[0] == "cotup":
        return "c(" + ",".join(skel(x) for x in s[2]) + ")"
    if s[0] == "agen":
        return "g[" + ",".join(skel(x) + ("!" if c else "") for x, c in s[1]) + "|" + s[2][0] + "]"
    return s[0]


def judge(ctx, req, out, route):
    meth, spec = req
    try:
        want = ("ok", ro.model(spec))
    except ro.Fail as e:
        want = ("boom", frozenset(e.toks))
    good = out[0] == want[0] and ro.same(out[1], want[1])
    ctx.check(good, "the caller did not get what the method's result stands for", method=meth, spec=str(spec)[:1500], route=route, got=str(out)[:600], want=str(want)[:600])
    sk = skel(spec)
    ctx.case((sk, meth, route), nontrivial=any(x in sk for x in ("c", "g", "t", "f", "bad")), sample=dict(shape=sk, method=meth, route=route, outcome=out[0]))
    ctx.count("answers_" + out[0])


async def run(ctx):
    rng = ctx.rng
    async with pools.pool(n_process=2) as pool, pools.inproc_pool(n_process=1) as tpool:
        addrs = pools.addresses(pool)
        targets = []
        for i, a in enumerate(addrs):
            targets.append(await xo.create_actor(ro.Shaper, address=a, uid=f"sh{i}"))
            targets.append(await xo.create_actor(ro.FreeShaper, address=a, uid=f"fsh{i}"))
        taddrs = pools.addresses(tpool)
        targets += [await xo.create_actor(ro.Shaper, address=a, uid=f"tsh{i}") for i, a in enumerate(taddrs)]
        askers = [await xo.create_actor(ro.Asker, address=a, uid="asker") for a in addrs + taddrs]
        ctr = [0]
        rnd = 0
        while rnd < ctx.n(4, 60) or ctx.left(10, 240):
            rnd += 1
            ctx.phase(f"round {rnd}")
            reqs = []
            for _ in range(25):
                meth = rng.choice(["a_method", "a_method", "s_method", "n_method", "g_method"])
                spec = ro.rand_gen(rng, 2, ctr) if meth == "g_method" else ro.rand_top(rng, 3, ctr)
                reqs.append((meth, spec))
            jobs, routes = [], []

            async def client(ref, rs):
                return [await ro.ask(ref, m, s) for m, s in rs], type(ref).__name__

            for t in rng.sample(targets, 4):
                jobs.append(client(t, reqs))
                routes.append(f"client>{'test' if t.address in taddrs else 'main' if t.address == addrs[0] else 'sub'}")
                local = [k for k, a in zip(askers, addrs + taddrs) if a == t.address]
                if local:
                    jobs.append(local[0].ask_all(t.address, t.uid, reqs))
                    routes.append("same pool")
                if t.address in addrs:
                    o = rng.randrange(3)
                    jobs.append(askers[o].ask_all(t.address, t.uid, reqs))
                    routes.append(f"pool{o}")
                    if t.address != addrs[0]:
                        jobs.append(client(xo.core.ActorRef(addrs[0], t.uid), reqs))
                        routes.append("through main")
            res = await ctx.within(asyncio.gather(*jobs), 120, "methods with awaitable results", reqs=str(reqs)[:1500])
            for (outs, kind), route in zip(res, routes):
                for q, o in zip(reqs, outs):
                    judge(ctx, q, o, f"{route}/{kind}")
