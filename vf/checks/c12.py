"""C12: generators of actors give their values once, in order, to the end or the error."""
import asyncio

import xoscar as xo

from .. import genops as go
from .. import mon, pools

ID = "C12"
LEVEL = "exploration"
RULE = ("generator methods of every kind (sync, async, returned by sync or async functions, passed on from another actor) of stateful and stateless actors, run to "
        "the end or an error, abandoned, destroyed or handed over to other processes after k items by many concurrent consumers over all routes; values, ends and "
        "errors compared with the script, cleanup and exclusion monitored in the actor; distinct = (method, how, items, k, end, route); non-trivial = at least one item")
KINDS = ["sgen", "agen", "sret", "aret", "aret_sync", "nested"]
VALUES = [0, None, "", False, "x", b"bytes", [1, [2]], {"a": (1, 2)}, (1, 2), "StopIteration", ("StopIteration",), 1.5]


def rand_prog(rng, ctr, targets):
    ctr[0] += 1
    tok = f"g{ctr[0]}"
    n = rng.choice([0, 1, 2, 3, 5, 8])
    items = [["v", rng.choice([0, 0, 0, 0.001, 0.003]), rng.choice(VALUES + [f"{tok}.{i}"] * 6)] for i in range(n)]
    meth = rng.choice(KINDS)
    how = rng.choice(["all", "for", "for", "abandon", "destroy", "handover"])
    end = rng.choice([None, None, None, "boom", "stoptext", "stop", "timeout", "key"])
    extra = {}
    if meth == "nested":
        t = rng.choice(targets)
        extra = dict(addr=t.address, uid=t.uid, meth=rng.choice(KINDS[:-1]))
    k = rng.randint(0, n)
    return [meth, tok, items, end, extra, how, k]


def judge(ctx, prog, got, route):
    meth, tok, items, end, extra, how, k = prog
    vals, fin, kind, after = got
    d = dict(method=meth, extra=str(extra), how=how, items=str([i[2] for i in items])[:600], k=k, end=end, route=route, got=str(got)[:800])
    ctx.check(kind == "IteratorWrapper", "a generator method did not return an iterator", **d)
    want = [i[2] for i in items]
    e = go.expected_end(end, tok)
    if how in ("abandon", "destroy") and fin is None:
        ctx.check(vals == want[:k] and list(map(type, vals)) == list(map(type, want[:k])), "an iterator did not give the generator's values in order", **d)
    else:
        ctx.check(vals == want and list(map(type, vals)) == list(map(type, want)), "an iterator did not give the generator's values in order, each once", **d)
        if e is None:
            ctx.check(fin == "end", "a generator that came to its end ended differently", **d)
        else:
            ctx.check(fin != "end", "the error of a generator was taken for its end", **d)
            ctx.check(isinstance(fin, list) and e[0].__name__ in fin[0] and e[1] in fin[1], "the error of a generator did not reach the consumer", **d)
    if after is not None and how != "handover":
        ctx.check(after[0] == [], "an iterator gave values after its end", **d)
    ctx.case((meth, how, len(items), k, end, route), nontrivial=len(items) > 0, sample=dict(method=meth, how=how, items=len(items), k=k, end=end, route=route))
    ctx.count("values_delivered", len(vals))
    ctx.count("ended_" + ("open" if fin is None else "end" if fin == "end" else "error"))


async def settle(ctx, targets, consumers, toks):
    """At rest no generator is left in any actor, and each was closed exactly once."""
    await asyncio.gather(*[c.collect() for c in consumers])
    for i in range(400):
        st = [await t.state() for t in targets]
        over = {}
        for e in mon.read():
            if e["k"] == "genover":
                over[e["tok"]] = over.get(e["tok"], 0) + 1
        if not any(s["left"] for s in st) and all(over.get(t) for t in toks):
            break
        await asyncio.sleep(0.03)
    ctx.check(not any(s["left"] for s in st), "generators given up or ended are still held by their actor", left=str([s["left"] for s in st]))
    ctx.check(all(over.get(t) == 1 for t in toks), "a generator given up or ended was not closed exactly once", missing=str([t for t in toks if over.get(t) != 1])[:500])
    for t, s in zip(targets, st):
        if t.uid.startswith(b"Gen"):
            ctx.check(not s["overlaps"], "steps of generators of a stateful actor overlapped with its other methods", overlaps=str(s["overlaps"])[:600])
    ctx.count("generators_closed", len(toks))


async def run(ctx):
    rng = ctx.rng
    async with pools.pool(n_process=2) as pool:
        addrs = pools.addresses(pool)
        targets, consumers = [], []
        for i, a in enumerate(addrs):
            targets.append(await xo.create_actor(go.Gen, address=a, uid=f"Gen{i}"))
            targets.append(await xo.create_actor(go.FreeGen, address=a, uid=f"Free{i}"))
            consumers.append(await xo.create_actor(go.Consumer, address=a, uid="cons"))
        ctr = [0]
        rnd = 0
        while rnd < ctx.n(3, 40) or ctx.left(11, 240):
            rnd += 1
            ctx.phase(f"round {rnd}")
            mon.clear()
            jobs, meta, toks = [], [], []
            plain = 0
            for _ in range(8):
                t = rng.choice(targets)
                # a stateful actor must not wait for itself inside a step of its generator
                inner = [x for x in targets if x.uid.startswith(b"Free")]
                progs = [rand_prog(rng, ctr, inner) for _ in range(rng.randint(1, 6))]
                others = [rng.choice(consumers) for _ in range(rng.randint(1, 3))]
                route = rng.choice(["client", "actor", "actor", "main"])
                if route == "client":
                    async def client(t=t, progs=progs, others=others):
                        return [await go.consume(t, p, others) for p in progs]

                    jobs.append(client())
                elif route == "main":
                    async def client(t=t, progs=progs, others=others):
                        ref = xo.core.ActorRef(addrs[0], t.uid)
                        return [await go.consume(ref, p, others) for p in progs]

                    jobs.append(client())
                else:
                    c = rng.choice(consumers)
                    route += "=" if c.address == t.address else "+"
                    jobs.append(c.run(t.address, t.uid, progs, others))
                meta.append((progs, route))
                # closed once: those started, i.e. at least one item was asked for
                for p in progs:
                    started = not (p[5] in ("abandon", "destroy", "handover") and p[6] == 0) or p[5] == "handover"
                    if started and not (p[5] == "destroy" and p[6] == 0):
                        toks.append(p[1])
            for _ in range(6):
                t = rng.choice(targets)
                jobs.append(t.plain(f"p{plain}", rng.choice([0, 0.002])))
                plain += 1
            for _ in range(3):
                v = rng.choice([1, "v", None, [3], StopIteration.__name__])

                async def nog(t=rng.choice(targets), v=v, m=rng.choice(["no_gen", "no_agen"])):
                    r = await getattr(t, m)(v)
                    ctx.check(r == v and type(r) is type(v), "a generator method that returned a plain value gave something else", want=v, got=r)
                    ctx.count("plain_values")

                jobs.append(nog())
            res = await ctx.within(asyncio.gather(*jobs), 120, "consuming generators")
            for (progs, route), outs in zip(meta, res):
                for p, o in zip(progs, outs):
                    judge(ctx, p, o, route)
            # a sync generator that blocks does not block its pool
            ctx.phase(f"blocking step {rnd}")
            t = rng.choice([x for x in targets if x.uid.startswith(b"Free")])
            o = rng.choice(targets)
            tok = f"blk{rnd}"
            gate = f"gate{rnd}"

            async def blocked():
                return await go.consume(t, ["sgen", tok, [["v", 0, 1], ["gate", 0, gate], ["v", 0, 2]], None, {}, "all", 0])

            b = asyncio.ensure_future(blocked())
            await asyncio.sleep(0.02)
            same = [x for x in targets if x.address == t.address]
            for x in same:
                await ctx.within(x.plain(f"w{rnd}", 0), 20, "calls to a pool where a sync generator's step is blocking")
            await ctx.within(t.open_gate(gate), 20, "calls to a pool where a sync generator's step is blocking")
            r = await ctx.within(b, 60, "a generator whose step was blocking for a while")
            ctx.check(r[0] == [1, gate, 2], "a generator that was blocking gave wrong values", got=str(r))
            ctx.count("blocking_steps")
            toks.append(tok)
            await settle(ctx, targets, consumers, toks)
