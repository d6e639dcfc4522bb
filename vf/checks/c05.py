"""C05: cancelling a call cancels it in the callee, and nothing else."""
import asyncio

import xoscar as xo

from .. import actors, pools

ID = "C05"
LEVEL = "exploration"
RULE = ("waves of concurrent calls (plain, generator, tuple of awaitables, returned awaitable, two-hop, slow-cleanup, swallowing, queued behind a held "
        "actor) from the client, from sub pools and by local reference, a random part of them cancelled at random moments (including at the moment they "
        "finish); the callees' life-cycle logs are checked per call against the callers' outcomes; distinct = (method, caller place, callee kind, callee "
        "pool, outcome, life cycle); non-trivial = a cancelled call, or one running beside cancelled ones")

FOREVER = 600.0


def check_wave(ctx, plans, outs, evs, info):
    by = {}
    for kind, cid in evs:
        by.setdefault(cid, []).append(kind)
    for (addr, uid, meth, cid, args, start, after, mode, place), (ocid, out, secs, rtype) in zip(plans, outs):
        assert ocid == cid
        life = by.get(cid, [])
        parts = [by.get(f"{cid}/{i}", []) for i in range(2)] if meth == "twork" else [life]
        d = dict(info, method=meth, cid=cid, mode=mode, uid=uid, outcome=str(out), life=parts, place=place, ref=rtype)
        for p in parts:
            ctx.check(p.count("start") <= 1, "a call ran more than once", **d)
            ctx.check(len(p) <= 2 and (len(p) < 2 or p[0] == "start"), "impossible life cycle of a call", **d)
        want = (actors.f(cid + "/0"), actors.f(cid + "/1")) if meth == "twork" else actors.f(cid)
        if mode == "keep":
            ctx.check(out[0] == "ok" and out[1] == want, "a call nobody cancelled did not complete normally", **d)
            for p in parts:
                ctx.check(p == ["start", "end"], "a call nobody cancelled was interrupted", **d)
        elif mode == "forever":
            ctx.check(out[0] == "cancelled", "a cancelled call did not end as cancelled at its caller", **d)
            for p in parts:
                ctx.check(p in ([], ["start", "cancelled"]), "a cancelled call kept running in the callee", **d)
        elif mode == "swallow":
            # (a generator resumed after a wait for its actor's lock may be closed instead)
            shut = meth == "gkeep" and uid[:2] not in (b"fl", "fl") and life == ["start", "cancelled"]
            ctx.check((out[0] == "ok" and out[1] == want and life == ["start", "swallow"]) or (out[0] == "cancelled" and (life == [] or shut)),
                      "a call that handles its cancellation did not deliver its answer", **d)
        elif mode == "race":
            if out[0] == "ok":
                ctx.check(out[1] == want and all(p == ["start", "end"] for p in parts), "a call that answered did not finish", **d)
            else:
                ctx.check(out[0] == "cancelled", "a cancelled call ended with an error", **d)
                for p in parts:
                    ctx.check(p in ([], ["start", "cancelled"], ["start", "end"]), "a cancelled call is left half way", **d)
        ctx.case((meth, place, uid[:2], addr, mode, out[0], tuple(map(tuple, parts))), nontrivial=mode != "keep" or info["cancels"] > 0,
                 sample=d if mode != "keep" else None)
        ctx.count("outcome_" + out[0])
        if mode in ("forever", "race", "swallow"):
            ctx.count("never_started" if parts[0] == [] else "ended_" + parts[0][-1])


async def events_of(refs):
    out = []
    for r in refs:
        out.extend(tuple(e) for e in await r.events())
    return out


async def run(ctx):
    rng = ctx.rng
    async with pools.pool(n_process=2) as pool:
        addrs = pools.addresses(pool)
        drivers = [None] + [await xo.create_actor(actors.LifeDriver, address=a, uid=f"drv{i}") for i, a in enumerate(addrs)]
        wave = 0
        while wave < ctx.n(6, 30) or ctx.left(20, 240):
            wave += 1
            ctx.phase(f"wave {wave}")
            refs, free = [], []
            for i, a in enumerate(addrs):
                refs.append(await xo.create_actor(actors.FreeLife, address=a, uid=f"fl{wave}-{i}"))
                free.append(refs[-1])
            for i, a in enumerate(addrs):
                refs.append(await xo.create_actor(actors.Life, address=a, uid=f"li{wave}-{i}"))
            plans = []
            quick_stateful = set()
            for k in range(rng.randint(6, 40)):
                cid = f"w{wave}c{k}"
                mode = rng.choices(["keep", "forever", "race", "swallow"], [4, 5, 3, 1])[0]
                meth = rng.choice(["work", "work", "gwork", "twork", "rwork", "xwork", "via"])
                if meth == "via":
                    t, t2 = rng.sample(free, 2)
                    extra = ((t2.address, t2.uid),)
                else:
                    # many calls on a stateful actor wait for each other
                    t = rng.choice(free if rng.random() < 0.7 else refs[len(free):])
                    extra = ()
                if mode == "swallow":
                    meth, extra = rng.choice([("work", (True,)), ("gkeep", ())])
                d = {"keep": rng.choice([0, 0.01, 0.1]), "forever": FOREVER, "swallow": FOREVER, "race": rng.choice([0.01, 0.02, 0.05])}[mode]
                if meth == "work" and mode == "forever" and rng.random() < 0.3:
                    extra = (False, rng.choice([0, 0.05]))
                after = None if mode == "keep" else (d + rng.choice([-0.008, -0.003, -0.001, 0, 0.001, 0.002]) if mode == "race" else rng.choice([0, 0, 0.001, 0.01, 0.05, 0.2]))
                if after is not None and after < 0:
                    after = 0
                if mode == "forever" and meth == "work" and rng.random() < 0.5:
                    # impatient: cancelled again before the callee has ended
                    after = (after, rng.choice([0, 0.001, 0.01, 0.03]))
                    if not extra:
                        extra = (False, rng.choice([0.02, 0.05]))
                args = (d,) + extra
                place = rng.randrange(len(drivers))
                # sometimes through main pool, which passes the call on to the sub pool
                via_main = meth != "xwork" and t.address != addrs[0] and rng.random() < 0.25
                plans.append(("main!" + addrs[0] if via_main else t.address, t.uid, meth, cid, args, rng.choice([0, 0, 0.002, 0.02]), after, mode, place))
            jobs = []
            for place, drv in enumerate(drivers):
                mine = [p[:7] for p in plans if p[8] == place]
                if mine:
                    jobs.append(actors.drive_cancels(mine) if drv is None else drv.drive(mine))
            plans.sort(key=lambda p: p[8])
            res = await ctx.within(asyncio.gather(*jobs), 60, "a wave of calls of which the endless ones are cancelled",
                                   plans=str(plans)[:1500])
            outs = [o for r in res for o in r]
            # two-hop calls also show their life at the second actor: look at the last state when all is quiet
            await asyncio.sleep(0.05)
            bound = 100
            while True:
                evs = await events_of(refs)
                started = {c for k, c in evs if k == "start"}
                ended = {c for k, c in evs if k != "start"}
                if started <= ended or bound == 0:
                    break
                bound -= 1
                if bound % 20 == 10:
                    for r in refs:
                        await r.settle()
                await asyncio.sleep(0.1)
            ctx.check(started <= ended, "cancelled calls are still running in the callee", calls=sorted(started - ended)[:10],
                      events=[(str(r.uid), [e for e in await r.events() if e[1] in started - ended]) for r in refs], outs=str([o for o in outs if o[0] in started - ended]),
                      plans=[str(p) for p in plans if p[3].split("/")[0] in {c.split("/")[0] for c in started - ended}][:5])
            # split the second hop's events off
            vias = {p[3]: p for p in plans if p[2] == "via"}
            per = []
            for r in refs:
                for e in await r.events():
                    e = tuple(e)
                    c = e[1]
                    if c in vias and r.uid != vias[c][1]:
                        e = (e[0], "2:" + c)
                    per.append(e)
            for c, p in vias.items():
                l1 = [k for k, x in per if x == c]
                l2 = [k for k, x in per if x == "2:" + c]
                if p[7] == "forever":
                    ctx.check(l2 in ([], ["start", "cancelled"]), "cancellation did not travel on to the second callee", first=l1, second=l2, plan=str(p))
                    ctx.count("two_hop_" + ("reached" if l2 else "not_started"))
                else:
                    ctx.check(l2 in ([], ["start", "end"], ["start", "cancelled"]), "second callee ran wrongly", first=l1, second=l2, plan=str(p))
            check_wave(ctx, plans, outs, [e for e in per if not e[1].startswith("2:")], dict(wave=wave, cancels=sum(p[7] != "keep" for p in plans)))
            # nothing is left locked or broken
            for r in refs:
                got = await ctx.within(r.bump(wave), 30, "an actor does not answer after its calls were cancelled", uid=str(r.uid))
                ctx.check(got == actors.f(wave), "wrong answer after cancellations", got=got)

            # queued behind a held actor: cancelled before they start, they must never run
            ref = refs[-1 - rng.randrange(len(addrs))]
            hold = asyncio.ensure_future(ref.hold(f"h{wave}"))
            for _ in range(200):
                if ("start", f"h{wave}") in [tuple(e) for e in await ref.events()]:
                    break
                await asyncio.sleep(0.01)
            q = [(ref.address, ref.uid, rng.choice(["work", "gwork", "rwork", "twork"]), f"q{wave}-{k}", (0,), 0, rng.choice([0, 0.001, 0.01, 0.05]))
                 for k in range(rng.randint(1, 12))]
            kept = [asyncio.ensure_future(ref.bump(("kept", k))) for k in range(3)]
            drv = rng.choice(drivers)
            # a stateful driver's own pool may hold the actor: then it is a local reference
            qo = await ctx.within(actors.drive_cancels(q) if drv is None else drv.drive(q), 60,
                                  "cancelling a call that waits for a busy actor")
            for c in qo:
                ctx.check(c[1][0] == "cancelled", "a queued call that was cancelled did not end as cancelled", cid=c[0], outcome=str(c[1]))
            await ref.release()
            ctx.check(await ctx.within(hold, 30, "the call that held the actor") == actors.f(f"h{wave}"), "the call holding the actor was disturbed")
            for k, t in enumerate(kept):
                ctx.check(await ctx.within(t, 30, "a queued call beside cancelled ones") == actors.f(("kept", k)), "a queued call got a wrong answer")
            await asyncio.sleep(0.02)
            evs = [tuple(e) for e in await ref.events()]
            ran = [c for k, c in evs if c.startswith(f"q{wave}-")]
            ctx.check(not ran, "a call cancelled before it started ran all the same", calls=ran)
            ctx.count("queued_never_run", len(q))
            for r in refs:
                await xo.destroy_actor(r)
