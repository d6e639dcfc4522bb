"""C06: xo.wait_for ends when it has to, with what it has to."""
import asyncio
import os
import signal
import time

import xoscar as xo

from .. import actors, pools

ID = "C06"
LEVEL = "exploration"
RULE = ("waits of random timeouts (None, 0, short, long) around actor calls that answer, fail, never end or race with the timeout, on live actors, on a "
        "process stopped by SIGSTOP, from the client and from inside pools, some waits cancelled from outside; distinct = (behaviour, timeout class, "
        "target state, place, outcome); non-trivial = the wait timed out, raced or was cancelled")

SLACK = 25.0


async def one(ctx, ref, cid, beh, timeout, outer, bad, stopped=False):
    d = {"answer": 0.01, "fail": 0.01, "own": 0.01, "never": 600.0, "race": timeout or 0.01}[beh]
    call = ref.fail_after(cid, d) if beh == "fail" else ref.fail_own(cid, d) if beh == "own" else ref.work(cid, d)
    if beh == "race":
        d = max(0.0, d)
    t0 = time.monotonic()
    w = asyncio.ensure_future(xo.wait_for(call, timeout))
    if outer is not None:
        await asyncio.sleep(outer)
        w.cancel()
        t0 = time.monotonic()
    info = dict(cid=cid, behaviour=beh, timeout=timeout, outer=outer, stopped=stopped, target=ref.address)
    done, _ = await asyncio.wait([w], timeout=(timeout or 0) + SLACK)
    dt = time.monotonic() - t0
    if not done:
        bad.append(("wait_for did not end", info))
        return
    if w.cancelled():
        out = "cancelled"
    elif w.exception() is None:
        out = "ok"
        if w.result() != actors.f(cid):
            bad.append(("wrong value", info, w.result()))
    else:
        e = w.exception()
        out = type(e).__name__
        if isinstance(e, asyncio.TimeoutError):
            # a TimeoutError of the callee's own is one of its answers
            out = "OwnTimeout" if f"own {cid}" in str(e) else "TimeoutError"
    info["outcome"] = out
    info["seconds"] = round(dt, 3)
    if beh == "never":
        want = {"cancelled"} if outer is not None else {"TimeoutError"}
        if outer is not None and timeout is not None and timeout <= outer + 0.5:
            want.add("TimeoutError")
    elif outer is not None:
        want = {"cancelled", "ok", "Boom", "OwnTimeout", "TimeoutError"}
    elif timeout is None or timeout >= 30:
        want = {"answer": {"ok"}, "fail": {"Boom"}, "own": {"OwnTimeout"}, "race": {"ok"}}[beh]
        if stopped:
            want = {"TimeoutError"}
    else:
        want = {"answer": {"ok", "TimeoutError"}, "fail": {"Boom", "TimeoutError"}, "own": {"OwnTimeout", "TimeoutError"}, "race": {"ok", "TimeoutError"}}[beh]
        if stopped:
            want = {"TimeoutError"}
    if out not in want:
        bad.append(("wrong outcome", info, sorted(want)))
    if out == "TimeoutError" and timeout is not None and outer is None and dt < timeout - 0.02:
        bad.append(("timed out too early", info))
    ctx.case((beh, "none" if timeout is None else "zero" if timeout <= 0 else "short" if timeout < 30 else "long", stopped, outer is not None, out, ref.uid),
             nontrivial=out not in ("ok", "Boom", "OwnTimeout"), sample=info if out not in ("ok", "Boom", "OwnTimeout") else None)
    ctx.count("outcome_" + out)


async def withdrawn(ctx, ref, cid, timeout, after, bad):
    call = asyncio.ensure_future(ref.work(cid, 600.0))
    w = asyncio.ensure_future(xo.wait_for(call, timeout))
    await asyncio.sleep(after)
    call.cancel()
    done, _ = await asyncio.wait([w], timeout=SLACK)
    if not done or not w.cancelled():
        bad.append(("wait_for did not end as cancelled though what it waited for was", cid, timeout, str(w)))
    ctx.case(("withdrawn", timeout, after))
    ctx.count("withdrawn")


async def run(ctx):
    rng = ctx.rng
    async with pools.pool(n_process=2) as pool:
        addrs = pools.addresses(pool)
        main, sub, vic = addrs
        rnd = 0
        pid = (await (await xo.create_actor(actors.WaitLife, address=vic, uid="pid")).pid())
        while rnd < ctx.n(5, 20) or ctx.left(14, 200):
            rnd += 1
            ctx.phase(f"round {rnd}")
            refs = [await xo.create_actor(actors.WaitLife, address=a, uid=f"wl{rnd}-{i}") for i, a in enumerate(addrs)]
            bad = []
            jobs = []
            expect_cancel = {r: [] for r in refs}
            for k in range(rng.randint(10, 50)):
                ref = rng.choice(refs)
                beh = rng.choice(["answer", "fail", "own", "never", "never", "race"])
                timeout = rng.choice([0, 0.005, 0.02, 0.05, 0.2]) if beh in ("never", "race") else rng.choice([None, 60, 60, 0.02])
                outer = None
                if rng.random() < 0.25:
                    outer = rng.choice([0.001, 0.02, 0.05])
                    if beh == "never" and rng.random() < 0.7:
                        timeout = rng.choice([None, 300])
                cid = f"r{rnd}k{k}"
                if beh == "never":
                    expect_cancel[ref].append(cid)
                jobs.append(one(ctx, ref, cid, beh, timeout, outer, bad))
            # the call itself is given up by who made it
            for k in range(rng.randint(0, 4)):
                jobs.append(withdrawn(ctx, rng.choice(refs), f"r{rnd}w{k}", rng.choice([None, 60]), rng.choice([0, 0.01, 0.05]), bad))
            # the same from inside a pool
            inner = asyncio.ensure_future(refs[0].wait_inside([(refs[2].address, refs[2].uid, f"in{rnd}a", 600.0, 0.05), (refs[1].address, refs[1].uid, f"in{rnd}b", 0.01, 60.0)]))
            await ctx.within(asyncio.gather(*jobs), 120, "waits")
            ctx.check(not bad, "wait_for: " + (bad[0][0] if bad else ""), bad=[str(b) for b in bad[:4]])
            r = await ctx.within(inner, 60, "waits inside a pool")
            ctx.check(r[0] == "TimeoutError" and r[1] == ("ok", actors.f(f"in{rnd}b")), "wait_for inside a pool", got=str(r))
            expect_cancel[refs[2]].append(f"in{rnd}a")
            # what timed out is cancelled in the callee
            for ref, cids in expect_cancel.items():
                for i in range(150):
                    evs = [tuple(e) for e in await ref.events()]
                    open_ = [c for c in cids if ("start", c) in evs and ("cancelled", c) not in evs]
                    if not open_:
                        break
                    await asyncio.sleep(0.1)
                ctx.check(not open_, "the call a wait gave up on keeps running in the callee", calls=open_, target=ref.address)
                ctx.count("callee_cancelled", sum(("cancelled", c) in evs for c in cids))
            # a process that does not react at all: the waits must end nevertheless
            if rnd % 2 == 1:
                bad, jobs = [], []
                os.kill(pid, signal.SIGSTOP)
                try:
                    for k in range(rng.randint(3, 12)):
                        beh = rng.choice(["answer", "never", "fail"])
                        outer = None
                        jobs.append(one(ctx, refs[2], f"s{rnd}k{k}", beh, rng.choice([0, 0.01, 0.1, 0.3]), outer, bad, stopped=True))
                    live = refs[1].work(f"s{rnd}live", 0.01)
                    await ctx.within(asyncio.gather(*jobs), 60, "waits for calls to a stopped process")
                    ctx.check(await ctx.within(live, 60, "a call to another, live process") == actors.f(f"s{rnd}live"), "live process disturbed")
                finally:
                    os.kill(pid, signal.SIGCONT)
                ctx.check(not bad, "wait_for on a stopped process: " + (bad[0][0] if bad else ""), bad=[str(b) for b in bad[:4]])
                ctx.count("stopped_process_rounds")
                got = await ctx.within(refs[2].work(f"s{rnd}after", 0), 60, "a call after the process was continued")
                ctx.check(got == actors.f(f"s{rnd}after"), "wrong answer after SIGCONT")
            for r in refs:
                await xo.destroy_actor(r)
