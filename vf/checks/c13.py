"""C13: a batch of calls is those calls."""
import asyncio

import xoscar as xo

from .. import batchops as bo
from .. import pools

ID = "C13"
LEVEL = "exploration"
RULE = ("random batches (0-7 calls with positional, default, variadic and keyword arguments, failing ones among them) of extensible methods that are sync, async "
        "or no_lock and have a single implementation, a batch implementation or both; asked for as batch, tell-batch, single call, cancelled batch and by "
        "the actor itself, over every route; answers and the actor's log of executions compared with the single calls; distinct = (method, how, number, failing, route)")


def judge(ctx, op, got, route, kind):
    meth, calls, how = op
    (st, val), log0, log1 = got
    d = dict(method=meth, how=how, calls=str(calls)[:900], route=f"{route}/{kind}", got=str(got)[:900])
    toks = [bo.tok_of(c) for c in calls]
    fails = [t for t in toks if t.startswith("F")]
    want = [bo.norm(c) for c in calls]
    own = how.startswith("own")
    mode = how[4:] if own else how
    # --- the answer
    if mode == "cancel":
        ctx.check(st == "cancelled" or (st == "boom" and val in fails) or (st == "ok" and val == want), "a cancelled batch ended in a way none of its calls did", **d)
    elif mode == "mix":
        ctx.check(st == "mixed", "a batch of calls of several methods was not refused", **d)
        ctx.check(not log1, "calls of a refused batch were executed", log=log1, **d)
        ctx.case((meth, how, len(calls), route, kind))
        return
    elif mode == "tell":
        ctx.check(st == "ok" and val is None, "a told batch answered something", **d)
    elif fails:
        ok = st == "boom" and val in fails
        ctx.check(ok, "a batch with failing calls did not report the error of one of them", **d)
    elif mode == "single":
        ctx.check(st == "ok" and val == (None if meth.startswith("none") else want[0]), "a single call of an extensible method gave a wrong result", want=str(want)[:600], **d)
    else:
        ctx.check(st == "ok" and val == want, "a batch did not give the results of its calls in their order", want=str(want)[:900], **d)
    # --- what ran
    starts = [e for e in log1 if e[0] in ("s", "bs")]
    ran = [t for e in starts for t in ([e[2]] if e[0] == "s" else e[2])]
    ctx.check(len(ran) == len(set(ran)), "a call of a batch was executed twice", log=log1, **d)
    if not fails and mode != "cancel":
        ctx.check(sorted(ran) == sorted(toks), "calls of a batch were not executed exactly once", log=log1, **d)
    ctx.check([t for t in toks if t in ran] == ran, "calls of a batch did not start in their order", log=log1, **d)
    if meth.endswith("_batch") or meth in bo.BATCH or (meth in bo.BOTH and len(calls) > 1 and mode != "single"):
        if calls and not (mode == "cancel" and not starts):
            ctx.check([e for e in starts] == [["bs", meth, toks]], "the batch implementation was not called once with all calls in order", log=log1, **d)
    if meth in bo.SINGLE or (meth in bo.BOTH and mode == "single"):
        ctx.check(all(e[0] == "s" for e in starts), "a batch implementation ran for a method or call without", log=log1, **d)
    # --- over when answered
    if mode != "tell":
        ends = [(e[1], str(e[2])) for e in log0 if e[0] in ("e", "be")]
        begun = [(e[1], str(e[2])) for e in log0 if e[0] in ("s", "bs")]
        ctx.check(sorted(ends) == sorted(begun) and len(log0) == len(log1), "the batch was answered while calls of it were still running", log0=log0, log1=log1, **d)
    ctx.case((meth, how, len(calls), len(fails), route, kind), nontrivial=len(calls) > 0, sample=dict(method=meth, how=how, calls=str(calls)[:150], outcome=st, route=route))
    ctx.count("answered_" + st)
    ctx.count("executions", len(ran))


def rand_op(rng, ctr):
    if rng.random() < 0.08:
        ctr[0] += 1
        meth = rng.choice(["none_single", "none_batch", "none_sbatch"])
        return [meth, [[[f"t{ctr[0]}"], {}]], rng.choice(["single", "own single", "tell"])]
    meth = rng.choice(bo.ALL)
    how = rng.choice(["batch", "batch", "batch", "odd", "tell", "single", "cancel", "own batch", "own single", "mix"])
    n = 1 if how.endswith("single") else rng.randint(1, 4) if how == "mix" else rng.choice([0, 1, 2, 2, 3, 4, 7])
    fail = rng.choice([0, 0, 0.3, 0.8])
    return [meth, [bo.rand_call(rng, ctr, fail) for _ in range(n)], how]


async def run(ctx):
    rng = ctx.rng
    async with pools.pool(n_process=2) as pool, pools.inproc_pool(n_process=1) as tpool:
        addrs = pools.addresses(pool)
        taddrs = pools.addresses(tpool)
        targets = []
        for i, a in enumerate(addrs + taddrs):
            for cls in (bo.Batcher, bo.SubBatcher, bo.FreeBatcher):
                targets.append(await xo.create_actor(cls, address=a, uid=f"{cls.__name__}{i}"))
        askers = [await xo.create_actor(bo.Batchee, address=a, uid="batchee") for a in addrs + taddrs]
        ctr = [0]
        rnd = 0
        while rnd < ctx.n(4, 60) or ctx.left(10, 240):
            rnd += 1
            ctx.phase(f"round {rnd}")
            jobs, meta = [], []
            for t in rng.sample(targets, 4):
                for route in rng.sample(["client", "same", "cross", "main"], 2):
                    ops = [rand_op(rng, ctr) for _ in range(12)]
                    if route == "client":
                        jobs.append(bo.do_all(t, ops))
                    elif route == "same":
                        k = [k for k, a in zip(askers, addrs + taddrs) if a == t.address][0]
                        jobs.append(k.run(t.address, t.uid, ops))
                    elif route == "cross" and t.address in addrs:
                        jobs.append(rng.choice(askers[:3]).run(t.address, t.uid, ops))
                    elif route == "main" and t.address in addrs[1:]:
                        jobs.append(bo.do_all(xo.core.ActorRef(addrs[0], t.uid), ops))
                    else:
                        continue
                    meta.append((ops, route))
            res = await ctx.within(asyncio.gather(*jobs), 120, "batches")
            for (ops, route), (outs, kind) in zip(meta, res):
                for op, got in zip(ops, outs):
                    judge(ctx, op, got, route, kind)
