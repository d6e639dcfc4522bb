"""C08: lifecycle hooks run exactly once; what fails to be created leaves nothing behind."""
import asyncio
from collections import defaultdict

import xoscar as xo

from .. import actors, mon, pools

ID = "C08"
LEVEL = "fault_enumeration"
RULE = ("a case is one group of concurrent creations / destructions of a uid with failures injected into __init__, __post_create__, __pre_destroy__ or by cancellation, "
        "judged by the events the actors recorded; key = sorted (operation, injected failure, outcome) with view; non-trivial = some failure or race in the group")

FAILS = ["init", "post", "base", "bad_args", "cancel", "pre"]


def creation(rng, uid, via, home, tok, fail):
    o = dict(op="create", uid=uid, via=via, home=home, tok=tok, d1=rng.choice([0, 0, 0.003]), d2=rng.choice([0, 0, 0.003]), fail=fail)
    if fail == "init":
        o["init_fail"] = True
    elif fail == "post":
        o["post"] = "raise"
    elif fail == "base":
        o["post"] = "base"
    elif fail == "bad_args":
        o["bad_args"] = True
    elif fail == "cancel":
        o["d1"] = rng.choice([0.05, 0.3])
        o["cancel"] = rng.choice([0.01, 0.02, 0.1]) if o["d1"] > 0.1 else rng.choice([0, 0.001, 0.03])
    elif fail == "pre":
        o["pre"] = "raise"
    return o


WANT = {"init": "Boom:init", "post": "Boom:post", "base": "KeyError", "bad_args": "TypeError"}


async def group(ctx, rng, gid, addrs, drivers, ctr):
    main = addrs[0]
    view = rng.choice(["main", "sub", "local"])
    home = main if view == "local" else rng.choice(addrs[1:])
    via = home if view == "sub" else main
    uid = f"h{gid}"
    shape = rng.choice(["create_race", "destroy_race", "fail", "fail", "chain"])
    all_ops = []

    async def go(ops):
        k = rng.randint(0, len(ops))
        jobs = [actors.hook_op(o) for o in ops[:k]]
        if ops[k:]:
            jobs.append(rng.choice(drivers).run(ops[k:]))
        res = await ctx.within(asyncio.gather(*jobs), 90, "lifecycle operations")
        out = []
        for x in res:
            out.extend(x if isinstance(x, list) else [x])
        all_ops.extend(out)
        return out

    def tok():
        ctr[0] += 1
        return f"{uid}#{ctr[0]}"

    fail = None
    if shape == "create_race":
        res = await go([creation(rng, uid, via, home, tok(), None) for _ in range(rng.randint(2, 5))])
        oks = [r for r in res if r["out"] == "ok"]
        ctx.check(len(oks) == 1 and all(r["out"] in ("ok", "ActorAlreadyExist") for r in res), "race of creations: not exactly one winner", res=str(res))
        live = oks[0]["tok"]
    elif shape == "fail":
        fail = rng.choice(FAILS)
        res = await go([creation(rng, uid, via, home, tok(), fail)])
        r = res[0]
        if fail == "cancel":
            ctx.check(r["out"] in ("cancelled", "ok"), "cancelled creation", got=r)
            if r["d1"] > 0.1:
                ctx.check(r["out"] == "cancelled", "creation not cancelled", got=r)
            if r["out"] == "cancelled" and r["d1"] <= 0.1:
                # raced with completion: either way the views must agree, then clean up
                await asyncio.sleep(0.2)
                hm, hs = await xo.has_actor(xo.core.ActorRef(main, uid)), await xo.has_actor(xo.core.ActorRef(home, uid))
                ctx.check(hm == hs, "views disagree after a cancelled creation", main=hm, home=hs, view=view)
                if hs:
                    await go([dict(op="destroy", uid=uid, via=via, home=home, fail=None)])
        elif fail == "pre":
            ctx.check(r["out"] == "ok", "creation", got=r)
            d = (await go([dict(op="destroy", uid=uid, via=via, home=home, fail="pre")]))[0]
            ctx.check(d["out"] == "Boom:pre", "the error of __pre_destroy__ does not reach the destroyer", got=d)
            hm, hs = await xo.has_actor(xo.core.ActorRef(main, uid)), await xo.has_actor(xo.core.ActorRef(home, uid))
            ctx.check(hm == hs, "views disagree after a failed destroy", main=hm, home=hs, view=view)
            c = (await go([dict(op="call", uid=uid, via=home, home=home, fail=None)]))[0]
            ctx.check(c["out"] == (f"tok:{r['tok']}" if hs else "ActorNotExist"), "call after a failed destroy", got=c, exists=hs)
            if hs:
                d = (await go([dict(op="destroy", uid=uid, via=via, home=home, fail=None)]))[0]
                ctx.check(d["out"] == "ok", "second destroy", got=d)
        else:
            ctx.check(r["out"] == WANT[fail], "a failed creation does not raise its own error", got=r, want=WANT[fail])
        if fail not in ("pre",):
            hm, hs = await xo.has_actor(xo.core.ActorRef(main, uid)), await xo.has_actor(xo.core.ActorRef(home, uid))
            if not (fail == "cancel" and r["out"] == "ok"):
                ctx.check(not hm and not hs, "a failed creation left an actor", main=hm, home=hs, fail=fail, view=view)
                c = (await go([dict(op="call", uid=uid, via=home, home=home, fail=None)]))[0]
                ctx.check(c["out"] == "ActorNotExist", "an actor whose creation failed answers", got=c)
            else:
                await go([dict(op="destroy", uid=uid, via=via, home=home, fail=None)])
        res = await go([creation(rng, uid, via, home, tok(), None)])
        ctx.check(res[0]["out"] == "ok", "uid unusable after a failure", got=res[0], fail=fail, view=view)
        live = res[0]["tok"]
    else:
        res = await go([creation(rng, uid, via, home, tok(), None)])
        ctx.check(res[0]["out"] == "ok", "creation", got=res[0])
        live = res[0]["tok"]
        if shape == "chain":
            for _ in range(rng.randint(1, 4)):
                r2 = await go([dict(op="destroy", uid=uid, via=via, home=home, fail=None)])
                r3 = await go([creation(rng, uid, via, home, tok(), None)])
                ctx.check(r2[0]["out"] == "ok" and r3[0]["out"] == "ok", "chain of creations", got=str([r2, r3]))
                live = r3[0]["tok"]
    n = rng.randint(2, 5) if shape == "destroy_race" else 1
    res = await go([dict(op="destroy", uid=uid, via=via, home=home, fail=None) for _ in range(n)] +
                   [dict(op="call", uid=uid, via=home, home=home, fail=None) for _ in range(rng.randint(0, 3))])
    oks = [r for r in res if r["op"] == "destroy" and r["out"] == "ok"]
    ctx.check(len(oks) == 1 and all(r["out"] in ("ok", "ActorNotExist", f"tok:{live}") for r in res), "race of destroys: not exactly one winner", res=str(res), view=view)
    ctx.check(not await xo.has_actor(xo.core.ActorRef(main, uid)) and not await xo.has_actor(xo.core.ActorRef(home, uid)), "destroyed actor still exists", view=view)
    ctx.case((shape, view, fail, sorted((r["op"], str(r["fail"]), r["out"].split(":")[0]) for r in all_ops)), nontrivial=shape != "chain",
             sample=dict(shape=shape, view=view, fail=fail, outcomes=[r["out"] for r in all_ops]))
    ctx.count("shape_" + shape)
    if fail:
        ctx.count("fault_" + fail)
    return all_ops


def judge(ctx, ops, evs):
    by = defaultdict(list)
    for e in evs:
        if "tok" in e:
            by[e["tok"]].append(e)
    creates = {r["tok"]: r for r in ops if r["op"] == "create"}
    destroys = defaultdict(list)
    for r in ops:
        if r["op"] == "destroy":
            destroys[r["uid"]].append(r)
    for tok, r in creates.items():
        es = by.get(tok, [])
        c = lambda k: sum(e["k"] == k for e in es)  # noqa: E731
        det = dict(create=r, events=[(e["k"], e["t"]) for e in es])
        order = [e["k"] for e in es if e["k"] != "call"]
        fail = r["fail"]
        if r["out"] == "ok":
            ctx.check(c("init") == 1 and c("post") == 1 and c("posted") == 1, "constructor or __post_create__ not run exactly once", **det)
            ctx.check(order[:3] == ["init", "post", "posted"], "hooks out of order", **det)
            posted = next(e for e in es if e["k"] == "posted")
            post = next(e for e in es if e["k"] == "post")
            ctx.check(posted["t"] <= r["t1"], "creation answered before __post_create__ was complete", **det)
            ctx.check(post["uid"] == r["uid"] and post["addr"] == r["home"], "uid or address wrong in __post_create__", got=post, **det)
            want = 2 if fail == "pre" and c("pre_failed") == 1 and c("pre") == 2 else 1
            ctx.check(c("pre") == want and c("pred") == (1 if want == c("pre") and not (fail == "pre" and want == 1) else 0), "__pre_destroy__ not run exactly once", **det)
            pred = [e["t"] for e in es if e["k"] == "pred"]
            if pred:
                ds = [d for d in destroys[r["uid"]] if d["out"] == "ok" and d["t0"] <= pred[0] <= d["t1"]]
                ctx.check(len(ds) >= 1, "__pre_destroy__ not within a destroy", **det)
                end = min(d["t1"] for d in ds)
                late = [e for e in es if e["k"] == "call" and e["t"] > max(d["t1"] for d in ds)]
                ctx.check(not late, "a method ran after the destroy had answered", end=end, **det)
        else:
            ctx.check(c("init") <= 1 and c("post") <= 1, "a refused creation ran hooks more than once", **det)
            if r["out"] == "ActorAlreadyExist":
                ctx.check(c("post") == 0, "a refused creation ran __post_create__", **det)
            if fail in ("init", "bad_args"):
                ctx.check(c("post") == 0 and c("pre") == 0, "__post_create__ of an actor that was never constructed", **det)
            if fail == "cancel" and r["d1"] > 0.1:
                ctx.check(c("posted") == 0, "__post_create__ was not cancelled", **det)
                if c("post"):
                    ctx.check(c("post_cancelled") == 1, "__post_create__ did not get the cancellation", **det)
                    ctx.count("post_create_cancelled")
        ctx.count("creations_judged")
    ctx.check(set(by) <= set(creates), "events of a creation nobody asked for")


async def run(ctx):
    rng = ctx.rng
    async with pools.pool(n_process=2) as pool:
        addrs = pools.addresses(pool)
        drivers = [await xo.create_actor(actors.HookDriver, address=a, uid="hd") for a in addrs]
        ctr, gid = [0], 0
        while gid < ctx.n(60, 400) or ctx.left(15, 200):
            ctx.phase(f"groups {gid}")
            mon.clear()
            ids = range(gid, gid + rng.randint(3, 8))
            gid += len(ids)
            res = await asyncio.gather(*[group(ctx, rng, i, addrs, drivers, ctr) for i in ids], return_exceptions=True)
            for r in res:
                if isinstance(r, BaseException):
                    raise r
            await asyncio.sleep(0.05)
            judge(ctx, [o for r in res for o in r], mon.read())
