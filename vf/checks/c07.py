"""C07: the registry of actors is linearizable (creates, destroys, lookups, calls)."""
import asyncio

import xoscar as xo

from .. import pools
from ..regops import Reg, RegDriver, do_op, linearizable, run_prog

ID = "C07"
LEVEL = "exploration"
RULE = ("a case is the history of one uid: concurrent creates, destroys, has_actor, actor_ref and calls issued by clients and by drivers inside pools, "
        "timed at the caller and searched for a linearization; key = order of (operation, view, outcome) responses; non-trivial = at least two "
        "successful creates or destroys with another operation overlapping them")

ALLOWED = {"create": {"ok", "AlreadyExist", "NotExist"}, "destroy": {"ok", "NotExist"}, "has": {True, False}, "ref": {True, "NotExist"}}


def program(rng, uid, view, main, home, n, ctr):
    ops = []
    for _ in range(n):
        k = rng.choice(["create", "create", "destroy", "destroy", "has", "call", "ref"])
        if view == "sub" and k == "ref":
            k = "call"
        if view in ("main", "local") and k == "call":
            k = "ref"
        op = dict(kind=k, uid=uid, home=home, via=home if view == "sub" else main)
        if k == "create":
            ctr[0] += 1
            op["token"] = f"{uid}#{ctr[0]}"
            op["d1"] = rng.choice([0, 0, 0, 0.001, 0.01])
            op["d2"] = rng.choice([0, 0, 0, 0.001, 0.01])
        if k == "call":
            op["d"] = rng.choice([0, 0, 0.002])
            op["resolve"] = False
        if rng.random() < 0.5:
            op["gap"] = rng.choice([0, 0.0005, 0.003, 0.01])
        ops.append(op)
    return ops


async def run(ctx):
    rng = ctx.rng
    async with pools.pool(n_process=2) as pool:
        main, s1, s2 = pools.addresses(pool)
        drivers = [await xo.create_actor(RegDriver, address=a, uid="regdrv") for a in (main, s1, s2)]
        rnd = 0
        ctr = [0]
        while rnd < ctx.n(8, 40) or ctx.left(15, 240):
            rnd += 1
            ctx.phase(f"round {rnd}")
            jobs, meta = [], {}
            per_driver = {0: [], 1: [], 2: []}
            for u in range(rng.randint(2, 5)):
                view = rng.choice(["main", "main", "sub", "sub", "local"])
                home = main if view == "local" else rng.choice([s1, s2])
                uid = f"u{rnd}-{u}"
                meta[uid] = (view, home)
                style = rng.choice(["clients", "mixed", "storm"])
                for _ in range(rng.randint(2, 5)):
                    prog = program(rng, uid, view, main, home, rng.randint(2, 8), ctr)
                    if style == "storm":  # everybody creates and destroys at once
                        for op in prog:
                            op.pop("gap", None)
                            op["d2"] = op.get("d2", 0) and 0.001
                    if style == "clients" or rng.random() < 0.5:
                        jobs.append(run_prog(prog))
                    else:
                        per_driver[rng.randrange(3)].append(prog)
            for i, ps in per_driver.items():
                if ps:
                    jobs.append(drivers[i].run(ps))
            res = await ctx.within(asyncio.gather(*jobs), 120, "registry operations")
            recs = []
            for r in res:
                for x in r:
                    recs.extend(x if isinstance(x, list) else [x])
            await quiesce(ctx, recs, meta, main)
        ctx.assumptions.append("timestamps of all processes come from one CLOCK_MONOTONIC")
        await recreated_mid_destroy(ctx, main, s1)


async def quiesce(ctx, recs, meta, main):
    for uid, (view, home) in meta.items():
        hist = sorted((r for r in recs if r["uid"] == uid), key=lambda r: r["t1"])
        for r in hist:
            if r["kind"] == "create" and r["out"] == "NotExist":  # only if somebody destroyed it meanwhile
                ctx.check(r["d1"] and any(x["kind"] == "destroy" and x["out"] == "ok" and x["t0"] < r["t1"] and x["t1"] > r["t0"] for x in hist),
                          "create failed as destroyed, but nobody destroyed it", record=r, history=hist[-12:])
            ok = r["out"] in ALLOWED[r["kind"]] if r["kind"] != "call" else (r["out"] == "NotExist" or isinstance(r["out"], (list, tuple)))
            if not ok:
                ctx.violation(f"{r['kind']} answered {r['out']}", record=r, history=hist[-12:])
        # all is quiet: every view must agree and fit the history
        tail = []
        for k, via in (("has", main), ("has", home), ("call", home), ("ref", main)):
            tail.append(await ctx.within(do_op(dict(kind=k, uid=uid, via=via, home=home)), 60, "lookup at rest"))
        full = hist + tail
        ok, finals, states, bound = linearizable(full)
        muts = [r for r in hist if r["out"] == "ok"]
        overl = sum(1 for m in muts for r in hist if r is not m and m["t0"] < r["t1"] and r["t0"] < m["t1"])
        ctx.count("operations", len(hist))
        ctx.count("overlaps_with_mutation", overl)
        ctx.count("search_states", states)
        if ok is None:
            ctx.count("search_gave_up")
        elif not ok:
            ctx.violation("history of the registry is not linearizable", uid=uid, view=view, home=home,
                          history=[{k: v for k, v in r.items() if k in ("kind", "via", "out", "t0", "t1", "token", "d1", "d2")} for r in full])
        ctx.case((view, [(r["kind"], str(r["out"])[:8] if not isinstance(r["out"], list) else "tok") for r in hist]), nontrivial=len(muts) >= 2 and overl > 0,
                 sample=dict(view=view, ops=len(hist), successful=len(muts), overlaps=overl, final=str(finals)))
        # and it can be taken down and set up again, in both ways
        if tail[0]["out"] is True:
            d = await ctx.within(do_op(dict(kind="destroy", uid=uid, via=main, home=home)), 60, "final destroy")
            ctx.check(d["out"] == "ok", "final destroy of an existing actor refused", got=d)
        for k, via in (("has", main), ("has", home)):
            r = await do_op(dict(kind=k, uid=uid, via=via, home=home))
            ctx.check(r["out"] is False, "exists after its destroy", got=r, view=view)
        for via in (main, home):
            seq = [dict(kind="create", uid=uid, via=via, home=home, token="again"), dict(kind="call", uid=uid, via=home, home=home),
                   dict(kind="has", uid=uid, via=main, home=home), dict(kind="destroy", uid=uid, via=home, home=home), dict(kind="has", uid=uid, via=main, home=home)]
            out = [r["out"] for r in await ctx.within(run_prog(seq), 60, "re-creation")]
            ctx.check(out == ["ok", ["tok", "again"], True, "ok", False], "uid not reusable after its history", uid=uid, via=via, got=str(out), view=view)


async def recreated_mid_destroy(ctx, main, home):
    """An actor created again as soon as its sub pool has forgotten the old one stays."""
    ctx.phase("re-create during destroy")
    for i in range(ctx.n(60, 300)):
        uid = f"rc{i}"
        await do_op(dict(kind="create", uid=uid, via=home, home=home, token="a"))
        d = asyncio.ensure_future(do_op(dict(kind="destroy", uid=uid, via=home, home=home)))
        recs = []
        for _ in range(200):
            r = await do_op(dict(kind="create", uid=uid, via=home, home=home, token="b"))
            if r["out"] == "ok":
                break
        recs.append(await ctx.within(d, 60, "destroy"))
        await asyncio.sleep(0.002)
        h = [await do_op(dict(kind="call", uid=uid, via=home, home=home)), await do_op(dict(kind="has", uid=uid, via=main, home=home))]
        ctx.check(r["out"] == "ok", "cannot create again", got=r)
        ctx.check(h[0]["out"] == ["tok", "b"] and h[1]["out"] is True, "an actor vanished although its creation succeeded and nobody destroyed it",
                  create=r, destroy=recs[0], call=h[0], has=h[1])
        ctx.case(("recreate", d.result()["t1"] > r["t1"]), nontrivial=d.result()["t1"] > r["t1"])
        await do_op(dict(kind="destroy", uid=uid, via=home, home=home))
