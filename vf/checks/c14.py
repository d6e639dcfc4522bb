"""C14: actors are created where the allocation strategy says; idle slots are never shared."""
import asyncio
import time

import xoscar as xo
from xoscar import allocate_strategy as st
from xoscar.errors import NoIdleSlot

from .. import actors, pools

ID = "C14"
LEVEL = "exploration"
RULE = ("concurrent creations with all strategies (and failing or destroyed ones between them) on pools with shared, single and missing labels, issued by clients and "
        "actors; each actor's own address compared with what its strategy allows, and intervals of life checked for two actors of one (label, mark) on a slot and "
        "for NoIdleSlot while a slot was free all along; distinct = (strategy, label, mark, outcome, slot); non-trivial = any strategy but AddressSpecified")
LABELS = ["main", "a", "a", "b", "a", None]


class Tenant(xo.Actor):
    def __init__(self, fail=False):
        super().__init__()
        if fail:
            raise actors.Boom("tenant")

    async def __post_create__(self):
        await asyncio.sleep(0)

    def where(self):
        return self.address


class Landlord(xo.StatelessActor):
    async def create(self, main, fail, uid, strategy):
        return await xo.create_actor(Tenant, fail, address=main, uid=uid, allocate_strategy=strategy)


class Book:
    """Intervals of life per (address, strategy)."""

    def __init__(self):
        self.lives = []  # [slot key, create invoked, create answered, destroy invoked, destroy answered]

    def born(self, key, t0, t1):
        e = [key, t0, t1, None, None]
        self.lives.append(e)
        return e

    def overlap(self, key, e):
        """another actor that was certainly there while e was certainly there"""
        for o in self.lives:
            if o is e or o[0] != key:
                continue
            s = max(o[2], e[2])
            en = min(o[3] or 1e18, e[3] or 1e18)
            if s < en:
                return o
        return None

    def maybe(self, key, t0, t1):
        """an actor that may have held the slot at some time in [t0, t1]"""
        return any(o[0] == key and o[1] <= t1 and (o[4] or 1e18) >= t0 for o in self.lives)


async def alone(ctx, rng):
    """A pool of the main process alone has no sub pool to allocate to."""
    labels = [rng.choice(["main", "a", None])]
    async with pools.pool(n_process=0, labels=labels) as pool:
        main = pool.external_address
        lord = await xo.create_actor(Landlord, address=main, uid="lord")
        k = 0
        for _ in range(2):
            for strategy, ok in (
                (st.MainPool(), True), (st.Random(), True), (st.RandomSubPool(), False), (st.ProcessIndex(0), True), (st.ProcessIndex(1), False),
                (st.RandomLabel(labels[0]), True), (st.RandomLabel("else"), False), (st.IdleLabel("else", "m"), False), (st.AddressSpecified(main), True),
            ):
                for via in (None, lord):
                    k += 1
                    try:
                        if via is None:
                            ref = await ctx.within(xo.create_actor(Tenant, False, address=main, uid=f"t{k}", allocate_strategy=strategy), 60, "a creation")
                        else:
                            ref = await ctx.within(via.create(main, False, f"t{k}", strategy), 60, "a creation")
                    except Exception as e:
                        ctx.check(not ok, "a creation that is possible failed", strategy=type(strategy).__name__, error=repr(e), n_process=0)
                        has = await xo.has_actor(xo.core.ActorRef(main, f"t{k}".encode()))
                        ctx.check(not has, "an actor of a refused creation is there", strategy=type(strategy).__name__)
                        ctx.count("impossible_refused")
                    else:
                        ctx.check(ok, "an actor was created although no address satisfies its strategy", strategy=type(strategy).__name__, n_process=0)
                        ctx.check(await ref.where() == main, "an actor is elsewhere")
                    ctx.case((type(strategy).__name__, ok, "alone"))


async def run(ctx):
    rng = ctx.rng
    await alone(ctx, rng)
    n = 0
    prnd = 0
    while prnd < ctx.n(2, 12) or ctx.left(10, 240):
        prnd += 1
        labels = ["main"] + [rng.choice(LABELS[1:]) for _ in range(4)] if prnd > 1 else ["main", "a", "b", "a", None]
        async with pools.pool(n_process=4, labels=labels) as pool:
            addrs = pools.addresses(pool)
            lab = {a: l for a, l in zip(addrs, labels)}
            lords = [await xo.create_actor(Landlord, address=a, uid="lord") for a in addrs]
            book = Book()
            live = []
            hits = {}

            async def create(strategy, allowed, key, fail, via, own=None):
                """allowed: addresses; key: (label, mark) for idle slots"""
                nonlocal n
                n += 1
                uid = f"x{prnd}.{n}"
                t0 = time.monotonic()
                tries = []
                try:
                    if via is None:
                        ref = await xo.create_actor(Tenant, fail, address=addrs[0], uid=uid, allocate_strategy=strategy)
                    else:
                        ref = await via.create(addrs[0], fail, uid, strategy)
                except NoIdleSlot:
                    t1 = time.monotonic()
                    ctx.check(key is not None, "NoIdleSlot from a strategy without slots", strategy=repr(strategy))
                    pend_all = [p for p in pending if p[0] == key and p is not own]
                    free = [a for a in allowed if not book.maybe((a,) + key, t0, t1)]
                    # creations in flight meanwhile may have held slots as well
                    racing = sum(1 for p in pend_all if p[1] <= t1 and (p[2] or 1e18) >= t0)
                    ctx.check(len(free) <= racing, "NoIdleSlot although a slot was free all along", label=key[0], mark=key[1], free=free, racing=racing)
                    ctx.case(("idle", key, "none"), sample=dict(strategy="IdleLabel", key=str(key), outcome="NoIdleSlot"))
                    ctx.count("no_idle_slot")
                    return None
                except actors.Boom:
                    ctx.check(fail, "creation failed though it should not")
                    ctx.count("failed_creations")
                    return None
                except Exception as e:
                    ctx.check(not allowed, "a creation that is possible failed", strategy=type(strategy).__name__, error=repr(e))
                    ctx.count("impossible_refused")
                    return None
                t1 = time.monotonic()
                ctx.check(allowed, "an actor was created although no address satisfies its strategy", strategy=type(strategy).__name__, where=ref.address)
                where = await ref.where()
                ctx.check(where == ref.address and where in allowed, "an actor was created where its strategy does not allow it", strategy=type(strategy).__name__,
                          got=where, ref=ref.address, allowed=allowed, labels=labels)
                e = book.born((where,) + key if key else None, t0, t1)
                if key:
                    o = book.overlap(e[0], e)
                    ctx.check(o is None, "two actors of one label and mark live in one idle slot", slot=str(e[0]), intervals=str([o, e]))
                live.append((ref, e))
                ctx.case((type(strategy).__name__, key, addrs.index(where)), nontrivial=type(strategy) is not st.AddressSpecified,
                         sample=dict(strategy=type(strategy).__name__, key=str(key), where=addrs.index(where)))
                ctx.count("created_" + type(strategy).__name__)
                hits.setdefault((type(strategy).__name__, getattr(strategy, "label", None)), []).append(where)
                return ref

            async def destroy(r, e):
                e[3] = time.monotonic()
                await r.destroy()
                e[4] = time.monotonic()
                ctx.count("destroyed")

            pending = []  # [key, start, end] of idle creations that did not (yet) yield an actor

            async def idle(label, mark, fail, via):
                p = [(label, mark), time.monotonic(), None]
                pending.append(p)
                r = await create(st.IdleLabel(label, mark), [a for a in addrs if label is None or lab[a] == label], (label, mark), fail, via, p)
                p[2] = time.monotonic()
                if r is not None:
                    pending.remove(p)  # its life is in the book
                return r

            for rnd in range(ctx.n(25, 40)):
                ctx.phase(f"pool {prnd} round {rnd}")
                jobs = []
                for _ in range(rng.randint(1, 8)):
                    k = rng.choice(["idle"] * 6 + ["main", "random", "sub", "index", "label", "addr"])
                    via = rng.choice([None, None, rng.choice(lords)])
                    fail = rng.random() < 0.12
                    if k == "idle":
                        jobs.append(idle(rng.choice(["a", "a", "a", "b", "main", "nolabel", None]), rng.choice(["m1", "m1", "m2", None]), fail, via))
                    elif k == "main":
                        jobs.append(create(st.MainPool(), addrs[:1], None, fail, via))
                    elif k == "random":
                        jobs.append(create(st.Random(), addrs, None, fail, via))
                    elif k == "sub":
                        jobs.append(create(st.RandomSubPool(), addrs[1:], None, fail, via))
                    elif k == "index":
                        i = rng.randrange(len(addrs) + 2)
                        jobs.append(create(st.ProcessIndex(i), addrs[i : i + 1], None, fail, via))
                    elif k == "label":
                        la = rng.choice(["a", "b", "main", "nolabel"])
                        jobs.append(create(st.RandomLabel(la), [a for a in addrs if lab[a] == la], None, fail, via))
                    else:
                        a = rng.choice(addrs)
                        jobs.append(create(st.AddressSpecified(a), [a], None, fail, via))
                for _ in range(min(len(live), rng.choice([0, 0, 1, 2, 4]))):
                    jobs.append(destroy(*live.pop(rng.randrange(len(live)))))
                rng.shuffle(jobs)
                await ctx.within(asyncio.gather(*jobs), 60, "creations with allocation strategies")
            # exactly as many as there are free slots, all at once
            for label in ("a", "b"):
                slots = [a for a in addrs if lab[a] == label]
                if not slots:
                    continue
                ctx.phase(f"pool {prnd} rush {label}")
                rs = await ctx.within(asyncio.gather(*[idle(label, "rush", False, rng.choice([None] + lords)) for _ in range(len(slots) + 2)]), 60, "a rush on idle slots")
                got = sorted(r.address for r in rs if r is not None)
                ctx.check(got == sorted(slots), "concurrent creations did not fill each idle slot once", got=got, slots=slots)
                # a slot given free is found at once, and only that one
                k = rng.choice([i for i, r in enumerate(rs) if r is not None])
                r = rs[k]
                e = [x for x in live if x[0] is r][0]
                live.remove(e)
                await destroy(*e)
                r2 = await idle(label, "rush", False, None)
                ctx.check(r2 is not None and r2.address == r.address, "a slot given free was not found", got=repr(r2), want=r.address)
                r3 = await idle(label, "rush", False, None)
                ctx.check(r3 is None, "an actor was created in an occupied slot")
                ctx.count("rushes")
            # random strategies reach every place they may
            if prnd == 1:
                ctx.phase("spread")
                for s, allowed in ((st.Random(), addrs), (st.RandomSubPool(), addrs[1:]), (st.RandomLabel("a"), [a for a in addrs if lab[a] == "a"])):
                    seen = set()
                    for _ in range(60):
                        rs = await asyncio.gather(*[create(s, allowed, None, False, None) for _ in range(5)])
                        seen |= {r.address for r in rs}
                        if seen == set(allowed):
                            break
                    ctx.check(seen == set(allowed), "a random strategy never used one of its places in 300 creations", strategy=type(s).__name__, seen=sorted(seen), allowed=allowed)
                    ctx.count("spread_checked")
