"""C04: an exception raised by an actor reaches the caller as that exception."""
import asyncio
import re
import traceback

import xoscar as xo

from .. import actors, pools

ID = "C04"
LEVEL = "exploration"
RULE = ("(exception kind: builtin, custom, attribute-carrying, C-level fields, groups, notes, huge, unpicklable ...) x (raised from sync, async, generator, yielded, "
        "returned, tuple, extensible) x (route of 0..3 hops over pools) x (stateful/stateless), in random concurrent order; the handler's view (type, "
        "args, fields, text, origin address/pid once, raising function in the traceback) is compared with the exception built locally; distinct = (kind, "
        "place, route shape); non-trivial = an exception actually crossed to the caller")

PLACES = ["t_sync", "t_async", "t_gen", "t_yielded", "t_ret", "t_tuple", "t_ext"]


def locally(kind, tok):
    return actors.make_exc(kind, tok)


async def one(ctx, refs, kind, place, route, tok, bad):
    """route: list of indexes into refs; the last one raises."""
    first = refs[route[0]]
    last = refs[route[-1]]
    want = locally(kind, tok)
    info = dict(kind=kind, place=place, route=[refs[i].address for i in route])
    try:
        if len(route) == 1:
            await getattr(first, place)(kind, tok)
        else:
            await first.t_hop(kind, tok, [(refs[i].address, refs[i].uid) for i in route[1:]], place)
    except asyncio.CancelledError:
        raise
    except BaseException as e:
        if kind in actors.ODD_KINDS:
            ctx.case((kind, place, len(route)))
            return
        typ = type(want) if kind != "Local" else LookupError
        if not isinstance(e, typ) or type(e).__name__ != type(want).__name__:
            bad.append(("wrong exception type", [c.__name__ for c in type(e).__mro__], str(e)[:300], info))
            return
        try:
            got, exp = actors.describe_exc(e, kind), actors.describe_exc(want, kind)
        except Exception as x:
            bad.append(("the exception's attributes are unusable", f"{type(x).__name__}: {x}", info))
            return
        if got != exp:
            bad.append(("args or attributes differ", repr(got)[:500], repr(exp)[:500], info))
            return
        s = str(e)
        if str(want) not in s:
            bad.append(("message lost", s[:300], str(want)[:300], info))
            return
        tags = re.findall(r"\[address=([^,\]]*), pid=(\d+)\]", s)
        wa, wp = tok_where[route[-1]]
        if len(tags) != 1 or tags[0] != (wa, str(wp)):
            bad.append(("origin of the error is not named exactly once", s[:300], (wa, wp), info))
            return
        names = [fr.name for fr in traceback.extract_tb(e.__traceback__)]
        if "_raise_here" not in names:
            bad.append(("traceback does not show where it was raised", names, info))
            return
        ctx.case((kind, place, len(route), tuple(refs[i].address == refs[j].address for i, j in zip(route, route[1:]))),
                 sample=dict(info, text=s[:160]))
        ctx.count("exceptions_delivered")
    else:
        bad.append(("exception did not arrive", info))


tok_where = {}


async def run(ctx):
    rng = ctx.rng
    async with pools.pool(n_process=2) as pool:
        refs = []
        addrs = pools.addresses(pool)
        # stateless actors take part in multi-hop routes (no self-deadlock on revisits)
        for i, a in enumerate(addrs + addrs):
            refs.append(await xo.create_actor(actors.Throw if i < len(addrs) else actors.FreeThrow, address=a, uid=f"th{i}"))
        for i, r in enumerate(refs):
            tok_where[i] = tuple(await r.where())
        n = len(addrs)
        free = list(range(n, 2 * n))
        cases = [(k, p) for k in actors.EXC_KINDS + actors.ODD_KINDS for p in PLACES]
        # an async generator cannot deliver these: Python itself turns them into RuntimeError
        cases = [(k, p) for k, p in cases if not (k in ("StopAsyncIteration", "StopIteration") and p in ("t_gen", "t_yielded"))]
        # in an extensible method NotImplementedError means "there is no single version"
        cases = [c for c in cases if c != ("NotImplementedError", "t_ext")]
        rng.shuffle(cases)
        k = 0
        tick = 0
        runs_want = {i: 0 for i in range(2 * n)}
        while k < len(cases) * ctx.n(2, 10) or ctx.left(15, 180):
            ctx.phase(f"batch {k}")
            bad, jobs = [], []
            for _ in range(rng.randint(1, 24)):
                kind, place = cases[k % len(cases)]
                k += 1
                h = 1 if kind == "ReduceErr" else rng.choice([1, 1, 2, 3])
                route = [rng.choice(free) for _ in range(h - 1)] + [rng.randrange(2 * n)]
                runs_want[route[-1]] += 1
                jobs.append(one(ctx, refs, kind, place, route, f"tok{k}", bad))
            await ctx.within(asyncio.gather(*jobs), 90, "a failing call")
            if bad:
                ctx.violation("an exception did not reach the caller as itself: " + bad[0][0], bad=bad[:4])
            # catching by type inside a pool, remote or local
            kind, place = rng.choice(cases)
            if kind not in actors.ODD_KINDS:
                src, dst = rng.choice(free), rng.randrange(n)
                tick += 1
                runs_want[dst] += 1
                got = await ctx.within(refs[src].t_catch(kind, f"c{tick}", (refs[dst].address, refs[dst].uid), place), 60, "t_catch")
                exp = actors.describe_exc(locally(kind, f"c{tick}"), kind)
                ctx.check(got == exp, "an exception caught inside a pool differs", got=got, expected=exp, kind=kind, place=place,
                          same_pool=refs[src].address == refs[dst].address)
                ctx.count("caught_in_pool")
            # the actors (and their locks) survive
            i = rng.randrange(2 * n)
            r = await ctx.within(refs[i].ok(k), 60, "a call after exceptions")
            ctx.check(r == actors.f(k), "an actor is broken after it raised", got=r)
        for i, r in enumerate(refs):
            got = await r.n_runs()
            ctx.check(got == runs_want[i], "a failing method ran a wrong number of times", got=got, want=runs_want[i])
        try:
            await refs[n + 1].t_hop("ReduceErr", "probe", [(refs[2].address, refs[2].uid)], "t_sync")
            bad = True
        except actors.ReduceErr as e:
            bad = "[address=" not in str(e)
        ctx.known_finding("reduce-hop-origin", bad, "an exception with its own __reduce__ loses its origin on the second hop")
        try:
            await refs[1].t_sync("UnicodeDecodeError", "probe")
            bad = True
        except UnicodeDecodeError as e:
            bad = str(actors.make_exc("UnicodeDecodeError", "probe")) not in str(e)
        ctx.known_finding("unicode-error-text", bad, "a remote UnicodeDecodeError arrives without its object and text")
