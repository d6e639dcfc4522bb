"""C30: debug options report call cycles, stuck and failed calls - those and no others - and change nothing else."""
import asyncio
import collections
import json
import logging
import os
import random

import xoscar as xo
from xoscar import debug
from xoscar.debug import no_message_trace

from .. import pools

ID = "C30"
LEVEL = "exploration"
RULE = ("random trees of calls, tells, batches, yields, simultaneous and untraced calls among actors of several processes with debug options on; the warnings of all processes against the cycles of the tree, results against the tree's; "
        "calls that last or hold locks longer than their option, and errors, with the options on and off; distinct = shape of the tree with its targets; nontrivial = it has a cycle or an untraced part")
WAIT = 60


class Catch(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.records = []

    def emit(self, rec):
        self.records.append((rec.levelname, rec.getMessage(), rec.exc_info and rec.exc_info[0].__name__))


CATCH = None


def install():
    global CATCH
    if CATCH is None:
        CATCH = Catch()
        lg = logging.getLogger("xoscar.debug")
        lg.addHandler(CATCH)
        lg.propagate = False


class Watch(xo.StatelessActor):
    """One in every process: its log, its options."""

    def __init__(self):
        super().__init__()
        install()

    def logs(self):
        out = CATCH.records
        CATCH.records = []
        return out

    def peek(self):
        return list(CATCH.records)

    def options(self, opts):
        xo.set_debug_options(opts)
        return xo.get_debug_options() == opts

    def current(self):
        return xo.get_debug_options()


class Expected(Exception):
    pass


async def failing():
    await asyncio.sleep(0)
    raise Expected


async def steps(self, plan):
    total = 1
    for mode, subs in plan:
        if mode == "call":
            for t, sub in subs:
                total += await (await self.peer(t)).visit(sub)
        elif mode == "gather":
            refs = [await self.peer(t) for t, _ in subs]
            total += sum(await asyncio.gather(*(r.visit(sub) for r, (_, sub) in zip(refs, subs))))
        elif mode == "tell":
            for t, sub in subs:
                await (await self.peer(t)).visit.tell(sub)
        elif mode == "quiet":
            with no_message_trace():
                for t, sub in subs:
                    total += await (await self.peer(t)).visit(sub)
        elif mode == "quiet fails":
            try:
                with no_message_trace():
                    for t, sub in subs:
                        total += await (await self.peer(t)).visit(sub)
                    raise Expected
            except Expected:
                pass
    return total


class Node(xo.StatelessActor):
    def __init__(self, uids):
        super().__init__()
        self.uids = uids  # index -> (address, uid)
        self.done = 0
        self.held = None

    async def peer(self, i):
        return await xo.actor_ref(*self.uids[i])

    async def visit(self, plan):
        try:
            return await steps(self, plan)
        finally:
            self.done += 1

    async def yields(self, plan):
        """The same, handing calls back to be done outside."""
        total = 1
        for mode, subs in plan:
            if mode in ("call", "tell"):  # between the yields as in any method
                total += (await steps(self, [(mode, subs)])) - 1
            elif mode == "gather":
                refs = [await self.peer(t) for t, _ in subs]
                total += sum((yield tuple(r.visit(sub) for r, (_, sub) in zip(refs, subs))))
            elif mode == "quiet":
                for t, sub in subs:
                    r = await self.peer(t)
                    total += yield r.visit(sub)
            else:  # what was yielded fails
                try:
                    yield failing()
                except Expected:
                    total += (await steps(self, [("call", subs)])) - 1
        self.done += 1
        raise xo.Return(total)

    def finished(self):
        return self.done

    async def wait(self, name):
        self.held = asyncio.Event()
        await self.held.wait()
        return name

    def let_go(self):
        self.held.set()

    def is_held(self):
        return self.held is not None and not self.held.is_set()

    def fail(self, what):
        raise Expected(what)

    def quick(self, x):
        return x


class Locked(xo.Actor):
    def __init__(self):
        super().__init__()
        self.held = None

    async def wait(self, name):
        self.held = asyncio.Event()
        await self.held.wait()
        return name

    @xo.no_lock
    async def let_go(self):
        self.held.set()

    @xo.no_lock
    async def is_held(self):
        return self.held is not None and not self.held.is_set()


def tree(r, n, depth, budget):
    plan = []
    for _ in range(r.randint(0, 3)):
        if budget[0] <= 0 or depth == 0:
            break
        mode = r.choice(["call"] * 5 + ["gather", "gather", "tell", "quiet", "quiet fails"])
        subs = []
        for _ in range(r.randint(2, 3) if mode == "gather" else 1):
            budget[0] -= 1
            subs.append((r.randrange(n), tree(r, n, depth - 1, budget)))
        plan.append((mode, subs))
    return plan


def judge_tree(me, plan, trace, must):
    """-> number of visits, result; cycles to be warned of as tuples of actors."""
    visits = 1
    value = 1
    for mode, subs in plan:
        for t, sub in subs:
            if mode in ("call", "gather"):
                if t in trace:
                    must[tuple(trace) + (t,)] += 1
                v, x = judge_tree(t, sub, trace + [t], must)
                value += x
            elif mode == "tell":
                v, _ = judge_tree(t, sub, [t], must)
            else:
                v, x = judge_tree(t, sub, [t], must)
                value += x
            visits += v
    return visits, value


def modes(plan):
    for mode, subs in plan:
        yield mode
        for _, s in subs:
            yield from modes(s)


async def gather_logs(watches):
    out = []
    for w in watches:
        out += await w.logs()
    return out


async def one_tree(ctx, k, nodes, watches, uids):
    r = random.Random(f"{ctx.seed}/{k}")
    n = r.randint(1, len(nodes))
    plan = tree(r, n, r.randint(1, 6), [r.randint(2, 25)])
    root = r.randrange(n)
    yielding = r.random() < 0.3
    must = collections.Counter()
    if yielding:  # what a yielding method hands back is called for nobody
        visits, value = 1, 1
        for mode, subs in plan:
            mode = {"gather": "quiet", "quiet fails": "call"}.get(mode, mode)
            v, x = judge_tree(root, [(mode, subs)], [root], must)
            visits += v - 1
            value += x - 1
    else:
        visits, value = judge_tree(root, plan, [root], must)
    before = sum([await x.finished() for x in nodes])
    await gather_logs(watches)
    got = await ctx.within((nodes[root].yields if yielding else nodes[root].visit)(plan), WAIT, "a tree of calls in debug mode")
    ctx.check(got == value, "calls in debug mode give another result", got=got, expected=value, plan=plan)
    for _ in range(3000):
        now = sum([await x.finished() for x in nodes]) - before
        if now >= visits:
            break
        await asyncio.sleep(0.01)
    ctx.check(now == visits, "calls in debug mode were not all made, or more than that", made=now, expected=visits, plan=plan)
    logs = await gather_logs(watches)
    seen = collections.Counter()
    for level, msg, exc in logs:
        ctx.check("cycle" in msg.lower(), "debug mode logged something there was no reason for", message=msg[:300])
        # the actors named, in order: sent to, then the trace
        found = []
        body = msg.split("\n", 1)[1] if "\n" in msg else msg
        for line in body.split("\n"):
            hit = [i for i, (a, u) in enumerate(uids) if u in line and a in line]
            ctx.check(len(hit) == 1, "a warning of a cycle does not say whose", message=msg)
            found += hit
        head = msg.split("\n", 1)[0]
        ctx.check(uids[found[-1]][1] in head and uids[found[-1]][0] in head, "a warning of a cycle names another actor than its trace ends with", message=msg)
        seen[tuple(found)] += 1
    detail = dict(plan=plan, root=root, yielding=yielding)
    for c, m in must.items():
        ctx.check(seen[c] >= m, "a cycle of calls was not reported", cycle=c, times=seen[c], expected=m, seen=list(seen.items())[:10], **detail)
    for c, m in seen.items():
        ctx.check(m <= must[c], "a cycle was reported that is none", cycle=c, times=m, expected=must[c], **detail)
    ctx.count("calls_made", visits)
    ctx.count("cycles_reported", sum(seen.values()))
    nontrivial = bool(must) or any(m in ("tell", "quiet", "quiet fails") for m in modes(plan)) or yielding
    ctx.case((root, repr(plan), yielding), nontrivial=nontrivial, sample=f"{root} {plan} -> {dict(seen)}")


async def reports(ctx, pl, nodes, locked, watches, rng):
    """What each option is for."""
    Opt = xo.DebugOptions
    for case in rng.sample(["call", "process", "lock", "error on", "error off", "off", "cycle off", "quick"], 8):
        big = dict(actor_call_timeout=1000, process_message_timeout=1000, actor_lock_timeout=1000)
        if case == "call":
            opts = Opt(**{**big, "actor_call_timeout": 0.2})
        elif case == "process":
            opts = Opt(**{**big, "process_message_timeout": 0.2})
        elif case == "lock":
            opts = Opt(**{**big, "actor_lock_timeout": 0.2})
        elif case == "error off":
            opts = Opt(**big, log_unhandled_errors=False)
        elif case == "cycle off":
            opts = Opt(**big, log_cycle_send=False)
        elif case == "off":
            opts = None
        else:
            opts = Opt(**big)
        for w in watches:
            ctx.check(await w.options(opts), "debug options cannot be set", opts=opts)
        await gather_logs(watches)
        if case in ("call", "process", "lock"):
            ref = rng.choice(locked if case == "lock" else nodes)
            t = asyncio.ensure_future(ref.wait("w"))
            for _ in range(1000):
                if await ref.is_held():
                    break
                await asyncio.sleep(0.01)
            for _ in range(1500):
                found = [m for w in watches for m in await w.peek()]
                if found:
                    break
                await asyncio.sleep(0.01)
            ctx.check(found, "a call that lasts longer than its option was not reported", option=case)
            for level, m, _ in found:
                if case == "process":
                    ctx.check("wait" in m, "the report is of another message", message=m[:300])
                else:
                    ctx.check("wait" in m and ref.uid.decode() in m, "the report is of another call", message=m[:300])
            if rng.random() < 0.5:
                t.cancel()
                try:
                    await ctx.within(t, WAIT, "a reported call that was cancelled")
                    ctx.violation("a reported call that was cancelled gives something")
                except asyncio.CancelledError:
                    pass
                await ref.let_go()
                ctx.count("cancelled_reported")
            else:
                await ref.let_go()
                ctx.check(await ctx.within(t, WAIT, "a reported call") == "w", "a reported call gives something else")
            await asyncio.sleep(0.1)
            await gather_logs(watches)
            # once over it is not reported any more
            await asyncio.sleep(0.7)
            left = [m for m in await gather_logs(watches) if "wait" in m[1]]
            ctx.check(not left, "a call that is over is still reported as lasting", messages=left[:3])
        elif case in ("error on", "error off", "off"):
            ref = rng.choice(nodes)
            try:
                await ref.fail(f"because {case}")
            except Expected as e:
                ctx.check(f"because {case}" in str(e), "an error in debug mode is another")
            logs = await gather_logs(watches)
            mine = [m for m in logs if m[2] == "Expected"]
            if case == "error on":
                ctx.check(len(mine) == 1 and ref.uid.decode() in mine[0][1], "an error was not reported once", logs=logs)
            else:
                ctx.check(not logs, "an error was reported though that is off", logs=logs)
        elif case == "cycle off":
            await ctx.within(nodes[0].visit([("call", [(0, [("call", [(0, [])])])])]), WAIT, "cycles with reports off")
            logs = await gather_logs(watches)
            ctx.check(not logs, "cycles were reported though that is off", logs=logs)
        else:
            await asyncio.gather(*(rng.choice(nodes).quick(i) for i in range(50)))
            logs = await gather_logs(watches)
            ctx.check(not logs, "calls with nothing the matter were reported", logs=logs)
        ctx.case(("report", case))
        ctx.count("option_cases")


async def run(ctx):
    rng = ctx.rng
    install()
    full = dict(actor_call_timeout=1000, process_message_timeout=1000, actor_lock_timeout=1000)
    xo.set_debug_options(xo.DebugOptions(**full))
    n_process = 2
    async with pools.pool(n_process, envs=[{"DEBUG_OSCAR": json.dumps(full)}] * n_process) as pl:
        addresses = pools.addresses(pl)
        watches = [await xo.create_actor(Watch, address=a, uid=f"watch{i}") for i, a in enumerate(addresses)]
        for w in watches:
            ctx.check(await w.current() == xo.DebugOptions(**full), "options of the environment are not used", got=await w.current())
        N = 5
        uids = [(addresses[i % len(addresses)], f"node{i // len(addresses)}x") for i in range(N)]  # one name at several addresses
        nodes = [await xo.create_actor(Node, uids, address=a, uid=u) for a, u in uids]
        locked = [await xo.create_actor(Locked, address=a, uid=f"locked{i}") for i, a in enumerate(addresses)]
        k = 0
        while True:
            for _ in range(ctx.n(60, 300)):
                k += 1
                ctx.phase(f"tree {k}")
                await one_tree(ctx, k, nodes, watches, uids)
                if not ctx.left(12, 200):
                    break
            ctx.phase("reports")
            await reports(ctx, pl, nodes, locked, watches, rng)
            for w in watches:
                await w.options(xo.DebugOptions(**full))
            if not ctx.left(9, 200):
                break
        xo.set_debug_options(None)
        ctx.check(debug.get_debug_options() is None, "debug options cannot be taken back")
