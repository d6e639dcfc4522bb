"""C31: profiling says what was done, and changes nothing."""
import asyncio
import collections
import json
import logging
import os
import random
from unittest import mock

import numpy as np

import xoscar as xo
from xoscar.backends.message import CreateActorMessage, SendMessage, TellMessage
from xoscar.core import ActorRef
from xoscar.profiling import DummyOperator, ProfilingData, _ProfilingData, _ProfilingOptions

from .. import pools

ID = "C31"
LEVEL = "exploration"
RULE = ("random histories of several profiled tasks at once - begun, filled, nested, fed with calls of any uid, arguments and duration, ended - against a model; options from arguments and environment; the periodic report; "
        "calls of real actors with profiling on, counted; distinct = (tasks, calls, threshold) of a history; nontrivial = more than ten different calls or slow calls")
WAIT = 60


class Odd:
    """Cannot be compared with anything."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        raise ValueError("no truth")

    __lt__ = __gt__ = __eq__
    __hash__ = None

    def __repr__(self):
        return f"Odd({self.n})"


class Model:
    def __init__(self, threshold):
        self.data = {"general": {}, "serialization": {}, "most_calls": {}, "slow_calls": {}}
        self.threshold = threshold
        self.calls = collections.Counter()
        self.slow = []


def uid_of(r):
    k = r.random()
    if k < 0.4:
        return r.choice([b"a", b"b", b"actor", "ü".encode()]) + str(r.randrange(20)).encode()
    if k < 0.7:
        return bytes(r.randrange(256) for _ in range(32))
    return b"one"


def arg(r):
    return r.choice([lambda: r.randrange(5), lambda: "s", lambda: np.zeros(r.randint(1, 3)), lambda: Odd(r.randrange(3)), lambda: None, lambda: {"k": [1]}, lambda: b"\xff"])()


def readable(uid):
    return uid.decode("utf-8", errors="backslashreplace")


def judge(ctx, got, m, log):
    detail = dict(calls=len(m.calls), slow=len(m.slow), log=log[-5:])
    ctx.check(set(got) == {"general", "serialization", "most_calls", "slow_calls"}, "a profile has other parts", got=list(got))
    for k in ("general", "serialization"):
        ctx.check(got[k] == m.data[k], "profiling data differ from what was recorded", part=k, got=got[k], expected=m.data[k], **detail)
    most = got["most_calls"]
    want = collections.Counter()
    for (uid, name), n in m.calls.items():
        want[f"{readable(uid)}.{name}"] += n
    ctx.check(len(most) == min(10, len(m.calls)), "most_calls has another number of entries", got=most, **detail)
    for k, n in most.items():
        ctx.check(want[k] == n, "calls were counted wrongly", call=k, got=n, expected=want[k], **detail)
    counts = list(most.values())
    ctx.check(counts == sorted(want.values(), reverse=True)[:10], "most_calls are not those called most, in order", got=most, expected=want.most_common(10), **detail)
    slow = got["slow_calls"]
    top = sorted(m.slow, key=lambda x: -x[0])[:10]
    # of those equally slow at the end of the list any may be in it
    last = top[-1][0] if top else 0
    sure, open_ = collections.defaultdict(list), set()
    for d, key in sorted(m.slow, key=lambda x: -x[0]):
        if d > last:
            sure[key].append(d)
        elif d == last:
            open_.add(key)
    for key, ds in sure.items():
        ctx.check(slow.get(key) == max(ds), "a slow call is not reported, or with another duration", call=key, got=slow.get(key), expected=max(ds), all=list(slow.values()), **detail)
    for key, d in slow.items():
        ctx.check(key in sure or (d == last and key in open_), "a call is reported as slow that is not one of the slowest", call=key, duration=d, slowest=[x[0] for x in top], **detail)
    ctx.check(list(slow.values()) == sorted(slow.values(), reverse=True), "slow calls are not in order", got=slow, **detail)
    if top:
        ctx.check(len(slow) >= (1 if not sure else len(sure) + (1 if any(k not in sure for k in open_) and len(open_) else 0) if len(set(k for _, k in m.slow)) == len(m.slow) else len(sure)),
                  "slow calls are missing", got=slow, expected=top, **detail)
    else:
        ctx.check(not slow, "calls are reported as slow that are not", got=slow, **detail)


async def history(ctx, i):
    r = random.Random(f"{ctx.seed}/{i}")
    pd = _ProfilingData()
    tasks = {}
    log = []
    n_calls = r.choice([5, 40, 300])
    names = [f"m{j}" for j in range(r.choice([1, 4, 15]))]
    dups = r.random() < 0.3
    max_slow = 0
    for step in range(n_calls):
        op = r.random()
        if op < 0.05 and len(tasks) < 4:
            t = r.choice("abcdef")
            if t in tasks:
                continue
            thr = r.choice([0, 1, 1, 2, 5])
            opts = r.choice([lambda: {"slow_calls_duration_threshold": thr}, lambda: True, lambda: None, lambda: False, lambda: {}])()
            if not (isinstance(opts, dict) and opts):
                thr = 1
            pd.init(t, opts)
            tasks[t] = Model(thr)
            log.append(("init", t, thr))
        elif op < 0.08 and tasks:
            t = r.choice(sorted(tasks))
            log.append(("pop", t))
            m = tasks.pop(t)
            max_slow = max(max_slow, len(m.slow), len(m.calls))
            judge(ctx, pd.pop(t), m, log)
            ctx.check(pd.pop(t) is None, "a profile can be taken twice")
            ctx.check(pd[t] is DummyOperator and pd[t, "general"] is DummyOperator, "data of a finished profile are still there")
        elif op < 0.35:
            t = r.choice("abcdef")
            part = r.choice(["general", "serialization"])
            path = [r.choice("xyz") for _ in range(r.randrange(3))]
            k, v = r.choice("kl"), r.randint(-5, 50)
            what = r.choice(["set", "inc"])
            log.append((what, t, part, path, k, v))
            o = pd[t, part]
            d = tasks[t].data[part] if t in tasks else None
            bad = False
            for x in path:
                if d is not None:
                    if x in d and not isinstance(d[x], dict):
                        bad = True
                        break
                    d = d.setdefault(x, {})
                o = o.nest(x)
            if bad:
                try:
                    o.nest(x)
                    ctx.violation("a number was taken for nested data", log=log[-5:])
                except TypeError:
                    pass
                continue
            if path and d is not None and r.random() < 0.5:
                # the same by keys
                o = pd[(t, part, *path)] if d else o
            k = "n" + k  # apart from nested data
            getattr(o, what)(k, v)
            if d is not None:
                d[k] = v if what == "set" else d.get(k, 0) + v
                ctx.check(not o.empty() and sorted(map(repr, o.values())) == sorted(map(repr, d.values())), "profiling data read differ from what was recorded", log=log[-5:], got=list(o.values()), expected=d)
            else:
                ctx.check(o is DummyOperator and o.empty() and list(o.values()) == [], "data are kept of what is not profiled")
        else:
            uid, name = uid_of(r), r.choice(names)
            args = tuple(arg(r) for _ in range(r.randrange(3))) if dups else (step, arg(r))
            kw = {"k": arg(r)} if r.random() < 0.3 else {}
            d = r.choice([0.0, 0.5, 1, 1.0, 2, r.random() * 10, r.random() * 10, float(r.randrange(8))])
            ref = ActorRef("127.0.0.1:1", uid)
            cls = r.choice([SendMessage, SendMessage, SendMessage, TellMessage])
            if r.random() < 0.05:
                pd.collect_actor_call(CreateActorMessage(b"0" * 32, Odd, uid, args, kw, None), d)
                continue
            pd.collect_actor_call(cls(b"0" * 32, ref, (name, 0, args, kw)), d)
            for m in tasks.values():
                m.calls[uid, name] += 1
                if d >= m.threshold:
                    m.slow.append((d, f"[127.0.0.1:1]{readable(uid)}.{name}(args={args}, kwargs={kw})"))
            ctx.count("calls_collected")
    for t in sorted(tasks):
        m = tasks[t]
        max_slow = max(max_slow, len(m.slow), len(m.calls))
        judge(ctx, pd.pop(t), m, log)
    ctx.case((i, n_calls, len(names), max_slow), nontrivial=max_slow > 10, sample=f"{n_calls} steps, {len(log)} logged, up to {max_slow} calls")


def options(ctx, r):
    env = {}
    for _ in range(30):
        for name, typ, default, vals in (("debug_interval_seconds", float, None, ["2", "0.5"]), ("slow_calls_duration_threshold", int, 1, ["3", "7"])):
            given = r.choice([None, 4])
            var = r.choice([None] + vals)
            key = f"XOSCAR_PROFILING_{name.upper()}"
            with mock.patch.dict(os.environ, {key: var} if var else {}):
                if not var:
                    os.environ.pop(key, None)
                o = _ProfilingOptions({name: given} if given is not None else r.choice([{}, None, True, False]))
                want = given if given is not None else (typ(var) if var else default)
                got = getattr(o, name)
                ctx.check(got == want and (want is None or type(got) is typ), "an option of profiling has another value", option=name, given=given, env=var, got=got)
            with mock.patch.dict(os.environ, {key: "9"}):
                ctx.check(getattr(o, name) == want, "an option of profiling changed later", option=name)
    for bad in ({"nothing": 1}, 1.5, [], "yes", {"debug_interval_seconds": 1, "x": 2}):
        pd = _ProfilingData()
        try:
            pd.init("t", bad)
            ctx.violation("options of profiling were taken that are none", options=bad)
        except ValueError:
            pass
        ctx.check(pd.pop("t") is None, "a task with refused options is profiled")


async def reports(ctx, r):
    """As often as asked, until the task has ended; several tasks at once."""
    lg = logging.getLogger("xoscar.profiling")
    seen = []

    class H(logging.Handler):
        def emit(self, rec):
            seen.append((rec.levelno, rec.getMessage(), rec.exc_info))

    h = H()
    lg.addHandler(h)
    lg.propagate = False
    try:
        pd = _ProfilingData()
        pd.init("p", {"debug_interval_seconds": 0.05})
        pd.init("q", {"debug_interval_seconds": 0.1})
        pd.init("r", None)
        for t in "pqr":
            pd[t, "general"].set("task", t)
        pd.collect_actor_call(SendMessage(b"0" * 32, ActorRef("a:1", b"\xff\x00" * 16), ("m", 0, (1,), {})), 3.0)
        await asyncio.sleep(0.8)
        ended = pd.pop("p")
        judge_end = len(seen)
        await asyncio.sleep(0.5)
        pd.pop("q")
        n = len(seen)
        await asyncio.sleep(0.3)
        warned = [json.loads(m.split("\n", 1)[1]) for lv, m, _ in seen if lv == logging.WARNING]
        ctx.check(not any(e for _, _, e in seen), "reporting profiles failed", log=[m for _, m, e in seen if e][:2])
        ctx.check(not [m for lv, m, _ in seen[n:] if lv == logging.WARNING], "a profile that has ended is reported")
        per = collections.Counter(w["general"].get("task") for w in warned[2:])
        ctx.check(per["p"] >= 4 and per["q"] >= 4 and not per["r"], "profiles are not reported as often as asked", reports=per)
        after = [json.loads(m.split("\n", 1)[1])["general"].get("task") for lv, m, _ in seen[judge_end:] if lv == logging.WARNING]
        ctx.check(set(after) <= {"q"}, "a profile that has ended is reported", after=after)
        ctx.check(list(warned[-1]["slow_calls"].values()) == [3.0] and ended["slow_calls"] == warned[-1]["slow_calls"], "a report differs from the profile", report=warned[-1], profile=ended)
        pd.pop("r")
        ctx.count("reports_seen", len(warned))
        # the same names again and again
        for again in range(6):
            names = [r.choice("uv") for _ in range(r.randint(1, 4))]
            for name in names:
                pd.init(name, {"debug_interval_seconds": 0.05})
                pd[name, "general"].set("task", "old")
                if r.random() < 0.5:
                    await asyncio.sleep(r.choice([0, 0.01, 0.06]))
                pd.pop(name)
            if r.random() < 0.5:
                await asyncio.sleep(r.choice([0, 0.01]))
            every = {name: r.choice([None, 0.1]) for name in set(names)}
            for name, sec in every.items():
                pd.init(name, {"debug_interval_seconds": sec})
                pd[name, "general"].set("task", f"{name}{again}")
            n = len(seen)
            await asyncio.sleep(0.45)
            per = collections.Counter(json.loads(m.split("\n", 1)[1])["general"].get("task") for lv, m, _ in seen[n:] if lv == logging.WARNING)
            for name, sec in every.items():
                k = per.pop(f"{name}{again}", 0)
                ctx.check(0 < k <= 6 if sec else k == 0, "a profile whose name was used before is reported otherwise than asked", name=name, names=names, interval=sec, reports=k)
                pd.pop(name)
            ctx.check(not per, "profiles are reported that have ended", reports=per, names=names)
            ctx.case(("again", tuple(names), tuple(every.values())))
    finally:
        lg.removeHandler(h)
        lg.propagate = True


class Act(xo.StatelessActor):
    def one(self, x):
        return x

    async def two(self, x, k=0):
        await asyncio.sleep(0)
        return x, k

    def bad(self):
        raise KeyError("bad")

    @xo.extensible
    def ext(self, x):
        return x + 1


async def real(ctx, pl, r):
    """What a client does, counted."""
    addr = pools.addresses(pl)
    prof = {}
    old = _ProfilingData._instance
    refs = [await xo.create_actor(Act, address=r.choice(addr), **r.choice([{}, {"uid": f"named{r.randrange(10**9)}"}])) for _ in range(4)]
    open_ = {}

    async def calls(n):
        made = collections.Counter()
        for _ in range(n):
            ref = r.choice(refs)
            op = r.choice(["one", "two", "bad", "ext", "batch", "tell", "has"])
            if op == "one":
                ctx.check(await ref.one(5) == 5, "a profiled call gives something else")
            elif op == "two":
                ctx.check(await ref.two(5, k=np.arange(3).sum()) == (5, 3), "a profiled call gives something else")
            elif op == "bad":
                try:
                    await ref.bad()
                    ctx.violation("a profiled call did not raise")
                except KeyError:
                    pass
            elif op == "ext":
                ctx.check(await ref.ext(1) == 2, "a profiled call gives something else")
            elif op == "batch":
                ctx.check(await ref.ext.batch(ref.ext.delay(1), ref.ext.delay(2)) == [2, 3], "a profiled batch gives something else")
            elif op == "tell":
                await ref.one.tell(1)
            else:
                await xo.has_actor(ref)
                continue
            made[ref.uid, {"tell": "one", "batch": "ext"}.get(op, op)] += 1
            ctx.count("real_calls")
        return made

    for step in range(r.randint(3, 7)):
        if len(open_) < 3 and r.random() < 0.6:
            t = f"t{step}"
            ProfilingData.init(t, {"slow_calls_duration_threshold": 0})
            open_[t] = collections.Counter()
        rounds = await ctx.within(asyncio.gather(*(calls(r.randint(1, 12)) for _ in range(r.randint(1, 4)))), WAIT, "profiled calls")
        for m in rounds:
            for c in open_.values():
                c.update(m)
        if open_ and r.random() < 0.5:
            t = r.choice(sorted(open_))
            prof[t] = (ProfilingData.pop(t), open_.pop(t))
    for t in sorted(open_):
        prof[t] = (ProfilingData.pop(t), open_[t])
    for t, (got, want) in prof.items():
        names = collections.Counter({f"{readable(u)}.{m}": n for (u, m), n in want.items()})
        ctx.check(got is not None, "a profile is missing", task=t)
        for k, n in got["most_calls"].items():
            ctx.check(names[k] == n, "real calls were counted wrongly", call=k, got=n, expected=names[k])
        ctx.check(list(got["most_calls"].values()) == sorted(names.values(), reverse=True)[:10], "most_calls are not those called most", got=got["most_calls"], expected=names)
        n = sum(want.values())
        ds = list(got["slow_calls"].values())
        ctx.check((0 < len(ds) <= 10) == bool(n) and all(d >= 0 for d in ds) and ds == sorted(ds, reverse=True), "slow calls of real calls are wrong", got=got["slow_calls"], calls=n)
        ctx.case(("real", t, n, len(names)), nontrivial=len(names) > 10, sample=f"{n} calls of {len(names)} methods")
    for x in refs:
        await xo.destroy_actor(x)
    ctx.check(_ProfilingData._instance is old, "another instance of profiling data")


async def run(ctx):
    r = ctx.rng
    ctx.phase("options")
    options(ctx, r)
    ctx.phase("reports")
    await reports(ctx, r)
    ctx.phase("histories")
    for i in range(ctx.n(150, 3000)):
        await history(ctx, i)
    ctx.phase("real calls")
    async with pools.pool(2) as pl:
        n = 0
        while n < 4 or ctx.left(6, 60):
            n += 1
            await real(ctx, pl, r)
