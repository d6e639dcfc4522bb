"""C32: metrics show what was recorded."""
import asyncio
import os
import random
import socket
import threading
import time
from unittest import mock

import xoscar as xo
from xoscar.metrics import Metrics, Percentile, init_metrics, shutdown_metrics
from xoscar.metrics.api import record_time_cost_percentile, PercentileArg

from .. import meters, pools

ID = "C32"
LEVEL = "exploration"
RULE = ("random histories of metrics of all types, declared before and after metrics are initialised, shut down and initialised again, recorded with and without tags under a clock of the check's, for both backends (what Prometheus exports is read from its registry); "
        "percentiles over random windows; metrics of every process of pools; against models; distinct = history or (capacity, window); all non-trivial")
WAIT = 60


class Clock:
    def __init__(self):
        self.now = 1_000_000.0

    def patch(self):
        """For this thread; others (the watchdog) go on with the real one."""
        me = threading.get_ident()

        def one(real):
            return lambda: self.now if threading.get_ident() == me else real()

        return [mock.patch(f"time.{n}", one(getattr(time, n))) for n in ("time", "monotonic", "perf_counter")] + [mock.patch("prometheus_client.start_http_server")]


class Model:
    """What a metric shows after what was recorded, by its kind."""

    def __init__(self, kind, now):
        self.kind, self.n, self.items, self.last = kind, 0, [], now
        self.shown = 0
        self.per_tags = {}

    def record(self, v, now, tags):
        if self.kind == "counter":
            self.n += v
            out = self.n
        elif self.kind == "gauge":
            out = v
        elif self.kind == "meter":
            self.n += v
            past = max(now - self.last, 1e-9)
            if self.n < 2000 and past < 1:
                return
            out, self.n, self.last = self.n / past, 0, now
        else:
            self.items.append(v)
            if len(self.items) < 2000 and now - self.last < 1:
                return
            out, self.items, self.last = sum(self.items) / len(self.items), [], now
        self.shown = out
        self.per_tags[tags] = out


def near(a, b):
    return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def history(ctx, i, backend):
    r = random.Random(f"{ctx.seed}/{backend}/{i}")
    clock = Clock()
    made = []
    up = False
    log = []
    host = socket.gethostname()
    patches = clock.patch()
    for p in patches:
        p.start()
    try:
        shutdown_metrics()
        for step in range(r.choice([15, 40])):
            clock.now += r.choice([0, 0.001, 0.3, 0.7, 1.0, 5])
            op = r.random()
            if op < 0.15:
                kind = r.choice(["counter", "gauge", "meter", "histogram"])
                keys = r.choice([None, (), ("a",), ("a", "b")])
                name = f"m{i}.{step}.{backend}"
                desc = r.choice(["", "what"])
                m = getattr(Metrics, kind)(name, desc, keys) if keys is not None or r.random() < 0.5 else getattr(Metrics, kind)(name)
                ctx.check(m.type == kind.capitalize(), "a metric of another type", got=m.type, expected=kind)
                if not up or backend == "console":
                    ctx.check(m.name == name and tuple(m.tag_keys) == tuple(keys or ()), "a metric has another name or other tags", got=(m.name, m.tag_keys), expected=(name, keys))
                # one that is declared before works when metrics are initialised
                made.append([m, name, kind, keys or (), Model(kind, clock.now) if up else None])
                log.append(("declare", kind, keys, up))
            elif op < 0.25 and not up:
                init_metrics(backend)
                up = True
                log.append(("init",))
                for x in made:
                    if x[4] is None:
                        x[4] = Model(x[2], clock.now)
            elif op < 0.27 and up:
                init_metrics(r.choice(["console", "prometheus"]))  # once is enough
                log.append(("init again",))
            elif made:
                m, name, kind, keys, model = r.choice(made)
                n = r.choice([1, 1, 1, 1, 1, 1, 2, 2, 700, 700, 2200])
                for _ in range(n):
                    tags = {k: r.choice(["x", "y", ""]) for k in keys}
                    before = dict(tags)
                    v = r.choice([1, 2, 0, -3, 0.5, 10, 1999])
                    how = r.random()
                    if keys:
                        m.record(v, tags)
                    elif how < 0.3 or v != 1:
                        m.record(v) if how < 0.6 else m.record(v, {})
                    else:
                        m.record()
                    ctx.check(tags == before, "recording a metric changed its tags", tags=tags, given=before)
                    if model is not None:
                        model.record(v, clock.now, tuple(sorted(tags.items())))
                    if n > 1 and r.random() < 0.01:
                        clock.now += 0.4
                    ctx.count("values_recorded")
                log.append(("record", kind, n))
                if model is None:
                    continue
                detail = dict(kind=kind, backend=backend, log=log[-8:])
                if backend == "console":
                    ctx.check(near(m.value, model.shown), "a metric has another value than was recorded", got=m.value, expected=model.shown, **detail)
                else:
                    got = meters.exported(name)
                    want = {tuple(sorted([*t, ("host", host), ("pid", str(os.getpid()))])): v for t, v in model.per_tags.items()}
                    ctx.check(set(got) - {()} == set(want) and all(near(got[k], want[k]) for k in want), "Prometheus shows other values than were recorded", got=got, expected=want, **detail)
    finally:
        for p in patches:
            p.stop()
        shutdown_metrics()
    ctx.case((backend, i), sample=f"{backend}: {log[:6]}")


def percentiles(ctx, r):
    for _ in range(60):
        cap, win = r.randint(1, 30), r.randint(1, 60)
        out, want, buf = [], [], []
        kind = r.choice(["own", "p90", "p95", "p99"])
        if kind == "own":
            p = Percentile(cap, win, out.append)
        else:
            win = r.choice([100, 200, 101, 150])
            share = {"p90": 0.1, "p95": 0.05, "p99": 0.01}[kind]
            cap = int(win * share)
            p = getattr(Percentile, f"build_{kind}")(out.append, win)
        pool = r.choice([lambda: r.random(), lambda: r.randint(-3, 3), lambda: r.randint(-1000, 1000)])
        for _ in range(r.randint(1, 4) * win + r.randint(0, win - 1)):
            v = pool()
            p.record_data(v)
            buf.append(v)
            if len(buf) == win:
                want.append(sorted(buf)[:cap][-1])
                buf = []
            ctx.check(out == want, "a percentile is reported wrongly, or not when its window is full", kind=kind, capacity=cap, window=win, got=out[-3:], expected=want[-3:])
        ctx.count("percentiles_judged", len(want))
        ctx.case((kind, cap, win))
    for bad in ((0, 1), (1, 0), (-1, 5), (3, -2)):
        try:
            Percentile(*bad, print)
            ctx.violation("a percentile of no window was made", args=bad)
        except ValueError:
            pass


def reports_times(ctx):
    out = []
    for _ in range(100):
        with record_time_cost_percentile([PercentileArg(Percentile.PercentileType.P90, out.append, 20)]):
            pass
    ctx.known_finding("record_time_cost_percentile", not out, "record_time_cost_percentile never reports: it begins a new window with every use")
    # what it measures goes through, errors as well
    try:
        with record_time_cost_percentile([PercentileArg(Percentile.PercentileType.P90, out.append, 20)]):
            raise KeyError("x")
        ctx.violation("measuring swallowed an error")
    except KeyError:
        pass


async def in_pools(ctx, r, backend):
    """Metrics of every process of a pool, by its configuration."""
    async with pools.pool(2, metrics={"backend": backend}) as pl:
        addrs = pools.addresses(pl)[1:]
        refs = [await xo.create_actor(meters.Meter, address=a, uid=f"meter{i}") for i, a in enumerate(addrs)]
        models = [{} for _ in refs]
        for i, ref in enumerate(refs):
            await ref.declare(f"late.{i}")
        for _ in range(r.randint(10, 40)):
            i = r.randrange(len(refs))
            which = r.choice(["counter", "gauge", "late"])
            tags = {"t": r.choice(["x", "y"])} if which != "gauge" else r.choice([None, {}])
            v = r.randint(1, 9)
            said = await refs[i].record(which, v, tags)
            ctx.check(said is None, "recording a metric changed its tags", said=said)
            m = models[i].setdefault(which, Model("gauge" if which == "gauge" else "counter", 0))
            m.record(v, 0, tuple(sorted((tags or {}).items())))
            ctx.count("values_recorded")
        for i, ref in enumerate(refs):
            for which, m in models[i].items():
                name = f"late.{i}" if which == "late" else f"early.{which}"
                if backend == "console":
                    got = await ref.value(which)
                    ctx.check(got == m.shown, "a metric of a sub process has another value than was recorded", which=which, got=got, expected=m.shown)
                else:
                    got, pid = await ref.shown(name)
                    want = {tuple(sorted([*t, ("host", socket.gethostname()), ("pid", str(pid))])): float(v) for t, v in m.per_tags.items()}
                    ctx.check(got == want, "Prometheus shows other values of a sub process than were recorded", which=which, got=got, expected=want)
        ctx.case(("pool", backend, len(models)), sample=f"{backend} in processes of a pool")
    shutdown_metrics()


async def run(ctx):
    r = ctx.rng
    try:
        init_metrics("none")
        ctx.violation("metrics were initialised for a backend there is not")
    except NotImplementedError:
        pass
    ctx.phase("percentiles")
    percentiles(ctx, r)
    reports_times(ctx)
    ctx.phase("histories")
    for i in range(ctx.n(60, 1200)):
        history(ctx, i, "console")
        history(ctx, i, "prometheus")
    for backend in ("console", "prometheus"):
        for _ in range(ctx.n(1, 6)):
            ctx.phase(f"pools {backend}")
            await in_pools(ctx, r, backend)
