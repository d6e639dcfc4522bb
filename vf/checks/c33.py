"""C33: each process of a pool is what its configuration asked for."""
import asyncio
import configparser
import logging
import os
import signal
import socket
import sys

import xoscar as xo
from xoscar.backends.allocate_strategy import MainPool, ProcessIndex, RandomLabel

from .. import confops as cf
from .. import pools
from .c17 import children, still_there

ID = "C33"
LEVEL = "exploration"
RULE = ("pools of random configurations (address forms, ports, labels, environments, modules, logging, SIGINT, internal addresses, recovery, both backends; sub pools appended with configurations of their own), in whose processes "
        "actors tell what they find, before and after deaths and recoveries; and configurations that cannot be, which must be refused with nothing left; distinct = configuration; non-trivial = at least one sub pool or a refusal")
WAIT = 60
ODD = ["", " ", "a=b", "ü€漢", "two\nlines", "'\"$HOME`ls`", "x" * 3000]
MODULE = "import os\nSEEN = (os.getpid(), os.environ.get('VF_MARK'))\n"


class Segments:
    """Shared memory this process makes."""

    def __init__(self):
        import _posixshmem

        self.names = set()
        real = _posixshmem.shm_open

        def shm_open(name, flags, *args, **kw):
            if flags & os.O_CREAT:
                self.names.add(name.lstrip("/"))
            return real(name, flags, *args, **kw)

        _posixshmem.shm_open = shm_open

    def left(self):
        return sorted(self.names & set(os.listdir("/dev/shm")))


def has_ipv6():
    try:
        s = socket.socket(socket.AF_INET6)
        s.bind(("::1", 0))
        s.close()
        return True
    except OSError:
        return False


class Maker:
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.mods = os.path.join(ctx.scratch, "mods")
        self.names = [f"vfmark_{c}" for c in "abc"]

    def modules(self):
        return self.rng.choice([None, None, self.names[:1], self.names[1:], list(self.names)])

    def env(self, k):
        rng = self.rng
        e = {"VF_MARK": f"mark{k}"}
        if rng.random() < 0.3:
            e["VF_PARENT"] = f"own{k}"
        if rng.random() < 0.5:
            e[f"VF_ONLY_{k}"] = rng.choice(ODD)
        if rng.random() < 0.2:
            e["VF_BIG"] = "y" * rng.choice([4000, 12000, 30000])
        return e

    def logging(self):
        """(logging_conf, what loggers are at in a process so configured)"""
        rng = self.rng
        lv = rng.choice(["DEBUG", "ERROR", "CRITICAL", "INFO"])
        n = getattr(logging, lv)
        kind = rng.choice([None, None, "level", "format", "dict", "file", "parser"])
        ini = f"[loggers]\nkeys=root,v\n[handlers]\nkeys=h\n[formatters]\nkeys=\n[logger_root]\nlevel=WARNING\nhandlers=h\n[logger_v]\nlevel={lv}\nqualname=vf.asked\nhandlers=\n[handler_h]\nclass=NullHandler\nargs=()\n"
        if kind is None:
            return None, {}
        if kind == "level":
            return {"level": rng.choice([lv, n])}, {"xoscar": n}
        if kind == "format":
            return {"level": lv, "format": "%(process)d %(message)s"}, {"xoscar": n}
        if kind == "dict":
            return {"dict": {"version": 1, "disable_existing_loggers": False, "loggers": {"vf.asked": {"level": lv}}}}, {"vf.asked": n}
        if kind == "file":
            path = os.path.join(self.mods, f"log{rng.random()}.ini")
            with open(path, "w") as f:
                f.write(ini)
            return {"file": path}, {"vf.asked": n}
        p = configparser.RawConfigParser()
        p.read_string(ini)
        return p, {"vf.asked": n}

    def spec(self):
        rng = self.rng
        n = rng.choice([0, 1, 1, 2, 2, 3])
        hosts = ["127.0.0.1", "localhost", "0.0.0.0"]
        host = rng.choice(hosts)
        with_port = rng.random() < 0.5
        if has_ipv6() and rng.random() < 0.2:
            host, with_port = "::1", True
        port = pools.free_port() if with_port else None
        ports = None
        if rng.random() < 0.4 and (n or not with_port):
            ports = [pools.free_port() for _ in range(n + (not with_port))]
        kw = dict(auto_recover=rng.choice([True, "actor", "process", False]))
        if rng.random() < 0.7:
            kw["labels"] = [rng.choice([None, "red", "blue", "green"]) for _ in range(n + 1)]
        if rng.random() < 0.6 and n:
            kw["envs"] = [self.env(i) if rng.random() < 0.8 else rng.choice([None, {}]) for i in range(n)]
        if rng.random() < 0.3:
            kw["enable_internal_addresses"] = [rng.random() < 0.5 for _ in range(n + 1)]
        if rng.random() < 0.3:
            kw["external_address_schemes"] = [None] * (n + 1)
        if rng.random() < 0.4:
            kw["extra_conf"] = {"vf": rng.random()}
        kw["modules"] = self.modules()
        kw["suspend_sigint"] = rng.choice([None, False, True, True])
        kw["use_uvloop"] = rng.choice(["auto", True, False])
        conf, levels = self.logging()
        kw["logging_conf"] = conf
        return dict(n=n, host=host, port=port, ports=ports, kw=kw, levels=levels)


def want_addresses(s):
    """(host, port or None) of every process"""
    ports = list(s["ports"] or [None] * (s["n"] + (s["port"] is None)))
    if s["port"] is not None:
        ports = [s["port"]] + ports
    return [(s["host"], p) for p in ports]


async def reachable(address):
    host, port = address.rsplit(":", 1)
    try:
        _, w = await asyncio.open_connection(host, int(port))
    except OSError:
        return False
    w.close()
    return True


class World:
    def __init__(self, ctx, rng, mk, pool, spec):
        self.ctx, self.rng, self.mk, self.pool, self.spec = ctx, rng, mk, pool, spec
        self.main = pool.external_address
        kw = spec["kw"]
        n = spec["n"]
        labels = kw.get("labels") or [None] * (n + 1)
        envs = kw.get("envs") or [None] * n
        self.label = {self.main: labels[0]}
        self.subs = {}
        for a, lb, e in zip(pool.sub_processes, labels[1:], envs):
            self.label[a] = lb
            self.subs[a] = dict(env=e or {}, modules=kw["modules"] or [], levels=spec["levels"], suspend=bool(kw["suspend_sigint"]), wrap=None)
        self.k = 0
        self.own_logging = False

    def w(self, aw, what, **kw):
        return self.ctx.within(aw, WAIT, what, **kw)

    async def tellers(self, a):
        self.k += 1
        return await self.w(xo.create_actor(cf.Teller, uid=f"t{self.k}", address=a), "create_actor")

    async def verify(self, when):
        ctx = self.ctx
        allenv = sorted({k for s in self.subs.values() for k in s["env"]} | {"VF_MARK", "VF_PARENT", "VF_WRAP", "VF_BIG"})
        for a, s in self.subs.items():
            t = await self.tellers(a)
            got = await self.w(t.tell(allenv, self.mk.names, sorted(s["levels"])), "a call")
            p = self.pool.sub_processes[a]
            ctx.check(t.address == a == got["address"], "an actor is at another address than that of its process", when=when, got=got["address"], want=a)
            ctx.check(got["pid"] == p.pid, "a sub pool runs in another process than the pool says", when=when, wrapped=s["wrap"])
            want = {k: s["env"].get(k, os.environ.get(k)) for k in allenv}
            want["VF_WRAP"] = s["wrap"]
            bad = {k: (got["env"][k], want[k]) for k in allenv if got["env"][k] != want[k]}
            ctx.check(not bad, "the environment of a sub pool is not the one asked for", when=when, bad={k: tuple(str(x)[:60] for x in v) for k, v in bad.items()})
            for m in s["modules"]:
                ctx.check(got["modules"][m] is not None, "a module asked for was not imported in a sub pool", when=when, module=m)
                ctx.check(tuple(got["modules"][m]) == (got["pid"], want["VF_MARK"]), "a module was imported without the environment of its process", when=when, got=got["modules"][m], want=want["VF_MARK"])
                ctx.count("modules_seen")
            ctx.check(got["levels"] == s["levels"], "logging of a sub pool is not configured as asked for", when=when, got=got["levels"], want=s["levels"])
            ctx.count("processes_told")
        for a in [self.main, *self.subs]:
            c = await self.w(xo.get_pool_config(a), "get_pool_config")
            for b in [self.main, *self.subs]:
                i = c.get_process_index(b)
                conf = c.get_pool_config(i)
                ctx.check(conf["label"] == self.label[b], "a label in the configuration is not the one asked for", when=when, at=a, of=b, got=conf["label"], want=self.label[b])
                if b in self.subs:
                    ctx.check((conf["env"] or {}) == self.subs[b]["env"], "an environment in the configuration is not the one asked for", when=when)
            ctx.check(c.get_comm_config() == (self.spec["kw"].get("extra_conf") or {}), "extra_conf is not in the configuration", when=when, got=c.get_comm_config())
            ctx.check(await self.w(reachable(a), "a connection"), "nobody listens at the address of a process", when=when, address=a)
        for label in sorted({x for x in self.label.values() if x is not None}):
            for _ in range(2):
                self.k += 1
                r = await self.w(xo.create_actor(cf.Teller, uid=f"t{self.k}", address=self.main, allocate_strategy=RandomLabel(label)), "create_actor by label")
                ctx.check(self.label.get(r.address) == label, "an actor made by label is in a process of another label", when=when, label=label, got=r.address, labels=self.label)
                ctx.count("by_label")

    async def interrupt(self):
        """SIGINT (Ctrl-C goes to all processes) is for the main process to handle, calls under way in sub pools go on."""
        ctx = self.ctx
        for a, s in list(self.subs.items()):
            t = await self.tellers(a)
            calls = [asyncio.ensure_future(t.nap(0.05 * i)) for i in range(4)]
            pid = self.pool.sub_processes[a].pid
            for _ in range(3):
                os.kill(pid, signal.SIGINT)
                await asyncio.sleep(0.02)
            for c in calls:
                ctx.check(await self.w(c, "a call during SIGINT") == "slept", "a call in a sub pool did not go on though SIGINT is for the main process")
            got = await self.w(t.tell([], [], []), "a call after SIGINT")
            ctx.check(got["pid"] == pid, "a sub pool was ended by SIGINT", suspend=s["suspend"])
            ctx.count("interrupted")

    async def die(self):
        if not self.subs:
            return
        a = self.rng.choice(sorted(a for a, s in self.subs.items() if s["wrap"]) or sorted(self.subs))
        p = self.pool.sub_processes[a]
        os.kill(p.pid, signal.SIGKILL)
        await self.w(p.wait(), "reaping")  # a death nobody has noticed yet is not waited for
        self.ctx.count("killed")
        await self.recovered(a)

    async def recovered(self, a):
        if self.spec["kw"]["auto_recover"] is False:
            s = self.subs.pop(a)
            self.label.pop(a)
            await self.w(self.pool.remove_sub_pool(a), "remove_sub_pool of a dead one", env=s["env"])
        else:
            await self.w(xo.wait_actor_pool_recovered(a, self.main), "wait_actor_pool_recovered")
            self.ctx.count("recovered")

    async def append(self):
        rng, ctx, mk = self.rng, self.ctx, self.mk
        self.k += 1
        args = dict(label=rng.choice([None, "red", "extra"]))
        s = dict(env={}, modules=[], levels=None, suspend=False, wrap=None)
        if rng.random() < 0.7:
            args["env"] = s["env"] = mk.env(100 + self.k)
        m = mk.modules()
        if m:
            args["modules"] = s["modules"] = m
        args["suspend_sigint"] = rng.choice([None, False, True])
        s["suspend"] = bool(args["suspend_sigint"])
        # that of the last one if none is given
        conf, levels = mk.logging()
        if conf is not None and not (self.own_logging and rng.random() < 0.85):
            self.own_logging = True
            args["logging_conf"] = conf
            s["levels"] = levels
        else:
            self.ctx.count("logging_of_the_last" if self.own_logging else "logging_of_the_pool")
            s["levels"] = list(self.subs.values())[-1]["levels"] if self.subs else self.spec["levels"]
        if rng.random() < 0.5:
            s["wrap"] = f"wrapped{self.k}"
            path = os.path.join(mk.mods, f"python{rng.random()}")
            with open(path, "w") as f:
                f.write(f"#!/bin/sh\nVF_WRAP={s['wrap']} exec {sys.executable} \"$@\"\n")
            os.chmod(path, 0o755)
            args["start_python"] = path
        host = self.main.rsplit(":", 1)[0]
        given = rng.random() < 0.4
        if given:
            args["external_address"] = f"{host}:{pools.free_port()}"
        a = await self.w(self.pool.append_sub_pool(**args), "append_sub_pool", args=sorted(args))
        ctx.check(not given or a == args["external_address"], "an appended sub pool has not the address given", got=a)
        ctx.check(a.rsplit(":", 1)[0] == host, "an appended sub pool is at another host", got=a, main=self.main)
        self.subs[a], self.label[a] = s, args["label"]
        ctx.count("appended")


async def one(ctx, rng, mk, k):
    s = mk.spec()
    kw = s["kw"]
    ctx.case((s["n"], s["host"], s["port"] is not None, s["ports"] is not None, str(kw.get("labels")), str(sorted(kw)), kw["auto_recover"], str(kw["modules"]), type(kw["logging_conf"]).__name__, kw["suspend_sigint"]),
             nontrivial=s["n"] > 0, sample=dict(n=s["n"], host=s["host"], kw={k: str(v)[:80] for k, v in kw.items()}))
    addr = s["host"] if s["port"] is None else f"{s['host']}:{s['port']}"
    more = dict(ports=s["ports"]) if s["ports"] else {}
    n = s["n"]
    pool = await ctx.within(pools.start(n, addr, **more, **kw), WAIT * 2, "create_actor_pool", spec={k: str(v)[:200] for k, v in s.items()})
    try:
        got = [pool.external_address, *pool.sub_processes]
        ctx.check(len(set(got)) == n + 1, "not as many addresses as processes", got=got, n=n)
        for g, (host, port) in zip(got, want_addresses(s)):
            h, _, p = g.rpartition(":")
            ctx.check(h == host and int(p) > 0 and (port is None or int(p) == port), "an address is not the one asked for", got=g, want=(host, port))
        w = World(ctx, rng, mk, pool, s)
        internal = kw.get("enable_internal_addresses")
        if internal:
            c = await w.w(xo.get_pool_config(w.main), "get_pool_config")
            for a, on in zip(got, internal):
                ia = c.get_pool_config(c.get_process_index(a))["internal_address"]
                ctx.check(bool(ia) == on, "a process has an internal address though not asked for, or the other way round", got=ia, want=on)
        await w.verify("start")
        t = await w.w(xo.create_actor(cf.Teller, uid="main", address=w.main, allocate_strategy=MainPool()), "create_actor in main")
        told = await w.w(t.tell(["VF_MARK", "VF_PARENT"], mk.names, []), "a call")
        ctx.check(told["pid"] == os.getpid() and told["env"] == {"VF_MARK": None, "VF_PARENT": os.environ["VF_PARENT"]}, "the environment of the main process was changed by those of sub pools", got=told["env"])
        for m in kw["modules"] or []:
            ctx.check(told["modules"][m] is not None, "a module asked for was not imported in the main process", module=m)
        steps = [w.interrupt, w.die, w.append, w.append, w.die]
        rng.shuffle(steps)
        for step in steps[: rng.choice([3, 5, 5])]:
            ctx.phase(f"{k} {step.__name__}")
            await step()
            await w.verify(step.__name__)
    finally:
        await ctx.within(pool.stop(), WAIT, "pool.stop()")


def refused(rng, mk):
    """(what, kwargs, exceptions) of pools that cannot be."""
    n = rng.choice([1, 2, 3])
    more = rng.choice([-1, 1])
    taken = socket.socket()
    taken.bind(("127.0.0.1", 0))
    taken.listen(1)
    port = taken.getsockname()[1]
    cases = [
        ("labels", dict(n_process=n, labels=["x"] * (n + 1 + more)), ValueError),
        ("envs", dict(n_process=n, envs=[{"VF_MARK": "1"}] * (n + 1)), ValueError),
        ("schemes", dict(n_process=n, external_address_schemes=[None] * (n + 1 + more)), ValueError),
        ("internal", dict(n_process=n, enable_internal_addresses=[True] * (n + 1 + more)), ValueError),
        ("ports", dict(n_process=n, ports=[pools.free_port() for _ in range(n + 1 + more)]), ValueError),
        ("ports with main", dict(n_process=n, address=f"127.0.0.1:{pools.free_port()}", ports=[pools.free_port() for _ in range(n + more or 2 * n + 1)]), ValueError),
        ("recover", dict(n_process=n, auto_recover=rng.choice(["actors", "no", 7])), ValueError),
        ("module", dict(n_process=n, modules=["vf_no_such_module"]), (ImportError, OSError)),
        ("logging", dict(n_process=n, logging_conf={"dict": {"version": 99}}), OSError),
        ("main port taken", dict(n_process=n, address=f"127.0.0.1:{port}"), OSError),
        ("sub port taken", dict(n_process=1, ports=[pools.free_port(), port]), OSError),
    ]
    return taken, cases


async def refuse(ctx, rng, mk, seg):
    taken, cases = refused(rng, mk)
    try:
        for what, kw, exc in cases:
            ctx.phase(f"refused {what}")
            before = children()
            kw = dict(kw)
            try:
                p = await ctx.within(xo.create_actor_pool(kw.pop("address", "127.0.0.1"), **kw), WAIT, "create_actor_pool that is to be refused", what_=what)
            except exc:
                pass
            except Exception as e:
                ctx.violation("a pool that cannot be was refused in another way", how=what, error=e)
            else:
                await p.stop()
                ctx.violation("a pool that cannot be was created", how=what)
            left = children() - before
            for _ in range(50):
                if not still_there(left):
                    break
                await asyncio.sleep(0.1)
            ctx.check(not still_there(left), "a refused pool left a process", how=what)
            ctx.check(not seg.left(), "a refused pool left shared memory", how=what, got=seg.left())
            ctx.case(("refused", what))
            ctx.count("refused")
    finally:
        taken.close()


async def default_size(ctx):
    p = await ctx.within(pools.start(None), WAIT * 3, "create_actor_pool without n_process")
    try:
        ctx.check(len(p.sub_processes) == os.cpu_count(), "a pool of default size has not a process for each cpu", got=len(p.sub_processes), want=os.cpu_count())
        refs = [await ctx.within(xo.create_actor(cf.Teller, uid=f"d{i}", address=p.external_address, allocate_strategy=ProcessIndex(i)), WAIT, "create_actor") for i in range(os.cpu_count() + 1)]
        told = [await ctx.within(r.tell([], [], []), WAIT, "a call") for r in refs]
        ctx.check(len({t["pid"] for t in told}) == os.cpu_count() + 1, "processes of a pool are not distinct", got=[t["pid"] for t in told])
    finally:
        await p.stop()
    ctx.case(("default size", os.cpu_count()))


async def many(ctx, rng, n):
    """As many processes as their common configuration allows, which is large."""
    envs = [{"VF_MARK": f"m{i}", "VF_BIG": "z" * rng.choice([1000, 6000, 20000])} for i in range(n)]
    p = await ctx.within(pools.start(n, envs=envs, labels=["main" * 200] + [f"label{i}" * 100 for i in range(n)]), WAIT * 5, "create_actor_pool of a large configuration", n=n)
    try:
        for i, a in enumerate(p.sub_processes):
            r = await ctx.within(xo.create_actor(cf.Teller, uid="b", address=a), WAIT, "create_actor")
            t = await ctx.within(r.tell(["VF_MARK", "VF_BIG"], [], []), WAIT, "a call")
            ctx.check(t["env"] == envs[i], "the environment of a sub pool is not the one asked for", process=i)
    finally:
        await p.stop()
    ctx.case(("large", n))


async def inproc(ctx, rng, k):
    n = rng.choice([None, 0, 1, 2, 3])
    m = n if n is not None else os.cpu_count()
    labels = [rng.choice([None, "red", "blue"]) for _ in range(m + 1)] if rng.random() < 0.7 else None
    # addresses of this backend are taken as they are
    port = pools.free_port()
    ports = [pools.free_port() for _ in range(m)]
    if len({port, *ports}) <= m:
        return
    p = await ctx.within(xo.create_actor_pool(f"test://127.0.0.1:{port}", n_process=n, labels=labels, ports=ports), WAIT, "create_actor_pool of the in-process backend")
    try:
        ctx.check(len(p.sub_processes) == m, "an in-process pool has not as many sub pools as asked for", got=len(p.sub_processes), want=m)
        c = await ctx.within(xo.get_pool_config(p.external_address), WAIT, "get_pool_config")
        got = [c.get_pool_config(i)["label"] for i in c.get_process_indexes()]
        ctx.check(got == (labels or [None] * (m + 1)), "labels of an in-process pool differ from those asked for", got=got, want=labels)
        addrs = [c.get_external_address(i) for i in c.get_process_indexes()]
        ctx.check([a.rpartition(":")[2] for a in addrs] == [str(x) for x in [port, *ports]], "addresses of an in-process pool differ from those asked for", got=addrs, port=port)
        for lb in sorted({x for x in labels or [] if x}):
            r = await ctx.within(xo.create_actor(cf.Teller, address=p.external_address, allocate_strategy=RandomLabel(lb)), WAIT, "create_actor by label")
            ctx.check(labels[addrs.index(r.address)] == lb, "an actor made by label is in a process of another label", label=lb, got=r.address)
    finally:
        await ctx.within(p.stop(), WAIT, "pool.stop()")
    ctx.case(("in-process", n, str(labels)), nontrivial=m > 0)


async def probe_uvloop(ctx):
    try:
        import uvloop  # noqa: F401
    except ImportError:
        return
    p = await pools.start(1, use_uvloop=True)
    try:
        r = await xo.create_actor(cf.Teller, address=pools.subs(p)[0])
        t = await ctx.within(r.tell([], [], []), WAIT, "a call")
        ctx.known_finding("uvloop-sub-pools", "uvloop" not in t["loop"], "use_uvloop=True has no effect in sub pools: the loop made for it is not the one asyncio.run runs")
    finally:
        await p.stop()


async def run(ctx):
    rng = ctx.rng
    # programs run in the background of a shell ignore it, and so would the sub pools anyway
    signal.signal(signal.SIGINT, signal.default_int_handler)
    mk = Maker(ctx, rng)
    os.makedirs(mk.mods)
    for m in mk.names:
        with open(os.path.join(mk.mods, m + ".py"), "w") as f:
            f.write(MODULE)
    sys.path.insert(0, mk.mods)
    os.environ["PYTHONPATH"] = mk.mods + os.pathsep + os.environ.get("PYTHONPATH", "")
    os.environ["VF_PARENT"] = f"parent{rng.random()}"
    for v in ("VF_MARK", "VF_WRAP", "VF_BIG"):
        os.environ.pop(v, None)
    seg = Segments()
    await refuse(ctx, rng, mk, seg)
    ctx.phase("default size")
    await default_size(ctx)
    await many(ctx, rng, ctx.n(3, 40))
    await probe_uvloop(ctx)
    for k in range(ctx.n(3, 20)):
        await inproc(ctx, rng, k)
    k = 0
    while ctx.left(45, 900) or k < 6:
        import random as _r

        await asyncio.gather(*[one(ctx, _r.Random(rng.random()), Maker(ctx, _r.Random(rng.random())), f"{k}/{j}") for j in range(2)])
        k += 1
        if k > 400:
            break
    ctx.count("segments", len(seg.names))
    ctx.check(not seg.left(), "pools left shared memory", got=seg.left())
    # what was left by all of them
    ctx.check(not still_there(children()), "processes of pools are left", got=len(still_there(children())))
